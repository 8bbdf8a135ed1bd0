"""C20: scans, time points and unit scaling."""
import struct
import term as t
import prover as pv
import check
from check import *
from C11 import P, W, f32

BITS = {"i64": 63, "i32": 31}


def fits(x, e): return t.And(t.ge(x, -(1 << BITS[e])), t.lt(x, 1 << BITS[e]))


def Sum(arr, k, sort):
    """spec function: total of the first k elements"""
    if t.cval(t.lift(k)) == 0: return t.const(0, sort)
    return t.uf("Sum" + sort, (arr, t.lift(k)), sort)


def unfold(arr, k, sort): return t.And(t.eq(t.uf("Sum" + sort, (arr, t.const(0)), sort), t.const(0, sort)), t.eq(t.uf("Sum" + sort, (arr, k + 1), sort), t.uf("Sum" + sort, (arr, k), sort) + t.select(arr, k)))


INTS = [0, 1, -1, 2, 5, -7, 1000, 86400, (1 << 31) - 1, -(1 << 31), (1 << 53) + 1, -(1 << 53) - 3, (1 << 52) + 1, 1700000000001, 643371375338643, (1 << 62) + 1, (1 << 63) - 1, -(1 << 63)]
SC = [1.0, 0.5, 0.1, 1e3, 1e-3, 60.0, 1 / 60, 7.0, -1.0, 2.5, 1e10, 1e20, 1e-20, 0.0, 3.0, float("nan"), float("inf"), 0.49999999999999994, 4503599627370497.0, -2.5]


def gen_i(names, elems):
    def g(r):
        d = {}
        for n, e in zip(names, elems):
            if e[0] == "i":
                x = r.choice(INTS + [r.randrange(-1000, 1000), r.randrange(-(1 << 63), 1 << 63)])
                d[n] = x if e == "i64" else max(-(1 << 31), min((1 << 31) - 1, x))
            else:
                x = r.choice(SC + [r.uniform(-10, 10)])
                d[n] = f32(x) if e == "f32" else x
        return d
    return g


def abstract(hyps, goal):
    """the scaled value is an arbitrary double: prove the rounding for all of them, bit-blasted"""
    cands = sorted([y for y in t.atoms(goal) if y.op == "fp.mul"], key=lambda y: y.id)
    if not cands: return None
    m = {y: t.var("scaled%d" % i, y.sort) for i, y in enumerate(cands)}
    c = {}
    hs = [t.subst(h, m, c) for h in hyps]
    g = t.subst(goal, m, c)
    return "z3 bit-blasting (for every scaled value)" if pv.prove_fpbv(hs, g, 60.0) else None


def nearest(p, bits):
    """the integer nearest to p (ties away from zero), saturated; NaN becomes the smallest integer as in numpy"""
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    num = lambda x: t.mk("fpconst", (struct.unpack("<Q", struct.pack("<d", x))[0], "F64"), "F64")
    r = t.mk("fp.rna", (p,), "F64")
    return t.ite(t.mk("fp.isnan", (p,), "B"), lo, t.ite(P("le", num(2.0 ** (bits - 1)), r), hi, t.ite(P("lt", r, num(-(2.0 ** (bits - 1)))), lo, t.mk("fp.sbv%da" % bits, (p,), "I"))))


def entries(tier):
    es = []
    # ---- scans
    for N, A, B in (("d", "f64", "f64"), ("f", "f64", "f32"), ("l", "i64", "i64"), ("i", "i32", "i32")):
        fl = A[0] == "f"
        srt = "R" if fl else "I"
        tol = (1e-5, 1e-5) if B == "f32" else (1e-9, 1e-9)

        def same(a, b, fl=fl, tol=tol): return approx(a, b, *tol) if fl else t.eq(a, b)

        def g1(r, A=A, B=B):
            f = lambda e: r.choice([0, 1, -2, 3, 7, 16777217, -1000000007, 123456789] + ([(1 << 53) + 1, -(1 << 61) - 1] if e == 'i64' else [])) if e[0] == "i" else r.choice([0.0, 1.5, -2.0, 0.25])
            return {"sum": [f(A)], "x": [f(B)]}
        pre = (lambda v, A=A: [fits(v.sum(0) + v.x(0), A)]) if not fl else None
        o2 = {"check_nsw": not fl}
        es.append(Entry("excl_" + N, [IO("sum", A, 1), IO("x", B, 1)], lambda v, o, same=same: [("total", same(o.sum(0), v.sum(0) + v.x(0))), ("elements before", same(o.x(0), v.sum(0)))], pre=pre, gen=g1, opts=o2, ieee=not fl, about="element::exclusive_scan"))
        es.append(Entry("incl_" + N, [IO("sum", A, 1), IO("x", B, 1)], lambda v, o, same=same: [("total", same(o.sum(0), v.sum(0) + v.x(0))), ("elements up to here", same(o.x(0), v.sum(0) + v.x(0)))], pre=pre, gen=g1, opts=o2, ieee=not fl, about="element::inclusive_scan"))

        # running sums over a whole sequence; the loop is the driver's, its body is the element operation
        for kind in ("excls_", "incls_"):
            inc = 1 if kind[0] == "i" else 0
            SM = lambda a, k, srt=srt: t.uf("Sum" + srt, (a, t.lift(k)), srt)

            def post(v, o, inc=inc, srt=srt, same=same, SM=SM):
                if check.CONCRETE[0]:
                    out, s = [], t.const(0, srt)
                    for k in range(t.cval(v.n)):
                        nx = s + v.x(k)
                        out.append(("running total", same(o.x(k), nx if inc else s)))
                        s = nx
                    return out
                return [("running total", forall(0, v.n, lambda k: t.eq(o.x(k), SM(v.x_arr, k + inc))))]

            def inv(ex, L, inc=inc, srt=srt, SM=SM):
                before, cur = L.arr(ex.argobj["x"])
                pos = [c for _, _, c in L.positions()]
                out = []
                for c in pos:
                    if c.sort != "I": continue
                    out += [t.eq(q, SM(before, c)) for q in ([x[3] for x in L.reals] if srt == 'R' else pos) if q is not c]
                    out += [forall(0, c, lambda k: t.eq(t.select(cur, k), SM(before, k + inc))), forall(c, ex.argn, lambda k: t.eq(t.select(cur, k), t.select(before, k)))]
                return out

            def setup(ex, st, v, srt=srt, SM=SM):
                ex.argn = v.n
                st.pcs += [t.eq(SM(v.x_arr, 0), t.const(0, srt)), forall(0, v.n, lambda k: t.eq(SM(v.x_arr, k + 1), SM(v.x_arr, k) + v.x(k)))]

            def spre(v, A=A, fl=fl, SM=SM):
                if fl or check.CONCRETE[0]: return [t.ge(v.n, 0)]
                return [t.ge(v.n, 0), forall(0, v.n + 1, lambda k: fits(SM(v.x_arr, k), A))]

            def gs(r, fl=fl):
                m = r.randrange(0, 7)
                return {"x": [r.choice([0.0, 1.5, -2.0, 0.25]) if fl else r.choice([0, 1, -2, 3, 7, 16777217, -50000001]) for _ in range(m)], "n": m}
            es.append(Entry(kind + N, [IO("x", B, lambda v: v.n), S("n")], post, pre=spre, inv=inv, setup=setup, gen=gs, opts=o2, ieee=not fl, about="whole running sum through element::%s" % ("inclusive_scan" if inc else "exclusive_scan")))
    # ---- time points
    a64 = lambda v: v.a + v.b
    for N, I in (("l", "i64"), ("i", "i32")):
        g = gen_i(["a", "b"], ["i64", I])
        args = [S("a"), S("b", I)]
        p = lambda v: [fits(v.a + v.b, "i64")]
        m = lambda v: [fits(v.a - v.b, "i64")]
        chk = {"check_nsw": True}
        for fn, pr, f in (("add_", p, lambda v: v.a + v.b), ("radd_", p, lambda v: v.a + v.b), ("addeq_", p, lambda v: v.a + v.b), ("sub_", m, lambda v: v.a - v.b), ("subeq_", m, lambda v: v.a - v.b)):
            es.append(Entry(fn + N, args, lambda v, o, f=f: [("exact", t.eq(o.ret, f(v)))], pre=pr, gen=g, ret="i64", opts=chk, about="time_point arithmetic"))
        es.append(Entry("inv_" + N, args, lambda v, o: [("operations invert one another", o.ret)], pre=p, gen=g, ret="bool", opts=chk, about="time_point arithmetic"))
    g = gen_i(["a", "b"], ["i64", "i64"])
    ab = [S("a"), S("b")]
    es.append(Entry("diff", ab, lambda v, o: [("exact", t.eq(o.ret, v.a - v.b))], pre=lambda v: [fits(v.a - v.b, "i64")], gen=g, ret="i64", opts={"check_nsw": True}, about="time_point difference"))

    def gg(r):
        d = g(r)
        if r.random() < 0.4: d["b"] = d["a"]
        return d
    for op, f in (("eq", t.eq), ("ne", t.ne), ("lt", t.lt), ("gt", t.gt), ("le", t.le), ("ge", t.ge)):
        es.append(Entry("tp_" + op, ab, lambda v, o, f=f: [("order of the instants", t.iff(o.ret, f(v.a, v.b)))], gen=gg, ret="bool", about="time_point comparison"))
    es.append(Entry("tp_hash", ab, lambda v, o: [("equal time points hash equal", t.Implies(t.eq(v.a, v.b), o.ret))], gen=gg, ret="bool", about="std::hash<time_point>"))
    # ---- unit scaling
    mul = lambda a, b: t.mk("fp.mul", (a, b), "F64")
    X, Sd = S("x"), S("s", "f64")
    es.append(Entry("tu_dd", [S("x", "f64"), Sd], lambda v, o: [("scaled", t.eq(o.ret, mul(v.x, v.s)))], ieee=True, gen=gen_i("xs", ["f64", "f64"]), ret="f64", about="to_unit, double"))
    es.append(Entry("tu_fd", [S("x", "f32"), Sd], lambda v, o: [("scaled", t.eq(o.ret, t.mk("fp.to32", (mul(W(v.x, "f32", "f64"), v.s),), "F32")))], ieee=True, gen=gen_i("xs", ["f32", "f64"]), ret="f32", about="to_unit, float"))
    for N, e in (("ld", "i64"), ("td", "i64"), ("id", "i32")):
        bits = 64 if e == "i64" else 32
        es.append(Entry("tu_" + N, [S("x", e), Sd], lambda v, o, e=e, bits=bits: [("nearest integer, saturated", t.eq(o.ret, nearest(mul(W(v.x, e, "f64"), v.s), bits)))], ieee=True, gen=gen_i("xs", [e, "f64"]), ret=e,
                        opts={"tactic": abstract, "check_nsw": True, "timeout": 30.0}, about="to_unit of integers and time points by a floating-point scale"))
    for N in ("ll", "tl"):
        sat = lambda x: t.ite(t.gt(x, (1 << 63) - 1), t.const((1 << 63) - 1), t.ite(t.lt(x, -(1 << 63)), t.const(-(1 << 63)), x))
        es.append(Entry("tu_" + N, [S("x"), S("s")], lambda v, o: [("exact product, saturated", t.eq(o.ret, sat(v.x * v.s)))], gen=gen_i("xs", ["i64", "i64"]), ret="i64", opts={"check_nsw": True, "timeout": 30.0}, search=3000,
                        about="to_unit of integers and time points by an integer scale"))
    gv = lambda m: lambda r: {"x": [r.uniform(-3, 3) for _ in range(m)], "s": r.choice([1.0, 10.0, 0.5, 1e3])}
    for fn, m in (("tu_v", 3), ("tu_t", 3)):
        es.append(Entry(fn, [In("x", "f64", m), Sd, Out("o", "f64", m)], lambda v, o: [("component", approx(o.o(i), v.x(i) * v.s)) for i in range(3)], gen=gv(m), about="to_unit of vectors and translations"))
    es.append(Entry("tu_a", [In("x", "f64", 12), Sd, Out("o", "f64", 12)], lambda v, o: [("linear part unchanged, translation scaled", approx(o.o(4 * i + j), v.x(4 * i + j) * (v.s if j == 3 else t.const(1, "R")))) for i in range(3) for j in range(4)], gen=gv(12), about="to_unit of affine transforms"))
    return es


ASSUMPTIONS = ["running sums of floating-point numbers are stated in exact real arithmetic", "sums and differences are representable (signed overflow is excluded by precondition)",
               "the transform machinery that feeds the scans with (sum, element) pairs in order is not under contract; the driver loop stands for it",
               "the choice of the scale factor (units library, lib/variable/to_unit.cpp) is not under contract"]
EXPLANATION = "to_unit is verified bit-precisely: for every double that the scaled value can be, the result is the SMT-LIB round-to-nearest-ties-away conversion, saturated; integer scales give the exact saturated product"
