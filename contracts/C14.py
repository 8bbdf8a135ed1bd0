"""C14: evenly spaced ranges."""
import struct
from fractions import Fraction
import term as t
import check
from check import *

EPS = {"f64": Fraction(1, 1 << 52), "f32": Fraction(1, 1 << 23)}


def isn(x): return t.uf("isnan", (x,), "B")


def lin_f(v, e):
    n = v.n
    A, Z = v.a(t.const(0)), v.a(n - 1)
    delta = t.rdiv(Z - A, t.toreal(n - 1))
    eps = (t.Abs(A) + t.Abs(Z)) * t.const(EPS[e] * 4, "R")
    slack = t.const(0, "R")
    return delta, eps


def step_ok(arr, k, delta, eps): return t.le(t.Abs(t.select(arr, k + 1) - t.select(arr, k) - delta), eps)


def gen(elem):
    def g(r):
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 7, 9])
        if elem[0] == "f":
            d = r.choice([1.0, 0.5, 0.1, 2.0, -1.0, 0.0, 1e-3]); s = r.choice([0.0, -3.0, 1e5, 0.3])
            a = [s + d * k for k in range(n)]
            if n and r.random() < .4: a[r.randrange(n)] += r.choice([1e-3, 1.0, -1.0, float("nan"), 1e-12])
            if n > 2 and r.random() < .2:  # steps of a few ulp, up and down
                b = r.choice([1.0, 3.0]); u = 2.0 ** (-52 if elem == "f64" else -23) * b
                a = [b + u * (k + r.choice([0, 0, 1, -1])) for k in range(n)]
            if elem == "f32": a = [struct.unpack("<f", struct.pack("<f", x))[0] for x in a]
        else:
            d = r.choice([1, 1, 1, 2, 3, -1, 0]); s = r.randint(-5, 5)
            a = [s + d * k for k in range(n)]
            if n and r.random() < .5: a[r.randrange(n)] += r.choice([1, -1, 2, -2])
            if n > 2 and r.random() < .2: a = [a[0] + (k % 2) * d for k in range(n)]; a[-1] = a[0] + abs(d)
        return {"a": a, "n": n}
    return g


def entries(tier):
    es = []
    n = lambda v: v.n
    pre = lambda v: [t.ge(v.n, 0), t.lt(v.n, 1 << 50)]
    zero = t.const(0)

    def pinv(good):
        def inv(ex, L):
            arr = L.st0.mem[ex.argobj["a"]].fields[0][1]
            out = []
            cs = [c for _, i, c in L.positions()]
            for c in cs:
                for hi in (c, c - 1, c + 1): out.append(forall(zero, hi, lambda k: good(arr, k)))
            return out
        return inv
    for s, e in (("d", "f64"), ("f", "f32")):
        def post(v, o, e=e):
            if check.CONCRETE[0]:
                import math
                xs = [x.op == "var" for x in v.a.list()] if False else None
                N = v.a.n
                vals = [t.cval(v.a(k)) for k in range(N)]
                if any(x is None for x in vals): return [("a sequence with NaN is not linear", t.Implies(o.ret, t.FALSE))]
                if vals != sorted(vals): return [("a descending step is not linear", t.Not(o.ret))]
                if N < 2 or vals[-1] <= vals[0]: return [("needs two ascending ends", t.Not(o.ret))]
                d = (vals[-1] - vals[0]) / (N - 1)
                ep = (abs(vals[0]) + abs(vals[-1])) * EPS[e] * 4
                worst = max(abs(vals[k + 1] - vals[k] - d) for k in range(N - 1))
                # the comparison itself is subject to rounding: only clear cases are decided on concrete runs
                return [("steps within tolerance", t.Implies(o.ret, t.lift(worst <= 3 * ep))), ("reported", t.Implies(t.lift(worst * 3 <= ep), o.ret))]
            delta, eps = lin_f(v, e)
            ok = t.And(t.ge(v.n, 2), t.gt(v.a(v.n - 1), v.a(zero)), forall(zero, v.n - 1, lambda k: t.And(t.le(v.a(k), v.a(k + 1)), step_ok(v.a_arr, k, delta, eps))), forall(zero, v.n, lambda k: t.Not(isn(v.a(k)))))
            r = o.ret
            return [("reported only if two elements or more", t.Implies(r, t.ge(v.n, 2))), ("reported only if ascending", t.Implies(r, t.gt(v.a(v.n - 1), v.a(zero)))),
                    ("reported only without NaN", t.Implies(r, forall(zero, v.n, lambda k: t.Not(isn(v.a(k)))))),
                    ("reported only if every step is within tolerance of the mean step", t.Implies(r, forall(zero, v.n - 1, lambda k: step_ok(v.a_arr, k, delta, eps)))),
                    ("reported only if no step is down", t.Implies(r, forall(zero, v.n - 1, lambda k: t.le(v.a(k), v.a(k + 1))))),
                    ("reported if all of this holds", t.Implies(ok, r))]

        def inv(ex, L, e=e):
            arr = L.st0.mem[ex.argobj["a"]].fields[0][1]
            nn = ex.argn
            A, Z = t.select(arr, zero), t.select(arr, nn - 1)
            delta, eps = t.rdiv(Z - A, t.toreal(nn - 1)), (t.Abs(A) + t.Abs(Z)) * t.const(EPS[e] * 4, "R")
            out = []
            for _, i, c in L.positions():
                for hi in (c, c - 1, c + 1):
                    out.append(forall(zero, hi, lambda k: step_ok(arr, k, delta, eps)))
                    out.append(forall(zero, hi, lambda k: t.le(t.select(arr, k), t.select(arr, k + 1))))
                    out.append(forall(zero, hi, lambda k: t.Not(isn(t.select(arr, k)))))
                    out.append(forall(zero, hi + 1, lambda k: t.Not(isn(t.select(arr, k)))))
                    out.append(t.Implies(t.gt(hi, 0), forall(zero, hi + 1, lambda k: t.Not(isn(t.select(arr, k))))))
                    out.append(t.Implies(t.gt(hi, 0), t.And(t.Not(isn(A)), t.Not(isn(Z)))))
            return out
        es.append(Entry("islinspace_" + s, [In("a", e, n), S("n")], post, pre=pre, inv=inv, gen=gen(e), ret="bool", opts={"track_nan": lambda x: x.op == "select"}, setup=lambda ex, st, v: setattr(ex, "argn", v.n),
                        about="numeric::islinspace, floating point"))
    for s, e in (("l", "i64"), ("i", "i32"), ("t", "i64")):
        w = 63 if e == "i64" else 31

        def ipre(v, w=w):
            d = lambda k: v.a(k + 1) - v.a(k)
            return pre(v) + [forall(zero, v.n - 1, lambda k: t.And(t.lt(d(k), 1 << w), t.ge(d(k), -(1 << w))))]

        def lpost(v, o):
            d0 = v.a(t.const(1)) - v.a(zero) if not check.CONCRETE[0] or v.a.n > 1 else t.const(1)
            ok = t.And(t.ge(v.n, 2), t.gt(d0, 0), forall(zero, v.n - 1, lambda k: t.eq(v.a(k + 1) - v.a(k), d0)))
            return [("reported only if ascending with equal steps", t.Implies(o.ret, ok)), ("reported if ascending with equal steps", t.Implies(ok, o.ret))]

        def rpost(v, o):
            ok = forall(zero, v.n - 1, lambda k: t.eq(v.a(k + 1), v.a(k) + 1))
            return [("reported only if consecutive", t.Implies(o.ret, ok)), ("reported if consecutive", t.Implies(ok, o.ret))]
        # ascending ends follow from equal positive steps; stated so the solver need not do induction
        def ax(ex, st, v):
            st.ghost["n"] = v.n
            ok = lambda d: t.And(t.gt(d, 0), forall(zero, v.n - 1, lambda k: t.eq(v.a(k + 1) - v.a(k), d)))
            for d in (v.a(t.const(1)) - v.a(zero), t.const(1)):
                st.pcs.append(t.Implies(t.And(t.ge(v.n, 2), ok(d)), t.gt(v.a(v.n - 1), v.a(zero))))
                st.pcs.append(t.Implies(t.And(t.ge(v.n, 2), t.le(d, 0), forall(zero, v.n - 1, lambda k: t.eq(v.a(k + 1) - v.a(k), d))), t.le(v.a(v.n - 1), v.a(zero))))
        def linv(ex, L):
            arr = L.st0.mem[ex.argobj["a"]].fields[0][1]
            d0 = t.select(arr, t.const(1)) - t.select(arr, zero)
            return pinv(lambda a, k: t.eq(t.select(a, k + 1) - t.select(a, k), d0))(ex, L)
        rinv = pinv(lambda a, k: t.eq(t.select(a, k + 1), t.select(a, k) + 1))
        args = [In("a", e, n), S("n")]
        es.append(Entry("islinspace_" + s, args, lpost, pre=ipre, inv=linv, gen=gen(e), ret="bool", setup=ax, about="numeric::islinspace, integers"))
        if s != "t": es.append(Entry("isarange_" + s, args, rpost, pre=ipre, inv=rinv, gen=gen(e), ret="bool", setup=ax, about="numeric::isarange"))
    for op, f in (("issorted_nondescending", t.le), ("issorted_nonascending", t.ge)):
        for s, e in (("l", "i64"), ("i", "i32"), ("d", "f64")):
            es.append(Entry("%s_%s" % (op, s), [S("acc", "bool"), S("a", e), S("b", e)], lambda v, o, f=f: [("accumulates the order of neighbours", t.iff(o.ret, t.And(v.acc, f(v.a, v.b))))], ret="bool", about="element::" + op))
    return es


def extra_checks(mod, so, tier, seed):
    """lemma used above: equal positive (non-positive) steps imply ascending (not ascending) ends, by induction"""
    a, d, k = t.var("a", "AI"), t.var("d"), t.var("k")
    A = lambda i: t.select(a, i)
    st = [t.ge(k, 1), t.eq(A(k + 1) - A(k), d)]
    out = []
    import prover as pv
    for nm, h, g in (("ascending", [t.gt(d, 0), t.gt(A(k), A(zero_))], t.gt(A(k + 1), A(zero_))), ("ascending, base", [t.gt(d, 0), t.eq(A(t.const(1)) - A(zero_), d)], t.gt(A(t.const(1)), A(zero_))),
                     ("not ascending", [t.le(d, 0), t.le(A(k), A(zero_))], t.le(A(k + 1), A(zero_))), ("not ascending, base", [t.le(d, 0), t.eq(A(t.const(1)) - A(zero_), d)], t.le(A(t.const(1)), A(zero_)))):
        r = pv.prove(st + h if "base" not in nm else h, g, 10.0)
        out.append(("lemma: equal steps, %s" % nm, bool(r), r.backend, None))
    return out


zero_ = t.const(0)
ASSUMPTIONS = ["floating-point arithmetic inside islinspace is treated as exact real arithmetic; NaN of the elements is tracked through comparisons",
               "integer sequences: the steps are representable in the element type (precondition)"]
