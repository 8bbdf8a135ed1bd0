"""C13: integer powers equal repeated multiplication."""
from fractions import Fraction
import term as t
import prover as pv
import check
from check import *

OPAQUE = r"integer_pow_pos_exponent|scipp::numeric::.*pow"


def Pw(b, n):
    """spec function: P(b,0)=1, P(b,n+1)=b*P(b,n)"""
    b, n = t.lift(b), t.lift(n)
    cb, cn = t.cval(b), t.cval(n)
    if cn is not None and (0 <= cn <= 4 or (cb is not None and 0 <= cn <= 200000 and (abs(cb) <= 1 or cn <= 5000))):
        if cb is not None: return t.const(Fraction(cb) ** cn if b.sort == "R" else cb ** cn, b.sort)
        r = t.const(1, b.sort)
        for _ in range(cn): r = r * b
        return r
    return t.uf("P" + b.sort, (b, n), b.sort)


def lemmas(b, k, e):
    """instances of the lemmas proved in extra_checks"""
    out = [t.eq(Pw(b, k + k), Pw(b, k) * Pw(b, k)), t.eq(Pw(b, k + k + 1), b * (Pw(b, k) * Pw(b, k))), t.eq(Pw(b, k + 1), b * Pw(b, k))]
    out += [t.Implies(t.eq(k, 0), t.eq(Pw(b, k), t.const(1, b.sort))), t.Implies(t.eq(k, 1), t.eq(Pw(b, k), b))]
    if b.sort == "I":
        out += [t.Implies(t.And(t.gt(t.Abs(b), 1), t.lt(x, e)), t.lt(t.Abs(Pw(b, x)), t.Abs(Pw(b, e)))) for x in (k, k + 1)]
        out += [t.Implies(t.eq(t.Abs(b), 1), t.eq(t.Abs(Pw(b, x)), 1)) for x in (k, k + 1)]
        out += [t.Implies(t.And(t.eq(b, 0), t.ge(x, 1)), t.eq(Pw(b, x), 0)) for x in (k, k + 1)]
    return [t.Implies(t.ge(k, 0), t.And(*out))]


def rng(x): return t.And(t.ge(x, -(1 << 63)), t.lt(x, 1 << 63))


def deref(ex, st, a, ty):
    from symex import Ptr
    return ex.load(st, ty, a) if isinstance(a, Ptr) else a


def recursive(ex, st, inst, args, dem):
    """the recursive call is checked against the function's own contract"""
    fr = next((f for f in reversed(st.frames) if f.fn.dem == dem), None)
    if fr is None: return NotImplemented
    ty = inst.ty
    b, k = deref(ex, st, args[0], ty), deref(ex, st, args[1], ("i", 64))
    p = fr.fn.params
    cb, e = deref(ex, st, fr.env[p[0][1]], ty), deref(ex, st, fr.env[p[1][1]], ("i", 64))
    ex.oblige("recursion is well-founded", "variant", st, t.And(t.ge(k, 0), t.lt(k, e)))
    st.pcs += lemmas(b, k, e)
    if b.sort == "I": ex.oblige("precondition of the recursive call: power is representable", "pre", st, rng(Pw(b, k)))
    return Pw(b, k)


def setup(f):
    def g(ex, st, v):
        for n in (f(v),):
            st.pcs += [t.Implies(t.eq(n, 0), t.eq(Pw(v.base, n), t.const(1, v.base.sort))), t.Implies(t.eq(n, 1), t.eq(Pw(v.base, n), v.base))]
    return g


def entries(tier):
    es = []
    con = [(r"integer_pow|numeric::.*pow", recursive)]
    for N, B, E in (("dl", "f64", "i64"), ("di", "f64", "i32"), ("fl", "f32", "i64"), ("fi", "f32", "i32"), ("ll", "i64", "i64"), ("li", "i64", "i32")):
        m = 1 << (63 if E == "i64" else 31)
        fl = B[0] == "f"
        one = t.const(1, "R" if fl else "I")
        tol = (1e-9, 1e-300) if B == "f64" else (1e-4, 1e-30)

        def gen(r, fl=fl, B=B):
            import struct
            b = r.choice([0, 1, -1, 2, -2, 3, 10, -7]) if not fl else r.choice([0.0, 1.0, -1.0, 2.0, -2.0, 1.5, -0.5, r.uniform(-2, 2)])
            if B == "f32": b = struct.unpack("<f", struct.pack("<f", b))[0]
            return {"base": b, "e": r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 23, 31, 32, 47, 62, 63, 39, 27]) if fl or abs(b) < 3 else r.choice(range(0, 20))}

        def ngen(r, gen=gen):
            d = gen(r); d["e"] = -max(d["e"], 1); return d
        pos = lambda v, fl=fl: [t.ge(v.e, 0)] + ([] if fl else [rng(Pw(v.base, v.e))])
        post = lambda v, o, tol=tol: [("product of e copies of the base", approx(o.ret, Pw(v.base, v.e), *tol))]
        opts = {"check_nsw": not fl, "timeout": 20.0}
        for fn in ["pow_" + N] + {"dl": ["epow_dl", "epowip_dl"], "ll": ["epow_ll", "epowip_ll"]}.get(N, []):
            es.append(Entry(fn, [S("base", B), S("e", E)], post, pre=pos, setup=setup(lambda v: v.e), contracts=con, ret=B, gen=gen, opts=opts, about="numeric::pow, exponent >= 0"))
        neg = lambda v, fl=fl, m=m, one=one: [t.lt(v.e, 0), t.gt(v.e, -m), t.ne(v.base, one - one)] + ([] if fl else [rng(Pw(v.base, -v.e))])
        if fl: npost = lambda v, o, tol=tol: [("reciprocal of the positive power", approx(o.ret, t.rdiv(t.const(1, "R"), Pw(v.base, -v.e)), *tol))]
        else: npost = lambda v, o: [("reciprocal, truncated", t.Implies(t.ne(Pw(v.base, -v.e), 0), t.eq(o.ret, t.tdiv(1, Pw(v.base, -v.e)))))]
        ncon = [(r"integer_pow|numeric::.*pow", lambda ex, st, inst, args, dem: recursive(ex, st, inst, args, dem))]
        if fl: es.append(Entry("npow_" + N, [S("base", B), S("e", E)], npost, pre=neg, setup=setup(lambda v: -v.e), contracts=ncon, ret=B, gen=ngen, opts={"timeout": 20.0}, about="numeric::pow, exponent < 0"))
    return es


def extra_checks(mod, so, tier, seed):
    """the lemmas about P used above, by induction from its recursive definition"""
    out = []
    for s in "RI":
        P = lambda n, s=s: t.uf("PP", (t.lift(n),), s)
        b, m, n = t.var("b", s), t.var("m"), t.var("n")
        one = t.const(1, s)
        step = lambda n: t.Implies(t.ge(n, 0), t.eq(P(n + 1), b * P(n)))
        base = [t.eq(P(0), one), t.ge(m, 0), t.ge(n, 0)]

        def lem(name, hyps, goal):
            r = pv.prove(base + hyps, goal, 20.0)
            out.append(("lemma (%s): %s" % (s, name), bool(r), r.backend + " " + r.reason, None))
        # P(m+n) = P(m) P(n), induction on n
        lem("P(m+n)=P(m)P(n), base case", [], t.eq(P(m), P(m) * P(0)))
        x, y = t.var("x", s), t.var("y", s)
        lem("P(m+n)=P(m)P(n), induction step", [t.eq(P(m + n), P(m) * P(n)), step(m + n), step(n)], t.eq(P(m + n + 1), P(m) * P(n + 1)))
        if s == "I":
            lem("|b| > 1: |P| >= 1 is inductive", [t.gt(t.Abs(b), 1), step(n), t.ge(t.Abs(P(n)), 1)], t.ge(t.Abs(P(n + 1)), 1))
            lem("|b| > 1: |P(n+1)| > |P(n)|", [t.gt(t.Abs(b), 1), step(n), t.ge(t.Abs(P(n)), 1)], t.gt(t.Abs(P(n + 1)), t.Abs(P(n))))
            lem("|b| = 1: |P| = 1 is inductive", [t.eq(t.Abs(b), 1), step(n), t.eq(t.Abs(P(n)), 1)], t.eq(t.Abs(P(n + 1)), 1))
            lem("b = 0: P(n+1) = 0", [t.eq(b, 0), step(n)], t.eq(P(n + 1), 0))
    return out


ASSUMPTIONS = ["floating-point multiplication is treated as exact", "monotonicity |P(m)| < |P(n)| for m < n, |b| > 1 follows from the proved step |P(n)| < |P(n+1)| by induction"]
EXPLANATION = "the recursion in integer_pow is verified by contract: the body is checked once for an arbitrary exponent, the recursive call is replaced by the function's own contract with a well-founded variant; integer instances additionally prove absence of overflow whenever the result is representable"
