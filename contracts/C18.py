"""C18: rebinning distributes counts by overlap."""
from fractions import Fraction
import term as t
import check
import prover as pv
from check import *
from C15 import f32

Z = t.const(0)
EL = {"d": "f64", "f": "f32", "l": "i64", "i": "i32", "t": "i64", "b": "bool"}
TYPES = ["ddld", "ddid", "dtdt", "ftft", "dtlt", "dtit", "dtbt", "dddd", "ffff", "fdfd", "fffd", "ddbd"]
WITHVAR = {"dtdt", "ftft", "dddd", "ffff", "fdfd", "fffd"}


def R(x):
    x = t.lift(x)
    return t.toreal(x) if x.sort == "I" else t.ite(x, t.const(1, "R"), t.const(0, "R")) if x.sort == "B" else x


def RS(s, k): return t.uf("RebinSum", (s, t.lift(k)), "R")


def overlap(v, k, m, sg):
    """(overlap of old bin k and new bin m, width of old bin k), as numbers"""
    low = t.Max(R(v.xo(k)), R(v.xn(m))) if sg > 0 else t.Min(R(v.xo(k)), R(v.xn(m)))
    high = t.Min(R(v.xo(k + 1)), R(v.xn(m + 1))) if sg > 0 else t.Max(R(v.xo(k + 1)), R(v.xn(m + 1)))
    a, b = high - low, R(v.xo(k + 1)) - R(v.xo(k))
    return (a, b) if sg > 0 else (t.neg(a), t.neg(b))


def part(v, s, k, m, sg):
    a, b = overlap(v, k, m, sg)
    x = v[s](k) if isinstance(s, str) else t.select(s, k)
    x = t.ite(t.ne(x, 0), t.const(1, "R"), t.const(0, "R")) if x.sort == "I" and hasattr(v, "boolean") and v.boolean else R(x)
    return t.ite(t.gt(a, 0), x * t.rdiv(a, b), t.const(0, "R"))


def entries(tier):
    es = []
    for ty in TYPES:
        for sg in (1, -1):
            for var in (0, 1) if ty in WITHVAR else (0,):
                outs = [("d", "s"), ("dv", "sv")][:1 + var]
                before = (lambda a, b: t.lt(a, b)) if sg > 0 else (lambda a, b: t.gt(a, b))
                noafter = (lambda a, b: t.le(a, b)) if sg > 0 else (lambda a, b: t.ge(a, b))

                hold = {}
                tac = pv.sum_tactic("RebinSum", lambda w, k, hold=hold, sg=sg: part(hold["v"], w[0], k, hold["v"].m, sg), lambda k, hold=hold: t.And(t.ge(k, 0), t.lt(k, hold["v"].no - 1)))

                def pre(v, ty=ty, before=before, noafter=noafter):
                    N, O = v.nn, v.no
                    out = [t.ge(N, 1), t.ge(O, 1), t.lt(N, 1 << 40), t.lt(O, 1 << 40), t.ge(v.m, 0), t.lt(v.m, N - 1)]
                    if check.CONCRETE[0]: return out + [t.And(*[before(v.xo(t.const(k)), v.xo(t.const(k + 1))) for k in range(v.xo.n - 1)]), t.And(*[noafter(v.xn(t.const(k)), v.xn(t.const(k + 1))) for k in range(v.xn.n - 1)])]
                    # old edges strictly monotonic (a bin without width has no density), new edges monotonic; for neighbours, hence for all pairs
                    out += [forall(Z, O - 1, lambda k: before(v.xo(k), v.xo(k + 1))), forall(Z, N - 1, lambda k: noafter(v.xn(k), v.xn(k + 1)))]
                    out += [forall(Z, v.m + 1, lambda k: noafter(v.xn(k), v.xn(v.m))), forall(v.m + 1, N, lambda k: noafter(v.xn(v.m + 1), v.xn(k)))]
                    if ty[1] == "t": out += [forall(Z, O, lambda k: t.And(t.ge(v.xo(k), -(1 << 61)), t.le(v.xo(k), 1 << 61))), forall(Z, N, lambda k: t.And(t.ge(v.xn(k), -(1 << 61)), t.le(v.xn(k), 1 << 61)))]
                    return out

                def post(v, o, outs=outs, sg=sg, ty=ty):
                    out = []
                    for d, s in outs:
                        if check.CONCRETE[0]:
                            for m in range(v.xn.n - 1):
                                want = t.const(0, "R")
                                for k in range(v.xo.n - 1): want = want + part(v, s, t.const(k), t.const(m), sg)
                                out.append(("content times overlap fraction, summed over the old bins", approx(o[d](m), want, 1e-4 if "f" in ty else 1e-9, 1e-4 if "f" in ty else 1e-9)))
                        else: out.append(("content times overlap fraction, summed over the old bins", t.eq(o[d](v.m), RS(v["%s_arr" % s], v.no - 1))))
                    return out

                def setup(ex, st, v, outs=outs, sg=sg, noafter=noafter, hold=hold, ty=ty):
                    ex.argv = hold["v"] = v
                    v["boolean"] = ty[2] == "b"
                    for d, s in outs:
                        a = v["%s_arr" % s]
                        st.pcs += [t.eq(RS(a, 0), t.const(0, "R")), forall(Z, v.no - 1, lambda k: t.eq(RS(a, k + 1), RS(a, k) + part(v, s, k, v.m, sg)))]
                        # lemma (extra_checks): old bins from j on lie beyond the new bin, hence do not contribute
                        st.pcs.append(forall(Z, v.no, lambda j: t.Implies(noafter(v.xn(v.m + 1), v.xo(j)), t.eq(RS(a, v.no - 1), RS(a, j)))))

                def inv(ex, L, outs=outs, sg=sg, noafter=noafter):
                    v = ex.argv
                    N, O, m = v.nn - 1, v.no - 1, v.m
                    pos = L.positions()
                    cur = {d: L.arr(ex.argobj[d])[1] for d, s in outs}
                    out = []
                    zeroed = all(pv.prove(L.base_pcs, forall(Z, N, lambda k: t.eq(t.select(L.arr(ex.argobj[d])[0], k), t.const(0, "R"))), 3.0) for d, s in outs)
                    for _, _, c in pos:
                        out += [t.ge(c, 0), t.le(c, N), t.le(c, O), t.le(c, N - 1), t.le(c, O - 1)]
                        for d, s in outs if not zeroed else (): out.append(forall(Z, c, lambda k: t.eq(t.select(cur[d], k), t.const(0, "R"))))
                    for _, _, io in pos:
                        for _, _, jn in pos:
                            if io is jn or (any(t.lt(jn, O) in b.pcs for b, _ in L.backs) and not any(t.lt(io, O) in b.pcs for b, _ in L.backs)): continue
                            for d, s in outs:
                                a = v["%s_arr" % s]
                                x = t.select(cur[d], m)
                                out += [t.Implies(t.lt(jn, m), t.And(t.eq(x, t.const(0, "R")), t.eq(RS(a, io), t.const(0, "R")))), t.Implies(t.eq(jn, m), t.eq(x, RS(a, io))),
                                        t.Or(t.le(jn, m), t.ge(io, O), t.And(t.eq(x, RS(a, io + 1)), noafter(v.xn(m + 1), v.xo(io + 1)))),
                                        t.Or(t.le(jn, m), t.lt(io, O), t.And(t.eq(x, RS(a, io)), noafter(v.xn(m + 1), v.xo(io))))]
                    return out

                def gen(r, ty=ty, sg=sg):
                    def edges(c, k, strict):
                        xs = set() if strict else []
                        for _ in range(k):
                            x = r.choice([r.randrange(-8, 9), r.randrange(-16, 17) / 2, r.uniform(-9, 9)])
                            x = int(x) if c == "t" else f32(float(x)) if c == "f" else float(x)
                            xs.add(x) if strict else xs.append(x)
                        return sorted(xs, reverse=sg < 0)
                    xo, xn = edges(ty[3], r.randrange(1, 9), True), edges(ty[1], r.randrange(1, 9), False)
                    if ty[1] == ty[3] and r.random() < .5: xn = sorted(list(set(xn)) + r.sample(xo, r.randrange(len(xo) + 1)), reverse=sg < 0)
                    w = lambda: bool(r.randrange(2)) if ty[2] == "b" else r.randrange(-9, 10) if ty[2] in "li" else float(r.randrange(-9, 10)) / 2
                    q, p = len(xo) - 1, len(xn) - 1
                    return {"d": [float(r.randrange(9)) for _ in range(p)], "dv": [float(r.randrange(9)) for _ in range(p)], "xn": xn, "nn": p + 1, "s": [w() for _ in range(q)], "sv": [w() for _ in range(q)], "xo": xo, "no": q + 1, "m": r.randrange(p) if p else 0}
                nn, no, nb, ob = (lambda v: v.nn), (lambda v: v.no), (lambda v: v.nn - 1), (lambda v: v.no - 1)
                args = [Out("d", EL[ty[0]], nb)] + ([Out("dv", EL[ty[0]], nb)] if var else []) + [In("xn", EL[ty[1]], nn), S("nn"), In("s", EL[ty[2]], ob)] + ([In("sv", EL[ty[2]], ob)] if var else []) + [In("xo", EL[ty[3]], no), S("no"), S("m")]
                es.append(Entry("rebin%s_%s_%s" % ("v" if var else "", "a" if sg > 0 else "d", ty), args, post, pre=pre, inv=inv, setup=setup, gen=gen, opts={"inv_tactic": tac, "inv_timeout": 1.5}, about="element::rebin"))
    return es


def extra_checks(mod, so, tier, seed):
    """lemma: RS(n) = RS(j) for all j with xn(m+1) <= xo(j), by induction from n downwards"""
    class V(dict): __getattr__ = dict.__getitem__
    out = []
    for sg, noafter in ((1, t.le), (-1, t.ge)):
        xo, xn, s = t.var("xo", "AR"), t.var("xn", "AR"), t.var("s", "AR")
        n, j, m = t.var("n"), t.var("j"), t.var("m")
        v = V(boolean=False, xo=lambda k: t.select(xo, k), xn=lambda k: t.select(xn, k), s=lambda k: t.select(s, k))
        h = [t.ge(j, 0), t.lt(j, n), (t.lt if sg > 0 else t.gt)(v.xo(j), v.xo(j + 1)), noafter(v.xn(m), v.xn(m + 1)), noafter(v.xn(m + 1), v.xo(j)),
             t.Implies(noafter(v.xn(m + 1), v.xo(j + 1)), t.eq(RS(s, n), RS(s, j + 1))), t.eq(RS(s, j + 1), RS(s, j) + part(v, "s", j, m, sg))]
        r = pv.prove(h, t.eq(RS(s, n), RS(s, j)), 10.0)
        out.append(("lemma: old bins beyond the new bin do not contribute (%s)" % ("ascending" if sg > 0 else "descending"), bool(r), r.backend, None))
    return out


ASSUMPTIONS = ["floating-point arithmetic is treated as exact real arithmetic", "edges are finite; old edges strictly monotonic (a bin without width has no density), new edges monotonic"]
EXPLANATION = ""
