"""C17: histogram bins hold the sum of the weights of their events."""
import math
import term as t
import check
import prover as pv
from check import *
from C15 import f32, T, gen as gen15
from text import TEXT

Z = t.const(0)
OPAQUE = r"\bislinspace<"


def isnan(x):
    if x.sort != "R": return t.FALSE
    if x.op == "var" and str(x.args[0]).startswith("nonfinite_"): return t.lift("nan" in x.args[0])
    return t.FALSE if check.CONCRETE[0] else t.uf("isnan", (x,), "B")


def Sw(w, m, srt): return t.uf("HSum", (w, t.lift(m)), srt)


def entries(tier):
    es = []
    n, ne = (lambda v: v.n), (lambda v: v.ne)

    def enc(v, i): return t.And(t.Not(isnan(v.x(i))), t.le(v.e(v.b), v.x(i)), t.lt(v.x(i), v.e(v.b + 1)))
    asc = lambda v: forall(Z, v.ne - 1, lambda k: t.le(v.e(k), v.e(k + 1)))

    def pre(v):
        out = [t.ge(v.n, 0), t.lt(v.n, 1 << 40), t.ge(v.ne, 1), t.lt(v.ne, 1 << 40), t.ge(v.b, 0), t.lt(v.b, v.ne - 1)]
        if check.CONCRETE[0]:
            vals = [t.cval(v.e(k)) for k in range(v.e.n)]
            out.append(t.lift(None not in vals and vals == sorted(vals)))
        else:
            # consequences of the edges being ascending, for the ghost bin b (lemma: neighbours in order => pairs in order)
            out.append(t.Implies(asc(v), t.And(forall(Z, v.b + 1, lambda m: t.le(v.e(m), v.e(v.b))), forall(v.b + 1, v.ne, lambda m: t.le(v.e(v.b + 1), v.e(m))), forall(Z, v.ne, lambda m: t.And(t.le(v.e(Z), v.e(m)), t.le(v.e(m), v.e(v.ne - 1)))))))
        return out

    def mkpost(outs, srt, tol):
        def post(v, o):
            if check.CONCRETE[0]:
                out = []
                for k in range(v.e.n - 1):
                    for d, w in outs:
                        s = t.const(0, srt)
                        for i in range(v.x.n):
                            xi = v.x(i)
                            if isnan(xi) is t.TRUE or t.cval(xi) is None: continue
                            s = s + t.ite(t.And(t.le(v.e(k), xi), t.lt(xi, v.e(k + 1))), v[w](i), t.const(0, srt))
                        out.append(("sum over the events in the bin", approx(o[d](k), s, tol, tol)))
                return out
            return [("edges are sorted if there was no error", asc(v))] + [("sum over the events in the bin", t.eq(o[d](v.b), Sw(v["%s_arr" % w], v.n, srt))) for d, w in outs]
        return post

    def throws(v, o): return [("only unsorted edges are refused", t.Not(asc(v))), ("refused as bin edge error", t.lift("BinEdgeError" in str(o.ti)))]

    def mksetup(outs, srt):
        def setup(ex, st, v):
            ex.argv = v
            for d, w in outs:
                a = v["%s_arr" % w]
                st.pcs += [t.eq(Sw(a, 0, srt), t.const(0, srt)), forall(Z, v.n, lambda m: t.eq(Sw(a, m + 1, srt), Sw(a, m, srt) + t.ite(enc(v, m), v[w](m), t.const(0, srt))))]
        return setup

    def mkinv(outs, srt):
        def inv(ex, L):
            v = ex.argv
            N, E = v.ne, v.e
            pos = L.positions()
            out = []
            # the event at hand: the position of an enclosing loop over the events
            outer = [y for p in L.base_pcs for y in t.free_vars(p) if y.sort == "I" and str(y.args[0]).startswith("L_") and p is t.lt(y, v.n)]
            outer = [y for y in outer if all(y is not c for _, _, c in pos)][-1:]
            cur = {d: L.arr(ex.argobj[d])[1] for d, w in outs}
            before = {d: L.arr(ex.argobj[d])[0] for d, w in outs}
            if outer:
                x = v.x(outer[0])
                lt_ = lambda a, b: t.And(t.Not(isnan(x)), t.lt(a, b))
                for _, _, c in pos:
                    out += [t.ge(c, 0), t.le(c, N - 2), t.le(c, N), t.le(E(c), x), t.Or(t.le(c, 0), t.Not(lt_(x, E(c - 1)))), t.Or(t.ge(c, N), lt_(x, E(c)))]
                    for _, _, d in pos:
                        if d is c: continue
                        s = c + d
                        out += [t.le(s, N), t.Or(t.ge(s, N), lt_(x, E(s)))]
                return out
            zeroed = all(pv.prove(L.base_pcs, forall(Z, N - 1, lambda k: t.eq(t.select(before[d], k), t.const(0, srt))), 3.0) for d, w in outs)
            sorted_ = zeroed and pv.prove(L.base_pcs, asc(v), 3.0)
            for _, _, c in pos:
                out += [t.ge(c, 0), t.le(c, N - 1), t.le(c, N)]
                if zeroed and sorted_:
                    for d, w in outs: out.append(t.eq(t.select(cur[d], v.b), Sw(v["%s_arr" % w], c, srt)))
                elif zeroed:
                    for _, _, d in pos:
                        if d is not c: out.append(t.eq(c, d + 1))
                    for q in (c, c - 1): out.append(forall(Z, q, lambda k: t.le(E(k), E(k + 1))))
                else:
                    for d, w in outs: out.append(forall(Z, c, lambda k: t.eq(t.select(cur[d], k), t.const(0, srt))))
            return out
        return inv

    def linspace(ex, st, inst, a, dem):
        """contract of islinspace (C14): two or more elements, ascending, the last above the first"""
        r = t.fresh("linear", "B")
        v = ex.argv
        st.pcs.append(t.Implies(r, t.And(t.ge(v.ne, 2), asc(v), t.lt(v.e(Z), v.e(v.ne - 1)))))
        return r

    def mkgen(X, W):
        g = gen15(X, X)
        def f(r):
            d = g(r)
            es_ = d["e"] if r.random() < .95 else d["e"][:1]
            m = r.randrange(0, 20)
            xs = []
            for _ in range(m):
                d2 = r.choice(es_); lo, hi = es_[0], es_[-1]
                c = r.choice([d2, d2, (lo + hi) / 2, r.uniform(lo, hi), lo - 1, hi + 1, float("nan") if X in "df" else d2])
                xs.append(f32(float(c)) if X == "f" else float(c) if X == "d" else int(c))
            w = lambda: r.randrange(-9, 10) if W in "li" else float(r.randrange(-9, 10)) / 2
            q = len(es_) - 1
            return {"d": [w() for _ in range(q)], "dv": [w() for _ in range(q)], "x": xs, "w": [w() for _ in xs], "wv": [w() for _ in xs], "n": m, "e": es_, "ne": len(es_), "b": r.randrange(q) if q else 0}
        return f
    for X in "dflit":
        for W in "dfli":
            for var in ((0, 1) if W in "df" else (0,)):
                E, WE = T[X], T[W]
                srt = "R" if W in "df" else "I"
                outs = (("d", "w"), ("dv", "wv"))[:1 + var]
                nb = lambda v: v.ne - 1
                args = [Out("d", WE, nb)] + ([Out("dv", WE, nb)] if var else []) + [In("x", E, n), In("w", WE, n)] + ([In("wv", WE, n)] if var else []) + [S("n"), In("e", E, ne), S("ne"), S("b")]
                es.append(Entry("hist%s_%s%s" % ("v" if var else "", X, W), args, mkpost(outs, srt, 1e-5 if W == "f" else 1e-9), pre=pre, throws=throws, inv=mkinv(outs, srt), setup=mksetup(outs, srt), contracts=[(r"\bislinspace<", linspace)] + TEXT, gen=mkgen(X, W),
                                opts={"havoc_fptosi": True, "track_nan": lambda y: y.op == "select" and y.args[0].op == "var" and y.args[0].args[0] == "x" and y.sort == "R"}, about="element::histogram"))
    return es


ASSUMPTIONS = []
EXPLANATION = ""
