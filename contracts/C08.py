"""C08: flat positions and index tuples convert into each other without loss; row-major strides."""
import itertools
import term as t
import check
import prover as pv
from check import *

MAXR = 6


def prod(xs):
    r = t.const(1)
    for x in xs: r = r * x
    return r


def div_facts(flat, shape):
    """instances of the division lemma of extra_checks for the quotients flat, flat/l0, flat/(l0*l1), ..."""
    out, q = [], flat
    for i, l in enumerate(shape[:-1]):
        rest = prod(shape[i + 1:])
        nq = t.tdiv(q, l)
        out.append(t.Implies(t.And(t.ge(l, 1), t.ge(q, 0)), t.And(t.ge(nq, 0), t.Implies(t.lt(q, l * rest), t.lt(nq, rest)), t.Implies(t.eq(q, l * rest), t.eq(nq, rest)))))
        q = nq
    return out


def shp(r, n, lo=0): return [r.choice([lo, 1, 2, 3, 4, 1, 2]) if n > 3 else r.randrange(lo, 7) for _ in range(n)]


def entries(tier):
    es = []
    for n in range(MAXR + 1):
        rk = "rank %d" % n
        rng_ = range(n)

        def spos(v, n=n): return [t.ge(v.shape(i), 1) for i in range(n)]
        def snn(v, n=n): return [t.ge(v.shape(i), 0) for i in range(n)]
        vol = lambda v, n=n: prod([v.shape(j) for j in range(n)])

        # ---- decomposition, one flat position past the end included
        def epre(v, n=n, spos=spos, vol=vol): return spos(v) + [t.ge(v.flat, 0), t.le(v.flat, vol(v))]

        def epost(v, o, n=n, vol=vol):
            if n == 0: return [("scalar index", t.eq(o.idx(0), v.flat))]
            inside = t.lt(v.flat, vol(v))
            comp = t.const(0)
            for d in range(n): comp = comp + o.idx(d) * prod([v.shape(e) for e in range(d)])
            out = [("recomposes", t.eq(comp, v.flat))]
            out += [("index %d inside the shape" % d, t.Implies(inside, t.And(t.ge(o.idx(d), 0), t.lt(o.idx(d), v.shape(d))))) for d in range(n)]
            out += [("one past the end: outermost index is the length, all others zero", t.Implies(t.eq(v.flat, vol(v)), t.eq(o.idx(d), v.shape(d) if d == n - 1 else 0))) for d in range(n)]
            return out

        def egen(r, n=n):
            s = shp(r, n, 1); p = 1
            for x in s: p *= x
            return {"flat": r.choice([p, p - 1, r.randrange(0, p + 1)]), "shape": s}
        es.append(Entry("extract_%d" % n, [S("flat"), In("shape", "i64", n), Out("idx", "i64", max(n, 1))], epost, pre=epre, gen=egen, setup=lambda ex, st, v, n=n: st.pcs.extend(div_facts(v.flat, [v.shape(i) for i in range(n)])), about="extract_indices, " + rk))
        # shapes without elements: the only position gives the zero tuple
        if n:
            es.append(Entry("extract_%d" % n, [S("flat"), In("shape", "i64", n), Out("idx", "i64", n)], lambda v, o, n=n: [("zero tuple", t.eq(o.idx(d), 0)) for d in range(n)], name="extract_empty_%d" % n,
                            pre=lambda v, n=n, snn=snn: snn(v) + [t.eq(v.flat, 0), t.Or(*[t.eq(v.shape(i), 0) for i in range(n)])], gen=lambda r, n=n: {"flat": 0, "shape": [0] + shp(r, n - 1)}, about="extract_indices of a shape without elements, " + rk))
        # ---- composition
        es.append(Entry("compose_%d" % n, [In("strides", "i64", n), In("idx", "i64", n)], lambda v, o, n=n: [("sum of index times stride", t.eq(o.ret, sum((v.strides(i) * v.idx(i) for i in range(n)), t.const(0))))], ret="i64",
                        gen=lambda r, n=n: {"strides": [r.randrange(-9, 20) for _ in range(n)], "idx": [r.randrange(0, 9) for _ in range(n)]}, about="flat_index_from_strides, " + rk))

        def rpre(v, n=n, spos=spos, vol=vol): return spos(v) + [t.ge(v.flat, 0), t.lt(v.flat, vol(v))]
        es.append(Entry("roundtrip_%d" % n, [S("flat"), In("shape", "i64", n), Out("idx", "i64", max(n, 1))], lambda v, o, n=n: ([("position recovered", t.eq(o.ret, v.flat))] if n else [("scalar", t.eq(o.ret, 0))]) +
                        [("index %d inside the shape" % d, t.And(t.ge(o.idx(d), 0), t.lt(o.idx(d), v.shape(n - 1 - d)))) for d in range(n)], pre=rpre, ret="i64",
                        gen=lambda r, egen=egen: (lambda d: {**d, "flat": max(0, d["flat"] - 1)})(egen(r)), setup=lambda ex, st, v, n=n: st.pcs.extend(div_facts(v.flat, [v.shape(n - 1 - i) for i in range(n)])),
                        about="extract_indices, then flat_index_from_strides with Strides(Dimensions), " + rk))
        # ---- strides
        row = lambda v, i, n=n: prod([v.shape(j) for j in range(i + 1, n)])
        gsh = lambda r, n=n: {"shape": shp(r, n)}
        es.append(Entry("strides_%d" % n, [In("shape", "i64", n), Out("o", "i64", n + 1)], lambda v, o, n=n, row=row: [("row-major", t.eq(o.o(i), row(v, i))) for i in range(n)] + [("rank", t.eq(o.o(n), n))], pre=snn, gen=gsh, about="Strides(Dimensions), " + rk))
        es.append(Entry("offsets_%d" % n, [In("shape", "i64", n), Out("o", "i64", n + 1)], lambda v, o, n=n, row=row, vol=vol: [("offset of a label", t.eq(o.o(i), row(v, i))) for i in range(n)] + [("volume", t.eq(o.o(n), vol(v)))], pre=snn, gen=gsh, about="Dimensions::offset and volume, " + rk))
        gx = lambda r, n=n: {"x": [r.randrange(-5, 9) for _ in range(n)]}
        es.append(Entry("fromspan_%d" % n, [In("x", "i64", n), Out("o", "i64", n + 1)], lambda v, o, n=n: [("element", t.eq(o.o(i), v.x(i))) for i in range(n)] + [("rank", t.eq(o.o(n), n))], gen=gx, about="Strides(span), " + rk))

        def gxy(r, n=n):
            a = [r.randrange(0, 2) for _ in range(n)]
            return {"x": a, "y": a if r.random() < .5 else [r.randrange(0, 2) for _ in range(n)]}
        alleq = lambda v, n=n: t.And(*[t.eq(v.x(i), v.y(i)) for i in range(n)])
        es.append(Entry("eq_%d" % n, [In("x", "i64", n), In("y", "i64", n)], lambda v, o, alleq=alleq: [("elementwise", t.iff(o.ret, alleq(v)))], ret="bool", gen=gxy, about="Strides::operator==, " + rk))
        es.append(Entry("ne_%d" % n, [In("x", "i64", n), In("y", "i64", n)], lambda v, o, alleq=alleq: [("elementwise", t.iff(o.ret, t.Not(alleq(v))))], ret="bool", gen=gxy, about="Strides::operator!=, " + rk))
        es.append(Entry("push_%d" % n, [In("x", "i64", n), S("a"), Out("o", "i64", n + 2)], lambda v, o, n=n: [("others unchanged", t.eq(o.o(i), v.x(i))) for i in range(n)] + [("appended", t.eq(o.o(n), v.a)), ("rank", t.eq(o.o(n + 1), n + 1))],
                        gen=lambda r, gx=gx: {**gx(r), "a": 77}, about="Strides::push_back, " + rk))
        es.append(Entry("clear_%d" % n, [In("x", "i64", n)], lambda v, o: [("empty", t.eq(o.ret, 0))], ret="i64", gen=gx, about="Strides::clear, " + rk))
        es.append(Entry("resize_%d" % n, [In("x", "i64", n), Out("o", "i64", 9 * (n + 1))], lambda v, o, n=n: [("resize(%d): kept elements unchanged" % m, t.eq(o.o(m * (n + 1) + i), v.x(i))) for m in range(9) for i in range(min(n, m))] + [("resize(%d): rank" % m, t.eq(o.o(m * (n + 1) + n), m)) for m in range(9)],
                        gen=gx, about="Strides::resize to 0..8, " + rk))
        if n:
            es.append(Entry("erase_%d" % n, [In("x", "i64", n), S("k"), Out("o", "i64", n)], lambda v, o, n=n: [("element", t.eq(o.o(i), t.ite(t.lt(i, v.k), v.x(i), v.x(i + 1)))) for i in range(n - 1)] + [("rank", t.eq(o.o(n - 1), n - 1))],
                            pre=lambda v, n=n: [t.ge(v.k, 0), t.lt(v.k, n)], gen=lambda r, gx=gx, n=n: {**gx(r), "k": r.randrange(0, n)}, about="Strides::erase, " + rk))
        if n in (1, 2, 3) or (n == 4):
            def tpre(v, n=n):
                return [t.ge(v.x(i), 0) for i in range(n)] + [t.ge(v.shape(i), 0) for i in range(n)] + [t.And(t.ge(v.order(i), 1000), t.lt(v.order(i), 1000 + n)) for i in range(n)] + \
                       [t.ne(v.order(i), v.order(j)) for i in range(n) for j in range(i)]

            def tpost(v, o, n=n):
                out = []
                for i in range(n):
                    for k in range(n): out.append(("stride of the label now at this place", t.Implies(t.eq(v.order(i), 1000 + k), t.eq(o.o(i), v.x(k)))))
                return out + [("rank", t.eq(o.o(n), n))]

            def tgen(r, n=n):
                p = [1000 + i for i in range(n)]; r.shuffle(p)
                return {"x": [r.randrange(0, 9) for _ in range(n)], "shape": shp(r, n), "order": p}
            es.append(Entry("transpose_%d" % n, [In("x", "i64", n), In("shape", "i64", n), In("order", "u16", n), Out("o", "i64", n + 1)], tpost, pre=tpre, gen=tgen, about="transpose(Strides, Dimensions, order), " + rk))
    # ---- any number of dimensions
    D = lambda a, b, k: t.uf("Dot", (a, b, t.lift(k)), "I")

    def cinv(ex, L):
        a, b = (L.st0.mem[ex.argobj[x]].fields[0][1] for x in ("strides", "idx"))
        out = []
        for _, i, c in L.positions():
            out += [t.eq(q, D(a, b, c)) for _, _, q in L.positions() if q is not c]
        return out

    def csetup(ex, st, v):
        st.pcs += [t.eq(D(v.strides_arr, v.idx_arr, 0), 0), forall(0, v.n, lambda k: t.eq(D(v.strides_arr, v.idx_arr, k + 1), D(v.strides_arr, v.idx_arr, k) + v.strides(k) * v.idx(k)))]

    def cpost(v, o):
        if check.CONCRETE[0]: return [("sum of index times stride", t.eq(o.ret, sum((v.strides(i) * v.idx(i) for i in range(t.cval(v.n))), t.const(0))))]
        return [("sum of index times stride", t.eq(o.ret, D(v.strides_arr, v.idx_arr, v.n)))]

    def cgen(r):
        n = r.randrange(0, 9)
        return {"strides": [r.randrange(-9, 20) for _ in range(n)], "idx": [r.randrange(0, 9) for _ in range(n)], "n": n}
    es.append(Entry("compose_n", [In("strides", "i64", lambda v: v.n), In("idx", "i64", lambda v: v.n), S("n")], cpost, pre=lambda v: [t.ge(v.n, 0)], inv=cinv, setup=csetup, ret="i64", gen=cgen, about="flat_index_from_strides, any number of dimensions"))
    return es


def extra_checks(mod, so, tier, seed):
    a, l, b, q = (t.var(x) for x in "albq")
    h = [t.ge(l, 1), t.ge(a, 0), t.le(l * q, a), t.lt(a, l * q + l)]  # q = a / l
    out = []
    for nm, g in (("a < l*b implies a/l < b", t.Implies(t.lt(a, l * b), t.lt(q, b))), ("a = l*b implies a/l = b", t.Implies(t.eq(a, l * b), t.eq(q, b))), ("a/l >= 0", t.ge(q, 0))):
        r = pv.prove(h, g, 20.0)
        out.append(("lemma: " + nm, bool(r), r.backend + " " + r.reason, None))
    return out


ASSUMPTIONS = ["index arithmetic does not overflow 64 bit (volumes and offsets are representable)", "ranks 0 to 6 (6 = NDIM_OP_MAX, the largest rank operations support); flat_index_from_strides for any rank"]
EXPLANATION = "for every rank up to NDIM_OP_MAX the loops are unrolled completely; shapes, strides and positions are arbitrary integers"
