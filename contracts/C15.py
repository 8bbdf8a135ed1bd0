"""C15: which bin a coordinate belongs to."""
import bisect
import math
import struct
import term as t
import check
import prover as pv
from check import *

T = {"d": "f64", "f": "f32", "l": "i64", "i": "i32", "t": "i64"}
ZERO = t.const(0)


def f32(x): return struct.unpack("<f", struct.pack("<f", x))[0]


def isnan(x):
    if x.sort != "R": return t.FALSE
    if x.op == "var" and str(x.args[0]).startswith("nonfinite_"): return t.lift("nan" in x.args[0])
    return t.FALSE if check.CONCRETE[0] else t.uf("isnan", (x,), "B")


def num(x): return t.toreal(x) if x.sort == "I" else x


def pair(a, b): return (a, b) if a.sort == b.sort else (num(a), num(b))
def lt(a, b): return t.lt(*pair(a, b))
def le(a, b): return t.le(*pair(a, b))


def coord_nan(v): return isnan(v.x)
def inside(v): return t.And(t.Not(coord_nan(v)), le(v.e(ZERO), v.x), lt(v.x, v.e(v.n - 1)))
def holds(v, b): return t.And(t.ge(b, 0), t.le(b, v.n - 2), le(v.e(b), v.x), lt(v.x, v.e(b + 1)))


def spec_bin(v):
    """concrete runs: the bin by definition"""
    b = t.const(-1)
    for k in range(v.e.n - 1): b = t.ite(t.And(t.Not(coord_nan(v)), holds(v, t.const(k))), k, b)
    return b


def gen(x, e, extra=None):
    def conv(y, c):
        if c == "f": return f32(float(y))
        if c == "d": return float(y)
        return int(y)

    def g(r):
        n = r.choice([2, 2, 3, 4, 5, 8, 17])
        if r.random() < .6:
            a, w = r.choice([(0, 1), (-3, 2), (10, 5), (1e6, 1), (0, .1), (1e5, .25)]) if e in "df" else r.choice([(0, 1), (-3, 2), (1000, 7)])
            es = [a + w * k for k in range(n)]
            if e in "df" and r.random() < .3:  # edges linear only up to rounding, bins of a few ulp
                b = conv(r.choice([1e6, 3.0, 1e16 if e == "d" else 1e7]), e)
                u = math.ulp(b) if e == "d" else f32(b) * 2.0 ** -23
                es = [b + u * 2 * k + r.choice([0, u]) for k in range(n)]
        else: es = sorted(r.randrange(-10, 10) for _ in range(n))
        es = sorted(conv(y, e) for y in es)
        if es[0] >= es[-1] and r.random() < .9: es[-1] = es[0] + 1
        q = r.choice(es)
        xs = [q, q, q, (es[0] + es[-1]) / 2, es[0] - 1, es[-1] + 1, r.uniform(es[0], es[-1])]
        if x in "df": xs += [math.nextafter(q, 1e300), math.nextafter(q, -1e300), q * (1 + 2.0 ** -23), float("nan"), q + .25, float("inf"), float("-inf")]
        else: xs += [math.floor(q) + 1, math.floor(q) - 1]
        d = {"x": conv(r.choice(xs), x), "e": es, "n": n}
        if extra: extra(r, d)
        return d
    return g


def entries(tier):
    es = []
    n = lambda v: v.n

    def pre(x, e, linear):
        def f(v):
            out = [t.ge(v.n, 2 if linear else 1), t.lt(v.n, 1 << 31)]
            if T[x][0] == "i" and T[e][0] == "f": out += [t.ge(v.x, -(1 << 53)), t.le(v.x, 1 << 53)]
            if check.CONCRETE[0]:
                vals = [t.cval(v.e(k)) for k in range(v.e.n)]
                out.append(t.lift(None not in vals and vals == sorted(vals)))
                return out
            # ascending (pairwise between neighbours; the consequences used below are proved as lemmas)
            out.append(forall(ZERO, v.n - 1, lambda k: le(v.e(k), v.e(k + 1))))
            out.append(forall(ZERO, v.n, lambda k: t.And(le(v.e(ZERO), v.e(k)), le(v.e(k), v.e(v.n - 1)))))
            return out
        return f

    def setup(ex, st, v): ex.argn, ex.argx = v.n, v.x

    def inv(ex, L):
        arr = L.st0.mem[ex.argobj["e"]].fields[0][1]
        N, x = ex.argn, ex.argx
        E = lambda k: t.select(arr, k)
        out = []
        pos = L.positions()
        lt_ = lambda a, b: t.And(t.Not(isnan(a)), lt(a, b))
        cs = [c for _, i, c in pos]
        for o, i, c in pos:
            for b in (c, c - 1, c + 1):
                out += [t.ge(b, 0), t.le(b, N - 2), t.le(b, N - 1), t.le(b, N), le(E(b), x), lt(x, E(b)), t.Or(t.le(b, 0), t.Not(lt_(x, E(b - 1)))), t.Or(t.lt(b, 0), le(E(b), x)), t.Or(t.ge(b, N), lt_(x, E(b)))]
            for _, _, d in pos:
                if d is c: continue
                for s in (c + d, c + d + 1): out += [t.le(s, N), t.Or(t.ge(s, N), lt_(x, E(s)))]
        return out
    nan = {"track_nan": lambda y: y.op == "var" and y.args[0] == "x" and y.sort == "R"}

    def Ent(fn, args, post, x, e, lin, extra=None, pre2=None, **kw):
        p = pre(x, e, lin)
        es.append(Entry(fn, args, post, pre=(lambda v: p(v) + pre2(v)) if pre2 else p, inv=inv, setup=setup, gen=gen(x, e, extra), opts=dict(nan, havoc_fptosi=True), **kw))

    def bin_goals(v, r, what="the bin"):
        if check.CONCRETE[0] and not math.isfinite(float(t.cval(v.x) if t.cval(v.x) is not None else float("nan"))):
            return [("no bin for NaN", t.Implies(coord_nan(v), t.eq(r, -1)))]
        return [("no bin, or one that encloses the coordinate", t.Or(t.eq(r, -1), holds(v, r))), ("a bin exactly if the coordinate is inside the edges", t.iff(inside(v), t.ge(r, 0)))]
    for S_ in ("dd", "ff", "df", "fd", "ll", "ii", "ld", "id", "il", "tt"):
        x, e = S_
        X, E = S("x", T[x]), In("e", T[e], n)
        for ix in "li":
            Ent("bin_%s_%s" % (ix, S_), [X, E, S("n")], lambda v, o: bin_goals(v, o.ret), x, e, True, ret=T[ix], about="get_bin, evenly spaced edges")
            bits = 63 if ix == "l" else 31
            big = lambda v, bits=bits: [t.ge(v.index, -1), t.le(v.index * (v.n - 1) + v.n, 1 << bits)]

            def post(v, o):
                if check.CONCRETE[0] and t.cval(v.x) is None and not coord_nan(v) is t.TRUE: return []
                b = o.ret - v.index * (v.n - 1)
                skip, no = t.eq(v.index, -1), t.Not(inside(v))
                return [("an excluded event stays excluded", t.Implies(skip, t.eq(o.ret, -1))), ("excluded if in no bin", t.Implies(no, t.eq(o.ret, -1))),
                        ("otherwise the index is extended by the enclosing bin", t.Implies(t.And(t.Not(skip), t.Not(no)), holds(v, b)))]
            ex = lambda r, d: d.__setitem__("index", r.choice([-1, 0, 0, 1, 2, 7, 1000]))
            for lin in ("lin", "srt"):
                Ent("upd_%s_%s_%s" % (lin, ix, S_), [S("index", T[ix]), X, E, S("n")], post, x, e, lin == "lin", extra=ex, pre2=big, ret=T[ix], about="update_indices_by_binning, %s" % ("evenly spaced edges" if lin == "lin" else "sorted edges"))

    finite = lambda v: not check.CONCRETE[0] or t.cval(v.x) is not None or coord_nan(v) is t.TRUE

    def unique(v, ret, ins, last):
        """for every k that encloses the coordinate the result is that of k"""
        if check.CONCRETE[0]:
            if not finite(v) or t.cval(v.k) >= v.e.n: return []
        enc = t.And(t.ge(v.k, 0), t.lt(v.k, last), le(v.e(v.k), v.x), t.TRUE if check.CONCRETE[0] and t.cval(v.k) + 1 >= v.e.n else t.Or(t.ge(v.k + 1, v.n), lt(v.x, v.e(v.k + 1))))
        return [("value of the bin that encloses the coordinate", t.Implies(t.And(ins, enc), ret(v.k)))]

    def around(v):
        """instances of the edges being ascending for the ghost bin k (lemma: neighbours in order => all pairs in order)"""
        if check.CONCRETE[0]: return [t.ge(v.k, 0), t.lt(v.k, v.n)]
        return [t.ge(v.k, 0), t.lt(v.k, v.n), forall(ZERO, v.k + 1, lambda m: le(v.e(m), v.e(v.k))), forall(v.k + 1, v.n, lambda m: le(v.e(v.k + 1), v.e(m)))]

    def weights(elem, prev=False):
        def f(r, d):
            d["k"] = r.randrange(0, d["n"])
            for q in range(d["n"]):
                if d["e"][q] <= d["x"] and (q + 1 == d["n"] or d["x"] < d["e"][q + 1]) and r.random() < .8: d["k"] = q
            k = d["n"] if prev else d["n"] - 1
            d["w"] = [r.choice([0, 1, 2, 3, 5, 7, -1]) for _ in range(k)]
            if elem[0] == "f": d["w"] = [float(y) + .5 for y in d["w"]]
            d["wv"] = [float(abs(y)) + .25 for y in d["w"]]
            d["fill"] = r.choice([0, -9]) if elem[0] == "i" else float(r.choice([0, -9]))
            d["fv"], d["fe"], d["y"] = -9.0, 99.0, r.choice([0.0, 1.0, 2.5, -3.0])
        return f
    for S_, W in (("dd", "d"), ("dd", "l"), ("ff", "f"), ("fd", "i"), ("df", "d"), ("ll", "d"), ("ii", "i"), ("ld", "d"), ("id", "l"), ("tt", "d")):
        x, e = S_
        for kind in ("lin", "srt", "prev"):
            wn = n if kind == "prev" else (lambda v: v.n - 1)

            def post(v, o, kind=kind):
                ins = inside(v) if kind != "prev" else t.And(le(v.e(ZERO), v.x), t.Not(coord_nan(v)))
                if kind == "prev":  # lookup_previous: nothing is said for NaN
                    if check.CONCRETE[0] and coord_nan(v) is t.TRUE: return []
                    out = t.And(t.Not(coord_nan(v)), lt(v.x, v.e(ZERO)))
                else: out = t.Not(ins)
                if not finite(v): return []
                return [("fill value if in no bin", t.Implies(out, t.eq(o.ret, v.fill)))] + unique(v, lambda k: t.eq(o.ret, v.w(k)), ins, v.n if kind == "prev" else v.n - 1)
            Ent("map_%s_%s_%s" % (kind, S_, W), [S("x", T[x]), In("e", T[e], n), S("n"), In("w", T[W], wn), S("fill", T[W]), S("k")], post, x, e, kind == "lin", extra=weights(T[W], kind == "prev"), pre2=around, ret=T[W],
                about={"lin": "event::map_linspace", "srt": "event::map_sorted_edges", "prev": "event::lookup_previous"}[kind])
    for kind in ("lin", "srt"):
        def post(v, o):
            same = lambda k: t.And(t.eq(o.o(0), v.w(k)), t.eq(o.o(1), v.wv(k)))
            fill = t.And(t.eq(o.o(0), v.fv), t.eq(o.o(1), v.fe))
            if not finite(v): return []
            return [("fill value and variance if in no bin", t.Implies(t.Not(inside(v)), fill))] + unique(v, same, inside(v), v.n - 1)
        wn = lambda v: v.n - 1
        Ent("mapv_%s_dd" % kind, [S("x", "f64"), In("e", "f64", n), S("n"), In("w", "f64", wn), In("wv", "f64", wn), S("fv", "f64"), S("fe", "f64"), Out("o", "f64", 2), S("k")], post, "d", "d", kind == "lin", extra=weights("f64"), pre2=around, about="event::map with variances")
        for S_, D, W in (("dd", "d", "d"), ("dd", "f", "f"), ("ff", "d", "d"), ("tt", "d", "f")):
            def mpost(v, o):
                same = lambda k: approx(o.ret, v.y * v.w(k), 1e-6)
                return [("zero if in no bin", t.Implies(t.Not(inside(v)), t.eq(o.ret, 0)))] + unique(v, same, inside(v), v.n - 1)
            Ent("mul_%s_%s_%s" % (kind, S_, W), [S("y", T[D]), S("x", T[S_[0]]), In("e", T[S_[1]], n), S("n"), In("w", T[W], wn), S("k")], mpost, S_[0], S_[1], kind == "lin", extra=weights("f64"), pre2=around, ret=T[D], about="event::map_and_mul")
    return es


def extra_checks(mod, so, tier, seed):
    """neighbours in order => all pairs in order, by induction over the distance"""
    a, i, k = t.var("a", "AR"), t.var("i"), t.var("k")
    A = lambda j: t.select(a, j)
    r = pv.prove([t.le(A(i), A(k)), t.le(A(k), A(k + 1))], t.le(A(i), A(k + 1)), 10.0)
    return [("lemma: neighbours in order imply pairs in order (induction step)", bool(r), r.backend, None)]


ASSUMPTIONS = ["edges are ascending and not NaN; comparisons of floating-point numbers are those of the represented values (infinities are largest and smallest)",
               "the estimate of the bin on evenly spaced edges is any integer at all: nothing about floating-point arithmetic is used",
               "64 bit integer coordinates with floating-point edges are at most 2^53 in magnitude; the extended bin index is representable"]
EXPLANATION = "get_bin, update_indices_by_binning, map, lookup_previous, map_and_mul: both paths, for all edge arrays of any length, for the coordinate and edge types of the dispatch tables"
