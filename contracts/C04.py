"""C04: merging, inclusion, intersection and transposition of dimension lists."""
import term as t
import check
from check import *
from text import TEXT
from C02 import listing, valid, glist, state, outcome

MAXR = 6


def st(v, n, l, s): return [(getattr(v, l)(i), getattr(v, s)(i)) for i in range(n)]
def inlist(x, lst): return t.Or(*[t.eq(x, a) for a, _ in lst])
def agree(a, b): return t.And(*[t.Implies(t.eq(x, y), t.eq(sx, sy)) for x, sx in a for y, sy in b])


def union(o, lists, order=True):
    """the result holds every label exactly once, with its length; the first list keeps its order"""
    total = sum(len(x) for x in lists)
    ok = t.TRUE
    for i in range(len(lists)):
        for j in range(i): ok = t.And(ok, agree(lists[i], lists[j]))
    out = [("refused exactly if operands disagree on a length", t.iff(t.eq(o.f(0), 0), ok)), ("refused with DimensionError", t.Implies(t.Not(ok), t.eq(o.f(0), 1)))]
    seen, cnt = [], t.const(0)
    for lst in lists:
        cnt = cnt + sum((t.ite(inlist(a, seen), 0, 1) for a, _ in lst), t.const(0))
        seen = seen + lst
    out.append(("every label once", t.Implies(ok, t.eq(o.ret, cnt))))
    for k, lst in enumerate(lists):
        for i, (a, s) in enumerate(lst):
            out.append(("operand %d: label %d present with its length" % (k, i), t.Implies(ok, t.Or(*[t.And(t.lt(p, o.ret), t.eq(o.ol(p), a), t.eq(o.os(p), s)) for p in range(total)]))))
    if order:
        a = lists[0]
        for i in range(len(a) - 1):
            out.append(("labels %d and %d of the first operand keep their order" % (i, i + 1), t.Implies(ok, t.Or(*[t.And(t.lt(p, o.ret), t.eq(o.ol(q), a[i][0]), t.eq(o.ol(p), a[i + 1][0])) for p in range(total) for q in range(p)]))))
    return out


def entries(tier):
    es = []
    pairs = [(n, m) for n in range(4) for m in range(4)] + [(4, 0), (0, 4), (4, 1), (1, 4), (4, 2), (2, 4)]
    if tier == "thorough": pairs += [(4, 3), (3, 4), (4, 4)]
    for n, m in pairs:
        rk = ", ranks %d and %d" % (n, m)
        args = [In("l", "u16", n), In("s", "i64", n), In("m", "u16", m), In("r", "i64", m)]
        k = n + m
        outs = [Out("ol", "u16", 2 * k + 2), Out("os", "i64", 2 * k + 2), Out("f", "i32", 1)]
        pre = lambda v, n=n, m=m: valid(v, n) + valid(v, m, "m", "r")

        def gen(r, n=n, m=m):
            pool = list(range(1, 7)); lens = {x: r.randrange(0, 4) for x in pool}
            a, b = r.sample(pool, n), r.sample(pool, m)
            d = {"l": a, "s": [lens[x] for x in a], "m": b, "r": [lens[x] for x in b]}
            if m and r.random() < .3: d["r"][r.randrange(m)] += 1
            return d
        def both(v, n=n, m=m): return st(v, n, "l", "s"), st(v, m, "m", "r")
        keep = lambda v, o, n=n, m=m: [("operands unchanged", t.And(*[t.And(t.eq(o.ol(n + m + 1 + i), x), t.eq(o.os(n + m + 1 + i), y)) for i, (x, y) in enumerate(st(v, n, "l", "s") + st(v, m, "m", "r"))]))]
        for fn, ab in (("merge", "merge(Dimensions, Dimensions)"), ("merges", "merge(Sizes, Sizes)")):
            es.append(Entry("%s_%d_%d" % (fn, n, m), args + outs, lambda v, o, both=both, keep=keep: union(o, both(v)) + keep(v, o), pre=pre, gen=gen, ret="i64", contracts=TEXT, about=ab + rk))

        def ipost(v, o, both=both, k=k):
            a, b = both(v); ok = agree(a, b)
            out = [("refused exactly if operands disagree on a length", t.iff(t.eq(o.f(0), 0), ok)), ("common labels only", t.Implies(ok, t.eq(o.ret, sum((t.ite(inlist(x, b), 1, 0) for x, _ in a), t.const(0)))))]
            for i, (x, s) in enumerate(a):
                out.append(("common label %d present" % i, t.Implies(t.And(ok, inlist(x, b)), t.Or(*[t.And(t.lt(p, o.ret), t.eq(o.ol(p), x), t.eq(o.os(p), s)) for p in range(min(len(a), len(b)))]))))
            return out
        es.append(Entry("intersect_%d_%d" % (n, m), args + outs, ipost, pre=pre, gen=gen, ret="i64", contracts=TEXT, about="intersection" + rk))
        inc = lambda v, both=both: (lambda a, b: t.And(*[t.Or(*[t.And(t.eq(x, y), t.eq(sx, sy)) for x, sx in a]) for y, sy in b]))(*both(v))
        es.append(Entry("includes_%d_%d" % (n, m), args, lambda v, o, inc=inc: [("every label of the one occurs in the other with the same length", t.iff(o.ret, inc(v)))], pre=pre, gen=gen, ret="bool", contracts=TEXT, about="Sizes::includes" + rk))
        for fn in ("expect", "expects"):
            es.append(Entry("%s_%d_%d" % (fn, n, m), args, lambda v, o, inc=inc: [("accepted exactly if included", t.iff(t.eq(o.ret, 0), inc(v))), ("DimensionError", t.Implies(t.Not(inc(v)), t.eq(o.ret, 1)))], pre=pre, gen=gen, ret="i32", contracts=TEXT, about="expect::includes(%s)" % ("Sizes" if fn[-1] == "s" else "Dimensions") + rk))
    # ---- transpose
    for n, m in [(n, m) for n in range(5) for m in range(1, 5) if n <= 3 or m in (3, 4)] + ([(5, 5)] if tier == "thorough" else []):
        outs = [Out("ol", "u16", 2 * (n + m) + 2), Out("os", "i64", 2 * (n + m) + 2), Out("f", "i32", 1)]

        def post(v, o, n=n, m=m):
            perm = t.lift(False) if n != m else t.And(*[t.Or(*[t.eq(v.m(j), v.l(i)) for i in range(n)]) for j in range(m)], *[t.ne(v.m(j), v.m(i)) for j in range(m) for i in range(j)])
            out = [("accepted exactly if a permutation of the labels", t.iff(t.eq(o.f(0), 0), perm)), ("DimensionError", t.Implies(t.Not(perm), t.eq(o.f(0), 1))), ("rank", t.Implies(perm, t.eq(o.ret, n)))]
            out += [("argument unchanged", t.And(t.eq(o.ol(n + 1 + i), v.l(i)), t.eq(o.os(n + 1 + i), v.s(i)))) for i in range(n)]
            if n == m:
                for j in range(n):
                    out.append(("requested label at %d" % j, t.Implies(perm, t.eq(o.ol(j), v.m(j)))))
                    out += [("length of the label now at %d" % j, t.Implies(t.And(perm, t.eq(v.m(j), v.l(i))), t.eq(o.os(j), v.s(i)))) for i in range(n)]
            return out

        def gen(r, n=n, m=m):
            d = glist(r, n, range(1, 6)); p = list(d["l"]); r.shuffle(p)
            while len(p) < m: p.append(r.randrange(0, 6))
            p = p[:m]
            if r.random() < .3: p[r.randrange(m)] = r.randrange(0, 6)
            return {**d, "m": p}
        es.append(Entry("transpose_%d_%d" % (n, m), listing(n) + [In("m", "u16", m)] + outs, post, pre=lambda v, n=n: valid(v, n), gen=gen, ret="i64", contracts=TEXT, about="transpose of rank %d with %d labels" % (n, m)))
    for n in range(MAXR + 1):
        outs = [Out("ol", "u16", n + 1), Out("os", "i64", n + 1), Out("f", "i32", 1)]
        es.append(Entry("reverse_%d" % n, listing(n) + outs, lambda v, o, n=n: outcome(o, [("reversed", t.TRUE, False, state(v, n)[::-1])]), pre=lambda v, n=n: valid(v, n), gen=lambda r, n=n: glist(r, n), ret="i64", contracts=TEXT, about="transpose without labels, rank %d" % n))
        es.append(Entry("self_%d" % n, listing(n) + outs, lambda v, o, n=n: outcome(o, [("the list itself", t.TRUE, False, state(v, n))]), pre=lambda v, n=n: valid(v, n), gen=lambda r, n=n: glist(r, n), ret="i64", contracts=TEXT, about="merging with itself or with the empty list, rank %d" % n))
    for a, b, c in ((1, 1, 1), (2, 1, 1), (1, 2, 2)) + (((2, 2, 2),) if tier == "thorough" else ()):
        k = a + b + c
        args = [In("l", "u16", a), In("s", "i64", a), In("m", "u16", b), In("r", "i64", b), In("p", "u16", c), In("q", "i64", c), Out("ol", "u16", k + 1), Out("os", "i64", k + 1), Out("f", "i32", 1)]

        def gen(r, a=a, b=b, c=c):
            pool = list(range(1, 6)); lens = {x: r.randrange(0, 4) for x in pool}; d = {}
            for (x, y), n in zip((("l", "s"), ("m", "r"), ("p", "q")), (a, b, c)):
                d[x] = r.sample(pool, n); d[y] = [lens[i] for i in d[x]]
            if r.random() < .3: d["q"][0] += 1
            return d
        es.append(Entry("merge3_%d_%d_%d" % (a, b, c), args, lambda v, o, a=a, b=b, c=c: union(o, [st(v, a, "l", "s"), st(v, b, "m", "r"), st(v, c, "p", "q")]),
                        pre=lambda v, a=a, b=b, c=c: valid(v, a) + valid(v, b, "m", "r") + valid(v, c, "p", "q"), gen=gen, ret="i64", contracts=TEXT, about="merge of three lists, ranks %d, %d and %d" % (a, b, c)))
    return es


ASSUMPTIONS = ["merging, intersection and inclusion for operands of rank up to 3 and of ranks (4, 0..2) and (0..2, 4) (thorough run: up to 4 and 4); transposition up to rank 4 (thorough: 5); the reversed order and merging with itself up to 6 = NDIM_OP_MAX",
               "text of messages is not specified: std::string operations are under the contract 'some string', std::bad_alloc excluded"]
EXPLANATION = "for every rank the loops are unrolled completely; labels are arbitrary 16 bit ids and lengths arbitrary 64 bit integers, so every pattern of common labels and of disagreeing lengths is covered"
