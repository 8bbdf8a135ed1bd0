"""C03: slice descriptions, and slicing of dimension lists."""
import term as t
import check
from check import *
from text import TEXT
from C02 import listing, valid, glist, outcome, state

MAXR = 6
NSW = {"check_nsw": True}


def entries(tier):
    es = []
    sl = [S("k", "u16"), S("b"), S("e"), S("st")]
    O = [Out("o", "i64", 5)]
    okb = lambda v: t.ge(v.b, 0)
    oke = lambda v: t.Or(t.eq(v.e, -1), t.le(v.b, v.e))

    def field(o, k, b, e, st): return t.And(t.eq(o.o(0), k), t.eq(o.o(1), b), t.eq(o.o(2), e), t.eq(o.o(3), st), t.iff(t.eq(o.o(4), 1), t.ne(e, -1)), t.Or(t.eq(o.o(4), 0), t.eq(o.o(4), 1)))

    def gs(r): return {"k": r.randrange(1, 6), "b": r.choice([0, 0, 1, 2, 3, 4, -1, 2**63 - 1]), "e": r.choice([-1, 0, 1, 2, 3, 4, 5, -2]), "st": r.choice([1, 1, 1, 2, 3, 0, -1])}

    def rpost(v, o, st=None):
        st = v.st if st is None else t.const(st)
        ok = t.And(okb(v), oke(v), t.ge(st, 1))
        return [("accepted exactly if 0 <= begin <= end (end -1: a point) and the stride is positive", t.iff(t.eq(o.ret, 0), ok)), ("refused with SliceError", t.Implies(t.Not(ok), t.eq(o.ret, 2))), ("holds what it was given", t.Implies(ok, field(o, v.k, v.b, v.e, st)))]
    es.append(Entry("range", sl + O, rpost, gen=gs, ret="i32", contracts=TEXT, opts=NSW, about="Slice(dim, begin, end, stride)"))
    es.append(Entry("range1", sl[:3] + O, lambda v, o: rpost(v, o, 1), gen=lambda r: {k: x for k, x in gs(r).items() if k != "st"}, ret="i32", contracts=TEXT, opts=NSW, about="Slice(dim, begin, end)"))
    es.append(Entry("point", sl[:2] + O, lambda v, o: [("accepted exactly if begin is not negative", t.iff(t.eq(o.ret, 0), okb(v))), ("refused with SliceError", t.Implies(t.Not(okb(v)), t.eq(o.ret, 2))), ("a point", t.Implies(okb(v), field(o, v.k, v.b, t.const(-1), t.const(1))))],
                    gen=lambda r: {"k": 3, "b": r.randrange(-2, 4)}, ret="i32", contracts=TEXT, opts=NSW, about="Slice(dim, index)"))
    good = lambda v: [okb(v), oke(v), t.ge(v.st, 1)]

    def gok(r, hi=5):
        b = r.randrange(0, hi); return {"k": r.randrange(1, 6), "b": b, "e": r.choice([-1, b, b + 1, b + 2, b + 3]), "st": r.choice([1, 1, 2, 2, 3, 3, 2**63 - 1])}
    two = sl + [S("k2", "u16"), S("b2"), S("e2"), S("st2")]
    same = lambda v: t.And(t.eq(v.k, v.k2), t.eq(v.b, v.b2), t.eq(v.e, v.e2), t.eq(v.st, v.st2))
    good2 = lambda v: good(v) + [t.ge(v.b2, 0), t.Or(t.eq(v.e2, -1), t.le(v.b2, v.e2)), t.ge(v.st2, 1)]

    def g2(r):
        a = gok(r, 2); b = dict(a)
        if r.random() < .6:
            b[r.choice("kb")] += 0; c = gok(r, 2); x = r.choice(["k", "st", "e"]); b[x] = c[x] if x != "e" else r.choice([-1, b["b"], b["b"] + 1])
        return {**a, **{k + "2": x for k, x in b.items()}}
    es.append(Entry("eq", two, lambda v, o: [("equal exactly if the same label, begin, end and stride", t.iff(o.ret, same(v)))], pre=good2, gen=g2, ret="bool", contracts=TEXT, about="Slice::operator=="))
    es.append(Entry("ne", two, lambda v, o: [("unequal exactly if not the same label, begin, end and stride", t.iff(o.ret, t.Not(same(v))))], pre=good2, gen=g2, ret="bool", contracts=TEXT, about="Slice::operator!="))
    es.append(Entry("copied", sl + O, lambda v, o: [("copy", field(o, v.k, v.b, v.e, v.st))], pre=good, gen=gok, contracts=TEXT, about="copy and assignment of Slice"))

    for n in range(MAXR + 1):
        rk = ", rank %d" % n
        outs = [Out("ol", "u16", 2 * n + 2), Out("os", "i64", 2 * n + 2), Out("f", "i32", 1)]
        keep = lambda v, o, n=n: [("argument unchanged", t.And(t.eq(o.ol(n + 1 + i), v.l(i)), t.eq(o.os(n + 1 + i), v.s(i)))) for i in range(n)]
        rest = lambda v, i, n=n: state(v, n)[:i] + state(v, n)[i + 1:]

        def gen(r, n=n):
            d = glist(r, n, range(1, 8)); s = gok(r)
            s["k"] = r.choice(d["l"] * 3 + [1, 2, 9])
            return {**d, **s}
        fit = lambda v, i: t.ite(t.eq(v.e, -1), t.lt(v.b, v.s(i)), t.le(v.e, v.s(i)))
        anyfit = lambda v, n=n, fit=fit: t.Or(*[t.And(t.eq(v.k, v.l(i)), fit(v, i)) for i in range(n)])
        pre = lambda v, n=n: valid(v, n) + good(v)

        def post(v, o, n=n, keep=keep, rest=rest, fit=fit, anyfit=anyfit):
            cases = [("does not fit", t.Not(anyfit(v)), True, [])]
            out = []
            for i in range(n):
                c = t.And(t.eq(v.k, v.l(i)), fit(v, i)); pt = t.eq(v.e, -1)
                cases += [("point in entry %d" % i, t.And(c, pt), False, rest(v, i)), ("range in entry %d" % i, t.And(c, t.Not(pt)), False, state(v, n)[:i] + [(v.l(i), o.os(i))] + state(v, n)[i + 1:])]
                m = o.os(i)
                # m is the number of k >= 0 with b + k*st < e
                out.append(("number of indices in entry %d" % i, t.Implies(t.And(c, t.Not(pt)), t.And(t.ge(m, 0), t.ge(m * v.st, v.e - v.b), t.Or(t.eq(m, 0), t.lt(m * v.st - v.st, v.e - v.b))))))
            return outcome(o, cases, refusal=(2,)) + out + keep(v, o)
        es.append(Entry("slice_%d" % n, listing(n) + sl + outs, post, pre=pre, gen=gen, ret="i64", contracts=TEXT, opts=NSW, about="Sizes::slice" + rk))

        def ppost(v, o, n=n, keep=keep, rest=rest):
            c = lambda i: t.And(t.eq(v.k, v.l(i)), t.lt(v.b, v.s(i)))
            return outcome(o, [("point in entry %d" % i, c(i), False, rest(v, i)) for i in range(n)] + [("does not fit", t.Not(t.Or(*[c(i) for i in range(n)])), True, [])], refusal=(2,)) + keep(v, o)

        def pgen(r, gen=gen):
            d = gen(r); d["b"] = r.choice([d["b"], 2**63 - 1]); return {k: x for k, x in d.items() if k not in ("e", "st")}
        es.append(Entry("pick_%d" % n, listing(n) + sl[:2] + outs, ppost, pre=lambda v, n=n: valid(v, n) + [okb(v)], gen=pgen, ret="i64", contracts=TEXT, opts=NSW, about="Sizes::slice with a point" + rk))
        es.append(Entry("all_%d" % n, listing(n) + outs, lambda v, o, n=n, keep=keep: outcome(o, [("no slicing", t.TRUE, False, state(v, n))]) + keep(v, o), pre=lambda v, n=n: valid(v, n), gen=lambda r, n=n: glist(r, n), ret="i64", contracts=TEXT, opts=NSW, about="Sizes::slice with the empty description" + rk))
        es.append(Entry("fits_%d" % n, listing(n) + sl, lambda v, o, anyfit=anyfit: [("accepted exactly if inside the extent", t.iff(t.eq(o.ret, 0), anyfit(v))), ("SliceError", t.Implies(t.Not(anyfit(v)), t.eq(o.ret, 2)))], pre=pre, gen=gen, ret="i32", contracts=TEXT, opts=NSW, about="expect::validSlice" + rk))
        if n in (1, 2, 3):
            s2 = [S("k", "u16"), S("b"), S("e"), S("k2", "u16"), S("b2"), S("e2")]

            def tcases(v, n=n, rest=rest):
                def step(lst, k, b, e):
                    fit = lambda s: t.ite(t.eq(e, -1), t.lt(b, s), t.le(e, s))
                    out = [(t.Not(t.Or(*[t.And(t.eq(k, a), fit(s)) for a, s in lst])), True, [])]
                    for i, (a, s) in enumerate(lst):
                        c = t.And(t.eq(k, a), fit(s))
                        out += [(t.And(c, t.eq(e, -1)), False, lst[:i] + lst[i + 1:]), (t.And(c, t.ne(e, -1)), False, lst[:i] + [(a, e - b)] + lst[i + 1:])]
                    return out
                res = []
                for i, (c, ref, lst) in enumerate(step(state(v, n), v.k, v.b, v.e)):
                    if ref: res.append(("first does not fit", c, True, [])); continue
                    res += [("outcome %d then %d" % (i, j), t.And(c, c2), r2, l2) for j, (c2, r2, l2) in enumerate(step(lst, v.k2, v.b2, v.e2))]
                return res

            def tgen(r, n=n, gen=gen):
                a, b = gen(r), gok(r, 3)
                return {"l": a["l"], "s": a["s"], "k": a["k"], "b": a["b"], "e": a["e"], "k2": r.choice(a["l"] + [9]), "b2": b["b"], "e2": b["e"]}
            es.append(Entry("twice_%d" % n, listing(n) + s2 + outs, lambda v, o, tcases=tcases: outcome(o, tcases(v), refusal=(2,)),
                            pre=lambda v, n=n: valid(v, n) + [okb(v), oke(v), t.ge(v.b2, 0), t.Or(t.eq(v.e2, -1), t.le(v.b2, v.e2))], gen=tgen, ret="i64", contracts=TEXT, opts=NSW, about="two slices in sequence" + rk))
    return es


ASSUMPTIONS = ["lists of at most 6 dimensions (6 = NDIM_OP_MAX, the largest rank operations support)", "text of messages is not specified: std::string operations are under the contract 'some string', std::bad_alloc excluded"]
EXPLANATION = "for every rank the loops are unrolled completely; labels, lengths, begin, end and stride are arbitrary; signed overflow is an obligation of its own"
