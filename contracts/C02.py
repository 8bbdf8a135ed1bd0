"""C02: dimension lists are ordered maps from unique labels to lengths."""
import term as t
import check
from check import *
from text import TEXT

MAXR = 6


def listing(n, lo=1): return [In("l", "u16", n), In("s", "i64", n)]


def valid(v, n, l="l", s="s"):
    g = lambda nm, i: getattr(v, nm)(i)
    return [t.ne(g(l, i), 0) for i in range(n)] + [t.ne(g(l, i), g(l, j)) for i in range(n) for j in range(i)] + [t.ge(g(s, i), 0) for i in range(n)]


def glist(r, n, pool=range(1, 10)):
    return {"l": r.sample(list(pool), n), "s": [r.randrange(0, 5) for _ in range(n)]}


def outcome(o, cases, ol=0, refusal=(1,)):
    """cases: (condition, refused, list of (label, length)); every case describes the list afterwards"""
    out = []
    for name, c, ref, lst in cases:
        out.append((name + ": refused or not", t.Implies(c, t.Or(*[t.eq(o.f(0), k) for k in refusal]) if ref else t.eq(o.f(0), 0))))
        if lst is None: continue
        out.append((name + ": number of entries", t.Implies(c, t.eq(o.ret, len(lst)))))
        for i, (a, b) in enumerate(lst):
            out.append((name + ": label %d" % i, t.Implies(c, t.eq(o.ol(i), a))))
            out.append((name + ": length %d" % i, t.Implies(c, t.eq(o.os(i), b))))
    return out


def state(v, n): return [(v.l(i), v.s(i)) for i in range(n)]


def entries(tier):
    es = []
    for n in range(MAXR + 1):
        rk = "rank %d" % n
        outs = [Out("ol", "u16", 2 * n + 2), Out("os", "i64", 2 * n + 2), Out("f", "i32", 1)]
        P = lambda v, n=n: valid(v, n)
        absent = lambda v, n=n: t.And(*[t.ne(v.k, v.l(i)) for i in range(n)])
        anywhere = lambda v, n=n: t.Or(*[t.eq(v.k, v.l(i)) for i in range(n)])

        def add(fn, args, post, pre=P, gen=None, ret="i64", n=n, about="", **kw):
            es.append(Entry("%s_%d" % (fn, n), args, post, pre=pre, gen=gen, ret=ret, contracts=TEXT, about=about + ", rank %d" % n, **kw))

        def g1(r, n=n):
            d = glist(r, n)
            d["k"] = r.choice(d["l"] + [0, 1, 2, 3, 10, 11]); d["z"] = r.choice([-1, 0, 1, 2, 3] + d["s"])
            return d
        # ---- construction from arbitrary labels and lengths
        bad = lambda v, n=n: t.Or(*[t.eq(v.l(i), 0) for i in range(n)], *[t.eq(v.l(i), v.l(j)) for i in range(n) for j in range(i)], *[t.lt(v.s(i), 0) for i in range(n)])

        def gb(r, n=n):
            d = glist(r, n)
            if n and r.random() < .5:
                if r.random() < .5: d["l"][r.randrange(n)] = r.choice([0] + d["l"])
                else: d["s"][r.randrange(n)] = -1
            return d
        add("build", listing(n) + outs, lambda v, o, n=n, bad=bad: outcome(o, [("invalid", bad(v), True, []), ("valid", t.Not(bad(v)), False, state(v, n))]), pre=lambda v: [], gen=gb, about="Dimensions(labels, shape)")
        kz = listing(n) + [S("k", "u16"), S("z", "i64")] + outs
        fine = lambda v, absent=absent: t.And(absent(v), t.ne(v.k, 0), t.ge(v.z, 0))
        for fn, left in (("add", True), ("addInner", False)):
            add(fn, kz, lambda v, o, n=n, left=left, fine=fine: outcome(o, [("new label", fine(v), False, [(v.k, v.z)] + state(v, n) if left else state(v, n) + [(v.k, v.z)]), ("label present or argument invalid", t.Not(fine(v)), True, state(v, n))]), gen=g1, about="Dimensions::" + fn)
        def setpost(v, o, n=n, fine=fine):
            same = t.Or(*[t.And(t.eq(v.k, v.l(i)), t.eq(v.z, v.s(i))) for i in range(n)])
            return outcome(o, [("new label", fine(v), False, state(v, n) + [(v.k, v.z)]), ("present with this length", same, False, state(v, n)), ("other", t.Not(t.Or(fine(v), same)), True, state(v, n))])
        add("set", kz, setpost, gen=g1, about="Sizes::set")

        def at(v, n, f):
            """the list with entry k changed by f"""
            return [("entry %d" % i, t.eq(v.k, v.l(i)), f(i)) for i in range(n)]
        sub = lambda v, i, x, n=n: state(v, n)[:i] + x + state(v, n)[i + 1:]
        add("resize", kz, lambda v, o, n=n, sub=sub, absent=absent: outcome(o, [(nm, t.And(c, t.ge(v.z, 0)), False, r) for nm, c, r in at(v, n, lambda i: sub(v, i, [(v.l(i), v.z)]))] +
            [("absent or negative length", t.Or(absent(v), t.lt(v.z, 0)), True, state(v, n))]), gen=g1, about="Sizes::resize")
        add("erase", kz, lambda v, o, n=n, sub=sub, absent=absent: outcome(o, [(nm, c, False, r) for nm, c, r in at(v, n, lambda i: sub(v, i, []))] + [("absent", absent(v), True, state(v, n))]), gen=g1, about="Sizes::erase")
        add("clear", kz, lambda v, o: outcome(o, [("always", t.TRUE, False, [])]), gen=g1, about="Sizes::clear")

        def g2(r, n=n):
            d = glist(r, n)
            for x in ("k", "z"): d[x] = r.choice(d["l"] + [1, 2, 3, 10, 11])
            d["strict"] = r.random() < .5
            return d
        kk = listing(n) + [S("k", "u16"), S("z", "u16")]
        taken = lambda v, n=n: t.And(t.ne(v.k, v.z), t.Or(*[t.eq(v.z, v.l(i)) for i in range(n)]))

        def ren(v, o, n=n, sub=sub, absent=absent, taken=taken):
            return [(nm, t.And(c, t.Not(taken(v))), False, r) for nm, c, r in at(v, n, lambda i: sub(v, i, [(v.z, v.s(i))]))]
        zok = lambda v, n=n: valid(v, n) + [t.ne(v.z, 0)]
        add("replace", kk + outs, lambda v, o, n=n, ren=ren, absent=absent, taken=taken: outcome(o, ren(v, o) + [("absent, or new label taken", t.Or(absent(v), taken(v)), True, state(v, n))]), pre=zok, gen=lambda r, g2=g2: {k: x for k, x in g2(r).items() if k != "strict"}, about="replace_key")

        def rpost(v, o, n=n, ren=ren, absent=absent, taken=taken):
            return outcome(o, ren(v, o) + [("absent, tolerated", t.And(absent(v), t.Not(v.strict)), False, state(v, n)), ("refused", t.Or(t.And(absent(v), v.strict), t.And(t.Not(absent(v)), taken(v))), True, [])]) + \
                [("argument unchanged", t.And(t.eq(o.ol(n + 1 + i), v.l(i)), t.eq(o.os(n + 1 + i), v.s(i)))) for i in range(n)]
        for fn in ("rename1", "rename1s"):
            add(fn, kk + [S("strict", "bool")] + outs, rpost, pre=zok, gen=g2, about="%s::rename_dims with one pair" % ("Sizes" if fn[-1] == "s" else "Dimensions"))

        def lpost(v, o, n=n, absent=absent):
            out = []
            for i in range(n):
                c = t.eq(v.k, v.l(i))
                out += [("entry %d: found" % i, t.Implies(c, t.And(*[t.eq(o.f(j), 0) for j in range(3)], t.eq(o.o(0), i), t.eq(o.o(1), v.s(i)), t.eq(o.o(2), v.s(i)), t.eq(o.o(3), i), t.eq(o.o(4), 1))))]
            out += [("absent: refused", t.Implies(absent(v), t.And(*[t.eq(o.f(j), 1) for j in range(3)], t.eq(o.o(3), n), t.eq(o.o(4), 0))))]
            return out + [("count", t.And(t.eq(o.ret, n), t.eq(o.o(6), n), t.eq(o.o(5), 1 if n == 0 else 0)))]
        add("lookup", listing(n) + [S("k", "u16"), Out("o", "i64", 7), Out("f", "i32", 3)], lpost, gen=lambda r, g1=g1: {k: x for k, x in g1(r).items() if k != "z"}, about="index, operator[], at, find, contains, empty, size, ndim")
        add("places", listing(n) + [Out("ol", "u16", 3 * n + 1), Out("os", "i64", n + 1)], lambda v, o, n=n:
            [("label and size at %d" % i, t.And(t.eq(o.ol(i), v.l(i)), t.eq(o.os(i), v.s(i)))) for i in range(n)] + [("inner", t.eq(o.ol(n), v.l(n - 1) if n else 0)), ("iteration ends", t.eq(o.ret, 3 * n + 1))] +
            [("iteration %d" % i, t.And(t.eq(o.ol(n + 1 + i), v.l(i)), t.eq(o.ol(2 * n + 1 + i), v.l(n - 1 - i)))) for i in range(n)], gen=lambda r, n=n: glist(r, n), about="label(i), size(i), inner, iteration in both directions")
        keep = lambda v, o, n=n: [("original unchanged", t.And(t.eq(o.ol(n + 1 + i), v.l(i)), t.eq(o.os(n + 1 + i), v.s(i)))) for i in range(n)]
        add("copies", kz, lambda v, o, n=n, fine=fine, keep=keep: outcome(o, [("new label", fine(v), False, state(v, n) + [(v.k, t.const(7))]), ("refused", t.Not(fine(v)), True, state(v, n))]) + keep(v, o), gen=g1, about="copy, assignment and move of a list; copies are independent")
        add("temp", kz, lambda v, o, n=n, fine=fine: outcome(o, [("added and removed", fine(v), False, state(v, n)), ("refused", t.Not(fine(v)), True, state(v, n))]), gen=g1, about="add then erase gives the list back")
    # ---- equality
    for n, m in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (3, 2), (2, 3)) + (((4, 4),) if tier == "thorough" else ()):
        args = [In("l", "u16", n), In("s", "i64", n), In("m", "u16", m), In("r", "i64", m)]
        pre = lambda v, n=n, m=m: valid(v, n) + valid(v, m, "m", "r")

        def gen(r, n=n, m=m):
            d = glist(r, n, range(1, 5)); e = glist(r, m, range(1, 5))
            if n == m and r.random() < .7:
                p = list(zip(d["l"], d["s"]))
                if r.random() < .5: r.shuffle(p)
                e = {"l": [x for x, _ in p], "s": [y for _, y in p]}
                if n and r.random() < .3: e["s"][0] += 1
            return {**d, "m": e["l"], "r": e["s"]}
        exact = lambda v, n=n, m=m: t.lift(False) if n != m else t.And(*[t.And(t.eq(v.l(i), v.m(i)), t.eq(v.s(i), v.r(i))) for i in range(n)])
        asset = lambda v, n=n, m=m: t.lift(False) if n != m else t.And(*[t.Or(*[t.And(t.eq(v.l(i), v.m(j)), t.eq(v.s(i), v.r(j))) for j in range(m)]) for i in range(n)])
        for fn, spec, neg in (("eq", exact, False), ("ne", exact, True), ("eqs", asset, False), ("nes", asset, True)):
            es.append(Entry("%s_%d_%d" % (fn, n, m), args, lambda v, o, spec=spec, neg=neg: [("equal exactly if the same entries" + (" in the same order" if spec is exact else ""), t.iff(o.ret, t.Not(spec(v)) if neg else spec(v)))], pre=pre, gen=gen, ret="bool", contracts=TEXT,
                            about="%s::operator%s, ranks %d and %d" % ("Dimensions" if len(fn) == 2 else "Sizes", "!=" if neg else "==", n, m)))
    # ---- renaming by two pairs, applied one after the other
    for n in range(4 if tier == "quick" else 5):
        def apply(lst, k, z, strict):
            """[(condition, refused, list)]"""
            n = len(lst); out = []
            ab = t.And(*[t.ne(k, a) for a, _ in lst]); tk = t.And(t.ne(k, z), t.Or(*[t.eq(z, a) for a, _ in lst]))
            out.append((t.And(ab, t.Not(strict)), False, lst)); out.append((t.Or(t.And(ab, strict), t.And(t.Not(ab), tk)), True, []))
            for i in range(n): out.append((t.And(t.eq(k, lst[i][0]), t.Not(tk)), False, lst[:i] + [(z, lst[i][1])] + lst[i + 1:]))
            return out

        def post(v, o, n=n):
            cases = []
            for i, (c, ref, lst) in enumerate(apply(state(v, n), v.k, v.z, v.strict)):
                if ref: cases.append(("first refused", c, True, [])); continue
                for j, (c2, ref2, lst2) in enumerate(apply(lst, v.k2, v.z2, v.strict)):
                    cases.append(("outcome %d then %d" % (i, j), t.And(c, c2), ref2, lst2))
            return outcome(o, cases) + [("argument unchanged", t.And(t.eq(o.ol(n + 1 + i), v.l(i)), t.eq(o.os(n + 1 + i), v.s(i)))) for i in range(n)]

        def gen(r, n=n):
            d = glist(r, n, range(1, 6))
            for x in ("k", "z", "k2", "z2"): d[x] = r.choice(d["l"] + [1, 2, 3, 4, 5, 6])
            d["strict"] = r.random() < .5
            return d
        es.append(Entry("rename2_%d" % n, listing(n) + [S("k", "u16"), S("z", "u16"), S("k2", "u16"), S("z2", "u16"), S("strict", "bool"), Out("ol", "u16", 2 * n + 2), Out("os", "i64", 2 * n + 2), Out("f", "i32", 1)], post,
                        pre=lambda v, n=n: valid(v, n) + [t.ne(v.z, 0), t.ne(v.z2, 0)], gen=gen, ret="i64", contracts=TEXT, about="rename_dims with two pairs, rank %d" % n))
    es.append(Entry("mismatch", [In("l", "u16", 3), In("s", "i64", 3), S("n"), S("m")], lambda v, o: [("as many labels as lengths", t.iff(t.eq(o.ret, 0), t.eq(v.n, v.m)))], ret="i64", contracts=TEXT,
                    pre=lambda v: valid(v, 3) + [t.ge(v.n, 0), t.le(v.n, 3), t.ge(v.m, 0), t.le(v.m, 3)], gen=lambda r: {**glist(r, 3), "n": r.randrange(4), "m": r.randrange(4)}, about="Dimensions(labels, shape) with lists of different length"))
    return es


ASSUMPTIONS = ["lists of at most 6 dimensions before the operation (6 = NDIM_OP_MAX, the largest rank operations support; NDIM_STACK = 4 is crossed); equality up to rank 3, renaming by two pairs up to rank 3 (4 in the thorough run)",
               "text of messages is not specified: std::string operations are under the contract 'some string', std::bad_alloc excluded"]
EXPLANATION = "for every rank the loops are unrolled completely; labels are arbitrary 16 bit ids and lengths arbitrary 64 bit integers"
