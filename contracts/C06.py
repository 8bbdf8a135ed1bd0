"""C06: joint traversal of dense operands."""
import term as t
import check
from check import *
import digits as dg
from digits import rv, dot
from text import TEXT

RANKS = {"quick": {1: 6, 2: 5, 3: 3, 4: 2, 5: 2}, "thorough": {1: 6, 2: 6, 3: 4, 4: 3, 5: 3}}
LIMIT = {"quick": {"begin": {1: 6, 2: 4}, "chunk": {1: 6, 2: 4}, "run": {1: 6, 2: 4}}, "thorough": {"begin": {2: 5}}}


def gen(N, n, T=None, kind=None):
    def g(r):
        ns = [r.choice([1, 2, 3, 4] if n < 4 else [1, 2, 2, 3]) for _ in range(n)]
        if T is not None and T < n: ns[n - 1 - T] = r.choice([2, 3])
        s = []
        for _ in range(N):
            st, x = [0] * n, r.choice([1, 1, 1, 2, 0, -1])
            for d in reversed(range(n)):
                st[d] = x
                x = x * ns[d] if r.random() < .8 else r.choice([0, 1, x * ns[d] + 1, 7])
            if r.random() < .25: r.shuffle(st)
            s += st
        d = {"n": ns, "s": s, "i": [r.randrange(0, m) for m in ns]}
        if T is not None and T < n: d["i"][n - 1 - T] = r.randrange(0, ns[n - 1 - T] - 1)
        if kind == "begin":
            del d["i"]
            for q in range(n):
                if r.random() < .2: d["n"][q] = 0
        if kind == "run": d["k"] = r.randrange(0, 8)
        if kind == "chunk": d["j"] = [r.randrange(0, m) for m in ns]
        return d
    return g


def entries(tier):
    es = []
    ranks, limit = RANKS[tier], LIMIT[tier]
    for N in ranks:
        def within(kind, n): return n <= limit.get(kind, {}).get(N, 9)
        for n in range(ranks[N] + 1):
            rk = "%d operand(s), rank %d" % (N, n)
            A, St, I, J = In("n", "i64", n), In("s", "i64", N * n), In("i", "i64", n), In("j", "i64", n)
            inside = lambda v, k="i", n=n: [c for d in range(n) for c in (t.ge(v.n(d), 1), t.ge(v[k](d), 0), t.lt(v[k](d), v.n(d)))]
            where = lambda v, k, ix, n=n: dot(ix, [v.s(k * n + d) for d in range(n)])

            def setup(ex, st, v, n=n):
                ns = rv(v.n, n)
                st.pcs += dg.facts(rv(v.i, n), ns)
                ex.div_hint = dg.hints([rv(v.i, n)], ns)
            def setpost(v, o, N=N, n=n, where=where):
                zero = t.Or(*[t.eq(v.s(d), 0) for d in range(n)])
                return [("operand %d: sum of index times stride" % k, t.eq(o.o(k), where(v, k, [v.i(d) for d in range(n)]))) for k in range(N)] + [
                    ("not at the end", t.eq(o.o(N), 0)), ("no bins", t.eq(o.o(N + 1), 0)), ("begin and end do not depend on the position", t.And(t.eq(o.o(N + 3), 1), t.eq(o.o(N + 4), 1))), ("a dimension of the first operand without a step is noticed", t.Implies(zero, t.ne(o.o(N + 2), 0)))]
            es.append(Entry("mi_set_%d_%d" % (N, n), [A, St, I, Out("o", "i64", N + 5)], setpost, pre=inside, setup=setup, gen=gen(N, n), contracts=TEXT, about="set_index, " + rk))
            vol = lambda v, n=n: dg.prod([v.n(d) for d in range(n)])
            if within("begin", n): es.append(Entry("mi_begin_%d_%d" % (N, n), [A, St, Out("o", "i64", 2 * N + 3)], lambda v, o, N=N, vol=vol: [("begins at the first element", t.And(*[t.eq(o.o(k), 0) for k in range(2 * N)] + [t.eq(o.o(2 * N + 1), 1)])), ("begin equals end iff there are no elements", t.And(t.iff(t.eq(o.o(2 * N), 1), t.eq(vol(v), 0)), t.eq(o.o(2 * N + 2), 1 - o.o(2 * N))))],
                            pre=lambda v, n=n: [t.ge(v.n(d), 0) for d in range(n)], gen=gen(N, n, kind="begin"), contracts=TEXT, about="construction, begin, end, " + rk))
            for T in range(n + 1):
                def digs(v, n=n, T=T):
                    ns, i = rv(v.n, n), rv(v.i, n)
                    return ns, [ns[d] - 1 if d < T else i[d] for d in range(n)], [t.const(0) if d < T else (i[d] + 1 if d == T else i[d]) for d in range(n)]

                def spre(v, n=n, T=T, inside=inside): return inside(v) + ([t.le(v.i(n - 1 - T), v.n(n - 1 - T) - 2)] if T < n else [])

                def ssetup(ex, st, v, digs=digs, n=n, T=T):
                    ns, ds, nx = digs(v)
                    st.pcs += dg.facts(ds, ns, sharp=T if T < n else None)
                    if T < n: st.pcs += dg.facts(nx, ns)
                    ex.div_hint = dg.hints([ds, nx] if T < n else [ds], ns)

                def spost(v, o, digs=digs, n=n, T=T, N=N, where=where):
                    ns, ds, nx = digs(v)
                    out = [("state equals the position set directly", t.eq(o.o(2 * N), 1)), ("at the end exactly after the last element", t.And(t.eq(o.o(2 * N + 1), 1 if T == n else 0), t.eq(o.o(2 * N + 2), 1 if T == n else 0)))]
                    if T < n:
                        for k in range(N): out += [("operand %d: position of the next index tuple" % k, t.eq(o.o(k), where(v, k, list(reversed(nx))))), ("operand %d: position set directly" % k, t.eq(o.o(N + k), where(v, k, list(reversed(nx)))))]
                    return out
                es.append(Entry("mi_step_%d_%d_%d" % (N, n, T), [A, St, I, Out("o", "i64", 2 * N + 3)], spost, pre=spre, setup=ssetup, gen=gen(N, n, T), contracts=TEXT, about="increment where %d inner dimension(s) wrap, %s" % (T, rk)))
            if not n: continue

            def rsetup(ex, st, v, n=n):
                ns, i = rv(v.n, n), rv(v.i, n)
                st.pcs += dg.facts(i, ns)
                h1 = dg.hints([i] + [[ns[d] - 1 if d <= g else i[d] for d in range(n)] for g in range(n)], ns)
                tab = {}
                for g in range(n): tab[((dg.comp(i, ns) + v.k).id, dg.prod(ns[:g + 1]).id)] = (dg.comp(i[g + 1:], ns[g + 1:]), dg.comp(i[:g + 1], ns[:g + 1]) + v.k)
                ex.div_hint = lambda ex, st, a, b: tab.get((t.lift(a).id, t.lift(b).id)) or h1(ex, st, a, b)

            def rpost(v, o, N=N):
                r = t.eq(o.o(1), 1)
                return [("at least this element", t.ge(o.o(0), 1)), ("operand positions inside the run advance by the inner stride", t.Implies(r, t.And(*[t.eq(o.o(2 + d), o.o(2 + N + d)) for d in range(N)]))),
                        ("distance", t.Implies(r, t.eq(o.o(2 + 2 * N), v.k))), ("same chunk", t.Implies(r, t.eq(o.o(3 + 2 * N), 1))),
                        ("stepping over the run equals stepping one by one", t.Implies(r, t.And(t.eq(o.o(4 + 2 * N), 1), *[t.eq(o.o(5 + 2 * N + d), 0) for d in range(N)]))), ("stepping into the run", t.Implies(r, t.eq(o.o(5 + 3 * N), 1)))]
            if within("run", n): es.append(Entry("mi_run_%d_%d" % (N, n), [A, St, I, S("k"), Out("o", "i64", 6 + 3 * N)], rpost, pre=lambda v, inside=inside: inside(v) + [t.ge(v.k, 0)], setup=rsetup, gen=gen(N, n, kind="run"), contracts=TEXT, about="innermost runs, increment_by, " + rk))
            for D in range(n if within("chunk", n) else 0):
                def cdig(v, n=n, D=D):
                    ns, i, j = rv(v.n, n), rv(v.i, n), rv(v.j, n)
                    return ns, i, [j[d] if d <= D else i[d] for d in range(n)]

                def csetup(ex, st, v, cdig=cdig, n=n):
                    ns, i, j = cdig(v)
                    st.pcs += dg.facts(i, ns) + dg.facts(j, ns)
                    ex.div_hint = dg.hints([i, j], ns)

                def cpost(v, o, cdig=cdig):
                    ns, i, j = cdig(v)
                    d = dg.comp(j, ns) - dg.comp(i, ns)
                    return [("same chunk: distance is the number of elements", t.Implies(t.eq(o.o(0), 1), t.eq(o.o(1), d))), ("other chunk: not before the run ends", t.Implies(t.eq(o.o(0), 0), t.le(o.o(2), d))), ("different positions differ", t.eq(o.o(3), 0))]

                def cpre(v, n=n, D=D, inside=inside): return inside(v) + inside(v, "j") + [t.lt(v.i(n - 1 - D), v.j(n - 1 - D))]

                def cgen(r, N=N, n=n, D=D):
                    x = gen(N, n, kind="chunk")(r)
                    q = n - 1 - D
                    x["n"][q] = max(2, x["n"][q])
                    x["i"][q] = r.randrange(0, x["n"][q] - 1)
                    x["j"][q] = r.randrange(x["i"][q] + 1, x["n"][q])
                    return x
                es.append(Entry("mi_chunk_%d_%d_%d" % (N, n, D), [A, St, I, J, Out("o", "i64", 4)], cpost, pre=cpre, setup=csetup, gen=cgen, contracts=TEXT, about="in_same_chunk, inner_distance_to, inner_distance_to_end: later position that differs from dimension %d on, %s" % (D, rk)))
    return es


def extra_checks(mod, so, tier, seed): return dg.lemma_checks()


ASSUMPTIONS = ["index arithmetic does not overflow 64 bit"]
EXPLANATION = "one operand of every rank up to NDIM_OP_MAX, two up to rank 5 (runs and chunks 4), three up to rank 3, four and five up to rank 2; thorough: 6, 6, 4, 3, 3 (the constructor and the traversal are one template over the number of operands), with arbitrary lengths and strides; stepping is proved by induction over the position, separately for each number of wrapping inner dimensions"
