"""C05: walking a strided view visits each element once, in order."""
import math
import term as t
import check
import prover as pv
from check import *
import digits as dg
from digits import rv, dot
from text import TEXT

MAXR = 6


def gen(n, T=None, two=False, buf=False):
    def g(r):
        ns = [r.choice([1, 2, 3, 4]) for _ in range(n)]
        if T is not None and T < n: ns[n - 1 - T] = r.choice([2, 3, 4])
        # row-major, possibly with gaps, broadcast or transposed
        st, x = [0] * n, 1
        for d in reversed(range(n)):
            st[d] = x
            x *= ns[d] + r.choice([0, 0, 0, 1])
        if r.random() < .4 and n: st[r.randrange(n)] = 0
        if r.random() < .2 and n: k = r.randrange(n); st[k] = -st[k]
        if r.random() < .3: r.shuffle(st)
        d = {"n": ns, "s": st, "i": [r.randrange(0, m) for m in ns]}
        if T is not None and T < n: d["i"][n - 1 - T] = r.randrange(0, ns[n - 1 - T] - 1)
        if two: d["j"] = [r.randrange(0, m) for m in ns]
        if buf: d.update(off=r.randrange(0, 9), buf=[0.0] * 4)
        return d
    return g


def entries(tier):
    es = []
    for n in range(MAXR + 1):
        rk = "rank %d" % n
        N, St, I, J = In("n", "i64", n), In("s", "i64", n), In("i", "i64", n), In("j", "i64", n)
        B, OFF = In("buf", "f64", 4), S("off")
        inside = lambda v, k="i", n=n: [c for d in range(n) for c in (t.ge(v.n(d), 1), t.ge(v[k](d), 0), t.lt(v[k](d), v.n(d)))]
        where = lambda v, k="i", n=n: dot([v[k](d) for d in range(n)], [v.s(d) for d in range(n)])
        P = lambda v, k="i", n=n: dg.comp(rv(v[k], n), rv(v.n, n))

        def setup(ex, st, v, n=n, keys=("i",)):
            ns = rv(v.n, n)
            for k in keys: st.pcs += dg.facts(rv(v[k], n), ns)
            ex.div_hint = dg.hints([rv(v[k], n) for k in keys], ns)
        es.append(Entry("vi_set_%d" % n, [N, St, I, Out("o", "i64", 3)], lambda v, o, where=where, P=P: [("memory position of the index tuple", t.eq(o.o(0), where(v))), ("position", t.eq(o.o(1), P(v))), ("starts at the first element", t.eq(o.o(2), 0))],
                        pre=inside, setup=setup, gen=gen(n), about="ViewIndex, set_index, " + rk))
        es.append(Entry("va_begin_%d" % n, [B, OFF, N, St], lambda v, o: [("first element at the offset", t.eq(o.ret, v.off))], pre=lambda v, n=n: [t.ge(v.n(d), 0) for d in range(n)], ret="i64", gen=lambda r, n=n: {k: x for k, x in gen(n, buf=True)(r).items() if k != "i"}, about="ElementArrayView::begin, " + rk))
        es.append(Entry("va_at_%d" % n, [B, OFF, N, St, I], lambda v, o, where=where: [("memory position offset + sum of index times stride", t.eq(o.ret, v.off + where(v)))], pre=lambda v, inside=inside, P=P: inside(v) + [t.ne(P(v), 1)], setup=setup, ret="i64", gen=gen(n, buf=True),
                        about="ElementArrayView::operator[], iterator +=, " + rk))

        def bsetup(ex, st, v, n=n):
            ns = rv(v.n, n)
            ds = [x - 1 for x in ns]
            st.pcs += dg.facts(ds, ns)
            ex.div_hint = dg.hints([ds], ns)
        vol = lambda v, n=n: dg.prod([v.n(d) for d in range(n)])
        es.append(Entry("va_back_%d" % n, [B, OFF, N, St], lambda v, o, n=n: [("last element", t.eq(o.ret, v.off + dot([v.n(d) - 1 for d in range(n)], [v.s(d) for d in range(n)])))], pre=lambda v, n=n, vol=vol: [t.ge(v.n(d), 1) for d in range(n)] + [t.ne(vol(v), 2)], setup=bsetup, ret="i64",
                        gen=lambda r, n=n: {k: x for k, x in gen(n, buf=True)(r).items() if k != "i"}, about="ElementArrayView::back, " + rk))
        es.append(Entry("va_end_%d" % n, [B, OFF, N, St, Out("o", "i64", 4)], lambda v, o, vol=vol, n=n: [("as many steps as elements", t.And(t.eq(o.o(0), vol(v)), t.eq(o.o(1), vol(v)))), ("begin equals end iff there are no elements", t.And(t.iff(t.eq(o.o(2), 1), t.eq(vol(v), 0)), t.eq(o.o(3), 1 - o.o(2))))],
                        pre=lambda v, n=n: [t.ge(v.n(d), 0) for d in range(n)], gen=lambda r, n=n: {"buf": [0.0] * 4, "off": r.randrange(5), "n": [r.choice([0, 1, 2, 3]) if n < 3 or r.random() < .3 else 2 for _ in range(n)], "s": [r.randrange(-3, 9) for _ in range(n)]}, about="ElementArrayView::begin, end, size, " + rk))

        def rowmajor(v, n=n):
            ns, st = rv(v.n, n), rv(v.s, n)
            return t.And(*[t.eq(st[d], dg.prod(ns[:d])) for d in range(n)])
        es.append(Entry("va_span_%d" % n, [B, OFF, N, St, Out("o", "i64", 2)], lambda v, o, vol=vol, rowmajor=rowmajor: [("starts at the first element", t.eq(o.o(0), v.off)), ("as many as elements", t.eq(o.o(1), vol(v))), ("only row-major views without gaps", rowmajor(v))],
                        pre=lambda v, n=n, rowmajor=rowmajor: [t.ge(v.n(d), 0) for d in range(n)] + ([rowmajor(v)] if check.CONCRETE[0] else []), throws=lambda v, o, rowmajor=rowmajor: [("refused only if there are gaps or another order", t.Not(rowmajor(v)))],
                        gen=lambda r, n=n: (lambda ns: {"buf": [0.0] * 4, "off": r.randrange(5), "n": ns, "s": [math.prod(ns[d + 1:]) for d in range(n)]})([r.choice([1, 2, 3]) for _ in range(n)]), contracts=TEXT, about="as_span, " + rk))

        def dsetup(ex, st, v, setup=setup): setup(ex, st, v, keys=("i", "j"))
        es.append(Entry("va_dist_%d" % n, [B, OFF, N, St, I, J, Out("o", "i64", 4)], lambda v, o, P=P: [("difference of positions", t.eq(o.o(0), P(v, "j") - P(v, "i"))), ("equal", t.iff(t.eq(o.o(1), 1), t.eq(P(v, "i"), P(v, "j")))), ("less", t.iff(t.eq(o.o(2), 1), t.lt(P(v, "i"), P(v, "j")))), ("greater or equal", t.eq(o.o(3), 1 - o.o(2)))],
                        pre=lambda v, inside=inside: inside(v) + inside(v, "j"), setup=dsetup, gen=gen(n, two=True, buf=True), about="iterator difference and comparison, " + rk))
        for T in range(n + 1):
            def digs(v, n=n, T=T):
                ns, i = rv(v.n, n), rv(v.i, n)
                ds = [ns[d] - 1 if d < T else i[d] for d in range(n)]
                nx = [t.const(0) if d < T else (i[d] + 1 if d == T else i[d]) for d in range(n)]
                return ns, ds, nx

            def spre(v, n=n, T=T, inside=inside): return inside(v) + ([t.le(v.i(n - 1 - T), v.n(n - 1 - T) - 2)] if T < n else [])

            def ssetup(ex, st, v, digs=digs, n=n, T=T):
                ns, ds, nx = digs(v)
                st.pcs += dg.facts(ds, ns, sharp=T if T < n else None)
                if T < n: st.pcs += dg.facts(nx, ns)
                ex.div_hint = dg.hints([ds, nx] if T < n else [ds], ns)

            def spost(v, o, digs=digs, n=n, T=T):
                ns, ds, nx = digs(v)
                out = [("advances by one position", t.eq(o.o(1), dg.comp(ds, ns) + 1)), ("equals the position set directly", t.eq(o.o(3), 1)), ("state as if set directly", t.eq(o.o(4), 1))]
                if T < n: out += [("memory position of the next index tuple", t.eq(o.o(0), dot(nx, rv(v.s, n)))), ("memory position set directly", t.eq(o.o(2), dot(nx, rv(v.s, n))))]
                else: out += [("next is one past the end", t.eq(o.o(1), dg.prod(ns)))]
                return out
            es.append(Entry("vi_step_%d_%d" % (n, T), [N, St, I, Out("o", "i64", 5)], spost, pre=spre, setup=ssetup, gen=gen(n, T), about="ViewIndex::increment where %d inner dimension(s) wrap, %s" % (T, rk)))

            def apost(v, o, digs=digs, n=n, T=T):
                ns, ds, nx = digs(v)
                out = [("equals the iterator set directly", t.eq(o.o(1), 1)), ("end exactly after the last element", t.eq(o.o(2), 1 if T == n else 0)), ("steps", t.eq(o.o(3), dg.comp(ds, ns) + 1)), ("decrement undoes", t.And(t.eq(o.o(4), v.off + dot(ds, rv(v.s, n))), t.eq(o.o(5), dg.comp(ds, ns))))]
                if T < n: out.append(("memory position of the next element", t.eq(o.o(0), v.off + dot(nx, rv(v.s, n)))))
                return out
            if n: es.append(Entry("va_step_%d_%d" % (n, T), [B, OFF, N, St, I, Out("o", "i64", 6)], apost, pre=lambda v, spre=spre, digs=digs: spre(v) + ([t.ne(dg.comp(digs(v)[1], digs(v)[0]), 1), t.ne(dg.comp(digs(v)[1], digs(v)[0]), 0)] if True else []), setup=ssetup, gen=gen(n, T, buf=True), about="iterator ++ and -- where %d inner dimension(s) wrap, %s" % (T, rk)))
    for R, Q in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1), (2, 2), (2, 3), (3, 0), (3, 1), (3, 2), (3, 3), (4, 2), (2, 4)):
        distinct = lambda v, k, n: [t.ne(v[k](a), v[k](b)) for a in range(n) for b in range(a)]
        small = lambda v, R=R, Q=Q: t.Or(*[t.And(t.eq(v.l(a), v.k(b)), t.lt(v.n(a), v.m(b))) for a in range(R) for b in range(Q)])

        def rpre(v, R=R, Q=Q, distinct=distinct):
            ds = [c for d in range(Q) for c in (t.ge(v.m(d), 1), t.ge(v.j(d), 0), t.lt(v.j(d), v.m(d)))]
            return [t.ge(v.l(a), 1) for a in range(R)] + [t.ge(v.k(a), 1) for a in range(Q)] + distinct(v, "l", R) + distinct(v, "k", Q) + [t.ge(v.n(d), 0) for d in range(R)] + ds + [t.ne(dg.comp(rv(v.j, Q), rv(v.m, Q)), 1)]

        def rsetup(ex, st, v, Q=Q):
            st.pcs += dg.facts(rv(v.j, Q), rv(v.m, Q))
            ex.div_hint = dg.hints([rv(v.j, Q)], rv(v.m, Q))

        def rpost(v, o, R=R, Q=Q, small=small):
            e = v.off
            for b in range(Q):
                s = t.const(0)
                for a in range(R): s = t.ite(t.eq(v.l(a), v.k(b)), v.s(a), s)
                e = e + v.j(b) * s
            return [("index times the stride of the same label, 0 for labels the view does not have", t.eq(o.ret, e)), ("not refused", t.Not(small(v)))]

        def rgen(r, R=R, Q=Q):
            l = r.sample(range(1000, 1006), R)
            k = r.sample(range(1000, 1006), Q)
            n = [r.choice([2, 3, 4]) for _ in l]
            m = [n[l.index(x)] if x in l and r.random() < .9 else r.choice([1, 2, 3]) for x in k]
            return {"buf": [0.0] * 4, "off": r.randrange(9), "l": l, "n": n, "s": [r.randrange(-3, 12) for _ in l], "k": k, "m": m, "j": [r.randrange(x) for x in m]}
        es.append(Entry("re_%d_%d" % (R, Q), [In("buf", "f64", 4), S("off"), In("l", "u16", R), In("n", "i64", R), In("s", "i64", R), In("k", "u16", Q), In("m", "i64", Q), In("j", "i64", Q)], rpost, pre=lambda v, rpre=rpre, small=small: rpre(v) + ([t.Not(small(v))] if check.CONCRETE[0] else []), setup=rsetup, ret="i64", gen=rgen,
                        throws=lambda v, o, small=small: [("refused only if an extent is too small", small(v))], about="ElementArrayView with other iteration dimensions, ranks %d to %d, any labels" % (R, Q), contracts=TEXT))
    return es


def extra_checks(mod, so, tier, seed): return dg.lemma_checks()


ASSUMPTIONS = ["index arithmetic does not overflow 64 bit", "ranks 0 to 6 (NDIM_OP_MAX)"]
EXPLANATION = "every rank up to NDIM_OP_MAX with arbitrary lengths, strides and index tuples; stepping is proved by induction over the position: one step from the state set to any position gives the state set to the next position, separately for each number of wrapping inner dimensions"
