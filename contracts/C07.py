"""C07: views that share memory are recognised as overlapping."""
import itertools
import term as t
import check
import prover as pv
from check import *
from digits import dot
from text import TEXT


def span_facts(i, n, s):
    """for 0 <= i < n: i*s lies between 0 and (n-1)*s (lemma, see extra_checks)"""
    return [t.Implies(t.ge(s, 0), t.And(t.ge(i * s, 0), t.le(i * s, (n - 1) * s))), t.Implies(t.le(s, 0), t.And(t.le(i * s, 0), t.ge(i * s, (n - 1) * s)))]


def lo(n, s): return t.Min((n - 1) * s, 0)
def hi(n, s): return t.Max((n - 1) * s, 0)


def shapes(r, n):
    ns = [r.choice([1, 2, 3]) for _ in range(n)]
    st = [r.choice([0, 1, 2, 3, 6, -1, -2, -3, 12]) for _ in range(n)]
    return ns, st


def genb(n):
    def g(r):
        ns, st = shapes(r, n)
        if n and r.random() < .2: ns[r.randrange(n)] = 0
        return {"n": ns, "s": st, "i": [r.randrange(max(m, 1)) for m in ns]}
    return g


def entries(tier):
    es = []
    for n in range(9):
        def setup(ex, st, v, n=n):
            for d in range(n): st.pcs += span_facts(v.i(d), v.n(d), v.s(d))

        def post(v, o, n=n):
            p = dot([v.i(d) for d in range(n)], [v.s(d) for d in range(n)])
            ins = t.And(*[t.And(t.ge(v.i(d), 0), t.lt(v.i(d), v.n(d))) for d in range(n)])
            full = t.And(*[t.ge(v.n(d), 1) for d in range(n)])
            L, H = t.const(0), t.const(0)
            for d in range(n): L, H = L + lo(v.n(d), v.s(d)), H + hi(v.n(d), v.s(d))
            return [("every element inside the bounds", t.Implies(ins, t.And(t.le(o.o(0), p), t.lt(p, o.o(1))))),
                    ("attained: begin is the element with index n-1 where the stride is negative, else 0; end - 1 the other way round", t.Implies(full, t.And(t.eq(o.o(0), L), t.eq(o.o(1), H + 1)))),
                    ("empty bounds iff no elements", t.And(t.iff(t.lt(o.o(0), o.o(1)), full), t.Implies(t.Not(full), t.eq(o.o(0), o.o(1)))))]
        es.append(Entry("mb_%d" % n, [In("n", "i64", n), In("s", "i64", n), In("i", "i64", n), Out("o", "i64", 2)], post, pre=lambda v, n=n: [t.ge(v.n(d), 0) for d in range(n)], setup=setup, gen=genb(n), about="memory_bounds, rank %d" % n))
    for R, Q in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (0, 2), (2, 3), (3, 2), (3, 1), (3, 3), (1, 3), (4, 4), (2, 4), (4, 3)):
        for fn in ("ov", "ovc"):
            def setup(ex, st, v, R=R, Q=Q):
                for d in range(R): st.pcs += span_facts(v.i(d), v.n(d), v.s(d))
                for d in range(Q): st.pcs += span_facts(v.j(d), v.m(d), v.u(d))

            def pre(v, R=R, Q=Q):
                dist = lambda k, n: [t.ge(v[k](a), 1) for a in range(n)] + [t.ne(v[k](a), v[k](b)) for a in range(n) for b in range(a)]
                return dist("l", R) + dist("k", Q) + [t.ge(v.n(d), 0) for d in range(R)] + [t.ge(v.m(d), 0) for d in range(Q)]

            def post(v, o, R=R, Q=Q):
                same = t.And(t.eq(v.off, v.off2), *[t.And(t.eq(v.l(d), v.k(d)), t.eq(v.n(d), v.m(d)), t.eq(v.s(d), v.u(d))) for d in range(R)]) if R == Q else t.FALSE
                ins = t.And(*[t.And(t.ge(v.i(d), 0), t.lt(v.i(d), v.n(d))) for d in range(R)] + [t.And(t.ge(v.j(d), 0), t.lt(v.j(d), v.m(d))) for d in range(Q)])
                p, q = v.off + dot([v.i(d) for d in range(R)], [v.s(d) for d in range(R)]), v.off2 + dot([v.j(d) for d in range(Q)], [v.u(d) for d in range(Q)])
                return [("an element in common is reported", t.Implies(t.And(ins, t.eq(p, q), t.Not(same)), o.ret))]

            def gen(r, R=R, Q=Q):
                n, s = shapes(r, R)
                m, u = shapes(r, Q)
                i, j = [r.randrange(x) for x in n], [r.randrange(x) for x in m]
                off = r.randrange(20, 40)
                d = off + sum(a * b for a, b in zip(i, s)) - sum(a * b for a, b in zip(j, u))
                l, k = r.sample(range(1000, 1005), R), r.sample(range(1000, 1005), Q)
                if R == Q and r.random() < .4: k, m = list(l), list(n); d = off if r.random() < .5 else d; j = [r.randrange(x) for x in m]
                if R == Q and r.random() < .2: u = list(s)
                return {"buf": [0.0] * 4, "off": off, "l": l, "n": n, "s": s, "off2": d, "k": k, "m": m, "u": u, "i": i, "j": j}
            es.append(Entry("%s_%d_%d" % (fn, R, Q), [In("buf", "f64", 4), S("off"), In("l", "u16", R), In("n", "i64", R), In("s", "i64", R), S("off2"), In("k", "u16", Q), In("m", "i64", Q), In("u", "i64", Q), In("i", "i64", R), In("j", "i64", Q)], post,
                            pre=pre, setup=setup, gen=gen, ret="bool", contracts=TEXT, about="overlaps, ranks %d and %d%s" % (R, Q, ", const and non-const" if fn == "ovc" else "")))
    return es


def extra_checks(mod, so, tier, seed):
    i, n, s = (t.var(x) for x in "ins")
    out = []
    for k, g in enumerate(span_facts(i, n, s)):
        r = pv.prove([t.ge(i, 0), t.lt(i, n)], g, 30.0)
        out.append(("lemma: i*s lies between 0 and (n-1)*s, %s" % ("s >= 0", "s <= 0")[k], bool(r), r.backend + " " + r.reason, None))
    return out


ASSUMPTIONS = ["index arithmetic does not overflow 64 bit", "views of the same allocation share the buffer pointer (all users pass the start of the buffer and an offset)"]
EXPLANATION = "memory_bounds for ranks 0 to 8, overlaps for pairs of ranks up to 4, with arbitrary labels, lengths, strides, offsets; the elements in common are universally quantified ghost indices"
