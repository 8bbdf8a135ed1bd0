"""C16: binning neither loses, duplicates nor misplaces events."""
import random
import term as t
import check
import prover as pv
from check import *
from C15 import f32
import hashmap
from text import TEXT

OPAQUE = hashmap.OPAQUE

Z = t.const(0)


def Cnt(a, m, k): return t.uf("Cnt", (a, t.lift(m), t.lift(k)), "I")


def unfold(a, n, ks=None):
    """definition of Cnt(a, m, k): how many of the first m indices equal k; bounds and monotonicity are lemmas (extra_checks)"""
    out = [t.Forall(lambda k: t.eq(Cnt(a, 0, k), 0)), t.Forall(lambda m, k: t.Implies(t.And(t.ge(m, 0), t.lt(m, n)), t.eq(Cnt(a, m + 1, k), Cnt(a, m, k) + t.ite(t.eq(t.select(a, m), k), 1, 0))), 2)]
    return out


def count(xs, m, k): return sum(1 for x in xs[:m] if x == k)


def entries(tier):
    es = []
    n = lambda v: v.n
    I = {"l": "i64", "i": "i32"}

    # ---- counting
    for s in "li":
        def pre(v): return [t.ge(v.n, 0), t.lt(v.n, 1 << 40), t.ge(v.offset, 0), t.ge(v.k, 0), t.lt(v.k, v.nbin), t.lt(v.nbin, 1 << 40), forall(Z, v.n, lambda i: t.lt(v.a(i), v.nbin))]

        def post(v, o):
            c = t.const(count([t.cval(v.a(i)) for i in range(v.a.n)], v.a.n, t.cval(v.k))) if check.CONCRETE[0] else Cnt(v.a_arr, v.n, v.k)
            return [("offset kept", t.eq(o.o(0), v.offset)), ("one count per bin", t.eq(o.o(1), v.nbin)), ("number of events with this bin index", t.eq(o.o(2), c))]

        def inv(ex, L):
            a = L.st0.mem[ex.argobj["a"]].fields[0][1]
            out = []
            for i, ob in L.st.mem.items():
                if getattr(ob, "kind", "") != "arr" or i in ex.argobj.values() or 0 not in ob.fields: continue
                arr = ob.fields[0][1]
                for _, _, c in L.positions(): out.append(t.eq(t.select(arr, ex.argk), Cnt(a, c, ex.argk)))
                for _, _, c in L.positions():  # filling with zero
                    for q in (c, c + 1): out.append(forall(Z, q, lambda k: t.eq(t.select(arr, k), 0)))
                for _, _, c in L.positions(): out.append(t.Forall(lambda k: t.Implies(t.And(t.ge(k, 0), t.lt(k, ex.argnb)), t.eq(t.select(arr, k), Cnt(a, c, k)))))
            return out

        def setup(ex, st, v):
            ex.argk, ex.argnb = v.k, v.nbin
            st.pcs += unfold(v.a_arr, v.n)

        def gen(r):
            nb = r.choice([1, 2, 3, 5]); m = r.randrange(0, 12)
            return {"a": [r.choice([-1, -1] + list(range(nb)) * 3 + [-7]) for _ in range(m)], "n": m, "offset": r.randrange(0, 4), "nbin": nb, "k": r.randrange(nb)}
        es.append(Entry("count_" + s, [In("a", I[s], n), S("n"), S("offset"), S("nbin"), S("k"), Out("o", "i64", 3)], post, pre=pre, inv=inv, setup=setup, gen=gen, about="element::count_indices"))

    # ---- moving
    def facts(v):
        """counts never decrease and grow with every event of the bin (lemmas, by induction)"""
        a, N = v.a_arr, v.n
        return unfold(a, N) + [t.Forall(lambda m, k: t.Implies(t.And(t.ge(m, 0), t.le(m, N)), t.And(t.ge(Cnt(a, m, k), 0), t.le(Cnt(a, m, k), Cnt(a, N, k)))), 2),
                               forall(v.e + 1, N + 1, lambda m: t.ge(Cnt(a, m, v.a(v.e)), Cnt(a, v.e + 1, v.a(v.e))))]

    def mpre(v, b="bins"):
        if check.CONCRETE[0]:
            nb, N = v.nbin, v.a.n
            idx = [t.cval(v.a(i)) for i in range(N)]
            st = [t.cval(v[b](k)) for k in range(v[b].n)]
            if any(i >= t.cval(nb) for i in idx): return [t.FALSE]
            rng = [set(range(st[k], st[k] + count(idx, N, k))) for k in range(len(st))]
            ok = sum(map(len, rng)) == len(set().union(*rng)) and all(0 <= p < t.cval(v.nout) for r in rng for p in r)
            return [t.lift(ok and 0 <= t.cval(v.e) < max(1, N))]
        N, a = v.n, v.a_arr
        C = lambda k: Cnt(a, N, k)
        be = v.a(v.e)
        return [t.ge(N, 0), t.lt(N, 1 << 40), t.ge(v.nbin, 1), t.lt(v.nbin, 1 << 40), t.ge(v.nout, 0), t.lt(v.nout, 1 << 40), forall(Z, N, lambda i: t.lt(v.a(i), v.nbin)),
                forall(Z, v.nbin, lambda k: t.And(t.ge(v[b](k), 0), t.le(v[b](k), v.nout), t.le(v[b](k) + C(k), v.nout))),
                # the output range of the ghost event's bin is apart from those of the others
                t.ge(v.e, 0), t.lt(v.e, N), forall(Z, v.nbin, lambda k: t.Or(t.eq(k, be), t.le(v[b](k) + C(k), v[b](be)), t.le(v[b](be) + C(be), v[b](k)))),
                # the ghost position q is in no output range
                ]
    outside = lambda v, q, b="bins": t.And(t.ge(q, 0), t.lt(q, v.nout), forall(Z, v.nbin, lambda k: t.Or(t.lt(q, v[b](k)), t.ge(q, v[b](k) + Cnt(v.a_arr, v.n, k)))))

    def mpost(v, o, moved="bins", outs=(("out", "x"),)):
        b = "bins"
        if check.CONCRETE[0]:
            N = v.a.n
            idx = [t.cval(v.a(i)) for i in range(N)]
            st = [t.cval(v[b](k)) for k in range(v[b].n)]
            g, seen = [], set()
            for i in range(N):
                if idx[i] >= 0:
                    p = st[idx[i]] + count(idx, i, idx[i]); seen.add(p)
                    g += [("event in its place", t.eq(o[y](p), v[x](i))) for y, x in outs]
            g += [("nothing else is written", t.eq(o[y](q), v[y](q))) for y, x in outs for q in range(v[y].n) if q not in seen]
            if moved: g += [("as many events written as counted", t.eq(o.bins(k), st[k] + count(idx, N, k))) for k in range(len(st))]
            return g
        be = v.a(v.e)
        g = [("the event is in the output range of its bin, behind the earlier events of that bin", t.Implies(t.ge(be, 0), t.eq(o[y](v[b](be) + Cnt(v.a_arr, v.e, be)), v[x](v.e)))) for y, x in outs]
        g += [("nothing else is written", t.Implies(outside(v, v.q, b), t.eq(o[y](v.q), v[y](v.q)))) for y, x in outs]
        if moved: g.append(("as many events written as counted", t.Implies(t.And(t.ge(v.k, 0), t.lt(v.k, v.nbin)), t.eq(o.bins(v.k), v.bins(v.k) + Cnt(v.a_arr, v.n, v.k)))))
        return g

    def msetup(ex, st, v):
        st.pcs += facts(v)
        ex.argv = v

    def minv(moved="bins", outs=(("out", "x"),)):
        b = "bins"
        def inv(ex, L):
            v, a = ex.argv, ex.argv.a_arr
            be = v.a(v.e)
            out = []
            arrs = [L.arr(ex.argobj["bins"])[1]] if moved else []
            for i, ob in L.st.mem.items():
                if getattr(ob, "kind", "") == "arr" and not moved and i not in ex.argobj.values() and 0 in ob.fields: arrs.append(ob.fields[0][1])
            for _, _, c in L.positions():
                for arr in arrs: out.append(forall(Z, v.nbin, lambda k: t.eq(t.select(arr, k), v[b](k) + Cnt(a, c, k))))
                for y, x in outs:
                    cur = L.arr(ex.argobj[y])[1]
                    out.append(t.Implies(t.And(t.lt(v.e, c), t.ge(be, 0)), t.eq(t.select(cur, v[b](be) + Cnt(a, v.e, be)), v[x](v.e))))
                    out.append(t.Implies(outside(v, v.q, b), t.eq(t.select(cur, v.q), v[y](v.q))))
            return out
        return inv

    def mgen(elem, var=False, many=False):
        def g(r):
            nb = r.choice([1, 2, 3, 5, 8, 17]) if not many else r.choice([513, 600, 1024])
            m = r.randrange(1, 30) if not many else r.choice([4 * nb + 1, 4 * nb + 100, 10 * nb])
            a = [r.randrange(-1, nb) for _ in range(m)]
            order = list(range(nb))
            if not many: r.shuffle(order)
            st, p = [0] * nb, r.randrange(0, 3)
            for k in order:
                st[k] = p
                p += a.count(k) + (r.choice([0, 0, 1, 2]) if not many else 0)
            nout = p + r.randrange(0, 3)
            val = (lambda: r.randrange(-1000, 1000)) if elem[0] == "i" else (lambda: f32(r.uniform(-1, 1)))
            d = {"out": [val() for _ in range(nout)], "nout": nout, "bins": st, "nbin": nb, "x": [val() for _ in range(m)], "a": a, "n": m, "e": r.randrange(m), "q": 0, "k": 0, "offset": r.randrange(3)}
            if var: d["outv"], d["xv"] = [val() for _ in range(nout)], [val() for _ in range(m)]
            return d
        return g
    T = {"d": "f64", "f": "f32", "l": "i64", "i": "i32"}
    ghosts = [S("e"), S("q"), S("k")]
    nout, nbin = (lambda v: v.nout), (lambda v: v.nbin)
    for x, ix in (("d", "l"), ("d", "i"), ("f", "l"), ("f", "i"), ("l", "l"), ("l", "i"), ("i", "l"), ("i", "i")):
        E = T[x]
        tail = [In("a", I[ix], n), S("n")] + ghosts
        es.append(Entry("move_%s_%s" % (x, ix), [IO("out", E, nout), S("nout"), IO("bins", "i64", nbin), S("nbin"), In("x", E, n)] + tail, mpost, pre=mpre, inv=minv(), setup=msetup, gen=mgen(E), opts={"timeout": 20.0}, about="map_to_bins_direct"))
        if x in "df":
            o2 = (("out", "x"), ("outv", "xv"))
            es.append(Entry("movev_%s_%s" % (x, ix), [IO("out", E, nout), IO("outv", E, nout), S("nout"), IO("bins", "i64", nbin), S("nbin"), In("x", E, n), In("xv", E, n)] + tail, lambda v, o, o2=o2: mpost(v, o, "bins", o2), pre=mpre, inv=minv("bins", o2), setup=msetup, gen=mgen(E, True), opts={"timeout": 20.0}, about="map_to_bins_direct with variances"))

    # ---- bin indices from existing bins and from groups
    def ext(v, nb): return t.And(t.le(v.index * nb + nb, 1 << 62), t.ge(v.index, -1))
    bits = {"l": 63, "i": 31}
    for ix in "li":
        es.append(Entry("upd_existing_" + ix, [S("index", I[ix]), S("bin"), S("nbin")], lambda v, o: [("excluded events stay excluded, others get the bin appended", t.eq(o.ret, t.ite(t.eq(v.index, -1), -1, v.index * v.nbin + v.bin)))],
                        pre=lambda v, ix=ix: [t.ge(v.index, -1), t.ge(v.bin, 0), t.lt(v.bin, v.nbin), t.lt(v.index * v.nbin + v.nbin, 1 << bits[ix])], ret=I[ix], opts={"check_nsw": True},
                        gen=lambda r: (lambda nb: {"index": r.choice([-1, 0, 1, 5, 1000]), "nbin": nb, "bin": r.randrange(nb)})(r.choice([1, 2, 3, 100])), about="update_indices_from_existing"))
    BIG = {"l": [0, 1, -1, 5, 7, (1 << 32) + 5, (1 << 32) + 7, -(1 << 32) + 5, (1 << 63) - 1, -(1 << 63)], "i": [0, 1, -1, 5, 7, (1 << 31) - 1, -(1 << 31)]}
    GR = ("lll", "ill", "lli", "ili", "lii", "iii", "iil")
    for s in GR:
        ix, x, g = s

        def pre(v, ix=ix, g=g): return [t.ge(v.index, -1), t.ge(v.ngroup, 0), t.le(v.offset + v.ngroup, 1 << bits[g]), t.le(v.index * v.ngroup + v.ngroup, 1 << bits[ix]), t.lt(v.ngroup, 1 << bits[ix])]

        def post(v, o):
            grp = v.x - v.offset
            return [("the group with this label, or none", t.eq(o.ret, t.ite(t.Or(t.eq(v.index, -1), t.lt(grp, 0), t.ge(grp, v.ngroup)), -1, v.index * v.ngroup + grp)))]

        def gen(r, x=x, g=g, ix=ix):
            ng = r.choice([0, 1, 2, 5, 100]); off = r.choice(BIG[g] + [r.randrange(-10, 10)])
            lim = lambda y, c: max(-(1 << bits[c]), min((1 << bits[c]) - 1, y))
            return {"index": r.choice([-1, 0, 1, 7]), "x": lim(r.choice(BIG[x] + [off, off - 1, off + ng, off + ng - 1, off + (1 << 32)]), x), "ngroup": ng, "offset": off}
        es.append(Entry("upd_contig_" + s, [S("index", I[ix]), S("x", I[x]), S("ngroup"), S("offset", I[g])], post, pre=pre, ret=I[ix], gen=gen, opts={"wrap_exact": True}, about="update_indices_by_grouping_contiguous"))
    for s in GR + ("ltt",):
        ix, x, g = s.replace("t", "l")
        DUP = lambda v: t.And(t.ge(v.p, 0), t.lt(v.p, v.q), t.lt(v.q, v.n), t.eq(v.g(v.p), v.g(v.q)))
        base = lambda v, ix=ix, g=g: [forall(Z, v.n, lambda i: t.And(t.ge(v.g(i), -(1 << bits[g])), t.lt(v.g(i), 1 << bits[g]))), t.ge(v.n, 0), t.lt(v.n, 1 << min(40, bits[ix])), t.ge(v.index, -1), t.le(v.index * v.n + v.n, 1 << bits[ix])]

        def pre(v, base=base):
            if check.CONCRETE[0]: return base(v) + [t.lift(len({t.cval(v.g(i)) for i in range(v.g.n)}) == v.g.n), t.lt(v.p, v.n)]
            return base(v) + [t.Forall(lambda a, b: t.Implies(t.And(t.ge(a, 0), t.lt(a, b), t.lt(b, v.n)), t.ne(v.g(a), v.g(b))), 2)]

        def dpre(v, base=base):
            if check.CONCRETE[0]: return [t.FALSE]
            return base(v) + [DUP(v)]

        def post(v, o):
            if check.CONCRETE[0]:
                r = t.const(-1)
                for i in range(v.g.n): r = t.ite(t.eq(v.g(i), v.x), v.index * v.n + i, r)
                return [("the group with this label, or none", t.eq(o.ret, t.ite(t.eq(v.index, -1), -1, r)))]
            return [("excluded events stay excluded", t.Implies(t.eq(v.index, -1), t.eq(o.ret, -1))),
                    ("the group with this label", t.Implies(t.And(t.ne(v.index, -1), t.ge(v.p, 0), t.lt(v.p, v.n), t.eq(v.x, v.g(v.p))), t.eq(o.ret, v.index * v.n + v.p))),
                    ("no group has this label: excluded", t.Implies(forall(Z, v.n, lambda i: t.ne(v.g(i), v.x)), t.eq(o.ret, -1)))]

        def inv(ex, L):
            v = ex.argv
            g, n = v.g_arr, v.n
            G = lambda i: t.select(g, i)
            dom = nodes = None
            for i, ob in L.st.mem.items():
                if getattr(ob, "name", "") == "map presence": dom = ob.fields[0][1]
                if getattr(ob, "name", "") == "map nodes": nodes = next(f[1] for k, f in ob.fields.items() if k != 8)
            if dom is None: return []
            out = []
            cs = [c for _, _, c in L.positions()]
            for c in cs:
                out.append(t.Forall(lambda k: t.Implies(t.ne(t.select(dom, k), 0), t.And(t.ge(t.select(nodes, k), 0), t.lt(t.select(nodes, k), c), t.eq(G(t.select(nodes, k)), k)))))
                out.append(forall(Z, c, lambda i: t.ne(t.select(dom, G(i)), 0)))
                for d in cs:
                    if d is not c: out += [t.eq(c, d), t.le(c, d), t.Implies(t.gt(d, v.q), t.lt(c, d))]
            return out

        def setup(ex, st, v): ex.argv = v

        def gen(r, x=x, g=g, ix=ix, s=s):
            m = r.randrange(0, 6)
            gs = [r.choice(BIG[g] + list(range(-3, 9))) for _ in range(m)]
            if r.random() < .8: gs = list(dict.fromkeys(gs))
            return {"index": r.choice([-1, 0, 1, 7]), "x": max(-(1 << bits[x]), min((1 << bits[x]) - 1, r.choice(BIG[x] + gs + [y + (1 << 32) for y in gs]))), "g": gs, "n": len(gs), "p": 0, "q": 0}
        args = [S("index", I[ix]), S("x", I[x]), In("g", I[g], n), S("n"), S("p"), S("q")]
        es.append(Entry("upd_map_" + s, args, post, pre=pre, inv=inv, setup=setup, gen=gen, ret=I[ix], contracts=hashmap.MAP + TEXT, about="groups_to_map, update_indices_by_grouping"))
        es.append(Entry("upd_map_" + s, args, lambda v, o: [("duplicate group labels are refused", t.FALSE)], name="dup_map_" + s, throws=lambda v, o: [("refused", t.TRUE)], pre=dpre, inv=inv, setup=setup, gen=gen, ret=I[ix], contracts=hashmap.MAP + TEXT, about="groups_to_map, duplicate labels"))

    # ---- the range of new bins that an existing bin overlaps
    for s in ("dd", "df", "ff", "ll", "ii", "il", "di", "fd"):
        x, e = s
        num = lambda y: t.toreal(y) if y.sort == "I" else y
        cmp_ = {"begin": lambda a, b: t.le(*((a, b) if a.sort == b.sort else (num(a), num(b)))), "end": lambda a, b: t.lt(*((a, b) if a.sort == b.sort else (num(a), num(b))))}
        for kind in ("begin", "end"):
            passed = lambda v, k, kind=kind: cmp_[kind](v.e(k + 1), v.x)
            def post(v, o, kind=kind, passed=passed):
                b = o.o(0)
                if check.CONCRETE[0]:
                    B, N = t.cval(b), v.e.n
                    last = B + 2 >= N or not (0 <= B + 1 < N)
                    stop = t.TRUE if last else t.Not(passed(v, B))
                else: stop = t.Or(t.ge(b + 2, v.n), t.Not(passed(v, b)))
                return [("moves forward only", t.ge(b, v.bin)), ("to a bin of the output", t.Or(t.eq(b, v.bin), t.le(b, v.n - 2))), ("past bins that end before the edge", forall(v.bin, b, lambda k: passed(v, k))), ("and past all of them", stop),
                        ("index", t.eq(o.o(1), b if kind == "begin" else b + 2))]

            def inv(ex, L, kind=kind):
                v = ex.argv
                return [g for _, _, c in L.positions() for g in (forall(v.bin, c, lambda k: cmp_[kind](v.e(k + 1), v.x)), t.le(c, v.n - 2), t.Or(t.eq(c, v.bin), t.le(c, v.n - 2)))]

            def gen(r, x=x, e=e):
                m = r.choice([0, 1, 2, 3, 4, 6])
                es_ = sorted(r.randrange(-5, 12) for _ in range(m))
                xv = r.randrange(-6, 14)
                return {"bin": r.randrange(0, max(1, m - 1)), "x": float(xv) + r.choice([0, .5]) if x in "df" else xv, "e": [float(y) for y in es_] if e in "df" else es_, "n": m}
            es.append(Entry("%s_edge_%s" % (kind, s), [S("bin"), S("x", T[x]), In("e", T[e], n), S("n"), Out("o", "i64", 2)], post, pre=lambda v: [t.ge(v.n, 0), t.lt(v.n, 1 << 40), t.ge(v.bin, 0), t.lt(v.bin, 1 << 40)], inv=inv, setup=setup, gen=gen, about="bin_detail: " + kind + "_edge"))

    # ---- the kernel with its dispatch, and the chunked variants
    few = lambda v: t.Or(t.le(v.nbin, 512), t.le(v.n, 4 * v.nbin))
    for x, ix in (("d", "l"), ("d", "i"), ("i", "l")):
        E = T[x]
        args = [IO("out", E, nout), S("nout"), S("offset"), In("bins", "i64", nbin), S("nbin"), In("x", E, n), In("a", I[ix], n), S("n")] + ghosts
        es.append(Entry("bin_%s_%s" % (x, ix), args, lambda v, o: [g for g in mpost(v, o, None) ], pre=lambda v: mpre(v) + [t.ge(v.offset, 0), few(v)], inv=minv(None), setup=msetup, gen=mgen(E), opts={"timeout": 20.0}, about="element::bin, mapped directly"))
    B = "at most 30 events and 17 bins (chunk sizes 1, 2, 4), at most 10240 events and 1024 bins (dispatch)"
    for nm, x, ix, var in (("chunk_1_d_l", "d", "l", 0), ("chunk_2_d_l", "d", "l", 0), ("chunk_4_i_i", "i", "i", 0), ("chunk_2_l_i", "l", "i", 0), ("chunkv_2_d_l", "d", "l", 1), ("chunkv_4_f_i", "f", "i", 1), ("chunk_1024_d_l", "d", "l", 0)):
        E = T[x]
        outs = (("out", "x"), ("outv", "xv"))[:1 + var]
        args = [IO("out", E, nout)] + ([IO("outv", E, nout)] if var else []) + [S("nout"), IO("bins", "i64", nbin), S("nbin"), In("x", E, n)] + ([In("xv", E, n)] if var else []) + [In("a", I[ix], n), S("n")] + ghosts
        es.append(Entry(nm, args, lambda v, o, outs=outs: mpost(v, o, "bins", outs), pre=mpre, gen=mgen(E, bool(var)), bounded=B, search=400, about="map_to_bins_chunkwise"))
    for x, ix in (("d", "l"), ("i", "l")):
        E = T[x]
        args = [IO("out", E, nout), S("nout"), S("offset"), In("bins", "i64", nbin), S("nbin"), In("x", E, n), In("a", I[ix], n), S("n")] + ghosts
        es.append(Entry("bin_%s_%s" % (x, ix), args, lambda v, o: mpost(v, o, None), name="bin_many_%s_%s" % (x, ix), pre=lambda v: mpre(v) + [t.ge(v.offset, 0), t.Not(few(v))], gen=mgen(E, many=True), bounded=B, search=12, about="element::bin, mapped by chunks"))
    return es


def extra_checks(mod, so, tier, seed):
    """the lemmas about Cnt, by induction over m (step)"""
    a, m, k, e, N = t.var("a", "AI"), t.var("m"), t.var("k"), t.var("e"), t.var("N")
    step = t.eq(Cnt(a, m + 1, k), Cnt(a, m, k) + t.ite(t.eq(t.select(a, m), k), 1, 0))
    back = t.eq(Cnt(a, m, k), Cnt(a, m - 1, k) + t.ite(t.eq(t.select(a, m - 1), k), 1, 0))
    out = []
    for nm, h, g in (("counts are not negative", [t.ge(Cnt(a, m, k), 0), step], t.ge(Cnt(a, m + 1, k), 0)),
                     ("counts do not exceed the total (downwards)", [t.le(Cnt(a, m, k), Cnt(a, N, k)), back], t.le(Cnt(a, m - 1, k), Cnt(a, N, k))),
                     ("counts grow from a position on (upwards)", [t.ge(Cnt(a, m, k), Cnt(a, e, k)), step], t.ge(Cnt(a, m + 1, k), Cnt(a, e, k)))):
        r = pv.prove(h, g, 10.0)
        out.append(("lemma: " + nm, bool(r), r.backend, None))
    return out


TRUSTED = ["std::unordered_map with integer keys behaves as a finite map (contracts/hashmap.py)"]
ASSUMPTIONS = ["the output ranges of the bins (start plus count) are disjoint and inside the output buffer; bin indices are below the number of bins",
               "extended bin indices are representable", "Cnt(a, m, k), the number of the first m indices equal to k, is given by its recursive definition; its monotonicity is proved by induction",
               "grouping by floating-point and string labels uses the same templates as by integers and is not instantiated symbolically"]
EXPLANATION = "counting, direct moving (all value and index types, with variances), the dispatching kernel, index updates and edge ranges for event lists and bin counts of any length; the chunked variant used for many bins has a bounded stand-in"
