"""C09: element buffers have value semantics."""
import term as t
import check
from check import *

DEFINES = ["-DVERIF_SPLIT"]
LIM = 1 << 40
W = {'l': 8, 'i': 4, 'd': 8, 'b': 1}
SORT = {"l": "i64", "i": "i32", "d": "f64", "b": "u8"}


def inv(ex, L):
    """the part of the written array already passed holds what is copied or filled; nothing else is written"""
    out = []
    pos = L.positions()
    v = ex.argv
    for n in [v[x] for x in ("n", "m") if x in v.d]: out += [t.le(c, e) for _, _, c in pos for e in [n] + ([t.Min(t.Max(v.cut, 0), n)] if "cut" in v.d else [])]
    for i, ob in L.st.mem.items():
        if getattr(ob, "kind", "") != "arr" or 0 not in ob.fields or i not in L.st0.mem: continue
        h0, h = L.arr(i)
        if h0 is h: continue
        for oi, i0, c in pos:
            if oi is not None and oi != i: continue
            out += [forall(Z, i0, lambda k: t.eq(t.select(h, k), t.select(h0, k)))]
            if "cut" in v.d and not getattr(L.st.mem[i], "name", "").startswith("o"): out += [forall(c, v.n, lambda k: t.eq(t.select(h, k), t.select(h0, k)))]
            if "v" in ex.argv.d: out.append(forall(i0, c, lambda k: t.eq(t.select(h, k), ex.argv.v)))
            out.append(forall(i0, c, lambda k: t.eq(t.select(h, k), t.const(0, "I" if h.sort == "AI" else "R"))))
            for nm in ("x", "y"):
                if nm in ex.argobj and getattr(L.st0.mem.get(ex.argobj[nm]), "kind", "") == "arr":
                    g0, _ = L.arr(ex.argobj[nm])
                    if g0.sort == h.sort: out.append(forall(i0, c, lambda k: t.eq(t.select(h, k), t.select(g0, k))))
            for oj, j0, d in pos:
                if oj is None or oj == i or getattr(L.st0.mem.get(oj), "kind", "") != "arr": continue
                g0, g = L.arr(oj)
                if g0.sort == h.sort: out.append(forall(i0, c, lambda k: t.eq(t.select(h, k), t.select(g0, k - i0 + j0))))
    return out


def setup(ex, st, v): ex.argv = v


Z = t.const(0)


def entries(tier):
    es = []
    cut = [S("cut"), S("swp", "bool")]
    for s, e in SORT.items():
        n, m = (lambda v: v.n), (lambda v: v.m)
        X, Y = In("x", e, n), In("y", e, m)
        K, K2 = S("kind", "i32"), S("kind2", "i32")
        size = lambda v, k="kind", x="n": t.ite(t.eq(v[k], 0), v[x], t.ite(t.eq(v[k], 1), -1, 0)) if k in v.d else v[x]

        def flags(sz): return t.ite(t.lt(sz, 0), 4, t.ite(t.eq(sz, 0), 7, 1))
        def info(o, j, sz): return [("size %d" % j, t.eq(o.i(j), sz)), ("flags %d" % j, t.eq(o.i(j + 1), flags(sz)))]
        same = lambda o, b, n, f, nm: [(nm, forall(0, n, lambda k: t.eq(getattr(o, b)(k), f(k))))]

        def pre(v):
            out = []
            for k in ("n", "m"):
                if k in v.d: out += [t.ge(v[k], 0), t.lt(v[k], LIM)]
            for k in ("kind", "kind2"):
                if k in v.d: out += [t.ge(v[k], 0), t.le(v[k], 2)]
            return out

        def gen(r, e=e):
            val = (lambda: r.randrange(0, 9)) if e[0] != "f" else (lambda: r.choice([0.5, 1.0, 2.0, -3.0]))
            nn, mm = r.randrange(0, 5), r.randrange(0, 5)
            if r.random() < .4: mm = nn
            return {"cut": r.randrange(-1, 6), "swp": r.random() < .5, "n": nn, "m": mm, "x": [val() for _ in range(nn)], "y": [val() for _ in range(mm)], "v": val(), "kind": r.randrange(3), "kind2": r.randrange(3), "k": 0}

        def add(fn, args, post, extra=None, g=None, about="", **kw):
            if s in "ib" and fn not in ("fill", "zeros", "range", "copy", "resize", "moveto"): return  # the other operations do not depend on the element type

            def gg(r, gen=gen, g=g):
                d = gen(r)
                if g: g(r, d)
                names = {a.name for a in args}
                return {k: x for k, x in d.items() if k in names}
            es.append(Entry("%s_%s" % (fn, s), args, post, pre=(lambda v, pre=pre, extra=extra: pre(v) + (extra(v) if extra else [])), gen=gg, inv=inv, setup=setup, opts={"lazy_stride": lambda nm, sz, w=W[s]: w}, about=about + ", element type " + e, **kw))
        O = lambda nm="o", f=n: Out(nm, e, f)
        I = Out("i", "i64", 5)
        x = lambda v: (lambda k: v.x(k))
        add("fill", cut + [S("n"), S("v", e), O(), I], lambda v, o: info(o, 0, v.n) + same(o, "o", v.n, lambda k: v.v, "every element is the value"), about="element_array(size, value)")
        zero = t.const(0) if e != "f64" else t.const(0.0)
        add("zeros", cut + [S("n"), O(), I], lambda v, o: info(o, 0, v.n) + same(o, "o", v.n, lambda k: t.lift(0), "every element is zero"), about="element_array(size)")
        for fn, ab in (("range", "element_array(first, last)"), ("vec", "element_array(container)")):
            add(fn, cut + [S("n"), X, O(), I], lambda v, o: info(o, 0, v.n) + same(o, "o", v.n, lambda k: v.x(k), "elements"), about=ab)
        add("list", [In("x", e, 3), Out("o", e, 3), I], lambda v, o: info(o, 0, t.const(3)) + [("element", t.eq(o.o(k), v.x(k))) for k in range(3)], g=lambda r, d: d.update(x=[1, 2, 3]), about="element_array(initializer list)")
        add("raw", [S("n"), I], lambda v, o: info(o, 0, v.n) + [("as many elements", t.eq(o.i(2), v.n))], about="element_array(size, init_for_overwrite)")
        add("none", [I], lambda v, o: info(o, 0, t.const(-1)), about="element_array()")
        kin = lambda v: [t.ge(v.k, 0), t.lt(v.k, v.n)]
        def gk(r, d):
            if d["n"] == 0: d["n"] = 1; d["x"] = [1]
            d["k"] = r.randrange(d["n"])
        upd = lambda v: (lambda k: t.ite(t.eq(k, v.k), v.v, v.x(k)))
        CP = cut + [S("n"), X, S("k"), S("v", e), O(), O("p"), I]
        add("copy", CP, lambda v, o: info(o, 0, v.n) + info(o, 2, v.n) + same(o, "o", v.n, x(v), "source unchanged by writing to the copy") + same(o, "p", v.n, upd(v), "copy"), extra=kin, g=gk, about="copy constructor, then writing to the copy")
        add("copyw", CP[2:], lambda v, o: info(o, 0, v.n) + info(o, 2, v.n) + same(o, "o", v.n, upd(v), "source") + same(o, "p", v.n, x(v), "copy unchanged by writing to the source"), extra=kin, g=gk, about="copy constructor, then writing to the source")
        add("assign", [S("n"), X, S("m"), Y, S("k"), S("v", e), O(), O("p"), I], lambda v, o: info(o, 0, v.n) + info(o, 2, v.n) + same(o, "o", v.n, x(v), "source unchanged by writing to the copy") + same(o, "p", v.n, upd(v), "copy"), extra=kin, g=gk, about="copy assignment, then writing to the copy")
        both = lambda v, o: info(o, 0, size(v)) + info(o, 2, size(v)) + same(o, "o", size(v), x(v), "source") + same(o, "p", size(v), x(v), "copy")
        add("copyn", [K, S("n"), X, O(), O("p"), I], both, about="copy constructor: filled, never sized and empty")
        add("assignn", [K, K2, S("n"), X, S("m"), Y, O(), O("p"), I], both, about="copy assignment: filled, never sized and empty")
        add("self", [K, S("n"), X, O(), I], lambda v, o: info(o, 0, size(v)) + same(o, "o", size(v), x(v), "elements"), about="copy assignment to itself")
        moved = lambda v, o: info(o, 0, t.const(-1)) + info(o, 2, size(v)) + [("source holds no buffer", t.eq(o.i(4), 1))] + same(o, "o", size(v), x(v), "elements")
        add("move", [K, S("n"), X, O(), I], moved, about="move constructor")
        add("moveto", [K, K2, S("n"), X, S("m"), Y, O(), I], moved, about="move assignment")
        add("reset", [K, S("n"), X, I], lambda v, o: info(o, 0, t.const(-1)), about="reset")
        add("resize", [K, S("n"), X, S("m"), O("o", m), I], lambda v, o: info(o, 0, v.m) + same(o, "o", v.m, lambda k: t.lift(0), "every element is zero"), about="resize")
        add("rawresize", [K, S("n"), X, S("m"), I], lambda v, o: info(o, 0, v.m) + [("as many elements", t.eq(o.i(2), v.m))], about="resize without initialization")
        add("reuse", [K, S("n"), X, S("m"), Y, O("o", m), I], lambda v, o: info(o, 0, v.m) + same(o, "o", v.m, lambda k: v.y(k), "what was written"), about="resize without initialization, then writing every element")
    return es


ASSUMPTIONS = ["parallel_for runs its body on ranges that partition the given one (contract of TBB; the check runs two ranges, cut at an arbitrary place, in either order)", "fewer than 2^40 elements; allocation succeeds",
               "element types int64, int32, double and bytes; strings, vectors and matrices use the same template"]
EXPLANATION = "all sizes, contents and cutting places"
