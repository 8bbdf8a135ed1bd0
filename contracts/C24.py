"""C24: keyed collections: insertion order, one value per key, refusal of missing keys, detection of size changes."""
import term as t
import check
import prover as pv
from check import *
from text import TEXT, made
from symex import Ptr, Arr

Z = t.const(0)
LIM = 1 << 40


def make(ex, st, inst, a, dem):
    """any well-formed collection: n distinct keys and their n values, in storage of arbitrary capacities"""
    r, k, x, n, kc, vc = a
    off = 0
    for buf, sz, cap in ((k, 2, kc), (x, 8, vc)):
        b = ex.new_obj(st, Arr(sz, {0: (sz, st.mem[buf.obj].fields[0][1])}, cap, "storage"))
        for p, c in ((0, Z), (8, n), (16, cap)): ex.store(st, ("ptr",), Ptr(b, t.mul(sz, c)), Ptr(r.obj, t.lift(r.off) + off + p))
        off += 24
    return None


def find(ex, st, inst, a, dem):
    """contract of std::find over labels, verified on the library's source by the entry std_find: the first match, or the end"""
    from symex import Choice
    first, last, key = a
    if first.obj == 0: return last
    arr = st.mem[first.obj].fields[0][1]
    b, n = t.fdiv(t.lift(first.off), 2), t.fdiv(t.sub(last.off, first.off), 2)
    x = ex.load(st, ("i", 16), key)
    j = t.fresh("found", "I")
    ne = lambda i: t.ne(t.select(arr, b + i), x)
    return Choice([(t.And(t.ge(j, 0), t.lt(j, n), t.eq(t.select(arr, b + j), x), forall(Z, j, ne)), Ptr(first.obj, t.lift(first.off) + 2 * j)), (forall(Z, n, ne), last)])


OPAQUE = r"\bstd::find<__gnu_cxx::__normal_iterator<scipp::units::Dim const\*|\bstd::find<.*scipp::units::Dim>\(|dict_keys_to_string"
MAKE = [(r"^make\(", make), (r"dict_keys_to_string", made), (OPAQUE, find)] + TEXT


def setup(ex, st, v): ex.argv = v


def inv(ex, L):
    v = ex.argv
    pos = [c for _, _, c in L.positions()]
    out = []
    for c in pos:
        out.append(t.le(c, v.n))
        if "key" in v.d: out.append(forall(Z, c, lambda k: t.ne(v.k(k), v.key)))
    for i, ob in L.st.mem.items():
        if getattr(ob, "kind", "") != "arr" or i in ex.argobj.values() or 0 not in ob.fields or i not in L.st0.mem: continue
        h0, h = L.arr(i)
        if h0 is h: continue
        for oi, i0, c in L.positions():
            if oi is not None and oi != i: continue
            out.append(forall(Z, i0, lambda k: t.eq(t.select(h, k), t.select(h0, k))))
            out.append(forall(i0, c, lambda k: t.eq(t.select(h, k), t.select(h0, k + 1))))
            for e in (v.n, v.n + 1): out.append(forall(c, e, lambda k: t.eq(t.select(h, k), t.select(h0, k))))
            for oj, j0, d in L.positions():
                if oj is None or oj == i or getattr(L.st0.mem.get(oj), "kind", "") != "arr" or 0 not in L.st0.mem[oj].fields: continue
                g0, _ = L.arr(oj)
                if g0.sort == h.sort: out.append(forall(i0, c, lambda k: t.eq(t.select(h, k), t.select(g0, k - i0 + j0))))
    for nm, src in (("ok", "k"), ("ov", "x")):
        if nm not in ex.argobj: continue
        h0, h = L.arr(ex.argobj[nm])
        if h0 is h: continue
        for c in pos: out.append(forall(Z, c, lambda k: t.eq(t.select(h, k), v[src](k) - (v.c if "c" in v.d else Z))))
    return out


def entries(tier):
    es = []
    nn = lambda v: v.n
    BASE = [In("k", "u16", nn), In("x", "i64", nn), S("n"), S("kc"), S("vc")]
    KEY = [S("key", "u16")]
    W = [S("w")]  # ghost: where the key is, if present

    def pre(v):
        out = [t.ge(v.n, 0), t.lt(v.n, LIM)] + [p for c in ("kc", "vc") for p in (t.ge(v[c], v.n), t.lt(v[c], LIM))]
        out.append(forall(Z, v.n, lambda i: t.And(t.ge(v.k(i), 0), t.lt(v.k(i), 1 << 16))))
        distinct = [t.Forall(lambda i, j: t.Implies(t.And(t.ge(i, 0), t.lt(i, j), t.lt(j, v.n)), t.ne(v.k(i), v.k(j))), 2)] if not check.CONCRETE[0] else [t.lift(len({t.cval(v.k(i)) for i in range(v.k.n)}) == v.k.n)]
        return out + distinct

    def npre(v): return pre(v) + [t.ge(v.n, 1)]

    def gen(r):
        n = r.randrange(0, 7)
        d = {"n": n, "k": r.sample(range(1, 10), n), "x": [r.randrange(-5, 9) for _ in range(n)], "kc": n, "vc": n + r.randrange(3), "val": r.randrange(100, 105), "c": r.randrange(0, 3), "q": r.randrange(0, n + 2)}
        d["key"] = r.choice(d["k"] + [r.randrange(1, 11)])
        d["w"] = d["k"].index(d["key"]) if d["key"] in d["k"] else -1
        return d

    there = lambda v: t.And(t.ge(v.w, 0), t.lt(v.w, v.n), t.eq(v.k(v.w), v.key)) if not check.CONCRETE[0] else t.lift(any(t.cval(v.k(i)) == t.cval(v.key) for i in range(v.k.n)))
    absent = lambda v: forall(Z, v.n, lambda i: t.ne(v.k(i), v.key))

    def at(v, nm, i):
        if not check.CONCRETE[0]: return v[nm](i)
        j = t.cval(i)
        return v[nm](j) if 0 <= j < v[nm].n else Z

    def holds(v, o, cond, n, key, val, name="o", nm=""):
        q = v.q
        inside = t.And(cond, t.ge(q, 0), t.lt(q, n))
        return [(nm + "number of entries", t.Implies(cond, t.eq(o[name](0), n))), (nm + "key at an arbitrary position", t.Implies(inside, t.eq(o[name](1), key(q)))), (nm + "value at an arbitrary position", t.Implies(inside, t.eq(o[name](2), val(q))))]

    def same(v, o, cond, name="o", nm="unchanged: "): return holds(v, o, cond, v.n, lambda q: at(v, "k", q), lambda q: at(v, "x", q), name, nm)

    def assigned(v, o, name="o"):
        a, b = there(v), absent(v)
        return holds(v, o, a, v.n, lambda q: at(v, "k", q), lambda q: t.ite(t.eq(q, v.w), v.val, at(v, "x", q)), name, "key present: ") + \
            holds(v, o, b, v.n + 1, lambda q: t.ite(t.eq(q, v.n), v.key, at(v, "k", q)), lambda q: t.ite(t.eq(q, v.n), v.val, at(v, "x", q)), name, "new key: ")

    def removed(v, o, name="o"):
        sh = lambda nm: (lambda q: t.ite(t.lt(q, v.w), at(v, nm, q), at(v, nm, q + 1)))
        return holds(v, o, there(v), v.n - 1, sh("k"), sh("x"), name, "key present: ")
    Q, O = [S("q")], [Out("o", "i64", 4)]
    F = lambda v, o, c, r: [("outcome", t.Implies(c, t.eq(o.ret, r)))]

    def add(fn, args, post, about, **kw):
        names = {a.name for a in args}
        kw.setdefault("ret", "i32")
        ghost = [] if "w" not in names else []
        es.append(Entry(fn, args, post, pre=(npre if fn[:4] in ("add_", "del_", "clr_") else pre), gen=lambda r: {k: x for k, x in gen(r).items() if k in names}, inv=inv, setup=setup, contracts=MAKE, about=about, **kw))
    VAL = [S("val")]
    add("given", BASE + Q + O, lambda v, o: same(v, o, t.TRUE, nm="") + [("empty exactly if there are no entries", t.eq(o.ret, t.ite(t.eq(v.n, 0), 1, 0)))], "size, empty, iteration starts")
    add("assign", BASE + KEY + VAL + Q + O + W, lambda v, o: assigned(v, o) + [("done", t.eq(o.ret, 0))], "insert_or_assign")
    add("erase", BASE + KEY + Q + O + W, lambda v, o: removed(v, o) + same(v, o, absent(v)) + F(v, o, there(v), 0) + F(v, o, absent(v), 1), "erase")
    add("extract", BASE + KEY + Q + O + W, lambda v, o: removed(v, o) + same(v, o, absent(v)) + F(v, o, there(v), 0) + F(v, o, absent(v), 1) + [("value handed out", t.Implies(there(v), t.eq(o.o(3), at(v, "x", v.w))))], "extract")
    add("clear", BASE + Q + O, lambda v, o: holds(v, o, t.TRUE, Z, lambda q: Z, lambda q: Z) + [("empty", t.eq(o.ret, 1))], "clear")
    look = lambda v, o: [("found everywhere", t.Implies(there(v), t.And(t.eq(o.ret, 1), *[t.And(t.eq(o.f(i), 0), t.eq(o.o(i), at(v, "x", v.w))) for i in range(4)]))), ("missing key refused everywhere", t.Implies(absent(v), t.And(t.eq(o.ret, 0), *[t.eq(o.f(i), 1) for i in range(4)])))]
    add("lookup", BASE + KEY + [Out("o", "i64", 4), Out("f", "i32", 4)] + W, look, "operator[], at, contains")
    add("found", BASE + KEY + [Out("o", "i64", 3)] + W, lambda v, o: [("found", t.Implies(there(v), t.And(t.eq(o.ret, 1), t.eq(o.o(0), v.key), t.eq(o.o(1), at(v, "x", v.w)), t.eq(o.o(2), at(v, "x", v.w))))), ("end for a missing key", t.Implies(absent(v), t.eq(o.ret, 0)))], "find")
    upd = lambda v, o: holds(v, o, there(v), v.n, lambda q: at(v, "k", q), lambda q: t.ite(t.eq(q, v.w), v.val, at(v, "x", q)), nm="key present: ") + same(v, o, absent(v))
    add("foundm", BASE + KEY + VAL + Q + O + W, lambda v, o: upd(v, o) + F(v, o, there(v), 1) + F(v, o, absent(v), 0) + [("previous value", t.Implies(there(v), t.eq(o.o(3), at(v, "x", v.w))))], "find, writing through the iterator")
    for fn in ("wr", "wrat"): add(fn, BASE + KEY + VAL + Q + O + W, lambda v, o: upd(v, o) + F(v, o, there(v), 0) + F(v, o, absent(v), 1), "writing through " + ("operator[]" if fn == "wr" else "at"))
    add("copied", BASE + KEY + VAL + Q + O + [Out("p", "i64", 3)] + W, lambda v, o: assigned(v, o) + same(v, o, t.TRUE, "p", "original unchanged: "), "copy, then insert_or_assign on the copy")
    add("copyassigned", BASE + KEY + Q + O + [Out("p", "i64", 3)] + W, lambda v, o: removed(v, o) + same(v, o, t.TRUE, "p", "original unchanged: "), "copy assignment, then erase on the copy")
    add("moved", BASE + Q + O, lambda v, o: same(v, o, t.TRUE, nm=""), "move")
    # iteration
    OK, OV = [Out("ok", "u16", nn)], [Out("ov", "i64", nn)]
    inorder = lambda nm, src: (lambda v, o: [("as many as entries", t.eq(o.ret, v.n)), (nm + " in order", forall(Z, v.n, lambda i: t.eq(o[nm](i), at(v, src, i) - (v.c if "c" in v.d else Z))))])
    both = lambda v, o: inorder("ok", "k")(v, o) + inorder("ov", "x")(v, o)[1:]
    add("items", BASE + OK + OV, both, "iteration over pairs, const", ret="i64")
    add("itemsm", BASE + OK + OV, both, "iteration over pairs", ret="i64")
    add("keys", BASE + OK, inorder("ok", "k"), "iteration over keys", ret="i64")
    add("values", BASE + OV, inorder("ov", "x"), "iteration over values, const", ret="i64")
    add("valuesm", BASE + OV, inorder("ov", "x"), "iteration over values", ret="i64")
    add("mapped", BASE + [S("c")] + OV, inorder("ov", "x"), "iteration over transformed values", ret="i64")
    # detection of size changes
    FF = [Out("f", "i32", 4)]
    every = lambda o, r: t.And(*[t.eq(o.f(i), r) for i in range(4)])
    for it in ("items", "itemsm", "keys", "values", "valuesm"):
        add("add_" + it, BASE + KEY + VAL + FF + W, lambda v, o: [("detected", t.Implies(absent(v), every(o, 2))), ("no size change, no alarm", t.Implies(t.And(there(v)), every(o, 0)))], "insert_or_assign while iterating over " + it)
        add("del_" + it, BASE + KEY + FF + W, lambda v, o: [("detected", t.Implies(there(v), every(o, 2)))] + F(v, o, absent(v), 1), "erase while iterating over " + it)
        add("clr_" + it, BASE + FF, lambda v, o: [("detected", t.Implies(t.gt(v.n, 0), every(o, 2)))], "clear while iterating over " + it)
    # the library function behind every lookup
    def spre(v): return [t.ge(v.n, 0), t.lt(v.n, LIM), forall(Z, v.n, lambda i: t.And(t.ge(v.k(i), 0), t.lt(v.k(i), 1 << 16)))]
    es.append(Entry("std_find", [In("k", "u16", nn), S("n"), S("key", "u16")], lambda v, o: [("in range", t.And(t.ge(o.ret, 0), t.le(o.ret, v.n))), ("nothing before matches", forall(Z, o.ret, lambda i: t.ne(v.k(i), v.key))), ("match unless the end", t.Implies(t.lt(o.ret, v.n), t.eq(at(v, "k", o.ret), v.key)))],
                    pre=spre, gen=lambda r: (lambda n: {"n": n, "k": [r.randrange(1, 8) for _ in range(n)], "key": r.randrange(1, 8)})(r.randrange(0, 9)), inv=inv, setup=setup, ret="i64", about="std::find"))
    # from a list of pairs
    L3 = [In("k", "u16", 3), In("x", "i64", 3)]

    def lpost(v, o):
        dis = t.And(t.ne(v.k(0), v.k(1)), t.ne(v.k(0), v.k(2)), t.ne(v.k(1), v.k(2)))
        return [("duplicate keys refused", t.Implies(t.Not(dis), t.eq(o.ret, 4))), ("accepted", t.Implies(dis, t.And(t.eq(o.ret, 0), t.eq(o.o(0), 3))))] + [("pair %d" % i, t.Implies(t.And(dis, t.eq(v.q, i)), t.And(t.eq(o.o(1), v.k(i)), t.eq(o.o(2), v.x(i))))) for i in range(3)]
    es.append(Entry("listed", L3 + Q + O, lpost, gen=lambda r: {"k": [r.randrange(1, 5) for _ in range(3)], "x": [5, 6, 7], "q": r.randrange(3)}, inv=lambda ex, L: [], contracts=TEXT, ret="i32", about="construction from a list of pairs"))
    return es


ASSUMPTIONS = ["fewer than 2^40 entries; allocation succeeds", "keys are dimension labels and values int64: other key and value types use the same template", "text of messages is not specified"]
TRUSTED = ["a given collection consists of two well-formed std::vector objects (keys, values) of equal length and arbitrary capacities, keys distinct"]
EXPLANATION = "collections of any length; the content at an arbitrary position is the contract; a ghost input names where the key is"
