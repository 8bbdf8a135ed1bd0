"""C19: sparse sub-bin counts behave like zero-padded integer sequences."""
import term as t
import check
import prover as pv
from check import *
from text import TEXT

from symex import Ptr, Arr

Z = t.const(0)
LIM = 1 << 40


def A(v, p, x="a"):
    """the sequence represented by an operand at position p"""
    off, n = v[x + "o"], v[x + "n"]
    if check.CONCRETE[0]:
        k = t.cval(p) - t.cval(off)
        return v[x](k) if 0 <= k < v[x].n else t.const(0)
    return t.ite(t.And(t.ge(p, off), t.lt(p, off + n)), t.select(getattr(v, x + "_arr"), p - off), Z)


def Sm(a, k): return t.uf("SumI", (a, t.lift(k)), "I")


def make(ex, st, inst, a, dem):
    """a well-formed operand: its block is an allocated buffer of exactly the counts, begin <= end == end of storage"""
    r, off, x, n = a
    return put(ex, st, r, off, n, st.mem[x.obj].fields[0][1])


def put(ex, st, r, off, n, arr):
    buf = ex.new_obj(st, Arr(8, {0: (8, arr)}, n, "block"))
    for k, p in ((8, Ptr(buf, 0)), (16, Ptr(buf, t.mul(8, n))), (24, Ptr(buf, t.mul(8, n)))): ex.store(st, ("ptr",), p, Ptr(r.obj, t.lift(r.off) + k))
    ex.store(st, ("i", 64), off, r)
    return None


def block(ex, st, p):
    """(offset, length, counts) of a SubbinSizes in memory"""
    at = lambda k, ty: ex.load(st, ty, Ptr(p.obj, t.lift(p.off) + k))
    off, b, e = at(0, ("i", 64)), at(8, ("ptr",)), at(16, ("ptr",))
    if b.obj == 0: return off, Z, t.constarr(Z)
    o = st.mem[b.obj]
    assert t.cval(b.off) == 0 and e.obj == b.obj
    return off, t.fdiv(e.off, 8), o.fields[0][1]


def plus(ex, st, inst, a, dem):
    """contract of operator+ (verified by the entry add): a block reaching over both operands, holding the sum of the sequences"""
    (xo, xn, x), (yo, yn, y) = block(ex, st, a[1]), block(ex, st, a[2])
    lo, hi = t.Min(xo, yo), t.Max(xo + xn, yo + yn)
    k = t.fresh("k", "I")
    val = lambda o, n, arr: t.ite(t.And(t.ge(k + lo, o), t.lt(k + lo, o + n)), t.select(arr, k + lo - o), Z)
    return put(ex, st, a[0], lo, hi - lo, t.lam(k, val(xo, xn, x) + val(yo, yn, y)))


OPAQUE = r"^scipp::core::operator\+\("
PLUS = [(OPAQUE, plus)]
OPERANDS = [(r"^make\(", make)]


def entries(tier):
    es = []
    an, bn = (lambda v: v.an), (lambda v: v.bn)
    IN1 = [S("ao"), In("a", "i64", an), S("an")]
    IN2 = IN1 + [S("bo"), In("b", "i64", bn), S("bn")]
    OUT = [S("p"), Out("o", "i64", 3)]

    def pre(v):
        out = []
        for x in ("a", "b"):
            if x + "o" in v.d: out += [t.ge(v[x + "o"], 0), t.lt(v[x + "o"], LIM), t.ge(v[x + "n"], 0), t.lt(v[x + "n"], LIM), forall(Z, v[x + "n"], lambda i: t.And(t.gt(v[x](i), -(1 << 62)), t.lt(v[x](i), 1 << 62)))]
        return out + ([t.ge(v.p, 0), t.lt(v.p, 3 * LIM)] if "p" in v.d else [])

    def gen(r):
        out = {"p": r.randrange(0, 9), "value": r.randrange(-3, 9)}
        for x in "ab":
            m = r.randrange(0, 5)
            out[x + "o"], out[x + "n"], out[x] = r.randrange(0, 5), m, [r.randrange(-3, 9) for _ in range(m)]
        if r.random() < 0.2: out["bo"], out["bn"], out["b"] = out["ao"], out["an"], list(out["a"])
        return out

    def setup(ex, st, v): ex.argv, ex.scan = v, False

    def ssetup(ex, st, v): ex.argv, ex.scan = v, True

    def inv(ex, L):
        v = ex.argv
        p = v.p if "p" in v.d else Z
        two, scan = "bo" in v.d, ex.scan
        offs = [v.ao] + ([v.bo, t.Min(v.ao, v.bo)] if two else [])
        a, b = A(v, p), A(v, p, "b") if two else Z
        end = t.Max(v.ao + v.an, v.bo + v.bn) if two else v.ao + v.an
        seqs = [Z, a] + ([b, a + b, a - b] if two else [])
        pos = [c for _, _, c in L.positions()]
        zero = [c for _, i0, c in L.positions() if t.cval(i0) == 0]
        out = [t.eq(c, t.Max(i0, i)) for _, i0, c in L.positions() if t.cval(i0) != 0 for i in zero] if scan else []
        for i, ob in L.st.mem.items():
            if getattr(ob, "kind", "") != "arr" or i in ex.argobj.values() or 0 not in ob.fields or i not in L.st0.mem: continue
            h0, h = L.arr(i)
            if h0 is h: continue
            m = ob.n
            out += [t.le(c, m) for c in pos]
            fresh = h0.op == "var" or (h0.op == "store" and t.cval(h0.args[2]) == 0)
            if fresh: out += [forall(i0 - d, c, lambda k: t.eq(t.select(h, k), 0)) for _, i0, c in L.positions() for d in ((0, 1) if t.cval(i0) != 0 else (0,))]
            if scan:
                for c in zero:
                    out.append(forall(c, m, lambda k: t.eq(t.select(h, k), t.select(h0, k))))
                    out += [t.Implies(t.And(t.ge(p, v.bo), t.lt(p - v.bo, c)), t.eq(t.select(h, p - v.bo), X)) for X in (a, a + b)]
            if not scan:
                for off in offs:
                    cell, cell0 = t.select(h, p - off), t.select(h0, p - off)
                    there = t.And(t.ge(p, off), t.lt(p - off, m), t.lt(p, end))
                    X = next((X for X in seqs if pv.prove(L.base_pcs, t.Implies(there, t.eq(cell0, X)), 2.0)), None)
                    if X is None: continue
                    for c in pos:
                        for o2, Y in [(v.ao, a)] + ([(v.bo, b), (v.ao, b), (v.bo, t.neg(b))] if two else []): out.append(t.Implies(there, t.eq(cell, X + t.ite(t.lt(p - o2, c), Y, Z))))
        return out

    def res(v, o, val, off=None, n=None, name="o"):
        k = v.p
        g = [("value at every position", t.eq(o[name](2), val)), ("a valid block", t.And(t.ge(o[name](0), 0), t.ge(o[name](1), 0)))]
        if off is not None: g.append(("offset", t.eq(o[name](0), off)))
        if n is not None: g.append(("length", t.eq(o[name](1), n)))
        return g

    def inA(v): return t.And(t.ge(v.p, v.ao), t.lt(v.p, v.ao + v.an))
    def inB(v): return t.And(t.ge(v.p, v.bo), t.lt(v.p, v.bo + v.bn))
    kw = dict(contracts=OPERANDS, pre=pre, gen=gen, inv=inv, setup=setup)
    lo, hi = lambda v: t.Min(v.ao, v.bo), lambda v: t.Max(v.ao + v.an, v.bo + v.bn)
    total = lambda v, o: res(v, o, A(v, v.p) + A(v, v.p, "b"), lo(v), hi(v) - lo(v))
    minus = lambda v, o: res(v, o, A(v, v.p) - A(v, v.p, "b"))
    kwp = dict(kw, contracts=OPERANDS + PLUS)
    kws = dict(kwp, setup=ssetup)
    es.append(Entry("add", IN2 + OUT, total, about="operator+", **kw))
    es.append(Entry("sub", IN2 + OUT, minus, about="operator-", **kw))
    es.append(Entry("iadd", IN2 + OUT, total, about="operator+=", **kwp))
    es.append(Entry("isub", IN2 + OUT, minus, about="operator-=", **kw))
    es.append(Entry("isect", IN2 + OUT, lambda v, o: res(v, o, t.ite(inA(v), A(v, v.p) + A(v, v.p, "b"), Z), v.ao, v.an), about="add_intersection", **kw))
    es.append(Entry("scan", IN2 + OUT + [Out("o2", "i64", 3)], lambda v, o: [("accumulant: " + m, g) for m, g in res(v, o, t.ite(inB(v), A(v, v.p) + A(v, v.p, "b"), Z), v.bo, v.bn)] + [("previous sum: " + m, g) for m, g in res(v, o, t.ite(inB(v), A(v, v.p), Z), v.bo, v.bn, "o2")], about="exclusive_scan", **kws))

    # totals and running sums
    def sums(v, x="a"): return [t.eq(Sm(getattr(v, x + "_arr"), 0), 0), forall(Z, v[x + "n"], lambda k: t.eq(Sm(getattr(v, x + "_arr"), k + 1), Sm(getattr(v, x + "_arr"), k) + v[x](k)))]

    def S_(v, k):
        if check.CONCRETE[0]: return t.const(sum(t.cval(v.a(i)) for i in range(t.cval(k))))
        return Sm(v.a_arr, k)

    def sumsetup(ex, st, v):
        ex.argv = v
        st.pcs += sums(v)

    def suminv(ex, L):
        v = ex.argv
        pos = [c for _, _, c in L.positions()]
        vals = [c for _, _, c, *_ in L.ints]
        out = [t.eq(x, Sm(v.a_arr, c)) for x in vals for c in pos if x is not c]
        for i, ob in L.st.mem.items():
            if getattr(ob, "kind", "") == "cells": out += [t.eq(x[1], Sm(v.a_arr, c)) for x in ob.cells.values() for c in pos if isinstance(x[1], t.T) and x[1].sort == "I" and x[1] is not c]
            if getattr(ob, "kind", "") != "arr" or i in ex.argobj.values() or 0 not in ob.fields or i not in L.st0.mem: continue
            h0, h = L.arr(i)
            if h0 is h: continue
            for c in pos:
                out.append(forall(c, v.an, lambda k: t.eq(t.select(h, k), v.a(k))))
                if "p" in v.d: out += [t.Implies(t.And(t.ge(v.p, v.ao), t.lt(v.p - v.ao, c)), t.eq(t.select(h, v.p - v.ao), X)) for X in [Sm(v.a_arr, v.p - v.ao)] + ([v.value] if "value" in v.d else [])]
        return out
    kwsum = dict(kw, setup=sumsetup, inv=suminv)
    es.append(Entry("total", IN1, lambda v, o: [("sum of all counts", t.eq(o.ret, S_(v, v.an)))], ret="i64", about="sum", **kwsum))
    def running(v): return S_(v, v.p - v.ao) if not check.CONCRETE[0] or t.cval(v.ao) <= t.cval(v.p) < t.cval(v.ao + v.an) else Z
    es.append(Entry("cumsum", IN1 + OUT, lambda v, o: res(v, o, t.ite(inA(v), running(v), Z), v.ao, v.an), about="cumsum_exclusive", **kwsum))
    es.append(Entry("assign", IN1 + [S("value")] + OUT, lambda v, o: res(v, o, t.ite(inA(v), v.value, Z), v.ao, v.an), about="operator=(value)", **kwsum))
    # construction
    def nopre(v): return [p for p in pre(v) if p not in (t.ge(v.ao, 0), t.lt(v.ao, LIM))] + [t.gt(v.ao, -LIM), t.lt(v.ao, LIM)] + ([t.ge(v.ao, 0)] if check.CONCRETE[0] else [])
    es.append(Entry("block", IN1 + OUT, lambda v, o: res(v, o, A(v, v.p), v.ao, v.an), throws=lambda v, o: [("only a negative offset is refused", t.lt(v.ao, 0))], about="constructor", **dict(kw, pre=nopre, contracts=TEXT)))
    es.append(Entry("none", OUT, lambda v, o: res(v, o, Z, Z, Z), about="default constructor", gen=gen))
    def samepost(v, o):
        if check.CONCRETE[0]:
            same = t.cval(v.ao) == t.cval(v.bo) and v.a.n == v.b.n and all(t.cval(v.a(i)) == t.cval(v.b(i)) for i in range(v.a.n))
            return [("equal iff the blocks are", t.iff(o.ret, t.lift(same)))]
        return [("equal iff the blocks are", t.iff(o.ret, t.And(t.eq(v.ao, v.bo), t.eq(v.an, v.bn), forall(Z, v.an, lambda k: t.eq(v.a(k), v.b(k))))))]
    def sameinv(ex, L):
        v = ex.argv
        return [forall(Z, c, lambda k: t.eq(v.a(k), v.b(k))) for _, _, c in L.positions()]
    es.append(Entry("equal", IN2, samepost, ret="bool", about="operator==", **dict(kw, inv=sameinv)))
    return es


ASSUMPTIONS = ["counts between -2^62 and 2^62 and no overflow of their sums", "the operands of a binary operation are different objects"]
TRUSTED = ["operands are well-formed std::vector objects whose storage is exactly their elements; the constructor is verified separately (entry block)"]
EXPLANATION = "sums, differences, in-place forms, intersection, exclusive scan step, total, running sum, assignment, construction and comparison, for blocks of any offset and length; the value at an arbitrary position is the contract"
