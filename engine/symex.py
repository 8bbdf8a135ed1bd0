"""Symbolic executor and verification-condition generator for LLVM IR.

Every function under contract is executed symbolically for all inputs satisfying its precondition.
Loops of constant trip count (rank <= NDIM_MAX) are unrolled completely; all other loops are cut at
their header with inductive invariants (Houdini over auto-generated and contract-supplied candidates).
Calls are replaced by contracts where one is registered, otherwise executed.
"""
import re, time, sys
from fractions import Fraction
import term as t
from term import T, TRUE, FALSE
import prover as pv
from ir import Module, Fn

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class NeedCut(Exception):
    def __init__(self, key): self.key = key


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, t.lift(off)

    def __repr__(self): return "Ptr(%s,%s)" % (self.obj, self.off)


NULL = Ptr(0, 0)


class PInt:
    """pointer cast to integer (+ const)"""
    __slots__ = ("p",)

    def __init__(self, p): self.p = p


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, n): self.name = n


class Undef:
    def __repr__(self): return "undef"


UNDEF = Undef()


class Cat:
    """bytes of several adjacent cells, moved as one wide value: list of (size, value)"""
    __slots__ = ("parts",)

    def __init__(self, parts): self.parts = parts


class Choice:
    """fork: list of (cond, value or callable(state)->value)"""
    __slots__ = ("alts",)

    def __init__(self, alts): self.alts = alts


class Throw:
    __slots__ = ("ti", "ptr")

    def __init__(self, ti, ptr=None): self.ti, self.ptr = ti, ptr


class Cells:
    kind = "cells"
    __slots__ = ("size", "cells", "zr", "owner", "name", "readonly", "stack")

    def __init__(self, size, name="", zero=False):
        self.size, self.cells, self.zr, self.owner, self.name = size, {}, [], None, name
        self.readonly = False
        self.stack = False
        if zero: self.zr.append((0, size))

    def copy(self, owner):
        o = Cells(self.size, self.name)
        o.cells = dict(self.cells); o.zr = list(self.zr); o.owner = owner; o.readonly = self.readonly; o.stack = self.stack
        return o


class Arr:
    kind = "arr"
    __slots__ = ("stride", "fields", "n", "name", "owner", "readonly")

    def __init__(self, stride, fields, n, name=""):
        # fields: {off: (size, arrterm)}
        self.stride, self.fields, self.n, self.name, self.owner, self.readonly = stride, fields, n, name, None, False

    def copy(self, owner):
        o = Arr(self.stride, dict(self.fields), self.n, self.name)
        o.owner = owner; o.readonly = self.readonly
        return o


class LazyBuf:
    """heap block of symbolic byte size whose element type is not known yet"""
    kind = "lazy"
    __slots__ = ("nbytes", "name", "owner", "readonly")

    def __init__(self, nbytes, name): self.nbytes, self.name, self.owner, self.readonly = nbytes, name, None, False

    def copy(self, owner): return self


class Frame:
    __slots__ = ("fn", "block", "idx", "prev", "env", "ret_inst", "visits", "allocas")

    def copy(self):
        f = Frame()
        f.fn, f.block, f.idx, f.prev, f.ret_inst = self.fn, self.block, self.idx, self.prev, self.ret_inst
        f.env = dict(self.env); f.visits = dict(self.visits); f.allocas = self.allocas
        return f


def canon(x):
    """text of a term up to the numbering of generated names"""
    return re.sub(r"!\d+|\?k\d+", "!", t.show(x))


class State:
    __slots__ = ("frames", "mem", "pcs", "exc", "ghost", "uid", "trace")
    _n = 0

    def __init__(self):
        self.frames, self.mem, self.pcs, self.exc, self.ghost = [], {}, [], [], {}
        State._n += 1
        self.uid = State._n
        self.trace = []

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.pcs = list(self.pcs); s.exc = list(self.exc); s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        self.uid = State._n = State._n + 1  # invalidate ownership in the original as well
        return s

    @property
    def top(self): return self.frames[-1]


class Outcome:
    def __init__(self, kind, val, st, ti=None):
        self.kind, self.val, self.st, self.ti = kind, val, st, ti


def locs(x):
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == "loc" and isinstance(x[1], str): return [x[1]]
        r = []
        for y in x: r.extend(locs(y))
        return r
    if isinstance(x, dict): return [z for y in x.values() for z in locs(y)]
    return []


class Ob:
    __slots__ = ("name", "kind", "status", "backend", "time", "goal", "model", "reason", "hyps", "st")

    def __init__(self, **k):
        for a in self.__slots__: setattr(self, a, k.get(a))


class LoopCtx:
    def __init__(self, depth, fn, header, body):
        self.depth, self.fn, self.header, self.body = depth, fn, header, body
        self.backs, self.exits, self.outs = [], [], []
        self.writes = set()
        self.preobjs = None


STD_BASES = {"_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
             "_ZTISt12out_of_range": ["_ZTISt11logic_error"], "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
             "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt12domain_error": ["_ZTISt11logic_error"],
             "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
             "_ZTISt11range_error": ["_ZTISt13runtime_error"]}


class Exec:
    def __init__(self, mod, contracts=(), fp="real", check_nsw=False, max_unroll=9, inv=None, cut=(), timeout=10.0,
                 feas_timeout=2.0, cell_ite=False, max_paths=200000, deadline=None, check_bounds=True, inv_timeout=4.0, trunc_exact=True,
                 wrap_exact=False, verbose=False, tactic=None, alloc_hints=None, lazy_stride=None, round_ints=False, track_nan=None, div_hint=None, havoc_fptosi=False, inv_tactic=None):
        self.m = mod
        self.round_ints = round_ints
        self.inv_tactic = inv_tactic
        self.div_hint = div_hint  # callable(ex, st, a, b) -> (quotient, remainder) to be verified, or None
        self.track_nan = track_nan
        self.havoc_fptosi = havoc_fptosi  # a float to integer conversion yields *some* integer (sound: nothing is known about it)
        self.ty = mod.types
        self.contracts = [(re.compile(r), h) for r, h in contracts]
        self.fp = fp
        self.check_nsw = check_nsw
        self.max_unroll = max_unroll
        self.inv = inv  # callable(ex, L) -> list of candidate terms
        self.cut = set(cut)
        self.timeout = timeout
        self.inv_timeout = inv_timeout
        self.feas = pv.Feas(feas_timeout)
        self.obs = []
        self.recording = True
        self.exploring = False
        self.failed_cands = {}
        self.nextobj = 1
        self.globobj = {}
        self.objname = {}
        self.cell_ite = cell_ite
        self.paths = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.check_bounds = check_bounds
        self.trunc_exact = trunc_exact
        self.wrap_exact = wrap_exact
        self.called = set()
        self.used_contracts = set()
        self.invariants = []
        self.ctxstack = []
        self.verbose = verbose
        self.tactic = tactic
        self.assumed = set()
        self.lazy_stride = lazy_stride
        self._hcache = {}
        self.loops_cut = 0

    # ------------------------------------------------------------------ objects


    def new_obj(self, st, obj):
        i = self.nextobj
        self.nextobj += 1
        st.mem[i] = obj
        self.objname[i] = obj.name
        return i

    def wr(self, st, i):
        o = st.mem[i]
        if o.owner != st.uid:
            o = o.copy(st.uid)
            o.owner = st.uid
            st.mem[i] = o
        return o

    def note_write(self, st, i, what):
        for c in self.ctxstack:
            if i in c.preobjs: c.writes.add((i,) + what)

    def global_ptr(self, st, name):
        name = self.m.aliases[name][1] if name in self.m.aliases and self.m.aliases[name][0] == "glob" else name
        if name in self.m.fns or name in self.m.decls: return FnPtr(name)
        if name not in self.m.globals: raise Unsupported("global " + name)
        k = self.globobj.get(name)
        if k is None:
            k = self.nextobj
            self.nextobj += 1
            self.globobj[name] = k
            self.objname[k] = name
        if k not in st.mem:
            ty, val, isconst = self.m.globals[name]
            try:
                sz = self.ty.size(ty)
            except Exception:
                sz = 8
            o = Cells(sz, name)
            if val is not None: self.init_const(st, o, 0, ty, val)
            o.readonly = isconst
            st.mem[k] = o
        return Ptr(k, 0)

    def init_const(self, st, o, off, ty, val):
        r = self.ty.res(ty)
        k = val[0]
        if k == "zero":
            o.zr.append((off, off + self.ty.size(ty)))
        elif k == "undef":
            pass
        elif k == "agg":
            if r[0] == "struct":
                for i, (et, ev) in enumerate(val[1]):
                    oo, _ = self.ty.offset(r, i)
                    self.init_const(st, o, off + oo, et, ev)
            else:
                s = self.ty.size(r[2])
                for i, (et, ev) in enumerate(val[1]): self.init_const(st, o, off + i * s, et, ev)
        elif k == "str":
            for i, b in enumerate(val[1]):
                o.cells[off + i] = (1, t.const(b - 256 if b > 127 else b))
        else:
            try:
                o.cells[off] = (self.ty.size(ty), self.constval(st, ty, val))
            except Unsupported:
                pass

    # ------------------------------------------------------------------ values
    def constval(self, st, ty, v):
        k = v[0]
        if k == "int":
            if ty == ("i", 1): return t.lift(bool(v[1]))
            return t.const(v[1])
        if k == "fp": return self.fpconst(ty, v)
        if k == "null": return NULL
        if k == "glob": return self.global_ptr(st, v[1])
        if k == "undef":
            r = self.ty.res(ty)
            if r[0] in ("struct", "arr", "vec"): return self.undef_agg(r)
            return UNDEF
        if k == "zero":
            return self.zero(ty)
        if k == "agg":
            return tuple(self.constval(st, et, ev) for et, ev in v[1])
        if k == "cgep":
            ops = [(a, self.constval(st, a, b)) for a, b in v[2]]
            return self.gep(v[1], ops)
        if k == "ccast":
            x = self.constval(st, v[2], v[3])
            if v[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.cast(v[1], v[2], v[4], x)
            return self.cast(v[1], v[2], v[4], x)
        if k == "fp80": return UNDEF
        raise Unsupported("const %s" % (v,))

    def undef_agg(self, r):
        r = self.ty.res(r)
        if r[0] == "struct": return tuple(self.undef_agg(x) for x in r[1])
        if r[0] in ("arr", "vec"): return tuple(self.undef_agg(r[2]) for _ in range(r[1]))
        return UNDEF

    def zero(self, ty):
        r = self.ty.res(ty)
        if r[0] == "i": return FALSE if r[1] == 1 else t.const(0)
        if r[0] == "ptr": return NULL
        if r[0] in ("double", "float"): return self.fpconst(r, ("fp", 0.0, 0))
        if r[0] == "struct": return tuple(self.zero(x) for x in r[1])
        if r[0] in ("arr", "vec"): return tuple(self.zero(r[2]) for _ in range(r[1]))
        raise Unsupported("zero %s" % (ty,))

    def fpconst(self, ty, v):
        if self.fp == "real":
            x = v[1]
            if x != x or x in (float("inf"), float("-inf")):
                return t.var("const_nan" if x != x else "const_inf" if x > 0 else "const_ninf", "R")
            return t.const(Fraction(x), "R")
        import struct
        if ty[0] == "double": return t.mk("fpconst", (v[2], "F64"), "F64")
        b = struct.unpack("<I", struct.pack("<f", v[1]))[0]
        return t.mk("fpconst", (b, "F32"), "F32")

    def val(self, st, ty, v):
        if v[0] == "loc":
            try:
                return st.frames[-1].env[v[1]]
            except KeyError:
                raise Unsupported("undefined register %s" % v[1])
        return self.constval(st, ty, v)

    def fsort(self, ty):
        r = self.ty.res(ty)
        if self.fp == "real": return "R"
        return "F64" if r[0] == "double" else "F32"

    def sort_of(self, ty):
        r = self.ty.res(ty)
        if r[0] == "i": return "B" if r[1] == 1 else "I"
        if r[0] in ("double", "float"): return self.fsort(r)
        return None

    def fresh_of(self, ty, name="u"):
        r = self.ty.res(ty)
        s = self.sort_of(ty)
        if s: return t.fresh(name, s)
        if r[0] == "ptr": return UNDEF
        if r[0] == "struct": return tuple(self.fresh_of(x, name) for x in r[1])
        if r[0] in ("arr", "vec"): return tuple(self.fresh_of(r[2], name) for _ in range(r[1]))
        raise Unsupported("fresh %s" % (ty,))

    # ------------------------------------------------------------------ memory
    def gep(self, sty, ops):
        base = ops[0][1]
        if isinstance(base, FnPtr): raise Unsupported("gep fn")
        if base is UNDEF: return UNDEF
        if not isinstance(base, Ptr): raise Unsupported("gep base %r" % (base,))
        off = base.off
        cur = sty
        for i, (ty, ix) in enumerate(ops[1:]):
            if ix is UNDEF: raise Unsupported("gep undef idx")
            if isinstance(ix, Ptr) or isinstance(ix, PInt): raise Unsupported("gep ptr idx")
            if i == 0:
                off = t.add(off, t.mul(ix, self.ty.size(cur)))
            else:
                r = self.ty.res(cur)
                if r[0] == "struct":
                    o, cur = self.ty.offset(r, t.cval(ix))
                    off = t.add(off, o)
                else:
                    off = t.add(off, t.mul(ix, self.ty.size(r[2])))
                    cur = r[2]
        return Ptr(base.obj, off)

    def candidates(self, st, off, limit, sz):
        """possible concrete values of a symbolic offset into a fixed-size object"""
        d = t.pd(off)
        g = 0
        from math import gcd
        for m, c in d.items():
            if m: g = gcd(g, abs(int(c)))
        k = int(d.get((), 0))
        r = k % g
        cands = []
        for c in range(r, max(limit - sz + 1, 0), g):
            cands.append(c)
        out = []
        # use models to find quickly
        rest = list(cands)
        if not self.feas.check(st.pcs): return []
        for c in rest:
            e = t.eq(off, c)
            if e is FALSE: continue
            if self.feas.check(st.pcs + [e]): out.append((e, c))
            if out and len(out) == 1:
                # is it the only one?
                if not self.feas.check(st.pcs + [t.Not(e)]):
                    return [(TRUE, c)]
        return out

    def load_cell(self, st, o, off, ty):
        sz = self.ty.size(ty)
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return self.coerce(c[1], ty, o, off)
        # find overlapping cells
        ov = [(k, v) for k, v in o.cells.items() if k < off + sz and k + v[0] > off]
        if not ov:
            for a, b in reversed(o.zr):
                if a <= off and off + sz <= b: return self.zero(ty)
            # zero range split over several memsets
            if any(a <= off < b for a, b in o.zr) and all(any(a <= x < b for a, b in o.zr) for x in range(off, off + sz)): return self.zero(ty)
            v = self.fresh_of(ty, "uninit_%s_%d" % (o.name, off))
            return v
        ov.sort(key=lambda kv: kv[0])
        # exact tiling by smaller cells (maybe with zero gaps)
        if all(k >= off and k + v[0] <= off + sz for k, v in ov):
            parts = []
            p = off
            for k, v in ov:
                if k > p:
                    if all(any(a <= x < b for a, b in o.zr) for x in range(p, k)): parts.append((k - p, t.const(0)))
                    else: parts.append((k - p, UNDEF))
                parts.append((v[0], v[1])); p = k + v[0]
            if p < off + sz:
                if all(any(a <= x < b for a, b in o.zr) for x in range(p, off + sz)): parts.append((off + sz - p, t.const(0)))
                else: parts.append((off + sz - p, UNDEF))
            r = self.ty.res(ty)
            if r[0] == "i" and all(isinstance(v, T) and v.sort == "I" for _, v in parts):
                acc = t.const(0); sh = 0
                for i, (s, v) in enumerate(parts):
                    last = i == len(parts) - 1
                    u = v if last else self.tounsigned(v, 8 * s)
                    acc = t.add(acc, t.mul(u, 1 << sh)); sh += 8 * s
                return acc
            return Cat(parts)
        # sub-part of a wider cell
        if len(ov) == 1:
            k, (s, v) = ov[0]
            if k <= off and off + sz <= k + s:
                if isinstance(v, Cat):
                    p = k
                    for ps, pval in v.parts:
                        if p == off and ps == sz: return self.coerce(pval, ty, o, off)
                        p += ps
                if isinstance(v, T) and v.sort == "I":
                    x = t.fdiv(v, 1 << (8 * (off - k)))
                    return self.wrap(x, 8 * sz)
                if v is UNDEF: return self.fresh_of(ty, "undefpart")
        raise Unsupported("mixed-size load at %s+%d (%d bytes) %s" % (o.name, off, sz, ov))

    def coerce(self, v, ty, o=None, off=0):
        r = self.ty.res(ty)
        if v is UNDEF and r[0] != "ptr": return self.fresh_of(ty, "undef")
        if r == ("i", 8) and isinstance(v, T) and v.sort == "B": return t.ite(v, 1, 0)
        if isinstance(v, T) and v.sort == "I" and r[0] == "ptr":
            if t.cval(v) == 0: return NULL
        if r[0] in ("double", "float") and isinstance(v, T) and v.sort == "I" and t.cval(v) == 0: return self.zero(ty)
        if r[0] == "i" and isinstance(v, Ptr): return PInt(v)
        if r[0] == "ptr" and isinstance(v, PInt): return v.p
        if r[0] == "vec" and isinstance(v, Cat): return tuple(x for _, x in v.parts)
        return v

    def tounsigned(self, v, bits):
        c = t.cval(v)
        if c is not None: return t.const(c % (1 << bits))
        return t.ite(t.lt(v, 0), t.add(v, 1 << bits), v)

    def bounds_ob(self, st, o, off, sz, what):
        if not self.check_bounds: return
        if o.kind == "cells":
            goal = t.And(t.ge(off, 0), t.le(t.add(off, sz), o.size))
        elif o.kind == "arr":
            if o.n is None: return
            goal = t.And(t.ge(off, 0), t.le(t.add(off, sz), t.mul(o.n, o.stride)))
        else: return
        if goal is TRUE: return
        self.oblige("in-bounds %s of %s" % (what, o.name), "bounds", st, goal)

    def materialise(self, st, i, sz, ty):
        """LazyBuf -> Arr on first typed access"""
        o = st.mem[i]
        s = self.sort_of(ty)
        stride = sz
        if self.lazy_stride: stride = self.lazy_stride(o.name, sz) or sz
        n = t.cval(o.nbytes)
        if n is not None and n <= 4096:
            c = Cells(n, o.name)
            st.mem[i] = c
            return c
        a = Arr(stride, {}, t.fdiv(o.nbytes, stride), o.name)
        st.mem[i] = a
        return a

    def arr_field(self, st, i, o, off, sz, ty, create=True):
        """split byte offset into (index, field offset)"""
        d = t.pd(off)
        S = o.stride
        k = int(d.get((), 0))
        f = k % S
        idx = {}
        for m, c in d.items():
            if m == (): continue
            if c % S: raise Unsupported("unaligned symbolic access %s off %s stride %d" % (o.name, off, S))
            idx[m] = c // S
        idx[()] = (k - f) // S
        ix = t.from_pd(idx, "I")
        if f not in o.fields:
            s = self.sort_of(ty)
            if s is None: raise Unsupported("array of %s in %s" % (ty, o.name))
            if s == "B": s = "I"
            o = self.wr(st, i)
            o.fields[f] = (sz, t.var("heap_%s_%d_%d" % (o.name, i, f), "A" + s))
        if o.fields[f][0] != sz:
            raise Unsupported("field size mismatch %s+%d: %d vs %d" % (o.name, f, o.fields[f][0], sz))
        return ix, f

    def load(self, st, ty, p):
        if not isinstance(p, Ptr): raise Unsupported("load through %r" % (p,))
        if p.obj == 0:
            self.oblige("null dereference", "bounds", st, FALSE)
            return self.fresh_of(ty)
        if p.obj not in st.mem: raise Unsupported("dangling object %d" % p.obj)
        o = st.mem[p.obj]
        sz = self.ty.size(ty)
        r = self.ty.res(ty)
        if r[0] == "struct" or r[0] == "arr" or r[0] == "vec":
            outs = []
            if r[0] == "struct":
                fl = [self.ty.offset(r, i) for i in range(len(r[1]))]
            else:
                fl = [(i * self.ty.size(r[2]), r[2]) for i in range(r[1])]
            for oo, et in fl:
                x = self.load(st, et, Ptr(p.obj, t.add(p.off, oo)))
                if isinstance(x, Choice): raise Unsupported("choice in aggregate load")
                outs.append(x)
            return tuple(outs)
        if o.kind == "lazy": o = self.materialise(st, p.obj, sz, ty)
        self.bounds_ob(st, o, p.off, sz, "read")
        if o.kind == "cells":
            c = t.cval(p.off)
            if c is not None: return self.load_cell(st, o, c, ty)
            cs = self.candidates(st, p.off, o.size, sz)
            if not cs: return Choice([])
            if len(cs) == 1: return self.load_cell(st, o, cs[0][1], ty)
            vals = [(e, self.load_cell(st, o, c, ty)) for e, c in cs]
            if self.cell_ite and all(isinstance(v, T) for _, v in vals):
                acc = vals[-1][1]
                for e, v in reversed(vals[:-1]): acc = t.ite(e, v, acc)
                return acc
            return Choice(vals)
        if r[0] == "ptr" : raise Unsupported("pointer load from array " + o.name)
        ix, f = self.arr_field(st, p.obj, o, p.off, sz, ty)
        v = t.select(st.mem[p.obj].fields[f][1], ix)
        if r == ("i", 1): return t.ne(v, 0)
        return v

    def store(self, st, ty, v, p):
        if not isinstance(p, Ptr): raise Unsupported("store through %r" % (p,))
        if p.obj == 0:
            self.oblige("null dereference", "bounds", st, FALSE)
            return
        if p.obj not in st.mem: raise Unsupported("dangling object %d" % p.obj)
        o = st.mem[p.obj]
        sz = self.ty.size(ty)
        r = self.ty.res(ty)
        if isinstance(v, tuple):
            if r[0] == "struct":
                fl = [self.ty.offset(r, i) for i in range(len(r[1]))]
            else:
                fl = [(i * self.ty.size(r[2]), r[2]) for i in range(r[1])]
            for (oo, et), x in zip(fl, v):
                c = self.store(st, et, x, Ptr(p.obj, t.add(p.off, oo)))
                if c is not None: raise Unsupported("choice in aggregate store")
            return
        if o.readonly: self.oblige("write to read-only %s" % o.name, "frame", st, FALSE)
        if o.kind == "lazy": o = self.materialise(st, p.obj, sz, ty)
        self.bounds_ob(st, o, p.off, sz, "write")
        if o.kind == "cells":
            c = t.cval(p.off)
            if c is not None:
                self.store_cell(st, p.obj, c, sz, v)
                return
            cs = self.candidates(st, p.off, o.size, sz)
            if len(cs) == 1:
                self.store_cell(st, p.obj, cs[0][1], sz, v)
                return
            def mkfn(c):
                def f(s): self.store_cell(s, p.obj, c, sz, v)
                return f
            return Choice([(e, mkfn(c)) for e, c in cs])
        if isinstance(v, (Ptr, FnPtr)): raise Unsupported("pointer store to array")
        if isinstance(v, T) and v.sort == "B": v = t.ite(v, 1, 0)
        if v is UNDEF: v = self.fresh_of(ty)
        ix, f = self.arr_field(st, p.obj, o, p.off, sz, ty)
        o = self.wr(st, p.obj)
        fs, a = o.fields[f]
        o.fields[f] = (fs, t.store(a, ix, v))
        self.note_write(st, p.obj, ("arr", f))

    def store_cell(self, st, i, off, sz, v):
        o = self.wr(st, i)
        for k in [k for k, c in o.cells.items() if k < off + sz and k + c[0] > off]:
            if k == off and o.cells[k][0] == sz: continue
            s, old = o.cells[k]
            del o.cells[k]
            # keep the non-overwritten parts of a wider cell
            if isinstance(old, Cat):
                p = k
                for ps, pval in old.parts:
                    if p + ps <= off or p >= off + sz: o.cells[p] = (ps, pval)
                    p += ps
            elif isinstance(old, T) and old.sort == "I" and t.cval(old) is not None:
                for b in range(s):
                    if not (off <= k + b < off + sz):
                        o.cells[k + b] = (1, self.wrap(t.fdiv(old, 1 << (8 * b)), 8))
        if isinstance(v, Cat):
            p = off
            for ps, pval in v.parts:
                o.cells[p] = (ps, pval); p += ps
            o.cells.pop(off, None) if False else None
        else:
            o.cells[off] = (sz, v)
        self.note_write(st, i, ("cell", off, sz))

    def memcmp(self, st, x, y, n):
        """zero iff the elements of the two blocks of integers agree; the sign of a difference is unspecified"""
        nn = t.cval(n)
        if nn == 0: return t.const(0)
        xo, yo = st.mem.get(x.obj), st.mem.get(y.obj)
        if xo is None or yo is None or xo.kind != "arr" or yo.kind != "arr" or xo.stride != yo.stride or set(xo.fields) != {0} or set(yo.fields) != {0} or xo.fields[0][1].sort != "AI" or yo.fields[0][1].sort != "AI" or xo.fields[0][0] != xo.stride:
            raise Unsupported("memcmp of %s and %s" % (xo and xo.kind, yo and yo.kind))
        s = xo.stride
        if any(c % s for q in (x.off, y.off, n) for c in t.pd(t.lift(q)).values()): raise Unsupported("memcmp of parts of elements")
        self.bounds_ob(st, xo, x.off, n, "read")
        self.bounds_ob(st, yo, y.off, n, "read")
        el = lambda q: t.from_pd({m: c // s for m, c in t.pd(t.lift(q)).items()}, "I")
        xi, yi, cnt = el(x.off), el(y.off), el(n)
        same = t.Forall(lambda k: t.Implies(t.And(t.ge(k, 0), t.lt(k, cnt)), t.eq(t.select(xo.fields[0][1], xi + k), t.select(yo.fields[0][1], yi + k))))
        r = t.fresh("cmp", "I")
        return Choice([(t.And(t.eq(r, 0), same), r), (t.And(t.ne(r, 0), t.Not(same)), r)])

    def memcpy(self, st, dst, src, n, move=False):
        nn = t.cval(n)
        if nn == 0: return
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr): raise Unsupported("memcpy %r %r" % (dst, src))
        so = st.mem.get(src.obj); do = st.mem.get(dst.obj)
        if so is None or do is None:
            if nn is None:
                # zero bytes with null pointers
                return Choice([(t.eq(n, 0), None)] + ([(t.ne(n, 0), self._ub)] if self.feas.check(st.pcs + [t.ne(n, 0)]) else []))
            return self._ub(st)
        if nn is None and (so.kind == "cells" or do.kind == "cells"):
            lim = so.size if so.kind == "cells" else do.size
            cs = self.candidates(st, n, lim + 1, 1)
            if not cs: return Choice([])
            return Choice([(e, (lambda c: lambda s: self.memcpy(s, dst, src, t.const(c)))(c)) for e, c in cs])
        if so.kind == "lazy" and do.kind == "arr":
            so = self.materialise(st, src.obj, do.stride, None)
        if do.kind == "lazy":
            if so.kind == "arr":
                do = Arr(so.stride, {}, t.fdiv(do.nbytes, so.stride), do.name)
                st.mem[dst.obj] = do
            elif so.kind == "lazy": raise Unsupported("memcpy lazy lazy")
            else:
                k = t.cval(do.nbytes)
                if k is None and nn not in (1, 2, 4, 8): raise Unsupported("memcpy to lazy of symbolic size")
                do = self.materialise(st, dst.obj, nn, ("i", 8 * nn)) if k is None else Cells(k, do.name)
                st.mem[dst.obj] = do
        if do.readonly: self.oblige("write to read-only %s" % do.name, "frame", st, FALSE)
        self.bounds_ob(st, so, src.off, n, "read")
        self.bounds_ob(st, do, dst.off, n, "write")
        if so.kind == "cells" and do.kind == "cells":
            a = t.cval(src.off); b = t.cval(dst.off)
            if a is None:
                cs = self.candidates(st, src.off, so.size, nn)
                return Choice([(e, (lambda c: lambda s: self.memcpy(s, dst, Ptr(src.obj, c), n))(c)) for e, c in cs])
            if b is None:
                cs = self.candidates(st, dst.off, do.size, nn)
                return Choice([(e, (lambda c: lambda s: self.memcpy(s, Ptr(dst.obj, c), src, n))(c)) for e, c in cs])
            items = []
            for k, (s, v) in so.cells.items():
                if k >= a and k + s <= a + nn: items.append((k, s, v))
                elif k < a + nn and k + s > a:
                    # partial
                    raise Unsupported("memcpy splits cell %s+%d" % (so.name, k))
            zr = [(max(x, a), min(y, a + nn)) for x, y in so.zr if max(x, a) < min(y, a + nn)]
            o = self.wr(st, dst.obj)
            for k in [k for k, c in o.cells.items() if k < b + nn and k + c[0] > b]:
                if k < b or k + o.cells[k][0] > b + nn:
                    if not isinstance(o.cells[k][1], (T,)) : raise Unsupported("memcpy partial overwrite")
                del o.cells[k]
            o.zr = self.zr_cut(o.zr, b, b + nn) + [(x - a + b, y - a + b) for x, y in zr]
            for k, s, v in items: o.cells[k - a + b] = (s, v)
            # uninitialised source bytes stay uninitialised
            for k, s, v in items: self.note_write(st, dst.obj, ("cell", k - a + b, s))
            for x, y in zr: self.note_write(st, dst.obj, ("cell", x - a + b, y - x))
            return
        if so.kind == "arr" and do.kind == "arr":
            if so.stride != do.stride: raise Unsupported("memcpy stride")
            S = so.stride
            i0, f0 = self.split(src.off, S); j0, f1 = self.split(dst.off, S); cnt, f2 = self.split(n, S)
            if f0 or f1 or f2: raise Unsupported("memcpy unaligned")
            o = self.wr(st, dst.obj)
            for f, (s, a) in so.fields.items():
                old = o.fields.get(f)
                if old is None: old = (s, t.var("heap_%s_%d_%d" % (o.name, dst.obj, f), a.sort))
                na = t.fresh("cpy", a.sort)
                ax = t.Forall(lambda k: t.eq(t.select(na, k), t.ite(t.And(t.le(j0, k), t.lt(k, t.add(j0, cnt))), t.select(a, t.add(t.sub(k, j0), i0)), t.select(old[1], k))))
                st.pcs.append(ax)
                o.fields[f] = (s, na)
                self.note_write(st, dst.obj, ("arr", f))
            return
        # mixed cells/arr with constant length: element-wise
        if nn is not None and nn <= 256:
            if so.kind == "arr":
                S = so.stride
                k = 0
                while k < nn:
                    f = (t.cval(t.sub(src.off, t.mul(t.fdiv(src.off, S), S))) or 0) if False else None
                    ix, ff = self.split(t.add(src.off, k), S)
                    if ff not in so.fields: raise Unsupported("memcpy from untyped array field %s+%d" % (so.name, ff))
                    s, a = so.fields[ff]
                    b = t.cval(dst.off)
                    if b is None: raise Unsupported("memcpy symbolic dst")
                    self.store_cell(st, dst.obj, b + k, s, t.select(a, ix))
                    k += s
                return
            else:
                b = t.cval(src.off)
                if b is None: raise Unsupported("memcpy symbolic src")
                for kk in sorted(k for k in so.cells if b <= k < b + nn):
                    s, v = so.cells[kk]
                    if s in (1, 2, 4, 8) and isinstance(v, T):
                        ty = ("double",) if v.sort in ("R", "F64") and s == 8 else ("float",) if v.sort in ("R", "F32") else ("i", 8 * s)
                        self.store(st, ty, v, Ptr(dst.obj, t.add(dst.off, kk - b)))
                    else: raise Unsupported("memcpy cells->arr of %r" % (v,))
                return
        raise Unsupported("memcpy %s -> %s" % (so.kind, do.kind))

    def _ub(self, s):
        self.oblige("copy through a null or dangling pointer", "memory", s, FALSE)
        return Choice([])

    def split(self, off, S):
        d = t.pd(t.lift(off))
        k = int(d.get((), 0)); f = k % S
        idx = {m: c // S for m, c in d.items() if m != ()}
        if any(c % S for m, c in d.items() if m != ()):
            raise Unsupported("unaligned %s by %d" % (off, S))
        idx[()] = (k - f) // S
        return t.from_pd(idx, "I"), f

    def zr_cut(self, zr, a, b):
        out = []
        for x, y in zr:
            if y <= a or x >= b: out.append((x, y)); continue
            if x < a: out.append((x, a))
            if y > b: out.append((b, y))
        return out

    def memset(self, st, dst, byte, n):
        nn = t.cval(n)
        if nn == 0: return
        if not isinstance(dst, Ptr): raise Unsupported("memset %r" % (dst,))
        o = st.mem[dst.obj]
        bv = t.cval(byte) if isinstance(byte, T) else None
        if o.kind == "lazy":
            if t.cval(o.nbytes) is not None:
                o = Cells(t.cval(o.nbytes), o.name); st.mem[dst.obj] = o
            else:
                self.bounds_ob(st, Arr(1, {}, o.nbytes, o.name), dst.off, n, "write")
                stride = self.lazy_stride(o.name, 0) if self.lazy_stride else None
                if bv == 0 and t.eq(dst.off, 0) is TRUE and pv.prove(st.pcs, t.eq(n, o.nbytes), 2.0, want_model=False):
                    # all-zero buffer; element type decided on first access
                    stride = stride or 8
                    st.mem[dst.obj] = a = Arr(stride, {}, t.fdiv(o.nbytes, stride), o.name)
                    for f in range(0, stride, 8): a.fields[f] = (min(8, stride), t.constarr(t.const(0)))
                    return
                if bv == 0 and not stride: raise Unsupported("memset on untyped buffer")
                w = stride if bv == 0 else 1
                o = Arr(w, {0: (w, t.fresh("buf", "AI"))}, t.fdiv(o.nbytes, w), o.name); st.mem[dst.obj] = o
        self.bounds_ob(st, o, dst.off, n, "write")
        if o.kind == "cells":
            if nn is None:
                cs = self.candidates(st, n, o.size + 1, 1)
                return Choice([(e, (lambda c: lambda s: self.memset(s, dst, byte, t.const(c)))(c)) for e, c in cs])
            b = t.cval(dst.off)
            if b is None:
                cs = self.candidates(st, dst.off, o.size, nn)
                return Choice([(e, (lambda c: lambda s: self.memset(s, Ptr(dst.obj, c), byte, n))(c)) for e, c in cs])
            o = self.wr(st, dst.obj)
            for k in [k for k, c in o.cells.items() if k < b + nn and k + c[0] > b]:
                if k < b or k + o.cells[k][0] > b + nn: raise Unsupported("memset splits cell")
                del o.cells[k]
            o.zr = self.zr_cut(o.zr, b, b + nn)
            if bv == 0: o.zr.append((b, b + nn))
            elif bv is not None:
                for k in range(nn): o.cells[b + k] = (1, t.const(bv))
            else: raise Unsupported("memset value")
            self.note_write(st, dst.obj, ("cell", b, nn))
            return
        S = o.stride
        j0, f1 = self.split(dst.off, S); cnt, f2 = self.split(n, S)
        if f1 or f2 or bv not in (0, None) and not (S == 1): raise Unsupported("memset arr")
        o = self.wr(st, dst.obj)
        for f, (s, a) in list(o.fields.items()):
            z = t.const(0, "I") if a.sort == "AI" else t.const(0, "R")
            if S == 1: z = byte
            na = t.fresh("mset", a.sort)
            st.pcs.append(t.Forall(lambda k: t.eq(t.select(na, k), t.ite(t.And(t.le(j0, k), t.lt(k, t.add(j0, cnt))), z, t.select(a, k)))))
            o.fields[f] = (s, na)
            self.note_write(st, dst.obj, ("arr", f))

    # ------------------------------------------------------------------ obligations
    def oblige(self, name, kind, st, goal, timeout=None):
        goal = t.lift(goal)
        if not self.recording:
            if goal is not TRUE and goal is not FALSE: st.pcs.append(goal)
            return True
        r = pv.prove(st.pcs, goal, timeout or self.timeout, tactic=self.tactic)
        self.obs.append(Ob(name=name, kind=kind, status=r.status, backend=r.backend, time=r.time, goal=goal, model=r.model, reason=r.reason,
                           hyps=list(st.pcs) if r.status != "proved" else None, st=st if r.status != "proved" else None))
        if r.status != "proved" and goal is not FALSE and goal is not TRUE: st.pcs.append(goal)
        return r.status == "proved"

    def select_only(self, fn, res):
        if not hasattr(fn, "users"):
            fn.users = {}
            for b in fn.order:
                for i in fn.blocks[b]:
                    for k in range(len(i.a)) if isinstance(i.a, (list, tuple)) else ():
                        for nm in locs(i.a[k]): fn.users.setdefault(nm, []).append((i, k))
                    for nm in locs(i.extra): fn.users.setdefault(nm, []).append((i, -1))
        us = fn.users.get(res, [])
        return bool(us) and all(i.op == "select" and k in (1, 2) for i, k in us)

    # ------------------------------------------------------------------ integer helpers
    def wrap(self, x, bits):
        c = t.cval(x)
        m = 1 << bits
        if c is not None:
            c %= m
            return t.const(c - m if c >= m // 2 else c)
        h = m // 2
        return t.sub(t.fmod(t.add(x, h), m), h)

    def in_range(self, st, x, bits):
        g = t.And(t.ge(x, -(1 << (bits - 1))), t.le(x, (1 << (bits - 1)) - 1))
        return g

    def as_int(self, v):
        if isinstance(v, T):
            if v.sort == "B": return t.ite(v, 1, 0)
            return v
        if isinstance(v, PInt): return v
        if v is UNDEF: return t.fresh("undef", "I")
        if isinstance(v, Cat): raise Unsupported("arith on concatenated value")
        raise Unsupported("int op on %r" % (v,))

    def binop(self, st, inst, op, ty, a, b, fl):
        bits = ty[1] if ty[0] == "i" else 0
        if ty[0] == "vec":
            return tuple(self.binop(st, inst, op, ty[2], x, y, fl) for x, y in zip(a, b))
        if bits == 1:
            a = t.lift(a) if a is not UNDEF else t.fresh("undef", "B")
            b = t.lift(b) if b is not UNDEF else t.fresh("undef", "B")
            if op == "and": return t.And(a, b)
            if op == "or": return t.Or(a, b)
            if op in ("xor", "add", "sub"): return t.Not(t.iff(a, b))
            if op == "mul": return t.And(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.obj == b.p.obj: return t.sub(a.p.off, b.p.off)
                raise Unsupported("difference of pointers to different objects %s %s" % (self.objname.get(a.p.obj), self.objname.get(b.p.obj)))
            if op in ("add", "sub") and isinstance(a, PInt): return PInt(Ptr(a.p.obj, t.add(a.p.off, b) if op == "add" else t.sub(a.p.off, b)))
            if op == "add": return PInt(Ptr(b.p.obj, t.add(b.p.off, a)))
            if op == "and" and isinstance(a, PInt) and t.cval(b) is not None and a.p.obj:
                # alignment test on an object pointer: objects are 16-byte aligned
                c = t.cval(b)
                if 0 <= c < 16 and t.cval(a.p.off) is not None: return t.const(t.cval(a.p.off) & c)
            if isinstance(a, PInt) and a.p.obj == 0: a = a.p.off
            elif isinstance(b, PInt) and b.p.obj == 0: b = b.p.off
            else: raise Unsupported("int op %s on pointer" % op)
        a = self.as_int(a); b = self.as_int(b)
        ca, cb = t.cval(a), t.cval(b)
        if op in ("add", "sub", "mul"):
            r = t.add(a, b) if op == "add" else t.sub(a, b) if op == "sub" else t.mul(a, b)
            if t.cval(r) is not None and "nsw" not in fl: return self.wrap(r, bits)
            if "nsw" in fl and self.check_nsw and t.cval(r) is None:
                g = self.in_range(st, r, bits)
                if self.select_only(st.frames[-1].fn, inst.res):
                    # speculated by the compiler: the result only matters when it is selected
                    if not self.recording or not pv.prove(st.pcs, g, 1.0):
                        st.frames[-1].env["!" + inst.res] = g
                    return r
                self.oblige("no signed overflow: %s" % inst.text.strip()[:60], "overflow", st, self.in_range(st, r, bits))
            elif "nsw" not in fl and self.wrap_exact:
                g = self.in_range(st, r, bits)
                if not pv.prove(st.pcs, g, 2.0): return self.wrap(r, bits)
            return r
        if op in ("sdiv", "srem"):
            if not (cb is not None and cb != 0):
                self.oblige("division by non-zero: %s" % inst.text.strip()[:60], "arith", st, t.ne(b, 0))
            if self.check_nsw and not (cb is not None and cb != -1):
                self.oblige("no division overflow: %s" % inst.text.strip()[:60], "overflow", st, t.Not(t.And(t.eq(a, -(1 << (bits - 1))), t.eq(b, -1))))
            if "exact" in fl and op == "sdiv" and cb:
                # exact pointer-difference division
                d = t.pd(a)
                if all(c % cb == 0 for c in d.values()): return t.tdiv(a, b)
                return t.fdiv(a, b) if cb > 0 else t.tdiv(a, b)
            h = self.div_hint(self, st, a, b) if self.div_hint else None
            if h is not None and t.eq(a, b * h[0] + h[1]) is TRUE:
                # a = b*q + r with 0 <= r < b determines q and r (a, q >= 0)
                g = t.And(t.ge(h[1], 0), t.lt(h[1], b), t.ge(h[0], 0))
                if pv.prove(st.pcs, g, 2.0): return h[0] if op == "sdiv" else h[1]
            return t.tdiv(a, b) if op == "sdiv" else t.trem(a, b)
        if op in ("udiv", "urem"):
            if self.nonneg(st, a) and (cb is not None and cb > 0 or self.nonneg(st, b)):
                if cb is None: self.oblige("division by non-zero: %s" % inst.text.strip()[:60], "arith", st, t.ne(b, 0))
                return t.fdiv(a, b) if op == "udiv" else t.fmod(a, b)
            ua, ub = self.tounsigned(a, bits), self.tounsigned(b, bits)
            return t.fdiv(ua, ub) if op == "udiv" else t.fmod(ua, ub)
        if op == "shl":
            if cb is not None:
                r = t.mul(a, 1 << cb)
                return self.wrap(r, bits) if t.cval(r) is not None else r
        if op == "ashr" and cb is not None: return t.fdiv(a, 1 << cb)
        if op == "lshr" and cb is not None:
            if ca is not None: return t.const((ca % (1 << bits)) >> cb)
            if self.nonneg(st, a): return t.fdiv(a, 1 << cb)
            return t.fdiv(self.tounsigned(a, bits), 1 << cb)
        if ca is not None and cb is not None:
            m = (1 << bits) - 1
            r = {"and": ca & m & cb, "or": (ca & m) | (cb & m), "xor": (ca & m) ^ (cb & m), "shl": (ca << cb), "lshr": (ca & m) >> cb, "ashr": ca >> cb}[op]
            return self.wrap(t.const(r), bits)
        if op == "and":
            if cb is None and ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                if cb == 0: return t.const(0)
                if cb == -1: return a
                if cb > 0 and (cb + 1) & cb == 0: return t.fmod(a, cb + 1)
                if cb < 0 and (-cb) & (-cb - 1) == 0:  # clear low bits
                    return t.sub(a, t.fmod(a, -cb))
            # boolean-like operands
            if self.bool01(a) and self.bool01(b): return t.ite(t.And(t.ne(a, 0), t.ne(b, 0)), 1, 0)
        if op == "or":
            if cb == 0: return a
            if ca == 0: return b
            if self.bool01(a) and self.bool01(b): return t.ite(t.Or(t.ne(a, 0), t.ne(b, 0)), 1, 0)
            if "disjoint" in fl: return t.add(a, b)
            return t.uf("bitor", (a, b), "I")
        if op == "xor":
            if cb == -1: return t.sub(t.neg(a), 1)
            if cb == 0: return a
            if self.bool01(a) and (cb == 1): return t.ite(t.eq(a, 0), 1, 0)
            if self.bool01(a) and self.bool01(b): return t.ite(t.eq(a, b), 0, 1)
            return t.uf("bitxor", (a, b), "I")
        return t.uf("bv_" + op, (a, b), "I")

    def bool01(self, a):
        if t.cval(a) in (0, 1): return True
        return a.op == "ite" and t.cval(a.args[1]) in (0, 1) and t.cval(a.args[2]) in (0, 1)

    def nonneg(self, st, a):
        c = t.cval(a)
        if c is not None: return c >= 0
        g = t.ge(a, 0)
        if g in st.pcs or g is TRUE: return True
        return bool(pv.prove([p for p in st.pcs if not t.has_quant(p)], g, 1.0))

    def icmp(self, st, pred, ty, a, b):
        if ty[0] == "vec": return tuple(self.icmp(st, pred, ty[2], x, y) for x, y in zip(a, b))
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return t.lift(same if pred == "eq" else not same)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                if isinstance(a, T) and t.cval(a) is not None: a = Ptr(0, a)
                else: raise Unsupported("icmp ptr/int %r %r" % (a, b))
            if not isinstance(b, Ptr):
                if isinstance(b, T) and t.cval(b) is not None: b = Ptr(0, b)
                else: raise Unsupported("icmp ptr/int %r %r" % (a, b))
            if a.obj != b.obj:
                if pred == "eq": return FALSE
                if pred == "ne": return TRUE
                if a.obj == 0: return t.lift(pred in ("ult", "ule"))
                if b.obj == 0: return t.lift(pred in ("ugt", "uge"))
                # addresses of distinct objects: fixed but unknown order
                x = t.var("addr_%d" % a.obj); y = t.var("addr_%d" % b.obj)
                return {"ult": t.lt, "ule": t.lt, "ugt": t.gt, "uge": t.gt}[pred](x, y)
            a, b = a.off, b.off
            pred = pred.replace("u", "s", 1) if pred[0] == "u" else pred
        if ty == ("i", 1):
            if a is UNDEF: a = t.fresh("undef", "B")
            if b is UNDEF: b = t.fresh("undef", "B")
            if pred == "eq": return t.iff(a, b)
            if pred == "ne": return t.Not(t.iff(a, b))
            a = t.ite(a, 1, 0); b = t.ite(b, 1, 0); pred = pred.replace("u", "s", 1)
        if isinstance(a, T) and a.sort == "BITS" or isinstance(b, T) and b.sort == "BITS":
            return self.bits_cmp(pred, a, b)
        a = self.as_int(a); b = self.as_int(b)
        sw = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}
        if a.op == "fp.frexpe" and t.cval(b) is not None and pred[0] != "u": return self.frexp_cmp(pred[-2:], a.args[0], t.cval(b))
        if b.op == "fp.frexpe" and t.cval(a) is not None and pred[0] != "u": return self.frexp_cmp(sw[pred[-2:]], b.args[0], t.cval(a))
        if pred == "eq": return t.eq(a, b)
        if pred == "ne": return t.ne(a, b)
        if pred[0] == "u":
            ca, cb = t.cval(a), t.cval(b)
            if not ((ca is not None and ca >= 0 or (ca is None and self.nonneg(st, a))) and (cb is not None and cb >= 0 or (cb is None and self.nonneg(st, b)))):
                a = self.tounsigned(a, ty[1]); b = self.tounsigned(b, ty[1])
        return {"lt": t.lt, "le": t.le, "gt": t.gt, "ge": t.ge}[pred[1:]](a, b)

    def bits_cmp(self, pred, a, b):
        if isinstance(a, T) and a.sort == "BITS" and t.cval(b) == 0 and pred == "slt": return t.mk("fp.signbit", (a.args[0],), "B")
        if isinstance(a, T) and a.sort == "BITS" and t.cval(b) == -1 and pred == "sgt": return t.Not(t.mk("fp.signbit", (a.args[0],), "B"))
        raise Unsupported("bit comparison")

    # ------------------------------------------------------------------ floats
    def fop(self, op, ty, a, b):
        if ty[0] == "vec": return tuple(self.fop(op, ty[2], x, y) for x, y in zip(a, b))
        if a is UNDEF: a = t.fresh("undef", self.fsort(ty))
        if b is UNDEF: b = t.fresh("undef", self.fsort(ty))
        if self.fp == "real":
            if op == "fadd": return t.add(a, b)
            if op == "fsub": return t.sub(a, b)
            if op == "fmul": return t.mul(a, b)
            if op == "fdiv":
                return t.rdiv(a, b)
            raise Unsupported(op)
        return t.mk({"fadd": "fp.add", "fsub": "fp.sub", "fmul": "fp.mul", "fdiv": "fp.div"}[op], (a, b), a.sort)

    def fpnum(self, x, like):
        st = __import__("struct")
        return self.fpconst(("double",) if like.sort == "F64" else ("float",), ("fp", float(x), st.unpack("<Q", st.pack("<d", float(x)))[0]))

    def fp_inrange(self, v, bits):
        """truncation of v fits into a signed integer"""
        lim = float(1 << (bits - 1))
        if bits == 32 and v.sort == "F64": lo = t.mk("fp.lt", (self.fpnum(-lim - 1, v), v), "B")
        else: lo = t.mk("fp.le", (self.fpnum(-lim, v), v), "B")
        return t.And(lo, t.mk("fp.lt", (v, self.fpnum(lim, v)), "B"))

    def rounding(self, k, x):
        """floor, ceil, trunc, round (ties away), rint/nearbyint (ties to even)"""
        if self.fp != "real": return t.mk({"floor": "fp.floor", "ceil": "fp.ceil", "trunc": "fp.trunc", "round": "fp.rna", "rint": "fp.rne", "nearbyint": "fp.rne", "roundeven": "fp.rne"}[k], (x,), x.sort)
        fl, h = (lambda y: t.toreal(t.floor(y))), t.const(__import__("fractions").Fraction(1, 2), "R")
        if k == "floor": return fl(x)
        if k == "ceil": return t.neg(fl(t.neg(x)))
        if k == "trunc": return t.ite(t.ge(x, 0), fl(x), t.neg(fl(t.neg(x))))
        if k == "round": return t.ite(t.ge(x, 0), fl(x + h), t.neg(fl(h - x)))
        return NotImplemented

    def frexp_cmp(self, pred, x, k):
        """comparison of the exponent of frexp(x) with a constant: e <= k exactly if |x| < 2^k"""
        if pred in ("lt", "sle", "slt"): pass
        unspec = t.Or(t.mk("fp.isnan", (x,), "B"), t.mk("fp.isinf", (x,), "B"))
        def le(j):
            if j > 1030: return TRUE
            if j < -1060: raise Unsupported("exponent comparison")
            return t.mk("fp.lt", (t.mk("fp.abs", (x,), x.sort), self.fpnum(2.0 ** j if j < 1024 else float("inf"), x)), "B")
        def leq(j): return t.ite(t.mk("fp.iszero", (x,), "B"), t.lift(0 <= j), le(j))
        r = {"le": lambda: leq(k), "lt": lambda: leq(k - 1), "gt": lambda: t.Not(leq(k)), "ge": lambda: t.Not(leq(k - 1)),
             "eq": lambda: t.And(leq(k), t.Not(leq(k - 1))), "ne": lambda: t.Not(t.And(leq(k), t.Not(leq(k - 1))))}[pred]()
        u = t.fresh("frexp_unspec", "B")
        return t.Or(t.And(unspec, u), t.And(t.Not(unspec), r))

    def fneg(self, a):
        if isinstance(a, tuple): return tuple(self.fneg(x) for x in a)
        if self.fp == "real": return t.neg(a)
        return t.mk("fp.neg", (a,), a.sort)

    def fabs(self, a):
        if self.fp == "real": return t.Abs(a)
        return t.mk("fp.abs", (a,), a.sort)

    def fcmp(self, pred, ty, a, b):
        if ty[0] == "vec": return tuple(self.fcmp(pred, ty[2], x, y) for x, y in zip(a, b))
        if a is UNDEF: a = t.fresh("undef", self.fsort(ty))
        if b is UNDEF: b = t.fresh("undef", self.fsort(ty))
        if self.fp == "real":
            nan = self.nanflag(a, b)
            if pred in ("ord",): return t.Not(nan)
            if pred == "uno": return nan
            if pred == "true": return TRUE
            if pred == "false": return FALSE
            r = {"eq": t.eq, "ne": t.ne, "lt": t.lt, "le": t.le, "gt": t.gt, "ge": t.ge}[pred[1:]](a, b)
            if nan is FALSE: return r
            return t.And(t.Not(nan), r) if pred[0] == "o" else t.Or(nan, r)
        un = t.Or(t.mk("fp.isnan", (a,), "B"), t.mk("fp.isnan", (b,), "B"))
        if pred == "ord": return t.Not(un)
        if pred == "uno": return un
        if pred == "true": return TRUE
        if pred == "false": return FALSE
        k = pred[1:]
        F = lambda o, x, y: t.mk(o, (x, y), "B")
        r = {"eq": lambda: F("fp.eq", a, b), "ne": lambda: t.And(t.Not(F("fp.eq", a, b)), t.Not(un)), "lt": lambda: F("fp.lt", a, b),
             "le": lambda: F("fp.le", a, b), "gt": lambda: F("fp.lt", b, a), "ge": lambda: F("fp.le", b, a)}[k]()
        return r if pred[0] == "o" else t.Or(un, r)

    def nanflag(self, *xs):
        """real mode: NaN-ness of input values is tracked for designated inputs (uf isnan over atoms)"""
        if not getattr(self, "track_nan", None): return FALSE
        acc = []
        for x in xs:
            if not isinstance(x, T): continue
            for y in t.atoms(x):
                if y.op in ("var", "select") and self.track_nan(y): acc.append(t.uf("isnan", (y,), "B"))
                if y.op == "var" and y.args[0] == "const_nan": return TRUE
        return t.Or(*acc) if acc else FALSE

    # ------------------------------------------------------------------ casts
    def cast(self, op, sty, dty, v, st=None):
        s, d = self.ty.res(sty), self.ty.res(dty)
        if s[0] == "vec" and d[0] == "vec" and s[1] == d[1]: return tuple(self.cast(op, s[2], d[2], x, st) for x in v)
        if v is UNDEF:
            if op in ("bitcast", "inttoptr", "ptrtoint"): return UNDEF
            v = self.fresh_of(s, "undef")
        if isinstance(v, Cat):
            if op == "bitcast": return v
            if op == "trunc":
                tot = 0
                if v.parts[0][0] * 8 == d[1]: return v.parts[0][1] if v.parts[0][1] is not UNDEF else self.fresh_of(d)
            raise Unsupported("cast of Cat")
        if op == "zext":
            if s == ("i", 1): return t.ite(v, 1, 0)
            if isinstance(v, PInt): return v
            if not isinstance(v, T) or v.sort != "I": raise Unsupported("zext %r" % (v,))
            c = t.cval(v)
            if c is not None: return t.const(c % (1 << s[1]))
            if self.bool01(v): return v
            if st is not None and self.nonneg(st, v): return v
            return self.tounsigned(v, s[1])
        if op == "sext":
            if s == ("i", 1): return t.ite(v, -1, 0)
            return v
        if op == "trunc":
            if isinstance(v, T) and v.sort == "BITS": raise Unsupported("trunc of float bits")
            if isinstance(v, PInt): raise Unsupported("trunc of pointer")
            if not isinstance(v, T): raise Unsupported("trunc %r" % (v,))
            if d == ("i", 1):
                if v.op == "ite" and t.cval(v.args[1]) is not None and t.cval(v.args[2]) is not None:
                    return t.ite(v.args[0], t.lift(bool(t.cval(v.args[1]) & 1)), t.lift(bool(t.cval(v.args[2]) & 1)))
                if s == ("i", 8): return t.ne(v, 0)  # bool object: value is 0 or 1
                return t.ne(t.fmod(v, 2), 0)
            c = t.cval(v)
            if c is not None: return self.wrap(v, d[1])
            if self.bool01(v): return v
            g = t.And(t.ge(v, -(1 << (d[1] - 1))), t.lt(v, 1 << (d[1] - 1)))
            if st is not None and (g is TRUE or pv.prove([p for p in st.pcs if not t.has_quant(p)], g, 1.0)): return v
            if not self.trunc_exact:
                self.assumed.add("narrowing conversions lose no information")
                return v
            return self.wrap(v, d[1])
        if op == "ptrtoint":
            if isinstance(v, Ptr):
                if v.obj == 0 and t.cval(v.off) is not None: return v.off
                return PInt(v)
            raise Unsupported("ptrtoint %r" % (v,))
        if op == "inttoptr":
            if isinstance(v, PInt): return v.p
            if isinstance(v, T) and t.cval(v) is not None: return Ptr(0, v)
            raise Unsupported("inttoptr")
        if op == "bitcast":
            if d[0] == "i" and isinstance(v, T) and v.sort in ("F64", "F32"): return t.mk("fpbits", (v,), "BITS")
            if d[0] in ("double", "float") and isinstance(v, T) and v.sort == "BITS": return v.args[0]
            if s[0] == "vec" or d[0] == "vec":
                return v
            return v
        if op in ("sitofp", "uitofp"):
            if self.fp == "real":
                if s == ("i", 1): v = t.ite(v, 1 if op == "uitofp" else -1, 0)
                if op == "uitofp" and not (st is not None and self.nonneg(st, v)): v = self.tounsigned(v, s[1])
                if self.round_ints and s[1] == 64 and t.cval(v) is None:
                    lim = 1 << (53 if d[0] == "double" else 24)
                    return t.ite(t.And(t.ge(v, -lim), t.le(v, lim)), t.toreal(v), t.uf("rounded", (v,), "R"))
                return t.toreal(v)
            if s == ("i", 1): v = t.ite(v, 1, 0)
            c = t.cval(v)
            if c is not None: return self.fpconst(d, ("fp", float(c), __import__("struct").unpack("<Q", __import__("struct").pack("<d", float(c)))[0]))
            return t.mk("fp.ofint64" if d[0] == "double" else "fp.ofint32", (v,), self.fsort(d))
        if op in ("fptosi", "fptoui"):
            if self.havoc_fptosi and t.cval(v) is None:
                x = t.fresh("conv", "I")
                if st is not None: st.pcs += [t.ge(x, -(1 << (d[1] - 1))), t.lt(x, 1 << (d[1] - 1))] if op == "fptosi" else [t.ge(x, 0), t.lt(x, 1 << d[1])]
                return x
            if self.fp == "real":
                c = t.cval(v)
                if c is not None: return t.const(int(c))
                fl = t.floor(v)
                if fl.op != "floor": return fl  # integer valued
                if self.check_nsw and st is not None:
                    bits = d[1]
                    self.oblige("float to integer conversion in range", "overflow", st, t.And(t.gt(v, -(1 << (bits - 1)) - 1), t.lt(v, 1 << (bits - 1))))
                return t.ite(t.ge(v, 0), fl, t.neg(t.floor(t.neg(v))))
            if op == "fptoui" or d[1] not in (32, 64): raise Unsupported("fptoui in ieee mode")
            # out of range: poison, an unspecified integer (clang speculates the conversion, so this is no obligation by itself)
            return t.mk("fp.sbv%dz" % d[1], (v,), "I")
        if op == "fpext":
            return v if self.fp == "real" else t.mk("fp.to64", (v,), "F64")
        if op == "fptrunc":
            return v if self.fp == "real" else t.mk("fp.to32", (v,), "F32")
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------------ running
    def start(self, fname, args, st):
        fn = self.m.fns["@" + fname] if not fname.startswith("@") else self.m.fns[fname]
        self.push(st, fn, args, None)
        return st

    def push(self, st, fn, args, ret_inst):
        if not hasattr(fn, "loops"): fn.analyse()
        if hasattr(fn, "broken"): raise Unsupported(fn.broken)
        f = Frame()
        f.fn, f.block, f.idx, f.prev, f.env, f.ret_inst, f.visits, f.allocas = fn, fn.order[0], 0, None, {}, ret_inst, {}, []
        for (ty, nm, at), v in zip(fn.params, args):
            if "byval" in at and isinstance(v, Ptr):
                o = st.mem[v.obj]
                c = t.cval(v.off)
                if o.kind == "cells" and c == 0:
                    v = Ptr(self.new_obj(st, o.copy(None)), 0)
                else: raise Unsupported("byval")
            f.env[nm] = v
        st.frames.append(f)
        self.called.add(fn.dem)
        if len(st.frames) > 60: raise Unsupported("call depth (recursion without contract): " + fn.dem)

    def explore(self, states, ctx=None):
        """DFS; returns outcomes (function returns of the bottom frame / uncaught throws)"""
        outs = []
        work = list(states)
        while work:
            if self.deadline and time.time() > self.deadline: raise Unsupported("time limit of this function's verification reached")
            st = work.pop()
            r = self.step_path(st, ctx, outs)
            if r: work.extend(reversed(r))
            self.paths += 1
            if self.paths > self.max_paths: raise Unsupported("path limit")
        return outs

    def step_path(self, st, ctx, outs):
        """run one path until fork/end. returns list of successor states"""
        while True:
            f = st.frames[-1]
            inst = f.fn.blocks[f.block][f.idx]
            op = inst.op
            if op == "br":
                if len(inst.a) == 0:
                    r = self.goto(st, inst.extra["succ"][0], ctx)
                    if r is not None: return r
                    continue
                c = self.val(st, ("i", 1), inst.a[0])
                if c is UNDEF: c = t.fresh("undef", "B")
                if isinstance(c, T) and c.sort == "I": c = t.ne(c, 0)
                b1, b2 = inst.extra["succ"]
                return self.fork_goto(st, [(c, b1), (t.Not(c), b2)], ctx)
            if op == "switch":
                v = self.val(st, inst.ty, inst.a[0])
                alts = []
                rest = []
                for cv, b in inst.extra["cases"]:
                    e = t.eq(v, cv)
                    alts.append((e, b)); rest.append(t.Not(e))
                alts.append((t.And(*rest), inst.extra["default"]))
                return self.fork_goto(st, alts, ctx)
            if op == "ret":
                v = self.val(st, inst.ty, inst.a[0]) if inst.a else None
                fr = st.frames.pop()
                if not st.frames:
                    st.frames.append(fr)
                    (ctx.outs if ctx else outs).append(Outcome("ret", v, st))
                    return None
                # dead stack objects
                for i in fr.allocas: st.mem.pop(i, None)
                ri = fr.ret_inst
                f = st.frames[-1]
                if ri.res is not None: f.env[ri.res] = v
                if ri.op == "invoke":
                    r = self.goto(st, ri.extra["succ"][0], ctx)
                    if r is not None: return r
                else: f.idx += 1
                if ctx and len(st.frames) < ctx.depth: raise Unsupported("loop frame popped")
                continue
            if op == "unreachable":
                # the compiler assumes this point is never reached
                if self.recording:
                    self.oblige("unreachable code is not reached", "unreachable", st, FALSE)
                return None
            if op == "resume":
                return self.unwind(st, ctx, outs, pop=True)
            if op in ("call", "invoke"):
                r = self.call(st, inst)
                if r is None:
                    # callee entered; continue
                    continue
                res = r[0]
            else:
                res = self.exec(st, inst)
            if isinstance(res, Choice):
                alts = res.alts
                out = []
                live = []
                for c, v in alts:
                    if c is FALSE: continue
                    live.append((c, v))
                for k, (c, v) in enumerate(live):
                    if c is not TRUE and not self.feas.check(st.pcs + [c]): continue
                    s2 = st.copy() if len(live) > 1 else st
                    s2.trace.append(k)
                    if c is not TRUE: s2.pcs.append(c)
                    if callable(v): v = v(s2)
                    n = 0
                    while isinstance(v, Choice):
                        # nested choice: resolve sequentially (rare)
                        al = [(cc, vv) for cc, vv in v.alts if cc is not FALSE and self.feas.check(s2.pcs + [cc])]
                        if not al: v = None; break
                        for cc, vv in al[1:]:
                            s3 = s2.copy(); s3.pcs.append(cc)
                            if callable(vv): vv = vv(s3)
                            if isinstance(vv, Choice): raise Unsupported("deeply nested choice")
                            x = self.finish(s3, inst, vv, ctx, outs)
                            if x: out.extend(x)
                        cc, vv = al[0]
                        s2.pcs.append(cc)
                        v = vv(s2) if callable(vv) else vv
                    x = self.finish(s2, inst, v, ctx, outs)
                    if x: out.extend(x)
                return out
            if isinstance(res, Throw) or (op == "invoke"):
                return self.finish(st, inst, res, ctx, outs)
            if inst.res is not None: f.env[inst.res] = res
            f.idx += 1

    def finish(self, st, inst, v, ctx, outs):
        if isinstance(v, Throw):
            st.exc.append((v.ti, v.ptr))
            return self.unwind(st, ctx, outs, pop=False)
        if v == "stop": return None
        f = st.frames[-1]
        if inst.res is not None: f.env[inst.res] = v
        if inst.op == "invoke":
            r = self.goto(st, inst.extra["succ"][0], ctx)
            return [st] if r is None else r
        f.idx += 1
        return [st]

    # ------------------------------------------------------------------ control flow
    def fork_goto(self, st, alts, ctx):
        alts = [(c, b) for c, b in alts if c is not FALSE]
        pcset = set(st.pcs)
        out = []
        live = []
        for c, b in alts:
            if c in pcset: live = [(TRUE, b)]; break
            if t.Not(c) in pcset: continue
            live.append((c, b))
        if len(live) > 1:
            ok = []
            for i, (c, b) in enumerate(live):
                # the last alternative is feasible if none before is (path itself is feasible)
                if i == len(live) - 1 and not ok: ok.append((TRUE if len(live) == 2 else c, b)); continue
                if self.feas.check(st.pcs + [c]): ok.append((c, b))
            live = ok
        for i, (c, b) in enumerate(live):
            s2 = st if i == len(live) - 1 else st.copy()
            if len(alts) > 1: s2.trace.append(b)
            if c is not TRUE:
                if c.op == "and": s2.pcs.extend(c.args)
                else: s2.pcs.append(c)
            r = self.goto(s2, b, ctx)
            if r is None: out.append(s2)
            else: out.extend(r)
        return out

    def goto(self, st, b, ctx):
        """transfer control; returns None to continue with st, or list of states to continue with"""
        f = st.frames[-1]
        src = f.block
        depth = len(st.frames)
        if ctx and depth == ctx.depth and f.fn is ctx.fn:
            if b == ctx.header:
                f.prev = src
                ctx.backs.append(st)
                return []
            if b not in ctx.body:
                f.prev = src
                ctx.exits.append((st, b))
                return []
        return self.enter(st, b, ctx)

    def enter(self, st, b, ctx):
        f = st.frames[-1]
        src = f.block
        fn = f.fn
        if b in fn.loops:
            if src not in fn.loops[b]:
                f.visits[b] = 0
                if (fn.name, b) in self.cut:
                    return self.loop_rule(st, b, ctx)
            else:
                f.visits[b] = f.visits.get(b, 0) + 1
                if f.visits[b] > self.max_unroll: raise NeedCut((fn.name, b))
        f.prev = src
        f.block = b
        f.idx = 0
        self.do_phis(st)
        return None

    def do_phis(self, st, override=None):
        f = st.frames[-1]
        ins = f.fn.blocks[f.block]
        new = {}
        i = 0
        while ins[i].op == "phi":
            x = ins[i]
            if f.prev not in x.extra: raise Unsupported("phi without %s" % f.prev)
            new[x.res] = self.val(st, x.ty, x.extra[f.prev])
            i += 1
        f.env.update(new)
        f.idx = i

    def ti_bases(self, ti):
        n = ti.lstrip("@")
        if n in STD_BASES: return STD_BASES[n]
        g = self.m.globals.get("@" + n)
        out = []
        if g and g[1] and g[1][0] == "agg":
            for ty, v in g[1][1][2:]:
                if v[0] == "glob": out.append(v[1][1:])
        return out

    def ti_match(self, ti, want):
        st = [ti.lstrip("@")]
        seen = set()
        while st:
            x = st.pop()
            if x == want.lstrip("@"): return True
            if x in seen: continue
            seen.add(x); st.extend(self.ti_bases(x))
        return False

    def ti_id(self, name):
        d = self.__dict__.setdefault("_tiids", {})
        return d.setdefault(name, len(d) + 1)

    def unwind(self, st, ctx, outs, pop):
        """propagate the newest exception; current instruction is the throwing call (pop=False) or a resume (pop=True)"""
        ti, ptr = st.exc[-1]
        first = not pop
        while True:
            f = st.frames[-1]
            inst = f.fn.blocks[f.block][f.idx] if first else (f.fn.blocks[f.block][f.idx])
            if (first or inst.op == "invoke") and inst.op == "invoke":
                u = inst.extra["succ"][1]
                lp = next(i for i in f.fn.blocks[u] if i.op != "phi")
                sel = None
                for c in lp.extra["catch"]:
                    if c[0] == "null": sel = self.ti_id("null"); break
                    if c[0] == "glob" and self.ti_match(ti, c[1]): sel = self.ti_id(c[1]); break
                if sel is None and lp.extra["cleanup"]: sel = 0
                if sel is not None:
                    st.ghost["landing"] = (ptr or NULL, t.const(sel))
                    r = self.goto(st, u, ctx)
                    return [st] if r is None else r
            # leave the frame
            first = False
            if len(st.frames) == 1:
                (ctx.outs if ctx else outs).append(Outcome("throw", None, st, ti.lstrip("@")))
                return None
            fr = st.frames.pop()
            # frame's call instruction in the caller is at caller.idx
            if ctx and len(st.frames) < ctx.depth: raise Unsupported("exception leaves loop frame")

    # ------------------------------------------------------------------ calls
    def call(self, st, inst):
        """returns (value,) or None if a frame was pushed"""
        ex = inst.extra
        if ex.get("asm"): return (UNDEF,)
        cal = ex["callee"]
        if cal[0] == "loc":
            fp = st.frames[-1].env[cal[1]]
            if not isinstance(fp, FnPtr): raise Unsupported("indirect call %s" % inst.text.strip()[:80])
            name = fp.name
        else: name = cal[1]
        if name in self.m.aliases and self.m.aliases[name][0] == "glob": name = self.m.aliases[name][1]
        args = [self.val(st, ty, v) for ty, v in inst.a]
        dem = self.m.dem.get(name, name[1:])
        h = self._hcache.get(name)
        if h is None:
            h = [(r, fn) for r, fn in self.contracts if r.search(dem)]
            self._hcache[name] = h
        for r, fn in h:
            v = fn(self, st, inst, args, dem)
            if v is not NotImplemented:
                self.used_contracts.add(r.pattern)
                return (v,)
        v = self.builtin(st, name[1:], dem, inst, args)
        if v is not NotImplemented: return (v,)
        if name in self.m.fns:
            self.push(st, self.m.fns[name], args, inst)
            return None
        raise Unsupported("no contract for external function " + dem)

    def alloc(self, st, nbytes, name="heap"):
        if isinstance(nbytes, T) and any(x.op == "ite" for x in t.atoms(nbytes)): nbytes = pv.resolve_ites(st.pcs, nbytes)
        c = t.cval(nbytes)
        if c is not None and c < 1 << 16:
            i = self.new_obj(st, Cells(c, name))
        else:
            i = self.new_obj(st, LazyBuf(nbytes if c is None else t.const(c), name))
        return Ptr(i, 0)

    def libm(self, k, a, single):
        """library function in real arithmetic: uninterpreted, constants folded as the compiler does"""
        c = [t.cval(x) for x in a]
        if all(x is not None for x in c):
            import math, struct
            try:
                r = getattr(math, k)(*[float(x) for x in c])
                if single: r = struct.unpack("<f", struct.pack("<f", r))[0]
                return t.const(Fraction(r), "R")
            except (ValueError, OverflowError, AttributeError): pass
        return t.uf(k, a, "R")

    def builtin(self, st, n, dem, inst, a):
        if n.startswith("llvm."):
            b = n[5:]
            if b.startswith(("lifetime", "dbg", "experimental.noalias", "assume", "invariant", "donothing", "stacksave", "stackrestore", "prefetch", "sideeffect", "var.annotation")):
                if b.startswith("assume"): return None
                return None if not b.startswith("invariant.start") else UNDEF
            if b.startswith("memcpy") or b.startswith("memmove"):
                r = self.memcpy(st, a[0], a[1], a[2])
                return r
            if b.startswith("memset"): return self.memset(st, a[0], a[1], a[2])
            ty = inst.ty
            if b.startswith("abs."):
                return t.Abs(self.as_int(a[0]))
            if b.startswith("smax."): return t.Max(a[0], a[1])
            if b.startswith("smin."): return t.Min(a[0], a[1])
            if b.startswith("umax.") or b.startswith("umin."):
                if self.nonneg(st, a[0]) and self.nonneg(st, a[1]): x, y = a[0], a[1]
                else: x, y = self.tounsigned(a[0], ty[1]), self.tounsigned(a[1], ty[1])
                c = t.ge(x, y)
                return t.ite(c, a[0], a[1]) if b.startswith("umax") else t.ite(c, a[1], a[0])
            if b.startswith("fabs."): return self.fabs(a[0])
            if b.startswith("fmuladd.") or b.startswith("fma."):
                return self.fop("fadd", ty, self.fop("fmul", ty, a[0], a[1]), a[2])
            if b.split(".")[0] in ("floor", "ceil", "trunc", "round", "rint", "nearbyint", "roundeven"):
                r = self.rounding(b.split(".")[0], a[0])
                if r is not NotImplemented: return r
            if b.split(".")[0] in ("lround", "llround", "lrint", "llrint"):
                r = self.rounding(b.split(".")[0].lstrip("l"), a[0])
                if r is not NotImplemented: return self.cast("fptosi", ("double",) if a[0].sort in ("F64", "R") else ("float",), ty, r, st)
            if b.startswith("sqrt.") or b.startswith("exp.") or b.startswith("log") or b.startswith("pow.") or b.startswith("sin.") or b.startswith("cos.") or b.startswith("exp2"):
                k = b.split(".")[0]
                if self.fp == "real": return self.libm(k, a, ty[0] == "float")
                return t.uf(k + ty[0], a, self.fsort(ty))
            if b.startswith("copysign.") and self.fp == "real":
                return t.ite(t.ge(a[1], 0), t.Abs(a[0]), t.neg(t.Abs(a[0])))
            if b.startswith("minnum.") and self.fp == "real": return t.Min(a[0], a[1])
            if b.startswith("maxnum.") and self.fp == "real": return t.Max(a[0], a[1])
            if b.startswith("is.fpclass"):
                m = t.cval(a[1])
                if self.fp != "real":
                    x = a[0]
                    P = lambda o: t.mk(o, (x,), "B")
                    sg = P("fp.isneg")
                    parts = []
                    if m & 3: parts.append(P("fp.isnan"))
                    for bit, p, s in ((4, "fp.isinf", 1), (8, "fp.isnorm", 1), (16, "fp.issub", 1), (32, "fp.iszero", 1), (64, "fp.iszero", 0), (128, "fp.issub", 0), (256, "fp.isnorm", 0), (512, "fp.isinf", 0)):
                        if m & bit: parts.append(t.And(P(p), sg if s else t.Not(sg)))
                    return t.Or(*parts)
                if m == 3: return self.nanflag(a[0])
                if m == 516: return FALSE
                if m == 504: return t.Not(self.nanflag(a[0]))
            if b.startswith("eh.typeid.for"):
                g = a[0]
                for nm, k in self.globobj.items():
                    if isinstance(g, Ptr) and k == g.obj: return t.const(self.ti_id(nm))
                return t.const(self.ti_id("null"))
            if b.startswith("umul.with.overflow"):
                r = t.mul(a[0], a[1]); return (r, t.gt(r, (1 << 63) - 1) if t.cval(r) is None else t.lift(t.cval(r) >= 1 << 64))
            if b.startswith("uadd.with.overflow"):
                r = t.add(a[0], a[1]); return (r, FALSE)
            if b.startswith("smul.with.overflow") or b.startswith("sadd.with.overflow") or b.startswith("ssub.with.overflow"):
                r = t.mul(a[0], a[1]) if "mul" in b else t.add(a[0], a[1]) if "sadd" in b else t.sub(a[0], a[1])
                bits = ty[1][0][1]
                return (self.wrap(r, bits), t.Not(self.in_range(st, r, bits)))
            if b.startswith("is.constant"): return FALSE
            if b.startswith("expect."): return a[0]
            if b.startswith("objectsize"): return t.const(-1)
            if b.startswith("trap") or b.startswith("ubsantrap"):
                self.oblige("trap not reached", "unreachable", st, FALSE)
                return "stop"
            if b.startswith("vector.reduce") :
                x = a[-1]
                if "fadd" in b:
                    acc = a[0]
                    for y in x: acc = self.fop("fadd", ("double",), acc, y)
                    return acc
            if b.startswith("ctlz") or b.startswith("cttz") or b.startswith("ctpop"):
                c = t.cval(a[0])
                bits = ty[1]
                if c is not None:
                    u = c % (1 << bits)
                    if b.startswith("ctlz"): return t.const(bits - u.bit_length())
                    if b.startswith("ctpop"): return t.const(bin(u).count("1"))
                    return t.const((u & -u).bit_length() - 1 if u else bits)
                return t.uf(b.split(".")[0] + str(bits), (a[0],), "I")
            if b.startswith("usub.sat"):
                return t.Max(t.sub(a[0], a[1]), 0)
            raise Unsupported("intrinsic " + n)
        if n in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"): return self.alloc(st, self.as_int(a[0]))
        if n in ("aligned_alloc",): return self.alloc(st, self.as_int(a[1]))
        if n == "posix_memalign":
            p = self.alloc(st, self.as_int(a[2]))
            self.store(st, ("ptr",), p, a[0])
            return t.const(0)
        if n in ("_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"): return self.alloc(st, self.as_int(a[0]))
        if n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t"):
            if isinstance(a[0], Ptr) and a[0].obj:
                if a[0].obj in st.mem: del st.mem[a[0].obj]
                else: self.oblige("no double free", "bounds", st, FALSE)
            return None
        if n == "__cxa_allocate_exception":
            return Ptr(self.new_obj(st, Cells(t.cval(a[0]) or 64, "exception")), 0)
        if n == "__cxa_free_exception": return None
        if n == "__cxa_throw":
            ti = inst.a[1][1]
            return Throw(ti[1] if ti[0] == "glob" else "?", a[0])
        if n == "__cxa_begin_catch": return a[0]
        if n == "__cxa_get_exception_ptr": return a[0]
        if n == "__cxa_end_catch":
            if st.exc: st.exc.pop()
            return None
        if n == "__cxa_rethrow":
            return Throw(st.exc[-1][0], st.exc[-1][1])
        if n in ("__clang_call_terminate", "_ZSt9terminatev", "abort", "__cxa_pure_virtual", "_ZSt20__throw_system_errori"):
            self.oblige("program does not terminate abnormally (%s)" % n, "unreachable", st, FALSE)
            return "stop"
        if n == "__cxa_guard_acquire":
            return t.const(1) if not st.ghost.get(("guard", a[0].obj)) else t.const(0)
        if n == "__cxa_guard_release":
            st.ghost[("guard", a[0].obj)] = True
            return None
        if n in ("__cxa_atexit", "__cxa_guard_abort"): return t.const(0)
        mt = re.match(r"_ZSt\d+__throw_([a-z_]+?)(PKcz?|v|i)$", n)
        if mt:
            k = mt.group(1)
            cls = {"length_error": "_ZTISt12length_error", "out_of_range": "_ZTISt12out_of_range", "out_of_range_fmt": "_ZTISt12out_of_range", "bad_alloc": "_ZTISt9bad_alloc",
                   "logic_error": "_ZTISt11logic_error", "bad_array_new_length": "_ZTISt20bad_array_new_length", "invalid_argument": "_ZTISt16invalid_argument",
                   "bad_optional_access": "_ZTISt19bad_optional_access", "bad_function_call": "_ZTISt17bad_function_call"}.get(k, "_ZTISt9exception")
            return Throw(cls)
        if n in ("memcmp", "bcmp") and t.cval(a[2]) is None and all(isinstance(p, Ptr) and getattr(st.mem.get(p.obj), "kind", "") == "arr" for p in a[:2]): return self.memcmp(st, a[0], a[1], a[2])
        if n == "strlen":
            p = a[0]
            for k in range(4096):
                c = self.load(st, ("i", 8), Ptr(p.obj, t.lift(p.off) + k))
                c = c if isinstance(c, int) else t.cval(c)
                if c is None: return NotImplemented
                if c == 0: return t.const(k)
            return NotImplemented
        if n in ("memcmp", "bcmp"):
            k = t.cval(a[2])
            if k is None: return NotImplemented
            eq, i = [], 0
            while i < k:
                w = 8 if k - i >= 8 else 4 if k - i >= 4 else 2 if k - i >= 2 else 1
                x, y = (self.load(st, ("i", 8 * w), Ptr(p.obj, t.lift(p.off) + i)) for p in a[:2])
                if not (isinstance(x, T) and isinstance(y, T)): return NotImplemented
                eq.append(t.eq(x, y)); i += w
            sg = t.fresh("memcmp", "I")  # the order is left open
            return t.ite(t.And(*eq), 0, t.ite(t.ge(sg, 0), 1, -1))
        if n in ("memcpy", "memmove"):
            r = self.memcpy(st, a[0], a[1], a[2])
            if isinstance(r, Choice):
                return Choice([(c, (lambda v: lambda s: (v(s) if callable(v) else None, a[0])[1])(v)) for c, v in r.alts])
            return a[0]
        if self.fp == "real" and n in ("exp", "log", "log10", "sqrt", "pow", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
                                       "expf", "logf", "log10f", "sqrtf", "powf", "sinf", "cosf", "tanf", "asinf", "acosf", "atanf", "atan2f", "sinhf", "coshf", "tanhf", "erf", "erfc", "erff", "erfcf", "hypot"):
            k = n[:-1] if n.endswith("f") and n not in ("erf",) else n
            return self.libm(k, a, k != n)
        if n in ("floor", "ceil", "trunc", "round", "rint", "nearbyint", "floorf", "ceilf", "truncf", "roundf", "rintf", "nearbyintf"):
            return self.rounding(n[:-1] if n.endswith("f") else n, a[0])
        if n in ("lround", "llround", "lrint", "llrint", "lroundf", "llroundf"):
            r = self.rounding(n.rstrip("f").lstrip("l"), a[0])
            if r is not NotImplemented: return self.cast("fptosi", ("double",) if not n.endswith("f") else ("float",), ("i", 64), r, st)
        if n in ("frexp", "frexpf") and self.fp != "real":
            self.store(st, ("i", 32), t.mk("fp.frexpe", (a[0],), "I"), a[1])
            m = t.fresh("frexp", a[0].sort)
            return m
        if n in ("abs", "labs", "llabs"): return t.Abs(a[0])
        if n in ("fabs", "fabsf"): return self.fabs(a[0])
        return NotImplemented

    # ------------------------------------------------------------------ instructions
    def exec(self, st, inst):
        op = inst.op
        f = st.frames[-1]
        V = lambda i, ty=None: self.val(st, ty or inst.ty, inst.a[i])
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "ashr", "lshr", "and", "or", "xor"):
            return self.binop(st, inst, op, self.ty.res(inst.ty), V(0), V(1), inst.extra)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return self.fop(op, self.ty.res(inst.ty), V(0), V(1))
        if op == "fneg": return self.fneg(V(0))
        if op == "icmp": return self.icmp(st, inst.extra, self.ty.res(inst.ty), V(0), V(1))
        if op == "fcmp": return self.fcmp(inst.extra, self.ty.res(inst.ty), V(0), V(1))
        if op == "alloca":
            n = 1
            if inst.extra:
                n = t.cval(self.val(st, *inst.extra))
                if n is None: raise Unsupported("variable alloca")
            i = self.new_obj(st, Cells(self.ty.size(inst.ty) * n, "%s:%s" % (f.fn.dem[:30], inst.res)))
            f.allocas = f.allocas + [i]
            return Ptr(i, 0)
        if op == "load":
            return self.load(st, inst.ty, self.val(st, ("ptr",), inst.a[0]))
        if op == "store":
            return self.store(st, inst.ty, V(0), self.val(st, ("ptr",), inst.a[1]))
        if op == "getelementptr":
            ops = [(ty, self.val(st, ty, v)) for ty, v in inst.a]
            return self.gep(inst.ty, ops)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "addrspacecast"):
            return self.cast(op, inst.extra, inst.ty, V(0, inst.extra), st)
        if op == "select":
            c = self.val(st, inst.extra, inst.a[0])
            a, b = V(1), V(2)
            if isinstance(c, tuple): return tuple(t.ite(x, y, z) for x, y, z in zip(c, a, b))
            if c is UNDEF: c = t.fresh("undef", "B")
            if self.check_nsw and isinstance(c, T):
                for k, g in ((1, c), (2, t.Not(c))):
                    if inst.a[k][0] == "loc" and "!" + inst.a[k][1] in f.env:
                        self.oblige("no signed overflow: %s" % inst.a[k][1], "overflow", st, t.Implies(g, f.env["!" + inst.a[k][1]]))
            if c is TRUE: return a
            if c is FALSE: return b
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj and a.obj:
                    return Ptr(a.obj, a.off) if a.off is b.off else Choice([(c, a), (t.Not(c), b)])
                return Choice([(c, a), (t.Not(c), b)])
            if isinstance(a, T) and isinstance(b, T): return t.ite(c, a, b)
            f0 = self.ty.res(inst.ty)
            if f0[0] in ("i", "double", "float"):
                if a is UNDEF: a = self.fresh_of(f0, "undef")
                if b is UNDEF: b = self.fresh_of(f0, "undef")
                if isinstance(a, T) and isinstance(b, T): return t.ite(c, a, b)
            return Choice([(c, a), (t.Not(c), b)])
        if op == "extractvalue":
            v = V(0)
            for k in inst.extra: v = v[k]
            return v
        if op == "insertvalue":
            ix, t2 = inst.extra
            v, w = V(0), self.val(st, t2, inst.a[1])
            if v is UNDEF: v = self.undef_agg(inst.ty)
            def ins(v, ix):
                if not ix: return w
                l = list(v); l[ix[0]] = ins(l[ix[0]], ix[1:]); return tuple(l)
            return ins(v, ix)
        if op == "extractelement":
            v = V(0); k = t.cval(self.val(st, inst.extra, inst.a[1])); 
            if not isinstance(v, tuple): raise Unsupported("extractelement of %r" % (v,))
            return v[k]
        if op == "insertelement":
            v = V(0); w = self.val(st, inst.extra, inst.a[1]); k = t.cval(self.val(st, ("i", 64), inst.a[2]))
            if v is UNDEF: v = self.undef_agg(inst.ty)
            l = list(v); l[k] = w
            return tuple(l)
        if op == "shufflevector":
            v, w = V(0), V(1)
            mk = inst.a[2]
            n = len(v) if isinstance(v, tuple) else self.ty.res(inst.ty)[1]
            if v is UNDEF: v = (UNDEF,) * n
            if w is UNDEF: w = (UNDEF,) * n
            al = list(v) + list(w)
            if mk[0] == "zero": return tuple(al[0] for _ in range(inst.extra[1]))
            if mk[0] == "undef": return (UNDEF,) * inst.extra[1]
            return tuple(al[e[1][1]] if e[1][0] == "int" else UNDEF for e in mk[1])
        if op == "freeze": return V(0)
        if op == "fence": return None
        if op == "landingpad": return st.ghost["landing"]
        if op == "atomicrmw" or op == "cmpxchg":
            return self.atomic(st, inst)
        raise Unsupported("instruction " + inst.text.strip())

    def atomic(self, st, inst):
        raise Unsupported("atomic " + inst.text.strip())

    # ------------------------------------------------------------------ loops
    def loop_rule(self, st0, header, ctx):
        f0 = st0.frames[-1]
        fn = f0.fn
        depth = len(st0.frames)
        body = fn.loops[header]
        src = f0.block
        phis = [i for i in fn.blocks[header] if i.op == "phi"]
        init = {}
        for x in phis: init[("phi", x.res)] = self.val(st0, x.ty, x.extra[src])
        rec0 = self.recording
        modset = set()
        extra_cands = None  # list of candidate terms (over havoc vars)
        L = None
        stride = {}
        dropped = set()
        cands = None
        rnd = 0
        deltas_known = False
        self.loops_cut += 1
        base_pcs = list(st0.pcs)
        havocvars = {}
        while True:
            rnd += 1
            if rnd > 40: raise Unsupported("loop invariant inference did not converge in " + fn.dem[:80])
            # ---- havoc state
            st = st0.copy()
            f = st.frames[-1]
            vars_ = {}   # key -> (initval, curval, hv)
            consts = {}  # null pointers
            subst_init = {}

            def hav(key, v, ty=None):
                k2 = (id(st0), header, key)
                if isinstance(v, Ptr):
                    if v.obj == 0:
                        # stays what it is: a back edge with another value has to be infeasible
                        consts[key] = v
                        return v
                    s = stride.get(key) or self.ptr_scale(fn, body, key, st0, v)
                    stride[key] = s
                    hv = havocvars.setdefault(key, t.fresh("L_" + str(key[-1]).strip("%").replace("%", ""), "I"))
                    vars_[key] = (v, Ptr(v.obj, t.add(v.off, t.mul(hv, s))), hv)
                    subst_init[hv] = t.const(0)
                    return vars_[key][1]
                if isinstance(v, PInt): raise Unsupported("loop variable is pointer-int")
                if v is UNDEF:
                    v = self.fresh_of(ty) if ty else UNDEF
                    if v is UNDEF: return UNDEF
                if isinstance(v, T):
                    hv = havocvars.get(key)
                    if hv is None or hv.sort != v.sort:
                        hv = havocvars[key] = t.fresh("L_" + str(key[-1]).strip("%").replace("%", ""), v.sort)
                    vars_[key] = (v, hv, hv)
                    subst_init[hv] = v
                    return hv
                if isinstance(v, tuple): raise Unsupported("aggregate loop variable")
                if isinstance(v, FnPtr): return v
                raise Unsupported("loop variable %r" % (v,))

            for x in phis: f.env[x.res] = hav(("phi", x.res), init[("phi", x.res)], x.ty)
            for w in sorted(modset, key=str):
                i = w[0]
                if w[1] == "arr":
                    o = self.wr(st, i)
                    if w[2] not in o.fields:
                        continue
                    s, a = o.fields[w[2]]
                    key = ("arr", i, w[2])
                    hv = havocvars.setdefault(key, t.fresh("LA_%s_%d" % (re.sub(r"\W", "_", o.name), w[2]), a.sort))
                    o.fields[w[2]] = (s, hv)
                    vars_[key] = (a, hv, hv); subst_init[hv] = a
                else:
                    o = self.wr(st, i)
                    off, sz = w[2], w[3]
                    if sz > 8 or (off in o.cells and o.cells[off][0] != sz) or any(k < off + sz and k + c[0] > off and not (k == off and c[0] == sz) for k, c in o.cells.items()):
                        # irregular: forget the bytes
                        for k in [k for k, c in o.cells.items() if k < off + sz and k + c[0] > off]: del o.cells[k]
                        o.zr = self.zr_cut(o.zr, off, off + sz)
                        continue
                    if off in o.cells: v = o.cells[off][1]
                    else:
                        if any(a <= off and off + sz <= b for a, b in o.zr):
                            srt = self.celltype.get((i, off, sz)) if hasattr(self, "celltype") else None
                            v = t.const(0, srt or "I")
                        else:
                            o.zr = self.zr_cut(o.zr, off, off + sz)
                            continue
                    try:
                        o.cells[off] = (sz, hav(("cell", i, off), v))
                    except Unsupported:
                        raise
            # invariants of cells whose sort differs on the back edge are handled by cell sort detection below
            if cands is None:
                cands = []
            for c in cands: st.pcs.append(c)
            st.frames[-1].block = header
            st.frames[-1].idx = len(phis)
            st.frames[-1].visits = dict(st.frames[-1].visits)
            c = LoopCtx(depth, fn, header, body)
            c.preobjs = set(st0.mem)
            self.recording = False
            exp0, self.exploring = self.exploring, self.exploring or not deltas_known
            self.ctxstack.append(c)
            try:
                outs_dummy = []
                self.explore([st], c)
            finally:
                self.ctxstack.pop()
                self.recording = rec0
                self.exploring = exp0
            # ---- new writes?
            nw = set()
            for w in c.writes:
                if w not in modset: nw.add(w)
            if nw:
                # cells written with another sort: remember
                for w in nw:
                    # a block whose element type is only known in the loop
                    if w[1] == "arr" and isinstance(st0.mem.get(w[0]), LazyBuf):
                        for b in c.backs + [x for x, _ in c.exits]:
                            if isinstance(b.mem.get(w[0]), Arr) and w[2] in b.mem[w[0]].fields:
                                o = b.mem[w[0]]
                                st0.mem[w[0]] = Arr(o.stride, {w[2]: (o.fields[w[2]][0], t.var("heap_%s_%d_%d" % (o.name, w[0], w[2]), o.fields[w[2]][1].sort))}, o.n, o.name)
                                break
                modset |= nw
                if not hasattr(self, "celltype"): self.celltype = {}
                for b in c.backs:
                    for w in nw:
                        if w[1] == "cell":
                            o = b.mem[w[0]]
                            v = o.cells.get(w[2])
                            if v and isinstance(v[1], T): self.celltype[(w[0], w[2], w[3])] = v[1].sort
                continue
            # ---- values at back edges
            backs, dead = [], []
            ok = True
            for b in c.backs:
                fb = b.frames[-1]
                m = {}
                if self.moved(b, phis, vars_, consts):
                    # a pointer points into another object, e.g. a reallocated buffer: the back edge has to be infeasible
                    dead.append(b)
                    continue
                for x in phis:
                    key = ("phi", x.res)
                    nv = self.val(b, x.ty, x.extra[fb.prev])
                    r = self.back_value(key, nv, vars_, stride, m)
                    if r == "restride": ok = False
                for key, (iv, cv, hv) in vars_.items():
                    if key[0] == "arr":
                        m[hv] = b.mem[key[1]].fields[key[2]][1]
                    elif key[0] == "cell":
                        o = b.mem[key[1]]
                        if key[2] not in o.cells: raise Unsupported("cell vanished")
                        r = self.back_value(key, o.cells[key[2]][1], vars_, stride, m)
                        if r == "restride": ok = False
                backs.append((b, m))
            if not ok:
                cands = None
                deltas_known = False
                continue
            if not deltas_known:
                # generate candidates once the shape is known
                deltas_known = True
                if self.exploring:
                    # an enclosing loop is only being explored for its writes and shape
                    cands = []
                    break
                L = LoopInfo(self, st0, st, fn, header, vars_, backs, c, stride, base_pcs)
                allc = L.auto_candidates()
                if self.inv: allc += [x for x in (self.inv(self, L) or [])]
                seen = set(); uniq = []
                for x in allc:
                    if x is TRUE or x is FALSE or x in seen: continue
                    seen.add(x); uniq.append(x)
                # initially true?
                cands = []
                # candidates that failed here before (same control path, contexts only get weaker): do not try again
                fkey = (tuple((c.fn.name, c.header) for c in self.ctxstack), fn.name, header, tuple(st0.trace))
                known = self.failed_cands.setdefault(fkey, {})
                text = {}
                for x in uniq: text.setdefault(canon(x), []).append(x)
                text = {v[0]: k for k, v in text.items() if len(v) == 1}
                for x in uniq:
                    if text.get(x) in known: continue
                    if pv.prove(base_pcs, t.subst(x, subst_init), self.inv_timeout, tactic=self.inv_tactic): cands.append(x)
                    elif x in text: known[text[x]] = 1
                if self.verbose: print("loop", fn.dem[:60], header, "cands", len(uniq), "init ok", len(cands))
                continue
            # ---- preservation
            bad = []
            for x in cands:
                for b, m in backs:
                    if not pv.prove(b.pcs, t.subst(x, m), self.inv_timeout, tactic=self.inv_tactic):
                        bad.append(x); break
            if self.verbose:
                for x in bad: print("   drop", t.show(x)[:150])
            for x in bad:
                if x in text: known[text[x]] = 1
            if bad:
                cands = [x for x in cands if x not in bad]
                continue
            # ---- stable
            for b in dead:
                if not pv.prove(b.pcs, FALSE, self.inv_timeout, tactic=self.inv_tactic): raise Unsupported("loop pointer changes object")
            if rec0:
                self.invariants.append((fn.dem, header, list(cands)))
                for x in cands:
                    self.obs.append(Ob(name="loop invariant established and preserved: %s" % t.show(x)[:120], kind="invariant", status="proved", backend="z3", time=0.0, goal=x))
            if self.verbose:
                print("  inv:", [t.show(x)[:200] for x in cands])
            break
        # final exploration with recording, producing exits
        if rec0:
            st = self.havoc_again(st0, header, phis, vars_, modset, cands, consts)
            c = LoopCtx(depth, fn, header, body)
            c.preobjs = set(st0.mem)
            self.ctxstack.append(c)
            try:
                self.explore([st], c)
            finally:
                self.ctxstack.pop()
        # outcomes inside the loop
        if ctx is not None: ctx.outs.extend(c.outs)
        else: self.pending_outs.extend(c.outs)
        res = []
        for s, b in c.exits:
            s.frames[-1].block = s.frames[-1].prev
            r = self.goto(s, b, ctx)
            if r is None: res.append(s)
            else: res.extend(r)
        return res

    def moved(self, b, phis, vars_, consts):
        """does a loop pointer point into another object on this back edge?"""
        fb = b.frames[-1]
        new = {("phi", x.res): self.val(b, x.ty, x.extra[fb.prev]) for x in phis}
        for key in list(vars_) + list(consts):
            if key[0] == "cell":
                o = b.mem.get(key[1])
                if o is not None and key[2] in o.cells: new[key] = o.cells[key[2]][1]
        for key, (iv, _, _) in vars_.items():
            if isinstance(iv, Ptr) and key in new and isinstance(new[key], Ptr) and new[key].obj != iv.obj: return True
        for key, v in consts.items():
            nv = new.get(key)
            if not isinstance(nv, Ptr) or nv.obj != 0 or t.cval(t.sub(nv.off, v.off)) != 0: return True
        return False

    def havoc_again(self, st0, header, phis, vars_, modset, cands, consts=()):
        st = st0.copy()
        f = st.frames[-1]
        for x in phis:
            key = ("phi", x.res)
            if key in vars_: f.env[x.res] = vars_[key][1]
            else: f.env[x.res] = self.val(st0, x.ty, x.extra[st0.frames[-1].block])
        for w in sorted(modset, key=str):
            i = w[0]
            o = self.wr(st, i)
            if w[1] == "arr":
                if ("arr", i, w[2]) in vars_: o.fields[w[2]] = (o.fields[w[2]][0], vars_[("arr", i, w[2])][1])
            else:
                off, sz = w[2], w[3]
                if ("cell", i, off) in consts: o.cells[off] = (sz, consts["cell", i, off])
                elif ("cell", i, off) in vars_: o.cells[off] = (sz, vars_[("cell", i, off)][1])
                else:
                    for k in [k for k, c in o.cells.items() if k < off + sz and k + c[0] > off]: del o.cells[k]
                    o.zr = self.zr_cut(o.zr, off, off + sz)
        st.pcs.extend(cands)
        f.block = header
        f.idx = len(phis)
        return st

    def back_value(self, key, nv, vars_, stride, m):
        if key not in vars_: return None
        iv, cv, hv = vars_[key]
        if isinstance(iv, Ptr):
            if not isinstance(nv, Ptr) or nv.obj != iv.obj: raise Unsupported("loop pointer changes object")
            d = t.sub(nv.off, iv.off)
            s = stride[key]
            p = t.pd(d)
            if any(c % s for c in p.values()):
                from math import gcd
                g = s
                for c in p.values(): g = gcd(g, abs(int(c)))
                stride[key] = g
                return "restride"
            m[hv] = t.from_pd({k: c // s for k, c in p.items()}, "I")
            return None
        if nv is UNDEF: nv = t.fresh("undef", hv.sort)
        if not isinstance(nv, T): raise Unsupported("loop variable becomes %r" % (nv,))
        if nv.sort != hv.sort:
            if hv.sort == "R" and nv.sort == "I": nv = t.toreal(nv)
            else: raise Unsupported("loop variable changes sort")
        m[hv] = nv
        return None

    def ptr_scale(self, fn, body, key, st0, v):
        o = st0.mem.get(v.obj)
        if o is not None and o.kind == "arr": return o.stride
        if key[0] == "phi":
            for b in body:
                for i in fn.blocks[b]:
                    if i.op == "getelementptr" and i.a[0][1] == ("loc", key[1]):
                        s = self.ty.size(i.ty)
                        if s > 1: return s
        return 8

    def run(self, fname, args, st):
        """explore from a fresh frame, restarting when a loop turns out to be unbounded"""
        while True:
            s = st.copy()
            self.obs = [o for o in self.obs if False]
            self.invariants = []
            self.pending_outs = []
            self.start(fname, args, s)
            try:
                outs = self.explore([s])
                return outs + self.pending_outs
            except NeedCut as e:
                if e.key in self.cut: raise Unsupported("loop cut failed")
                self.cut.add(e.key)
                self.ctxstack = []
                self.recording = True
                if self.verbose: print("cutting loop", e.key)


class LoopInfo:
    """what a contract sees of a loop when proposing invariant candidates"""

    def __init__(self, ex, st0, st, fn, header, vars_, backs, ctx, stride, base_pcs):
        self.ex, self.st0, self.st, self.fn, self.header, self.vars, self.backs, self.ctx, self.stride = ex, st0, st, fn, header, vars_, backs, ctx, stride
        self.base_pcs = base_pcs
        # integer-like: (key, init term, current term, havoc var); pointers as element indices into their object
        self.ints, self.ptrs, self.reals, self.bools, self.arrs = [], [], [], [], []
        for k, (iv, cv, hv) in vars_.items():
            if isinstance(iv, Ptr):
                o = st0.mem.get(iv.obj)
                s = o.stride if o is not None and o.kind == "arr" else stride[k]
                d = t.pd(iv.off)
                ok = all(c % s == 0 for c in d.values()) and stride[k] % s == 0
                if ok:
                    i0 = t.from_pd({m: c // s for m, c in d.items()}, "I")
                    self.ptrs.append((k, iv.obj, i0, t.add(i0, t.mul(hv, stride[k] // s)), hv))
                else: self.ptrs.append((k, iv.obj, None, hv, hv))
            elif hv.sort == "I": self.ints.append((k, iv, hv, hv))
            elif hv.sort in ("R", "F64", "F32"): self.reals.append((k, iv, hv, hv))
            elif hv.sort == "B": self.bools.append((k, iv, hv, hv))
            elif hv.sort[0] == "A": self.arrs.append((k, iv, hv, hv))

    def positions(self):
        """all index-like loop variables: (obj or None, init, cur)"""
        return [(None, i, c) for _, i, c, _ in self.ints] + [(o, i, c) for _, o, i, c, _ in self.ptrs if i is not None]

    def arr(self, objid, field=0):
        """(array term at loop entry, array term in the arbitrary iteration)"""
        o0 = self.st0.mem[objid].fields[field][1]
        o1 = self.st.mem[objid].fields[field][1]
        return o0, o1

    def auto_candidates(self):
        out = []
        il = [(k, iv, hv) for k, iv, _, hv in self.ints] + [(k, t.const(0), hv) for k, o, _, _, hv in self.ptrs]
        deltas = {}
        for k, iv, hv in il:
            ds = set()
            for b, m in self.backs:
                d = t.cval(t.sub(m[hv], hv))
                ds.add(d)
            deltas[k] = ds
        steps = sorted({abs(d) for ds in deltas.values() for d in ds if d})[:4] or [1]
        for k, iv, hv in il:
            out += [t.ge(hv, iv), t.le(hv, iv)]
            ds = deltas[k]
            if len(ds) == 1 and None not in ds:
                d = next(iter(ds))
                if d and abs(d) > 1:
                    pass
        for a in range(len(il)):
            for b in range(a):
                (ka, ia, ha), (kb, ib, hb) = il[a], il[b]
                da, db = deltas[ka], deltas[kb]
                if len(self.backs) == 0 or None in da or None in db: continue
                pairs = {(t.cval(t.sub(m[ha], ha)), t.cval(t.sub(m[hb], hb))) for _, m in self.backs}
                if len(pairs) == 1:
                    x, y = next(iter(pairs))
                    if x or y:
                        out.append(t.eq(t.mul(y, t.sub(ha, ia)), t.mul(x, t.sub(hb, ib))))
        hvs = {hv for _, _, hv in il}
        base = set(self.base_pcs)
        n0 = len(self.st.pcs)
        conds = []
        seen = set()
        for b, m in self.backs:
            for p in b.pcs: 
                if p not in base and p not in seen: seen.add(p); conds.append(p)
        for s, b in self.ctx.exits:
            for p in s.pcs:
                if p not in base and p not in seen: seen.add(p); conds.append(p)
        for o in self.ctx.outs:
            for p in o.st.pcs:
                if p not in base and p not in seen: seen.add(p); conds.append(p)
        flat = []
        for p in conds:
            q = [p]
            while q:
                x = q.pop()
                if x.op in ("and", "or"): q.extend(x.args)
                elif x.op == "not": q.append(x.args[0])
                else: flat.append(x)
        for p in flat:
            if p.op not in ("le0", "eq0"): continue
            q = p.args[0]
            if q.sort != "I": continue
            fv = t.free_vars(q)
            if not (fv & hvs): continue
            if any(x.op in ("select", "uf", "ite") for x in t.atoms(q)): continue
            if any("!" in v.args[0] and v not in hvs and v.args[0].startswith("L_") is False and not self.known(v) for v in fv): continue
            for sgn in (1, -1):
                r = t.mul(q, sgn)
                out.append(t.le(r, 0))
                for s in steps[:2]: out.append(t.le(t.sub(r, s), 0))
        return out[:400]

    def known(self, v):
        return True
