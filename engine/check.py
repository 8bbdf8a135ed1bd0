#!/usr/bin/env python3-vt
"""Driver: builds the harness from /repo's current tree, discharges all obligations of one property, replays failures."""
import sys, os, json, time, random, ctypes, subprocess, pickle, struct, traceback, multiprocessing, importlib, math, itertools, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts"))
if __name__ == "__main__": sys.modules["check"] = sys.modules["__main__"]
from fractions import Fraction
import term as t
import build, prover as pv, ir, symex
from symex import Exec, State, Cells, Arr, Ptr, Unsupported

VERIF = build.VERIF
ELEM = {"i64": (8, "I", ctypes.c_int64), "i32": (4, "I", ctypes.c_int32), "u8": (1, "I", ctypes.c_uint8), "i8": (1, "I", ctypes.c_int8), "f64": (8, "R", ctypes.c_double),
        "f32": (4, "R", ctypes.c_float), "bool": (1, "B", ctypes.c_bool), "u64": (8, "I", ctypes.c_uint64), "i16": (2, "I", ctypes.c_int16), "u16": (2, "I", ctypes.c_uint16)}
BITS = {"i64": 64, "i32": 32, "u8": 8, "i8": 8, "u64": 64, "i16": 16, "u16": 16}


class Arg:
    """kind: scalar | in | out | io.  n: int (fixed), or function(env)->Int term (symbolic length), maxn for concrete buffers"""

    def __init__(self, name, elem, kind="scalar", n=None, gen=None):
        self.name, self.elem, self.kind, self.n, self.gen = name, elem, kind, n, gen


def S(name, elem="i64", gen=None): return Arg(name, elem, "scalar", None, gen)
def In(name, elem, n, gen=None): return Arg(name, elem, "in", n, gen)
def Out(name, elem, n): return Arg(name, elem, "out", n)
def IO(name, elem, n, gen=None): return Arg(name, elem, "io", n, gen)


class BufView:
    def __init__(self, f, n): self.f, self.n = f, n
    def __call__(self, i): return self.f(i)
    def list(self): return [self.f(i) for i in range(t.cval(self.n) if not isinstance(self.n, int) else self.n)]


class Env:
    """contract-side view of one call: v.name is a term (scalar) or BufView"""

    def __init__(self): self.__dict__["d"] = {}
    def __getattr__(self, k):
        try: return self.__dict__["d"][k]
        except KeyError: raise AttributeError(k)
    def __getitem__(self, k): return self.d[k]
    def __setitem__(self, k, v): self.d[k] = v


class Entry:
    def __init__(self, fn, args, post, pre=None, name=None, gen=None, ieee=False, inv=None, contracts=(), ret=None, opts=None, about="", search=1500, exhaustive=None,
                 throws=None, setup=None, tol=None, covers=(), bounded=None, under=()):
        self.fn, self.args, self.post, self.pre, self.gen = fn, args, post, pre, gen
        self.name = name or fn
        self.ieee, self.inv, self.contracts, self.ret, self.opts, self.about = ieee, inv, contracts, ret, opts or {}, about
        self.search, self.exhaustive, self.throws, self.setup, self.covers, self.bounded, self.under = search, exhaustive, throws, setup, covers, bounded, under


CONCRETE = [False]


def approx(a, b, rel=1e-9, abs_=1e-12):
    """equality in real arithmetic; when evaluated on a concrete run of the real code: up to rounding"""
    a, b = t.lift(a), t.lift(b)
    x, y = t.cval(a), t.cval(b)
    if CONCRETE[0] and x is not None and y is not None:
        return t.lift(abs(x - y) <= rel * max(abs(x), abs(y)) + abs_)
    return t.eq(a, b)


def forall(lo, hi, f):
    a, b = t.cval(t.lift(lo)), t.cval(t.lift(hi))
    if a is not None and b is not None and b - a < 5000: return t.And(*[f(t.const(k)) for k in range(a, b)])
    return t.forall_range(t.lift(lo), t.lift(hi), f)


def exists_concrete(lo, hi, f):
    return t.Or(*[f(t.const(k)) for k in range(lo, hi)])


def fconst(x, elem):
    """concrete float -> ieee constant term"""
    if elem == "f64": return t.mk("fpconst", (struct.unpack("<Q", struct.pack("<d", x))[0], "F64"), "F64")
    return t.mk("fpconst", (struct.unpack("<I", struct.pack("<f", x))[0], "F32"), "F32")


def fsort(e, entry):
    s = ELEM[e.elem][1]
    if s == "R" and entry.ieee: return "F64" if e.elem == "f64" else "F32"
    return s


# ------------------------------------------------------------------------------- symbolic side
def sym_setup(entry, ex):
    st = State()
    v = Env()
    args = []
    pcs = []
    objs = {}
    for a in entry.args:
        if a.kind == "scalar": v[a.name] = t.var(a.name, fsort(a, entry))
    for a in entry.args:
        sz, _, _ = ELEM[a.elem]
        s = fsort(a, entry)
        if a.kind == "scalar":
            x = v[a.name]
            args.append(x)
            if a.elem in BITS:
                b = BITS[a.elem]
                if a.elem[0] == "u" and b < 64: pcs += [t.ge(x, 0), t.lt(x, 1 << b)]
                else: pcs += [t.ge(x, -(1 << (b - 1))), t.lt(x, 1 << (b - 1))]
            continue
        n = a.n
        if callable(n): n = n(v)
        if isinstance(n, t.T) and t.cval(n) is not None: n = int(t.cval(n))
        if isinstance(n, int):
            o = Cells(sz * n, a.name)
            i = ex.new_obj(st, o)
            names = [t.var("%s[%d]" % (a.name, k), s) for k in range(n)]
            if a.kind in ("in", "io"):
                for k in range(n):
                    o.cells[k * sz] = (sz, names[k])
                    if a.elem in BITS and a.elem[0] != "u":
                        b = BITS[a.elem]
                        pcs += [t.ge(names[k], -(1 << (b - 1))), t.lt(names[k], 1 << (b - 1))]
                    elif a.elem in ("u8", "u16"): pcs += [t.ge(names[k], 0), t.lt(names[k], 1 << BITS[a.elem])]
            if a.kind == "in": o.readonly = True
            args.append(Ptr(i, 0))
            v[a.name] = BufView((lambda names: lambda k: names[t.cval(k) if isinstance(k, t.T) else k])(names), n)
        else:
            if s == "B": s = "I"
            arr = t.var(a.name, "A" + s)
            o = Arr(sz, {0: (sz, arr)}, n, a.name)
            if a.kind == "in": o.readonly = True
            i = ex.new_obj(st, o)
            args.append(Ptr(i, 0))
            v[a.name] = BufView((lambda arr: lambda k: t.select(arr, k))(arr), n)
            v["%s_arr" % a.name] = arr
        objs[a.name] = i
    ex.argobj = objs
    st.pcs = pcs
    if entry.setup: entry.setup(ex, st, v)
    if entry.pre:
        for p in entry.pre(v):
            p = t.lift(p)
            st.pcs.extend(p.args if p.op == "and" else [p])
    return st, v, args


def out_view(entry, ex, v, oc):
    o = Env()
    o["kind"] = oc.kind
    o["ti"] = oc.ti
    o["ret"] = oc.val
    o["st"] = oc.st
    for a in entry.args:
        if a.kind in ("out", "io"):
            i = ex.argobj[a.name]
            ob = oc.st.mem[i]
            sz = ELEM[a.elem][0]
            if ob.kind == "cells":
                def get(k, ob=ob, sz=sz, a=a):
                    k = t.cval(k) if isinstance(k, t.T) else k
                    c = ob.cells.get(k * sz)
                    if c is None or c[0] != sz:
                        ty = {"f64": ("double",), "f32": ("float",)}.get(a.elem, ("i", sz * 8))
                        r = ex.load_cell(oc.st, ob, k * sz, ty)
                    else: r = c[1]
                    if r is symex.UNDEF: r = t.fresh("undef", fsort(a, entry))
                    if isinstance(r, t.T) and r.sort == "B": r = t.ite(r, 1, 0)
                    return r
                o[a.name] = BufView(get, ob.size // sz)
            else:
                arr = ob.fields[0][1]
                o[a.name] = BufView((lambda arr: lambda k: t.select(arr, k))(arr), ob.n)
                o["%s_arr" % a.name] = arr
    return o


def verify_entry(mod, entry, prop, deadline):
    t0 = time.time()
    res = {"entry": entry.name, "fn": entry.fn, "status": "proved", "obs": [], "fails": [], "called": [], "contracts": [], "invariants": [], "assumed": [], "paths": 0, "about": entry.about}
    opts = dict(entry.opts)
    opts.setdefault("deadline", deadline)
    ex = Exec(mod, contracts=list(entry.contracts), fp="ieee" if entry.ieee else "real", inv=entry.inv, **opts)
    try:
        st, v, args = sym_setup(entry, ex)
        # vacuity: the precondition is satisfiable
        base = list(st.pcs)
        f = pv.Feas(10.0)
        if not f.check(base): raise Unsupported("precondition is contradictory")
        ex.argobj0 = dict(ex.argobj)
        outs = ex.run(entry.fn, args, st)
        nret = 0
        for oc in outs:
            o = out_view(entry, ex, v, oc)
            if oc.kind == "throw" and entry.throws is None:
                ex.oblige("no exception (%s)" % oc.ti, "post", oc.st, t.FALSE)
                continue
            nret += 1
            goals = entry.throws(v, o) if oc.kind == "throw" else entry.post(v, o)
            for g in goals:
                nm, g = g if isinstance(g, tuple) else ("postcondition", g)
                ex.oblige(nm, "post", oc.st, g)
        res["returns"] = nret
        if nret == 0: res["fails"].append({"name": "some execution returns (vacuity)", "kind": "vacuity", "status": "unknown", "goal": "", "reason": "no path reaches a postcondition"})
        # solvers that gave up (machine load): once more with more time
        unk = [ob for ob in ex.obs if ob.status == "unknown" and ob.hyps is not None]
        if 0 < len(unk) <= 6 and not _G.get("settled"):
            pv._cache.clear()
            for ob in unk:
                left = deadline - time.time()
                if left < 5: break
                r = pv.prove(ob.hyps, ob.goal, min(3 * ex.timeout, left, 90.0), tactic=ex.tactic)
                if r.status != "unknown": ob.status, ob.backend, ob.time, ob.model, ob.reason = r.status, r.backend, r.time, r.model, r.reason
        for ob in ex.obs:
            res["obs"].append((ob.name, ob.kind, ob.status, ob.backend, round(ob.time, 4)))
            if ob.status != "proved":
                mdl = None
                if ob.model is not None:
                    try: mdl = model_inputs(entry, v, ob.model)
                    except Exception as e: mdl = None
                res["fails"].append({"name": ob.name, "kind": ob.kind, "status": ob.status, "goal": t.show(ob.goal)[:1500], "reason": ob.reason, "model": mdl,
                                     "path": [t.show(p)[:200] for p in (ob.hyps or [])[-25:]]})
    except Unsupported as e:
        res["status"] = "undecided"
        res["reason"] = str(e)
    except Exception as e:
        res["status"] = "undecided"
        res["reason"] = "engine: " + "".join(traceback.format_exception_only(type(e), e))[-300:] + traceback.format_exc()[-1500:]
    if res["fails"] and res["status"] == "proved": res["status"] = "failed"
    res["called"] = sorted(ex.called)
    res["contracts"] = sorted(ex.used_contracts)
    res["invariants"] = [(a, b, [t.show(c)[:300] for c in cs]) for a, b, cs in ex.invariants]
    res["assumed"] = sorted(ex.assumed)
    res["paths"] = ex.paths
    res["wall"] = time.time() - t0
    res["stats"] = dict(pv.STATS)
    return res


def model_inputs(entry, v, m):
    d = {}
    for a in entry.args:
        if a.kind == "out": continue
        if a.kind == "scalar":
            x = pv.mval(m, v[a.name])
            d[a.name] = x
        else:
            b = v[a.name]
            n = b.n if isinstance(b.n, int) else int(pv.mval(m, b.n))
            n = max(0, min(n, 200))
            d[a.name] = [pv.mval(m, b(t.const(k))) for k in range(n)]
    # make JSON/ctypes friendly
    for a in entry.args:
        if a.name not in d: continue
        def cv(x):
            if ELEM[a.elem][1] == "R": return float(x)
            if ELEM[a.elem][1] == "B": return bool(x)
            return int(x)
        d[a.name] = [cv(x) for x in d[a.name]] if isinstance(d[a.name], list) else cv(d[a.name])
    return d


# ------------------------------------------------------------------------------- concrete side
def conc_env(entry, inp):
    v = Env()
    for a in entry.args:
        if a.kind == "scalar": v[a.name] = conc_term(a, inp[a.name], entry)
    for a in entry.args:
        if a.kind == "scalar": continue
        elif a.kind in ("in", "io"):
            vals = [conc_term(a, x, entry) for x in inp[a.name]]
            v[a.name] = BufView((lambda vals: lambda k: pick(vals, k))(vals), len(vals))
            if vals or True:
                s = fsort(a, entry)
                v["%s_arr" % a.name] = t.mk("lit", tuple(vals), "A" + ("I" if s == "B" else s))
        else:
            n = a.n(v) if callable(a.n) else a.n
            v[a.name] = BufView(None, int(t.cval(t.lift(n))))
    return v


def pick(vals, k):
    k = t.cval(k) if isinstance(k, t.T) else k
    if k is None or not (0 <= k < len(vals)): return t.fresh("oob")
    return vals[k]


def conc_term(a, x, entry):
    s = ELEM[a.elem][1]
    if s == "B": return t.lift(bool(x))
    if s == "I": return t.const(int(x))
    if entry.ieee: return fconst(float(x), a.elem)
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")): return t.var("nonfinite_%r" % x, "R")
    return t.const(Fraction(x), "R")


def conc_pre(entry, inp):
    old, CONCRETE[0] = CONCRETE[0], True
    try:
        v = conc_env(entry, inp)
        if entry.pre:
            for p in entry.pre(v):
                p = fold(t.lift(p))
                if p is not t.TRUE: return False
        return True
    except (IndexError, KeyError, TypeError):
        return False
    finally: CONCRETE[0] = old


def fold(p):
    if p is t.TRUE or p is t.FALSE: return p
    # evaluate remaining ground terms with z3
    if not any(True for x in t.free_vars(p)) or True:
        import z3
        z = z3.simplify(pv.zterm(p))
        if z3.is_true(z): return t.TRUE
        if z3.is_false(z): return t.FALSE
        s = z3.Solver(); s.set("timeout", 2000)
        s.add(z3.Not(z))
        for f in pv.side_facts([p]): s.add(pv.zterm(f))
        if s.check() == z3.unsat: return t.TRUE
        s = z3.Solver(); s.set("timeout", 2000); s.add(z)
        for f in pv.side_facts([p]): s.add(pv.zterm(f))
        if s.check() == z3.unsat: return t.FALSE
    return p


WORKER = r'''
import sys, ctypes, pickle, os, signal
so, path = sys.argv[1], sys.argv[2]
lib = ctypes.CDLL(so)
CT = {"i64": ctypes.c_int64, "i32": ctypes.c_int32, "u8": ctypes.c_uint8, "i8": ctypes.c_int8, "f64": ctypes.c_double, "f32": ctypes.c_float, "bool": ctypes.c_bool, "u64": ctypes.c_uint64, "i16": ctypes.c_int16, "u16": ctypes.c_uint16, "void": None}
fn, args, ret, inputs = pickle.load(open(path, "rb"))
f = getattr(lib, fn)
f.restype = CT[ret]
out = os.fdopen(int(sys.argv[3]), "wb")
PAD = 64
for k, inp in enumerate(inputs):
    pickle.dump(("start", k), out); out.flush()
    cargs = []; bufs = {}
    for name, elem, kind, n in args:
        c = CT[elem]
        if kind == "scalar": cargs.append(c(inp[name])); continue
        if kind in ("in", "io"):
            vals = inp[name]
            b = (c * (len(vals) + PAD))(*vals); m = len(vals)
        else:
            m = inp["#" + name]
            b = (c * (m + PAD))()
        # canary after the buffer
        raw = (ctypes.c_char * ctypes.sizeof(b)).from_buffer(b)
        es = ctypes.sizeof(c)
        raw[m * es:] = b"\xA5" * (PAD * es)
        if kind == "out": raw[:m * es] = b"\x5A" * (m * es)
        bufs[name] = (b, m, kind, raw, es)
        cargs.append(ctypes.byref(b))
    signal.alarm(10)
    r = f(*cargs)
    signal.alarm(0)
    res = {}
    bad = []
    for name, (b, m, kind, raw, es) in bufs.items():
        if raw[m * es:] != b"\xA5" * (PAD * es): bad.append(name)
        if kind == "in":
            if list(b[:m]) != list((type(b))(*inp[name])[:m]) and not any(x != x for x in b[:m] if isinstance(x, float)): bad.append(name + " (input modified)")
        else: res[name] = list(b[:m])
    pickle.dump(("done", k, r, res, bad), out); out.flush()
'''


def conc_run(so, entry, inputs, timeout=60):
    """runs the real code; yields (input, result dict | None, why)"""
    import tempfile
    ins = []
    for inp in inputs:
        inp = dict(inp)
        v = conc_env(entry, inp)
        for a in entry.args:
            if a.kind == "out": inp["#" + a.name] = v[a.name].n
        ins.append(inp)
    args = [(a.name, a.elem, a.kind, None) for a in entry.args]
    results = []
    start = 0
    while start < len(ins):
        with tempfile.NamedTemporaryFile(delete=False) as f:
            pickle.dump((entry.fn, args, entry.ret or "void", ins[start:]), f)
        r, w = os.pipe()
        os.set_inheritable(w, True)
        p = subprocess.Popen([sys.executable, "-c", WORKER, so, f.name, str(w)], pass_fds=[w], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        os.close(w)
        last = None
        fh = os.fdopen(r, "rb")
        n0 = len(results)
        try:
            while True:
                m = pickle.load(fh)
                if m[0] == "start": last = m[1]
                else:
                    results.append((inputs[start + m[1]], {"ret": m[2], "out": m[3], "bad": m[4]}, None))
        except EOFError:
            pass
        except Exception:
            pass
        fh.close()
        err = p.stderr.read().decode(errors="replace")[-400:]
        rc = p.wait()
        os.unlink(f.name)
        done = len(results) - n0
        if rc == 0 and done == len(ins) - start: break
        if last is None or done > last:  # worker problem, not the code
            raise RuntimeError("replay worker failed: rc=%s %s" % (rc, err))
        results.append((inputs[start + last], None, "abnormal termination (signal/exit %s) %s" % (rc, err.strip()[:200])))
        start = start + last + 1
        if sum(1 for x in results if x[1] is None) > 3: break
    return results


def conc_check(entry, inp, res, why):
    """returns list of violated obligation names"""
    if res is None: return [why]
    if res["bad"]: return ["wrote outside / modified input: %s" % res["bad"]]
    CONCRETE[0] = True
    try:
        v = conc_env(entry, inp)
        o = Env()
        o["kind"], o["ti"] = "ret", None
        ra = Arg("ret", entry.ret or "i64")
        o["ret"] = conc_term(ra, res["ret"], entry) if res["ret"] is not None else None
        for a in entry.args:
            if a.kind in ("out", "io"):
                vals = [conc_term(a, x, entry) for x in res["out"][a.name]]
                o[a.name] = BufView((lambda vals: lambda k: pick(vals, k))(vals), len(vals))
                s = fsort(a, entry)
                o["%s_arr" % a.name] = t.mk("lit", tuple(vals), "A" + ("I" if s == "B" else s))
        bad = []
        for g in entry.post(v, o):
            nm, g = g if isinstance(g, tuple) else ("postcondition", g)
            g = fold(t.lift(g))
            if g is t.FALSE: bad.append(nm)
        return bad
    finally:
        CONCRETE[0] = False


def default_scalar(a, rng):
    k = ELEM[a.elem][1]
    if a.gen: return a.gen(rng)
    if k == "B": return rng.random() < 0.5
    if k == "I":
        if a.elem in ("u8",): return rng.choice([0, 1, 2, 5, 255])
        b = BITS[a.elem]
        return rng.choice([rng.randint(-8, 8), rng.randint(-8, 8), rng.randint(0, 40), rng.randint(-(1 << (b - 1)), (1 << (b - 1)) - 1), rng.choice([0, 1, -1, (1 << (b - 1)) - 1, -(1 << (b - 1))])])
    x = rng.choice([float(rng.randint(-6, 6)), rng.uniform(-10, 10), rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, -2.5]), rng.uniform(-1e6, 1e6)])
    if entry_is_ieee[0]: x = rng.choice([x, x, rng.choice([float("nan"), float("inf"), float("-inf"), 0.0, -0.0, 5e-324, 1.7976931348623157e308])])
    if a.elem == "f32": x = struct.unpack("<f", struct.pack("<f", max(min(x, 3e38), -3e38) if x == x and abs(x) != float("inf") else x))[0]
    return x


entry_is_ieee = [False]


def default_gen(entry, rng):
    entry_is_ieee[0] = entry.ieee
    d = {}
    v = Env()
    for a in entry.args:
        if a.kind == "scalar":
            d[a.name] = default_scalar(a, rng)
            v[a.name] = conc_term(a, d[a.name], entry)
    for a in entry.args:
        if a.kind in ("in", "io"):
            n = a.n(v) if callable(a.n) else a.n
            n = t.cval(t.lift(n))
            n = max(0, min(n, 64))
            d[a.name] = [default_scalar(a, rng) for _ in range(n)]
    return d


def inputs_for(entry, rng, count):
    out = []
    tries = 0
    it = None
    if entry.exhaustive:
        it = iter(entry.exhaustive())
    while len(out) < count and tries < count * 20:
        tries += 1
        inp = None
        if it is not None:
            inp = next(it, None)
            if inp is None: it = None
        if inp is None:
            try: inp = entry.gen(rng) if entry.gen else default_gen(entry, rng)
            except Exception as e:
                raise
        if conc_pre(entry, inp): out.append(inp)
    return out


def search(so, entry, seed, models, count, tmax=90):
    """look for a failing input on the real code"""
    rng = random.Random(seed)
    ins = [m for m in models if m and conc_pre(entry, m)]
    t0 = time.time()
    tested = 0
    batch = ins
    nb = 0
    while True:
        if batch:
            for inp, res, why in conc_run(so, entry, batch):
                tested += 1
                bad = conc_check(entry, inp, res, why)
                if bad: return inp, res, bad, tested
        if tested >= count or time.time() - t0 > tmax: return None, None, None, tested
        batch = inputs_for(entry, rng, min(200, count - tested))
        if entry.exhaustive and nb == 0:
            import itertools as itl
            batch = [x for x in itl.islice(entry.exhaustive(), 4000) if conc_pre(entry, x)] + batch
            nb = 1
        if not batch: return None, None, None, tested


_G = {}


def _job(i):
    """one entry: evaluate its contract on the real code for a few inputs, then prove it for all, then (if the proof fails) search for an input"""
    e, so, seed, tier = _G["entries"][i], _G["so"], _G["seed"], _G["tier"]
    found, err, tested = None, None, 0
    n = e.search if (e.bounded or tier == "thorough") else min(60, e.search)
    try:
        inp, res, bad, tested = search(so, e, seed, [], n, 40 if tier == "quick" else 300)
        if bad: found = (inp, res, bad)
    except Exception as ex:
        err = str(ex)[:300]
        if "-v" in sys.argv: traceback.print_exc()
    if found: _G["flag"].value = 1
    now = time.time()
    lim = _G["limit"]
    # once a violation is known the verdict is settled: the remaining proofs only add detail
    lim = min(lim, 15.0 if found else 40.0) if _G["flag"].value else lim
    lim = max(10.0, min(lim, _G["deadline"] - now))
    _G["settled"] = bool(_G["flag"].value)
    r = verify_entry(_G["mod"], e, _G["prop"], now + lim)
    if not found and r["status"] != "proved":
        try:
            left = max(15.0, min(60.0, _G["deadline"] + 60 - time.time()))
            inp, res, bad, k = search(so, e, seed + 1, [f.get("model") for f in r["fails"]], e.search, left if tier == "quick" else 300)
            tested += k
            if bad: found = (inp, res, bad); _G["flag"].value = 1
        except Exception as ex:
            err = str(ex)[:300]
            if "-v" in sys.argv: traceback.print_exc()
    if err: r["replay_error"] = err
    r["found"], r["tested"] = found, tested
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = [x for x in sys.argv[2:] if not x.startswith("-")]
    t0 = time.time()
    os.chdir(VERIF)
    spec = importlib.import_module(prop)
    bdir = os.path.join(VERIF, "build", prop)
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, prop)
    src = os.path.join(VERIF, "contracts", prop + ".cpp")
    entries = spec.entries(tier)
    allfns = sorted({e.fn for e in entries} | set(getattr(spec, "EXTRA_FNS", [])))
    if only: entries = [e for e in entries if any(o in e.name for o in only)]
    try:
        import threading
        box = {}

        def bso():
            try: box["so"] = build.build_so(src, out, defines=getattr(spec, "DEFINES", ()))
            except BaseException as ex: box["err"] = ex
        th = threading.Thread(target=bso); th.start()
        try: ll = build.build_ir(src, out, allfns, opaque=getattr(spec, "OPAQUE", ""), defines=getattr(spec, "DEFINES", ()))
        finally: th.join()
        if "err" in box: raise box["err"]
        so = box["so"]
        mod = ir.Module(open(ll).read())
    except build.BuildError as e:
        print("ERROR: extraction of the code under contract failed for %s\n%s" % (prop, str(e)[-3000:]))
        return 2
    tb = time.time() - t0
    import multiprocessing as mp
    _G.update(so=so, seed=seed, tier=tier, flag=mp.Value("i", 0), deadline=t0 + (480 if tier == "quick" else 5000))
    _G.update(entries=entries, mod=mod, prop=prop, limit=float(os.environ.get("VERIF_ENTRY_LIMIT", "420" if tier == "quick" else "1800")))
    for f in mod.fns.values(): f.analyse()
    ctx = mp.get_context("fork")
    order = sorted(range(len(entries)), key=lambda i: -entries[i].opts.get("weight", 1) if False else i)
    if len(entries) == 1 or "-s" in sys.argv:
        results = [_job(i) for i in range(len(entries))]
    else:
        with ctx.Pool(min(8, len(entries)), maxtasksperchild=8) as pool:
            results = pool.map(_job, range(len(entries)), chunksize=1)
    violations = []
    known = load_known(prop)
    obligations = discharged = 0
    bounded = []
    backends = {}
    rtc = 0
    samples = []
    for e, r in zip(entries, results):
        obligations += len(r["obs"]) + (1 if r["status"] == "undecided" else 0)
        discharged += sum(1 for o in r["obs"] if o[2] == "proved")
        for o in r["obs"]:
            if o[2] == "proved": backends[o[3]] = backends.get(o[3], 0) + 1
        inp, res, bad = r["found"] or (None, None, None)
        tested = r["tested"]
        rtc += tested
        if bad:
            violations.append((e, r, inp, res, bad))
        elif r["status"] == "failed":
            violations.append((e, r, None, None, [f["name"] for f in r["fails"]]))
        elif r["status"] == "undecided" and not e.bounded:
            r["fails"].append({"name": "verification conditions of %s" % e.name, "kind": "unsupported", "status": "unknown", "goal": "", "reason": r.get("reason", "")})
            violations.append((e, r, None, None, ["verification conditions could not be generated: " + r.get("reason", "")[:200]]))
        elif r["status"] == "undecided":
            bounded.append({"entry": e.name, "reason": r["reason"][:600], "inputs_tried": tested})
        if "-v" in sys.argv or r["status"] != "proved":
            print("%-40s %-10s obs=%d paths=%d %.1fs %s" % (e.name, r["status"], len(r["obs"]), r["paths"], r["wall"], r.get("reason", "")[:1500]))
            for f in r["fails"][:3 if "-v" not in sys.argv else 12]:
                print("   FAILED %s [%s] %s %s" % (f["name"], f["status"], f["goal"][:300], f.get("model")))
    # other, spec-specific stages (e.g. exhaustive tables)
    extra = getattr(spec, "extra_checks", None)
    extra_ev = {}
    if extra:
        for name, ok, info, inp in extra(mod, so, tier, seed):
            obligations += 1
            discharged += bool(ok)
            extra_ev[name] = info
            if not ok: violations.append((None, {"entry": name, "fails": [{"name": name, "reason": info}], "called": []}, inp, None, [name]))
    code = 0
    rdir = os.path.join(VERIF, "replay")
    nv = 0
    violations.sort(key=lambda x: x[2] is None)
    for e, r, inp, res, bad in violations:
        ent = r["entry"]
        kf = next((k for k in known if k["entry"] == ent and any(k["obligation"] in b for b in bad)), None)
        if kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join("replay", "%s-%s.json" % (prop, ent))
        json.dump({"property": prop, "entry": ent, "harness_function": e.fn if e else None, "violated": bad, "input": inp, "observed": res,
                   "failed_obligations": r["fails"][:10], "functions": r.get("called", [])[:50],
                   "reproduce": "python3-vt engine/replay.py %s" % path}, open(os.path.join(VERIF, path), "w"), indent=1, default=str)
        if inp is None and nv and violations[0][2] is not None: print("also not discharged: %s (%s)" % (ent, path))
        else: print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if inp is not None else " no-failing-input-found"))
        print("   %s: %s" % (ent, "; ".join(map(str, bad))[:400]))
        nv += 1
        code = 1
    called = sorted({c for r in results for c in r["called"]})
    contracts = sorted({c for r in results for c in r["contracts"]})
    assumptions = list(getattr(spec, "ASSUMPTIONS", [])) + sorted({a for r in results for a in r["assumed"]})
    invs = [i for r in results for i in r["invariants"]]
    level = getattr(spec, "LEVEL", "proof")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {"obligations": obligations, "discharged": discharged,
                       "checker_cmd": "python3-vt engine/check.py %s" % prop,
                       "trusted_base": ["clang 18 front end and opt passes inline/sroa/early-cse/simplifycfg (lowering of the real sources to LLVM IR)",
                                        "this verifier's LLVM IR semantics (engine/symex.py)", "z3 5 / cvc5"] + list(getattr(spec, "TRUSTED", [])),
                       "explanation": getattr(spec, "EXPLANATION", "each harness function is executed symbolically for all inputs allowed by its precondition; loops are unrolled completely when bounded by the maximum rank and cut by inductive invariants otherwise; every obligation goes to the solvers"),
                       "discharged_by": backends, "functions_under_contract": len(called), "function_names": called[:200],
                       "entries": [{"entry": r["entry"], "status": r["status"], "obligations": len(r["obs"]), "paths": r["paths"], "wall_s": round(r["wall"], 2), "about": r["about"]} for r in results],
                       "loop_invariants": [{"function": a[:120], "invariants": c} for a, b, c in invs][:60],
                       "contracts_assumed_at_calls": contracts, "bounded_stand_ins": bounded, "runtime_contract_evaluations": rtc,
                       "solver_time_s": round(sum(r["stats"]["time"] + r["stats"]["feas_time"] for r in results), 2), "extraction_s": round(tb, 2), "extra": extra_ev},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nv}
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged over %d entries, %d functions, %d run-time evaluations, %.1fs%s" % (
        prop, discharged, obligations, len(entries), len(called), rtc, time.time() - t0, "" if not bounded else ", bounded stand-ins: %s" % [b["entry"] for b in bounded]))
    if obligations == 0:
        print("ERROR: no obligations generated")
        return 2
    return code


def load_known(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = json.loads(l[len("finding:"):])
                if d["property"] == prop: out.append(d)
    return out


if __name__ == "__main__":
    sys.exit(main())
