"""Obligation discharge: term layer -> z3 (primary) / cvc5 (fallback through SMT-LIB)."""
import time, subprocess, os, tempfile
from fractions import Fraction
import z3
import term as t
from term import T

STATS = {"queries": 0, "time": 0.0, "feas": 0, "feas_time": 0.0, "cvc5": 0}

SORTS = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}
F64, F32 = z3.Float64(), z3.Float32()
SORTS["F64"] = F64
SORTS["F32"] = F32
RNE = z3.RNE()


def zsort(s):
    if s in SORTS: return SORTS[s]
    if s[0] == "A": return z3.ArraySort(z3.IntSort(), zsort(s[1:]))
    if s.startswith("BV"): return z3.BitVecSort(int(s[2:]))
    if s.startswith("U"):
        SORTS[s] = z3.DeclareSort(s)
        return SORTS[s]
    raise ValueError(s)


_ufs = {}


def zuf(name, argsorts, sort):
    k = (name, argsorts, sort)
    if k not in _ufs:
        _ufs[k] = z3.Function(name, *[zsort(s) for s in argsorts], zsort(sort))
    return _ufs[k]


def znum(c, sort):
    if sort == "I": return z3.IntVal(int(c))
    c = Fraction(c)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator))


def zterm(x):
    if x._z3 is not None: return x._z3
    # iterative post-order to avoid deep recursion
    st = [x]
    while st:
        y = st[-1]
        if y._z3 is not None:
            st.pop(); continue
        pend = [c for c in t.children(y) if c._z3 is None]
        if pend:
            st.extend(pend); continue
        st.pop()
        y._z3 = _z(y)
    return x._z3


def _sbv(x):
    """bit-vector of a float-to-integer conversion atom fp.sbv<width><z: truncated, a: to nearest>"""
    return z3.fpToSBV(z3.RTZ() if x.op[8] == "z" else z3.RNA(), zterm(x.args[0]), z3.BitVecSort(int(x.op[6:8])))


def _z(x):
    o, a = x.op, x.args
    if o == "const": return znum(a[0], x.sort)
    if o == "true": return z3.BoolVal(True)
    if o == "false": return z3.BoolVal(False)
    if o == "var": return z3.Const(a[0], zsort(x.sort))
    if o == "poly":
        ts = []
        for m, c in a:
            f = []
            if c != 1 or not m: f.append(znum(c, x.sort))
            for y, p in m:
                for _ in range(p): f.append(y._z3)
            ts.append(z3.Product(*f) if len(f) > 1 else f[0])
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]
    z = [y._z3 if isinstance(y, T) else y for y in a]
    if o == "not": return z3.Not(z[0])
    if o == "and": return z3.And(*z)
    if o == "or": return z3.Or(*z)
    if o == "iff": return z[0] == z[1]
    if o in ("le0", "lt0", "eq0"):
        # split into both sides to keep coefficients positive (helps triggers)
        p = a[0]
        pos = {m: c for m, c in t.pd(p).items() if c > 0}
        ng = {m: -c for m, c in t.pd(p).items() if c < 0}
        l = zterm(t.from_pd(pos, p.sort)); r = zterm(t.from_pd(ng, p.sort))
        if o == "eq0" and len(pos) == 1 and len(ng) == 1:
            (ma, ca), = pos.items(); (mb, cb), = ng.items()
            if len(ma) == 1 and len(mb) == 1 and ca == cb and ma[0][1] == mb[0][1] == 1 and ma[0][0].op.startswith("fp.sbv") and mb[0][0].op.startswith("fp.sbv") and ma[0][0].op[6:8] == mb[0][0].op[6:8]:
                return _sbv(ma[0][0]) == _sbv(mb[0][0])
        return l <= r if o == "le0" else l < r if o == "lt0" else l == r
    if o == "same": return z[0] == z[1]
    if o == "ite": return z3.If(z[0], z[1], z[2])
    if o == "select": return z3.Select(z[0], z[1])
    if o == "store": return z3.Store(z[0], z[1], z[2])
    if o == "constarr": return z3.K(z3.IntSort(), z[0])
    if o == "lam": return z3.Lambda([a[0]._z3 if a[0]._z3 is not None else zterm(a[0])], z[1])
    if o == "forall":
        return z3.ForAll([zterm(v) for v in a[0]], z[1])
    if o == "toreal": return z3.ToReal(z[0])
    if o == "floor": return z3.ToInt(z[0])
    if o == "inv": return z3.RealVal(1) / z[0]
    if o == "uf":
        return zuf(a[0], tuple(y.sort for y in a[1:]), x.sort)(*z[1:])
    if o in ("tdiv", "fdiv"):
        return zuf(o, ("I", "I"), "I")(z[0], z[1])
    if o in FPOPS: return FPOPS[o](*z)
    raise ValueError("no z3 for " + o)


FPOPS = {
    "fpconst": lambda v, s: z3.fpBVToFP(z3.BitVecVal(v, 64), F64) if s == "F64" else z3.fpBVToFP(z3.BitVecVal(v, 32), F32),
    "fp.add": lambda a, b: z3.fpAdd(RNE, a, b), "fp.sub": lambda a, b: z3.fpSub(RNE, a, b),
    "fp.mul": lambda a, b: z3.fpMul(RNE, a, b), "fp.div": lambda a, b: z3.fpDiv(RNE, a, b),
    "fp.neg": z3.fpNeg, "fp.abs": z3.fpAbs,
    "fp.floor": lambda a: z3.fpRoundToIntegral(z3.RTN(), a),
    "fp.ceil": lambda a: z3.fpRoundToIntegral(z3.RTP(), a), "fp.trunc": lambda a: z3.fpRoundToIntegral(z3.RTZ(), a),
    "fp.rna": lambda a: z3.fpRoundToIntegral(z3.RNA(), a), "fp.rne": lambda a: z3.fpRoundToIntegral(RNE, a),
    "fp.sbv64z": lambda a: z3.BV2Int(z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(64)), True), "fp.sbv32z": lambda a: z3.BV2Int(z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(32)), True),
    "fp.sbv64a": lambda a: z3.BV2Int(z3.fpToSBV(z3.RNA(), a, z3.BitVecSort(64)), True), "fp.sbv32a": lambda a: z3.BV2Int(z3.fpToSBV(z3.RNA(), a, z3.BitVecSort(32)), True),
    "fp.lt": z3.fpLT, "fp.le": z3.fpLEQ, "fp.eq": z3.fpEQ,
    "fp.isnan": z3.fpIsNaN, "fp.isinf": z3.fpIsInf, "fp.isneg": z3.fpIsNegative,
    "fp.iszero": z3.fpIsZero, "fp.issub": z3.fpIsSubnormal, "fp.isnorm": z3.fpIsNormal,
    "fp.to64": lambda a: z3.fpFPToFP(RNE, a, F64), "fp.to32": lambda a: z3.fpFPToFP(RNE, a, F32),
    "fp.ofint64": lambda i: z3.fpRealToFP(RNE, z3.ToReal(i), F64),
    "fp.ofint32": lambda i: z3.fpRealToFP(RNE, z3.ToReal(i), F32),
    "fp.bits": lambda a: z3.fpToIEEEBV(a),
    "fp.signbit": lambda a: z3.Extract(a.sort().ebits() + a.sort().sbits() - 1, a.sort().ebits() + a.sort().sbits() - 1, z3.fpToIEEEBV(a)) == z3.BitVecVal(1, 1),
}

_side_cache = {}


def side_facts(terms):
    """defining axioms of integer division atoms occurring in terms"""
    seen = set()
    for x in terms: t.atoms(x, seen)
    out = []
    bound = set()
    for x in seen:
        if x.op in ("forall",):
            bound.update(x.args[0])
        if x.op == "lam": bound.add(x.args[0])
    work = [x for x in seen if x.op in ("tdiv", "fdiv")]
    for x in work:
        if t.free_vars(x) & bound: continue
        if x.id not in _side_cache:
            a, b = x.args
            q = x
            r = t.sub(a, t.mul(b, q))
            if x.op == "fdiv":
                f = t.And(t.Implies(t.gt(b, 0), t.And(t.ge(r, 0), t.lt(r, b))),
                          t.Implies(t.lt(b, 0), t.And(t.le(r, 0), t.gt(r, b))))
            else:
                ab = t.Abs(b)
                f = t.Implies(t.ne(b, 0), t.And(t.Implies(t.ge(a, 0), t.And(t.ge(r, 0), t.lt(r, ab))),
                                                t.Implies(t.le(a, 0), t.And(t.le(r, 0), t.gt(r, t.neg(ab))))))
            _side_cache[x.id] = f
        out.append(_side_cache[x.id])
    return out


class Result:
    def __init__(self, status, model=None, backend="", time=0.0, reason=""):
        self.status, self.model, self.backend, self.time, self.reason = status, model, backend, time, reason

    def __bool__(self): return self.status == "proved"


_cache = {}


def simplify_hyps(hyps, goal):
    """Gaussian-style substitution of var = poly hypotheses (linear, unit coefficient)."""
    hyps = list(hyps)
    changed = True
    rounds = 0
    while changed and rounds < 60:
        changed = False
        rounds += 1
        for i, h in enumerate(hyps):
            if h.op != "eq0": continue
            p = h.args[0]
            d = t.pd(p)
            cand = None
            for m, c in d.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and (c in (1, -1) or p.sort == "R"):
                    v = m[0][0]
                    rest = t.from_pd({mm: cc for mm, cc in d.items() if mm != m}, p.sort)
                    if v in t.free_vars(rest): continue
                    if any(v in t.atoms(x) for mm in d if mm != m for x, _ in mm): continue
                    cand = (v, t.mul(rest, Fraction(-1) / c if p.sort == "R" else -c))
                    break
            if cand:
                v, e = cand
                mp = {v: e}
                cache = {}
                hyps = [t.subst(x, mp, cache) if v in t.free_vars(x) else x for j, x in enumerate(hyps) if j != i]
                goal = t.subst(goal, mp, cache)
                hyps = [x for x in hyps if x is not t.TRUE]
                changed = True
                break
    return hyps, goal


def prove(hyps, goal, timeout=10.0, want_model=True, tactic=None):
    goal = t.lift(goal)
    if goal is t.TRUE: return Result("proved", backend="normal-form")
    fl = []
    for h in hyps:
        if h.op == "and": fl.extend(h.args)
        else: fl.append(h)
    hs = frozenset(fl)
    if t.FALSE in hs: return Result("proved", backend="normal-form")
    if goal in hs: return Result("proved", backend="normal-form")
    if goal.op == "and":
        worst = None
        be = set()
        for g in goal.args:
            r = prove(hyps, g, timeout, want_model, tactic)
            if not r: 
                if r.status == "cex": return r
                worst = worst or r
            be.add(r.backend)
        return worst or Result("proved", backend="+".join(sorted(be - {"normal-form"})) or "normal-form")
    k = (hs, goal)
    if k in _cache: return _cache[k]
    t0 = time.time()
    STATS["queries"] += 1
    r = None
    if tactic:
        b = tactic(fl, goal)
        if b: r = Result("proved", backend=b)
    if r is None:
        r = _prove_z3(fl, goal, timeout)
    r.time = time.time() - t0
    STATS["time"] += r.time
    _cache[k] = r
    return r


def _itelift(g):
    """goal without ite below comparisons -> [(extra hypotheses, goal)]"""
    for x in sorted(t.atoms(g), key=lambda x: x.id):
        if x.op == "ite":
            c = x.args[0]
            if any(y.op == "ite" for y in t.atoms(c)): continue
            out = []
            for cc, val in ((c, x.args[1]), (t.Not(c), x.args[2])):
                out += [([cc] + h, gg) for h, gg in _itelift(t.subst(g, {x: val}, {}))]
            return out
    return [([], g)]


def _bvside(atom, const, width):
    if atom is not None: return _sbv(atom)
    return z3.BitVecVal(int(const), width)


def prove_fpbv(hyps, goal, timeout=60.0):
    """goals about float-to-integer conversions: case split, then bit-blasting without integers.  True / False (unknown)"""
    for hs, g in _itelift(goal):
        if g is t.TRUE: continue
        neg = None
        if g.op == "eq0":
            d = t.pd(g.args[0])
            at = [(m[0][0], c) for m, c in d.items() if m]
            k = d.get((), 0)
            if all(a.op.startswith("fp.sbv") and abs(c) == 1 for a, c in at) and len(at) in (1, 2) and len({a.op[6:8] for a, _ in at}) == 1:
                w = int(at[0][0].op[6:8])
                if len(at) == 2 and k == 0 and at[0][1] == -at[1][1]: neg = _bvside(at[0][0], 0, w) != _bvside(at[1][0], 0, w)
                elif len(at) == 1:
                    cst = -k * at[0][1]
                    neg = _bvside(at[0][0], 0, w) != _bvside(None, cst, w) if -(1 << (w - 1)) <= cst < (1 << (w - 1)) else z3.BoolVal(True)
            elif not at: neg = z3.BoolVal(True)
        if neg is None:
            if g is t.FALSE: neg = z3.BoolVal(True)
            elif not any(x.sort in ("I", "R") for x in t.atoms(g)): neg = z3.Not(zterm(g))
            else: return False
        sv = z3.Then("simplify", "propagate-values", "fpa2bv", "simplify", "propagate-values", "solve-eqs", "bit-blast", "sat").solver()
        sv.set("timeout", int(timeout * 1000))
        for h in hs + list(hyps):
            if not any(x.sort in ("I", "R") for x in t.atoms(h)): sv.add(zterm(h))
        sv.add(neg)
        if sv.check() != z3.unsat: return False
    return True


def _flatten(hs):
    return hs


def _prove_z3(hyps, goal, timeout):
    hyps2, goal2 = simplify_hyps(hyps, goal)
    if goal2 is t.TRUE or t.FALSE in hyps2 or goal2 in hyps2:
        return Result("proved", backend="normal-form")
    base = list(hyps2) + [t.Not(goal2)]
    sf = side_facts(base)
    # side facts may mention new division atoms: iterate once more
    sf = side_facts(base + sf)
    q = base + sf
    reason = ""
    nonlin = any(x.op == "inv" or (x.op == "poly" and any(sum(p for _, p in m) > 1 for m, _ in x.args)) for y in q for x in t.atoms(y))
    quant = any(t.has_quant(y) for y in q)
    tries = [("z3", None)]
    if nonlin and not quant:
        if any(x.sort == "R" for y in q for x in t.free_vars(y)):
            tries = [("z3-nlsat", "qfnra"), ("z3", None)]
        else:
            tries = [("z3", None)]
    for name, tac in tries:
        try:
            if tac == "qfnra":
                if any(x.op in ("uf", "select", "floor", "toreal", "tdiv", "fdiv", "store") for y in q for x in t.atoms(y)):
                    continue
                s = z3.Tactic("qfnra-nlsat").solver()
            else:
                s = z3.Solver()
            s.set("timeout", int(timeout * 1000 / len(tries)))
            for y in q: s.add(zterm(y))
            c = s.check()
        except z3.Z3Exception as e:
            reason = str(e)
            continue
        if c == z3.unsat: return Result("proved", backend=name)
        if c == z3.sat:
            # model in terms of original hyps: re-solve for completeness of eliminated vars
            m = s.model()
            if len(hyps2) != len(hyps) or goal2 is not goal:
                s2 = z3.Solver(); s2.set("timeout", int(timeout * 1000))
                for y in list(hyps) + [t.Not(goal)] + side_facts(list(hyps) + [t.Not(goal)]): s2.add(zterm(y))
                if s2.check() == z3.sat: m = s2.model()
            return Result("cex", model=m, backend=name)
        reason = s.reason_unknown()
    # cvc5 fallback
    try:
        r = _cvc5(q, timeout)
        if r == "unsat": return Result("proved", backend="cvc5")
    except Exception as e:  # noqa
        reason += " cvc5:" + str(e)[:100]
    return Result("unknown", backend="z3+cvc5", reason=reason)


def _cvc5(q, timeout):
    s = z3.Solver()
    for y in q: s.add(zterm(y))
    txt = s.to_smt2()
    STATS["cvc5"] += 1
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt)
        n = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), n], capture_output=True, text=True, timeout=timeout + 5)
        return p.stdout.strip().split("\n")[0]
    finally:
        os.unlink(n)


def unquantified(p):
    """the conjuncts of p without quantifiers"""
    if not t.has_quant(p): return [p]
    return [q for x in p.args for q in unquantified(x)] if p.op == "and" else []


class Feas:
    """Incremental feasibility checker following a DFS: keeps a stack of asserted conditions."""

    def __init__(self, timeout=2.0):
        self.s = z3.Solver()
        self.s.set("timeout", int(timeout * 1000))
        self.stack = []

    def check(self, pcs):
        pcs = [q for p in pcs for q in unquantified(p)]
        i = 0
        while i < len(self.stack) and i < len(pcs) and self.stack[i] is pcs[i]: i += 1
        if len(self.stack) > i:
            self.s.pop(len(self.stack) - i)
            del self.stack[i:]
        for p in pcs[i:]:
            self.s.push()
            self.s.add(zterm(p))
            for f in side_facts([p]): self.s.add(zterm(f))
            self.stack.append(p)
        t0 = time.time()
        c = self.s.check()
        STATS["feas"] += 1
        STATS["feas_time"] += time.time() - t0
        return c != z3.unsat

    def model(self):
        return self.s.model()


def mval(m, x, default=0):
    """evaluate term x in model"""
    v = m.eval(zterm(x), model_completion=True)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_fp_value(v):
        import struct
        bv = z3.simplify(z3.fpToIEEEBV(v)).as_long() if not v.isNaN() else (0x7ff8000000000000 if v.sort() == F64 else 0x7fc00000)
        if v.sort() == F64: return struct.unpack("<d", struct.pack("<Q", bv))[0]
        return struct.unpack("<f", struct.pack("<I", bv))[0]
    return default


def resolve_ites(hyps, goal, timeout=1.0):
    """goal with every if-then-else (and every read of an updated array) replaced by what the hypotheses imply (where they do)"""
    noq = [h for h in hyps if not t.has_quant(h)]
    done = set()
    for _ in range(80):
        todo = None
        for x in sorted(t.atoms(goal), key=lambda x: x.id):
            if x.op == "ite": c = x.args[0]
            elif x.op == "select" and x.args[0].op == "store": c = t.eq(x.args[0].args[1], x.args[1])
            else: continue
            if c in done or any(y.op == "ite" for y in t.atoms(c)): continue
            todo = x, c
            break
        if not todo: return goal
        x, c = todo
        done.add(c)
        if x.op == "ite": yes, no = x.args[1], x.args[2]
        else: yes, no = x.args[0].args[2], t.select(x.args[0].args[0], x.args[1])
        if prove(noq, c, timeout, want_model=False) or prove(hyps, c, timeout, want_model=False): goal = t.subst(goal, {x: yes}, {})
        elif prove(noq, t.Not(c), timeout, want_model=False) or prove(hyps, t.Not(c), timeout, want_model=False): goal = t.subst(goal, {x: no}, {})
    return goal


DEBUG = False


def instances(hyps, goal):
    """quantified hypotheses over one index, instantiated at the indices (and their predecessors) at which arrays are read"""
    idx = set()
    for h in [goal] + [h for h in hyps if not t.has_quant(h)]:
        for y in t.atoms(h):
            if y.op == "select": idx.add(y.args[1])
            elif y.op == "store": idx.add(y.args[1])
    idx |= {t.sub(i, 1) for i in idx}
    idx = {i for i in idx if not any(y.op == "ite" for y in t.atoms(i))}
    out = []
    for h in hyps:
        if h.op == "forall" and len(h.args[0]) == 1:
            v = h.args[0][0]
            out += [t.subst(h.args[1], {v: i}, {}) for i in idx]
    return [x for x in dict.fromkeys(out) if x is not t.TRUE]


def t_reals(x): return any(y.sort != "I" for y in t.atoms(x) if y.op in ("var", "select"))


def sum_tactic(name, unfold, valid, depth=8):
    """for goals about a recursively defined sum  name(w.., k+1) = name(w.., k) + unfold(w, k) (for all k with valid(k)):  split
    on undecided conditions, unfold at the indices of the goal, pick the branches the (linear) hypotheses imply, compare normal forms"""
    def uses(x): return any(y.op == "uf" and y.args[0] == name for y in t.atoms(x))

    def tac(hyps, goal, depth=depth, conds=()):
        if not uses(goal): return None
        if not conds: hyps = [h for h in hyps if not t.has_quant(h)] + instances([h for h in hyps if not uses(h)], goal)
        lin = [h for h in hyps if not uses(h)]
        which = {y.args[1:-1] for y in t.atoms(goal) if y.op == "uf" and y.args[0] == name}
        plain = [h for h in hyps if uses(h) and not t.has_quant(h) and all(y.args[1:-1] in which for y in t.atoms(h) if y.op == "uf" and y.args[0] == name)]
        goal = resolve_ites(lin, goal)
        if goal is t.TRUE: return "sum unfolding + z3"
        def split(c, g1, g2):
            if depth == 0:
                if DEBUG: print("SUM? depth", t.show(c), "conds", [t.show(x) for x in conds])
                return None
            for cc, g in ((c, g1), (t.Not(c), g2)):
                if g is not t.TRUE and not (tac(hyps + [cc], g, depth - 1, conds + (cc,)) if uses(g) else prove(lin + [cc], g, 2.0, want_model=False)): return None
            return "sum unfolding + z3"
        alts = list(goal.args) if goal.op == "or" else [goal]
        main = [x for x in alts if uses(x)]
        if len(main) != 1: return None
        lin += [t.Not(x) for x in alts if x is not main[0]]
        if prove(lin, t.FALSE, 1.0, want_model=False): return "sum unfolding + z3"
        for x in sorted(t.atoms(goal), key=lambda x: x.id):
            if x.op == "ite" and not any(y.op == "ite" for y in t.atoms(x.args[0])):
                return split(x.args[0], t.subst(goal, {x: x.args[1]}, {}), t.subst(goal, {x: x.args[2]}, {}))
            if x.op == "select" and x.args[0].op == "store": return split(t.eq(x.args[0].args[1], x.args[1]), goal, goal)
        # equal integers get one name
        goal0 = t.Or(*alts)
        goal, mp = main[0], {}
        us = {y for h in [goal] + plain for y in t.atoms(h) if y.op == "uf" and y.args[0] == name}
        vs = sorted({y for z in [goal] + [unfold(u.args[1:-1], u.args[-1]) for u in us] for y in t.free_vars(z) if y.sort == "I"}, key=lambda x: x.id)
        for i1, k1 in enumerate(vs):
            for k2 in vs[i1 + 1:]:
                if k2 not in mp and k1 not in mp and prove([h for h in lin if not t.has_quant(h)], t.eq(k1, k2), 1.0, want_model=False): mp[k2] = k1
        if mp: lin, plain, goal, unf = [t.subst(h, mp, {}) for h in lin], [t.subst(h, mp, {}) for h in plain], t.subst(goal, mp, {}), lambda w, k: t.subst(unfold(w, k), mp, {})
        else: unf = unfold
        # differences that can only be zero
        for c in conds:
            c = t.subst(c, mp, {})
            if c.op != "le0" or not any(y.op == "select" for y in t.atoms(c)) or not prove(lin, t.ge(c.args[0], 0), 1.0, want_model=False): continue
            for m, k in t.pd(c.args[0]).items():
                if len(m) == 1 and m[0][1] == 1 and (k in (1, -1) or c.args[0].sort == "R"):
                    rest = t.mul(t.sub(c.args[0], t.mul(m[0][0], k)), t.const(Fraction(-1) / k, "R") if c.args[0].sort == "R" else -k)
                    if m[0][0] in t.atoms(rest): continue
                    sub = {m[0][0]: rest}
                    goal = t.subst(goal, sub, {})
                    break
        goals = goal.args if goal.op == "and" else [goal]
        facts = []
        noq = [h for h in lin if not t.has_quant(h)]
        for h in plain:
            # facts about the sum that hold under the hypotheses
            hal = list(h.args) if h.op == "or" else [h]
            hm = [x for x in hal if uses(x)]
            if len(hm) != 1: continue
            und = [x for x in hal if x is not hm[0] and not prove(noq if not t_reals(x) else lin, t.Not(x), 1.0, want_model=False)]
            if any(prove(noq if not t_reals(x) else lin, x, 1.0, want_model=False) for x in und): continue
            if und: return split(und[0], goal0, goal0)
            facts += list(hm[0].args) if hm[0].op == "and" else [hm[0]]
        lin = list(lin)
        lin += [f for f in facts if not uses(f)]
        facts = [resolve_ites(lin, f) for f in facts if uses(f)]
        for g in goals:
            g = resolve_ites(lin, g)
            if not uses(g):
                if not prove(lin, g, 2.0, want_model=False):
                    if DEBUG: print("SUM? linear", t.show(g))
                    return None
                continue
            sums = {y for x in [g] + facts for y in t.atoms(x) if y.op == "uf" and y.args[0] == name}
            eqs = []
            for y in sums:
                w, k = y.args[1:-1], y.args[-1]
                for z in sums:
                    if z.args[1:-1] == w and z.args[-1] is t.sub(k, 1):
                        if prove(lin, valid(t.sub(k, 1)), 1.0, want_model=False): eqs.append((y, t.add(z, resolve_ites(lin, unf(w, t.sub(k, 1))))))
            ok = False
            for y, e in eqs:
                if not any(z is y for z in t.atoms(g)): continue
                for x in sorted(t.atoms(e), key=lambda x: x.id):
                    if x.op == "ite" and not any(z.op == "ite" for z in t.atoms(x.args[0])): return split(x.args[0], goal0, goal0)
            for y, e in [(None, None)] + eqs:
                g2 = t.subst(g, {y: e}, {}) if y is not None else g
                f2 = [t.subst(f, {y: e}, {}) if y is not None else f for f in facts]
                if g2 is t.TRUE or prove([f for f in f2 if f.op == "eq0"] + [h for h in lin if not t.has_quant(h)], g2, 2.0, want_model=False): ok = True; break
            if not ok:
                if DEBUG:
                    print("SUM?", t.show(g)); [print("    eq", t.show(y), "=", t.show(e)) for y, e in eqs]; [print("    fact", t.show(f)) for f in facts]; [print("    hyp", t.show(f)) for f in lin if not t.has_quant(f)]
                return None
        return "sum unfolding + z3"
    return tac
