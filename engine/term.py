"""Hash-consed term layer: polynomials over atoms for Int/Real, booleans, arrays.

Integers and reals are kept in polynomial normal form, so equal arithmetic expressions are
syntactically equal however the source wrote them.
"""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count(1)


class T:
    __slots__ = ("op", "args", "sort", "id", "_z3", "_fv")

    def __init__(self, op, args, sort):
        self.op, self.args, self.sort = op, args, sort
        self.id = next(_ids)
        self._z3 = None
        self._fv = None

    def __hash__(self):
        return self.id

    # identity equality on purpose: hash-consed
    def __repr__(self):
        return show(self)

    # arithmetic sugar
    def __add__(a, b): return add(a, b)
    def __radd__(a, b): return add(b, a)
    def __sub__(a, b): return sub(a, b)
    def __rsub__(a, b): return sub(b, a)
    def __mul__(a, b): return mul(a, b)
    def __rmul__(a, b): return mul(b, a)
    def __neg__(a): return mul(a, -1)
    def __truediv__(a, b): return rdiv(a, b)
    def __rtruediv__(a, b): return rdiv(b, a)
    def __pow__(a, n):
        r = 1
        for _ in range(n):
            r = mul(r, a)
        return r
    # NOTE: == stays identity; use eq().
    def __le__(a, b): return le(a, b)
    def __lt__(a, b): return lt(a, b)
    def __ge__(a, b): return le(b, a)
    def __gt__(a, b): return lt(b, a)
    def __and__(a, b): return And(a, b)
    def __or__(a, b): return Or(a, b)
    def __invert__(a): return Not(a)
    def __bool__(self):
        if self is TRUE: return True
        if self is FALSE: return False
        raise TypeError("symbolic truth value: %s" % show(self)[:200])


def mk(op, args, sort):
    k = (op, args, sort)
    t = _table.get(k)
    if t is None:
        t = T(op, args, sort)
        _table[k] = t
    return t


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")


def is_num(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def const(c, sort="I"):
    if isinstance(c, T):
        return c
    if isinstance(c, bool):
        return TRUE if c else FALSE
    if isinstance(c, float):
        c = Fraction(c)
    if sort == "R":
        c = Fraction(c)
    elif sort == "I":
        if isinstance(c, Fraction):
            if c.denominator == 1:
                c = int(c)
            else:
                sort = "R"
    return mk("const", (c,), sort)


def lift(x, sort=None):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        return const(Fraction(x), "R")
    if isinstance(x, Fraction):
        return const(x, sort or ("I" if x.denominator == 1 else "R"))
    return const(x, sort or "I")


def var(name, sort="I"):
    return mk("var", (name,), sort)


_fresh = itertools.count()


def fresh(name, sort="I"):
    return var("%s!%d" % (name, next(_fresh)), sort)


def is_const(t):
    return isinstance(t, T) and t.op == "const"


def cval(t):
    """python value of a constant term or None"""
    if is_num(t):
        return t
    if isinstance(t, T) and t.op == "const":
        return t.args[0]
    return None


# ---------------------------------------------------------------- polynomials
def pd(t):
    """poly dict: monomial(tuple of (atom T, power) sorted by id) -> coeff"""
    if t.op == "const":
        c = t.args[0]
        return {(): c} if c != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): 1}


def from_pd(d, sort):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return const(0, sort)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, p) for a, p in mc[0])))
    return mk("poly", items, sort)


def _arith(a, b):
    a = lift(a); b = lift(b)
    if a.sort != b.sort:
        if a.sort == "I" and b.sort == "R":
            a = toreal(a)
        elif a.sort == "R" and b.sort == "I":
            b = toreal(b)
        else:
            raise TypeError("sorts %s %s (%s, %s)" % (a.sort, b.sort, show(a)[:80], show(b)[:80]))
    return a, b


def add(a, b):
    a, b = _arith(a, b)
    if a.op == "const" and a.args[0] == 0: return b
    if b.op == "const" and b.args[0] == 0: return a
    if a.op == "const" and b.op == "const":
        return const(a.args[0] + b.args[0], a.sort)
    d = pd(a)
    for m, c in (b.args if b.op == "poly" else pd(b).items()):
        d[m] = d.get(m, 0) + c
    return from_pd(d, a.sort)


def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = {}
    for a, p in m1: d[a] = p
    for a, p in m2: d[a] = d.get(a, 0) + p
    return tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda ap: ap[0].id))


def mul(a, b):
    a, b = _arith(a, b)
    if a.op == "const":
        c = a.args[0]
        if c == 0: return a
        if c == 1: return b
        if b.op == "const": return const(c * b.args[0], a.sort)
    if b.op == "const":
        c = b.args[0]
        if c == 0: return b
        if c == 1: return a
    d = {}
    for m1, c1 in pd(a).items():
        for m2, c2 in pd(b).items():
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_pd(d, a.sort)


def neg(a): return mul(a, -1)
def sub(a, b): return add(a, mul(b, -1))


def toreal(a):
    a = lift(a)
    if a.sort == "R": return a
    if a.op == "const": return const(Fraction(a.args[0]), "R")
    if a.op == "poly":
        d = {}
        for m, c in a.args:
            mm = tuple(sorted(((toreal(x), p) for x, p in m), key=lambda ap: ap[0].id))
            d[mm] = d.get(mm, 0) + Fraction(c)
        return from_pd(d, "R")
    if a.op == "ite":
        return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    return mk("toreal", (a,), "R")


def floor(a):
    """floor of a real -> Int"""
    a = lift(a)
    if a.sort == "I": return a
    if a.op == "const":
        return const(a.args[0].__floor__(), "I")
    # integer-valued polynomials
    d = pd(a)
    if all(c.denominator == 1 if isinstance(c, Fraction) else True for c in d.values()) and \
       all(x.op == "toreal" for m in d for x, _ in m):
        out = const(0)
        for m, c in d.items():
            t = const(int(c))
            for x, p in m:
                for _ in range(p): t = mul(t, x.args[0])
            out = add(out, t)
        return out
    return mk("floor", (a,), "I")


def inv(a):
    a = lift(a)
    if a.op == "const":
        if a.args[0] == 0: return const(0, "R")
        return const(Fraction(1) / Fraction(a.args[0]), "R")
    a = toreal(a)
    # pull monomials apart: inv(c*x*y) = inv(c) inv(x) inv(y)   (total, inv(0)=0)
    if a.op == "poly" and len(a.args) == 1:
        m, c = a.args[0]
        r = const(Fraction(1) / Fraction(c), "R")
        for x, p in m:
            ix = inv(x)
            for _ in range(p): r = mul(r, ix)
        return r
    if a.op == "inv": return a.args[0]
    if a.op == "poly":
        # normalise leading coefficient
        lc = a.args[0][1]
        if lc != 1:
            return mul(const(Fraction(1) / Fraction(lc), "R"), inv(mul(a, const(Fraction(1) / Fraction(lc), "R"))))
    return mk("inv", (a,), "R")


def rdiv(a, b):
    a, b = _arith(toreal(lift(a)), toreal(lift(b)))
    return mul(a, inv(b))


def fdiv(a, b):
    """floor division of ints, b>0 assumed meaningful; constants folded"""
    a, b = _arith(a, b)
    if a.op == "const" and b.op == "const" and b.args[0] != 0:
        return const(a.args[0] // b.args[0])
    if b.op == "const" and b.args[0] > 0:
        c = b.args[0]
        if c == 1: return a
        d = pd(a)
        hi = {m: k // c for m, k in d.items() if k % c == 0}
        lo = {m: k for m, k in d.items() if k % c != 0}
        if not lo: return from_pd(hi, "I")
        if hi: return add(from_pd(hi, "I"), fdiv(from_pd(lo, "I"), b))
    return mk("fdiv", (a, b), "I")


def fmod(a, b):
    return sub(a, mul(b, fdiv(a, b)))


def tdiv(a, b):
    """C division truncating toward zero"""
    a, b = _arith(a, b)
    if a.op == "const" and b.op == "const" and b.args[0] != 0:
        x, y = a.args[0], b.args[0]
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q)
    if b.op == "const":
        c = b.args[0]
        if c == 1: return a
        if c == -1: return neg(a)
        if c:
            d = pd(a)
            if all(k % c == 0 for k in d.values()):
                return from_pd({m: k // c for m, k in d.items()}, "I")
    return mk("tdiv", (a, b), "I")


def trem(a, b):
    a, b = _arith(a, b)
    return sub(a, mul(b, tdiv(a, b)))


# ---------------------------------------------------------------- booleans
def Not(a):
    a = lift(a)
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    if a.op == "le0":
        p = a.args[0]  # not p<=0  -> p>0
        if p.sort == "I": return le(1 - p, 0)
        return lt(neg(p), 0)
    if a.op == "lt0":
        return le(neg(a.args[0]), 0)
    return mk("not", (a,), "B")


def And(*xs):
    s = []
    seen = set()
    for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs):
        x = lift(x)
        if x is TRUE: continue
        if x is FALSE: return FALSE
        for y in (x.args if x.op == "and" else (x,)):
            if y.id not in seen:
                seen.add(y.id); s.append(y)
    for y in s:
        if Not(y).id in seen: return FALSE
    if not s: return TRUE
    if len(s) == 1: return s[0]
    return mk("and", tuple(sorted(s, key=lambda t: t.id)), "B")


def Or(*xs):
    s = []
    seen = set()
    for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs):
        x = lift(x)
        if x is FALSE: continue
        if x is TRUE: return TRUE
        for y in (x.args if x.op == "or" else (x,)):
            if y.id not in seen:
                seen.add(y.id); s.append(y)
    for y in s:
        if Not(y).id in seen: return TRUE
    if not s: return FALSE
    if len(s) == 1: return s[0]
    return mk("or", tuple(sorted(s, key=lambda t: t.id)), "B")


def Implies(a, b): return Or(Not(a), b)


def _bool(x):
    x = lift(x)
    if x.sort == "B": return x
    if cval(x) in (0, 1): return TRUE if cval(x) else FALSE
    raise TypeError("not a truth value: %s" % (x,))


def iff(a, b):
    a = _bool(a); b = _bool(b)
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return Not(b)
    if b is FALSE: return Not(a)
    if a is b: return TRUE
    if a is Not(b): return FALSE
    return mk("iff", (a, b) if a.id < b.id else (b, a), "B")


def _content(d):
    from math import gcd
    g = 0
    for m, c in d.items():
        if m == (): continue
        g = gcd(g, abs(c))
    return g


def le(a, b):
    """a <= b"""
    a, b = _arith(a, b)
    p = sub(a, b)
    c = cval(p)
    if c is not None: return TRUE if c <= 0 else FALSE
    d = pd(p)
    if p.sort == "I":
        g = _content(d)
        if g > 1:
            k = d.get((), 0)
            d = {m: c // g for m, c in d.items() if m != ()}
            # g*q + k <= 0  <=> q <= floor(-k/g)  <=> q - floor(-k/g) <= 0
            d[()] = -((-k) // g)
            p = from_pd(d, "I")
    else:
        lc = abs(Fraction(next(c for m, c in sorted(d.items(), key=lambda mc: tuple((a.id, q) for a, q in mc[0])) if m != ())))
        if lc != 1:
            p = from_pd({m: Fraction(c) / lc for m, c in d.items()}, "R")
    return mk("le0", (p,), "B")


def lt(a, b):
    a, b = _arith(a, b)
    if a.sort == "I": return le(add(a, 1), b)
    p = sub(a, b)
    c = cval(p)
    if c is not None: return TRUE if c < 0 else FALSE
    d = pd(p)
    lc = abs(Fraction(next(c for m, c in sorted(d.items(), key=lambda mc: tuple((a.id, q) for a, q in mc[0])) if m != ())))
    if lc != 1:
        p = from_pd({m: Fraction(c) / lc for m, c in d.items()}, "R")
    return mk("lt0", (p,), "B")


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    a = lift(a); b = lift(b)
    if a is b and a.sort in ("I", "R", "B"): return TRUE
    if a.sort == "B" or b.sort == "B": return iff(a, b)
    if a.sort in ("I", "R") and b.sort in ("I", "R"):
        a, b = _arith(a, b)
        p = sub(a, b)
        c = cval(p)
        if c is not None: return TRUE if c == 0 else FALSE
        # push through ite with constant branches
        for u, v in ((a, b), (b, a)):
            if u.op == "ite" and v.op == "const":
                x, y = u.args[1], u.args[2]
                if x.op == "const" or y.op == "const":
                    return Or(And(u.args[0], eq(x, v)), And(Not(u.args[0]), eq(y, v)))
        d = pd(p)
        srt = sorted(d.items(), key=lambda mc: tuple((a.id, q) for a, q in mc[0]))
        lcf = next(c for m, c in srt if m != ())
        if p.sort == "I":
            g = _content(d)
            k = d.get((), 0)
            if k % g: return FALSE
            if lcf < 0: g = -g
            if g != 1: p = from_pd({m: c // g for m, c in d.items()}, "I")
        else:
            if lcf != 1: p = from_pd({m: Fraction(c) / Fraction(lcf) for m, c in d.items()}, "R")
        return mk("eq0", (p,), "B")
    if a.sort != b.sort: raise TypeError("eq sorts %s %s" % (a.sort, b.sort))
    if a.op == "fpconst" and b.op == "fpconst": return TRUE if a is b else FALSE
    return mk("same", (a, b) if a.id < b.id else (b, a), "B")


def ne(a, b): return Not(eq(a, b))


def ite(c, a, b):
    c = lift(c)
    if c is TRUE: return lift(a)
    if c is FALSE: return lift(b)
    a = lift(a); b = lift(b)
    if a.sort in "IR" and b.sort in "IR": a, b = _arith(a, b)
    if a is b: return a
    if a.sort == "B":
        return Or(And(c, a), And(Not(c), b))
    if c.op == "not": return ite(c.args[0], b, a)
    return mk("ite", (c, a, b), a.sort)


def Max(a, b): return ite(ge(a, b), a, b)
def Min(a, b): return ite(le(a, b), a, b)
def Abs(a):
    a = lift(a)
    c = cval(a)
    if c is not None: return const(abs(c), a.sort)
    return ite(ge(a, 0), a, neg(a))


def uf(name, args, sort):
    return mk("uf", (name,) + tuple(lift(a) for a in args), sort)


# ---------------------------------------------------------------- arrays
def arr_sort(elem): return "A" + elem


def select(a, i):
    i = lift(i)
    n = 0
    while a.op == "store" and n < 500:
        c = eq(a.args[1], i)
        if c is TRUE: return a.args[2]
        if c is FALSE:
            a = a.args[0]; n += 1; continue
        break
    if a.op == "constarr": return a.args[0]
    if a.op == "lit":
        c = cval(i)
        if c is not None and 0 <= c < len(a.args): return a.args[int(c)]
    if a.op == "lam":
        # ("lam", bound var, body)
        return subst(a.args[1], {a.args[0]: i})
    return mk("select", (a, i), a.sort[1:])


def store(a, i, v):
    return mk("store", (a, lift(i), lift(v)), a.sort)


def lam(v, body):
    return mk("lam", (v, body), "A" + body.sort)


def lit(vals, elem="I"):
    """concrete finite array"""
    return mk("lit", tuple(const(v, elem) if not isinstance(v, T) else v for v in vals), "A" + elem)


def constarr(v):
    v = lift(v)
    return mk("constarr", (v,), "A" + v.sort)


_bv = itertools.count()


def Forall(f, n=1, pat=None, sort="I"):
    """f: python function of n Int terms -> Bool term"""
    vs = [var("?k%d" % next(_bv), sort) for _ in range(n)]
    body = f(*vs)
    if body is TRUE or body is FALSE: return body
    return mk("forall", (tuple(vs), body), "B")


def forall_range(lo, hi, f):
    return Forall(lambda k: Implies(And(le(lo, k), lt(k, hi)), f(k)))


# ---------------------------------------------------------------- traversal
def children(t):
    if t.op == "poly":
        for m, _ in t.args:
            for a, _p in m: yield a
    elif t.op in ("const", "var", "true", "false", "fpconst"):
        return
    elif t.op == "forall":
        yield t.args[1]
    elif t.op == "lam":
        yield t.args[1]
    else:
        for a in t.args:
            if isinstance(a, T): yield a


def atoms(t, seen=None):
    """all sub-terms"""
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        st.extend(children(x))
    return seen


def free_vars(t):
    if t._fv is None:
        t._fv = frozenset(x for x in atoms(t) if x.op == "var")
    return t._fv


def has_quant(t):
    return any(x.op in ("forall",) for x in atoms(t))


def subst(t, m, cache=None):
    if cache is None: cache = {}
    if t in m: return lift(m[t])
    r = cache.get(t)
    if r is not None: return r
    o, a = t.op, t.args
    if o in ("const", "var", "true", "false", "fpconst"): r = t
    elif o == "poly":
        r = const(0, t.sort)
        for mon, c in a:
            x = const(c, t.sort)
            for at, p in mon:
                y = subst(at, m, cache)
                for _ in range(p): x = mul(x, y)
            r = add(r, x)
    elif o == "forall":
        r0 = subst(a[1], m, cache)
        r = r0 if r0 in (TRUE, FALSE) else mk("forall", (a[0], r0), "B")
    elif o == "lam":
        r = mk("lam", (a[0], subst(a[1], m, cache)), t.sort)
    else:
        b = [subst(x, m, cache) if isinstance(x, T) else x for x in a]
        r = rebuild(o, b, t.sort)
    cache[t] = r
    return r


def rebuild(o, b, sort):
    if o == "not": return Not(b[0])
    if o == "and": return And(*b)
    if o == "or": return Or(*b)
    if o == "iff": return iff(b[0], b[1])
    if o == "le0": return le(b[0], const(0, b[0].sort))
    if o == "lt0": return lt(b[0], const(0, b[0].sort))
    if o == "eq0": return eq(b[0], const(0, b[0].sort))
    if o == "same": return eq(b[0], b[1])
    if o == "ite": return ite(*b)
    if o == "select": return select(*b)
    if o == "store": return store(*b)
    if o == "tdiv": return tdiv(*b)
    if o == "fdiv": return fdiv(*b)
    if o == "inv": return inv(b[0])
    if o == "toreal": return toreal(b[0])
    if o == "floor": return floor(b[0])
    return mk(o, tuple(b), sort)


def show(t, depth=0):
    if not isinstance(t, T): return str(t)
    o, a = t.op, t.args
    if o == "const": return str(a[0])
    if o == "var": return a[0]
    if o in ("true", "false"): return o
    if depth > 12: return "..."
    s = lambda x: show(x, depth + 1)
    if o == "poly":
        out = []
        for m, c in a:
            fs = [s(x) + ("^%d" % p if p > 1 else "") for x, p in m]
            if c != 1 or not fs: fs = [str(c)] + fs
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if o == "le0": return "%s <= 0" % s(a[0])
    if o == "lt0": return "%s < 0" % s(a[0])
    if o == "eq0": return "%s == 0" % s(a[0])
    if o == "forall": return "forall %s. %s" % (",".join(map(s, a[0])), s(a[1]))
    if o == "uf": return "%s(%s)" % (a[0], ", ".join(map(s, a[1:])))
    return "%s(%s)" % (o, ", ".join(map(s, a)))
