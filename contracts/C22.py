"""C22: units of results, over an arbitrary algebra of units (every operation of the units library is uninterpreted)."""
import term as t
import check
from check import *
from text import TEXT, made

DEFINES = ["-DVERIF_ALGEBRA"]
FNS = "times|divide|pow|sqrt|equal|same_base|count|times_overflows|divides_overflows|pow_overflows|is_error|is_valid|is_custom|is_custom_count|custom_count_number|commodity|multiplier"
OPAQUE = r"^u_(%s)$|^scipp::units::Unit::name|^scipp::units::to_string|^llnl::units::to_string" % FNS
Z = t.const(0)


def lane(a, i):
    b = (a >> (8 * i)) & 255
    return b - 256 if b > 127 else b


def pack(l):
    r = sum((x & 255) << (8 * i) for i, x in enumerate(l))
    return r - (1 << 64) if r >> 63 else r


L = lambda a: [lane(a, i) for i in range(8)]
fit = lambda l: all(-127 <= x <= 127 for x in l)
# the executable instance, as in C22.cpp (only used when the harness is run)
CONC = {
    "times": lambda a, b: pack([x + y for x, y in zip(L(a), L(b))]), "divide": lambda a, b: pack([x - y for x, y in zip(L(a), L(b))]), "pow": lambda a, n: pack([x * n for x in L(a)]),
    "sqrt": lambda a: pack([x // 2 for x in L(a)]) if all(x % 2 == 0 for x in L(a)) else -1, "equal": lambda a, b: a == b, "same_base": lambda a, b: L(a)[:7] == L(b)[:7], "count": lambda a: lane(a, 5),
    "times_overflows": lambda a, b: not fit([x + y for x, y in zip(L(a), L(b))]), "divides_overflows": lambda a, b: not fit([x - y for x, y in zip(L(a), L(b))]), "pow_overflows": lambda a, n: not fit([x * n for x in L(a)]), "is_error": lambda a: a == -1,
}
BOOL = {"equal", "same_base", "times_overflows", "divides_overflows", "pow_overflows", "is_error", "is_valid", "is_custom", "is_custom_count"}
SYM = {"equal", "same_base", "times", "times_overflows"}  # symmetric in their operands; equality and same_base are reflexive


def u(name, *a):
    a = [t.lift(x) for x in a]
    if check.CONCRETE[0]: return t.lift(CONC[name](*[t.cval(x) for x in a]))
    if name in SYM: b = [t.Min(*a), t.Max(*a)]
    else: b = a
    r = t.uf("u_" + name, b, "I")
    if name in BOOL: r = t.ne(r, 0)
    return t.Or(t.eq(a[0], a[1]), r) if name in ("equal", "same_base") else r


def handler(name):
    def h(ex, st, inst, a, dem):
        r = u(name, *a)
        return t.ite(r, 1, 0) if name in BOOL else r
    return h


CONTRACTS = [(r"^u_%s$" % n, handler(n)) for n in FNS.split("|") if n != "multiplier"] + [(r"^scipp::units::Unit::name", made)] + TEXT
ONE, RAD, M = 0, 1 << 48, 1
DEG = (1 << 48) + (20 << 56)
COUNTS = 1 << 40


class Un:
    """a unit: h (has one), i (which)"""

    def __init__(s, h, i): s.h, s.i = h, i


NONE = Un(t.FALSE, Z)
lit = lambda i: Un(t.TRUE, t.const(i))
eq = lambda x, y: t.And(t.iff(x.h, y.h), t.Or(t.Not(x.h), u("equal", x.i, y.i)))


def entries(tier):
    es = []

    def unit(v, n): return Un(t.ne(v["h" + n], 0), v[n])

    def args(n): return [a for c in "abcd"[:n] for a in (S(c), S("h" + c, "i32"))]
    POOL = [0, 0, 1, 1, 1 << 8, 1 << 16, RAD, DEG, COUNTS, pack([2, 0, -2, 0, 0, 0, 0, 4]), pack([100, 0, 0, 0, 0, 0, 0, 0]), pack([-100, 0, 3, 0, 0, 0, 0, 0])]

    def gen(n):
        def g(r):
            d = {}
            for c in "abcd"[:n]: d[c], d["h" + c] = r.choice(POOL), int(r.random() < .7)
            if n >= 2 and r.random() < .5: d["b"], d["hb"] = d["a"], d["ha"]
            if n >= 3 and r.random() < .5: d["c"], d["hc"] = d[r.choice("ab")], d["ha"]
            if n >= 4 and r.random() < .5: d["d"], d["hd"] = d["c"], d["hc"]
            for c in "abcd"[:n]:
                if r.random() < .15: d[c], d["h" + c] = 0, r.randrange(2)
            return d
        return g

    def is_(o, *cands):
        """the result is one of these units (equal up to the equality of units where several are given)"""
        return t.And(t.eq(o.ret, 0), t.Or(*[t.And(t.iff(t.ne(o.o(0), 0), x.h), t.Implies(x.h, t.eq(o.o(1), x.i))) for x in cands]))

    def add(fn, n, post, about, inplace=False):
        def p(v, o):
            us = [unit(v, c) for c in "abcd"[:n]]
            return post(us, o)
        es.append(Entry(fn, args(n) + [IO("o", "i64", 2) if False else Out("o", "i64", 2)], p, gen=gen(n), contracts=CONTRACTS, ret="i32", about=about, exhaustive=False))

    def refused(o): return t.eq(o.ret, 1)

    def rule(ok, *res, keep=False):
        """accepted exactly if ok(units), with one of the given units as the result; in place, a refusal leaves the unit"""
        def post(us, o):
            c = ok(us) if callable(ok) else ok
            r = [x(us) if callable(x) else x for x in res]
            out = [("unit of the result", t.Implies(c, is_(o, *r))), ("refused otherwise", t.Implies(t.Not(c), refused(o)))]
            if keep: out.append(("refusal leaves the unit", t.Implies(t.Not(c), t.And(t.iff(t.ne(o.o(0), 0), us[0].h), t.Implies(us[0].h, t.eq(o.o(1), us[0].i))))))
            return out
        return post
    A, B, C = (lambda us: us[0]), (lambda us: us[1]), (lambda us: us[2])
    ALL = t.TRUE
    same = lambda us: eq(us[0], us[1])
    nones = lambda us: t.And(*[t.Not(x.h) for x in us])
    ones = lambda us: t.And(*[eq(lit(ONE), x) for x in us])

    def product(op, x, y):
        both = t.And(x.h, y.h)
        ok = t.Or(t.And(t.Not(x.h), t.Not(y.h)), t.And(both, t.Not(u({"times": "times_overflows", "divide": "divides_overflows"}[op], x.i, y.i))))
        return ok, Un(both, u(op, x.i, y.i))

    def prod(op, keep=False): return rule(lambda us: product(op, us[0], us[1])[0], lambda us: product(op, us[0], us[1])[1], keep=keep)
    SAME, SAMEK = rule(same, A, B), rule(same, A, B, keep=True)
    TONONE = rule(same, NONE)
    KEEP = rule(ALL, A)
    TRIG = rule(lambda us: t.Or(eq(us[0], lit(RAD)), eq(us[0], lit(DEG))), lit(ONE))
    ARC = rule(lambda us: eq(us[0], lit(ONE)), lit(RAD))
    HYP = rule(ones, lit(ONE), A)
    ATAN2 = rule(lambda us: t.And(us[0].h, us[1].h, eq(us[0], us[1])), lit(RAD))
    root = lambda us: Un(us[0].h, u("sqrt", us[0].i))
    ROOT = rule(lambda us: t.Or(t.Not(us[0].h), t.Not(u("is_error", u("sqrt", us[0].i)))), root)
    # Unit
    for p in ("u_", "e_"):
        for f, w in (("add", "sum"), ("sub", "difference"), ("mod", "remainder")):
            add(p + f, 2, SAME, w + " of equal units")
            add(p + "i" + f, 2, SAMEK, w + " of equal units, in place")
        for f, op in (("mul", "times"), ("div", "divide")):
            add(p + f, 2, prod(op), op)
            add(p + "i" + f, 2, prod(op, True), op + ", in place")
        for f in "neg abs floor ceil rint".split(): add(p + f, 1, KEEP, f)
        add(p + ("root" if p == "u_" else "sqrt"), 1, ROOT, "square root")
        for f in "sin cos tan".split(): add(p + f, 1, TRIG, f)
        for f in "asin acos atan".split(): add(p + f, 1, ARC, f)
        for f in "sinh cosh tanh asinh acosh atanh".split(): add(p + f, 1, HYP, f)
        add(p + "atan2", 2, ATAN2, "atan2 of equal units")

    def power(v, o):
        x, n = unit(v, "a"), v.n
        inrange = t.And(t.ge(n, -2**31), t.lt(n, 2**31))
        if check.CONCRETE[0]:
            k = t.cval(n)
            r, over = (u("pow", x.i, k), u("pow_overflows", x.i, k)) if -2**31 <= k < 2**31 else (Z, t.TRUE)
        else: r, over = u("pow", x.i, n), u("pow_overflows", x.i, n)
        return [("no unit", t.Implies(t.Not(x.h), is_(o, NONE))), ("power", t.Implies(t.And(x.h, inrange, t.Not(over)), is_(o, Un(t.TRUE, r)))), ("refused if not representable", t.Implies(t.And(x.h, inrange, over), refused(o))),
                ("exponents beyond int: refused unless dimensionless", t.Implies(t.And(x.h, t.Not(inrange)), t.Or(refused(o), t.And(eq(x, lit(ONE)), is_(o, x, lit(ONE))))))]
    es.append(Entry("u_power", args(1) + [S("n"), Out("o", "i64", 2)], power, gen=lambda r: dict(gen(1)(r), n=r.choice([0, 1, 2, 3, -1, -2, 60, 2**31, 2**32, 2**32 + 1, -2**40 + 2])), contracts=CONTRACTS, ret="i32", about="integer powers"))

    def pred(fn, n, goal, about): es.append(Entry(fn, args(n), lambda v, o: [("holds exactly if", t.iff(t.ne(o.ret, 0), goal([unit(v, c) for c in "ab"[:n]])))], gen=gen(n), contracts=CONTRACTS, ret="i32", about=about))
    pred("u_eq", 2, same, "equality")
    pred("u_ne", 2, lambda us: t.Not(same(us)), "inequality")
    pred("u_identical", 2, lambda us: t.And(us[0].h, us[1].h, t.eq(us[0].i, us[1].i)), "identical")
    pred("u_counts", 1, lambda us: eq(us[0], lit(COUNTS)), "is counts")
    pred("u_density", 1, lambda us: t.And(us[0].h, t.Not(eq(us[0], lit(COUNTS))), t.ne(u("count", us[0].i), 0)), "is a count density")

    def base(v, o):
        a, b = unit(v, "a"), unit(v, "b")
        return [("same base", t.Implies(t.And(a.h, b.h), t.And(t.eq(o.ret, 0), t.iff(t.ne(o.o(0), 0), u("same_base", a.i, b.i))))), ("no unit has no base", t.Implies(t.Or(t.Not(a.h), t.Not(b.h)), t.eq(o.o(0), 0)))]
    es.append(Entry("u_base", args(2) + [Out("o", "i64", 1)], base, gen=gen(2), contracts=CONTRACTS, ret="i32", about="same base units"))
    # element operations
    add("e_floordiv", 2, prod("divide"), "floor division")
    add("e_spatial", 2, SAME, "application of a spatial transformation")
    three = lambda us: t.And(eq(us[0], us[1]), eq(us[0], us[2]))
    for f in ("isclose", "isclosenan"): add("e_" + f, 3, rule(three, NONE), "closeness")
    for f in "less greater le ge eq ne".split(): add("e_" + f, 2, TONONE, "comparison")
    add("e_norm", 1, KEEP, "norm")
    for f in ("dot", "cross"): add("e_" + f, 2, prod("times"), f + " product")
    add("e_reciprocal", 1, lambda us, o: prod("divide")([lit(ONE), us[0]], o), "reciprocal")
    add("e_pow", 2, rule(ones, lit(ONE), A, B), "power with an exponent per element")
    for f in "exp log log10 erf erfc".split(): add("e_" + f, 1, HYP, f + " requires a dimensionless argument")
    add("e_midpoint", 2, SAME, "midpoint")
    for f in "and or xor".split():
        add("e_" + f, 2, rule(nones, NONE), "logical " + f)
        add("e_i" + f, 2, rule(nones, NONE, keep=True), "logical %s, in place" % f)
    add("e_not", 1, rule(nones, NONE), "logical not")
    for f in "isnan isinf isfinite isposinf isneginf islinspace isarange".split(): add("e_" + f, 1, rule(ALL, NONE), f)
    for f in "nan_to_num pinf_to_num ninf_to_num".split():
        add("e_" + f, 2, SAME, f)
        add("e_" + f + "_out", 3, rule(lambda us: eq(us[1], us[2]), B, C, keep=True), f + " with output")
    for f in "values stddevs get0 get1 zeros zeros_like x y z groups".split(): add("e_" + f, 1, KEEP, f)
    add("e_variances", 1, lambda us, o: prod("times")([us[0], us[0]], o), "variances have the squared unit")
    for f in ("sorted", "sorted_d"): add("e_" + f, 3, rule(lambda us: eq(us[1], us[2]), NONE, keep=True), "sortedness")
    add("e_zip", 2, SAME, "zip")
    add("e_where", 3, rule(lambda us: t.And(t.Not(us[0].h), eq(us[1], us[2])), B, C), "where")
    add("e_position", 3, rule(three, A, B, C), "position from components")
    for f in ("map", "map_sorted"): add("e_" + f, 4, rule(lambda us: t.And(eq(us[0], us[1]), eq(us[2], us[3])), C, lambda us: us[3]), "lookup of function values")

    def mapmul(us, o):
        ok, r = product("times", us[0], us[3])
        return rule(t.And(eq(us[1], us[2]), ok), r, keep=True)(us, o)
    for f in ("map_mul", "map_mul_sorted"): add("e_" + f, 4, mapmul, "scaling by function values")
    add("e_histogram", 3, rule(lambda us: eq(us[0], us[2]), B), "histogram")
    add("e_rebin", 3, rule(lambda us: eq(us[0], us[2]), B), "rebin")
    for f in "binning binning_sorted grouping".split(): add("e_" + f, 3, rule(lambda us: t.And(t.Not(us[0].h), eq(us[1], us[2])), NONE, keep=True), "bin indices")
    add("e_grouping_contiguous", 4, rule(lambda us: t.And(t.Not(us[0].h), t.Not(us[2].h), eq(us[1], us[3])), NONE, keep=True), "bin indices from contiguous groups")
    add("e_existing", 3, KEEP, "bin indices from existing bins")
    add("e_count", 3, rule(nones, NONE), "counts per bin")
    add("e_bin", 4, rule(ALL, C), "mapping events to bins")
    add("e_to_unit", 2, rule(ALL, B), "conversion to a target unit")
    add("e_subbin", 2, SAMEK, "adding sub-bin sizes")
    for f in ("incl", "excl"): add("e_" + f, 2, rule(same, A, B, keep=True), "cumulative sum")
    return es


ASSUMPTIONS = ["LLNL-Units is not installed: its operations (product, quotient, power, root, their overflow tests, equality, base comparison) are arbitrary functions of opaque units; equality and base comparison are reflexive and symmetric, the product is commutative", "text of messages and parsing/printing of units (Unit(string), name) are not specified", "unit literals of scipp's headers are distinct opaque constants"]
TRUSTED = ["stubs/algebra/algebra.hpp forwards the interface of precise_unit to the uninterpreted functions"]
EXPLANATION = "each operator on Unit and the unit overload of each element operation; accepted exactly if the rule says so, with the unit the rule says"
