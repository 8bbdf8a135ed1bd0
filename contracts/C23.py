"""C23: special values, closeness and NaN-aware minimum/maximum, bit-precise IEEE semantics."""
import term as t
from check import *
from C11 import P, W, gen, SORT, SPECIAL

SORT = dict(SORT)


def entries(tier):
    es = []

    def add(fn, args, post, **k):
        k.setdefault("gen", gen(args))
        es.append(Entry(fn, args, post, ieee=True, search=600, **k))
    nan, inf, neg = (lambda x: P("isnan", x)), (lambda x: P("isinf", x)), (lambda x: P("isneg", x))
    fin = lambda x: t.Not(t.Or(inf(x), nan(x)))
    pinf, ninf = (lambda x: t.And(inf(x), t.Not(neg(x)))), (lambda x: t.And(inf(x), neg(x)))
    cl = {"isnan": nan, "isinf": inf, "isfinite": fin, "isposinf": pinf, "isneginf": ninf}
    for op, f in cl.items():
        for s in "df": add("%s_%s" % (op, s), [S("a", SORT[s])], lambda v, o, f=f: [("IEEE classification", t.iff(o.ret, f(v.a)))], ret="bool", about="element::" + op)
        for s in "li": add("%s_%s" % (op, s), [S("a", SORT[s])], lambda v, o, op=op: [("integers are finite", t.iff(o.ret, t.lift(op == "isfinite")))], ret="bool", about="element::" + op)
    for s in "df": add("signbit_" + s, [S("a", SORT[s])], lambda v, o: [("sign", t.Implies(t.Not(nan(v.a)), t.iff(o.ret, neg(v.a))))], ret="bool", about="numeric::signbit")
    add("signbit_i", [S("a", "i32")], lambda v, o: [("sign", t.iff(o.ret, t.lt(v.a, 0)))], ret="bool", about="numeric::signbit")
    x3 = [In("x", "f64", 3)]
    any3 = lambda v, f: t.Or(*[f(v.x(k)) for k in range(3)])
    add("isnan_v3", x3, lambda v, o: [("some component is NaN", t.iff(o.ret, any3(v, nan)))], ret="bool", about="numeric::isnan(Vector3d)")
    add("isfinite_v3", x3, lambda v, o: [("all components are finite", t.iff(o.ret, t.Not(any3(v, lambda c: t.Not(fin(c))))))], ret="bool", about="numeric::isfinite(Vector3d)")
    add("isinf_v3", x3, lambda v, o: [("an infinite component and none is NaN", t.iff(o.ret, t.And(any3(v, inf), t.Not(any3(v, nan)))))], ret="bool", about="numeric::isinf(Vector3d)")
    for op, f in (("nan_to_num", nan), ("positive_inf_to_num", pinf), ("negative_inf_to_num", ninf)):
        for s in "df":
            e = SORT[s]
            add("%s_%s" % (op, s), [S("x", e), S("r", e)], lambda v, o, f=f: [("replaced exactly if it matches", t.eq(o.ret, t.ite(f(v.x), v.r, v.x)))], ret=e, about="element::" + op)
            add("%s_v%s" % (op, s), [S("x", e), S("vx", e), S("r", e), S("vr", e), Out("o", e, 2)],
                lambda v, o, f=f: [("value", t.eq(o.o(0), t.ite(f(v.x), v.r, v.x))), ("variance", t.eq(o.o(1), t.ite(f(v.x), v.vr, v.vx)))], about="element::%s, with variance" % op)
            add("%s_out_%s" % (op, s), [S("y", e), S("r", e), Out("o", e, 1)], lambda v, o, f=f: [("replaced exactly if it matches", t.eq(o.o(0), t.ite(f(v.y), v.r, v.y)))], about="element::%s_out_arg" % op)
            add("%s_out_v%s" % (op, s), [S("y", e), S("vy", e), S("r", e), S("vr", e), Out("o", e, 2)],
                lambda v, o, f=f: [("value", t.eq(o.o(0), t.ite(f(v.y), v.r, v.y))), ("variance", t.eq(o.o(1), t.ite(f(v.y), v.vr, v.vy)))], about="element::%s_out_arg, with variance" % op)
    F = lambda op, e, *xs: t.mk("fp." + op, xs, "F64" if e == "f64" else "F32")
    for N in ("ddd", "fff", "ffd"):
        A, C = SORT[N[0]], SORT[N[2]]
        base = lambda v, A=A, C=C: P("le", W(F("abs", A, F("sub", A, v.x, v.y)), A, C), v.t)
        args = [S("x", A), S("y", A), S("t", C)]
        add("isclose_" + N, args, lambda v, o, base=base: [("|x-y| <= tolerance", t.iff(o.ret, base(v)))], ret="bool", about="element::isclose")
        add("isclose_nan_" + N, args, lambda v, o, base=base: [("|x-y| <= tolerance, or both NaN, or infinities of equal sign", t.iff(o.ret, t.Or(t.And(nan(v.x), nan(v.y)), t.And(pinf(v.x), pinf(v.y)), t.And(ninf(v.x), ninf(v.y)), base(v))))], ret="bool", about="element::isclose_equal_nan")
    for N in ("lll", "iii", "lld", "iid", "ild", "lid", "lil", "iil", "ill"):
        A, B, C = (SORT[c] for c in N)
        w = 63 if "l" in N[:2] else 31

        def pre(v, w=w):
            d = v.x - v.y
            return [t.lt(d, 1 << w), t.gt(d, -(1 << w))]

        def base(v, C=C):
            d = t.Abs(v.x - v.y)
            return t.le(d, v.t) if C[0] == "i" else P("le", W(d, "i64", "f64"), v.t)
        args = [S("x", A), S("y", B), S("t", C)]
        post = lambda v, o, base=base: [("|x-y| <= tolerance", t.iff(o.ret, base(v)))]
        add("isclose_" + N, args, post, pre=pre, ret="bool", opts={"check_nsw": True}, about="element::isclose")
        add("isclose_nan_" + N, args, post, pre=pre, ret="bool", opts={"check_nsw": True}, about="element::isclose_equal_nan")
    same = lambda x, y: t.Or(P("eq", x, y), t.And(nan(x), nan(y)))
    for op, better in (("max", lambda a, b: P("lt", b, a)), ("min", lambda a, b: P("lt", a, b))):
        for s in "df":
            e = SORT[s]

            def core(a, b, r, better=better):
                nn = t.And(t.Not(nan(a)), t.Not(nan(b)))
                return [("one of the operands", t.Implies(nn, t.Or(t.eq(r, a), t.eq(r, b)))), ("not the worse operand", t.Implies(nn, t.And(t.Not(better(a, r)), t.Not(better(b, r)))))]
            ab = [S("a", e), S("b", e)]
            add("%s_equals_%s" % (op, s), ab, lambda v, o, core=core: core(v.a, v.b, o.ret) + [("NaN propagates", t.Implies(t.Or(nan(v.a), nan(v.b)), nan(o.ret)))], ret=e, about="element::%s_equals" % op)
            add("nan%s_equals_%s" % (op, s), ab, lambda v, o, core=core: core(v.a, v.b, o.ret) + [("NaN is skipped", t.And(t.Implies(nan(v.a), t.eq(o.ret, v.b)), t.Implies(nan(v.b), t.eq(o.ret, v.a))))], ret=e, about="element::nan%s_equals" % op)
            for p in ("", "nan"):
                add("%s%s_equals_sym_%s" % (p, op, s), ab + [Out("o", e, 2)], lambda v, o: [("independent of operand order", same(o.o(0), o.o(1)))], about="element::%s%s_equals" % (p, op))
                add("%s%s_equals_assoc_%s" % (p, op, s), ab + [S("c", e), Out("o", e, 2)], lambda v, o: [("independent of grouping", same(o.o(0), o.o(1)))], about="element::%s%s_equals" % (p, op))
        f = t.Max if op == "max" else t.Min
        for p in ("", "nan"):
            for s, e in (("l", "i64"), ("i", "i32"), ("t", "i64")):
                add("%s%s_equals_%s" % (p, op, s), [S("a", e), S("b", e)], lambda v, o, f=f: [("extremum", t.eq(o.ret, f(v.a, v.b)))], ret=e, about="element::%s%s_equals" % (p, op))
            add("%s%s_equals_b" % (p, op), [S("a", "bool"), S("b", "bool")], lambda v, o, op=op: [("extremum", t.iff(o.ret, t.Or(v.a, v.b) if op == "max" else t.And(v.a, v.b)))], ret="bool", about="element::%s%s_equals" % (p, op))
    return es


ASSUMPTIONS = ["integer closeness: the difference of the operands is representable in their common type (precondition)", "integer distances are converted to double by a correctly rounded conversion before comparison with a floating-point tolerance"]
EXPLANATION = "floating point is modelled bit-precisely (IEEE 754); all entries are straight-line and decided for all bit patterns including NaN, infinities and signed zero"
