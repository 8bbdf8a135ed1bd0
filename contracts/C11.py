"""C11: the answer for a value with variance is the answer for its value alone (bit-precise IEEE semantics)."""
import random, struct
import term as t
from check import *

SORT = {"d": "f64", "f": "f32", "l": "i64", "i": "i32"}


def W(x, e, f):
    """operand converted to the common floating type of the comparison"""
    if e in ("i64", "i32"): return t.mk("fp.ofint64" if f == "f64" else "fp.ofint32", (x,), "F64" if f == "f64" else "F32")
    if e == "f32" and f == "f64": return t.mk("fp.to64", (x,), "F64")
    return x


def P(op, *xs): return t.mk("fp." + op, tuple(xs), "B")


CMP = {"less": lambda a, b: P("lt", a, b), "greater": lambda a, b: P("lt", b, a), "less_equal": lambda a, b: P("le", a, b), "greater_equal": lambda a, b: P("le", b, a),
       "equal": lambda a, b: P("eq", a, b), "not_equal": lambda a, b: t.Not(P("eq", a, b))}
SPECIAL = [float("nan"), float("inf"), float("-inf"), 0.0, -0.0, 1.0, -1.0, 2.5, -3.25, 1e300]


def f32(x): 
    if x != x or abs(x) == float("inf"): return x
    return struct.unpack("<f", struct.pack("<f", max(min(x, 3e38), -3e38)))[0]


def gen(args):
    def one(e, r):
        if e in ("i64", "i32"): return r.choice([0, 1, -1, 2, 3, -7, 1 << 30])
        x = r.choice(SPECIAL + [r.uniform(-4, 4)])
        return f32(x) if e == "f32" else x

    def g(r):
        d = {}
        for a in args:
            if a.kind == "scalar": d[a.name] = one(a.elem, r)
            elif a.kind in ("io", "in"): d[a.name] = [one(a.elem, r) for _ in range(a.n)]
        # equal values with different variances matter
        fl = [a.name for a in args if a.kind == "scalar" and a.elem[0] == "f" and not a.name.startswith("v")]
        if r.random() < .3:
            if len(fl) == 2: d[fl[1]] = d[fl[0]]
            if "x" in d and "b" in d: d["b"] = d["x"][0]
        return d
    return g


def entries(tier):
    es = []

    def add(fn, args, post, **k):
        es.append(Entry(fn, args, post, ieee=True, gen=gen(args), search=600, **k))
    for op, f in CMP.items():
        for N in ("dd", "ff", "df", "fd"):
            A, B = SORT[N[0]], SORT[N[1]]
            c = "f64" if "d" in N else "f32"
            add("%s_v%s_vv" % (op, N), [S("a", A), S("va", A), S("b", B), S("vb", B)], lambda v, o, f=f, A=A, B=B, c=c: [("answer is that of the values", t.iff(o.ret, f(W(v.a, A, c), W(v.b, B, c))))], ret="bool", about="element::" + op)
        for N in ("dd", "ff", "df", "fd", "dl", "di", "fl", "fi"):
            A, B = SORT[N[0]], SORT[N[1]]
            c = "f64" if "d" in N else "f32"
            add("%s_v%s_vs" % (op, N), [S("a", A), S("va", A), S("b", B)], lambda v, o, f=f, A=A, B=B, c=c: [("answer is that of the values", t.iff(o.ret, f(W(v.a, A, c), W(v.b, B, c))))], ret="bool", about="element::" + op)
            add("%s_v%s_sv" % (op, N), [S("a", B), S("b", A), S("vb", A)], lambda v, o, f=f, A=A, B=B, c=c: [("answer is that of the values", t.iff(o.ret, f(W(v.a, B, c), W(v.b, A, c))))], ret="bool", about="element::" + op)
    for s, e in (("d", "f64"), ("f", "f32")):
        nan = lambda x: P("isnan", x)
        for op, better in (("max", lambda a, b: P("lt", b, a)), ("min", lambda a, b: P("lt", a, b))):
            def both(o, x, y): return t.And(t.eq(o(0), x), t.eq(o(1), y))

            def sel(a, va, b, vb, o, better=better):
                """the result is one of the operands, with its own variance; never the worse one"""
                isA, isB = both(o, a, va), both(o, b, vb)
                return [("result is one operand with its own variance", t.Or(isA, isB)),
                        ("not the worse operand", t.And(t.Implies(better(a, b), isA), t.Implies(better(b, a), isB)))]
            add("vv_%s_%s" % (op, s), [S("a", e), S("va", e), S("b", e), S("vb", e), Out("o", e, 2)], lambda v, o, sel=sel: sel(v.a, v.va, v.b, v.vb, o.o), about="%s of two uncertain values" % op)

            def acc(v, o, sel=sel):
                a, va = v.x(0), v.x(1)
                nn = t.And(t.Not(nan(a)), t.Not(nan(v.b)))
                return [(n, t.Implies(nn, g)) for n, g in sel(a, va, v.b, v.vb, o.x)] + \
                    [("NaN on the right is taken over with its variance", t.Implies(nan(v.b), both(o.x, v.b, v.vb))),
                     ("NaN on the left stays", t.Implies(t.And(nan(a), t.Not(nan(v.b))), both(o.x, a, va)))]

            def nacc(v, o, sel=sel):
                a, va = v.x(0), v.x(1)
                nn = t.And(t.Not(nan(a)), t.Not(nan(v.b)))
                return [(n, t.Implies(nn, g)) for n, g in sel(a, va, v.b, v.vb, o.x)] + \
                    [("NaN on the right is skipped", t.Implies(t.And(nan(v.b), t.Not(nan(a))), both(o.x, a, va))),
                     ("NaN on the left is replaced", t.Implies(nan(a), both(o.x, v.b, v.vb)))]
            args = [IO("x", e, 2), S("b", e), S("vb", e)]
            add("%s_equals_%s" % (op, s), args, acc, about="element::%s_equals" % op)
            add("nan%s_equals_%s" % (op, s), args, nacc, about="element::nan%s_equals" % op)
        a1 = [S("a", e), S("va", e)]
        cl = {"isnan": lambda x: nan(x), "isinf": lambda x: P("isinf", x), "isfinite": lambda x: t.Not(t.Or(P("isinf", x), nan(x))),
              "isposinf": lambda x: t.And(P("isinf", x), t.Not(P("isneg", x))), "isneginf": lambda x: t.And(P("isinf", x), P("isneg", x))}
        for op, f in cl.items():
            post = lambda v, o, f=f: [("classification of the value", t.iff(o.ret, f(v.a)))]
            add("%s_%s" % (op, s), a1, post, ret="bool", about="element::" + op)
            add("v_%s_%s" % (op, s), a1, post, ret="bool", about="core::" + op)
        add("v_signbit_%s" % s, a1, lambda v, o: [("sign of the value", t.Implies(t.Not(nan(v.a)), t.iff(o.ret, P("isneg", v.a))))], ret="bool", about="core::signbit")
    return es


ASSUMPTIONS = ["integer operands are converted to the floating type of the comparison by an (unspecified but fixed) correctly rounded conversion"]
EXPLANATION = "floating point is modelled bit-precisely (IEEE 754 binary64/binary32); all entries are straight-line and decided for all operand bit patterns including NaN, infinities and signed zero"
