"""C12: floor division, remainder, true division."""
import term as t
from check import *

I = {"i64": 64, "i32": 32}


def lo(e): return -(1 << (I[e] - 1))


def imin(v): return t.And(t.eq(v.a, lo("i64")), t.eq(v.b, -1))


def fd_post(a, b, q):
    # largest q with q*b "not beyond" a: 0 <= (a - q*b)/b < 1, written without division
    r = a - q * b
    return [("division by zero yields 0", t.Implies(t.eq(b, 0), t.eq(q, 0))),
            ("quotient is the floor (b>0)", t.Implies(t.gt(b, 0), t.And(t.le(0, r), t.lt(r, b)))),
            ("quotient is the floor (b<0)", t.Implies(t.lt(b, 0), t.And(t.le(r, 0), t.gt(r, b))))]


def mod_post(a, b, r):
    return [("remainder by zero is 0", t.Implies(t.eq(b, 0), t.eq(r, 0))),
            ("sign and magnitude (b>0)", t.Implies(t.gt(b, 0), t.And(t.le(0, r), t.lt(r, b)))),
            ("sign and magnitude (b<0)", t.Implies(t.lt(b, 0), t.And(t.le(r, 0), t.gt(r, b))))]


def noovf(A, B):
    def pre(v):
        m = lo("i64" if "i64" in (A, B) else "i32")
        return [t.Not(t.And(t.eq(v.a, m), t.eq(v.b, -1)))]
    return pre


def gen(A, B):
    def pick(e, r):
        m = 1 << (I[e] - 1)
        return r.choice([r.randint(-20, 20), r.randint(-20, 20), r.randint(-m, m - 1), r.randint(-m, m - 1), m - 1, -m, 0, 1, -1, (1 << 53) + 1 if e == "i64" else 3, -(1 << 53) - 1 if e == "i64" else 5])
    return lambda r: {"a": pick(A, r), "b": pick(B, r)}


def F(x, e, R):
    """conversion of an operand to the common type"""
    if e in I: return t.mk("fp.ofint64" if R == "f64" else "fp.ofint32", (x,), "F64" if R == "f64" else "F32")
    return x if e == R else t.mk("fp.to64", (x,), "F64")


def same(x, y):
    if x is y: return t.TRUE
    n = lambda z: t.mk("fp.isnan", (z,), "B")
    return t.Or(t.And(n(x), n(y)), t.mk("fp.eq", (x, y), "B"))


def isz(x): return t.mk("fp.iszero", (x,), "B")


def ffloor(a, b): return t.mk("fp.floor", (t.mk("fp.div", (a, b), a.sort),), a.sort)


def entries(tier):
    es = []
    for A in I:
        for B in I:
            R = "i64" if "i64" in (A, B) else "i32"
            n = "%s_%s" % (A, B)
            args = [S("a", A), S("b", B)]
            es.append(Entry("fd_" + n, args, lambda v, o: fd_post(v.a, v.b, o.ret), pre=noovf(A, B), ret=R, gen=gen(A, B), opts={"check_nsw": True, "round_ints": True}, search=4000, about="integer floor_divide"))
            es.append(Entry("rem_" + n, args, lambda v, o: mod_post(v.a, v.b, o.ret), ret=R, gen=gen(A, B), opts={"check_nsw": True, "round_ints": True}, search=4000, about="integer remainder"))
            es.append(Entry("dm_" + n, args + [Out("out", R, 2)], lambda v, o: [("quotient times divisor plus remainder is the dividend", t.Implies(t.ne(v.b, 0), t.eq(o.out(0) * v.b + o.out(1), v.a)))], pre=noovf(A, B), gen=gen(A, B), opts={"check_nsw": True, "round_ints": True}, about="quotient and remainder together"))
    oi = {"check_nsw": True, "round_ints": True}
    a2 = [S("a"), S("b")]
    p, g = noovf("i64", "i64"), gen("i64", "i64")
    es.append(Entry("el_fd_i64", a2, lambda v, o: fd_post(v.a, v.b, o.ret), pre=p, gen=g, ret="i64", opts=oi, about="element::floor_divide"))
    es.append(Entry("el_mod_i64", a2, lambda v, o: mod_post(v.a, v.b, o.ret), gen=g, ret="i64", opts=oi, about="element::mod"))
    g2 = lambda r: (lambda d: {"a": [d["a"]], "b": d["b"]})(g(r))
    p2 = lambda v: [t.Not(t.And(t.eq(v.a(0), lo("i64")), t.eq(v.b, -1)))]
    es.append(Entry("el_fd_eq_i64", [IO("a", "i64", 1), S("b")], lambda v, o: fd_post(v.a(0), v.b, o.a(0)), pre=p2, gen=g2, opts=oi, about="element::floor_divide_equals"))
    es.append(Entry("el_mod_eq_i64", [IO("a", "i64", 1), S("b")], lambda v, o: mod_post(v.a(0), v.b, o.a(0)), gen=g2, opts=oi, about="element::mod_equals"))
    for A, B, R in (("f64", "f64", "f64"), ("f32", "f32", "f32"), ("f64", "i64", "f64"), ("i64", "f64", "f64"), ("f64", "i32", "f64"), ("i32", "f64", "f64")):
        n = "%s_%s" % (A, B)
        args = [S("a", A), S("b", B)]

        def fpost(v, o, A=A, B=B, R=R):
            a, b = F(v.a, A, R), F(v.b, B, R)
            return [("quotient is the floor of the IEEE quotient", same(o.ret, ffloor(a, b)))]

        def rpost(v, o, A=A, B=B, R=R):
            a, b = F(v.a, A, R), F(v.b, B, R)
            z = isz(b) if B not in I else t.eq(v.b, 0)
            return [("remainder by zero is NaN", t.Implies(z, t.mk("fp.isnan", (o.ret,), "B"))),
                    ("remainder is complementary to the floor quotient", t.Implies(t.Not(z), same(o.ret, t.mk("fp.sub", (a, t.mk("fp.mul", (ffloor(a, b), b), a.sort)), a.sort))))]
        es.append(Entry("fd_" + n, args, fpost, ret=R, ieee=True, about="floating floor_divide"))
        es.append(Entry("rem_" + n, args, rpost, ret=R, ieee=True, about="floating remainder"))
    for A, B in (("i64", "i64"), ("i32", "i32"), ("i64", "i32"), ("f64", "f64"), ("f64", "i64"), ("i64", "f64")):
        def tpost(v, o, A=A, B=B):
            return [("true quotient of the operands as doubles", same(o.ret, t.mk("fp.div", (F(v.a, A, "f64"), F(v.b, B, "f64")), "F64")))]
        es.append(Entry("td_%s_%s" % (A, B), [S("a", A), S("b", B)], tpost, ret="f64", ieee=True, about="true_divide"))
    ff = [S("a", "f64"), S("b", "f64")]
    es.append(Entry("el_fd_f64", ff, lambda v, o: [("floor of the quotient", same(o.ret, ffloor(v.a, v.b)))], ret="f64", ieee=True, about="element::floor_divide"))
    es.append(Entry("el_mod_f64", ff, lambda v, o: [("NaN for zero", t.Implies(isz(v.b), t.mk("fp.isnan", (o.ret,), "B"))), ("complementary", t.Implies(t.Not(isz(v.b)), same(o.ret, t.mk("fp.sub", (v.a, t.mk("fp.mul", (ffloor(v.a, v.b), v.b), "F64")), "F64"))))], ret="f64", ieee=True, about="element::mod"))
    es.append(Entry("el_div_i64", a2, lambda v, o: [("true quotient", same(o.ret, t.mk("fp.div", (F(v.a, "i64", "f64"), F(v.b, "i64", "f64")), "F64")))], ret="f64", ieee=True, about="element::divide of integers"))
    return es


ASSUMPTIONS = ["integer operands for which the quotient is not representable (INT_MIN / -1) are outside the precondition",
               "float variants: std::floor is IEEE roundToIntegralTowardNegative"]
