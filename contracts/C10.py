"""C10: propagation of uncertainties.  var(f) = sum_i (df/dx_i)^2 var_i, value(f) = f(values)."""
import math, struct
import term as t
from check import *
import check

TY = {"vd": "f64", "vf": "f32", "d": "f64", "f": "f32", "l": "i64", "i": "i32", "b": "bool"}


def R(x):
    if x.sort == "B": return t.ite(x, t.const(1, "R"), t.const(0, "R"))
    return x if x.sort == "R" else t.toreal(x)


def tol(e): return (1e-9, 1e-300) if e == "f64" else (2e-5, 1e-35)


def close(a, b, e):
    r, q = tol(e)
    return approx(a, b, r, q)


# f(a, b) and its partial derivatives
def F(op, a, b):
    if op == "add": return a + b, t.const(1, "R"), t.const(1, "R")
    if op == "subtract": return a - b, t.const(1, "R"), t.const(-1, "R")
    if op == "multiply": return a * b, b, a
    if op == "divide": return t.rdiv(a, b), t.inv(b), t.neg(t.rdiv(a, b * b))


def bin_post(op, A, B, res, get):
    def post(v, o):
        a, va, b, vb = get(v)
        f, da, db = F(op, R(a), R(b))
        w = t.const(0, "R")
        if va is not None: w = w + da * da * va
        if vb is not None: w = w + db * db * vb
        r = res(o)
        e = "f32" if "f" in (A[-1], B[-1]) else "f64"
        return [("value is that of the operation on the values", close(r(0), f, e)), ("variance is the sum of squared partial derivatives times variances", close(r(1), w, e))]
    return post


def gensmall(args):
    def val(a, rng):
        if a.elem == "bool": return rng.random() < .5
        if a.elem[0] == "i": return rng.choice([rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(-100000, 100000), 3000000000 if a.elem == "i64" else 100000])
        x = rng.choice([rng.uniform(-3, 3), float(rng.randint(-4, 4)), rng.uniform(0.1, 40)])
        if a.name.startswith("v"): x = abs(x)
        if a.elem == "f32":
            import struct
            x = struct.unpack("<f", struct.pack("<f", x))[0]
        return x

    def g(rng):
        d = {}
        for a in args:
            if a.kind == "scalar": d[a.name] = val(a, rng)
            elif a.kind == "io": d[a.name] = [val(a, rng), abs(val(a, rng))]
        return d
    return g


def L(name, *xs):
    """library function: uninterpreted for the proof, evaluated when checking a concrete run"""
    if check.CONCRETE[0]:
        c = [t.cval(x) for x in xs]
        if all(x is not None for x in c):
            f = getattr(math, name)
            try: return t.const(Fraction(f(*[float(x) for x in c])), "R")
            except (ValueError, OverflowError): return t.var("nonfinite", "R")
    return t.uf(name, tuple(xs), "R")


def zinv(ex, L):
    z = t.const(0, "R")
    out = []
    for nm in "vw":
        o0, o1 = L.arr(ex.argobj[nm])
        for _, i, c in L.positions(): out.append(forall(i, c, lambda k: t.eq(t.select(o1, k), z)))
    return out


def entries(tier):
    es = []

    def add(fn, args, post, pre=None, **k):
        es.append(Entry(fn, args, post, pre=pre, gen=k.pop("gen", gensmall(args)), **k))
    for op in ("add", "subtract", "multiply", "divide"):
        nz = (lambda v: [t.ne(R(v.b), t.const(0, "R"))]) if op == "divide" else None
        for A, B in (("vd", "vd"), ("vf", "vf"), ("vd", "vf"), ("vf", "vd"), ("vd", "d"), ("vf", "f"), ("vd", "f"), ("vf", "d"), ("vd", "l"), ("vd", "i"), ("vf", "l"), ("vf", "i"),
                     ("d", "vd"), ("f", "vf"), ("d", "vf"), ("f", "vd"), ("l", "vd"), ("i", "vd"), ("l", "vf")) + ((("vd", "b"), ("b", "vd")) if op == "multiply" else ()):
            args = [S("a", TY[A])] + ([S("va", TY[A])] if A[0] == "v" else []) + [S("b", TY[B])] + ([S("vb", TY[B])] if B[0] == "v" else [])
            rt = "f64" if "d" in (A[-1], B[-1]) else "f32"
            get = lambda v, A=A, B=B: (v.a, v.va if A[0] == "v" else None, v.b, v.vb if B[0] == "v" else None)
            add("%s_%s_%s" % (op, A, B), args + [Out("o", rt, 2)], bin_post(op, A, B, lambda o: o.o, get), pre=nz, about="element::%s" % op)
        for A, B in (("vd", "vd"), ("vf", "vf"), ("vd", "vf"), ("vf", "vd"), ("vd", "d"), ("vd", "f"), ("vd", "l"), ("vd", "i"), ("vf", "l"), ("vf", "f")):
            args = [IO("x", TY[A], 2), S("b", TY[B])] + ([S("vb", TY[B])] if B[0] == "v" else [])
            get = lambda v, A=A, B=B: (v.x(0), v.x(1), v.b, v.vb if B[0] == "v" else None)
            add("i%s_%s_%s" % (op, A, B), args, bin_post(op, "vf" if A == "vf" else A, "vf" if A == "vf" else B, lambda o: o.x, get), pre=nz, about="element::%s_equals" % op)
    z = t.const(0, "R")
    add("inan_add_vd_vd", [IO("x", "f64", 2), S("b", "f64"), S("vb", "f64")], bin_post("add", "vd", "vd", lambda o: o.x, lambda v: (v.x(0), v.x(1), v.b, v.vb)), about="element::nan_add_equals of finite operands")
    for S_, e in (("d", "f64"), ("f", "f32")):
        args = [S("a", e), S("va", e), Out("o", e, 2)]

        def un(name, f, df2, pre=None, e=e, args=args, S_=S_):
            def post(v, o):
                return [("value", close(o.o(0), f(v.a), e)), ("variance", close(o.o(1), df2(v.a) * v.va, e))]
            add("%s_v%s" % (name, S_), args, post, pre=pre, about="element::%s" % name)
        pos = lambda v: [t.gt(v.a, z)]
        nz = lambda v: [t.ne(v.a, z)]
        un("negative", lambda a: t.neg(a), lambda a: t.const(1, "R"))
        un("abs", lambda a: t.Abs(a), lambda a: t.const(1, "R"))
        un("sqrt", lambda a: L("sqrt", a), lambda a: t.rdiv(t.const(Fraction(1, 4), "R"), a), pos)
        un("exp", lambda a: L("exp", a), lambda a: L("exp", a) * L("exp", a))
        un("log", lambda a: L("log", a), lambda a: t.inv(a) * t.inv(a), pos)
        ln10 = math.log(10.0) if e == "f64" else struct.unpack("<f", struct.pack("<f", math.log(10.0)))[0]
        ln10 = t.const(Fraction(ln10), "R")
        un("log10", lambda a: L("log10", a), lambda a, ln10=ln10: t.inv(a) * t.inv(a) * t.inv(ln10 * ln10), pos)
        un("reciprocal", lambda a: t.inv(a), lambda a: t.inv(a) * t.inv(a) * t.inv(a) * t.inv(a), nz)
    for K in (0, 1, 2, 3, 4, 5, 7, -1, -2, -3):
        nm = str(K) if K >= 0 else "m%d" % -K

        def ipow(a, k):
            r = t.const(1, "R")
            for _ in range(abs(k)): r = r * (a if k >= 0 else t.inv(a))
            return r

        def post(v, o, K=K):
            p = ipow(v.a, K)
            d = t.const(K, "R") * ipow(v.a, K - 1)
            return [("value", close(o.o(0), p, "f64")), ("variance", close(o.o(1), d * d * v.va, "f64"))]
        add("pow_vd_" + nm, [S("a", "f64"), S("va", "f64"), Out("o", "f64", 2)], post, pre=(lambda v: [t.ne(v.a, z)]) if K <= 0 else None, about="element::pow, integer exponent %d" % K)
        if K == 2: add("pow_ip_vd_2", [S("a", "f64"), S("va", "f64"), Out("o", "f64", 2)], post, about="element::pow_in_place")

    def ppost(v, o, e="f64"):
        b = v.b if "b" in v.d else v.e
        one = t.const(1, "R")
        p1 = L("pow", v.a, b - one)
        return [("value is base^exponent (as base^(exponent-1)*base)", t.Implies(t.ne(v.a, z), close(o.o(0), p1 * v.a, e))),
                ("zero to the zero is one", t.Implies(t.And(t.eq(v.a, z), t.eq(b, z)), close(o.o(0), one, e))),
                ("zero to a positive power is zero", t.Implies(t.And(t.eq(v.a, z), t.gt(b, z)), close(o.o(0), z, e))),
                ("variance is (exponent*base^(exponent-1))^2 times the variance", t.Implies(t.ne(v.a, z), close(o.o(1), b * b * p1 * p1 * v.va, e)))]
    posgen = lambda n, f32=False: (lambda rng: (lambda q: {"a": q(rng.choice([0.0, rng.uniform(0.1, 5)])), "va": q(rng.uniform(0, 2)), n: q(rng.choice([0.0, 1.0, 2.0, rng.uniform(-3, 3), 0.5]))})((lambda x: __import__("struct").unpack("<f", __import__("struct").pack("<f", x))[0]) if f32 else float))
    add("pow_vd_d", [S("a", "f64"), S("va", "f64"), S("b", "f64"), Out("o", "f64", 2)], ppost, gen=posgen("b"), about="element::pow, real exponent")
    add("pow_vf_f", [S("a", "f32"), S("va", "f32"), S("b", "f32"), Out("o", "f32", 2)], lambda v, o: ppost(v, o, "f32"), gen=posgen("b", True), about="element::pow, real exponent")
    add("pow_ip_vd_d", [S("a", "f64"), S("va", "f64"), S("e", "f64"), Out("o", "f64", 2)], ppost, gen=posgen("e"), about="element::pow_in_place")
    av = [S("a", "f64"), S("va", "f64")]
    add("values_vd", av, lambda v, o: [("the value", t.eq(o.ret, v.a))], ret="f64")
    add("variances_vd", av, lambda v, o: [("the variance", t.eq(o.ret, v.va))], ret="f64")
    add("stddevs_vd", av, lambda v, o: [("root of the variance", close(o.ret, L("sqrt", v.va), "f64"))], ret="f64")
    both = lambda o, x, y: [("value", t.eq(o.o(0), x)), ("variance", t.eq(o.o(1), y))]
    O2 = Out("o", "f64", 2)
    add("where_vd", [S("c", "bool")] + av + [S("b", "f64"), S("vb", "f64"), O2], lambda v, o: both(o, t.ite(v.c, v.a, v.b), t.ite(v.c, v.va, v.vb)))
    add("convert_fd", [S("a", "f32"), S("va", "f32"), O2], lambda v, o: both(o, v.a, v.va))
    add("assign_vd_d", av + [S("b", "f64"), O2], lambda v, o: both(o, v.b, z))
    add("assign_vd_vf", av + [S("b", "f32"), S("vb", "f32"), O2], lambda v, o: both(o, v.b, v.vb))
    add("from_double", [S("a", "f64"), O2], lambda v, o: both(o, v.a, z))
    add("fill_vd", av + [S("b", "f64"), S("vb", "f64"), O2], lambda v, o: both(o, v.b, v.vb))
    add("fill_zeros_vd", av + [O2], lambda v, o: both(o, z, z))
    n = lambda v: v.n
    rg = lambda rng: (lambda n: {"v": [rng.uniform(-3, 3) for _ in range(n)], "w": [rng.uniform(0, 3) for _ in range(n)], "n": n, "i": rng.randrange(n)})(rng.randint(1, 6))
    es.append(Entry("ev_get", [In("v", "f64", lambda v: v.n), In("w", "f64", lambda v: v.n), S("n"), S("i"), O2], lambda v, o: both(o, v.v(v.i), v.w(v.i)),
                    pre=lambda v: [t.ge(v.i, 0), t.lt(v.i, v.n)], gen=rg, about="event::get picks value and variance of one element"))
    es.append(Entry("zero_spans", [IO("v", "f64", lambda v: v.n), IO("w", "f64", lambda v: v.n), S("n")],
                    lambda v, o: [("values are zero", forall(0, v.n, lambda k: t.eq(o.v(k), z))), ("variances are zero", forall(0, v.n, lambda k: t.eq(o.w(k), z)))],
                    pre=lambda v: [t.ge(v.n, 0)], gen=rg, about="element::zero of value and variance spans",
                    inv=zinv))
    return es


ASSUMPTIONS = ["floating-point arithmetic is treated as exact real arithmetic (rounding, overflow and NaN are outside this property)",
               "exp, log, log10, sqrt, pow are uninterpreted functions of their arguments; base^e is represented as base^(e-1)*base"]
