"""C21: spatial transforms.  Every transform denotes an affine map v -> R v + t; products denote composition."""
import math
import term as t
import check
from check import *

N = {"KQ": 4, "KT": 3, "KM": 9, "KA": 12}
c = lambda x: t.const(x, "R")


def denote(k, p):
    """kind, parameters -> (3x3 matrix, translation)"""
    if k == "KT": return [[c(int(i == j)) for j in range(3)] for i in range(3)], [p(0), p(1), p(2)]
    if k == "KM": return [[p(3 * i + j) for j in range(3)] for i in range(3)], [c(0)] * 3
    if k == "KA": return [[p(4 * i + j) for j in range(3)] for i in range(3)], [p(4 * i + 3) for i in range(3)]
    x, y, z, w = (p(i) for i in range(4))
    two, one = c(2), c(1)
    return [[one - two * (y * y + z * z), two * (x * y - w * z), two * (x * z + w * y)],
            [two * (x * y + w * z), one - two * (x * x + z * z), two * (y * z - w * x)],
            [two * (x * z - w * y), two * (y * z + w * x), one - two * (x * x + y * y)]], [c(0)] * 3


def app(d, v):
    R, s = d
    out = []
    for i in range(3):
        acc = s[i]
        for j in range(3): acc = acc + R[i][j] * v[j]
        out.append(acc)
    return out


def det(d):
    R = d[0]
    return R[0][0] * (R[1][1] * R[2][2] - R[1][2] * R[2][1]) - R[0][1] * (R[1][0] * R[2][2] - R[1][2] * R[2][0]) + R[0][2] * (R[1][0] * R[2][1] - R[1][1] * R[2][0])


def unit(p):
    s = c(0)
    for i in range(4): s = s + p(i) * p(i)
    return approx(s, c(1), 1e-9, 1e-9)


def reduce_goal(hyps, goal):
    """ideal membership: rewrite w^2 by the unit-norm hypotheses (their leading terms are coprime, so this decides), clear reciprocals"""
    if goal.op != "eq0": return None
    d = t.pd(goal.args[0])
    rules = {}
    for h in hyps:
        if h.op != "eq0": continue
        hd = t.pd(h.args[0])
        # the last square w_i^2
        sq = [m for m in hd if len(m) == 1 and m[0][1] == 2]
        if len(sq) == 4:
            lead = max(sq, key=lambda m: m[0][0].id)
            a = lead[0][0]
            rules[a] = {m: -cc / hd[lead] for m, cc in hd.items() if m != lead}
    # reciprocals of a determinant: x * inv(x) = 1 when x != 0 is a hypothesis
    invs = {a for m in d for a, p in m if a.op == "inv"}
    for iv in invs:
        x = iv.args[0]
        if t.ne(x, t.const(0, "R")) not in hyps: 
            ok = any(h.op == "not" and h.args[0].op == "eq0" and (h.args[0].args[0] is x or t.cval(t.rdiv(h.args[0].args[0], x)) is not None) for h in hyps)
            if not ok: continue
        k = max(p for m in d for a, p in m if a is iv)
        acc = t.const(0, "R")
        for m, cc in d.items():
            e = dict(m).get(iv, 0)
            rest = t.from_pd({tuple(ap for ap in m if ap[0] is not iv): cc}, "R")
            acc = acc + rest * x ** (k - e)
        d = t.pd(acc)
    n = 0
    while n < 200:
        n += 1
        out = {}
        changed = False
        for m, cc in d.items():
            hit = next(((a, p) for a, p in m if a in rules and p >= 2), None)
            if hit is None: out[m] = out.get(m, 0) + cc; continue
            changed = True
            a, p = hit
            rest = tuple((b, q - 2 if b is a else q) for b, q in m if not (b is a and q == 2))
            for rm, rc in rules[a].items():
                mm = t.mmul(rest, rm)
                out[mm] = out.get(mm, 0) + cc * rc
        d = {m: x for m, x in out.items() if x != 0}
        if not d: return "polynomial normal form"
        if not changed: break
    return None


def genfor(args):
    def one(k, r):
        if k == "KQ":
            q = [r.gauss(0, 1) for _ in range(4)]
            if r.random() < .3: q = r.choice([[0, 0, 0, 1], [1, 0, 0, 0], [.5, .5, .5, .5], [.5, -.5, .5, .5], [0, 1, 0, 0]])
            n = math.sqrt(sum(x * x for x in q))
            return [x / n for x in q]
        return [r.choice([float(r.randint(-4, 4)), r.uniform(-3, 3)]) for _ in range(N.get(k, 3))]

    def g(r):
        d = {}
        for a, k in args: d[a] = one(k, r) if k else r.choice([float(r.randint(-4, 4)), r.uniform(-3, 3)])
        return d
    return g


def entries(tier):
    es = []
    v3 = In("v", "f64", 3)
    O = Out("o", "f64", 3)
    vec = lambda v: [v.v(i) for i in range(3)]
    eq3 = lambda o, w, nm="component": [("%s %d" % (nm, i), approx(o.o(i), w[i], 1e-7, 1e-6)) for i in range(3)]
    P = lambda n, k: In(n, "f64", N[k])
    units = lambda v, ks: [unit(v[n]) for n, k in ks if k == "KQ"]
    opts = {"tactic": reduce_goal, "timeout": 20.0}

    def add(fn, args, post, **k):
        k.setdefault("opts", opts)
        es.append(Entry(fn, args, post, search=400, **k))
    for k in N:
        add("apply_" + k, [P("p", k), v3, O], lambda v, o, k=k: eq3(o, app(denote(k, v.p), vec(v))), pre=lambda v, k=k: units(v, [("p", k)]), gen=genfor([("p", k), ("v", "V")]), about="transform applied to a vector")
        for l in N:
            post = lambda v, o, k=k, l=l: eq3(o, app(denote(k, v.p), app(denote(l, v.q), vec(v))))
            kw = dict(pre=lambda v, k=k, l=l: units(v, [("p", k), ("q", l)]), gen=genfor([("p", k), ("q", l), ("v", "V")]))
            add("mul_%s_%s" % (k, l), [P("p", k), P("q", l), v3, O], post, about="element::multiply of transforms", **kw)
            if (k, l) in (("KT", "KT"), ("KT", "KA"), ("KA", "KA"), ("KA", "KT")):
                add("asp_%s_%s" % (k, l), [P("p", k), P("q", l), v3, O], post, about="element::apply_spatial_transformation", **kw)
            if (k, l) == ("KM", "KM"): add("imul_KM_KM", [P("p", k), P("q", l), v3, O], post, about="element::multiply_equals", **kw)
        z = c(0)

        def ipre(v, k=k):
            r = units(v, [("p", k)])
            if k in ("KM", "KA"):
                D = det(denote(k, v.p))
                x = t.cval(D)
                r.append(t.ne(D, z) if x is None else t.lift(abs(x) > Fraction(1, 100)))
            return r
        for nm in ("inv_", "invl_"):
            add(nm + k, [P("p", k), v3, O], lambda v, o: eq3(o, vec(v)), pre=ipre, gen=genfor([("p", k), ("v", "V")]), about="inverse")
    n2 = lambda v: v.p(0) * v.p(0) + v.p(1) * v.p(1) + v.p(2) * v.p(2) + v.p(3) * v.p(3)
    for nm in ("qinv_r", "qinv_l"):
        add(nm, [P("p", "KQ"), Out("o", "f64", 4)], lambda v, o: [("identity rotation, component %d" % i, approx(o.o(i), c(int(i == 3)), 1e-9, 1e-9)) for i in range(4)], pre=lambda v: [t.ne(n2(v), z)],
            gen=lambda r: {"p": [r.choice([0.0, 1.0, -2.0, r.uniform(-3, 3)]) for _ in range(4)]}, about="inverse of a rotation given by any non-zero quaternion")
    add("qget", [P("p", "KQ"), S("i", "i32")], lambda v, o: [("component", t.And(*[t.Implies(t.eq(v.i, k), t.eq(o.ret, v.p(k))) for k in range(4)]))], pre=lambda v: [t.ge(v.i, 0), t.le(v.i, 3)], ret="f64", gen=lambda r: {"p": [1., 2., 3., 4.], "i": r.randrange(4)}, about="Quaternion::operator()")
    add("tget", [P("p", "KT"), S("i", "i32")], lambda v, o: [("component", t.And(*[t.Implies(t.eq(v.i, k), t.eq(o.ret, v.p(k))) for k in range(3)]))], pre=lambda v: [t.ge(v.i, 0), t.le(v.i, 2)], ret="f64", gen=lambda r: {"p": [1., 2., 3.], "i": r.randrange(3)}, about="Translation::operator()")

    def geq(k):
        def g(r):
            a = [float(r.randint(-2, 2)) for _ in range(N[k])]; b = list(a)
            if r.random() < .7: b[r.randrange(N[k])] += 1.0
            return {"p": a, "q": b}
        return g
    for s, k in (("q", "KQ"), ("t", "KT"), ("a", "KA")):
        alleq = lambda v, k=k: t.And(*[t.eq(v.p(i), v.q(i)) for i in range(N[k])])
        add(s + "eq", [P("p", k), P("q", k)], lambda v, o, f=alleq: [("equal iff all parameters are", t.iff(o.ret, f(v)))], ret="bool", gen=geq(k), about="equality", opts={})
        add(s + "ne", [P("p", k), P("q", k)], lambda v, o, f=alleq: [("unequal iff some parameter is", t.iff(o.ret, t.Not(f(v))))], ret="bool", gen=geq(k), about="inequality", opts={})
    for f in ("qdefault", "tdefault"): add(f, [v3, O], lambda v, o: eq3(o, vec(v)), gen=genfor([("v", "V")]), about="default is the identity")
    A, B = In("a", "f64", 3), In("b", "f64", 3)
    g2 = genfor([("a", "V"), ("b", "V")])
    dot = lambda a, b: a(0) * b(0) + a(1) * b(1) + a(2) * b(2)
    add("vdot", [A, B], lambda v, o: [("scalar product", approx(o.ret, dot(v.a, v.b), 1e-9, 1e-9))], ret="f64", gen=g2, about="element::dot")
    add("vcross", [A, B, O], lambda v, o: eq3(o, [v.a((i + 1) % 3) * v.b((i + 2) % 3) - v.a((i + 2) % 3) * v.b((i + 1) % 3) for i in range(3)]), gen=g2, about="element::cross")
    add("vadd", [A, B, O], lambda v, o: eq3(o, [v.a(i) + v.b(i) for i in range(3)]), gen=g2, about="element::add")
    add("vsub", [A, B, O], lambda v, o: eq3(o, [v.a(i) - v.b(i) for i in range(3)]), gen=g2, about="element::subtract")
    add("vneg", [A, O], lambda v, o: eq3(o, [-v.a(i) for i in range(3)]), gen=genfor([("a", "V")]), about="element::negative")
    gs = genfor([("a", "V"), ("s", None)])
    for f in ("vscale_l", "vscale_r"): add(f, [S("s", "f64"), A, O], lambda v, o: eq3(o, [v.a(i) * v.s for i in range(3)]), gen=gs, about="element::multiply")
    add("vscale_i", [S("s", "i64"), A, O], lambda v, o: eq3(o, [v.a(i) * t.toreal(v.s) for i in range(3)]), gen=lambda r: {"s": r.randint(-5, 5), "a": [1.5, -2., r.uniform(-1, 1)]}, about="element::multiply")
    add("vdiv", [S("s", "f64"), A, O], lambda v, o: eq3(o, [t.rdiv(v.a(i), v.s) for i in range(3)]), pre=lambda v: [t.ne(v.s, c(0))], gen=gs, about="element::divide")
    add("position", [S("x", "f64"), S("y", "f64"), S("z", "f64"), O], lambda v, o: eq3(o, [v.x, v.y, v.z]), about="geometry::position")
    add("components", [A, O], lambda v, o: eq3(o, [v.a(i) for i in range(3)]), gen=genfor([("a", "V")]), about="geometry::x, y, z")
    return es


ASSUMPTIONS = ["floating-point arithmetic is treated as exact real arithmetic", "rotations are given by unit quaternions, inverted linear parts are regular (preconditions)",
               "Eigen's expression templates are verified as compiled without vectorisation"]
