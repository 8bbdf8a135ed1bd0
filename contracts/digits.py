"""Mixed-radix positions: p = i_0 + n_0 (i_1 + n_1 (i_2 + ...)), digits innermost first, 0 <= i_d < n_d.
Lemma (extra_checks): 0 <= comp(a..b) < prod(a..b) for every group of consecutive digits; it justifies the facts handed to
the verifier and the division hints (whose side conditions are obligations of their own)."""
import term as t
import prover as pv


def rv(f, n): return [f(n - 1 - d) for d in range(n)]  # innermost first


def dot(i, s):
    r = t.const(0)
    for a, b in zip(i, s): r = r + a * b
    return r


def prod(xs):
    r = t.const(1)
    for x in xs: r = r * x
    return r


def comp(ds, ns):
    """position of the digits ds (innermost first) in radices ns"""
    r = t.const(0)
    for i in reversed(range(len(ds))): r = ds[i] + ns[i] * r
    return r


def facts(ds, ns, sharp=None):
    """group bounds; digits before `sharp` are at their maximum, digit `sharp` is below it"""
    out = []
    R = len(ds)
    for a in range(R):
        for b in range(a, R):
            c, p = comp(ds[a:b + 1], ns[a:b + 1]), prod(ns[a:b + 1])
            out += [t.ge(p, 1), t.ge(c, 0), t.le(c, p - 1)]
            if sharp is not None and a <= sharp <= b: out.append(t.le(c, p - 2))
            if sharp is not None and a <= sharp <= b: out.append(t.ge(p, 2))
    return [x for x in out if x is not t.TRUE]


def hints(digit_sets, ns):
    """(dividend, divisor) -> (quotient, remainder)"""
    tab = {}
    R = len(ns)
    for ds in digit_sets:
        for a in range(R):
            for c in range(a, R):
                x = comp(ds[a:c + 1], ns[a:c + 1])
                for b in range(a, c + 1):
                    tab.setdefault((x.id, prod(ns[a:b + 1]).id), (comp(ds[b + 1:c + 1], ns[b + 1:c + 1]), comp(ds[a:b + 1], ns[a:b + 1])))
    # one past the end
    for a in range(R):
        for c in range(a, R):
            for b in range(a, c + 1): tab.setdefault((prod(ns[a:c + 1]).id, prod(ns[a:b + 1]).id), (prod(ns[b + 1:c + 1]), t.const(0)))

    def f(ex, st, a, b): return tab.get((t.lift(a).id, t.lift(b).id))
    return f


def lemma_checks():
    c, p, i, n = (t.var(x) for x in "cpin")
    base = [t.ge(c, 0), t.le(c, p - 1), t.ge(p, 1), t.ge(i, 0), t.le(i, n - 1), t.ge(n, 1)]
    out = []
    for nm, hyps, g in (("0 <= c + p*i <= p*n - 1", base, t.And(t.ge(c + p * i, 0), t.le(c + p * i, p * n - 1), t.ge(p * n, 1))),
                        ("strict if the lower digits are not all at the end", base + [t.le(c, p - 2)], t.And(t.le(c + p * i, p * n - 2), t.ge(p * n, 2))),
                        ("strict if the upper digit is not at the end", base + [t.le(i, n - 2)], t.And(t.le(c + p * i, p * n - 2), t.ge(p * n, 2)))):
        r = pv.prove(hyps, g, 30.0)
        out.append(("lemma: " + nm, bool(r), r.backend + " " + r.reason, None))
    return out
