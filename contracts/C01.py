"""C01: a label always denotes the same dimension; rely/guarantee contracts on the lock around the table of labels.

Taking the lock: the table becomes any table that satisfies the invariant and extends the one last seen (what other threads
may have done in between). Giving up exclusive access: the invariant holds again and the table extends the one at the time
of taking it. Texts are known by their identity (equal texts have equal identities)."""
import term as t
import check
from check import *
from symex import Ptr, Arr, Choice, Unsupported
from text import TEXT, STR

OPAQUE = r"std::unordered_map<|_Node_(const_)?iterator|^label\(|^label\[|^is_label\("
NAMES = "<invalid> <none> <internal_structure_component> <internal_structure_row> <internal_structure_column> <internal_histogram> <internal_sort> <internal_accumulate> energy event group position row temperature time wavelength x y z".split()
FIRST, LAST = 1000, 65535  # ids of user labels
NODE, KEY, VAL = 56, 8, 40  # layout of a node of the map: link, label, id, hash
P8, I64, I16 = ("ptr",), ("i", 64), ("i", 16)
Z = t.const(0)
at = lambda p, o: Ptr(p.obj, t.lift(p.off) + o)


def setup(ex, st, v):
    ex.argv = v
    ex.text = ex.new_obj(st, Arr(1, {}, None, "texts"))
    ex.nodes = ex.new_obj(st, Arr(NODE, {KEY: (8, t.fresh("labels", "AI")), VAL: (2, t.fresh("ids", "AI"))}, Z, "table of labels"))
    ex.built = ex.new_obj(st, Arr(NODE, {KEY: (8, t.constarr(t.const(-1))), VAL: (2, t.constarr(Z))}, Z, "table of built-in labels"))
    ex.lits = {}
    pos, ipos = t.fresh("where", "AI"), t.fresh("whereid", "AI")
    L, I = (st.mem[ex.nodes].fields[f][1] for f in (KEY, VAL))
    st.ghost["table"] = (Z, pos, ipos, L, I)  # as of the last time the lock was given up
    st.ghost["lock"] = (0, None)


# texts
def text(ex, st, i): return Ptr(ex.text, i)


def put(ex, st, p, i):
    ex.store(st, P8, text(ex, st, i), p)
    ex.store(st, I64, t.const(0), at(p, 8))
    return None


def ident(ex, st, p):
    for ob in (ex.nodes, ex.built):
        if p.obj == ob: return t.select(st.mem[ob].fields[KEY][1], t.fdiv(t.sub(p.off, KEY), NODE))
    q = ex.load(st, P8, p)
    return t.lift(q.off) if isinstance(q, Ptr) and q.obj == ex.text else t.fresh("text", "I")


def literal(ex, st, inst, a, dem):
    s = b""
    while True:
        c = ex.load(st, ("i", 8), at(a[1], len(s)))
        c = c if isinstance(c, int) else t.cval(c)
        if c is None: return NotImplemented
        if c == 0: break
        s += bytes([c & 255])
    return put(ex, st, a[0], t.const(of_text(ex, s.decode())))


def of_text(ex, s): return NAMES.index(s) if s in NAMES else ex.lits.setdefault(s, 10**9 + len(ex.lits))
def copied(ex, st, inst, a, dem): return put(ex, st, a[0], ident(ex, st, a[1]))


def assigned(ex, st, inst, a, dem):
    put(ex, st, a[0], ident(ex, st, a[1]))
    return a[0]


def label(ex, st, inst, a, dem): return put(ex, st, a[0], a[1])
def is_label(ex, st, inst, a, dem): return t.eq(ident(ex, st, a[0]), a[1])
def equal(ex, st, inst, a, dem): return t.eq(ident(ex, st, a[0]), ident(ex, st, a[1]))


# the invariant of the table
def arrays(ex, st): return [st.mem[ex.nodes].fields[f][1] for f in (KEY, VAL)]
def builtin(i): return t.And(t.ge(i, 0), t.lt(i, len(NAMES)))


def good(p, n, pos, ipos, L, I): return t.And(entry(p, pos, ipos, L, I), t.Not(builtin(t.select(L, p))), t.ge(t.select(I, p), FIRST), t.lt(t.select(I, p), FIRST + n))


def entry(p, pos, ipos, L, I): return t.And(t.eq(t.select(pos, t.select(L, p)), p), t.eq(t.select(ipos, t.select(I, p)), p))


def assume_invariant(ex, st, n, pos, ipos, L, I):
    st.pcs.extend([t.ge(n, 0), t.le(n, LAST + 1 - FIRST)])
    st.pcs.append(t.Forall(lambda p: t.Implies(t.And(t.ge(p, 0), t.lt(p, n)), good(p, n, pos, ipos, L, I))))


def unchanged(ex, st, what):
    """nothing is written to the table without exclusive access"""
    n, pos, ipos, L0, I0 = st.ghost["table"]
    for x, x0 in zip(arrays(ex, st), (L0, I0)):
        if x is not x0: ex.oblige("the table is only changed under the exclusive lock (%s)" % what, "lock", st, forall(Z, n, lambda p: t.eq(t.select(x, p), t.select(x0, p))))


def acquire(mode):
    def h(ex, st, inst, a, dem):
        cur, who = st.ghost["lock"]
        if who is not None and (who.obj, repr(t.lift(who.off))) != (a[0].obj, repr(t.lift(a[0].off))): raise Unsupported("more than one lock")
        ex.oblige("the lock is not taken twice by one thread", "lock", st, t.lift(cur == 0))
        unchanged(ex, st, "before taking the lock")
        n0, _, _, L0, I0 = st.ghost["table"]
        n, pos, ipos, L, I = t.fresh("n", "I"), t.fresh("where", "AI"), t.fresh("whereid", "AI"), t.fresh("labels", "AI"), t.fresh("ids", "AI")
        st.pcs.append(t.ge(n, n0))
        st.pcs.append(forall(Z, n0, lambda p: t.And(t.eq(t.select(L, p), t.select(L0, p)), t.eq(t.select(I, p), t.select(I0, p)))))
        assume_invariant(ex, st, n, pos, ipos, L, I)
        for p in st.ghost.get("seen", ()):  # instances at the positions looked up before
            inside = t.And(t.ge(p, 0), t.lt(p, n0))
            st.pcs.append(t.Implies(inside, t.And(t.eq(t.select(L, p), t.select(L0, p)), t.eq(t.select(I, p), t.select(I0, p)), good(p, n, pos, ipos, L, I))))
        ob = ex.wr(st, ex.nodes)
        ob.fields[KEY], ob.fields[VAL], ob.n = (8, L), (2, I), n
        st.ghost["table"] = (n, pos, ipos, L, I)
        st.ghost["now"] = (n, pos, -1)
        st.ghost["lock"] = (mode, a[0])
        return t.const(0)
    return h


def release(ex, st, inst, a, dem):
    mode, who = st.ghost["lock"]
    ex.oblige("only a lock that is held is given up", "lock", st, t.lift(mode != 0))
    if mode == 2:
        n0, _, ip0, L0, I0 = st.ghost["table"]
        n, pos, _ = st.ghost["now"]
        L, I = arrays(ex, st)
        inside = lambda p: t.And(t.ge(p, 0), t.lt(p, n))
        ex.oblige("entries stay: no label or id of the table is changed", "guarantee", st, t.And(t.ge(n, n0), forall(Z, n0, lambda p: t.And(t.eq(t.select(L, p), t.select(L0, p)), t.eq(t.select(I, p), t.select(I0, p))))))
        ex.oblige("labels of the table are distinct", "guarantee", st, forall(Z, n, lambda p: t.eq(t.select(pos, t.select(L, p)), p)))
        ex.oblige("ids of the table are distinct", "guarantee", st, t.Forall(lambda p, q: t.Implies(t.And(t.ge(p, 0), t.lt(p, q), t.lt(q, n)), t.ne(t.select(I, p), t.select(I, q))), 2))
        ex.oblige("no built-in label in the table", "guarantee", st, forall(Z, n, lambda p: t.Not(builtin(t.select(L, p)))))
        ex.oblige("ids of the table are those of user labels, in use from the first one on", "guarantee", st, t.And(t.le(n, LAST + 1 - FIRST), forall(Z, n, lambda p: t.And(t.ge(t.select(I, p), FIRST), t.lt(t.select(I, p), FIRST + n)))))
        ipos = t.fresh("whereid", "AI")  # exists: the ids are distinct
        st.pcs.append(forall(Z, n, lambda p: t.eq(t.select(ipos, t.select(I, p)), p)))
        st.ghost["table"] = (n, pos, ipos, L, I)
    else: unchanged(ex, st, "before giving up the lock")
    st.ghost["lock"] = (0, who)
    return t.const(0)


# maps
def kind(ex, st, m): return t.cval(ex.load(st, I64, m))
def held(ex, st, what, least=1): ex.oblige("the table is %s under the lock" % what, "lock", st, t.lift(st.ghost["lock"][0] >= least))


def default(ex, st, inst, a, dem):
    if st.ghost.get("shared"): raise Unsupported("more than one table of labels")
    st.ghost["shared"] = True
    ex.store(st, I64, t.const(1), a[0])
    return None


def listed(ex, st, inst, a, dem):
    n = t.cval(a[2])
    if n is None: return NotImplemented
    labels = [t.cval(ident(ex, st, at(a[1], 40 * i))) for i in range(n)]
    ids = [t.cval(ex.load(st, I16, at(a[1], 40 * i + 32))) for i in range(n)]
    if None in labels or None in ids: return NotImplemented
    ex.oblige("built-in labels are distinct", "table", st, t.lift(len(set(labels)) == n))
    ex.oblige("built-in ids are distinct", "table", st, t.lift(len(set(ids)) == n))
    ex.oblige("built-in ids are not ids of user labels", "table", st, t.lift(all(0 <= i < FIRST for i in ids)))
    ex.oblige("the built-in labels are the documented ones", "table", st, t.lift(set(labels) == set(range(len(NAMES)))))
    ob = ex.wr(st, ex.built)
    x = t.var("?row", "I")

    def table(keys, vals, other):
        """the finite map as a function; runs of consecutive keys and values are written as one case"""
        runs = []
        for k, y in sorted(zip(keys, vals)):
            if runs and k == runs[-1][1] + 1 and y - k == runs[-1][2]: runs[-1][1] = k
            else: runs.append([k, k, y - k])
        r = t.const(other)
        for a, b, d in reversed(runs): r = t.ite(t.And(t.ge(x, a), t.le(x, b)), x + d, r)
        return t.lam(x, r)
    L, I, W = table(range(n), labels, -1), table(range(n), ids, 0), table(labels, range(n), -1)
    ob.fields[KEY], ob.fields[VAL], ob.n = (8, L), (2, I), t.const(n)
    st.ghost["built"] = (n, W)
    ex.store(st, I64, t.const(2), a[0])
    return None


def parts(ex, st, m):
    k = kind(ex, st, m)
    if k == 2: return ex.built, t.const(st.ghost["built"][0]), st.ghost["built"][1]
    if k == 1: return (ex.nodes,) + (st.ghost["now"][:2] if "now" in st.ghost else st.ghost["table"][:2])
    raise Unsupported("no contract for this map")


def find(ex, st, inst, a, dem):
    if kind(ex, st, a[0]) == 1: held(ex, st, "searched")
    ob, n, pos = parts(ex, st, a[0])
    x = ident(ex, st, a[1])
    L = st.mem[ob].fields[KEY][1]
    if ob == ex.built: there, p = builtin(x), t.select(pos, x)
    else:
        p = t.select(pos, x)
        there = t.And(t.ge(p, 0), t.lt(p, n), t.eq(t.select(L, p), x))
    return Choice([(there, Ptr(ob, NODE * p)), (t.Not(there), Ptr(ob, NODE * n))])


def end(ex, st, inst, a, dem):
    ob, n, _ = parts(ex, st, a[0])
    return Ptr(ob, NODE * n)


def begin(ex, st, inst, a, dem):
    if kind(ex, st, a[0]) == 1: held(ex, st, "traversed")
    return Ptr(parts(ex, st, a[0])[0], Z)


def size(ex, st, inst, a, dem):
    if kind(ex, st, a[0]) == 1: held(ex, st, "measured")
    return parts(ex, st, a[0])[1]


def subscript(ex, st, inst, a, dem):
    if kind(ex, st, a[0]) != 1: raise Unsupported("insertion into the table of built-in labels")
    held(ex, st, "changed", 2)
    n, pos, _ = st.ghost["now"]
    x = ident(ex, st, a[1])
    p = t.select(pos, x)
    L, I = arrays(ex, st)
    there = t.And(t.ge(p, 0), t.lt(p, n), t.eq(t.select(L, p), x))

    def new(s):
        ob = ex.wr(s, ex.nodes)
        ob.fields[KEY], ob.fields[VAL], ob.n = (8, t.store(L, n, x)), (2, t.store(I, n, Z)), n + 1
        s.ghost["seen"] = s.ghost.get("seen", ()) + (n,)
        s.ghost["now"] = (n + 1, t.store(pos, x, n), -1)
        return Ptr(ex.nodes, NODE * n + VAL)
    return Choice([(there, Ptr(ex.nodes, NODE * p + VAL)), (t.Not(there), new)])


def adding(ex, st, inst, a, dem):
    """emplace, try_emplace, insert: a new entry if the label is absent"""
    if kind(ex, st, a[0]) != 1: raise Unsupported("insertion into the table of built-in labels")
    held(ex, st, "changed", 2)
    if len(a) == 3: kp, vp = a[1], a[2]
    elif len(a) == 2: kp, vp = a[1], at(a[1], 32)
    else: return NotImplemented
    if not isinstance(kp, Ptr) or not isinstance(vp, Ptr): return NotImplemented
    n, pos, _ = st.ghost["now"]
    x, w = ident(ex, st, kp), ex.load(st, I16, vp)
    p = t.select(pos, x)
    L, I = arrays(ex, st)
    there = t.And(t.ge(p, 0), t.lt(p, n), t.eq(t.select(L, p), x))
    w = t.ite(t.lt(w, 0), w + 65536, w)

    def new(s):
        ob = ex.wr(s, ex.nodes)
        ob.fields[KEY], ob.fields[VAL], ob.n = (8, t.store(L, n, x)), (2, t.store(I, n, w)), n + 1
        s.ghost["seen"] = s.ghost.get("seen", ()) + (n,)
        s.ghost["now"] = (n + 1, t.store(pos, x, n), -1)
        return (Ptr(ex.nodes, NODE * n), t.const(1))
    return Choice([(there, (Ptr(ex.nodes, NODE * p), t.const(0))), (t.Not(there), new)])


def contains(ex, st, inst, a, dem):
    if kind(ex, st, a[0]) == 1: held(ex, st, "searched")
    ob, n, pos = parts(ex, st, a[0])
    x = ident(ex, st, a[1])
    p = t.select(pos, x)
    there = builtin(x) if ob == ex.built else t.And(t.ge(p, 0), t.lt(p, n), t.eq(t.select(st.mem[ob].fields[KEY][1], p), x))
    return there if "contains(" in dem else t.ite(there, 1, 0)


def step(ex, st, inst, a, dem):
    it = ex.load(st, P8, a[0])
    if it.obj == ex.nodes: held(ex, st, "traversed")
    ex.store(st, P8, at(it, NODE), a[0])
    return a[0]


# ghost statements of the harness
def v_id(ex, st, inst, a, dem):
    st.ghost["id%d" % t.cval(a[0])] = a[1]
    return None


def v_done(ex, st, inst, a, dem):
    unchanged(ex, st, "at the end")
    st.pcs  # the lock is free again: every path out gives it up
    ex.oblige("a label is refused only when all ids are taken", "refusal", st, t.Or(t.eq(a[0], 0), t.And(t.eq(a[0], 1), t.ge(st.ghost["table"][0], LAST + 1 - FIRST))))
    return t.const(1 if st.ghost["lock"][0] == 0 else 0)


def nothing(ex, st, inst, a, dem): return None


M = r"^std::unordered_map<.*>::"
S_ = r"^std::__cxx11::basic_string<char.*>::"
CONTRACTS = [
    (r"^label(\[abi:cxx11\])?\(", label), (r"^is_label\(", is_label), (r"^bool std::operator==<char", equal),
    (S_ + r"basic_string<.*>\(char const\*, ", literal), (S_ + r"basic_string\(std::__cxx11::basic_string<[^()]*> (const&|&&)\)$", copied), (S_ + r"basic_string\(std::__cxx11::basic_string<[^()]*>(&&| const&)\)$", copied), (S_ + r"operator=\(std::__cxx11::basic_string<", assigned),
    (M + r"~unordered_map", nothing), (M + r"unordered_map\(\)$", default), (M + r"unordered_map\(std::initializer_list", listed),
    (M + r"find\(", find), (M + r"c?end\(\)", end), (M + r"c?begin\(\)", begin), (M + r"size\(\)", size), (M + r"operator\[\]\(", subscript), (r"^(std::pair<.*> )?std::unordered_map<.*>::(emplace|try_emplace|insert)(<.*>)?\(", adding), (M + r"(count|contains)\(", contains),
    (r"_Node_(const_)?iterator<.*>::operator\+\+\(\)$", step),
    (r"^pthread_rwlock_rdlock$", acquire(1)), (r"^pthread_rwlock_wrlock$", acquire(2)), (r"^pthread_mutex_lock$", acquire(2)), (r"^pthread_(rwlock|mutex)_unlock$", release),
    (r"^v_id$", v_id), (r"^v_done$", v_done),
] + [x for x in TEXT if "labels_to_string" not in x[0]]


def inv(ex, L):
    out = []
    for ob, _, c in L.positions():
        if ob not in (ex.nodes, ex.built): continue
        mem = L.st.mem[ob]
        I = mem.fields[VAL][1]
        out += [t.ge(c, 0), t.le(c, mem.n)]
        for w in ("id0", "id1"):
            if w not in L.st.ghost: continue
            if t.cval(mem.n) is not None: out.append(t.And(*[t.Implies(t.lt(q, c), t.ne(t.select(I, t.const(q)), L.st.ghost[w])) for q in range(t.cval(mem.n))]))
            else: out.append(forall(Z, c, lambda q: t.ne(t.select(I, q), L.st.ghost[w])))
        if ob == ex.nodes:
            n, pos, ipos, La, Ia = L.st.ghost["table"]
            out.append(t.Implies(t.lt(c, n), entry(c, pos, ipos, La, Ia)))
    return out


def entries(tier):
    es = []

    def gen(r):
        d = {"k": r.choice([r.randrange(19), r.randrange(19, 40), r.randrange(10**6)])}
        d["j"] = r.choice([d["k"], r.randrange(40), r.randrange(10**6)])
        return d
    pre = lambda v: [t.ge(v.k, 0), t.lt(v.k, 10**9)] + ([t.ge(v.j, 0), t.lt(v.j, 10**9)] if "j" in v.d else [])
    ok = lambda o: t.eq(o.ret, 0)
    yes = lambda o, i, nm: (nm, t.Implies(ok(o), t.eq(o.o(i), 1)))
    no = lambda o, i, nm: (nm, t.Implies(ok(o), t.eq(o.o(i), 0)))

    def always(v, o): return [("the lock is free afterwards", t.eq(o.o(1), 1)), ("built-in labels are not refused", t.Implies(t.And(*[builtin(v[x]) for x in "kj" if x in v.d]), ok(o)))]

    def add(fn, post, about, args="k", n=2):
        es.append(Entry(fn, [S(x) for x in args] + [Out("o", "i64", n)], lambda v, o: always(v, o) + post(v, o), pre=(lambda v: [t.lt(v.k, 19)] + pre(v)) if fn == "builtin" else pre, gen=(lambda r: {"k": r.randrange(19)}) if fn == "builtin" else (lambda r: {x: y for x, y in gen(r).items() if x in args}), ret="i32", inv=inv, setup=setup, contracts=CONTRACTS, about=about))
    add("create", lambda v, o: [("id of a user label", t.Implies(t.And(ok(o), t.ge(v.k, 19)), t.And(t.ge(o.o(0), FIRST), t.le(o.o(0), LAST)))), ("id of a built-in label", t.Implies(t.And(ok(o), t.lt(v.k, 19)), t.lt(o.o(0), FIRST)))], "creation from a label")
    add("again", lambda v, o: [yes(o, 0, "the same label gives an equal dimension"), no(o, 2, "not unequal"), no(o, 3, "not ordered before itself")], "creation from the same label twice", n=4)
    add("two", lambda v, o: [("equal exactly if the labels are", t.Implies(ok(o), t.iff(t.eq(o.o(0), 1), t.eq(v.k, v.j)))), ("unequal exactly if the labels differ", t.Implies(ok(o), t.iff(t.eq(o.o(2), 1), t.ne(v.k, v.j)))), ("the order is total", t.Implies(ok(o), t.eq(o.o(0) + o.o(3) + o.o(4), 1)))], "creation from two labels", args="kj", n=5)
    add("named", lambda v, o: [yes(o, 0, "the name is the label")], "name of a created dimension")
    add("shown", lambda v, o: [yes(o, 0, "the name is the label")], "to_string of a created dimension")
    add("renamed", lambda v, o: [yes(o, 0, "the name denotes the dimension")], "creation from the name of a dimension")
    add("builtin", lambda v, o: [yes(o, 0, "built-in label and id belong together")], "built-in labels")
    sizes = [(60, 8), (100, 4), (200, 2), (400, 3), (70000, 1)]
    es.append(Entry("crowd", [S("m"), S("threads"), Out("o", "i64", 1)], lambda v, o: [("replay: one id per label, one label per id, names found", t.eq(o.o(0), 0))], pre=lambda v: [t.ge(v.m, 0), t.ge(v.threads, 1)],
                    exhaustive=lambda: [{"m": m, "threads": n} for m, n in sizes], gen=lambda r: {"m": 100, "threads": 4}, search=len(sizes), ret="i32", about="replay only: a crowd of threads creating the same labels, and more labels than there are ids"))
    return es


ASSUMPTIONS = ["lock primitives of the C library exclude each other as specified (any number of readers or one writer) and order memory accesses; they do not fail", "std::unordered_map is a finite map, its traversal visits each entry once; texts are equal exactly if their contents are", "initialisation of function-local statics is thread safe (C++11)", "no bad_alloc"]
TRUSTED = ["contracts on pthread_rwlock_*, std::unordered_map, std::string"]
EXPLANATION = "any number of threads and any interleaving: every critical section is verified against an arbitrary table that satisfies the invariant and extends the one last seen, and has to leave such a table behind"
