"""Contract on std::unordered_map with integer keys: a finite map. The object holds (ghost) a presence array, the nodes and
the number of entries; find returns the node of the key or end(), operator[] inserts a zero if absent. Everything else a
map offers is left without a contract (a caller that uses it is undecided)."""
import re
import term as t
from symex import Arr, Ptr, Unsupported

OPAQUE = r"std::unordered_map<.*>::(?!.*(value_type|mapped_type))"
SIZE = {"long": 8, "int": 4, "scipp::core::time_point": 8, "unsigned short": 2, "unsigned long": 8}
P8, I64 = ("ptr",), ("i", 64)


def layout(dem):
    m = re.search(r"unordered_map<([\w: ]+), ([\w: ]+), ", dem)
    if not m or m.group(1) not in SIZE or m.group(2) not in SIZE: raise Unsupported("no contract for this map: " + dem[:120])
    k, v = SIZE[m.group(1)], SIZE[m.group(2)]
    vo = 8 + max(k, v)
    return k, v, vo, (vo + v + 7) // 8 * 8


def ctor(ex, st, inst, a, dem):
    k, v, vo, stride = layout(dem)
    ident = t.var("?key", "I")
    dom = ex.new_obj(st, Arr(8, {0: (8, t.constarr(t.const(0)))}, None, "map presence"))
    nodes = ex.new_obj(st, Arr(stride, {8: (k, t.lam(ident, ident)), vo: (v, t.fresh("vals", "AI"))}, None, "map nodes"))
    ex.store(st, P8, Ptr(dom, 0), a[0])
    ex.store(st, P8, Ptr(nodes, 0), at(a[0], 8))
    ex.store(st, I64, t.const(0), at(a[0], 24))
    return None


def at(p, o): return Ptr(p.obj, t.lift(p.off) + o)


def move(ex, st, inst, a, dem):
    for o, ty in ((0, P8), (8, P8), (24, I64)): ex.store(st, ty, ex.load(st, ty, at(a[1], o)), at(a[0], o))
    return None


def parts(ex, st, m): return ex.load(st, P8, m), ex.load(st, P8, at(m, 8)), ex.load(st, I64, at(m, 24))


def key(ex, st, p, k): return ex.load(st, ("i", 8 * k), p)


def subscript(ex, st, inst, a, dem):
    k, v, vo, stride = layout(dem)
    dom, nodes, n = parts(ex, st, a[0])
    x = key(ex, st, a[1], k)
    new = t.eq(ex.load(st, I64, Ptr(dom.obj, 8 * x)), 0)
    cell = Ptr(nodes.obj, stride * x + vo)
    ex.store(st, I64, n + t.ite(new, 1, 0), at(a[0], 24))
    ex.store(st, I64, t.const(1), Ptr(dom.obj, 8 * x))
    ex.store(st, ("i", 8 * v), t.ite(new, 0, ex.load(st, ("i", 8 * v), cell)), cell)
    return cell


def find(ex, st, inst, a, dem):
    from symex import Choice
    k, v, vo, stride = layout(dem)
    dom, nodes, n = parts(ex, st, a[0])
    x = key(ex, st, a[1], k)
    present = t.ne(ex.load(st, I64, Ptr(dom.obj, 8 * x)), 0)
    return Choice([(present, Ptr(nodes.obj, stride * x)), (t.Not(present), Ptr(0, t.const(0)))])


def end(ex, st, inst, a, dem): return Ptr(0, t.const(0))
def size(ex, st, inst, a, dem): return parts(ex, st, a[0])[2]
def nothing(ex, st, inst, a, dem): return None


M = r"^std::unordered_map<.*>::"
MAP = [(M + r"~unordered_map", nothing), (M + r"unordered_map\(\)$", ctor), (M + r"unordered_map\(std::unordered_map<.*>&&\)$", move), (M + r"operator\[\]", subscript), (M + r"find\(", find), (M + r"c?end\(\)", end), (M + r"size\(\)", size)]
