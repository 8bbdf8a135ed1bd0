"""Parser for textual LLVM 18 IR (opaque pointers), as emitted by clang/opt from the real sources."""
import re, subprocess, struct

TOK = re.compile(r'''
  (?P<ws>\s+)|(?P<cmt>;[^\n]*)|
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<meta>![-a-zA-Z$._0-9]*)|
  (?P<attr>\#\d+)|
  (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
  (?P<num>[-+]?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)|
  (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)|
  (?P<p>\.\.\.|[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m: raise SyntaxError("tok: %r" % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k in ("ws", "cmt"): continue
        out.append(m.group())
    return out


# types: ('i',n) ('ptr',) ('double',) ('float',) ('void',) ('arr',n,t) ('struct',[t],packed) ('named',name) ('vec',n,t) ('label',) ('func')
class Types:
    def __init__(self):
        self.named = {}

    def res(self, ty):
        while ty[0] == "named": ty = self.named[ty[1]]
        return ty

    def align(self, ty):
        ty = self.res(ty)
        k = ty[0]
        if k == "i": return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty[1], 8)
        if k in ("ptr", "double"): return 8
        if k == "float": return 4
        if k == "arr": return self.align(ty[2])
        if k == "vec": return min(16, self.size(ty))
        if k == "x86_fp80": return 16
        if k == "struct": return 1 if ty[2] else max([self.align(t) for t in ty[1]] or [1])
        return 8

    def size(self, ty):
        ty = self.res(ty)
        k = ty[0]
        if k == "i": return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty[1], (ty[1] + 7) // 8)
        if k in ("ptr", "double"): return 8
        if k == "float": return 4
        if k == "x86_fp80": return 16
        if k == "arr": return ty[1] * self.size(ty[2])
        if k == "vec": return ty[1] * self.size(ty[2])
        if k == "struct":
            o = 0
            for t in ty[1]:
                if not ty[2]:
                    a = self.align(t); o = (o + a - 1) // a * a
                o += self.size(t)
            a = self.align(ty)
            return (o + a - 1) // a * a
        raise ValueError("size of %r" % (ty,))

    def offset(self, ty, idx):
        """(byte offset, member type) of struct member"""
        ty = self.res(ty)
        o = 0
        for i, t in enumerate(ty[1]):
            if not ty[2]:
                a = self.align(t); o = (o + a - 1) // a * a
            if i == idx: return o, t
            o += self.size(t)
        raise IndexError

    def leaves(self, ty, base=0):
        r = self.res(ty)
        if r[0] == "struct":
            for i in range(len(r[1])):
                o, m = self.offset(r, i)
                yield from self.leaves(m, base + o)
        elif r[0] in ("arr", "vec"):
            s = self.size(r[2])
            for i in range(r[1]):
                yield from self.leaves(r[2], base + i * s)
        else:
            yield base, r


PRIM = {"void", "double", "float", "ptr", "label", "metadata", "token", "half", "x86_fp80", "fp128"}
PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "inreg", "byval", "sret", "noalias", "nocapture", "readonly", "writeonly",
               "readnone", "returned", "nest", "immarg", "swiftself", "dereferenceable", "dereferenceable_or_null", "align", "noalias",
               "nofree", "allocalign", "allocptr", "dead_on_unwind", "writable", "elementtype", "nofpclass"}


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        y = self.next()
        if y != x: raise SyntaxError("expected %r got %r in %s" % (x, y, " ".join(self.t[max(0, self.i - 12):self.i + 12])))

    # ---- types
    def type(self):
        t = self.next()
        if t == "[":
            n = int(self.next()); self.exp("x"); e = self.type(); self.exp("]")
            r = ("arr", n, e)
        elif t == "{":
            r = ("struct", self.tlist("}"), False)
        elif t == "<":
            if self.peek() == "{":
                self.next(); l = self.tlist("}"); self.exp(">")
                r = ("struct", l, True)
            else:
                n = int(self.next()); self.exp("x"); e = self.type(); self.exp(">")
                r = ("vec", n, e)
        elif t in PRIM: r = (t,)
        elif re.fullmatch(r"i\d+", t): r = ("i", int(t[1:]))
        elif t[0] == "%": r = ("named", t)
        elif t == "opaque": r = ("struct", [], False)
        else: raise SyntaxError("type %r near %s" % (t, " ".join(self.t[max(0, self.i - 8):self.i + 8])))
        if self.peek() == "(" and r[0] in ("void", "i", "ptr", "double", "float", "named", "struct"):
            # function type
            self.next()
            args = []
            while not self.acc(")"):
                if self.acc("..."): continue
                args.append(self.type()); self.acc(",")
            r = ("func", r, args)
        return r

    def tlist(self, end):
        l = []
        while not self.acc(end):
            l.append(self.type()); self.acc(",")
        return l

    def attrs(self):
        while self.peek() in PARAM_ATTRS:
            a = self.next()
            if a == "align" and self.peek() != "(": self.next()
            elif self.peek() == "(":
                d = 0
                while True:
                    x = self.next()
                    if x == "(": d += 1
                    if x == ")":
                        d -= 1
                        if d == 0: break

    # ---- values: ('loc',name) ('glob',name) ('int',v) ('fp',v) ('null',) ('undef',) ('zero',) ('agg',[(ty,val)]) ('str',bytes) ('cexpr',op,...)
    def value(self, ty):
        t = self.next()
        if t[0] == "%": return ("loc", t)
        if t[0] == "@": return ("glob", t)
        if t == "true": return ("int", 1)
        if t == "false": return ("int", 0)
        if t == "null": return ("null",)
        if t in ("undef", "poison"): return ("undef",)
        if t == "zeroinitializer": return ("zero",)
        if t == "none": return ("undef",)
        if t[:2] == "c\"":
            b = bytearray()
            s = t[2:-1]; i = 0
            while i < len(s):
                if s[i] == "\\":
                    if s[i + 1] == "\\": b.append(92); i += 2
                    else: b.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(s[i])); i += 1
            return ("str", bytes(b))
        if t.startswith("0x"):
            if t[2] in "KLMHR": return ("fp80", t)
            v = struct.unpack("<d", struct.pack("<Q", int(t, 16)))[0]
            return ("fp", v, int(t, 16))
        if re.match(r"[-+]?\d", t):
            if ty[0] in ("double", "float", "x86_fp80"):
                v = float(t)
                return ("fp", v, struct.unpack("<Q", struct.pack("<d", v))[0])
            return ("int", int(t))
        if t in ("{", "[", "<"):
            if t == "<" and self.peek() == "{": self.next(); end = ["}", ">"]
            else: end = [{"{": "}", "[": "]", "<": ">"}[t]]
            l = []
            while self.peek() != end[0]:
                e = self.type(); l.append((e, self.value(e))); self.acc(",")
            for x in end: self.exp(x)
            return ("agg", l)
        if t in ("getelementptr",):
            self.acc("inbounds")
            self.exp("(")
            sty = self.type(); self.exp(",")
            ops = []
            while not self.acc(")"):
                self.acc("inrange")
                e = self.type(); ops.append((e, self.value(e))); self.acc(",")
            return ("cgep", sty, ops)
        if t in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.exp("("); e = self.type(); v = self.value(e); self.exp("to"); d = self.type(); self.exp(")")
            return ("ccast", t, e, v, d)
        if t in ("add", "sub", "mul", "icmp", "select", "and", "or", "xor", "shl"):
            while self.peek() in ("nuw", "nsw"): self.next()
            pred = None
            if t == "icmp": pred = self.next()
            self.exp("(")
            ops = []
            while not self.acc(")"):
                e = self.type(); ops.append((e, self.value(e))); self.acc(",")
            return ("cbin", t, pred, ops)
        if t == "blockaddress" or t == "dso_local_equivalent" or t == "no_cfi":
            raise SyntaxError(t)
        raise SyntaxError("value %r near %s" % (t, " ".join(self.t[max(0, self.i - 10):self.i + 10])))

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


class Inst:
    __slots__ = ("op", "res", "ty", "a", "extra", "text", "line")

    def __init__(self, op, res, ty, a, extra=None, text=""):
        self.op, self.res, self.ty, self.a, self.extra, self.text = op, res, ty, a, extra, text

    def __repr__(self): return self.text.strip()


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.blocks = {}
        self.order = []
        self.dem = name
        self.ret = None

    def analyse(self):
        """successors, dominators, natural loops"""
        succ = {}
        for b in self.order:
            tm = self.blocks[b][-1]
            succ[b] = list(tm.extra["succ"]) if tm.extra and "succ" in tm.extra else []
        self.succ = succ
        pred = {b: [] for b in self.order}
        for b in self.order:
            for s in succ[b]:
                if s not in pred: self.broken = "block %s of %s not understood" % (s, self.name); return
                pred[s].append(b)
        # dominators (iterative)
        entry = self.order[0]
        rpo = []
        seen = set()
        st = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                rpo.append(b); st.pop()
        rpo.reverse()
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while idx[x] > idx[y]: x = idom[x]
                        while idx[y] > idx[x]: y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n; ch = True

        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in idx and dom(s, b):
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x); w.extend(p for p in pred[x] if p in idx)
        self.loops = loops


class Module:
    def __init__(self, text):
        self.types = Types()
        self.fns = {}
        self.decls = set()
        self.globals = {}
        self.aliases = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        names = set()
        while i < len(lines):
            l = lines[i]
            if l.startswith("%"):
                toks = tokenize(l)
                p = P(toks, self)
                n = p.next(); p.exp("="); p.exp("type")
                self.types.named[n] = p.type()
            elif l.startswith("@"):
                self._global(l)
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls.add("@" + m.group(1))
            elif l.startswith("define"):
                j = i
                while lines[j] != "}": j += 1
                self._fn(lines[i], lines[i + 1:j])
                i = j
            i += 1
        allnames = list(self.fns) + list(self.decls)
        raw = [n[1:].strip('"') for n in allnames]
        o = subprocess.run(["llvm-cxxfilt"] if _which("llvm-cxxfilt") else ["c++filt"], input="\n".join(raw), capture_output=True, text=True).stdout.split("\n")
        self.dem = {n: d for n, d in zip(allnames, o)}
        for f in self.fns.values(): f.dem = self.dem[f.name]

    def _global(self, l):
        toks = tokenize(l)
        p = P(toks, self)
        name = p.next(); p.exp("=")
        skip = {"private", "internal", "external", "linkonce_odr", "weak_odr", "dso_local", "local_unnamed_addr", "unnamed_addr", "constant", "global",
                "hidden", "comdat", "weak", "common", "appending", "available_externally", "thread_local", "linkonce", "externally_initialized", "extern_weak", "protected"}
        isconst = False
        ext = False
        while p.peek() in skip or p.peek() == "thread_local":
            w = p.next()
            if w == "constant": isconst = True
            if w in ("external", "extern_weak"): ext = True
            if w == "thread_local" and p.acc("("):
                while not p.acc(")"): p.next()
        if p.peek() in ("alias", "ifunc"):
            p.next()
            p.type(); p.exp(",")
            try:
                ty, v = p.tv()
                self.aliases[name] = v
            except SyntaxError:
                pass
            return
        try:
            ty = p.type()
            val = None
            if not ext: val = p.value(ty)
        except SyntaxError as e:
            ty, val = ("i", 8), ("undef",)
        self.globals[name] = (ty, val, isconst)

    def _fn(self, head, body):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
        f = Fn("@" + m.group(1))
        # return type: tokens between 'define' and name
        pre = tokenize(head[6:m.start()])
        p = P(pre, self)
        while p.peek() in ("dso_local", "internal", "linkonce_odr", "hidden", "weak_odr", "private", "weak", "available_externally", "linkonce",
                           "unnamed_addr", "local_unnamed_addr", "protected", "fastcc", "ccc", "coldcc") or p.peek() in PARAM_ATTRS:
            if p.peek() in PARAM_ATTRS: p.attrs()
            else: p.next()
        f.ret = p.type()
        # params
        s = head[m.end() - 1:]
        toks = tokenize(s)
        p = P(toks, self)
        p.exp("(")
        n = 0
        while not p.acc(")"):
            if p.acc("..."): continue
            ty = p.type(); 
            j0 = p.i
            p.attrs()
            at = p.t[j0:p.i]
            if p.peek() and p.peek()[0] == "%": nm = p.next()
            else: nm = "%%%d" % n
            f.params.append((ty, nm, at)); n += 1
            p.acc(",")
        cur = None
        # label for entry
        first = "%%%d" % n
        joined = []
        buf = None
        for l in body:
            if not l.strip() or l.lstrip().startswith(";"): continue
            if buf is not None:
                buf += " " + l.strip()
                if l.strip() == "]" or l.rstrip().endswith("]"):
                    joined.append(buf); buf = None
                continue
            ls = l.strip()
            if ls.startswith("switch ") and not ls.split(";")[0].rstrip().endswith("]"):
                buf = l; continue
            if (ls.startswith("to label") or ls.startswith("catch ") or ls.startswith("cleanup") or ls.startswith("filter ")) and joined:
                joined[-1] += " " + ls
                continue
            joined.append(l)
        for l in joined:
            mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if mm:
                cur = "%" + mm.group(1)
                f.blocks[cur] = []; f.order.append(cur)
                continue
            if cur is None:
                cur = first
                f.blocks[cur] = []; f.order.append(cur)
            f.blocks[cur].append(self._inst(l))
        self.fns[f.name] = f

    def _inst(self, l):
        text = l
        k = l.find(", !")
        if k >= 0 and not "metadata" in l: l = l[:k]
        toks = tokenize(l)
        p = P(toks, self)
        res = None
        if p.peek()[0] == "%" and p.peek(1) == "=":
            res = p.next(); p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"): op = p.next()
        I = lambda ty, a, extra=None: Inst(op, res, ty, a, extra, text)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "ashr", "lshr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = set()
            while p.peek() in ("nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint"): fl.add(p.next())
            ty = p.type(); a = p.value(ty); p.exp(","); b = p.value(ty)
            return I(ty, [a, b], fl)
        if op == "fneg":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): p.next()
            ty = p.type(); return I(ty, [p.value(ty)])
        if op in ("icmp", "fcmp"):
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): p.next()
            pred = p.next(); ty = p.type(); a = p.value(ty); p.exp(","); b = p.value(ty)
            return I(ty, [a, b], pred)
        if op == "alloca":
            p.acc("inalloca")
            ty = p.type()
            n = None
            if p.acc(",") and p.peek() != "align":
                nt = p.type(); n = (nt, p.value(nt))
            return I(ty, [], n)
        if op == "load":
            p.acc("atomic"); p.acc("volatile")
            ty = p.type(); p.exp(","); pt = p.type(); return I(ty, [p.value(pt)])
        if op == "store":
            p.acc("atomic"); p.acc("volatile")
            ty, v = p.tv(); p.exp(","); pt = p.type(); return I(ty, [v, p.value(pt)])
        if op == "getelementptr":
            p.acc("inbounds")
            sty = p.type(); p.exp(",")
            ops = [p.tv()]
            while p.acc(","):
                if p.peek() and p.peek()[0] == "!": break
                ops.append(p.tv())
            return I(sty, ops)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "addrspacecast"):
            while p.peek() in ("nneg", "nuw", "nsw"): p.next()
            ty, v = p.tv(); p.exp("to"); d = p.type()
            return I(d, [v], ty)
        if op == "phi":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): p.next()
            ty = p.type(); inc = {}
            while True:
                p.exp("["); v = p.value(ty); p.exp(","); b = p.next(); p.exp("]")
                inc[b] = v
                if not p.acc(","): break
            return I(ty, [], inc)
        if op == "br":
            if p.acc("label"):
                b = p.next()
                return I(None, [], {"succ": [b]})
            ty, c = p.tv(); p.exp(","); p.exp("label"); b1 = p.next(); p.exp(","); p.exp("label"); b2 = p.next()
            return I(None, [c], {"succ": [b1, b2]})
        if op == "switch":
            ty, c = p.tv(); p.exp(","); p.exp("label"); d = p.next(); p.exp("[")
            cs = []
            while not p.acc("]"):
                ct = p.type(); cv = p.value(ct); p.exp(","); p.exp("label"); cs.append((cv[1], p.next()))
            return I(ty, [c], {"succ": [d] + [b for _, b in cs], "cases": cs, "default": d})
        if op == "ret":
            if p.acc("void"): return I(("void",), [])
            ty, v = p.tv(); return I(ty, [v])
        if op == "unreachable": return I(None, [])
        if op in ("call", "invoke"):
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc", "coldcc"): p.next()
            p.attrs()
            rty = p.type()
            if rty[0] == "func": rty = rty[1]
            if p.peek() == "asm":
                return I(rty, [], {"asm": True})
            callee = p.value(("ptr",))
            p.exp("(")
            args = []
            while not p.acc(")"):
                ty = p.type()
                if ty == ("metadata",):
                    p.next()
                    while p.peek() not in (",", ")"): p.next()
                    args.append((ty, ("undef",)))
                else:
                    j0 = p.i
                    p.attrs()
                    args.append((ty, p.value(ty)))
                p.acc(",")
            ex = {"callee": callee}
            if op == "invoke":
                while p.peek() != "to": p.next()
                p.next(); p.exp("label"); n = p.next(); p.exp("unwind"); p.exp("label"); u = p.next()
                ex["succ"] = [n, u]
            return I(rty, args, ex)
        if op == "landingpad":
            ty = p.type()
            cl = []
            cleanup = False
            while p.peek() is not None:
                w = p.next()
                if w == "cleanup": cleanup = True
                elif w == "catch":
                    cl.append(p.tv()[1])
                elif w == "filter":
                    p.tv()
                else: break
            return I(ty, [], {"catch": cl, "cleanup": cleanup})
        if op == "resume":
            ty, v = p.tv(); return I(ty, [v])
        if op == "select":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): p.next()
            ct, c = p.tv(); p.exp(","); ty, a = p.tv(); p.exp(","); _, b = p.tv()
            return I(ty, [c, a, b], ct)
        if op == "extractvalue":
            ty, v = p.tv(); ix = []
            while p.acc(","): ix.append(int(p.next()))
            return I(ty, [v], ix)
        if op == "insertvalue":
            ty, v = p.tv(); p.exp(","); t2, w = p.tv(); ix = []
            while p.acc(","): ix.append(int(p.next()))
            return I(ty, [v, w], (ix, t2))
        if op == "extractelement":
            ty, v = p.tv(); p.exp(","); t2, w = p.tv(); return I(ty, [v, w], t2)
        if op == "insertelement":
            ty, v = p.tv(); p.exp(","); t2, w = p.tv(); p.exp(","); t3, x = p.tv(); return I(ty, [v, w, x], t2)
        if op == "shufflevector":
            ty, v = p.tv(); p.exp(","); _, w = p.tv(); p.exp(","); mt, mask = p.tv(); return I(ty, [v, w, mask], mt)
        if op == "freeze":
            ty, v = p.tv(); return I(ty, [v])
        if op in ("fence",): return I(None, [])
        if op in ("cmpxchg", "atomicrmw"):
            return I(None, [], {"raw": text})
        raise SyntaxError("inst " + l)


def _which(x):
    import shutil
    return shutil.which(x)


if __name__ == "__main__":
    import sys
    m = Module(open(sys.argv[1]).read())
    for f in m.fns.values():
        f.analyse()
        print(f.dem, len(f.order), "loops", len(f.loops))
