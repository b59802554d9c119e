"""Parser for the textual LLVM IR emitted by rustc (LLVM 20) - the subset that
rustc and the generated intrinsics use.  Functions are parsed lazily."""
import re

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*") |
 (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) |
 (?P<num>0x[HKLMR]?[0-9A-Fa-f]+|-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?) |
 (?P<word>[A-Za-z_][\w.]*) |
 (?P<meta>[!\#][\w."-]*) |
 (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)


class Unsupported(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ";":
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Unsupported("token: " + s[i:i + 60])
        i = m.end()
        out.append(m.group(m.lastgroup))
    return out


# types: ("i",n) ("ptr",) ("void",) ("f",64) ("arr",n,t) ("st",(ts),packed) ("vec",n,t)
I1, I8, I64, PTR, VOID = ("i", 1), ("i", 8), ("i", 64), ("ptr",), ("void",)


def align_of(t):
    k = t[0]
    if k == "i":
        b = (t[1] + 7) // 8
        a = 1
        while a < b and a < 16:
            a *= 2
        return a
    if k == "f":
        return t[1] // 8
    if k == "ptr":
        return 8
    if k == "arr":
        return align_of(t[2])
    if k == "vec":
        return size_of(t)
    if k == "st":
        return 1 if t[2] else max([align_of(x) for x in t[1]] or [1])
    raise Unsupported("align %r" % (t,))


_sz = {}


def size_of(t):
    r = _sz.get(t)
    if r is not None:
        return r
    k = t[0]
    if k == "i":
        b = (t[1] + 7) // 8
        a = align_of(t)
        r = (b + a - 1) // a * a
    elif k == "f":
        r = t[1] // 8
    elif k == "ptr":
        r = 8
    elif k == "arr":
        r = t[1] * size_of(t[2])
    elif k == "vec":
        if t[2][0] == "i":
            r = (t[1] * t[2][1] + 7) // 8
        else:
            r = t[1] * size_of(t[2])
    elif k == "st":
        o = 0
        for x in t[1]:
            a = 1 if t[2] else align_of(x)
            o = (o + a - 1) // a * a + size_of(x)
        a = align_of(t)
        r = (o + a - 1) // a * a
    else:
        raise Unsupported("size %r" % (t,))
    _sz[t] = r
    return r


def field_off(t, i):
    o = 0
    for j, x in enumerate(t[1]):
        a = 1 if t[2] else align_of(x)
        o = (o + a - 1) // a * a
        if j == i:
            return o
        o += size_of(x)
    raise Unsupported("field")


def unq(s):
    """strip quotes of identifiers"""
    if len(s) > 1 and s[1] == '"':
        return s[0] + s[2:-1]
    return s


def cstr(s):
    # c"...": bytes
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("utf-8")
            i += 1
    return bytes(out)


ATTR_PAREN = {"align", "sret", "byval", "dereferenceable", "dereferenceable_or_null", "range", "captures",
              "initializes", "memory", "nofpclass", "allocsize", "alignstack", "elementtype", "inalloca", "vscale_range",
              "preallocated", "byref"}
ATTRS = {"noundef", "zeroext", "signext", "inreg", "nonnull", "noalias", "nocapture", "readonly", "writeonly",
         "readnone", "returned", "immarg", "nofree", "noreturn", "nounwind", "dead_on_unwind", "writable", "allocptr",
         "allocalign", "swiftself", "nest", "dead_on_return"}


class P:
    """token stream"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        if not self.acc(x):
            raise Unsupported("expected %s got %r in %s" % (x, self.peek(), " ".join(self.t)[:200]))

    def skip_paren(self):
        self.exp("(")
        d = 1
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")

    def attrs(self):
        """skip attributes, returning the interesting ones"""
        out = {}
        while True:
            x = self.peek()
            if x in ATTR_PAREN:
                self.next()
                if x == "align" and self.peek() != "(":
                    out["align"] = int(self.next())
                    continue
                if self.peek() == "(":
                    j = self.i
                    self.skip_paren()
                    body = self.t[j + 1:self.i - 1]
                    if x == "range":
                        out["range"] = (int(body[1]), int(body[3]))
            elif x in ATTRS:
                self.next()
            elif x is not None and (x[0] == "#" or (x[0] == '"')):
                self.next()
                if self.acc("="):
                    self.next()
            else:
                return out

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
            if self.acc("addrspace"):
                self.skip_paren()
        elif x == "void":
            t = VOID
        elif x == "double":
            t = ("f", 64)
        elif x == "float":
            t = ("f", 32)
        elif x == "half":
            t = ("f", 16)
        elif x == "fp128":
            t = ("f", 128)
        elif x == "{":
            ts = []
            if not self.acc("}"):
                while True:
                    ts.append(self.type())
                    if self.acc("}"):
                        break
                    self.exp(",")
            t = ("st", tuple(ts), False)
        elif x == "[":
            n = int(self.next())
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = ("arr", n, e)
        elif x == "<":
            if self.acc("{"):
                ts = []
                if not self.acc("}"):
                    while True:
                        ts.append(self.type())
                        if self.acc("}"):
                            break
                        self.exp(",")
                self.exp(">")
                t = ("st", tuple(ts), True)
            else:
                n = int(self.next())
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = ("vec", n, e)
        elif x == "metadata":
            t = ("meta",)
        elif x == "label":
            t = ("label",)
        elif re.fullmatch(r"i\d+", x):
            t = ("i", int(x[1:]))
        elif x[0] == "%":
            t = self.m.named(unq(x))
        else:
            raise Unsupported("type " + x)
        # function type in calls: ret (args)
        return t

    def value(self, ty):
        """operand: ('l',name) ('g',name) ('c',int) ('null',) ('undef',) ('zero',) ('agg',[..]) ('str',bytes) ('ce',...)"""
        x = self.next()
        if x[0] == "%":
            return ("l", unq(x))
        if x[0] == "@":
            return ("g", unq(x))
        if x == "true":
            return ("c", 1)
        if x == "false":
            return ("c", 0)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if x.startswith('c"'):
            return ("str", cstr(x))
        if ty[0] == "f":
            if x.startswith("0x"):
                import struct
                v = int(x[2:], 16)
                if ty[1] == 32:
                    d = struct.unpack("<d", struct.pack("<Q", v))[0]
                    v = struct.unpack("<I", struct.pack("<f", d))[0]
                return ("c", v)
            import struct
            d = float(x)
            return ("c", struct.unpack("<Q", struct.pack("<d", d))[0] if ty[1] == 64 else
                    struct.unpack("<I", struct.pack("<f", d))[0])
        if re.fullmatch(r"-?\d+", x):
            return ("c", int(x))
        if x in ("{", "[", "<"):
            packed = x == "<" and self.acc("{")
            close = {"{": "}", "[": "]", "<": ">"}[x] if not packed else "}"
            els = []
            if not self.acc(close):
                while True:
                    t = self.type()
                    els.append((t, self.value(t)))
                    if self.acc(close):
                        break
                    self.exp(",")
            if packed:
                self.exp(">")
            return ("agg", els)
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                if self.next() == "inrange" and self.peek() == "(":
                    self.skip_paren()
            self.exp("(")
            bt = self.type()
            self.exp(",")
            t = self.type()
            base = self.value(t)
            idx = []
            while self.acc(","):
                it = self.type()
                idx.append((it, self.value(it)))
            self.exp(")")
            return ("cegep", bt, base, idx)
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext"):
            self.exp("(")
            t = self.type()
            v = self.value(t)
            self.exp("to")
            t2 = self.type()
            self.exp(")")
            return ("cecast", x, t, v, t2)
        if x in ("add", "sub", "xor"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.exp("(")
            t = self.type()
            a = self.value(t)
            self.exp(",")
            t2 = self.type()
            b = self.value(t2)
            self.exp(")")
            return ("cebin", x, t, a, b)
        if x == "splat":
            self.exp("(")
            t = self.type()
            v = self.value(t)
            self.exp(")")
            return ("splat", t, v)
        raise Unsupported("value " + x)

    def tv(self):
        t = self.type()
        at = self.attrs()
        return t, self.value(t)


class Fn:
    __slots__ = ("name", "mod", "text", "params", "ret", "blocks", "order", "entry", "rpo", "loops", "live", "uid")


class Module:
    def __init__(self, text, tag=""):
        self.tag = tag
        self.types = {}
        self.fns = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self._scan(text)

    def named(self, n):
        t = self.types.get(n)
        if t is None:
            raise Unsupported("named type " + n)
        if isinstance(t, str):
            if t.strip() == "opaque":
                raise Unsupported("opaque type")
            t = P(tokenize(t), self).type()
            self.types[n] = t
        return t

    def _scan(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        fname = re.compile(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(')
        gname = re.compile(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = (.*)$')
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = fname.search(l)
                name = unq("@" + m.group(1))
                f = Fn()
                f.name, f.mod, f.text, f.blocks, f.live = name, self, lines[i:j], None, None
                self.fns[name] = f
                i = j
            elif l.startswith("declare"):
                m = fname.search(l)
                self.decls[unq("@" + m.group(1))] = l
            elif l.startswith("@"):
                m = gname.match(l)
                self.globals[unq(m.group(1))] = m.group(2)
            elif l.startswith("%"):
                a, b = l.split(" = type ", 1)
                self.types[unq(a)] = b
            i += 1

    def global_init(self, name):
        """(type, value, align, constant) or None for external"""
        s = self.globals[name]
        toks = tokenize(s)
        p = P(toks, self)
        while p.peek() not in ("constant", "global", "alias"):
            x = p.next()
            if x in ("external", "extern_weak"):
                return None
            if p.peek() == "(":
                p.skip_paren()
        kind = p.next()
        if kind == "alias":
            t = p.type()
            p.exp(",")
            t2 = p.type()
            return ("alias", p.value(t2))
        t = p.type()
        v = p.value(t)
        al = 1
        while p.acc(","):
            if p.acc("align"):
                al = int(p.next())
            else:
                p.next()
        return (t, v, al, kind == "constant")


def parse_fn(f):
    if f.blocks is not None:
        return f
    m = f.mod
    head = f.text[0]
    p = P(tokenize(head), m)
    p.next()  # define
    skip = {"internal", "private", "hidden", "protected", "dso_local", "linkonce_odr", "weak_odr", "weak", "external",
            "available_externally", "linkonce", "default", "dllexport", "fastcc", "coldcc", "ccc", "unnamed_addr",
            "local_unnamed_addr", "rust_preserve_most", "preserve_mostcc", "preserve_allcc"}
    while p.peek() in skip:
        p.next()
    p.attrs()
    while p.peek() in skip:
        p.next()
    f.ret = p.type()
    p.next()
    p.exp("(")
    f.params = []
    k = 0
    if not p.acc(")"):
        while True:
            if p.acc("..."):
                p.exp(")")
                break
            t = p.type()
            at = p.attrs()
            nm = "%" + str(k)
            if p.peek() and p.peek()[0] == "%":
                nm = unq(p.next())
            k += 1
            f.params.append((nm, t))
            if p.acc(")"):
                break
            p.exp(",")
    blocks = {}
    order = []
    cur = None
    lab = re.compile(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):')
    body = f.text[1:]
    i = 0
    nparams = k
    while i < len(body):
        l = body[i]
        i += 1
        ls = l.strip()
        if not ls or ls[0] == ";":
            continue
        mm = lab.match(l)
        if mm:
            nm = mm.group(1)
            if nm[0] == '"':
                nm = nm[1:-1]
            cur = []
            blocks["%" + nm] = cur
            order.append("%" + nm)
            continue
        if ls.startswith("#dbg"):
            continue
        if cur is None:
            # entry block without a label takes the next unnamed number
            cur = []
            nm = "%" + str(sum(1 for a, _ in f.params if a[1:].isdigit()))
            blocks[nm] = cur
            order.append(nm)
        if ls.startswith("switch") and "]" not in ls:
            while "]" not in body[i]:
                ls += " " + body[i].strip()
                i += 1
            ls += " " + body[i].strip()
            i += 1
        # strip metadata
        k2 = ls.find(", !")
        if k2 > 0:
            ls = ls[:k2]
        cur.append(parse_inst(ls, m))
    f.blocks, f.order, f.entry = blocks, order, order[0]
    _rpo(f)
    return f


def succs(b):
    t = b[-1]
    op = t[0]
    if op == "br":
        return [t[1]]
    if op == "condbr":
        return [t[2], t[3]]
    if op == "switch":
        return [t[3]] + [x for _, x in t[4]]
    if op == "invoke":
        return [t[8], t[9]]
    return []


def _rpo(f):
    seen = set()
    post = []
    st = [(f.entry, iter(succs(f.blocks[f.entry])))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succs(f.blocks[s]))))
                break
        else:
            post.append(b)
            st.pop()
    post.reverse()
    f.rpo = {b: i for i, b in enumerate(post)}
    # make loop bodies precede loop exits: recompute with loop-aware order
    _loop_order(f)


def _loop_order(f):
    """Order blocks so that every loop's blocks are contiguous and precede blocks reached only by
    leaving it (weak topological order by recursive SCC decomposition)."""
    G = {b: [s for s in succs(f.blocks[b]) if s in f.rpo] for b in f.rpo}
    order = []

    def scc(nodes):
        idx = {}
        low = {}
        st = []
        on = set()
        out = []
        c = [0]
        for r in sorted(nodes, key=lambda x: f.rpo[x]):
            if r in idx:
                continue
            work = [(r, iter([s for s in G[r] if s in nodes]))]
            idx[r] = low[r] = c[0]
            c[0] += 1
            st.append(r)
            on.add(r)
            while work:
                v, it = work[-1]
                for s in it:
                    if s not in idx:
                        idx[s] = low[s] = c[0]
                        c[0] += 1
                        st.append(s)
                        on.add(s)
                        work.append((s, iter([q for q in G[s] if q in nodes])))
                        break
                    elif s in on:
                        low[v] = min(low[v], idx[s])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            x = st.pop()
                            on.discard(x)
                            comp.append(x)
                            if x == v:
                                break
                        out.append(comp)
        out.reverse()
        return out

    loops = {}

    def rec(nodes, chain):
        for comp in scc(nodes):
            if len(comp) == 1:
                b = comp[0]
                order.append(b)
                # a self loop is a loop too
                loops[b] = chain + (b,) if b in G[b] else chain
                continue
            head = min(comp, key=lambda x: f.rpo[x])
            order.append(head)
            loops[head] = chain + (head,)
            rec(set(comp) - {head}, chain + (head,))
    rec(set(G), ())
    f.rpo = {b: i for i, b in enumerate(order)}
    f.loops = loops


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi",
        "fptrunc", "fpext", "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz",
         "arcp", "contract", "afn", "reassoc"}


def parse_inst(s, mod):
    p = P(tokenize(s), mod)
    res = None
    if p.peek()[0] == "%" and p.t[1] == "=":
        res = unq(p.next())
        p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN:
        fl = []
        while p.peek() in FLAGS:
            fl.append(p.next())
        t = p.type()
        a = p.value(t)
        p.exp(",")
        b = p.value(t)
        return ("bin", res, op, t, a, b, tuple(fl))
    if op in CAST:
        fl = []
        while p.peek() in FLAGS:
            fl.append(p.next())
        t, v = p.tv()
        p.exp("to")
        t2 = p.type()
        return ("cast", res, op, t, v, t2, tuple(fl))
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.exp(",")
        b = p.value(t)
        return (op, res, pred, t, a, b)
    if op == "load":
        if p.peek() in ("volatile", "atomic"):
            p.next()
        t = p.type()
        p.exp(",")
        t2, v = p.tv()
        return ("load", res, t, v)
    if op == "store":
        if p.peek() in ("volatile", "atomic"):
            p.next()
        t, v = p.tv()
        p.exp(",")
        t2, q = p.tv()
        return ("store", t, v, q)
    if op == "alloca":
        t = p.type()
        n = None
        al = align_of(t)
        while p.acc(","):
            if p.acc("align"):
                al = int(p.next())
            else:
                nt = p.type()
                n = p.value(nt)
        return ("alloca", res, t, al)
    if op == "getelementptr":
        while p.peek() in FLAGS:
            p.next()
        bt = p.type()
        p.exp(",")
        t, base = p.tv()
        idx = []
        while p.acc(","):
            idx.append(p.tv())
        return ("gep", res, bt, base, idx, t)
    if op == "br":
        if p.acc("label"):
            return ("br", unq(p.next()))
        t = p.type()
        c = p.value(t)
        p.exp(",")
        p.exp("label")
        a = unq(p.next())
        p.exp(",")
        p.exp("label")
        b = unq(p.next())
        return ("condbr", c, a, b)
    if op == "switch":
        t = p.type()
        v = p.value(t)
        p.exp(",")
        p.exp("label")
        d = unq(p.next())
        p.exp("[")
        cs = []
        while not p.acc("]"):
            ct = p.type()
            c = p.value(ct)
            p.exp(",")
            p.exp("label")
            cs.append((c[1], unq(p.next())))
        return ("switch", t, v, d, cs)
    if op == "ret":
        if p.acc("void"):
            return ("ret", None, None)
        t = p.type()
        return ("ret", t, p.value(t))
    if op == "unreachable":
        return ("unreachable",)
    if op in ("call", "invoke"):
        while p.peek() in FLAGS or p.peek() in ("fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc"):
            p.next()
        at = p.attrs()
        t = p.type()
        if p.peek() == "(":   # function type
            p.skip_paren()
        callee = p.value(PTR)
        p.exp("(")
        args = []
        if not p.acc(")"):
            while True:
                ty = p.type()
                p.attrs()
                if ty == ("meta",):
                    # metadata operand: skip to , or )
                    while p.peek() not in (",", ")"):
                        p.next()
                    args.append((ty, ("undef",)))
                else:
                    args.append((ty, p.value(ty)))
                if p.acc(")"):
                    break
                p.exp(",")
        if op == "invoke":
            p.attrs()
            p.exp("to")
            p.exp("label")
            a = unq(p.next())
            p.exp("unwind")
            p.exp("label")
            b = unq(p.next())
            return ("invoke", res, t, callee, args, at, None, None, a, b)
        return ("call", res, t, callee, args, at)
    if op == "phi":
        t = p.type()
        inc = []
        while True:
            p.exp("[")
            v = p.value(t)
            p.exp(",")
            b = unq(p.next())
            p.exp("]")
            inc.append((v, b))
            if not p.acc(","):
                break
        return ("phi", res, t, inc)
    if op == "select":
        while p.peek() in FLAGS:
            p.next()
        ct, c = p.tv()
        p.exp(",")
        t, a = p.tv()
        p.exp(",")
        t2, b = p.tv()
        return ("select", res, ct, c, t, a, b)
    if op == "extractvalue":
        t, v = p.tv()
        ix = []
        while p.acc(","):
            ix.append(int(p.next()))
        return ("extractvalue", res, t, v, ix)
    if op == "insertvalue":
        t, v = p.tv()
        p.exp(",")
        t2, e = p.tv()
        ix = []
        while p.acc(","):
            ix.append(int(p.next()))
        return ("insertvalue", res, t, v, t2, e, ix)
    if op == "freeze":
        t, v = p.tv()
        return ("freeze", res, t, v)
    if op == "fneg":
        while p.peek() in FLAGS:
            p.next()
        t, v = p.tv()
        return ("fneg", res, t, v)
    if op == "extractelement":
        t, v = p.tv()
        p.exp(",")
        it, i = p.tv()
        return ("extractelement", res, t, v, it, i)
    if op == "insertelement":
        t, v = p.tv()
        p.exp(",")
        et, e = p.tv()
        p.exp(",")
        it, i = p.tv()
        return ("insertelement", res, t, v, et, e, it, i)
    if op == "shufflevector":
        t, a = p.tv()
        p.exp(",")
        t2, b = p.tv()
        p.exp(",")
        mt, mk = p.tv()
        return ("shufflevector", res, t, a, b, mt, mk)
    if op in ("fence",):
        return ("nop",)
    if op in ("resume", "landingpad", "cleanupret"):
        return ("unreachable_eh",)
    return ("unsupported", s)
