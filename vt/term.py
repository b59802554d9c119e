"""Hash-consed bit-vector terms with local simplification.

Every term is a bit-vector of width w; booleans are width-1 bit-vectors.
Operators: c v add sub mul udiv urem and or xor not neg-free, concat extract
sext ite eq ult slt shl lshr ashr ctlz cttz ctpop fp<...>.
All constructors keep the exact bit-vector semantics (mod 2^w); they only
rewrite to equal terms.  `lb`/`ub` are sound unsigned bounds of the value.
"""
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "w", "a", "v", "id", "lb", "ub", "kz", "nb")

    def __repr__(self):
        return show(self, 4)


_tab = {}
_next = [0]


def _mask(w):
    return (1 << w) - 1


def mk(op, w, a=(), v=None, lb=0, ub=None, kz=0):
    if lb == ub and op != "c":
        op, a, v = "c", (), lb
    key = (op, w, tuple([x.id for x in a]), v)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.w, t.a, t.v = op, w, a, v
    t.lb = lb
    m = (1 << w) - 1
    if ub is None or ub > m:
        ub = m
    t.ub = ub
    if op == "c":
        kz = m & ~v
    # known-zero mask
    kz |= m & ~((1 << ub.bit_length()) - 1)
    t.kz = kz
    t.nb = None
    t.id = _next[0]
    _next[0] += 1
    _tab[key] = t
    return t


_mnot, _mext = {}, {}


def reset():
    _tab.clear()
    _mnot.clear()
    _mext.clear()


def const(x, w):
    x &= (1 << w) - 1
    return mk("c", w, (), x, x, x, ((1 << w) - 1) & ~x)


def var(name, w, ub=None, lb=0):
    return mk("v", w, (), (name, lb, ub), lb, ub)


def isc(t):
    return t.op == "c"


TRUE = const(1, 1)
FALSE = const(0, 1)


def _refresh_consts():
    global TRUE, FALSE
    TRUE = const(1, 1)
    FALSE = const(0, 1)


def sval(t):
    return t.v - (1 << t.w) if t.v >> (t.w - 1) else t.v


# ---------------------------------------------------------------- concat
def parts(t):
    """MSB-first list of parts"""
    return t.a if t.op == "concat" else (t,)


def concat(*xs):
    ps = []
    for x in xs:
        for p in (x.a if x.op == "concat" else (x,)):
            if p.w == 0:
                continue
            if ps:
                q = ps[-1]
                if q.op == "c" and p.op == "c":
                    ps[-1] = const((q.v << p.w) | p.v, q.w + p.w)
                    continue
                if q.op == "extract" and p.op == "extract" and q.a[0] is p.a[0] \
                        and q.v[1] == p.v[0] + 1:
                    ps[-1] = extract(q.v[0], p.v[1], q.a[0])
                    continue
                # ite with the same condition
                if q.op == "ite" and p.op == "ite" and q.a[0] is p.a[0]:
                    ps[-1] = ite(q.a[0], concat(q.a[1], p.a[1]), concat(q.a[2], p.a[2]))
                    continue
            ps.append(p)
    if len(ps) == 1:
        return ps[0]
    # a concat may have produced nested concat via ite/extract merging
    if any(p.op == "concat" for p in ps):
        return concat(*ps)
    w = sum(p.w for p in ps)
    lb = ub = kz = 0
    for p in ps:
        lb = (lb << p.w) | p.lb
        ub = (ub << p.w) | p.ub
        kz = (kz << p.w) | p.kz
    return mk("concat", w, tuple(ps), None, lb, ub, kz)


def zext(t, w):
    return t if t.w == w else concat(const(0, w - t.w), t)


def trunc(t, w):
    return t if t.w == w else extract(w - 1, 0, t)


def sext(t, w):
    if t.w == w:
        return t
    if isc(t):
        return const(sval(t), w)
    if t.ub < (1 << (t.w - 1)):
        return zext(t, w)
    if t.lb >= (1 << (t.w - 1)):
        return concat(const(-1, w - t.w), t)
    if t.op == "sext":
        return sext(t.a[0], w)
    if t.op == "ite":
        return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    if t.w == 1:
        return ite(t, const(-1, w), const(0, w))
    return mk("sext", w, (t,))


def extract(hi, lo, t):
    w = hi - lo + 1
    if w == t.w:
        return t
    op = t.op
    if op == "c":
        return const(t.v >> lo, w)
    if op == "extract":
        return extract(hi + t.v[1], lo + t.v[1], t.a[0])
    if (t.kz >> lo) & _mask(w) == _mask(w):
        return const(0, w)
    if t.lb >> lo == t.ub >> lo:
        return const(t.lb >> lo, w)
    if op == "concat":
        out = []
        off = t.w
        for p in t.a:
            off -= p.w
            a, b = max(lo, off), min(hi, off + p.w - 1)
            if a <= b:
                out.append(extract(b - off, a - off, p))
        return concat(*out)
    if op == "ite":
        r = _mext.get((hi, lo, t.id))
        if r is None:
            r = _mext[hi, lo, t.id] = ite(t.a[0], extract(hi, lo, t.a[1]), extract(hi, lo, t.a[2]))
        return r
    if op in ("and", "or", "xor"):
        r = _mext.get((hi, lo, t.id))
        if r is None:
            r = _mext[hi, lo, t.id] = _bit(op, extract(hi, lo, t.a[0]), extract(hi, lo, t.a[1]))
        return r
    if op == "not":
        return bnot(extract(hi, lo, t.a[0]))
    if op == "sext":
        x = t.a[0]
        if hi < x.w:
            return extract(hi, lo, x)
        if lo < x.w:
            return sext(extract(x.w - 1, lo, x), w)
        return sext(extract(x.w - 1, x.w - 1, x), w)
    # narrow a value whose high bits are known zero
    ub = None
    if lo == 0 and t.ub <= _mask(w):
        ub = t.ub
    elif t.ub >> (hi + 1) == 0:
        ub = t.ub >> lo
    lb = t.lb >> lo if (t.ub >> (hi + 1)) == 0 else 0
    if op == "mul" and lo == 0:
        # low bits of a wider product: only needs the low bits of the factors
        pass
    return mk("extract", w, (t,), (hi, lo), lb, ub, (t.kz >> lo) & _mask(w))


def bit(t, i):
    return extract(i, i, t)


# ---------------------------------------------------------------- boolean / bitwise
def bnot(t):
    op = t.op
    if op == "c":
        return const(~t.v, t.w)
    if op == "not":
        return t.a[0]
    if op == "concat":
        return concat(*[bnot(p) for p in t.a])
    if op == "ite":
        r = _mnot.get(t.id)
        if r is None:
            r = _mnot[t.id] = ite(t.a[0], bnot(t.a[1]), bnot(t.a[2]))
        return r
    if op == "sext":
        return sext(bnot(t.a[0]), t.w)
    m = _mask(t.w)
    return mk("not", t.w, (t,), None, m - t.ub, m - t.lb)


def _runs(m, w):
    """split a mask into runs, LSB first: list of (bit, length)"""
    out = []
    i = 0
    while i < w:
        b = (m >> i) & 1
        j = i
        while j < w and ((m >> j) & 1) == b:
            j += 1
        out.append((b, j - i))
        i = j
    return out


def _cuts(t):
    s = []
    off = 0
    for p in reversed(parts(t)):
        if p.op == "c" and p.w > 1:
            for _, n in _runs(p.v, p.w):
                s.append(off)
                off += n
        else:
            s.append(off)
            off += p.w
    return s


def _hasconst(t):
    return t.op == "c" or (t.op == "concat" and any(p.op == "c" for p in t.a))


def _bit(op, a, b):
    w = a.w
    if a is b:
        return const(0, w) if op == "xor" else a
    ca, cb = a.op == "c", b.op == "c"
    if ca and cb:
        if op == "and":
            return const(a.v & b.v, w)
        if op == "or":
            return const(a.v | b.v, w)
        return const(a.v ^ b.v, w)
    m = _mask(w)
    for x, y in ((a, b), (b, a)):
        if x.op == "c":
            if x.v == 0:
                return const(0, w) if op == "and" else y
            if x.v == m:
                return y if op == "and" else (const(m, w) if op == "or" else bnot(y))
    # a & ~a etc
    if (a.op == "not" and a.a[0] is b) or (b.op == "not" and b.a[0] is a):
        return const(0, w) if op == "and" else const(m, w)
    if op == "and" and (a.kz | b.kz) == m:
        return const(0, w)
    if w == 1:
        if op in ("and", "or"):
            # absorb / flatten a little
            inner = op
            for x, y in ((a, b), (b, a)):
                if x.op == inner and (x.a[0] is y or x.a[1] is y):
                    return x
                if x.op == inner:
                    ny = bnot(y)
                    if x.a[0] is ny or x.a[1] is ny:
                        return const(0 if op == "and" else 1, 1)
    elif _hasconst(a) or _hasconst(b):
        cuts = sorted(set(_cuts(a)) | set(_cuts(b)))
        if len(cuts) <= 12:
            cuts.append(w)
            out = []
            useful = False
            for i in range(len(cuts) - 1):
                x = extract(cuts[i + 1] - 1, cuts[i], a)
                y = extract(cuts[i + 1] - 1, cuts[i], b)
                if x.op == "c" or y.op == "c":
                    useful = True
                out.append((x, y))
            if useful:
                return concat(*[_bit(op, x, y) for x, y in reversed(out)])
    elif a.op == "concat" and b.op == "concat":
        ca_, cb_ = _cuts(a), _cuts(b)
        if ca_ == cb_:
            return concat(*[_bit(op, x, y) for x, y in zip(a.a, b.a)])
    # masks made of a sign: x ^ sext(bit), with ite form
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and x.a[1].op == "c" and x.a[2].op == "c" and w > 1 and y.op != "ite" \
                and x.a[1].v in (0, m) and x.a[2].v in (0, m):
            return ite(x.a[0], _bit(op, x.a[1], y), _bit(op, x.a[2], y))
    if a.id > b.id:
        a, b = b, a
    if op == "and":
        return mk("and", w, (a, b), None, 0, min(a.ub, b.ub), a.kz | b.kz)
    ub = (1 << max(a.ub.bit_length(), b.ub.bit_length())) - 1
    if op == "or":
        return mk("or", w, (a, b), None, max(a.lb, b.lb), ub, a.kz & b.kz)
    return mk("xor", w, (a, b), None, 0, ub, a.kz & b.kz)


def band(a, b):
    return _bit("and", a, b)


def bor(a, b):
    return _bit("or", a, b)


def bxor(a, b):
    return _bit("xor", a, b)


def ands(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def ors(xs):
    r = FALSE
    for x in xs:
        r = bor(r, x)
    return r


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    if c.op == "c":
        return a if c.v else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    w = a.w
    if w == 1:
        if a.op == "c":
            return bor(c, b) if a.v else band(bnot(c), b)
        if b.op == "c":
            return bor(bnot(c), a) if b.v else band(c, a)
        if a is c:
            return bor(c, b)
        if b is c:
            return band(c, a)
        if a is bnot(b):
            return bnot(bxor(c, a))
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    # share common high/low parts
    if a.op == "concat" or b.op == "concat":
        pa, pb = parts(a), parts(b)
        if len(pa) == len(pb) and all(x.w == y.w for x, y in zip(pa, pb)) and \
                any(x is y for x, y in zip(pa, pb)):
            return concat(*[ite(c, x, y) for x, y in zip(pa, pb)])
        # common zero prefix
        za = pa[0].w if pa[0].op == "c" and pa[0].v == 0 else (w if a.op == "c" and a.v == 0 else 0)
        zb = pb[0].w if pb[0].op == "c" and pb[0].v == 0 else (w if b.op == "c" and b.v == 0 else 0)
        if a.op == "c":
            za = w - max(a.v.bit_length(), 1)
        if b.op == "c":
            zb = w - max(b.v.bit_length(), 1)
        z = min(za, zb)
        if 0 < z < w:
            return concat(const(0, z), ite(c, trunc(a, w - z), trunc(b, w - z)))
    elif a.op == "c" and b.op == "c" and w > 1:
        if a.v ^ b.v == 1 and w > 1 and a.v >> 1 == b.v >> 1:
            return concat(const(a.v >> 1, w - 1), c if a.v & 1 else bnot(c))
    return mk("ite", w, (c, a, b), None, min(a.lb, b.lb), max(a.ub, b.ub), a.kz & b.kz)


# ---------------------------------------------------------------- comparison
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.v == b.v else FALSE
    if a.ub < b.lb or b.ub < a.lb:
        return FALSE
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.v & b.kz:
            return FALSE
        if a.w == 1:
            return b if a.v else bnot(b)
        if b.op == "concat":
            r = TRUE
            rest = []
            off = b.w
            for p in b.a:
                off -= p.w
                cv = (a.v >> off) & _mask(p.w)
                if p.op == "c":
                    if p.v != cv:
                        return FALSE
                elif p.w == 1:
                    r = band(r, p if cv else bnot(p))
                else:
                    rest.append((const(cv, p.w), p))
            if len(rest) < len(b.a) and len(rest) <= 1:
                for x, y in rest:
                    r = band(r, eq(x, y))
                return r
            if len(rest) < len(b.a):
                x = concat(*[q for _, q in rest])
                y = concat(*[q for q, _ in rest])
                return band(r, _mkeq(y, x))
        if b.op == "ite" and (b.a[1].op == "c" or b.a[2].op == "c"):
            return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
        if b.op == "not":
            return eq(const(~a.v, a.w), b.a[0])
        if b.op == "sext":
            x = b.a[0]
            if sval(const(a.v, x.w)) != sval(a):
                return FALSE
            return eq(const(a.v, x.w), x)
        if b.op == "add" and b.a[1].op == "c":
            return eq(const(a.v - b.a[1].v, a.w), b.a[0])
        if b.op == "sub" and b.a[1].op == "c":
            return eq(const(a.v + b.a[1].v, a.w), b.a[0])
        if b.op == "sub" and b.a[0].op == "c":
            return eq(const(b.a[0].v - a.v, a.w), b.a[1])
        if b.op == "xor" and b.a[1].op == "c":
            return eq(const(b.a[1].v ^ a.v, a.w), b.a[0])
    elif a.w == 1:
        return bnot(bxor(a, b))
    elif a.op == "concat" and b.op == "concat":
        # strip identical leading/trailing parts
        pa, pb = list(a.a), list(b.a)
        while pa and pb and pa[0].w == pb[0].w and (pa[0] is pb[0]):
            pa.pop(0)
            pb.pop(0)
        while pa and pb and pa[-1].w == pb[-1].w and (pa[-1] is pb[-1]):
            pa.pop()
            pb.pop()
        if len(pa) != len(a.a):
            return eq(concat(*pa), concat(*pb))
        if pa[0].op == "c" and pb[0].op == "c":
            n = min(pa[0].w, pb[0].w)
            if extract(pa[0].w - 1, pa[0].w - n, pa[0]) is not extract(pb[0].w - 1, pb[0].w - n, pb[0]):
                return FALSE
            return eq(trunc(a, a.w - n), trunc(b, a.w - n))
        if pa[-1].op == "c" and pb[-1].op == "c":
            n = min(pa[-1].w, pb[-1].w)
            if trunc(pa[-1], n) is not trunc(pb[-1], n):
                return FALSE
            return eq(extract(a.w - 1, n, a), extract(b.w - 1, n, b))
    return _mkeq(a, b)


def _mkeq(a, b):
    if a.op == "c":
        pass
    elif b.op == "c" or a.id > b.id:
        a, b = b, a
    return mk("eq", 1, (a, b))


def ne(a, b):
    return bnot(eq(a, b))


def ult(a, b):
    if a is b:
        return FALSE
    if a.ub < b.lb:
        return TRUE
    if a.lb >= b.ub:
        return FALSE
    if a.w == 1:
        return band(bnot(a), b)
    # strip common known-zero high bits
    n = max(a.ub.bit_length(), b.ub.bit_length(), 1)
    if n < a.w:
        ta, tb = trunc(a, n), trunc(b, n)
        return ult(ta, tb)
    if b.op == "c" and b.v == 1:
        return eq(a, const(0, a.w))
    if a.op == "c" and a.v == 0:
        return ne(b, a)
    if b.op == "c" and b.v == _mask(a.w):
        return ne(a, b)
    if a.op == "c" and a.v == _mask(a.w):
        return FALSE
    if b.op == "c":
        # power of two boundary: a < 2^k
        if b.v & (b.v - 1) == 0:
            k = b.v.bit_length() - 1
            return eq(extract(a.w - 1, k, a), const(0, a.w - k))
    if a.op == "c" and ((a.v + 1) & a.v) == 0:
        k = a.v.bit_length()
        if k < a.w:
            return ne(extract(a.w - 1, k, b), const(0, a.w - k))
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if x.op == "ite" and y.op == "c" and (x.a[1].op == "c" or x.a[2].op == "c"):
            if f == 0:
                return ite(x.a[0], ult(x.a[1], y), ult(x.a[2], y))
            return ite(x.a[0], ult(y, x.a[1]), ult(y, x.a[2]))
    if a.op == "concat" and b.op == "concat":
        pa, pb = a.a, b.a
        if pa[0] is pb[0]:
            return ult(trunc(a, a.w - pa[0].w), trunc(b, a.w - pa[0].w))
        if pa[-1] is pb[-1]:
            n = pa[-1].w
            return ult(extract(a.w - 1, n, a), extract(a.w - 1, n, b))
    return mk("ult", 1, (a, b))


def ule(a, b):
    return bnot(ult(b, a))


def slt(a, b):
    w = a.w
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if sval(a) < sval(b) else FALSE
    if w == 1:
        return band(a, bnot(b))
    h = 1 << (w - 1)
    an = 0 if a.ub < h else (1 if a.lb >= h else None)
    bn = 0 if b.ub < h else (1 if b.lb >= h else None)
    if an is not None and bn is not None:
        if an == bn:
            return ult(a, b)
        return TRUE if an else FALSE
    if b.op == "c" and b.v == 0:
        return bit(a, w - 1)
    if a.op == "c" and a.v == _mask(w):
        return bnot(bit(b, w - 1))
    # compare with flipped sign bits when one of them is constant-signed
    if a.op == "ite" and b.op == "c" and (a.a[1].op == "c" or a.a[2].op == "c"):
        return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b))
    if b.op == "ite" and a.op == "c" and (b.a[1].op == "c" or b.a[2].op == "c"):
        return ite(b.a[0], slt(a, b.a[1]), slt(a, b.a[2]))
    if a.op == "sext" and b.op == "sext" and a.a[0].w == b.a[0].w:
        return slt(a.a[0], b.a[0])
    if an == 0:
        # b may be negative
        return band(bnot(bit(b, w - 1)), ult(a, b))
    if an == 1:
        return bor(bnot(bit(b, w - 1)), ult(a, b))
    if bn == 0:
        return bor(bit(a, w - 1), ult(a, b))
    if bn == 1:
        return band(bit(a, w - 1), ult(a, b))
    return mk("slt", 1, (a, b))


def sle(a, b):
    return bnot(slt(b, a))


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    w = a.w
    m = _mask(w)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if a.op == "c":
            return const(a.v + b.v, w)
        if b.v == 0:
            return a
        if a.op == "add" and a.a[1].op == "c":
            return add(a.a[0], const(a.a[1].v + b.v, w))
        if a.op == "sub" and a.a[1].op == "c":
            return add(a.a[0], const(b.v - a.a[1].v, w))
        if a.op == "sub" and a.a[0].op == "c":
            return sub(const(a.a[0].v + b.v, w), a.a[1])
        if w == 1:
            return bnot(a)
        if a.op == "ite" and (a.a[1].op == "c" or a.a[2].op == "c"):
            return ite(a.a[0], add(a.a[1], b), add(a.a[2], b))
        if b.v >> (w - 1):
            return sub(a, const(-b.v, w))
        if a.op == "not" and b.v == 1:
            return sub(const(0, w), a.a[0])
        # no carry into/over other bits: treat as or
        if (a.kz & b.v) == b.v and a.op == "concat":
            r = _bit("or", a, b)
            if r.op == "concat":
                return r
    else:
        if a.op == "sub" and a.a[1] is b:
            return a.a[0]
        if b.op == "sub" and b.a[1] is a:
            return b.a[0]
        if w == 1:
            return bxor(a, b)
        if a.op == "not" and a.a[0] is b or b.op == "not" and b.a[0] is a:
            return const(m, w)
        if (a.kz | b.kz) == m:
            r = _bit("or", a, b)
            if r.op == "concat":
                return r
        if a.id > b.id:
            a, b = b, a
    if a.ub + b.ub <= m:
        # same width, no carry out: narrow if possible
        n = (a.ub + b.ub).bit_length()
        if n < w:
            return zext(add(trunc(a, n), trunc(b, n)), w)
        return mk("add", w, (a, b), None, a.lb + b.lb, a.ub + b.ub)
    if a.lb + b.lb > m:
        return mk("add", w, (a, b), None, a.lb + b.lb - m - 1, a.ub + b.ub - m - 1)
    return mk("add", w, (a, b))


def sub(a, b):
    w = a.w
    m = _mask(w)
    if a is b:
        return const(0, w)
    if b.op == "c":
        if a.op == "c":
            return const(a.v - b.v, w)
        if b.v == 0:
            return a
        if w == 1:
            return bnot(a)
        if a.op == "add" and a.a[1].op == "c":
            return add(a.a[0], const(a.a[1].v - b.v, w))
        if a.op == "sub" and a.a[1].op == "c":
            return sub(a.a[0], const(a.a[1].v + b.v, w))
        if a.op == "sub" and a.a[0].op == "c":
            return sub(const(a.a[0].v - b.v, w), a.a[1])
        if a.op == "ite" and (a.a[1].op == "c" or a.a[2].op == "c"):
            return ite(a.a[0], sub(a.a[1], b), sub(a.a[2], b))
        if b.v >> (w - 1) and b.v != 1 << (w - 1):
            return add(a, const(-b.v, w))
    elif a.op == "c":
        if a.v == m:
            return bnot(b)
        if a.v == 0 and b.op == "sub":
            return sub(b.a[1], b.a[0])
        if a.v == 0 and b.op == "not":
            return add(b.a[0], const(1, w))
        if b.op == "ite" and (b.a[1].op == "c" or b.a[2].op == "c"):
            return ite(b.a[0], sub(a, b.a[1]), sub(a, b.a[2]))
        if b.op == "add" and b.a[1].op == "c":
            return sub(const(a.v - b.a[1].v, w), b.a[0])
        if b.op == "sub" and b.a[1].op == "c":
            return sub(const(a.v + b.a[1].v, w), b.a[0])
        if b.op == "sub" and b.a[0].op == "c":
            return add(b.a[1], const(a.v - b.a[0].v, w))
    elif w == 1:
        return bxor(a, b)
    else:
        if a.op == "add":
            if a.a[0] is b:
                return a.a[1]
            if a.a[1] is b:
                return a.a[0]
        if b.op == "ite" and b.a[1].op == "c" and b.a[2].op == "c" and b.a[1].v in (0, m) and b.a[2].v in (0, m):
            return ite(b.a[0], sub(a, b.a[1]), sub(a, b.a[2]))
    if a.lb >= b.ub:
        n = a.ub.bit_length()
        if n < w:
            return zext(sub(trunc(a, n), trunc(b, n)), w)
        return mk("sub", w, (a, b), None, a.lb - b.ub, a.ub - b.lb)
    if a.ub < b.lb:
        return mk("sub", w, (a, b), None, a.lb - b.ub + m + 1, a.ub - b.lb + m + 1)
    return mk("sub", w, (a, b))


def neg(a):
    return sub(const(0, a.w), a)


def mul(a, b):
    w = a.w
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if a.op == "c":
            return const(a.v * b.v, w)
        if b.v == 0:
            return b
        if b.v == 1:
            return a
        if b.v & (b.v - 1) == 0:
            return shl_c(a, b.v.bit_length() - 1)
        if b.v == _mask(w):
            return neg(a)
        if a.op == "ite" and a.a[1].op == "c" and a.a[2].op == "c":
            return ite(a.a[0], mul(a.a[1], b), mul(a.a[2], b))
        if a.op == "mul" and a.a[1].op == "c":
            return mul(a.a[0], const(a.a[1].v * b.v, w))
    else:
        # multiplication by a sign-like selector
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and x.a[1].op == "c" and x.a[2].op == "c" and y.op != "ite":
                return ite(x.a[0], mul(x.a[1], y), mul(x.a[2], y))
            if x.ub <= 1 and w > 1:
                return ite(trunc(x, 1), y, const(0, w))
        for x, y in ((a, b), (b, a)):
            if x.op == "sub" and x.a[0].op == "c" and x.a[0].v == 0:
                return neg(mul(x.a[1], y))
        if a.id > b.id:
            a, b = b, a
    n = (a.ub * b.ub).bit_length()
    if n < w:
        return zext(mul(trunc(a, n), trunc(b, n)), w)
    if n == w:
        return mk("mul", w, (a, b), None, a.lb * b.lb, a.ub * b.ub)
    return mk("mul", w, (a, b))


def udiv(a, b):
    w = a.w
    if b.op == "c":
        if b.v == 0:
            return const(-1, w)
        if a.op == "c":
            return const(a.v // b.v, w)
        if b.v == 1:
            return a
        if b.v & (b.v - 1) == 0:
            return lshr_c(a, b.v.bit_length() - 1)
    if a.op == "c" and a.v == 0 and b.lb > 0:
        return a
    n = max(a.ub.bit_length(), b.ub.bit_length(), 1)
    if n < w and b.lb > 0:
        return zext(udiv(trunc(a, n), trunc(b, n)), w)
    if b.lb > 0:
        if a.ub < b.lb:
            return const(0, w)
        return mk("udiv", w, (a, b), None, a.lb // b.ub, a.ub // b.lb)
    return mk("udiv", w, (a, b))


def urem(a, b):
    w = a.w
    if b.op == "c":
        if b.v == 0:
            return a
        if a.op == "c":
            return const(a.v % b.v, w)
        if b.v == 1:
            return const(0, w)
        if b.v & (b.v - 1) == 0:
            k = b.v.bit_length() - 1
            return zext(trunc(a, k), w)
    n = max(a.ub.bit_length(), b.ub.bit_length(), 1)
    if n < w and b.lb > 0:
        return zext(urem(trunc(a, n), trunc(b, n)), w)
    if b.lb > 0:
        if a.ub < b.lb:
            return a
        return mk("urem", w, (a, b), None, 0, min(a.ub, b.ub - 1))
    return mk("urem", w, (a, b), None, 0, a.ub)


def sdiv(a, b):
    """LLVM sdiv (caller guards zero and MIN/-1)"""
    w = a.w
    h = w - 1
    if isc(a) and isc(b) and b.v:
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, w)
    sa, sb = bit(a, h), bit(b, h)
    q = udiv(ite(sa, neg(a), a), ite(sb, neg(b), b))
    return ite(bxor(sa, sb), neg(q), q)


def srem(a, b):
    w = a.w
    h = w - 1
    sa, sb = bit(a, h), bit(b, h)
    r = urem(ite(sa, neg(a), a), ite(sb, neg(b), b))
    return ite(sa, neg(r), r)


# ---------------------------------------------------------------- shifts
def shl_c(a, n):
    if n >= a.w:
        return const(0, a.w)
    if n == 0:
        return a
    return concat(trunc(a, a.w - n), const(0, n))


def lshr_c(a, n):
    if n >= a.w:
        return const(0, a.w)
    if n == 0:
        return a
    return zext(extract(a.w - 1, n, a), a.w)


def ashr_c(a, n):
    if n == 0:
        return a
    n = min(n, a.w - 1)
    return sext(extract(a.w - 1, n, a), a.w)


def _shift(op, f, a, b):
    if b.op == "c":
        return f(a, b.v)
    if a.op == "c" and a.v == 0:
        return a
    if b.op == "ite" and b.a[1].op == "c" and b.a[2].op == "c":
        return ite(b.a[0], f(a, b.a[1].v), f(a, b.a[2].v))
    if op == "lshr":
        return mk(op, a.w, (a, b), None, 0, a.ub >> min(b.lb, a.w))
    return mk(op, a.w, (a, b))


def shl(a, b):
    return _shift("shl", shl_c, a, b)


def lshr(a, b):
    return _shift("lshr", lshr_c, a, b)


def ashr(a, b):
    if a.ub < 1 << (a.w - 1):
        return lshr(a, b)
    return _shift("ashr", ashr_c, a, b)


def rotl(a, b):
    """rotate left by b mod w (w a power of two)"""
    w = a.w
    k = w.bit_length() - 1
    n = trunc(b, k) if b.w > k else b
    n = zext(n, w)
    return bor(shl(a, n), lshr(a, band(sub(const(w, w), n), const(w - 1, w))))


# ---------------------------------------------------------------- bit counting
def ctlz(a):
    w = a.w
    if a.op == "c":
        return const(w - a.v.bit_length(), w)
    if a.lb.bit_length() == a.ub.bit_length():
        return const(w - a.lb.bit_length(), w)
    return mk("ctlz", w, (a,), None, w - a.ub.bit_length(), w - a.lb.bit_length())


def cttz(a):
    w = a.w
    if a.op == "c":
        return const((a.v & -a.v).bit_length() - 1 if a.v else w, w)
    n = 0
    kz = a.kz
    while n < w and kz >> n & 1:
        n += 1
    return mk("cttz", w, (a,), None, n, w)


def ctpop(a):
    w = a.w
    if a.op == "c":
        return const(bin(a.v).count("1"), w)
    return mk("ctpop", w, (a,), None, 0, w - bin(a.kz).count("1"))


def bswap(a):
    return concat(*[extract(i + 7, i, a) for i in range(0, a.w, 8)])


def bitreverse(a):
    return concat(*[bit(a, i) for i in range(a.w)])


def uf(name, w, *args):
    """uninterpreted / theory operator (floating point)"""
    r = FOLD.get(name)
    if r is not None and all(x.op == "c" for x in args):
        return const(r(*[x.v for x in args]), w)
    u = UFUB.get(name)
    return mk("uf", w, tuple(args), name, 0, u(args) if u else None)


FOLD = {}       # concrete meaning
UFUB = {}       # upper bound


# ---------------------------------------------------------------- traversal
def topo(roots):
    seen = set()
    out = []
    st = [(r, False) for r in roots]
    while st:
        t, d = st.pop()
        if d:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for x in t.a:
            if x.id not in seen:
                st.append((x, False))
    return out


def vars_of(roots):
    return [t for t in topo(roots) if t.op == "v"]


_B = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem, "and": band, "or": bor,
      "xor": bxor, "not": bnot, "ite": ite, "eq": eq, "ult": ult, "slt": slt, "shl": shl, "lshr": lshr,
      "ashr": ashr, "ctlz": ctlz, "cttz": cttz, "ctpop": ctpop}


def rebuild(t, a):
    op = t.op
    if op == "concat":
        return concat(*a)
    if op == "extract":
        return extract(t.v[0], t.v[1], a[0])
    if op == "sext":
        return sext(a[0], t.w)
    if op == "uf":
        return uf(t.v, t.w, *a)
    return _B[op](*a)


def subst(roots, m):
    """m: dict term id -> term. Returns list."""
    memo = dict(m)
    for t in topo(roots):
        if t.id in memo:
            continue
        if not t.a:
            memo[t.id] = t
            continue
        a = [memo[x.id] for x in t.a]
        if all(x is y for x, y in zip(a, t.a)):
            memo[t.id] = t
        else:
            memo[t.id] = rebuild(t, a)
    return [memo[r.id] for r in roots]


def evalc(t, env):
    """evaluate with env: var name -> int (missing variables are 0)"""
    return evals([t], env)[0]


def evals(ts, env):
    memo = {}
    for t in topo(ts):
        op, w = t.op, t.w
        m = (1 << w) - 1
        if op == "c":
            r = t.v
        elif op == "v":
            r = env.get(t.v[0], t.lb) & m
        else:
            a = [memo[x.id] for x in t.a]
            if op == "add":
                r = a[0] + a[1]
            elif op == "sub":
                r = a[0] - a[1]
            elif op == "mul":
                r = a[0] * a[1]
            elif op == "udiv":
                r = a[0] // a[1] if a[1] else m
            elif op == "urem":
                r = a[0] % a[1] if a[1] else a[0]
            elif op == "and":
                r = a[0] & a[1]
            elif op == "or":
                r = a[0] | a[1]
            elif op == "xor":
                r = a[0] ^ a[1]
            elif op == "not":
                r = ~a[0]
            elif op == "ite":
                r = a[1] if a[0] else a[2]
            elif op == "eq":
                r = int(a[0] == a[1])
            elif op == "ult":
                r = int(a[0] < a[1])
            elif op == "slt":
                h = t.a[0].w
                x, y = a
                x -= (x >> (h - 1)) << h
                y -= (y >> (h - 1)) << h
                r = int(x < y)
            elif op == "concat":
                r = 0
                for p, x in zip(t.a, a):
                    r = (r << p.w) | x
            elif op == "extract":
                r = a[0] >> t.v[1]
            elif op == "sext":
                h = t.a[0].w
                r = a[0] - ((a[0] >> (h - 1)) << h)
            elif op == "shl":
                r = a[0] << a[1] if a[1] < w else 0
            elif op == "lshr":
                r = a[0] >> a[1] if a[1] < w else 0
            elif op == "ashr":
                x = a[0] - ((a[0] >> (w - 1)) << w)
                r = x >> min(a[1], w)
            elif op == "ctlz":
                r = w - a[0].bit_length()
            elif op == "cttz":
                r = (a[0] & -a[0]).bit_length() - 1 if a[0] else w
            elif op == "ctpop":
                r = bin(a[0]).count("1")
            elif op == "uf":
                r = FOLD[t.v](*a)
            else:
                raise Exception("eval " + op)
        memo[t.id] = r & m
    return [memo[t.id] for t in ts]


def show(t, d=6):
    if t.op == "c":
        return hex(t.v) if t.v > 9 else str(t.v)
    if t.op == "v":
        return t.v[0]
    if d == 0:
        return "#%d" % t.id
    extra = "" if t.v is None else str(t.v)
    return "(%s%s %s)" % (t.op, extra, " ".join(show(x, d - 1) for x in t.a))
