"""Specification of numeral parsing over symbolic bytes, shared by C12, C13, C15, C22, C23."""
import re
from vt.spec import *
from vt import term as T, exec as X
from vt.contracts import overflows

OK, EMPTY, INVALID, POS, NEG = range(5)
K = lambda k: C(k, 8)

EXTRA = """
pub fn kind(e: &core::num::ParseIntError) -> u128 {
    use core::num::IntErrorKind::*;
    match e.kind() { Empty => 1, InvalidDigit => 2, PosOverflow => 3, NegOverflow => 4, _ => 5 }
}
pub fn pu(o: &mut Out, r: Result<U256, core::num::ParseIntError>) {
    match r { Ok(v) => o.w[0] = v, Err(e) => o.n[0] = kind(&e) }
}
pub fn pi(o: &mut Out, r: Result<I256, core::num::ParseIntError>) {
    match r { Ok(v) => o.x[0] = v, Err(e) => o.n[0] = kind(&e) }
}
"""


def rng(c, lo, hi):
    """lo <= c <= hi"""
    return T.band(T.ule(K(ord(lo)), c), T.ule(c, K(ord(hi))))


def digit_real(c, radix):
    """-> (valid, value as 8 bits)"""
    nd = min(radix, 10)
    d = rng(c, "0", chr(47 + nd))
    v = T.sub(c, K(48))
    if radix > 10:
        top = radix - 11
        a, u = rng(c, "a", chr(97 + top)), rng(c, "A", chr(65 + top))
        v = T.ite(d, v, T.ite(a, T.sub(c, K(87)), T.sub(c, K(55))))
        d = T.ors([d, a, u])
    return d, T.ite(d, v, K(0))


# the value of a digit character as a symbol; numerals only depend on it through its bound
T.FOLD["@digit"] = lambda c, r: digit_real(K(c), r)[1].v
T.UFUB["@digit"] = lambda a: a[1].v - 1


def digit(c, radix):
    return digit_real(c, radix)[0], T.uf("@digit", 8, c, K(radix))


def to_digit(m, st, a, t):
    """stand-in for the standard library's char::to_digit on a byte and a fixed radix"""
    c, r = a
    if r.op != "c" or not 2 <= r.v <= 36 or T.extract(31, 8, c) is not C(0, 24):
        return X.FALLTHROUGH
    ok, d = digit(T.trunc(c, 8), r.v)
    return T.zext(ok, 32), T.zext(d, 32)


TO_DIGIT = {re.compile(r"char::methods.*::to_digit$"): to_digit}


def unknown(inp, conds):
    """digit values become unknowns with their bound"""
    return T.subst(list(conds), {x.id: T.var("@%d" % x.id, x.w, x.ub) for x in T.topo(conds) if x.op == "uf" and x.v == "@digit"})


def expand(inp, conds):
    for _ in range(2):
        conds = T.subst(list(conds), {x.id: digit_real(x.a[0], x.a[1].v)[1] for x in T.topo(conds) if x.op == "uf" and x.v == "@digit"})
    return conds


PREP = [unknown, expand]


def run(digits, radix, sg, negative):
    """digits: list of byte terms -> (kind, 256-bit value), the value computed only through dig*radix steps"""
    kind, acc = K(OK), C(0, 256)
    done = T.FALSE
    for c in digits:
        ok, d = digit(c, radix)
        d, r = T.zext(d, 256), C(radix, 256)
        m = T.mul(acc, r)
        fn = T.sub if negative else T.add
        over = T.bor(overflows(T.mul, sg, acc, r), overflows(fn, sg, m, d))
        k = T.ite(ok, T.ite(over, K(NEG if negative else POS), K(OK)), K(INVALID))
        kind = T.ite(T.eq(kind, K(OK)), k, kind)
        acc = fn(m, d)
    return kind, T.ite(T.eq(kind, K(OK)), acc, C(0, 256))


def pick(c, a, b):
    return tuple(T.ite(c, x, y) for x, y in zip(a, b))


def is_(c, ch):
    return T.eq(c, K(ord(ch)))


def parse(bs, radix, sg, prefix=""):
    """the language of from_str_radix -> (kind, value)"""
    Z = C(0, 256)
    if not bs:
        return K(EMPTY), Z
    err = (K(INVALID), Z)

    def body(ds, negative):
        n = len(prefix)
        if len(ds) <= n:
            return err
        r = run(ds[n:], radix, sg, negative)
        return pick(T.ands([is_(c, p) for c, p in zip(ds, prefix)]), r, err) if n else r
    plus, minus = is_(bs[0], "+"), is_(bs[0], "-")
    if len(bs) == 1:
        return pick(T.bor(plus, minus), err, body(bs, False))
    r = pick(plus, body(bs[1:], False), body(bs, False))
    if sg:
        r = pick(minus, body(bs[1:], True), r)
    return r


def sym(n, name="c"):
    """n symbolic ASCII bytes"""
    return [T.concat(C(0, 1), T.var("%s%d" % (name, k), 7)) for k in range(n)]


def numeral_gen(n, radix, name="c", lead=0):
    """concrete candidates: mostly digits, sometimes a sign or a stray character"""
    ds = "0123456789abcdefghijklmnopqrstuvwxyz"[:radix] + ("ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:radix - 10] if radix > 10 else "")

    def f(R):
        mode = R.randrange(4)
        cs = [R.choice(ds) if mode else R.choice(ds[:1] + ds[radix - 1:radix]) for _ in range(n)]
        if R.randrange(3) == 0:
            k = R.randrange(1, max(2, n))
            cs[:k] = ["0"] * min(k, n)
            cs = cs[:n]
        if n and R.randrange(3) == 0:
            cs[0] = R.choice("+-")
        if n and R.randrange(6) == 0:
            cs[R.randrange(n)] = R.choice("+-_ gGzZ/:@[`{x\x7f\0")
        return {"%s%d" % (name, k): ord(c) for k, c in enumerate(cs) if k >= lead}
    return f


def maxlen(radix, sg):
    """digits of the largest magnitude"""
    n, m = 0, (1 << 255 if sg else (1 << 256) - 1)
    while m:
        n, m = n + 1, m // radix
    return n


def pattern(pat, name="c"):
    """bytes from a pattern: d digit<radix by RADIX suffix, x any ASCII byte, other characters literal.
    pat: list of (class, lo, hi) or a literal character"""
    out = []
    for k, p in enumerate(pat):
        if p == "x":
            out.append(T.concat(C(0, 1), T.var("%s%d" % (name, k), 7)))
        elif isinstance(p, tuple):
            base, n = p
            v = T.var("%s%d" % (name, k), 5 if n <= 32 else 6, n - 1)
            out.append(T.add(T.zext(v, 8), K(base)))
        else:
            out.append(K(ord(p)))
    return out


MULTI = [(0xc2, 30), (0x80, 64)]       # a character of two UTF-8 bytes


def mixed(n, radix, salt=0):
    """n valid digits of mixed classes"""
    dig = (48, min(radix, 10))
    if radix <= 10:
        return [dig] * n
    cl = [dig, (97, radix - 10), (65, radix - 10)]
    return [cl[(k * 7 + k // 3 + salt) % 3] for k in range(n)]


def pattern_gen(pat, name="c"):
    def f(R):
        top = R.randrange(4)
        z = R.randrange(len(pat) + 1) if R.randrange(2) else 0
        e = {}
        for k, p in enumerate(pat):
            if p == "x":
                e["%s%d" % (name, k)] = R.choice([48, 49, 43, 45, 95, 32, 103, 122, 47, 58, R.randrange(128)])
            elif isinstance(p, tuple):
                n = p[1]
                e["%s%d" % (name, k)] = 0 if k < z else R.choice([n - 1, n - 1, R.randrange(n)]) if top == 0 else R.randrange(n)
        return e
    return f
