"""Stand-ins for the multiplication and division kernels.

A stand-in replaces a call to an internal kernel by the kernel's specification.  It is only used by
obligations that say so; the kernels themselves are decided without stand-ins by C02 (mul2, mul3,
umulc, imulc), C03 (udivmod4) and C04 (idivmod4).  Unexpected argument shapes fall through to the
real code."""
import re
from . import term as T, exec as X

I256 = ("i", 256)


def rx(name):
    return re.compile(r"(^|::)intrinsics::(native|llvm)(::\w+)*::%s$" % name)


def ptrs(*ps):
    return all(type(p) is X.Ptr and p.obj != 0 for p in ps)


def is_null(p):
    return type(p) is X.Ptr and p.obj == 0


def u512(x):
    return T.zext(x, 512)


def s512(x):
    return T.sext(x, 512)


def mul2(m, st, a, t):
    if len(a) != 2 or not ptrs(*a):
        return X.FALLTHROUGH
    m.store(st, I256, T.mul(m.load(st, I256, a[0]), m.load(st, I256, a[1])), a[0])


def mul3(m, st, a, t):
    if len(a) != 3 or not ptrs(*a):
        return X.FALLTHROUGH
    m.store(st, I256, T.mul(m.load(st, I256, a[1]), m.load(st, I256, a[2])), a[0])


def mulc(ext):
    def f(m, st, a, t):
        if len(a) != 3 or not ptrs(*a) or t[0] != "i":
            return X.FALLTHROUGH
        x, y = m.load(st, I256, a[1]), m.load(st, I256, a[2])
        r = T.mul(x, y)
        m.store(st, I256, r, a[0])
        return T.zext(overflows(T.mul, ext is s512, x, y), t[1])
    return f


def divmod4(div, rem):
    def f(m, st, a, t):
        if len(a) != 4 or not ptrs(*a[:3]) or not (ptrs(a[3]) or is_null(a[3])):
            return X.FALLTHROUGH
        n, d = m.load(st, I256, a[1]), m.load(st, I256, a[2])
        z = T.eq(d, T.const(0, 256))

        def done(s):
            m.store(s, I256, div(n, d), a[0])
            if ptrs(a[3]):
                m.store(s, I256, rem(n, d), a[3])
            return None
        if z is T.FALSE:
            return done(st)
        raise X.Alt([(z, "panic", "attempt to divide by zero"), (T.bnot(z), "val", done)])
    return f


def neg_if(c, x):
    return T.ite(c, T.sub(T.const(0, x.w), x), x)


def sgn(x):
    return T.bit(x, x.w - 1)


def sdiv(n, d):
    """truncating quotient; MIN / -1 wraps"""
    return neg_if(T.bxor(sgn(n), sgn(d)), T.udiv(neg_if(sgn(n), n), neg_if(sgn(d), d)))


def srem(n, d):
    return neg_if(sgn(n), T.urem(neg_if(sgn(n), n), neg_if(sgn(d), d)))


def shift(fn, three):
    def f(m, st, a, t):
        if len(a) != 2 + three or not ptrs(*a[:1 + three]) or a[-1].ub > 255:
            return X.FALLTHROUGH
        m.store(st, I256, fn(m.load(st, I256, a[three]), T.zext(a[-1], 256)), a[0])
    return f


def addsub(fn, n):
    def f(m, st, a, t):
        if len(a) != n or not ptrs(*a):
            return X.FALLTHROUGH
        m.store(st, I256, fn(m.load(st, I256, a[n - 2]), m.load(st, I256, a[n - 1])), a[0])
    return f


def overflows(fn, signed, x, y):
    """exact result of fn does not fit"""
    e = T.sext if signed else T.zext
    w = 512 if fn is T.mul else 258
    p = fn(e(x, w), e(y, w))
    return T.ne(e(T.trunc(p, 256) if fn is not T.mul else T.mul(x, y), w), p)


def addsubc(fn, signed):
    def f(m, st, a, t):
        if len(a) != 3 or not ptrs(*a) or t[0] != "i":
            return X.FALLTHROUGH
        x, y = m.load(st, I256, a[1]), m.load(st, I256, a[2])
        m.store(st, I256, fn(x, y), a[0])
        return T.zext(overflows(fn, signed, x, y), t[1])
    return f


ADD = {}
for _n, _f in (("add", T.add), ("sub", T.sub)):
    ADD.update({rx(_n + "2"): addsub(_f, 2), rx(_n + "3"): addsub(_f, 3),
                rx("u%sc" % _n): addsubc(_f, False), rx("i%sc" % _n): addsubc(_f, True)})
SHIFT = {rx(n + k): shift(fn, k == "3") for n, fn in (("shl", T.shl), ("shr", T.lshr), ("sar", T.ashr)) for k in "23"}
MUL = {rx("mul2"): mul2, rx("mul3"): mul3, rx("umulc"): mulc(u512), rx("imulc"): mulc(s512)}
PRODUCT = {rx("mul2"): mul2, rx("mul3"): mul3}
UDIV = {rx("udivmod4"): divmod4(T.udiv, T.urem)}
IDIV = {rx("idivmod4"): divmod4(sdiv, srem)}
KERNELS = dict(list(MUL.items()) + list(UDIV.items()) + list(IDIV.items()))
