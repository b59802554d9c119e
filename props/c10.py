"""C10 256-bit integer -> float, correctly rounded."""
from vt.spec import *
from vt import term as T

BOUNDS = "none: all values (split by the position of the leading bit)"


def rne(a, w):
    """IEEE bits of the unsigned 256-bit a, rounded to nearest even; a is non-zero with a known leading bit or symbolic"""
    M = 23 if w == 32 else 52
    bias = 127 if w == 32 else 1023
    lz = T.ctlz(a)
    nrm = T.shl(a, lz)
    mant = T.extract(254, 255 - M, nrm)           # without the hidden bit
    guard = T.bit(nrm, 254 - M)
    sticky = T.ne(T.extract(253 - M, 0, nrm), C(0, 254 - M))
    up = T.band(guard, T.bor(sticky, T.bit(mant, 0)))
    ex = T.sub(C(255 + bias, 64), tr(lz, 64))
    bits = T.add(T.add(T.shl(ex, C(M, 64)), T.zext(mant, 64)), T.zext(up, 64))
    bits = tr(bits, w)
    if w == 32:
        bits = T.ite(T.ult(C(254, 64), ex), C(0x7f800000, 32), bits)
    return T.ite(T.eq(a, C(0, 256)), C(0, w), bits)


def obligations(tier):
    out = []
    lead = lambda k: T.concat(*([C(0, 255 - k)] if k < 255 else []), C(1, 1), *([T.var("lo", k)] if k else []))
    for ty, w in (("f32", 32), ("f64", 64)):
        for k in list(range(256)) + [None]:
            kk = "zero" if k is None else "b%d" % k
            v = C(0, 256) if k is None else None
            cfgs = ("nd", "nr")
            out.append(Obl(H("u256_as_" + ty, "@n0 = $a.as_%s().to_bits() as u128;" % ty),
                           lambda i, w=w: {"n0": u(rne(i.a, w), 128)}, cfgs=cfgs, name="u256_as_%s_%s" % (ty, kk), samples=1,
                           binds=lambda k=k: {"w0": C(0, 256) if k is None else lead(k)}))
            if k is None or k < 255:
                for sg in (0, 1) if k is not None else (0,):
                    out.append(Obl(H("i256_as_" + ty, "@n0 = $x.as_%s().to_bits() as u128;" % ty),
                                   lambda i, w=w, sg=sg: {"n0": u(T.bor(rne(T.neg(i.xx) if sg else i.xx, w), C(sg << (w - 1), w)), 128)},
                                   cfgs=cfgs, name="i256_as_%s_%s_%s" % (ty, "neg" if sg else "pos", kk), samples=1,
                                   binds=lambda k=k, sg=sg: {"x0": C(0, 256) if k is None else T.neg(lead(k)) if sg else lead(k)}))
        out.append(Obl(H("i256_as_" + ty, "@n0 = $x.as_%s().to_bits() as u128;" % ty),
                       lambda i, w=w: {"n0": u(T.bor(rne(i.xx, w), C(1 << (w - 1), w)), 128)}, cfgs=("nd", "nr"),
                       name="i256_as_%s_min" % ty, binds={"x0": C(MIN, 256)}))
        # trait conversions agree with the methods
        out.append(Obl(H("u256_into_" + ty, "@n0 = (<%s as From<U256>>::from($a).to_bits() == $a.as_%s().to_bits()) as u128;" % (ty, ty)),
                       lambda i: {"n0": C(1, 128)}, cfgs=("nr",)))
        out.append(Obl(H("i256_into_" + ty, "@n0 = (<%s as From<I256>>::from($x).to_bits() == $x.as_%s().to_bits()) as u128;" % (ty, ty)),
                       lambda i: {"n0": C(1, 128)}, cfgs=("nr",)))
    return out
