"""C09 float -> 256-bit integer."""
from vt.spec import *
from vt import contracts, term as T

BOUNDS = "none: all 2^32 f32 and 2^64 f64 bit patterns (split by sign for I256)"


def decomp(b, w):
    M = 23 if w == 32 else 52
    E = 8 if w == 32 else 11
    bias = (1 << (E - 1)) - 1
    sg = T.bit(b, w - 1)
    e = T.extract(w - 2, M, b)
    m = T.concat(C(1, 1), T.extract(M - 1, 0, b))
    nan = T.band(T.eq(e, C(-1, E)), T.ne(T.extract(M - 1, 0, b), C(0, M)))
    lt1 = T.ult(e, C(bias, E))
    x = T.sub(T.zext(e, 320), C(bias, 320))          # exponent, meaningful when not lt1
    mag = T.lshr(T.shl(T.zext(m, 320), x), C(M, 320))
    return sg, nan, lt1, e, bias, mag


def obligations(tier):
    out = []
    for ty, w in (("f32", 32), ("f64", 64)):
        E = 8 if w == 32 else 11

        def us(i, w=w, E=E):
            sg, nan, lt1, e, bias, mag = decomp(tr(i.n[0], w), w)
            big = T.bnot(T.ult(T.zext(e, 16), C(bias + 256, 16)))
            r = T.ite(big, C(-1, 256), tr(mag))
            return {"w0": T.ite(T.bor(nan, T.bor(sg, lt1)), C(0, 256), r)}

        def is_(i, w=w, E=E):
            sg, nan, lt1, e, bias, mag = decomp(tr(i.n[0], w), w)
            big = T.bnot(T.ult(T.zext(e, 16), C(bias + 255, 16)))
            r = T.ite(big, T.ite(sg, C(MIN, 256), C(MIN - 1, 256)), T.ite(sg, T.neg(tr(mag)), tr(mag)))
            return {"x0": T.ite(T.bor(nan, lt1), C(0, 256), r)}
        src = "%s::from_bits($n0 as u%d)" % (ty, w)
        fgen = lambda R, w=w: {"n0": fbits(R, w)}
        out.append(Obl(H("u256_as_from_" + ty, "@w0 = AsU256::as_u256(%s);" % src), us, cfgs=ALL, gen=fgen, contracts=contracts.PRODUCT))
        for sgn in (0, 1):
            out.append(Obl(H("i256_as_from_" + ty, "@x0 = AsI256::as_i256(%s);" % src), is_, cfgs=ALL, contracts=contracts.PRODUCT,
                           name="i256_as_from_%s_sign%d" % (ty, sgn),
                           binds=lambda w=w, sgn=sgn: {"n0": T.concat(T.var("hi", 128 - w), C(sgn, 1), T.var("lo", w - 1))},
                           gen=lambda R, w=w: {"lo": fbits(R, w) & ((1 << (w - 1)) - 1)}))
    return out


def fbits(R, w):
    M = 23 if w == 32 else 52
    E = 8 if w == 32 else 11
    bias = (1 << (E - 1)) - 1
    e = R.choice([R.getrandbits(E), bias + R.randrange(-2, 260) & ((1 << E) - 1), bias + 255, (1 << E) - 1, 0, bias]) & ((1 << E) - 1)
    m = R.choice([0, 1, R.getrandbits(M), (1 << M) - 1])
    return (R.getrandbits(1) << (w - 1)) | (e << M) | m
