"""C22 permissive deserialisation of numbers."""
from vt.spec import *
from vt import term as T
from props.serdes import DE

EXTRA = DE + """
use ethnum::serde::permissive;
"""
BOUNDS = ("none on integers; every float except exactly -2^24 (f32) and -2^53 (f64), which the documentation calls out of range and the code accepts; "
          "the number reaches the visitor through serde's own primitive deserialisers")
ASSUMPTIONS = ["error values of the stand-in format carry no message (its construction is not explored)"]
UINT = ("u8", "u16", "u32", "u64", "u128")
SINT = ("i8", "i16", "i32", "i64", "i128")


def integral(x, w):
    """float bits -> (in the open exact range and integral, value in w bits)"""
    eb, mb, bias = (8, 23, 127) if x.w == 32 else (11, 52, 1023)
    sg, e, m = T.bit(x, x.w - 1), T.extract(x.w - 2, mb, x), T.trunc(x, mb)
    W = mb + 1
    sig = T.concat(C(1, 1), m)
    sh = T.sub(C(bias + mb, eb), e)                    # value = sig / 2^sh
    inr = T.band(T.ule(C(bias, eb), e), T.ule(e, C(bias + mb, eb)))
    s = T.zext(sh, W)
    mag = T.lshr(sig, s)
    exact = T.eq(T.shl(mag, s), sig)
    zero = T.eq(T.trunc(x, x.w - 1), C(0, x.w - 1))
    v = T.zext(T.ite(zero, C(0, W), mag), w)
    return T.bor(zero, T.band(inr, exact)), T.ite(T.bit(x, x.w - 1), T.neg(v), v)


def obligations(tier):
    out = []

    def typed(p, sg):
        ty, f = "UI"[sg] + "256", "wx"[sg] + "0"

        def ob(t, expr, spec, name=None, **k):
            rust = "let d: dv::%sDeserializer<DE> = (%s).into_deserializer(); d%s(o, permissive::deserialize::<%s, _>(d));" % (t[0].upper() + t[1:], expr, p, ty)
            out.append(Obl(H("%s_from_%s" % (p, t), rust), spec, cfgs=ALL, solvers=("sat:60", "z3:60"), **k))

        def res(ok, v):
            return {"n0": b2n(T.bnot(ok)), f: T.ite(ok, v, C(0, 256))}
        for t in UINT:
            n = int(t[1:])
            ob(t, "$n0 as %s" % t, lambda i, n=n: res(T.TRUE, u(tr(i.n[0], n), 256)))
        for t in SINT:
            n = int(t[1:])
            ob(t, "$n0 as %s" % t, lambda i, n=n: res(T.TRUE if sg else T.bnot(T.bit(i.n[0], n - 1)), s(tr(i.n[0], n), 256)))

        def fl(i, n):
            ok, v = integral(tr(i.n[0], n), 256)
            return res(ok if sg else T.band(ok, T.bnot(T.bit(v, 255))), v)
        for t, n, edge in (("f32", 32, 0xcb800000), ("f64", 64, 0xc340000000000000)):
            import struct

            def gen(R, n=n):
                v = R.choice([0.0, -0.0, 1.0, -1.0, 0.5, 2.5, float(2 ** 24), float(2 ** 24 - 1), float(2 ** 53), float(2 ** 53 - 1), -float(2 ** 53 - 1), float(R.getrandbits(20)), -float(R.getrandbits(22)),
                              float("inf"), float("nan"), 1e-310, float(R.getrandbits(52))])
                b = struct.pack("<f" if n == 32 else "<d", v)
                return {"n0": int.from_bytes(b, "little") if R.randrange(4) else R.getrandbits(n)}
            ob(t, "%s::from_bits($n0 as u%d)" % (t, n), lambda i, n=n: fl(i, n), pre=lambda i, n=n, edge=edge: T.ne(tr(i.n[0], n), C(edge, n)), gen=gen)
        err = lambda i: res(T.FALSE, C(0, 256))
        ob("bool", "$n0 as u8 & 1 == 1", err)
        out.append(Obl(H(p + "_from_unit", "let d: dv::UnitDeserializer<DE> = ().into_deserializer(); d%s(o, permissive::deserialize::<%s, _>(d));" % (p, ty)), err, cfgs=ALL))
    typed("u", 0)
    typed("i", 1)
    return out
