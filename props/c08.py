"""C08 integer conversions."""
from vt.spec import *
from vt import term as T

BOUNDS = "none: all source values of every primitive integer type, bool, U256 and I256 (usize/isize: 64-bit target)"
EXTRA = """
use core::convert::TryFrom;

"""
INTS = [("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64), ("i128", 128), ("isize", 64),
        ("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128), ("usize", 64)]


def obligations(tier):
    out = []

    def ob(name, rust, spec, **k):
        out.append(Obl(H(name, rust), spec, cfgs=("nd", "nr"), **k))

    for ty, w in INTS:
        sg = ty[0] == "i"
        v = lambda i, w=w, sg=sg: (s if sg else u)(tr(i.n[0], w), 260)
        src = "($n0 as %s)" % ty
        # casts from primitives
        ob("as_u256_" + ty, "@w0 = AsU256::as_u256(%s);" % src, lambda i, v=v: {"w0": tr(v(i))})
        ob("as_i256_" + ty, "@x0 = AsI256::as_i256(%s);" % src, lambda i, v=v: {"x0": tr(v(i))})
        # casts to primitives
        ext = T.sext if sg else T.zext
        ob("u256_as_" + ty, "@n0 = $a.as_%s() as u128;" % ty, lambda i, w=w, ext=ext: {"n0": ext(tr(i.a, w), 128)})
        ob("i256_as_" + ty, "@n0 = $x.as_%s() as u128;" % ty, lambda i, w=w, ext=ext: {"n0": ext(tr(i.xx, w), 128)})
        # fallible / infallible from primitives
        if ty in ("u8", "u16", "u32", "u64", "u128"):
            ob("u256_from_" + ty, "@w0 = U256::from(%s);" % src, lambda i, v=v: {"w0": tr(v(i))})
        else:
            ob("u256_try_from_" + ty, "ow(o, <U256 as TryFrom<%s>>::try_from(%s).ok());" % (ty, src),
               lambda i, v=v: opt(fits_u(v(i)), tr(v(i))))
        if ty not in ("isize", "usize"):
            ob("i256_from_" + ty, "@x0 = I256::from(%s);" % src, lambda i, v=v: {"x0": tr(v(i))})
        # fallible to primitives
        for p, l, val in (("u256", "$a", lambda i: u(i.a, 260)), ("i256", "$x", lambda i: s(i.xx, 260))):
            fit = lambda i, w=w, sg=sg, val=val: (fits_s if sg else fits_u)(val(i), w)
            ob("%s_try_from_%s" % (ty, p), "match <%s>::try_from(%s) { Ok(v) => { @n0 = 1; @n1 = v as u128; } Err(_) => {} }" % (ty, l),
               lambda i, fit=fit, val=val, w=w, ext=ext: {"n0": b2n(fit(i)), "n1": T.ite(fit(i), ext(tr(val(i), w), 128), C(0, 128))})
    for b in ("bool",):
        ob("as_u256_bool", "@w0 = AsU256::as_u256($n0 != 0);", lambda i: {"w0": u(T.ne(i.n[0], C(0, 128)), 256)})
        ob("as_i256_bool", "@x0 = AsI256::as_i256($n0 != 0);", lambda i: {"x0": u(T.ne(i.n[0], C(0, 128)), 256)})
        ob("u256_from_bool", "@w0 = U256::from($n0 != 0);", lambda i: {"w0": u(T.ne(i.n[0], C(0, 128)), 256)})
        ob("i256_from_bool", "@x0 = I256::from($n0 != 0);", lambda i: {"x0": u(T.ne(i.n[0], C(0, 128)), 256)})
    ob("u256_try_from_i256", "ow(o, U256::try_from($x).ok());", lambda i: opt(T.bnot(T.bit(i.xx, 255)), i.xx))
    ob("i256_try_from_u256", "ox(o, I256::try_from($a).ok());", lambda i: opt(T.bnot(T.bit(i.a, 255)), i.a, "x0"))
    ob("u256_as_i256", "@x0 = $a.as_i256();", lambda i: {"x0": i.a})
    ob("i256_as_u256", "@w0 = $x.as_u256();", lambda i: {"w0": i.xx})
    ob("u256_trait_as_u256", "@w0 = AsU256::as_u256($a);", lambda i: {"w0": i.a})
    ob("i256_trait_as_u256", "@w0 = AsU256::as_u256($x);", lambda i: {"w0": i.xx})
    ob("u256_trait_as_i256", "@x0 = AsI256::as_i256($a);", lambda i: {"x0": i.a})
    ob("i256_trait_as_i256", "@x0 = AsI256::as_i256($x);", lambda i: {"x0": i.xx})
    ob("u256_new", "@w0 = U256::new($n0);", lambda i: {"w0": u(i.n[0], 256)})
    ob("i256_new", "@x0 = I256::new($n0 as i128);", lambda i: {"x0": s(i.n[0], 256)})
    return out
