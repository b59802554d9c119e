"""C11 byte and word representations."""
from vt.spec import *
from vt import term as T

BOUNDS = "none on values; little-endian target (the only one installed)"
EXTRA = """
pub fn arr(s: &[u8; 320]) -> [u8; 32] { let mut r = [0u8; 32]; let mut k = 0; while k < 32 { r[k] = s[k]; k += 1; } r }
pub fn put(o: &mut Out, b: [u8; 32]) { let mut k = 0; while k < 32 { o.s[k] = b[k]; k += 1; } }
"""


def obligations(tier):
    out = []

    def ob(name, rust, spec, **k):
        out.append(Obl(H(name, rust), spec, cfgs=("nd", "nr"), **k))

    def bytes_of(v, big):
        r = [T.extract(8 * k + 7, 8 * k, v) for k in range(32)]
        return r[::-1] if big else r

    def sb():
        return {"s": [T.var("s%d" % k, 8) for k in range(32)], "len": 32}

    def val(i, big):
        b = i.s if big else i.s[::-1]
        return T.concat(*b)

    for p, l, ty, v, f, words in (("u", "$a", "U256", lambda i: i.a, "w0", ("u128", "u128")),
                                  ("i", "$x", "I256", lambda i: i.xx, "x0", ("i128", "i128"))):
        for e, big in (("be", True), ("le", False), ("ne", False)):
            ob("%s_to_%s_bytes" % (p, e), "put(o, %s.to_%s_bytes());" % (l, e), lambda i, v=v, big=big: {"s": bytes_of(v(i), big)})
            ob("%s_from_%s_bytes" % (p, e), "@%s = %s::from_%s_bytes(arr(&$s));" % (f, ty, e),
               lambda i, big=big, f=f: {f: val(i, big)}, binds=sb)
            ob("%s_roundtrip_%s" % (p, e), "@%s = %s::from_%s_bytes(%s.to_%s_bytes());" % (f, ty, e, l, e), lambda i, v=v, f=f: {f: v(i)})
        for e, fn in (("be", T.bswap), ("le", lambda t: t)):
            ob("%s_to_%s" % (p, e), "@%s = %s.to_%s();" % (f, l, e), lambda i, fn=fn, v=v, f=f: {f: fn(v(i))})
            ob("%s_from_%s" % (p, e), "@%s = %s::from_%s(%s);" % (f, ty, e, l), lambda i, fn=fn, v=v, f=f: {f: fn(v(i))})
        hi = lambda i, v=v: T.extract(255, 128, v(i))
        lo = lambda i, v=v: T.extract(127, 0, v(i))
        ob(p + "_into_words", "let (h, l) = %s.into_words(); @n0 = h as u128; @n1 = l as u128;" % l, lambda i, hi=hi, lo=lo: {"n0": hi(i), "n1": lo(i)})
        ob(p + "_from_words", "@%s = %s::from_words($n0 as %s, $n1 as %s);" % (f, ty, words[0], words[1]),
           lambda i, f=f: {f: T.concat(i.n[0], i.n[1])})
        ob(p + "_high_low", "@n0 = *%s.high() as u128; @n1 = *%s.low() as u128;" % (l, l), lambda i, hi=hi, lo=lo: {"n0": hi(i), "n1": lo(i)})
        ob(p + "_high_mut", "let mut v = %s; *v.high_mut() = $n0 as %s; @%s = v;" % (l, words[0], f), lambda i, lo=lo, f=f: {f: T.concat(i.n[0], lo(i))})
        ob(p + "_low_mut", "let mut v = %s; *v.low_mut() = $n0 as %s; @%s = v;" % (l, words[1], f), lambda i, hi=hi, f=f: {f: T.concat(hi(i), i.n[0])})
        ob(p + "_default", "@%s = <%s as Default>::default();" % (f, ty), lambda i, f=f: {f: C(0, 256)})
    ob("u_consts", "@w0 = U256::MIN; @w1 = U256::MAX; @w2 = U256::ZERO; @w3 = U256::ONE; @n0 = U256::BITS as u128;",
       lambda i: {"w0": C(0, 256), "w1": C(-1, 256), "w2": C(0, 256), "w3": C(1, 256), "n0": C(256, 128)})
    ob("i_consts", "@x0 = I256::MIN; @x1 = I256::MAX; @x2 = I256::ZERO; @x3 = I256::ONE; @n0 = I256::BITS as u128;",
       lambda i: {"x0": C(MIN, 256), "x1": C(MIN - 1, 256), "x2": C(0, 256), "x3": C(1, 256), "n0": C(256, 128)})
    return out
