"""C18 exponentiation: every base and every exponent, through the algebra of powers."""
from vt.spec import *
from vt import power, term as T

BOUNDS = "all 2^256 bases and all 2^32 exponents, by exponent bit length"
ASSUMPTIONS = ["the product kernels mul2/mul3/umulc/imulc meet their contracts (decided by C02)",
               "laws of powers: b^i*b^j = b^(i+j); representability of b^k is antitone in k; b^0 and b^1 are representable"]

K40 = power.KW


def gen(R, k):
    e = R.choice([R.getrandbits(32), 0, (1 << 32) - 1, 1 << R.randrange(32), R.getrandbits(3), 3 << R.randrange(31)])
    e = (e & (1 << k) - 1) | 1 << k - 1 if k else 0
    r = int(round(2 ** (256 / e))) if 0 < e < 300 else 2
    if 0 < e < 300:      # the largest base that fits, within rounding, then exactly
        r = iroot(M256 if R.getrandbits(1) else MIN, e)
    b = R.choice([R.choice([0, 1, 2, 3, 10, 16]), r, r + 1, R.getrandbits(R.randrange(1, 257)), r - 1])
    if R.getrandbits(1):
        b = -b
    return {"e": e & ~(1 << k - 1) if k else 0, "w0": b & M256, "x0": b & M256}


def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def obligations(tier):
    out = []
    for p, A, R, f, opt_ in (("u", "$a", "@w0", "w0", "ow"), ("i", "$x", "@x0", "x0", "ox")):
        b = lambda i, p=p: i.a if p == "u" else i.xx
        e = lambda i: T.zext(tr(i.n[0], 32), K40)
        val = lambda i, b=b: power.pw(b(i), e(i))
        ovf = lambda i, b=b, p=p: power.ov(p, b(i), e(i))
        sat = (lambda i: C(-1, 256)) if p == "u" else \
            (lambda i: T.ite(T.band(T.bit(i.xx, 255), T.bit(i.n[0], 0)), C(MIN, 256), C(MIN - 1, 256)))

        def ob(n, rust, spec, p=p, b=b):
            h = H(p + "_" + n, rust.replace("A", A).replace("R", R))
            heavy = n.startswith(("checked", "saturating"))
            for k in range(33):
                if tier == "quick" and heavy and k > 8 and k % 4:
                    continue        # every length in the thorough tier
                # exponents of exactly k bits
                def binds(k=k):
                    e = C(0, 128) if k == 0 else C(1, 128) if k == 1 else T.zext(T.concat(C(1, 1), T.var("e", k - 1)), 128)
                    return {"n0": e}
                out.append(Obl(h, spec, name="%s_bits%d" % (h.name, k), cfgs=("nd", "lr") if tier == "quick" and heavy and k > 8 else ALL, feas="none", unroll=40, binds=binds,
                               hooks=lambda inp, b=b: power.hooks(b(inp)), prep=[lambda i, cs, e=e: power.prep(i, cs, e(i)), power.prep], solvers=("abs:100",),
                               gen=lambda R, k=k: gen(R, k), samples=2, tlimit=200, cost=k))
        ob("wrapping_pow", "R = A.wrapping_pow($n0 as u32);", lambda i, f=f, val=val: {f: val(i)})
        ob("checked_pow", opt_ + "(o, A.checked_pow($n0 as u32));", lambda i, f=f, val=val, ovf=ovf: opt(T.bnot(ovf(i)), val(i), f))
        ob("overflowing_pow", "let (r, c) = A.overflowing_pow($n0 as u32); R = r; @n0 = c as u128;",
           lambda i, f=f, val=val, ovf=ovf: {f: val(i), "n0": b2n(ovf(i))})
        ob("saturating_pow", "R = A.saturating_pow($n0 as u32);",
           lambda i, f=f, val=val, ovf=ovf, sat=sat: {f: T.ite(ovf(i), sat(i), val(i))})
        ob("pow", "R = A.pow($n0 as u32);",
           lambda i, f=f, val=val, ovf=ovf: {f: val(i), "panic": ovf(i) if i.dbg else T.FALSE})
    return out
