"""C14 formatting."""
from vt.spec import *
from vt import term as T, contracts
from props.fmts import FMT, STUBS, radix_digits, decimal_digits, padded, blocks

EXTRA = FMT
BOUNDS = ("values are grouped by their number of digits; within a group all values. Quick: every digit count for decimal and hexadecimal, every third for octal, every 16th for "
          "binary (thorough: all), flags rotated over the groups. Widths 0 and 90, left or default alignment, zero padding")
ASSUMPTIONS = ["the standard library's Formatter::pad_integral pads as documented (a stand-in, compared with the real one on samples)",
               "division of U256 by 10000 and by the base meets its contract (decided by C03)"]
BASES = (("LowerHex", 4, 0, "0x"), ("UpperHex", 4, 1, "0x"), ("Octal", 3, 0, "0o"), ("Binary", 1, 0, "0b"))


def obligations(tier):
    out = []
    quick = tier == "quick"
    CF = {**contracts.UDIV, **contracts.ADD, **STUBS}

    def ob(h, name, flags, bind, sign, prefix, digits, cfgs, gen, cost=1, feas="z3"):
        def spec(i):
            s = padded(flags, sign, prefix, digits(i))
            return {"n0": 0, "len": len(s), "s": s}
        out.append(Obl(h, spec, name=name, binds=lambda: {"n0": flags, **bind()}, cfgs=cfgs, contracts=CF, gen=gen, cost=cost, unroll=330, samples=2,
                       solvers=("abs:60", "sat:60"), tlimit=120, feas=feas, prep=[blocks] if feas == "none" else None))

    def group(lo, hi):
        v = lambda: T.var("v", hi.bit_length(), hi, lo)
        gen = lambda R: {"v": R.choice([lo, hi, R.randrange(lo, hi + 1), R.randrange(lo, hi + 1)])}
        return v, gen

    def typed(p, l, ty, sg):
        key = "x0" if sg else "w0"
        h = {t: H("%s_%s" % (p, t), "fm(o, $n0 as u32, |f| core::fmt::%s::fmt(&%s, f));" % (t, l)) for t in ("LowerHex", "UpperHex", "Octal", "Binary", "Display", "Debug")}
        top = (1 << 256) - 1

        def radix(t, dbg, bits, upper, prefix):
            n = -(-256 // bits)
            ks = range(1, n + 1)
            for k in ks:
                step = {4: 1, 3: 3, 1: 16}[bits]
                if dbg:
                    step = 16
                edge = k in (1, 2, n - 1, n)
                if quick and not edge and k % step:
                    continue
                lo, hi = (1 << bits * (k - 1)) if k > 1 else 0, min(1 << bits * k, 1 << 256) - 1
                fls = [(0, 1, 2, 3, 90 << 8, 90 << 8 | 33, 90 << 8 | 67, 90 << 8 | 2)[k % 8]]
                if bits == 1:
                    fls = [f & 255 | 270 << 8 if f >> 8 else f for f in fls]
                if edge or not quick:
                    fls = sorted(set(fls + [0, 3]))
                for fl in fls:
                    fl |= dbg
                    cf = ALL if edge and not dbg or not quick else (("nd", "lr", "nr", "ld")[k % 4],)
                    sign = "+" if fl & 2 else ""
                    nm = "%s_%s_%d_f%x" % (p, t, k, fl)
                    if not sg or hi < 1 << 255:
                        v, g = group(lo, hi)
                        ob(h[t], nm, fl, lambda v=v: {key: u(v(), 256)}, sign, prefix, lambda i, v=v, k=k: radix_digits(u(v(), 256), bits, k, upper), cf, g, cost=k)
                    else:
                        # the group reaches negative values: their two's complement digits
                        for a, b in ((lo, (1 << 255) - 1), (max(lo, 1 << 255), hi)):
                            if a > b:
                                continue
                            v, g = group(a, b)
                            ob(h[t], nm + "_%d" % (a >> 255), fl, lambda v=v: {key: u(v(), 256)}, sign, prefix,
                               lambda i, v=v, k=k: radix_digits(u(v(), 256), bits, k, upper), cf, g, cost=k)
                    if sg and lo <= 1 << 255 and not dbg:
                        # '-' flag: sign and magnitude
                        v, g = group(max(lo, 1) - 1, min(hi, 1 << 255) - 1)        # magnitude - 1
                        ob(h[t], nm + "_neg", fl & ~2 | 4, lambda v=v: {key: T.bnot(u(v(), 256))}, "-", prefix,
                           lambda i, v=v, k=k: radix_digits(T.add(u(v(), 256), C(1, 256)), bits, k, upper), cf, g, cost=k)

        for t, bits, upper, prefix in BASES:
            radix(t, 0, bits, upper, prefix)
        radix("Debug", 8, 4, 0, "0x")
        radix("Debug", 16, 4, 1, "0x")
        m = 1 << 255 if sg else top
        k = 0
        while 10 ** k <= m:
            k += 1
            lo, hi = 10 ** (k - 1) if k > 1 else 0, min(10 ** k - 1, m)
            for t in ("Display", "Debug"):
                edge = k in (1, 4, 5, 77, 78)
                if t == "Debug" and quick and k % 16 and not edge:
                    continue
                cf = ALL if edge or not quick else (("nd", "lr", "nr", "ld")[k % 4],)
                fls = [(0, 1, 2, 90 << 8, 90 << 8 | 32, 90 << 8 | 66)[k % 6]]
                if edge or not quick:
                    fls = sorted(set(fls + [0]))
                for fl in fls:
                    sign = "+" if fl & 2 else ""
                    nm = "%s_%s_%d_f%x" % (p, t, k, fl)
                    v, g = group(lo, min(hi, m - 1) if sg else hi)
                    ob(h[t], nm, fl, lambda v=v: {key: u(v(), 256)}, sign, "", lambda i, v=v, k=k: decimal_digits(u(v(), 256), k), cf, g, cost=k, feas="none")
                    if sg:
                        v, g = group(max(lo, 1) - 1, hi - 1)       # magnitude - 1
                        ob(h[t], nm + "_neg", fl, lambda v=v: {key: T.bnot(u(v(), 256))}, "-", "", lambda i, v=v, k=k: decimal_digits(T.add(u(v(), 256), C(1, 256)), k), cf, g, cost=k, feas="none")

    typed("u", "$a", "U256", 0)
    typed("i", "$x", "I256", 1)
    return out
