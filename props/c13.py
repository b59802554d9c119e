"""C13 literal macros: const_from_str_prefixed, the function behind uint! and int!."""
from vt.spec import *
from vt import term as T
from vt.sweep import Name
from props import strs
from props.strs import K, digit_real, is_, pick

BOUNDS = ("all ASCII texts of 1..5 bytes (thorough 1..7); numerals of the longest representable length and one digit around it in every radix and case "
          "pattern, with and without sign, separators and one arbitrary ASCII byte; five to nine intermediate lengths per radix")
ASSUMPTIONS = ["the macros evaluate this function in a constant; its compile-time evaluation by rustc agrees with its run-time behaviour",
               "texts without any digit are unspecified"]
W = 264


def sep(c):
    return T.ors([T.eq(c, K(x)) for x in (95, 32, 9, 10, 12, 13)])


def digits(ds, radix, steps=None):
    """-> (malformed, overflow, some digit, value)"""
    acc = C(0, 256)
    bad = over = some = T.FALSE
    for c in ds:
        s = sep(c)
        ok, d = digit_real(c, radix)
        n = T.add(T.mul(T.zext(acc, W), C(radix, W)), T.zext(d, W))
        bad = T.bor(bad, T.bnot(T.bor(s, ok)))
        over = T.bor(over, T.band(T.bnot(s), T.ne(T.extract(W - 1, 256, n), C(0, W - 256))))
        some = T.bor(some, ok)
        acc = T.ite(s, acc, T.trunc(n, 256))
        if steps is not None and acc.op != "c" and s is T.FALSE:      # the next value is stated over this one
            nm = Name("acc%d" % len(steps), acc, slices=[(255, 128), (127, 64), (63, 0), (127, 0)], ub=acc.ub, largest=True)
            steps.append(nm)
            acc = nm.var
    return bad, over, some, acc


def body(ds, steps=None):
    if not ds:
        return T.TRUE, T.FALSE, T.FALSE, C(0, 256)
    r = digits(ds, 10, steps)
    if len(ds) > 2:
        for p, radix in (("b", 2), ("o", 8), ("x", 16)):
            c = T.band(is_(ds[0], "0"), is_(ds[1], p))
            if c is not T.FALSE:
                st = [] if steps is not None else None
                r = pick(c, digits(ds[2:], radix, st), r)
                if c is T.TRUE and steps is not None:
                    steps[:] = st
    return r


def literal(bs, sg, steps=None):
    """-> (panics, specified, value)"""
    plus, minus = is_(bs[0], "+"), is_(bs[0], "-")
    neg = T.FALSE
    signed = T.bor(plus, minus) if sg else plus
    if signed is T.TRUE:
        r = body(bs[1:], steps)
    elif signed is T.FALSE:
        r = body(bs, steps)
    else:
        r = pick(signed, body(bs[1:]), body(bs))
    bad, over, some, v = r
    if sg:
        big = T.bit(v, 255)
        m = T.bnot(T.eq(v, C(MIN, 256)))
        over = T.bor(over, T.band(big, T.bor(T.bnot(minus), m)))
        v = T.ite(minus, T.sub(C(0, 256), v), v)
    panic = T.bor(bad, over)
    return panic, T.bor(bad, some), v


def obligations(tier):
    out = []
    quick = tier == "quick"

    def ob(p, sg, name, bind, pat=None, n=0, **k):
        h = H(p + "_lit", ("@x0 = I256" if sg else "@w0 = U256") + "::const_from_str_prefixed($str);")
        def spec(i):
            pn, _, v = literal(i.s, sg)
            return {"panic": pn, "x0" if sg else "w0": v}
        out.append(Obl(h, spec, name="%s_%s" % (p, name), binds=lambda: {"s": bind()}, pre=lambda i: literal(i.s, sg)[1], feas="none", unroll=330,
                       gen=strs.pattern_gen(pat) if pat else gen(n), **k))

    def gen(n):
        def f(R):
            s = R.choice(["0b101", "0x1f_", "0o17 ", "-12", "+0xA", "12_3", " 12", "0b12", "9", "0x", "_", "+", "0x_1", "-0b1"]) + "".join(R.choice("0123456789abcdefABCDEFox_ ") for _ in range(n))
            return {"c%d" % k: ord(c) for k, c in enumerate(s[:n])}
        return f
    for p, sg in (("u", 0), ("i", 1)):
        for n in range(1, 6 if tier == "quick" else 8):
            ob(p, sg, "len%d" % n, lambda n=n: strs.sym(n), n=n, cfgs=("nd", "nr"), solvers=("sat:60",), tlimit=100, cost=n)
        for radix, pre in ((2, "0b"), (8, "0o"), (10, ""), (16, "0x")):
            m = strs.maxlen(radix, sg)
            pats = []
            for n in (m - 1, m, m + 1):
                v = list(pre) + strs.mixed(n, radix)
                pats.append(("len%d" % n, v))
                pats.append(("sep_len%d" % n, v[:len(pre) + 3] + ["_"] + v[len(pre) + 3:-2] + [" "] + v[-2:]))
                if not (sg and radix == 10):
                    pats.append(("x_len%d" % n, v[:-1] + ["x"]))
                elif n == m:
                    pats.append(("x_len40", v[:39] + ["x"]))
                if sg:
                    pats.append(("minus_len%d" % n, ["-"] + v))
            for n in {10: (9, 10, 19, 20, 21, 38, 39, 40, 57), 16: (8, 15, 16, 17, 31, 32, 33, 34, 48), 8: (21, 22, 42, 43, 44), 2: (32, 64, 65, 128, 129)}[radix]:
                v = list(pre) + strs.mixed(n, radix)
                pats.append(("mid%d" % n, (["-"] if sg and n % 2 else []) + v))
                if radix != 10:
                    pats.append(("mid%d_x" % n, v[:-1] + ["x"]))
            for nm, pat in pats:
                def hints(i, sg=sg):
                    st = []
                    literal(i.s, sg, st)
                    return st
                ob(p, sg, "radix%d_%s" % (radix, nm), lambda pat=pat: strs.pattern(pat), pat=pat, cfgs=("nr",) if "mid" in nm or quick and radix == 10 and nm[:2] in ("x_", "se") else ("nd",) if quick and radix == 10 and nm != "len%d" % m else ("nd", "nr"), hints=hints if radix == 10 else None, satfirst=4, nenv=10, solvers=("sat:60",), tlimit=200, cost=len(pat))
    return out
