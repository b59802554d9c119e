"""C23 from_str_hex / from_str_prefixed."""
from vt.spec import *
from vt import contracts, term as T
from props import strs
from props.strs import MULTI

EXTRA = strs.EXTRA + """
pub fn eu(o: &mut Out, r: Result<U256, core::num::ParseIntError>) {
    match r { Ok(v) => o.w[0] = v, Err(_) => o.n[0] = 1 }
}
pub fn ei(o: &mut Out, r: Result<I256, core::num::ParseIntError>) {
    match r { Ok(v) => o.x[0] = v, Err(_) => o.n[0] = 1 }
}
"""
BOUNDS = ("all ASCII strings of 0..5 bytes (thorough 0..7); strings with two-byte characters; every prefix/sign combination followed by numerals of the longest "
          "representable length and one digit around it, with all digit values and an arbitrary ASCII byte in the last, middle, prefix or sign place. "
          "Only value-or-error is checked; the error kind is not")
ASSUMPTIONS = ["add/sub/mul kernels and their overflow-reporting forms meet their contracts (decided by C01, C02)",
               "char::to_digit of the standard library is the symbol @digit (decided by C12's to_digit obligations)"]
PRE = ((2, "0b"), (8, "0o"), (16, "0x"))


def strict(r):
    k, v = r
    bad = T.bnot(T.eq(k, strs.K(strs.OK)))
    return bad, v


def hexed(bs, sg):
    return strict(strs.parse(bs, 16, sg, "0x"))


def prefixed(bs, sg):
    bad, v = strict(strs.parse(bs, 10, sg))
    for r, p in PRE:
        b, w = strict(strs.parse(bs, r, sg, p))
        bad, v = T.band(bad, b), T.ite(b, v, w)
    return bad, v


def obligations(tier):
    out = []
    quick = tier == "quick"

    def ob(h, fn, name, n, sg, pat=None, cfgs=ALL, **k):
        bind = (lambda: strs.pattern(pat)) if pat else (lambda: strs.sym(n))

        def spec(i):
            bad, v = fn(i.s, sg)
            return {"n0": T.zext(bad, 128), "x0" if sg else "w0": v}
        out.append(Obl(h, spec, name=name, cfgs=cfgs, binds=lambda: {"s": bind()}, contracts={**contracts.MUL, **contracts.ADD, **strs.TO_DIGIT}, prep=strs.PREP,
                       gen=strs.pattern_gen(pat) if pat else gen(n), feas="none", unroll=330, solvers=("absm:120", "sat:60"), tlimit=200, cost=n, **k))

    def gen(n):
        g = strs.numeral_gen(n, 16)

        def f(R):
            e = g(R)
            if R.randrange(3):
                t = R.choice(("", "+", "-")) + R.choice(("0x", "0b", "0o", "0X", "0x0x", "x", "0", "0x+", "0x-", "0b-")) + "".join(R.choice("0017af9") for _ in range(n))
                e = {"c%d" % k: ord(t[k]) for k in range(n)}
            return e
        return f

    for p, sg in (("u", 0), ("i", 1)):
        ty = "UI"[sg] + "256"
        hh = H(p + "_from_str_hex", "e%s(o, %s::from_str_hex($str));" % (p, ty))
        hp = H(p + "_from_str_prefixed", "e%s(o, %s::from_str_prefixed($str));" % (p, ty))
        for n in range(0, 6 if quick else 8):
            ob(hh, hexed, "%s_hex_len%d" % (p, n), n, sg)
            ob(hp, prefixed, "%s_prefixed_len%d" % (p, n), n, sg)
        D = (48, 10)
        for k, pat in enumerate((MULTI, ["0"] + MULTI, ["0", "x"] + MULTI, ["0", "x", D] + MULTI, ["0", "x"] + MULTI + [D], ["-", "0", "x"] + MULTI, MULTI + ["0", "x", D])):
            ob(hh, hexed, "%s_hex_multibyte%d" % (p, k), len(pat), sg, pat)
            ob(hp, prefixed, "%s_prefixed_multibyte%d" % (p, k), len(pat), sg, pat)
        for r, pre in PRE + ((10, ""),):
            m = strs.maxlen(r, sg)
            pre = list(pre)
            for n in (m - 1, m, m + 1):
                v = strs.mixed(n, r)
                pats = [("len%d" % n, pre + v), ("len%d_x" % n, pre + v[:-1] + ["x"]), ("plus_len%d" % n, ["+"] + pre + v)]
                if sg:
                    pats += [("minus_len%d" % n, ["-"] + pre + v)]
                if n == m:
                    pats += [("any_len%d" % n, ["x"] + pre + v), ("len%d_mid" % n, pre + v[:n // 2] + ["x"] + v[n // 2 + 1:])]
                    for q in {10: (9, 19, 20, 38, 39, 40), 16: (8, 15, 16, 17, 31, 32, 33, 34), 8: (22, 43), 2: (64,)}[r]:
                        w = strs.mixed(q, r)
                        pats += [("mid%d" % q, (["-"] if sg and q % 2 else []) + pre + w), ("mid%d_x" % q, pre + w[:-1] + ["x"])]
                    if pre:
                        pats += [("len%d_pre" % n, ["x", "x"] + v), ("len%d_trail" % n, pre + v + ["x"])]
                        if sg:
                            pats += [("minus_len%d_pre" % n, ["-", "x", "x"] + v)]
                for nm, pat in pats:
                    cf = ALL if not quick or r == 16 and nm in ("len%d" % m, "minus_len%d" % m) else ("nd", "lr") if r != 2 and not nm.startswith("mid") else ("nr",)
                    if r == 16:
                        ob(hh, hexed, "%s_hex_%s" % (p, nm), len(pat), sg, pat, cf)
                    if quick and r == 2 and not nm.startswith("mid") and nm not in ("len%d" % m, "len%d_x" % n, "plus_len%d" % m):
                        continue
                    ob(hp, prefixed, "%s_prefixed%d_%s" % (p, r, nm), len(pat), sg, pat, cf)
    return out
