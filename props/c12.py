"""C12 from_str / from_str_radix."""
from vt.spec import *
from vt import contracts, term as T
from props import strs
from props.strs import MULTI

EXTRA = strs.EXTRA
BOUNDS = ("every radix 2..=36; all ASCII strings of 0..4 bytes (thorough 0..8) and short strings with two-byte characters; numerals of 2 to 12 intermediate lengths for radixes 3, 7, 10, 16, 36 (thorough: all for 10 and 16, every 7th otherwise), also behind leading zeros; numerals of the longest "
          "representable length and one digit around it: all digit values in a fixed pattern of digit/lower/upper case, with every sign, and with an "
          "arbitrary ASCII byte in the last or middle place (quick: the arbitrary byte and signs for radixes 2, 8, 10, 16, 36)")
ASSUMPTIONS = ["add/sub/mul kernels and their overflow-reporting forms meet their contracts (decided by C01, C02)",
               "char::to_digit of the standard library is the symbol @digit (its meaning is decided by the to_digit obligations)"]


def obligations(tier):
    out = []
    quick = tier == "quick"

    def ob(h, name, radix, n, sg, bs=None, pat=None, **k):
        bind = bs or (lambda: strs.sym(n))
        def spec(i):
            kind, v = strs.parse(i.s, radix, sg)
            return {"n0": T.zext(kind, 128), "x0" if sg else "w0": v}
        out.append(Obl(h, spec, name=name, cfgs=k.pop("cfgs", ALL), binds=lambda: {"n0": radix, "s": bind()}, contracts={**contracts.MUL, **contracts.ADD, **strs.TO_DIGIT}, prep=strs.PREP,
                       gen=strs.pattern_gen(pat) if pat else strs.numeral_gen(n, radix), feas="none", unroll=330, solvers=("absm:120", "sat:60"), tlimit=200, cost=n, **k))
    hdig = H("to_digit", "let c = ($n0 as u8) as char; match c.to_digit($n1 as u32) { Some(d) => { @n0 = 1; @n1 = d as u128; } None => {} }")
    for r in range(2, 37):      # the library function behind the @digit symbol
        out.append(Obl(hdig, lambda i, r=r: dict(zip(("n0", "n1"), [T.zext(x, 128) for x in strs.digit_real(tr(i.n[0], 8), r)])), name="to_digit_radix%d" % r,
                       binds=lambda r=r: {"n0": T.zext(T.var("c", 8), 128), "n1": r}, cfgs=("nd",), gen=lambda R: {"c": R.choice([48, 57, 58, 47, 64, 65, 96, 97, 122, 123, R.getrandbits(8)])}))
    for p, sg in (("u", 0), ("i", 1)):
        ty = "UI"[sg] + "256"
        h = H(p + "_from_str_radix", "p%s(o, %s::from_str_radix($str, $n0 as u32));" % (p, ty))
        hd = H(p + "_from_str", "p%s(o, $str.parse::<%s>());" % (p, ty))
        for r in range(2, 37):
            for n in range(0, 5 if tier == "quick" else 9):
                ob(h, "%s_radix%d_len%d" % (p, r, n), r, n, sg)
            m = strs.maxlen(r, sg)
            pats = []
            for n in (m - 1, m, m + 1):
                v = strs.mixed(n, r)
                pats += [("len%d" % n, v), ("len%d_x" % n, v[:-1] + ["x"])]
                if n == m:
                    pats += [("plus_len%d" % n, ["+"] + v), ("len%d_mid" % n, v[:n // 2] + ["x"] + v[n // 2 + 1:])]
                if sg:
                    pats += [("minus_len%d" % n, ["-"] + v), ("minus_len%d_x" % n, ["-"] + v[:-1] + ["x"])]
            mids = {10: (9, 10, 18, 19, 20, 27, 37, 38, 39, 40, 57, 76), 16: (8, 9, 15, 16, 17, 24, 31, 32, 33, 34, 48)}.get(r, (12, 25) if r in (3, 7, 36) else ())
            for n in mids if quick else range(9, m - 1, 1 if r in (10, 16) else 7):
                v = strs.mixed(n, r)
                pats += [("mid%d" % n, (["-"] if sg and n % 2 else []) + v), ("mid%d_x" % n, v[:-1] + ["x"])]
                if n + 6 < m:      # leading zeros do not count
                    pats.append(("mid%d_zeros" % n, ["0"] * (m + 3 - n) + v))
            for nm, pat in pats:
                main = r in (2, 8, 10, 16, 36)
                if tier == "quick" and r == 2 and sg and "minus" in nm and nm != "minus_len%d" % m:
                    continue
                if tier == "quick" and not main and nm not in ("len%d" % m, "minus_len%d" % m) and not nm.startswith("mid"):
                    continue
                ob(h, "%s_radix%d_%s" % (p, r, nm), r, len(pat), sg, bs=lambda pat=pat: strs.pattern(pat), pat=pat,
                   cfgs=("nr",) if nm.startswith("mid") else ALL if tier != "quick" or r == 10 else ("nd", "lr"))
        D = (48, 10)
        for k, pat in enumerate((MULTI, [D] + MULTI, MULTI + [D], ["x"] + MULTI, MULTI + MULTI, [D, D] + MULTI + [D])):
            ob(h, "%s_radix16_multibyte%d" % (p, k), 16, len(pat), sg, bs=lambda pat=pat: strs.pattern(pat), pat=pat)
        for n in range(0, 5):
            ob(hd, "%s_from_str_len%d" % (p, n), 10, n, sg)
        out.append(Obl(H(p + "_radix_range", "let _ = %s::from_str_radix($str, $n0 as u32);" % ty), lambda i: {"panic": T.bnot(T.band(T.ule(C(2, 32), tr(i.n[0], 32)), T.ule(tr(i.n[0], 32), C(36, 32))))},
                       binds=lambda: {"s": [49], "n0": T.zext(T.var("radix", 32), 128)}, cfgs=ALL, feas="none", contracts=contracts.MUL, gen=lambda R: {"radix": R.choice([0, 1, 2, 36, 37, R.getrandbits(32)])}))
    return out
