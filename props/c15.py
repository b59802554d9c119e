"""C15 serde string encodings."""
from vt.spec import *
from vt import term as T, contracts
from props import strs, fmts
from props.strs import MULTI
from props.fmts import FMT, STUBS, radix_digits, decimal_digits, blocks, K
from props.serdes import DE, SER, DESER
from props.c23 import hexed, prefixed, strict

EXTRA = DE + SER + DESER + FMT
BOUNDS = ("serialisation: values grouped by digit count, within a group all values; quick: every digit count. Deserialisation: all ASCII strings of 0..4 bytes (thorough 0..6) as string or "
          "bytes, strings with two-byte characters or one invalid byte, numerals of the longest representable length and one more digit with all digit values and every sign and prefix")
ASSUMPTIONS = ["core::fmt::write, Formatter::pad_integral and str::from_utf8 of the standard library behave as documented (stand-ins, compared with the real ones on samples)",
               "error values of the stand-in format carry no message (its construction is not explored)",
               "kernels meet their contracts (decided by C01, C02, C03)", "char::to_digit is the symbol @digit (decided by C12)"]


def obligations(tier):
    out = []
    quick = tier == "quick"
    CF = {**contracts.UDIV, **contracts.ADD, **STUBS}
    DF = {**contracts.MUL, **contracts.ADD, **strs.TO_DIGIT, **STUBS}

    def ser(h, name, key, bind, text, cfgs, gen, cost, dec):
        def spec(i):
            s = text(i)
            return {"n0": 0, "n1": 1, "len": len(s), "s": s}
        out.append(Obl(h, spec, name=name, binds=lambda: {"n0": 0, "n1": 0, key: bind()}, cfgs=cfgs, contracts=CF, gen=gen, cost=cost, unroll=330, samples=2,
                       solvers=("abs:60", "sat:60"), tlimit=120, feas="none" if dec else "z3", prep=[blocks] if dec else None))

    def typed(p, l, ty, sg):
        key = "x0" if sg else "w0"
        mods = {"default": "<%s as serde::Serialize>::serialize" % ty, "prefixed": "ethnum::serde::prefixed::serialize", "permissive": "ethnum::serde::permissive::serialize",
                "decimal": "ethnum::serde::decimal::serialize"}
        m = 1 << 255 if sg else (1 << 256) - 1
        def one(mod, h, base, n):
            lo, hi = base ** (n - 1) if n > 1 else 0, min(base ** n - 1, m)
            edge = n in (1, 2, 63, 64, 77, 78)
            if quick and mod in ("prefixed", "permissive") and not edge and n % 16:
                return
            cf = ALL if edge or not quick else (("nd", "lr", "nr", "ld")[n % 4],)
            pre = [] if base == 10 else [K("0"), K("x")]
            dig = (lambda v: decimal_digits(v, n)) if base == 10 else (lambda v: radix_digits(v, 4, n))

            def group(a, b):
                return (lambda: u(T.var("v", max(1, b.bit_length()), b, a), 256)), (lambda R: {"v": R.choice([a, b, R.randrange(a, b + 1), R.randrange(a, b + 1)])})
            v, g = group(lo, hi - 1 if sg and hi == m else hi)
            ser(h, "%s_ser_%s_%d" % (p, mod, n), key, v, lambda i: pre + dig(v()), cf, g, n, base == 10)
            if sg:
                w, g = group(max(lo, 1) - 1, hi - 1)        # magnitude - 1
                ser(h, "%s_ser_%s_%d_neg" % (p, mod, n), key, lambda: T.bnot(w()), lambda i: [K("-")] + pre + dig(T.add(w(), C(1, 256))), cf, g, n, base == 10)

        for mod, fn in mods.items():
            h = H("%s_ser_%s" % (p, mod), "let v = %s; @n0 = %s(&v, Ser(o)).is_err() as u128;" % (l, fn))
            base = 10 if mod == "decimal" else 16
            n = 0
            while base ** n <= m:
                n += 1
                one(mod, h, base, n)
        # deserialisation
        dem = {"default": ("<%s as serde::Deserialize>::deserialize" % ty, hexed), "prefixed": ("ethnum::serde::prefixed::deserialize::<%s, _>" % ty, prefixed),
               "permissive": ("ethnum::serde::permissive::deserialize::<%s, _>" % ty, prefixed), "decimal": ("ethnum::serde::decimal::deserialize::<%s, _>" % ty, lambda b, g: strict(strs.parse(b, 10, g)))}
        def reading(mod, fn, sp):
            hs = {k: H("%s_de_%s_%s" % (p, mod, nm), "d%s(o, %s(De($str.as_bytes(), %d)));" % (p, fn, k)) for k, nm in ((3, "str"), (0, "bytes"))}

            def de(kind, name, n, pat=None, cfgs=ALL, spec=None):
                bind = (lambda: strs.pattern(pat)) if pat else (lambda: strs.sym(n))

                def sp2(i):
                    bad, v = (spec or sp)(i.s, sg)
                    return {"n0": T.zext(bad, 128), key: v}
                out.append(Obl(hs[kind], sp2, name="%s_de_%s_%s" % (p, mod, name), cfgs=cfgs, binds=lambda: {"s": bind(), "n0": 0}, contracts=DF, prep=strs.PREP,
                               gen=strs.pattern_gen(pat) if pat else strs.numeral_gen(n, 16), feas="none", unroll=330, solvers=("absm:120", "sat:60"), tlimit=200, cost=n))
            for n in range(0, 5 if quick else 7):
                de(3, "len%d" % n, n)
                if mod != "permissive":         # byte strings are not part of the permissive format
                    de(0, "bytes_len%d" % n, n, cfgs=("nd", "lr"))
            D = (48, 10)
            bad = lambda b, g: (T.TRUE, C(0, 256))
            for k, pat in enumerate((MULTI, ["0", "x"] + MULTI, ["0", "x", D] + MULTI, MULTI + ["1"])):
                de(3, "multibyte%d" % k, len(pat), pat, ("nd", "lr"))
                if mod != "permissive":
                    de(0, "multibyte_bytes%d" % k, len(pat), pat, ("nd", "lr"))
            for k, pat in enumerate(() if mod == "permissive" else ([(128, 64)], ["0", "x", (192, 64)], ["0", "x", D, (128, 64)], [(192, 64), D])):
                de(0, "invalid%d" % k, len(pat), pat, ("nd", "lr"), bad)
            for r, pre in ((16, ["0", "x"]), (10, [])):
                mx = strs.maxlen(r, sg)
                for n in (mx, mx + 1, {16: 17, 10: 20}[r], {16: 33, 10: 39}[r]):
                    v = strs.mixed(n, r)
                    for nm, pat in (("plain", pre + v), ("minus", ["-"] + pre + v)):
                        de(3, "radix%d_%s_len%d" % (r, nm, n), len(pat), pat, ("nd", "lr") if n == mx else ("nr",) if n > mx or not quick else (("nr", "lr")[n % 2],))

        for mod, (fn, sp) in dem.items():
            reading(mod, fn, sp)

    typed("u", "$a", "U256", 0)
    typed("i", "$x", "I256", 1)
    return out
