"""C16 serde byte encodings."""
from vt.spec import *
from vt import term as T
from props.serdes import DE, SER, DESER

EXTRA = DE + SER + DESER
BOUNDS = ("serialisation: all values; deserialisation: all byte strings of length 0..34 as byte buffers and as "
          "sequences with and without a size hint; little, big and native order on a little-endian target")
ASSUMPTIONS = ["error values of the stand-in format carry no message (its construction is not explored)"]


def bytes_of(v, big):
    r = [T.extract(8 * k + 7, 8 * k, v) for k in range(32)]
    return r[::-1] if big else r


def minimal(v, sg):
    """number of bytes of the shortest representation; 0 for zero"""
    n = C(32, 64)
    for k in range(31, 0, -1):
        t = T.trunc(v, 8 * k)
        n = T.ite(T.eq(s(t, 256) if sg else u(t, 256), v), C(k, 64), n)
    return T.ite(T.eq(v, C(0, 256)), C(0, 64), n)


def obligations(tier):
    out = []
    quick = tier == "quick"

    def typed(p, l, ty, f, sg):
        val = lambda i: (i.xx if sg else i.a)
        for e in ("le", "be", "ne"):
            big = e == "be"
            cf = ALL if e != "ne" and not quick else ("nd", "nr")
            out.append(Obl(H("%s_ser_%s" % (p, e), "let v = %s; @n0 = ethnum::serde::bytes::%s::serialize(&v, Ser(o)).is_err() as u128;" % (l, e)),
                           lambda i, big=big: {"n0": 0, "n1": 2, "len": C(32, 64), "s": bytes_of(val(i), big)}, cfgs=cf))

            def packed(i, big=big):
                v = val(i)
                n = minimal(v, sg)
                bs = bytes_of(v, False)
                if big:          # byte k of the output is byte n-1-k of the value
                    r = []
                    for k in range(32):
                        x = C(0, 8)
                        for m in range(k + 1, 33):
                            x = T.ite(T.eq(n, C(m, 64)), bs[m - 1 - k], x)
                        r.append(x)
                else:
                    r = [T.ite(T.ult(C(k, 64), n), bs[k], C(0, 8)) for k in range(32)]
                return {"n0": 0, "n1": 2, "len": n, "s": r}
            hp = H("%s_pack_%s" % (p, e), "let v = %s; @n0 = ethnum::serde::compressed_bytes::%s::serialize(&v, Ser(o)).is_err() as u128;" % (l, e))
            if not quick:
                out.append(Obl(hp, packed, cfgs=cf, cost=40))
            for n in range(33):     # grouped by the length of the encoding

                def grp(tag, bind, n=n, big=big, hp=hp, e=e, cf=cf):
                    def sp(i):
                        r = bytes_of(val(i), False)[:n]
                        return {"n0": 0, "n1": 2, "len": C(n, 64), "s": (r[::-1] if big else r) + [C(0, 8)] * (32 - n)}
                    out.append(Obl(hp, sp, name="%s_pack_%s_%d%s" % (p, e, n, tag), cfgs=cf, binds=lambda: {"x0" if sg else "w0": bind()}, samples=2,
                                   gen=lambda R: {x.v[0]: R.choice([x.lb, x.ub, R.randrange(x.lb, x.ub + 1)]) for x in T.vars_of([bind()])}))
                if n == 0:
                    grp("", lambda: C(0, 256))
                elif not sg:
                    grp("", lambda n=n: u(T.var("v", 8 * n, (1 << 8 * n) - 1, 1 << 8 * n - 8), 256))
                else:
                    lo = 1 << 8 * n - 9 if n > 1 else 0
                    f1 = lambda n=n, lo=lo: u(T.var("v", 8 * n - 1, (1 << 8 * n - 1) - 1, lo), 256)
                    grp("_pos", f1 if n > 1 else lambda: u(T.var("v", 7, 127, 1), 256))
                    grp("_neg", lambda f1=f1: T.bnot(f1()))
            for kind in range(3):
                hb = H("%s_de_%s_%d" % (p, e, kind), "d%s(o, ethnum::serde::bytes::%s::deserialize::<%s, _>(De(&$s[..$len], %d)));" % (p, e, ty, kind))
                hc = H("%s_unpack_%s_%d" % (p, e, kind), "d%s(o, ethnum::serde::compressed_bytes::%s::deserialize::<%s, _>(De(&$s[..$len], %d)));" % (p, e, ty, kind))
                for n in range(35):

                    def full(i, n=n, big=big):
                        if n != 32:
                            return {"n0": 1, f: 0}
                        return {"n0": 0, f: T.concat(*(i.s if big else i.s[::-1]))}

                    def short(i, n=n, big=big):
                        if n > 32:
                            return {"n0": 1, f: 0}
                        if n == 0:
                            return {"n0": 0, f: 0}
                        v = T.concat(*(i.s if big else i.s[::-1]))
                        return {"n0": 0, f: s(v, 256) if sg else u(v, 256)}
                    bind = lambda n=n: {"s": [T.var("s%d" % k, 8) for k in range(n)], "len": n}
                    cfd = ("nd", "nr") if not quick or n in (0, 1, 32, 33) else ("nr",)
                    if 1:
                        out.append(Obl(hb, full, name="%s_de_%s_%d_len%d" % (p, e, kind, n), binds=bind, cfgs=cfd, samples=2))
                    out.append(Obl(hc, short, name="%s_unpack_%s_%d_len%d" % (p, e, kind, n), binds=bind, cfgs=cfd, samples=2))
    typed("u", "$a", "U256", "w0", 0)
    typed("i", "$x", "I256", "x0", 1)
    return out
