"""C03 unsigned division: quotient and remainder, all forms."""
from vt.spec import *
from vt import contracts, term as T
from vt.core import rand_val
from vt.sweep import Again, Div, Name, Retire

M256 = (1 << 256) - 1


def lead(n, k, w=256):
    """value whose leading bit is bit k"""
    return T.concat(*([C(0, w - 1 - k)] if k < w - 1 else []), C(1, 1), *([T.var(n, k)] if k else []))


def gen_div(k):
    """dividends built around a divisor with leading bit k"""
    def g(R):
        d = rand_val(R, k) if k else 0
        b = (1 << k) | d
        m = R.randrange(4)
        if m == 0:
            a = rand_val(R, 256)
        elif m == 1 and k < 128:
            a = (R.choice([b - 1, b, R.randrange(b)]) << 128) | rand_val(R, 128)
        else:
            q = rand_val(R, 256 - k) if R.random() < .7 else rand_val(R, 128)
            a = q * b + R.choice([0, b - 1, R.randrange(b)])
        e = {"w0": min(a, M256)}
        if k:
            e["d"] = d
        return e
    return g


def rel(i):
    def f(o):
        q, r = o["w0"], o["w1"]
        return T.ands([T.eq(T.add(T.mul(u(q, 512), u(i.b, 512)), u(r, 512)), u(i.a, 512)), T.ult(r, i.b),
                       T.eq(o["w2"], q), T.eq(o["w3"], r)])
    return {"_rel": Rel(["w0", "w1", "w2", "w3"], f)}


def hi(x):
    return T.extract(255, 128, x)


def lo(x):
    return T.extract(127, 0, x)


def digits(N, V, p, bools=True, again=False):
    """two 64-bit quotient digits of the 256-bit N by the normalised 128-bit V"""
    d1 = Div("q1" + p, "r1" + p, T.extract(255, 64, N), V, qw=64, bools=bools)
    if again:
        d1.stop, d1.tl = 1, 1.5
    yield d1
    yield Div("q0" + p, "r0" + p, T.concat(d1.r, T.extract(63, 0, N)), V, qw=64, bools=bools)
    if again:
        yield Again(d1)


def hints128(i, k, big):
    s = 127 - k
    V = Name("V", T.trunc(T.shl_c(i.b, s), 128), [(127, 0), (127, 64), (63, 0)], lb=1 << 127, maxsize=40)
    yield V
    top = i.a
    if big:
        h = Div("qh", "uh", hi(i.a), lo(i.b), bools=False)
        yield h
        top = T.concat(h.r, lo(i.a))
    N = Name("N", T.trunc(T.shl_c(top, s), 256), [(255, 128), (127, 64), (63, 0)])
    N.facts_fn = lambda n: [T.ult(hi(n), V.var)]
    yield N
    for d in digits(N.var, V.var, ""):
        yield d


def low0(n, s):
    return [T.eq(T.extract(s - 1, 0, n), C(0, s))] if s else []


INV = lambda k: k < 136


def hints256(i, k):
    s = 255 - k
    V = Name("V", T.trunc(T.shl_c(i.b, s), 256), [(255, 0), (255, 128), (127, 0), (255, 192), (191, 128), (127, 64), (63, 0)], lb=1 << 255, maxsize=40,
             inv=(i.b.a[-1], 254, s) if INV(k) and k > 128 else None, facts=lambda n: low0(n, s) if INV(k) else [])
    yield V
    v1, v0 = hi(V.var), lo(V.var)
    U = Name("U", T.trunc(T.shl_c(u(i.a, 384), s), 384), [(383, 256), (255, 128), (127, 0), (255, 192), (191, 128)], maxsize=40,
             inv=(i.a, 255 + s, s) if INV(k) else None,
             facts=lambda n: low0(n, s) + [T.eq(T.extract(383, 256 + s, n), C(0, 128 - s))] if INV(k) else [T.eq(T.extract(383, 383, n), C(0, 1))])
    yield U
    N = T.extract(383, 128, U.var)
    ds = []
    for d in digits(N, v1, "k", False, k < 192):
        ds.append(d)
        yield d
    e = Div("qe", "re", N, v1, qw=128, bools=False, qslices=[(127, 64), (63, 0)])
    yield e
    if k < 192:
        d1, d0 = ds[:2]
        yield Retire((d0.r, e.r), (d1.q, T.extract(127, 64, e.q)), (d0.q, T.extract(63, 0, e.q)), (d1.r, d1.r))
    for j in range(3):
        yield Name("P%d" % j, T.mul(u(T.sub(e.q, C(j, 128)), 256), u(v0, 256)), [(255, 128), (127, 0)])
    f = Div("qf", "rf", U.var, V.var, qw=128, qslices=[(127, 64), (63, 0)], maxsize=200)
    yield f
    yield Name("F0", T.mul(u(f.q, 256), u(v0, 256)), [(255, 128), (127, 0)])
    yield Name("F1", T.mul(u(f.q, 256), u(v1, 256)), [(255, 128), (127, 0)])
    yield Again(f)


BOUNDS = ("all dividends; divisors grouped by leading bit (0..255), each group decided for all its values; quick: groups with "
          "divisor >= 2^128 restricted to a quarter of the leading bits (thorough: all 256)")
ASSUMPTIONS = ["method forms other than div_rem, / and % use the contract of udivmod4 that the div128/div256 obligations of this check decide"]


BUDGET = {"quick": 600, "thorough": 10000}


def kernel(tier, cfgs):
    out = []
    h = H("u256_divrem", "let (q, r) = $a.div_rem($b); @w0 = q; @w1 = r; @w2 = $a / $b; @w3 = $a % $b;")
    K = dict(feas="none", unroll=3, tlimit=120, cfgs=cfgs, cost=100)
    hi0 = lambda i: T.eq(hi(i.a), C(0, 128))
    direct = lambda i: dict(w0=T.udiv(i.a, i.b), w1=T.urem(i.a, i.b), w2=T.udiv(i.a, i.b), w3=T.urem(i.a, i.b))
    low = lambda: {"w0": u(T.var("a0", 128), 256), "w1": u(T.concat(T.var("b1", 127), T.var("b0", 1)), 256)}
    out.append(Obl(h, direct, name="div_small", binds=low, pre=lambda i: T.ne(i.b, C(0, 256)), solvers=("abs:60", "lia:30"), **K))
    out.append(Obl(h, lambda i: {"panic": T.TRUE}, name="div_zero", binds=lambda: {"w1": C(0, 256)}, solvers=("z3:60",), samples=4, **K))
    less = lambda i: {"w0": C(0, 256), "w1": i.a, "w2": C(0, 256), "w3": i.a}
    L = dict(K, solvers=("abs:60", "lia:30"), tlimit=200, mode="split")
    L["feas"] = "abs"
    out.append(Obl(h, less, name="div_less_hi", pre=lambda i: T.ult(hi(i.a), hi(i.b)), **L))
    cat = lambda x, y: T.concat(T.var(x, 128), T.var(y, 128))
    out.append(Obl(h, less, name="div_less_lo", pre=lambda i: T.ult(lo(i.a), lo(i.b)), binds=lambda: {"w0": cat("h", "a"), "w1": cat("h", "b")}, **L))
    K["solvers"] = ("lia:30",)
    del K["cost"]
    full = tier == "thorough"
    for cfg in cfgs:
        K["cfgs"] = (cfg,)
        rel_ = cfg[1] == "r"
        edge = (0, 1, 63, 64, 126, 127) if rel_ else (127,)
        for k in range(128):
            b = lambda k=k: {"w1": lead("d", k)}
            if full or k in edge or k % (2 if rel_ else 32) == 0:
                out.append(Obl(h, rel, name="div128_lo_%d" % k, binds=b, gen=gen_div(k), group="lo%d" % (k // 16), cost=50,
                               pre=lambda i: T.band(T.ult(hi(i.a), lo(i.b)), T.bnot(hi0(i))),
                               hints=lambda i, k=k: hints128(i, k, False), **K))
                out.append(Obl(h, rel, name="div128_hi_%d" % k, binds=b, gen=gen_div(k), group="hi%d" % (k // 16), cost=40,
                               pre=lambda i: T.bnot(T.ult(hi(i.a), lo(i.b))),
                               hints=lambda i, k=k: hints128(i, k, True), **K))
            if full or k % (8 if rel_ else 64) == 2 or k in edge and rel_:
                out.append(Obl(h, rel, name="div256_%d" % (128 + k), binds=lambda k=k: {"w1": lead("d", 128 + k)}, gen=gen_div(128 + k),
                               group="kn%d" % (k // 16), pre=lambda i: T.bnot(T.ult(i.a, i.b)), cost=20,
                               hints=lambda i, k=k: hints256(i, 128 + k), **dict(K, tlimit=100)))
    return out


def forms():
    out = []
    z = lambda i: T.eq(i.b, C(0, 256))
    q = lambda i: T.udiv(i.a, i.b)
    r = lambda i: T.urem(i.a, i.b)
    K = dict(cfgs=ALL, contracts=contracts.UDIV, feas="none", unroll=4, solvers=("abs:30",), tlimit=60, gen=gen_any, cost=100)

    def ob(n, rust, sp, **k):
        out.append(Obl(H("u_" + n, rust), sp, **dict(K, **k)))
    pan = lambda sp: lambda i: dict(sp(i), panic=z(i))
    one = [("div", q), ("div_euclid", q), ("rem", r), ("rem_euclid", r)]
    for m, v in one:
        val = lambda i, v=v: {"w0": v(i)}
        if m.endswith("euclid"):
            ob(m, "@w0 = $a.%s($b);" % m, pan(val))
        ob("wrapping_" + m, "@w0 = $a.wrapping_%s($b);" % m, pan(val))
        ob("overflowing_" + m, "let (v, f) = $a.overflowing_%s($b); @w0 = v; @n0 = f as u128;" % m,
           pan(lambda i, v=v: {"w0": v(i), "n0": C(0, 128)}))
        ob("checked_" + m, "ow(o, $a.checked_%s($b));" % m, lambda i, v=v: opt(T.bnot(z(i)), v(i)))
    ob("saturating_div", "@w0 = $a.saturating_div($b);", pan(lambda i: {"w0": q(i)}))
    both = lambda i: {"w0": q(i), "w1": r(i)}
    for e in ("div_rem", "div_rem_euclid"):
        ob(e, "let (q, r) = $a.%s($b); @w0 = q; @w1 = r;" % e, pan(both))
        for f in ("wrapping_", "saturating_"):
            ob(f + e, "let (q, r) = $a.%s%s($b); @w0 = q; @w1 = r;" % (f, e), pan(both))
        ob("overflowing_" + e, "let (q, r, f) = $a.overflowing_%s($b); @w0 = q; @w1 = r; @n0 = f as u128;" % e,
           pan(lambda i: dict(both(i), n0=C(0, 128))))
        ob("checked_" + e, "if let Some((q, r)) = $a.checked_%s($b) { @w0 = q; @w1 = r; @n0 = 1; }" % e,
           lambda i: {"n0": b2n(T.bnot(z(i))), "w0": T.ite(z(i), C(0, 256), q(i)), "w1": T.ite(z(i), C(0, 256), r(i))})
    for op, v in (("/", q), ("%", r)):
        nm = {"/": "div", "%": "rem"}[op]
        ob("op_" + nm, "@w0 = $a %s $b;" % op, pan(lambda i, v=v: {"w0": v(i)}))
        ob("op_%s_assign" % nm, "let mut v = $a; v %s= $b; @w0 = v;" % op, pan(lambda i, v=v: {"w0": v(i)}))
    return out


def gen_any(R):
    k = R.randrange(256)
    e = gen_div(k)(R)
    e["w1"] = (1 << k) | e.pop("d", 0)
    return e


def obligations(tier):
    return kernel(tier, ("nd", "nr") if tier == "quick" else ("nd", "nr", "ld", "lr")) + forms()
