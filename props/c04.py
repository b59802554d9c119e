"""C04 signed division: truncating and Euclidean quotient and remainder, all forms, zero divisors and MIN / -1."""
from vt.spec import *
from vt import contracts, term as T
from vt.contracts import sdiv, srem
from vt.core import rand_val
from vt.sweep import Expr, Name

BOUNDS = "all operand values; kernel split by operand signs (all combinations)"
ASSUMPTIONS = ["the kernel obligations use the contract of udivmod4 (decided by C03)",
               "all forms use the contract of idivmod4 that the kernel obligations of this check decide"]

ZERO = C(0, 256)
z = lambda i: T.eq(i.y, ZERO)
ov = lambda i: T.band(T.eq(i.xx, C(MIN, 256)), T.eq(i.y, C(-1, 256)))
q = lambda i: sdiv(i.xx, i.y)
r = lambda i: srem(i.xx, i.y)
neg = lambda x: T.bit(x, 255)


def qe(i):
    return T.ite(neg(r(i)), T.ite(neg(i.y), T.add(q(i), C(1, 256)), T.sub(q(i), C(1, 256))), q(i))


def re(i):
    return T.ite(neg(r(i)), T.ite(neg(i.y), T.sub(r(i), i.y), T.add(r(i), i.y)), r(i))


def gen(R):
    m = R.randrange(4)
    b = R.choice([rand_val(R, 256), rand_val(R, 64), -rand_val(R, 100) & M256, 0, M256, MIN])
    a = R.choice([rand_val(R, 256), MIN, MIN + 1, -rand_val(R, 128) & M256])
    if m == 0 and b:
        a = (b * rand_val(R, 60) + R.choice([0, 1, -1])) & M256
    return {"x0": a, "x1": b}


def kernel():
    out = []
    mag = lambda n: T.concat(C(0, 1), T.var(n, 255))
    big = lambda n: T.var(n, 256, 1 << 255, 1)
    h = H("i_wrapping_div_rem", "let (q, r) = $x.wrapping_div_rem($y); @x0 = q; @x1 = r; @x2 = $x.wrapping_div($y); @x3 = $x.wrapping_rem($y);")
    for na in (0, 1):
        for nb in (0, 1):
            def binds(na=na, nb=nb):
                return {"x0": T.neg(big("p")) if na else mag("p"), "x1": T.neg(big("q")) if nb else mag("q")}

            def mags(i, na=na, nb=nb):
                return T.neg(i.xx) if na else i.xx, T.neg(i.y) if nb else i.y

            def spec(i, na=na, nb=nb, mags=mags):
                A, B = mags(i)
                q, r = T.udiv(A, B), T.urem(A, B)
                if na != nb:
                    q = T.neg(q)
                if na:
                    r = T.neg(r)
                return {"x0": q, "x1": r, "x2": q, "x3": r, "panic": z(i)}

            def hints(i, mags=mags):
                for n, v in zip("AB", mags(i)):
                    g = T.vars_of([v])[0]
                    a = Name(n, v, [(255, 0), (127, 0), (255, 128)], inv=(g, g.w - 1, 0), ub=v.ub, lb=v.lb)
                    yield a
                    yield Expr(T.neg(a.var), [(255, 0), (127, 0), (255, 128)])
            out.append(Obl(h, spec, name="kernel_%s%s" % ("pn"[na], "pn"[nb]), binds=binds, cfgs=ALL, feas="none", contracts=contracts.UDIV,
                           hints=hints, solvers=("abs:30", "lia:30"), tlimit=120, cost=20, split="fields"))
    return out


def forms():
    out = []
    K = dict(cfgs=ALL, contracts={**contracts.IDIV, **contracts.UDIV}, feas="none", unroll=4, solvers=("abs:30", "lia:30"), tlimit=90, gen=gen)

    def ob(n, rust, sp):
        out.append(Obl(H("i_" + n, rust), sp, **K))
    zov = lambda i: T.bor(z(i), ov(i))
    for m, v, over in (("div", q, True), ("div_euclid", qe, True), ("rem", r, True), ("rem_euclid", re, True)):
        val = lambda i, v=v: {"x0": v(i)}
        if m.endswith("euclid"):
            ob(m, "@x0 = $x.%s($y);" % m, lambda i, v=v: {"x0": v(i), "panic": zov(i)})
        if m != "div" and m != "rem":
            ob("wrapping_" + m, "@x0 = $x.wrapping_%s($y);" % m, lambda i, v=v: {"x0": v(i), "panic": z(i)})
        ob("overflowing_" + m, "let (v, f) = $x.overflowing_%s($y); @x0 = v; @n0 = f as u128;" % m,
           lambda i, v=v: {"x0": v(i), "n0": b2n(ov(i)), "panic": z(i)})
        ob("checked_" + m, "ox(o, $x.checked_%s($y));" % m, lambda i, v=v: opt(T.bnot(zov(i)), v(i), "x0"))
    ob("saturating_div", "@x0 = $x.saturating_div($y);", lambda i: {"x0": T.ite(ov(i), C(MIN - 1, 256), q(i)), "panic": z(i)})
    for e, (qq, rr) in (("div_rem", (q, r)), ("div_rem_euclid", (qe, re))):
        both = lambda i, qq=qq, rr=rr: {"x0": qq(i), "x1": rr(i)}
        ob(e, "let (q, r) = $x.%s($y); @x0 = q; @x1 = r;" % e, lambda i, both=both: dict(both(i), panic=zov(i)))
        if e != "div_rem":
            ob("wrapping_" + e, "let (q, r) = $x.wrapping_%s($y); @x0 = q; @x1 = r;" % e, lambda i, both=both: dict(both(i), panic=z(i)))
        ob("saturating_" + e, "let (q, r) = $x.saturating_%s($y); @x0 = q; @x1 = r;" % e,
           lambda i, both=both: {"x0": T.ite(ov(i), C(MIN - 1, 256), both(i)["x0"]), "x1": both(i)["x1"], "panic": z(i)})
        ob("overflowing_" + e, "let (q, r, f) = $x.overflowing_%s($y); @x0 = q; @x1 = r; @n0 = f as u128;" % e,
           lambda i, both=both: dict(both(i), n0=b2n(ov(i)), panic=z(i)))
        ob("checked_" + e, "if let Some((q, r)) = $x.checked_%s($y) { @x0 = q; @x1 = r; @n0 = 1; }" % e,
           lambda i, both=both: dict({k: T.ite(zov(i), ZERO, v) for k, v in both(i).items()}, n0=b2n(T.bnot(zov(i)))))
    for op, nm, v in (("/", "div", q), ("%", "rem", r)):
        sp = lambda i, v=v: {"x0": v(i), "panic": zov(i)}
        ob("op_" + nm, "@x0 = $x %s $y;" % op, sp)
        ob("op_%s_assign" % nm, "let mut v = $x; v %s= $y; @x0 = v;" % op, sp)
    return out


def obligations(tier):
    return kernel() + forms()
