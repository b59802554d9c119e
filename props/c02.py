"""C02 multiplication: exact modular product, overflow detection, all forms."""
from vt.spec import *
from vt import contracts, term as T
from vt.sweep import Expr, Name

BOUNDS = "all operand values; signed kernel split by operand signs (all combinations covered)"
ASSUMPTIONS = ["method forms other than wrapping_mul and overflowing_mul use the contracts of mul2/mul3/umulc/imulc that the kernel obligations of this check decide",
               "the signed overflow kernel uses the contract of idivmod4 (decided by C03/C04)"]


def up(i):
    return T.mul(u(i.a, 512), u(i.b, 512))


def sp(i):
    return T.mul(s(i.xx, 512), s(i.y, 512))


def kernel():
    out = []
    K = dict(cfgs=ALL, feas="none", tlimit=120, cost=50)
    out.append(Obl(H("u256_wrapping_mul", "@w0 = $a.wrapping_mul($b);"), lambda i: {"w0": T.mul(i.a, i.b)}, name="mul3",
                   solvers=("lia:100",), **K))
    out.append(Obl(H("u256_overflowing_mul", "let (w, f) = $a.overflowing_mul($b); @w0 = w; @n0 = f as u128;"),
                   lambda i: {"w0": T.mul(i.a, i.b), "n0": b2n(T.bnot(fits_u(up(i))))}, name="umulc", solvers=("lia:100",), **K))
    h = H("i256_overflowing_mul", "let (w, f) = $x.overflowing_mul($y); @x0 = w; @n0 = f as u128;")
    sp_ = lambda i: {"x0": T.mul(i.xx, i.y), "n0": b2n(T.bnot(fits_s(sp(i))))}
    mag = lambda n: T.concat(C(0, 1), T.var(n, 255))
    neg = lambda n: T.sub(C(0, 256), T.concat(C(0, 1), T.var(n, 255, lb=1)))
    # the product itself is decided by mul3 above, the quotient by C03/C04
    K["contracts"] = {**contracts.IDIV, **contracts.PRODUCT}
    K["solvers"] = ("lia:100",)

    def hints(i):
        for n, v in (("A", i.xx), ("B", i.y)):
            g = T.vars_of([v])[0]
            a = Name(n, T.concat(C(0, 1), g), [(255, 0), (127, 0), (255, 128)], inv=(g, 254, 0),
                     facts=lambda n: [T.eq(T.extract(255, 255, n), C(0, 1))] + ([T.ne(n, C(0, 256))] if g.lb else []))
            yield a
            yield Expr(T.sub(C(0, 256), a.var), [(255, 0), (127, 0), (255, 128)])
    K["hints"] = hints
    K["split"] = "fields"
    for na, fa in (("p", mag), ("n", neg)):
        for nb, fb in (("p", mag), ("n", neg)):
            def spec(i, n=na != nb):
                m = T.mul(*[T.concat(C(0, 257), T.vars_of([v])[0]) for v in (i.xx, i.y)])
                return {"x0": T.neg(tr(m)) if n else tr(m), "n0": b2n(T.ult(C(MIN if n else MIN - 1, 512), m))}
            out.append(Obl(h, spec, name="imulc_%s%s" % (na, nb), binds=lambda fa=fa, fb=fb: {"x0": fa("p"), "x1": fb("q")}, **K))
    out.append(Obl(h, sp_, name="imulc_min_any", binds={"x0": MIN}, **dict(K, hints=None)))
    out.append(Obl(h, sp_, name="imulc_any_min", binds={"x1": MIN}, **dict(K, hints=None)))
    return out


def forms():
    out = []
    K = dict(cfgs=ALL, contracts=contracts.MUL, feas="none", solvers=("abs:20", "lia:30"), tlimit=90)

    def both(n, rust, sp_, **k):
        """unsigned and signed instance; rust uses A, B, R for operands and result"""
        for p, A, B, R, f in (("u_", "$a", "$b", "@w0", "w0"), ("i_", "$x", "$y", "@x0", "x0")):
            def spec(i, p=p, f=f):
                w = up(i) if p == "u_" else sp(i)
                ok = fits_u(w) if p == "u_" else fits_s(w)
                sat = C(-1, 256) if p == "u_" else T.ite(T.bxor(T.bit(i.xx, 255), T.bit(i.y, 255)), C(MIN, 256), C(MIN - 1, 256))
                return sp_(i, tr(w), ok, sat, f)
            src = rust.replace("A", A).replace("B", B).replace("R", R).replace("OPT", "ow" if p == "u_" else "ox")
            out.append(Obl(H(p + n, src), spec, name=p + n, **dict(K, **k)))
    both("wrapping_mul", "R = A.wrapping_mul(B);", lambda i, v, ok, sat, f: {f: v})
    both("checked_mul", "OPT(o, A.checked_mul(B));", lambda i, v, ok, sat, f: opt(ok, v, f))
    both("saturating_mul", "R = A.saturating_mul(B);", lambda i, v, ok, sat, f: {f: T.ite(ok, v, sat)})
    pan = lambda i, v, ok, sat, f: {f: v, "panic": T.bnot(ok) if i.dbg else T.FALSE}
    both("op_mul", "R = A * B;", pan)
    both("op_mul_assign", "let mut v = A; v *= B; R = v;", pan)
    return out


def obligations(tier):
    return kernel() + forms()
