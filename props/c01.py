"""C01 addition / subtraction / negation / abs families."""
from vt.spec import *
from vt import term as T

BOUNDS = "none on operand values: all 2^512 operand pairs"


def obligations(tier):
    out = []

    def ob(name, rust, spec, **k):
        out.append(Obl(H(name, rust), spec, cfgs=ALL, **k))

    W = 260
    ua = lambda i: u(i.a, W)
    ub = lambda i: u(i.b, W)
    sx = lambda i: s(i.xx, W)
    sy = lambda i: s(i.y, W)
    sb = lambda i: s(i.y, W)
    # (suffix, rust lhs, rust rhs, method name stem, wide value, fits, sat, out field)
    fam = [
        ("u_add", "$a", "$b", "add", lambda i: T.add(ua(i), ub(i)), fits_u, sat_u, "w0", "ow"),
        ("u_sub", "$a", "$b", "sub", lambda i: T.sub(ua(i), ub(i)), fits_u, sat_u, "w0", "ow"),
        ("u_add_signed", "$a", "$y", "add_signed", lambda i: T.add(ua(i), sy(i)), fits_u, sat_u, "w0", "ow"),
        ("i_add", "$x", "$y", "add", lambda i: T.add(sx(i), sy(i)), fits_s, sat_s, "x0", "ox"),
        ("i_sub", "$x", "$y", "sub", lambda i: T.sub(sx(i), sy(i)), fits_s, sat_s, "x0", "ox"),
        ("i_add_unsigned", "$x", "$b", "add_unsigned", lambda i: T.add(sx(i), ub(i)), fits_s, sat_s, "x0", "ox"),
        ("i_sub_unsigned", "$x", "$b", "sub_unsigned", lambda i: T.sub(sx(i), ub(i)), fits_s, sat_s, "x0", "ox"),
    ]
    for nm, l, r, meth, val, fits, sat, f, of in fam:
        ob(nm + "_wrapping", "@%s = %s.wrapping_%s(%s);" % (f, l, meth, r), lambda i, val=val, f=f: {f: tr(val(i))})
        ob(nm + "_overflowing", "let (r, c) = %s.overflowing_%s(%s); @%s = r; @n0 = c as u128;" % (l, meth, r, f),
           lambda i, val=val, f=f, fits=fits: {f: tr(val(i)), "n0": b2n(T.bnot(fits(val(i))))})
        ob(nm + "_checked", "%s(o, %s.checked_%s(%s));" % (of, l, meth, r),
           lambda i, val=val, f=f, fits=fits: opt(fits(val(i)), tr(val(i)), f))
        ob(nm + "_saturating", "@%s = %s.saturating_%s(%s);" % (f, l, meth, r),
           lambda i, val=val, f=f, sat=sat: {f: sat(val(i))})
    # operators: panic on overflow in debug builds, wrap in release builds
    for nm, l, r, op, val, fits, f in [
            ("u_op_add", "$a", "$b", "+", fam[0][4], fits_u, "w0"), ("u_op_sub", "$a", "$b", "-", fam[1][4], fits_u, "w0"),
            ("i_op_add", "$x", "$y", "+", fam[3][4], fits_s, "x0"), ("i_op_sub", "$x", "$y", "-", fam[4][4], fits_s, "x0")]:
        sp = lambda i, val=val, f=f, fits=fits: {f: tr(val(i)), "panic": T.bnot(fits(val(i))) if i.dbg else T.FALSE}
        ob(nm, "@%s = %s %s %s;" % (f, l, op, r), sp)
        ob(nm + "_assign", "let mut v = %s; v %s= %s; @%s = v;" % (l, op, r, f), sp)
    # negation
    nu = lambda i: T.sub(C(0, W), ua(i))
    ns = lambda i: T.sub(C(0, W), sx(i))
    absx = lambda i: T.ite(T.bit(i.xx, 255), ns(i), sx(i))
    for p, v, fits, sat, f, of, l in (("u", nu, fits_u, sat_u, "w0", "ow", "$a"), ("i", ns, fits_s, sat_s, "x0", "ox", "$x")):
        ob(p + "_neg_wrapping", "@%s = %s.wrapping_neg();" % (f, l), lambda i, v=v, f=f: {f: tr(v(i))})
        ob(p + "_neg_overflowing", "let (r, c) = %s.overflowing_neg(); @%s = r; @n0 = c as u128;" % (l, f),
           lambda i, v=v, f=f, fits=fits: {f: tr(v(i)), "n0": b2n(T.bnot(fits(v(i))))})
        ob(p + "_neg_checked", "%s(o, %s.checked_neg());" % (of, l),
           lambda i, v=v, f=f, fits=fits: opt(fits(v(i)), tr(v(i)), f))
    ob("i_neg_saturating", "@x0 = $x.saturating_neg();", lambda i: {"x0": sat_s(ns(i))})
    ob("i_op_neg", "@x0 = -$x;", lambda i: {"x0": tr(ns(i)), "panic": T.bnot(fits_s(ns(i))) if i.dbg else T.FALSE})
    ob("i_op_neg_ref", "@x0 = -&$x;", lambda i: {"x0": tr(ns(i)), "panic": T.bnot(fits_s(ns(i))) if i.dbg else T.FALSE})
    # absolute values
    ob("i_abs_wrapping", "@x0 = $x.wrapping_abs();", lambda i: {"x0": tr(absx(i))})
    ob("i_abs_overflowing", "let (r, c) = $x.overflowing_abs(); @x0 = r; @n0 = c as u128;",
       lambda i: {"x0": tr(absx(i)), "n0": b2n(T.bnot(fits_s(absx(i))))})
    ob("i_abs_checked", "ox(o, $x.checked_abs());", lambda i: opt(fits_s(absx(i)), tr(absx(i)), "x0"))
    ob("i_abs_saturating", "@x0 = $x.saturating_abs();", lambda i: {"x0": sat_s(absx(i))})
    ob("i_abs_unsigned", "@w0 = $x.unsigned_abs();", lambda i: {"w0": tr(absx(i))})
    ob("i_abs", "@x0 = $x.abs();", lambda i: {"x0": tr(absx(i)), "panic": T.bnot(fits_s(absx(i))) if i.dbg else T.FALSE})

    def ad(a, b, lt):
        return T.ite(lt, T.sub(b, a), T.sub(a, b))
    ob("u_abs_diff", "@w0 = $a.abs_diff($b);", lambda i: {"w0": tr(ad(ua(i), ub(i), T.ult(i.a, i.b)))})
    ob("i_abs_diff", "@w0 = $x.abs_diff($y);", lambda i: {"w0": tr(ad(sx(i), sy(i), T.slt(i.xx, i.y)))})
    return out
