"""C19 operator forms: value/reference/primitive operands and the assigning forms all compute the same operator."""
from vt.spec import *
from vt import contracts, term as T
from vt.contracts import sdiv, srem
from props.c05 import TYPES, amt8

BOUNDS = "all operand values, every operator form (owned/borrowed/primitive left and right operands, assigning forms, every shift amount type)"
ASSUMPTIONS = ["multiplication, division and shift forms use the contracts of the kernels (decided by C02, C03, C04, C17)"]

OPS = [("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("rem", "%"), ("and", "&"), ("or", "|"), ("xor", "^")]


def sem(op, sg, a, b, dbg):
    """-> (value, panic)"""
    if op in ("add", "sub", "mul"):
        W = 512 if op == "mul" else 258
        ext = s if sg else u
        fn = {"add": T.add, "sub": T.sub, "mul": T.mul}[op]
        w = fn(ext(a, W), ext(b, W))
        return fn(a, b), (T.bnot((fits_s if sg else fits_u)(w)) if dbg else T.FALSE)
    if op in ("div", "rem"):
        pz = T.eq(b, C(0, 256))
        if sg:
            pz = T.bor(pz, T.band(T.eq(a, C(MIN, 256)), T.eq(b, C(-1, 256))))
            return (sdiv if op == "div" else srem)(a, b), pz
        return (T.udiv if op == "div" else T.urem)(a, b), pz
    return {"and": T.band, "or": T.bor, "xor": T.bxor}[op](a, b), T.FALSE


def obligations(tier):
    out = []
    K = dict(cfgs=ALL)

    def ob(name, rust, spec, **k):
        out.append(Obl(H(name, rust), spec, **dict(K, **k)))

    for p, sg, ty, prim, A, B, R, o in (("u", 0, "U256", "u128", "$a", "$b", "@w0", "w0"), ("i", 1, "I256", "i128", "$x", "$y", "@x0", "x0")):
        la = lambda i, sg=sg: i.xx if sg else i.a
        lb = lambda i, sg=sg: i.y if sg else i.b
        pr = lambda i, sg=sg: (s if sg else u)(i.n[0], 256)
        P = "($n0 as %s)" % prim
        for op, sym in OPS:
            k = {}
            if op in ("mul", "div", "rem"):
                k = dict(contracts=contracts.KERNELS, feas="none", solvers=("abs:20", "lia:30"), tlimit=90)

            def form(name, rust, l, r, op=op, k=k, sg=sg, o=o, p=p):
                def spec(i):
                    v, pan = sem(op, sg, l(i), r(i), i.dbg)
                    return {o: v, "panic": pan}
                ob("%s_%s_%s" % (p, op, name), rust, spec, **k)
            for ln, lx, l in (("v", A, la), ("r", "&" + A, la)):
                for rn, rx, r in (("v", B, lb), ("r", "&" + B, lb), ("p", P, pr), ("pr", "&" + P, pr)):
                    form(ln + "_" + rn, "%s = %s %s %s;" % (R, lx, sym, rx), l, r)
            for ln, lx in (("p", P), ("pr", "&" + P)):
                for rn, rx in (("v", B), ("r", "&" + B)):
                    form(ln + "_" + rn, "%s = %s %s %s;" % (R, lx, sym, rx), pr, lb)
            for rn, rx, r in (("v", B, lb), ("r", "&" + B, lb), ("p", P, pr), ("pr", "&" + P, pr)):
                form("assign_" + rn, "let mut v = %s; v %s= %s; %s = v;" % (A, sym, rx, R), la, r)
        ob(p + "_not_v", "%s = !%s;" % (R, A), lambda i, o=o, la=la: {o: T.bnot(la(i))})
        ob(p + "_not_r", "%s = !&%s;" % (R, A), lambda i, o=o, la=la: {o: T.bnot(la(i))})
        over = lambda n: T.bnot(T.ult(n, C(256, n.w))) if n.w > 8 else T.FALSE
        for t, w in TYPES:
            src = {"U256": "$b", "I256": "$y"}.get(t, "($n0 as %s)" % t)
            amt = lambda i, t=t, w=w: i.b if t == "U256" else i.y if t == "I256" else tr(i.n[0], w)
            bad = lambda i, amt=amt, t=t: T.bor(over(amt(i)), T.bit(amt(i), amt(i).w - 1) if t[0] in "iI" else T.FALSE)
            for op, sym, fn in (("shl", "<<", T.shl), ("shr", ">>", T.ashr if sg else T.lshr)):
                spec = lambda i, fn=fn, o=o, la=la, amt=amt, bad=bad: {o: fn(la(i), amt8(amt(i))), "panic": bad(i) if i.dbg else T.FALSE}
                for n, rust in (("v_v", "%s = %s %s %s;" % (R, A, sym, src)), ("v_r", "%s = %s %s &%s;" % (R, A, sym, src)),
                                ("r_v", "%s = &%s %s %s;" % (R, A, sym, src)), ("r_r", "%s = &%s %s &%s;" % (R, A, sym, src)),
                                ("assign_v", "let mut v = %s; v %s= %s; %s = v;" % (A, sym, src, R)),
                                ("assign_r", "let mut v = %s; v %s= &%s; %s = v;" % (A, sym, src, R))):
                    ob("%s_%s_%s_%s" % (p, op, t, n), rust, spec, samples=1, contracts=contracts.SHIFT)
    neg = lambda i: {"x0": T.neg(i.xx), "panic": T.eq(i.xx, C(MIN, 256)) if i.dbg else T.FALSE}
    ob("i_neg_v", "@x0 = -$x;", neg)
    ob("i_neg_r", "@x0 = -&$x;", neg)
    return out
