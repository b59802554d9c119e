"""C17 native and LLVM back ends: every primitive of `ethnum::intrinsics` meets one specification in every configuration."""
from vt.spec import *
from vt import contracts, term as T
from props import c02

BOUNDS = "all operand values of every public primitive; all u32 amounts for rotations, amounts below 256 for shifts (the documented domain)"
ASSUMPTIONS = ["udiv*/urem*/idiv*/irem* use the contract of udivmod4/idivmod4, one source file shared by both back ends (decided in every configuration by C03/C04)"]

PRE = "use ethnum::intrinsics as n; use ethnum::intrinsics::signed as s; use core::mem::MaybeUninit as M; "


def obligations(tier):
    out = []

    def ob(name, rust, spec, **k):
        out.append(Obl(H(name, PRE + rust), spec, **dict(dict(cfgs=ALL, feas="z3"), **k)))

    n32 = lambda i: tr(i.n[0], 32)
    amt = lambda i: T.zext(tr(i.n[0], 8), 256)
    small = dict(pre=lambda i: T.ult(n32(i), C(256, 32)), gen=lambda R: {"n0": R.choice([0, 1, 64, 127, 128, 129, 255, R.randrange(256)])})
    U, I = ("$a", "$b", "@w0", "w0"), ("$x", "$y", "@x0", "x0")

    def two(name, f, ty, val, **k):
        """r op= a"""
        A, B, R, o = ty
        ob(name, "let mut r = %s; %s(&mut r, &%s); %s = r;" % (A, f, B, R), lambda i: {o: val(i)}, **k)

    def three(name, f, ty, val, **k):
        A, B, R, o = ty
        ob(name, "let mut r = M::uninit(); %s(&mut r, &%s, &%s); %s = unsafe { r.assume_init() };" % (f, A, B, R), lambda i: {o: val(i)}, **k)

    def carry(name, f, ty, val, c, **k):
        A, B, R, o = ty
        ob(name, "let mut r = M::uninit(); let c = %s(&mut r, &%s, &%s); %s = unsafe { r.assume_init() }; @n0 = c as u128;" % (f, A, B, R),
           lambda i: {o: val(i), "n0": b2n(c(i))}, **k)

    def sh(name, f, ty, val, n, **k):
        A, B, R, o = ty
        if n == 2:
            ob(name, "let mut r = %s; %s(&mut r, $n0 as u32); %s = r;" % (A, f, R), lambda i: {o: val(i)}, **k)
        else:
            ob(name, "let mut r = M::uninit(); %s(&mut r, &%s, $n0 as u32); %s = unsafe { r.assume_init() };" % (f, A, R), lambda i: {o: val(i)}, **k)

    ua, ub, ix, iy = (lambda i: i.a), (lambda i: i.b), (lambda i: i.xx), (lambda i: i.y)
    for nm, fn in (("add", T.add), ("sub", T.sub)):
        for p, ty, mod, l, r in (("", U, "n::", ua, ub), ("i", I, "s::i", ix, iy)):
            v = lambda i, fn=fn, l=l, r=r: fn(l(i), r(i))
            two(p + nm + "2", mod + nm + "2", ty, v)
            three(p + nm + "3", mod + nm + "3", ty, v)
        wu = lambda i, fn=fn: fn(u(i.a, 258), u(i.b, 258))
        wi = lambda i, fn=fn: fn(s(i.xx, 258), s(i.y, 258))
        carry("u%sc" % nm, "n::u%sc" % nm, U, lambda i, w=wu: tr(w(i)), lambda i, w=wu: T.bnot(fits_u(w(i))))
        carry("i%sc" % nm, "n::i%sc" % nm, I, lambda i, w=wi: tr(w(i)), lambda i, w=wi: T.bnot(fits_s(w(i))))
    K = dict(feas="none", solvers=("lia:100",), tlimit=120, cost=50)
    for p, ty, mod, l, r in (("", U, "n::", ua, ub), ("i", I, "s::i", ix, iy)):
        v = lambda i, l=l, r=r: T.mul(l(i), r(i))
        two(p + "mul2", mod + "mul2", ty, v, **K)
        three(p + "mul3", mod + "mul3", ty, v, **K)
    carry("umulc", "n::umulc", U, lambda i: tr(c02.up(i)), lambda i: T.bnot(fits_u(c02.up(i))), **K)
    himul = PRE + "let mut r = M::uninit(); let c = n::imulc(&mut r, &$x, &$y); @x0 = unsafe { r.assume_init() }; @n0 = c as u128;"
    h = H("imulc", himul)
    for o in c02.kernel():      # the case split and hints of C02, on the primitive itself
        if o.name.startswith("imulc"):
            o.h = h
            out.append(o)
    for p, ty, mod, l, r, fl, fr in (("", U, "n::", ua, None, T.shl, T.lshr), ("i", I, "s::i", ix, None, T.shl, T.ashr)):
        vl = lambda i, l=l, fn=fl: fn(l(i), amt(i))
        vr = lambda i, l=l, fn=fr: fn(l(i), amt(i))
        rl = lambda i, l=l: T.bor(T.shl(l(i), amt(i)), T.lshr(l(i), T.zext(T.sub(C(0, 8), tr(n32(i), 8)), 256)))
        rr = lambda i, l=l: T.bor(T.lshr(l(i), amt(i)), T.shl(l(i), T.zext(T.sub(C(0, 8), tr(n32(i), 8)), 256)))
        for n in (2, 3):
            sh("%sshl%d" % (p, n), "%sshl%d" % (mod, n), ty, vl, n, **small)
            sh("%s%s%d" % (p, "shr" if not p else "sar", n), "%s%s%d" % (mod if not p else "n::", "shr" if not p else "sar", n), ty, vr, n, **small)
        sh(p + "rol3", mod + "rol3", ty, rl, 3)
        sh(p + "ror3", mod + "ror3", ty, rr, 3)
        ob(p + "ctlz", "@n0 = %sctlz(&%s) as u128;" % (mod, ty[0]), lambda i, l=l: {"n0": T.trunc(T.ctlz(l(i)), 128)})
        ob(p + "cttz", "@n0 = %scttz(&%s) as u128;" % (mod, ty[0]), lambda i, l=l: {"n0": T.trunc(T.cttz(l(i)), 128)})
    D = dict(contracts={**contracts.IDIV, **contracts.UDIV}, feas="none", solvers=("abs:30", "lia:30"))
    sdiv, srem = contracts.sdiv, contracts.srem
    for p, ty, l, r, dv, rm in (("u", U, ua, ub, T.udiv, T.urem), ("i", I, ix, iy, sdiv, srem)):
        pz = lambda i, r=r: T.eq(r(i), C(0, 256))
        A, B, R, o = ty
        for nm, fn in (("div", dv), ("rem", rm)):
            sp = lambda i, fn=fn, l=l, r=r, o=o, pz=pz: {o: fn(l(i), r(i)), "panic": pz(i)}
            ob("%s%s2" % (p, nm), "let mut r = %s; n::%s%s2(&mut r, &%s); %s = r;" % (A, p, nm, B, R), sp, **D)
            ob("%s%s3" % (p, nm), "let mut r = M::uninit(); n::%s%s3(&mut r, &%s, &%s); %s = unsafe { r.assume_init() };" % (p, nm, A, B, R), sp, **D)
    return out
