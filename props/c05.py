"""C05 shifts and rotates, for every value, amount and amount type."""
from vt.spec import *
from vt import term as T

BOUNDS = "none: all values and all amounts of every amount type"

TYPES = [("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64), ("i128", 128), ("isize", 64),
         ("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128), ("usize", 64), ("U256", 256), ("I256", 256)]


def amt8(n):
    return T.zext(T.trunc(n, 8), 256)


def obligations(tier):
    out = []

    def ob(name, rust, spec, **k):
        out.append(Obl(H(name, rust), spec, cfgs=ALL, **k))

    shl = lambda v, n: T.shl(v, amt8(n))
    shr = lambda v, n: T.lshr(v, amt8(n))
    sar = lambda v, n: T.ashr(v, amt8(n))
    n32 = lambda i: tr(i.n[0], 32)
    over = lambda n: T.bnot(T.ult(n, C(256, n.w))) if n.w > 8 else T.FALSE
    fams = [("u", "$a", lambda i: i.a, "w0", "ow", shl, shr), ("i", "$x", lambda i: i.xx, "x0", "ox", shl, sar)]
    for p, l, v, f, of, fl, fr in fams:
        for op, fn in (("shl", fl), ("shr", fr)):
            res = lambda i, fn=fn, v=v: fn(v(i), n32(i))
            ob("%s_wrapping_%s" % (p, op), "@%s = %s.wrapping_%s($n0 as u32);" % (f, l, op), lambda i, res=res, f=f: {f: res(i)})
            ob("%s_overflowing_%s" % (p, op), "let (r, c) = %s.overflowing_%s($n0 as u32); @%s = r; @n0 = c as u128;" % (l, op, f),
               lambda i, res=res, f=f: {f: res(i), "n0": b2n(over(n32(i)))})
            ob("%s_checked_%s" % (p, op), "%s(o, %s.checked_%s($n0 as u32));" % (of, l, op),
               lambda i, res=res, f=f: opt(T.bnot(over(n32(i))), res(i), f))
        rl = lambda i, v=v: T.bor(T.shl(v(i), amt8(n32(i))), T.lshr(v(i), T.zext(T.sub(C(0, 8), tr(n32(i), 8)), 256)))
        rr = lambda i, v=v: T.bor(T.lshr(v(i), amt8(n32(i))), T.shl(v(i), T.zext(T.sub(C(0, 8), tr(n32(i), 8)), 256)))
        ob(p + "_rotate_left", "@%s = %s.rotate_left($n0 as u32);" % (f, l), lambda i, rl=rl, f=f: {f: rl(i)})
        ob(p + "_rotate_right", "@%s = %s.rotate_right($n0 as u32);" % (f, l), lambda i, rr=rr, f=f: {f: rr(i)})
        for ty, w in TYPES:
            src = {"U256": "$b", "I256": "$y"}.get(ty, "($n0 as %s)" % ty)
            amt = lambda i, ty=ty, w=w: i.b if ty == "U256" else i.y if ty == "I256" else tr(i.n[0], w)
            neg = ty[0] in "iI"
            # in range: 0 <= amount < 256 in the amount's own type
            bad = lambda i, amt=amt, neg=neg: T.bor(over(amt(i)), T.bit(amt(i), amt(i).w - 1) if neg else T.FALSE)
            for op, sym, fn in (("shl", "<<", fl), ("shr", ">>", fr)):
                sp = lambda i, fn=fn, v=v, f=f, amt=amt, bad=bad: {f: fn(v(i), amt(i)), "panic": bad(i) if i.dbg else T.FALSE}
                ob("%s_op_%s_%s" % (p, op, ty), "@%s = %s %s %s;" % (f, l, sym, src), sp)
                ob("%s_op_%s_assign_%s" % (p, op, ty), "let mut v = %s; v %s= %s; @%s = v;" % (l, sym, src, f), sp)
    return out
