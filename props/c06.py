"""C06 bit-level queries, bitwise operators, powers of two."""
from vt.spec import *
from vt import term as T

BOUNDS = "none: all operand values"


def obligations(tier):
    out = []

    def ob(name, rust, spec, **k):
        out.append(Obl(H(name, rust), spec, cfgs=ALL, **k))

    ones = C(M256, 256)
    for p, l, r, v, v2, f in (("u", "$a", "$b", lambda i: i.a, lambda i: i.b, "w0"), ("i", "$x", "$y", lambda i: i.xx, lambda i: i.y, "x0")):
        n = lambda t: tr(t, 128)
        for m, fn in (("count_ones", lambda t: T.ctpop(t)), ("count_zeros", lambda t: T.ctpop(T.bxor(t, ones))),
                      ("leading_zeros", lambda t: T.ctlz(t)), ("trailing_zeros", lambda t: T.cttz(t)),
                      ("leading_ones", lambda t: T.ctlz(T.bxor(t, ones))), ("trailing_ones", lambda t: T.cttz(T.bxor(t, ones)))):
            ob("%s_%s" % (p, m), "@n0 = %s.%s() as u128;" % (l, m), lambda i, fn=fn, v=v: {"n0": tr(fn(v(i)), 128)})
        ob(p + "_reverse_bits", "@%s = %s.reverse_bits();" % (f, l), lambda i, v=v, f=f: {f: T.bitreverse(v(i))})
        ob(p + "_swap_bytes", "@%s = %s.swap_bytes();" % (f, l), lambda i, v=v, f=f: {f: T.bswap(v(i))})
        ob(p + "_not", "@%s = !%s;" % (f, l), lambda i, v=v, f=f: {f: T.bxor(v(i), ones)})
        ob(p + "_not_ref", "@%s = !&%s;" % (f, l), lambda i, v=v, f=f: {f: T.bxor(v(i), ones)})
        for nm, sym, fn in (("and", "&", T.band), ("or", "|", T.bor), ("xor", "^", T.bxor)):
            sp = lambda i, fn=fn, v=v, v2=v2, f=f: {f: fn(v(i), v2(i))}
            ob("%s_%s" % (p, nm), "@%s = %s %s %s;" % (f, l, sym, r), sp)
            ob("%s_%s_ref" % (p, nm), "@%s = &%s %s &%s;" % (f, l, sym, r), sp)
            ob("%s_%s_assign" % (p, nm), "let mut v = %s; v %s= %s; @%s = v;" % (l, sym, r, f), sp)
            ob("%s_%s_assign_ref" % (p, nm), "let mut v = %s; v %s= &%s; @%s = v;" % (l, sym, r, f), sp)

    pow2 = lambda i: T.eq(T.ctpop(i.a), C(1, 256))
    # 257-bit next power of two: 1 << bitlen(a-1), 1 for a <= 1
    nxt = lambda i: T.ite(T.ult(i.a, C(2, 256)), C(1, 257),
                          T.shl(C(1, 257), T.sub(C(256, 257), T.zext(T.ctlz(T.sub(i.a, C(1, 256))), 257))))
    ob("u_is_power_of_two", "@n0 = $a.is_power_of_two() as u128;", lambda i: {"n0": b2n(pow2(i))})
    ob("u_next_power_of_two", "@w0 = $a.next_power_of_two();",
       lambda i: {"w0": tr(nxt(i)), "panic": T.bit(nxt(i), 256) if i.dbg else T.FALSE})
    ob("u_checked_next_power_of_two", "ow(o, $a.checked_next_power_of_two());",
       lambda i: opt(T.bnot(T.bit(nxt(i), 256)), tr(nxt(i))))
    return out
