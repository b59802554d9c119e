"""C07 comparison, equality, hashing, sign."""
from vt.spec import *
from vt import term as T

BOUNDS = "none: all operand values"
EXTRA = """
use core::hash::{Hash, Hasher};
/// hasher recording everything it is fed
pub struct Rec { pub buf: [u8; 96], pub len: usize }
impl Rec { pub fn new() -> Self { Rec { buf: [0; 96], len: 0 } } }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) {
        let mut k = 0;
        while k < b.len() { self.buf[self.len] = b[k]; self.len += 1; k += 1; }
    }
}
pub fn same_stream<T: Hash>(a: &T, b: &T) -> bool {
    let mut p = Rec::new();
    let mut q = Rec::new();
    a.hash(&mut p);
    b.hash(&mut q);
    if p.len != q.len { return false; }
    let mut d = 0u8;
    let mut k = 0;
    while k < p.len { d |= p.buf[k] ^ q.buf[k]; k += 1; }
    d == 0
}
pub fn onum(x: core::cmp::Ordering) -> u128 { match x { core::cmp::Ordering::Less => 1, core::cmp::Ordering::Equal => 2, core::cmp::Ordering::Greater => 3 } }
pub fn opnum(x: Option<core::cmp::Ordering>) -> u128 { match x { Some(x) => onum(x), None => 0 } }
"""


def obligations(tier):
    out = []

    def ob(name, rust, spec, **k):
        out.append(Obl(H(name, rust), spec, cfgs=ALL, **k))

    def num(lt, a, b):
        return T.ite(lt(a, b), C(1, 128), T.ite(T.eq(a, b), C(2, 128), C(3, 128)))

    for p, l, r, va, vb, lt, f, prim in (
            ("u", "$a", "$b", lambda i: i.a, lambda i: i.b, T.ult, "w0", "u128"),
            ("i", "$x", "$y", lambda i: i.xx, lambda i: i.y, T.slt, "x0", "i128")):
        ob(p + "_cmp", "@n0 = onum(%s.cmp(&%s));" % (l, r), lambda i, va=va, vb=vb, lt=lt: {"n0": num(lt, va(i), vb(i))})
        ob(p + "_partial_cmp", "@n0 = opnum(%s.partial_cmp(&%s));" % (l, r), lambda i, va=va, vb=vb, lt=lt: {"n0": num(lt, va(i), vb(i))})
        rels = [("eq", "==", lambda lt, a, b: T.eq(a, b)), ("ne", "!=", lambda lt, a, b: T.ne(a, b)),
                ("lt", "<", lambda lt, a, b: lt(a, b)), ("le", "<=", lambda lt, a, b: T.bnot(lt(b, a))),
                ("gt", ">", lambda lt, a, b: lt(b, a)), ("ge", ">=", lambda lt, a, b: T.bnot(lt(a, b)))]
        ext = T.zext if p == "u" else T.sext
        for nm, sym, fn in rels:
            ob("%s_%s" % (p, nm), "@n0 = (%s %s %s) as u128;" % (l, sym, r), lambda i, fn=fn, va=va, vb=vb, lt=lt: {"n0": b2n(fn(lt, va(i), vb(i)))})
            ob("%s_%s_prim" % (p, nm), "@n0 = (%s %s ($n0 as %s)) as u128;" % (l, sym, prim),
               lambda i, fn=fn, va=va, lt=lt, ext=ext: {"n0": b2n(fn(lt, va(i), ext(i.n[0], 256)))})
            ob("prim_%s_%s" % (nm, p), "@n0 = (($n0 as %s) %s %s) as u128;" % (prim, sym, l),
               lambda i, fn=fn, va=va, lt=lt, ext=ext: {"n0": b2n(fn(lt, ext(i.n[0], 256), va(i)))})
        ob(p + "_partial_cmp_prim", "@n0 = opnum(%s.partial_cmp(&($n0 as %s)));" % (l, prim),
           lambda i, va=va, lt=lt, ext=ext: {"n0": num(lt, va(i), ext(i.n[0], 256))})
        ob("prim_partial_cmp_" + p, "@n0 = opnum(($n0 as %s).partial_cmp(&%s));" % (prim, l),
           lambda i, va=va, lt=lt, ext=ext: {"n0": num(lt, ext(i.n[0], 256), va(i))})
        ob(p + "_max", "@%s = %s.max(%s);" % (f, l, r), lambda i, va=va, vb=vb, lt=lt, f=f: {f: T.ite(lt(vb(i), va(i)), va(i), vb(i))})
        ob(p + "_min", "@%s = %s.min(%s);" % (f, l, r), lambda i, va=va, vb=vb, lt=lt, f=f: {f: T.ite(lt(vb(i), va(i)), vb(i), va(i))})
        ob(p + "_hash", "@n0 = same_stream(&%s, &%s) as u128;" % (l, r), lambda i, va=va, vb=vb: {"n0": b2n(T.eq(va(i), vb(i)))})
    neg = lambda i: T.bit(i.xx, 255)
    zero = lambda i: T.eq(i.xx, C(0, 256))
    sg = lambda i, w: T.ite(neg(i), C(-1, w), T.ite(zero(i), C(0, w), C(1, w)))
    ob("i_signum", "@x0 = $x.signum();", lambda i: {"x0": sg(i, 256)})
    ob("i_signum128", "@n0 = $x.signum128() as u128;", lambda i: {"n0": sg(i, 128)})
    ob("i_is_negative", "@n0 = $x.is_negative() as u128;", lambda i: {"n0": b2n(neg(i))})
    ob("i_is_positive", "@n0 = $x.is_positive() as u128;", lambda i: {"n0": b2n(T.band(T.bnot(neg(i)), T.bnot(zero(i))))})
    return out
