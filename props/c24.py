"""C24 exponent formatting."""
from vt.spec import *
from vt import exec as X
from props.fmts import FMT, STUBS
from props.c10 import rne

EXTRA = FMT + """
fn vh_put(f: &mut core::fmt::Formatter, tag: u8, bits: u64) -> core::fmt::Result {
    let mut t = [0u8; 16];
    let mut k = 0;
    while k < 8 { t[k] = (bits >> (8 * k)) as u8; k += 1; }
    t[8] = tag;
    t[9] = f.alternate() as u8 | (f.sign_plus() as u8) << 1 | (f.sign_minus() as u8) << 2 | (f.sign_aware_zero_pad() as u8) << 3;
    let w = match f.width() { Some(w) => w + 1, None => 0 };
    t[10] = w as u8; t[11] = (w >> 8) as u8;
    let w = match f.precision() { Some(w) => w + 1, None => 0 };
    t[12] = w as u8; t[13] = (w >> 8) as u8;
    t[14] = match f.align() { Some(core::fmt::Alignment::Left) => 1, Some(core::fmt::Alignment::Right) => 2, Some(_) => 3, None => 0 };
    vh_write_str(f, unsafe { core::str::from_utf8_unchecked(&t) })
}
#[no_mangle]
pub fn vh_lexp64(x: &f64, f: &mut core::fmt::Formatter) -> core::fmt::Result { vh_put(f, 1, x.to_bits()) }
#[no_mangle]
pub fn vh_uexp64(x: &f64, f: &mut core::fmt::Formatter) -> core::fmt::Result { vh_put(f, 2, x.to_bits()) }
#[no_mangle]
pub fn vh_lexp32(x: &f32, f: &mut core::fmt::Formatter) -> core::fmt::Result { vh_put(f, 3, x.to_bits() as u64) }
#[no_mangle]
pub fn vh_uexp32(x: &f32, f: &mut core::fmt::Formatter) -> core::fmt::Result { vh_put(f, 4, x.to_bits() as u64) }
pub fn same(o: &mut Out, fl: u32, a: impl Fn(&mut core::fmt::Formatter) -> core::fmt::Result, b: impl Fn(&mut core::fmt::Formatter) -> core::fmt::Result) {
    fm(o, fl, a);
    let e = o.n[0];
    let (n, mut t) = (o.len, [0u8; 32]);
    let mut k = 0;
    while k < 32 && k < n { t[k] = o.s[k]; k += 1; }
    o.len = 0;
    fm(o, fl, b);
    let mut ok = o.len == n && n <= 32 && e == o.n[0];
    k = 0;
    while k < n && k < 32 { ok &= t[k] == o.s[k]; o.s[k] = 0; k += 1; }
    o.len = 0;
    o.n[0] = ok as u128;
}
"""
EXP = {}
for _t, _f in (("LowerExp", "l"), ("UpperExp", "u")):
    for _w in ("32", "64"):
        for _n in ("<f%s as core::fmt::%s>::fmt" % (_w, _t), "core::fmt::float::<impl core::fmt::%s for f%s>::fmt" % (_t, _w)):
            EXP[_n] = X.Redirect("vh_%sexp%s" % (_f, _w))
BOUNDS = "all values, by the position of the leading bit; twelve combinations of flags, width and precision rotated over the groups"
ASSUMPTIONS = ["the standard library's exponent formatting of f64 depends on the number and on the formatter's options only (a stand-in which prints both)"]
FLAGS = (0, 1, 2, 128, 30 << 8, 30 << 8 | 32, 30 << 8 | 64, 30 << 8 | 128, 2 | 128, 20 << 8 | 2 | 32, 3, 4)


def obligations(tier):
    out = []
    quick = tier == "quick"
    lead = lambda k: T.concat(*([C(0, 255 - k)] if k < 255 else []), C(1, 1), *([T.var("lo", k)] if k else []))
    for t in ("LowerExp", "UpperExp"):
        for p, A, key, ty in (("u", "$a", "w0", "U256"), ("i", "$x", "x0", "I256")):
            h = H("%s_%s" % (p, t), "let v = %s; let d = f64::from_bits($n0 as u64); same(o, $n1 as u32, |g| core::fmt::%s::fmt(&v, g), |g| core::fmt::%s::fmt(&d, g));" % (A, t, t))
            for k in [None] + list(range(256 if p == "u" else 255)):
                for sg in (0, 1) if p == "i" and k is not None else (0,):
                    edge = k in (None, 0, 52, 53, 54, 127, 128, 254, 255)
                    if quick and t == "UpperExp" and not edge and k % 8:
                        continue
                    for q, fl in enumerate(FLAGS):
                        if q != (k or 0) % len(FLAGS) and (quick or not edge):
                            continue

                        def binds(k=k, sg=sg, fl=fl, key=key):
                            m = C(0, 256) if k is None else lead(k)
                            d = T.bor(rne(m, 64), C(sg << 63, 64))
                            return {key: T.neg(m) if sg else m, "n0": u(d, 128), "n1": C(fl, 128)}
                        out.append(Obl(h, lambda i: {"n0": C(1, 128)}, name="%s_%s%s_f%x" % (h.name, "zero" if k is None else "b%d" % k, "_neg" if sg else "", fl), samples=2,
                                       binds=binds, cfgs=ALL if edge and not quick else (("nd", "lr", "nr", "ld")[(k or 0) % 4],), contracts={**STUBS, **EXP}))
            if p == "i":
                out.append(Obl(h, lambda i: {"n0": C(1, 128)}, name=h.name + "_min", binds={"x0": C(MIN, 256), "n0": C((0xbff + 255) << 52, 128), "n1": C(0, 128)}, contracts={**STUBS, **EXP}, cfgs=("nd", "lr")))
    return out
