"""Stand-ins for the precompiled parts of core::fmt, shared by C14 and C15."""
import re
from vt import exec as X

FMT = """
pub struct W<'a>(pub &'a mut Out);
impl<'a> core::fmt::Write for W<'a> {
    fn write_str(&mut self, v: &str) -> core::fmt::Result {
        let v = v.as_bytes(); let mut k = 0;
        while k < v.len() { self.0.s[self.0.len] = v[k]; self.0.len += 1; k += 1; }
        Ok(())
    }
}
pub fn fm(o: &mut Out, fl: u32, g: impl Fn(&mut core::fmt::Formatter) -> core::fmt::Result) {
    use core::fmt::*;
    let mut p = FormattingOptions::new();
    if fl & 1 != 0 { p.alternate(true); }
    if fl & 2 != 0 { p.sign(Some(Sign::Plus)); }
    if fl & 4 != 0 { p.sign(Some(Sign::Minus)); }
    if fl & 8 != 0 { p.debug_as_hex(Some(DebugAsHex::Lower)); }
    if fl & 16 != 0 { p.debug_as_hex(Some(DebugAsHex::Upper)); }
    if fl & 32 != 0 { p.sign_aware_zero_pad(true); }
    if fl & 64 != 0 { p.align(Some(Alignment::Left)); }
    if fl & 128 != 0 { p.precision(Some(3)); }
    if fl >> 8 != 0 { p.width(Some((fl >> 8) as u16)); }
    let e = { let mut w = W(o); let mut f = p.create_formatter(&mut w); g(&mut f).is_err() };
    o.n[0] = e as u128;
}
pub struct Fm<'a> { options: core::fmt::FormattingOptions, buf: &'a mut (dyn core::fmt::Write + 'a) }      // the layout of Formatter
#[no_mangle]
pub fn vh_write_str(f: &mut core::fmt::Formatter, s: &str) -> core::fmt::Result {
    let f: &mut Fm = unsafe { core::mem::transmute(f) };
    f.buf.write_str(s)
}
const _: () = assert!(core::mem::size_of::<Fm<'static>>() == core::mem::size_of::<core::fmt::Formatter<'static>>());
#[no_mangle]
pub fn vh_pad_integral(f: &mut core::fmt::Formatter, nonneg: bool, prefix: &str, buf: &str) -> core::fmt::Result {
    let sign = if !nonneg { "-" } else if f.sign_plus() { "+" } else { "" };
    let prefix = if f.alternate() { prefix } else { "" };
    let n = sign.len() + prefix.len() + buf.len();
    let pad = match f.width() { Some(w) if w > n => w - n, _ => 0 };
    let zero = f.sign_aware_zero_pad();
    let left = match f.align() { Some(core::fmt::Alignment::Left) => true, _ => false };
    let fill = " ";
    let mut k = 0;
    if !zero && !left { while k < pad { vh_write_str(f, fill)?; k += 1; } }
    vh_write_str(f, sign)?;
    vh_write_str(f, prefix)?;
    if zero { while k < pad { vh_write_str(f, "0")?; k += 1; } }
    vh_write_str(f, buf)?;
    while k < pad { vh_write_str(f, fill)?; k += 1; }
    Ok(())
}
// core::fmt::write on the layout of Arguments
pub enum Count { Is(u16), Param(usize), Implied }
pub struct Placeholder { position: usize, flags: u32, precision: Count, width: Count }
pub struct Opts { flags: u32, width: u16, precision: u16 }
pub enum ArgTy<'a> { Placeholder { value: core::ptr::NonNull<()>, formatter: unsafe fn(core::ptr::NonNull<()>, &mut core::fmt::Formatter<'_>) -> core::fmt::Result, _lifetime: core::marker::PhantomData<&'a ()> }, Count(u16) }
pub struct Args<'a> { pieces: &'a [&'static str], fmt: Option<&'a [Placeholder]>, args: &'a [ArgTy<'a>] }
const _: () = assert!(core::mem::size_of::<Args<'static>>() == core::mem::size_of::<core::fmt::Arguments<'static>>());
const _: () = assert!(core::mem::size_of::<Opts>() == core::mem::size_of::<core::fmt::FormattingOptions>());
#[no_mangle]
pub fn vh_write(out: &mut dyn core::fmt::Write, args: core::fmt::Arguments) -> core::fmt::Result {
    let a: Args = unsafe { core::mem::transmute(args) };
    let n = match a.fmt { Some(p) => p.len(), None => a.args.len() };
    let mut k = 0;
    while k < n {
        if !a.pieces[k].is_empty() { out.write_str(a.pieces[k])?; }
        let (at, options) = match a.fmt {
            Some(p) => {
                let w = match p[k].width { Count::Implied => 0, Count::Is(w) => w, Count::Param(_) => panic!() };
                let r = match p[k].precision { Count::Implied => 0, Count::Is(w) => w, Count::Param(_) => panic!() };
                (p[k].position, unsafe { core::mem::transmute::<Opts, core::fmt::FormattingOptions>(Opts { flags: p[k].flags, width: w, precision: r }) })
            }
            None => (k, core::fmt::FormattingOptions::new()),
        };
        let mut f = Fm { options, buf: &mut *out };
        match &a.args[at] {
            ArgTy::Placeholder { value, formatter, .. } => unsafe { formatter(*value, core::mem::transmute::<&mut Fm, &mut core::fmt::Formatter>(&mut f))? },
            ArgTy::Count(_) => panic!(),
        }
        k += 1;
    }
    if k < a.pieces.len() { out.write_str(a.pieces[k])?; }
    Ok(())
}
pub struct Utf { valid_up_to: usize, error_len: Option<u8> }
const _: () = assert!(core::mem::size_of::<Utf>() == core::mem::size_of::<core::str::Utf8Error>());
#[no_mangle]
pub fn vh_from_utf8(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
    let mut k = 0;
    let mut bad = false;
    while k < v.len() { bad |= v[k] >= 128; k += 1; }
    if bad { return Err(unsafe { core::mem::transmute(Utf { valid_up_to: 0, error_len: Some(1) }) }); }
    Ok(unsafe { core::str::from_utf8_unchecked(v) })
}
"""
STUBS = {"core::fmt::Formatter::pad_integral": X.Redirect("vh_pad_integral"),
         "core::fmt::Formatter::write_str": X.Redirect("vh_write_str"), "<core::fmt::Formatter as core::fmt::Write>::write_str": X.Redirect("vh_write_str"),
         "core::fmt::write": X.Redirect("vh_write"), re.compile("^core::str::converts::from_utf8$"): X.Redirect("vh_from_utf8")}


import struct
from vt import term as T
K = lambda ch: T.const(ord(ch) if isinstance(ch, str) else ch, 8)


def char(d, upper=False):
    """digit value (8 bits) -> character"""
    return T.ite(T.ult(d, K(10)), T.add(d, K("0")), T.add(d, K(ord("A" if upper else "a") - 10)))


def radix_digits(v, bits, n, upper=False):
    """the n lowest digits of v in base 2^bits, most significant first"""
    out = []
    for k in reversed(range(n)):
        lo, hi = bits * k, min(bits * k + bits, v.w) - 1
        d = T.zext(T.extract(hi, lo, v), 8)
        out.append(T.add(d, K("0")) if bits < 4 else char(d, upper))
    return out


def decimal_digits(v, n):
    """n decimal digits, in blocks of four, each in blocks of two"""
    c = lambda k, w: T.const(k, w)
    out, total = [], n
    while n > 0:
        b = T.zext(T.trunc(T.urem(v, c(10000, v.w)), 16) if n > 4 else T.trunc(v, 16), 64)
        for h in (T.urem(b, c(100, 64)), T.udiv(b, c(100, 64)))[:2 if n > 2 else 1]:
            for d in (T.urem(h, c(10, 64)), T.udiv(h, c(10, 64))):
                out.append(T.add(T.trunc(d, 8), K("0")))
        v = T.udiv(v, c(10000, v.w))
        n -= 4
    return out[:total][::-1]


def blocks(inp, conds):
    """the blocks of digits become unknowns with their bounds"""
    return T.subst(list(conds), {x.id: T.var("@%d" % x.id, x.w, x.ub, x.lb) for x in T.topo(conds) if x.op in ("urem", "udiv") and x.a[1].op == "c" and x.a[1].v >= 100})


def padded(flags, sign, prefix, digits):
    """what the standard integer padding prints"""
    s = [K(c) for c in sign]
    p = [K(c) for c in prefix] if flags & 1 else []
    n = max(0, (flags >> 8) - len(s) - len(p) - len(digits))
    if flags & 32:
        return s + p + [K("0")] * n + digits
    fill = [K(" ")] * n
    return s + p + digits + fill if flags & 64 else fill + s + p + digits
