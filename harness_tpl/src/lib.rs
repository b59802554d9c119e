// Harness crate: entry points are generated from /verif/props/*.py into gen.rs.
#![feature(formatting_options)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, deprecated, internal_features, clippy::all)]
use ethnum::{AsI256, AsU256, I256, U256};

pub const NS: usize = 320;

#[repr(C)]
pub struct In {
    pub w: [U256; 4],
    pub x: [I256; 4],
    pub n: [u128; 8],
    pub len: usize,
    pub s: [u8; NS],
}
#[repr(C)]
pub struct Out {
    pub w: [U256; 4],
    pub x: [I256; 4],
    pub n: [u128; 8],
    pub len: usize,
    pub s: [u8; NS],
}

#[inline(never)]
pub fn ow(o: &mut Out, v: Option<U256>) {
    match v {
        Some(v) => {
            o.n[0] = 1;
            o.w[0] = v;
        }
        None => o.n[0] = 0,
    }
}
#[inline(never)]
pub fn ox(o: &mut Out, v: Option<I256>) {
    match v {
        Some(v) => {
            o.n[0] = 1;
            o.x[0] = v;
        }
        None => o.n[0] = 0,
    }
}

include!("extra.rs");
include!("gen.rs");

/// native replay entry
#[no_mangle]
pub extern "C" fn vh_call(k: usize, i: *const In, o: *mut Out) -> i32 {
    let (i, o) = unsafe { (&*i, &mut *o) };
    let f = TABLE[k];
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i, o))) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
