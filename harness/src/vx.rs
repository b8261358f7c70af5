//! Harness intrinsics. Under lsx they are external functions the executor intercepts; with
//! feature `native` they replay one model against the natively compiled code.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn vx_sym(p: *mut u8, n: usize);
        pub fn vx_assume(b: u32);
        pub fn vx_assert(b: u32, code: u32);
        pub fn vx_assert_eq(p: *const u8, n: usize, q: *const u8, m: usize, code: u32);
        pub fn vx_eq(p: *const u8, n: usize, q: *const u8, m: usize) -> u32;
        pub fn vx_out(p: *const u8, n: usize);
        pub fn vx_cover(code: u32);
        pub fn vx_conc(v: u64) -> u64;
    }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    pub struct St { pub model: Vec<u8>, pub pos: usize, pub hash: u64, pub nouts: u64, pub show: bool }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St { model: vec![], pos: 0, hash: 0, nouts: 0, show: false }); }
    pub struct Assumed;
    pub struct Violated(pub u32);
    fn fnv(h: u64, b: &[u8]) -> u64 { b.iter().fold(h, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3)) }
    pub fn reset(model: &[u8]) {
        ST.with(|s| { let mut s = s.borrow_mut(); s.model = model.to_vec(); s.pos = 0; s.hash = 0xcbf29ce484222325; s.nouts = 0; })
    }
    pub unsafe fn vx_sym(p: *mut u8, n: usize) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            for i in 0..n {
                let b = s.model.get(s.pos).copied().unwrap_or(0);
                s.pos += 1;
                *p.add(i) = b;
            }
        })
    }
    pub unsafe fn vx_assume(b: u32) { if b == 0 { std::panic::panic_any(Assumed) } }
    fn show(what: &str, p: &[u8]) {
        if ST.with(|s| s.borrow().show) { println!("  {}: {:?}", what, String::from_utf8_lossy(p)); }
    }
    pub unsafe fn vx_assert(b: u32, code: u32) { if b == 0 { std::panic::panic_any(Violated(code)) } }
    pub unsafe fn vx_assert_eq(p: *const u8, n: usize, q: *const u8, m: usize, code: u32) {
        let (a, b) = (std::slice::from_raw_parts(p, n), std::slice::from_raw_parts(q, m));
        if a != b { show("got", a); show("expected", b); std::panic::panic_any(Violated(code)) }
    }
    pub unsafe fn vx_eq(p: *const u8, n: usize, q: *const u8, m: usize) -> u32 {
        (std::slice::from_raw_parts(p, n) == std::slice::from_raw_parts(q, m)) as u32
    }
    pub unsafe fn vx_out(p: *const u8, n: usize) {
        let b = std::slice::from_raw_parts(p, n);
        show("out", b);
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.hash = fnv(fnv(s.hash, &(n as u64).to_le_bytes()), b);
            s.nouts += 1;
        })
    }
    pub unsafe fn vx_cover(_code: u32) {}
    pub unsafe fn vx_conc(v: u64) -> u64 { v }
}

use imp::*;

/// N symbolic bytes.
#[inline(never)]
pub fn sym<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { vx_sym(b.as_mut_ptr(), N) };
    b
}
pub fn sym_u8() -> u8 { sym::<1>()[0] }
pub fn sym_u64() -> u64 { u64::from_le_bytes(sym::<8>()) }
pub fn assume(b: bool) { unsafe { vx_assume(b as u32) } }
/// The third argument is only read by the driver, for its reports.
pub fn check(b: bool, code: u32, _what: &'static str) { unsafe { vx_assert(b as u32, code) } }
pub fn check_eq(got: &[u8], want: &[u8], code: u32, _what: &'static str) {
    unsafe { vx_assert_eq(got.as_ptr(), got.len(), want.as_ptr(), want.len(), code) }
}
/// Byte equality as one formula (no path split).
pub fn same(a: &[u8], b: &[u8]) -> bool { unsafe { vx_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len()) != 0 } }
pub fn out(b: &[u8]) { unsafe { vx_out(b.as_ptr(), b.len()) } }
pub fn cover(code: u32) { unsafe { vx_cover(code) } }
pub fn conc(v: u64) -> u64 { unsafe { vx_conc(v) } }
/// A choice among n alternatives, one path each.
pub fn pick(n: u8) -> u8 {
    let b = sym_u8();
    assume(b < n);
    conc(b as u64) as u8
}
/// A symbolic ASCII letter of either case.
pub fn letter() -> u8 {
    let b = sym_u8();
    let l = b | 0x20;
    assume(((l >= b'a') as u8 & (l <= b'z') as u8) != 0);
    b
}
/// An ASCII byte as text (going through `char` makes its length depend on the byte).
pub fn byte_str(b: u8) -> String { unsafe { String::from_utf8_unchecked(vec![b]) } }
pub fn letter_str() -> String { byte_str(letter()) }
/// N arbitrary bytes forming a UTF-8 string; every other value is assumed away.
pub fn sym_str<const N: usize>() -> String {
    let b = sym::<N>();
    match std::str::from_utf8(&b) {
        Ok(s) => s.to_string(),
        Err(_) => { assume(false); String::new() }
    }
}
/// N symbolic ASCII bytes, each with `ok`.
pub fn sym_ascii<const N: usize>(ok: fn(u8) -> bool) -> String {
    let b = sym::<N>();
    for c in b.iter() { assume((*c < 0x80) & ok(*c)); }
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
pub fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
