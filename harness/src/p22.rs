//! C22: integers read as their exact decimal value.
use crate::{canon::*, model::*, vx::*};
use html5_fuser::event::{IntoStream, StreamError};
use html5_fuser::text::{IntoValue, Value};
use html5_fuser::Template;

/// The text is the decimal notation of the number: sign, then digits without leading zero that add up to it.
fn reads_as(s: &str, neg: bool, mag: u64, code: u32) {
    let b = s.as_bytes();
    let d = if b.len() > 0 && b[0] == b'-' { check(neg, code, "a number that is not negative has a minus sign"); &b[1..] } else { check(!neg, code + 1, "a negative number lacks its minus sign"); b };
    check(d.len() > 0 && d.len() <= 20, code + 2, "the number of digits is impossible");
    let mut ok = true;
    for c in d { ok &= (*c >= b'0') & (*c <= b'9'); }
    check(ok, code + 3, "something that is no digit appears in a number");
    if d.len() > 1 { check(d[0] != b'0', code + 4, "a number has a leading zero"); }
    // Two halves, as 20 digits may exceed 64 bits.
    let cut = d.len().saturating_sub(10);
    let part = |d: &[u8]| { let mut v = 0u64; for c in d { v = v.wrapping_mul(10).wrapping_add((*c - b'0') as u64); } v };
    let (hi, lo) = (part(&d[..cut]), part(&d[cut..]));
    check(hi <= 1_844_674_407, code + 5, "the number is another one");
    let v = hi.wrapping_mul(10_000_000_000);
    check((v <= u64::MAX - lo) & (v.wrapping_add(lo) == mag), code + 5, "the number is another one");
}
fn rendered(r: Result<Template, StreamError>, before: &str, after: &str, code: u32) -> String {
    let s = match r { Ok(t) => t.to_string(), Err(_) => { check(false, code, "inserting a number fails"); unreachable!() } };
    let ok = s.len() >= before.len() + after.len() && s.as_bytes().starts_with(before.as_bytes()) && s.as_bytes().ends_with(after.as_bytes());
    check(ok, code + 1, "inserting a number changes something else");
    s[before.len()..s.len() - after.len()].to_string()
}
/// The number in one of the places that take one.
fn placed<T: IntoStream + IntoValue + Copy + 'static>(n: T, neg: bool, mag: u64, places: u8) {
    let t = parse("<p a=\"1\">x</p>");
    let k = if places > 1 { pick(places) } else { 0 };
    cover(2201);
    let s = match k {
        0 => rendered(t.transform(|h| h.select("p", |e| e.append_contents(n))), "<p a=\"1\">x", "</p>", 2201),
        1 => rendered(t.transform(|h| h.select("p", |e| e.set_attribute_with_value("b", n))), "<p a=\"1\" b=\"", "\">x</p>", 2203),
        2 => rendered(t.transform(|h| h.replace(n)), "", "", 2205),
        3 => rendered(t.transform(|h| h.select("p", |e| e.add_to_attribute("a", n, ";"))), "<p a=\"1;", "\">x</p>", 2207),
        4 => rendered(t.transform(|h| h.select("p", |e| e.add_to_attribute("a", "2", n))), "<p a=\"1", "2\">x</p>", 2209),
        5 => rendered(t.transform(|h| h.select("p", |e| e.replace_attribute_value_if_exists("a", n))), "<p a=\"", "\">x</p>", 2211),
        6 => rendered(t.transform(|h| h.select("p", |e| e.replace_contents(Ok::<T, StreamError>(n)))), "<p a=\"1\">", "</p>", 2213),
        _ => { let v: Value = n.into_value(); v.to_string() }
    };
    reads_as(&s, neg, mag, 2221);
    out(s.as_bytes());
}
trait Int: IntoStream + IntoValue + Copy + 'static { fn of(v: u64) -> Self; fn neg(self) -> bool; fn mag(self) -> u64; }
macro_rules! unsigned { ($($t:ty)*) => { $( impl Int for $t { fn of(v: u64) -> $t { v as $t } fn neg(self) -> bool { false } fn mag(self) -> u64 { self as u64 } } )* } }
macro_rules! signed { ($($t:ty)*) => { $( impl Int for $t { fn of(v: u64) -> $t { v as $t } fn neg(self) -> bool { self < 0 } fn mag(self) -> u64 { if self < 0 { (self as i64 as u64).wrapping_neg() } else { self as u64 } } } )* } }
unsigned!(u8 u16 u32 u64 usize);
signed!(i8 i16 i32 i64 isize);

/// Every value of the type.
fn full<T: Int>(places: u8) {
    let n = T::of(sym_u64());
    placed(n, n.neg(), n.mag(), places);
}
/// The aligned block of `width` (a power of two) values around each given one.
fn window<T: Int>(at: &[u64], width: u64, places: u8) {
    let k = sym_u64() & (width - 1);
    let n = T::of((at[pick(at.len() as u8) as usize] & !(width - 1)) | k);
    placed(n, n.neg(), n.mag(), places);
}
fn windows(types: u8, at: &[u64], width: u64, places: u8) {
    match pick(types) {
        0 => window::<i64>(at, width, places),
        1 => window::<u64>(at, width, places),
        2 => window::<i32>(at, width, places),
        3 => window::<u32>(at, width, places),
        4 => window::<usize>(at, width, places),
        5 => window::<isize>(at, width, places),
        6 => window::<u16>(at, width, places),
        _ => window::<i16>(at, width, places),
    }
}
/// Both sides of each end of a type.
const ENDS: [u64; 14] = [0, 0u64.wrapping_sub(1), (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 15) - 1, 1 << 15, (1 << 16) - 1, 1 << 16,
    0u64.wrapping_sub(1 << 31), 0u64.wrapping_sub(1 << 31) - 1];
/// Both sides of every `step`th power of ten and of its negative.
fn powers(types: u8, width: u64, step: usize, places: u8) {
    let mut b = vec![];
    let mut p = 10u64;
    for i in 0..19 { if i % step == 0 { b.extend_from_slice(&[p - 1, p, (p - 1).wrapping_neg(), p.wrapping_neg()]); } p = p.wrapping_mul(10); }
    windows(types, &b, width, places)
}

harnesses! {
    /// [qt] every u8, 8 places
    fn c22_u8() { full::<u8>(8) }
    /// [qt] every i8, 8 places
    fn c22_i8() { full::<i8>(8) }
    /// [q] every u16, as content
    fn c22_u16_one() { full::<u16>(1) }
    /// [q] every i16, as content
    fn c22_i16_one() { full::<i16>(1) }
    /// [t] every u16, 8 places
    fn c22_u16() { full::<u16>(8) }
    /// [t] every i16, 8 places
    fn c22_i16() { full::<i16>(8) }
    /// [q] types of 16 to 64 bits, aligned block of 4 values on both sides of each end of a type, as content and as attribute
    fn c22_ends4() { windows(8, &ENDS, 4, 2) }
    /// [t] 32 and 64 bit types, aligned block of 16 values on both sides of each end of a type, 8 places
    fn c22_ends() { windows(6, &ENDS, 16, 8) }
    /// [q] types of 32 and 64 bits, aligned block of 4 values on both sides of every fourth power of ten and its negative, as content and as attribute
    fn c22_powers4() { powers(6, 4, 4, 2) }
    /// [t] 32 and 64 bit types, aligned block of 16 values on both sides of each power of ten and its negative, content and attribute
    fn c22_powers() { powers(6, 16, 1, 2) }
    /// [t] 32 and 64 bit types, aligned block of 256 values on both sides of each end of a type, content
    fn c22_ends_wide() { windows(6, &ENDS, 256, 1) }
    /// [t] i64 and u64, aligned block of 256 values on both sides of each power of ten and its negative, content
    fn c22_powers_wide() { powers(2, 256, 1, 1) }
}
