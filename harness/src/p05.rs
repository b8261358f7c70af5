//! C05: the input length limit is exact.
use crate::{canon::*, file::*, gen, model, vx::*};
use html5_fuser::template::{FileError, InputError};
use std::path::Path;
use html5_fuser::{ParseOptions, Template};

fn result(src: &str, o: ParseOptions) -> Vec<u8> {
    match Template::from_str(src, o) {
        Ok(t) => { let mut v = vec![0]; v.extend_from_slice(t.to_string().as_bytes()); v }
        Err(e) => { let s = seen(&e); let mut v = what_seen(&s); v.extend(where_seen(&s)); v }
    }
}

fn limit(src: String, depth: Option<usize>) {
    let n = sym_u64() as usize;
    let mut free = ParseOptions::default();
    if let Some(d) = depth { free = free.max_stack_depth(d); }
    let lim = free.max_input_len(n);
    if n < src.len() {
        cover(501);
        match Template::from_str(&src, lim) {
            Err(InputError::LengthLimitExceeded { limit }) => check(limit == n, 501, "the length error names another limit"),
            Err(_) => check(false, 502, "a source longer than the limit is rejected for another reason"),
            Ok(_) => check(false, 503, "a source longer than the limit is accepted"),
        }
    } else {
        cover(502);
        let got = result(&src, lim);
        check_eq(&got, &result(&src, free), 504, "a source within the limit is treated differently");
        check_eq(&got, &result(&src, lim.no_max_input_len()), 505, "a lifted limit still has an effect");
        out(&got);
    }
    check_eq(&result(&src, lim.no_max_input_len()), &result(&src, free), 506, "a lifted limit still has an effect");
}

/// The same for files read in pieces.
fn file<const N: usize>(any: bool) {
    let mut b = "<a>\u{e9}".as_bytes().to_vec();
    b.extend_from_slice(&sym::<N>());
    b.extend_from_slice(b"</a>");
    let len = b.len();
    let cut = pick(len as u8) as usize;
    let n = if any { sym_u64() as usize } else { pick(len as u8 + 3) as usize };
    let free = ParseOptions::default();
    let load = |o: ParseOptions| {
        script(vec![], if cut == 0 { vec![Op::Data(b.clone())] } else { vec![Op::Data(b[..cut].to_vec()), Op::Data(b[cut..].to_vec())] });
        Template::from_file(Path::new("/vx-scripted/t"), o)
    };
    let kind = |r: Result<Template, FileError>| match r {
        Ok(t) => { let mut v = vec![0]; v.extend_from_slice(t.to_string().as_bytes()); v }
        Err(FileError::Input { error, .. }) => { let s = seen(&error); let mut v = what_seen(&s); v.extend(where_seen(&s)); v }
        Err(FileError::Decode { error, .. }) => vec![255, error.valid_up_to() as u8],
        Err(FileError::Open { .. }) => vec![254],
        Err(FileError::Read { .. }) => vec![253],
    };
    if n < len {
        cover(503);
        match load(free.max_input_len(n)) {
            Err(FileError::Input { error: InputError::LengthLimitExceeded { limit }, .. }) => check(limit == n, 511, "the length error of a file names another limit"),
            Err(_) => check(false, 512, "a file longer than the limit is rejected for another reason"),
            Ok(_) => check(false, 513, "a file longer than the limit is accepted"),
        }
    } else {
        cover(504);
        let got = kind(load(free.max_input_len(n)));
        check_eq(&got, &kind(load(free)), 514, "a file within the limit is treated differently");
        out(&got);
    }
    check_eq(&kind(load(free.max_input_len(n).no_max_input_len())), &kind(load(free)), 515, "a lifted limit still has an effect on a file");
}

harnesses! {
    /// [qt] 14 parts of a source at 11 lengths up to 256, with a symbolic byte, any limit
    fn c05_grown() { limit(gen::grown(), Some(sym_u64() as usize)) }
    /// [q] files of 11 bytes, 2 of them arbitrary, in up to 2 pieces, every limit up to 13
    fn c05_file2() { file::<2>(false) }
    /// [t] files of 13 bytes, 4 of them arbitrary, in up to 2 pieces, every limit up to 15
    fn c05_file4() { file::<4>(false) }
    /// [qt] files of 9 bytes in up to 2 pieces, every limit
    fn c05_file0() { file::<0>(true) }
    /// [q] every string of 3 bytes, every limit
    fn c05_arb3() { limit(gen::arb::<3>(), None) }
    /// [q] every string of 5 bytes, every limit
    fn c05_arb5() { limit(gen::arb::<5>(), None) }
    /// [t] every string of 7 bytes, every limit
    fn c05_arb7() { limit(gen::arb::<7>(), None) }
    /// [qt] the empty source, every limit
    fn c05_empty() { limit(String::new(), None) }
    /// [qt] several-byte characters, every limit
    fn c05_wide() { limit(model::format_cat(&["\u{e9}\u{2003}<a b=\"\u{1f600}\">", &sym_str::<3>(), "</a>"]), None) }
    /// [qt] malformed sources, every limit
    fn c05_bad() { limit(gen::lines::<2>(), None) }
    /// [qt] sequences of 2 tags, every length and depth limit
    fn c05_tags() { limit(gen::tags(2), Some(sym_u64() as usize)) }
    /// [qt] long sources around the limit
    fn c05_long() {
        let k = [63usize, 255, 1023, 4095][pick(4) as usize];
        let mut s = String::new();
        while s.len() < k { s.push('x'); }
        s.push_str(&sym_str::<2>());
        limit(s, None)
    }
}
