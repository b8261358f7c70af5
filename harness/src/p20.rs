//! C20: loading a file is loading its text, however the reads come.
use crate::{canon::*, file::*, gen, model, vx::*};
use html5_fuser::template::{FileError, InputError};
use html5_fuser::{ParseOptions, Template};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

/// What loading must come to.
pub enum Want { Open(i32), Read(i32), Content(Vec<u8>) }

pub fn judge(path: &[u8], o: ParseOptions, limit: Option<usize>, want: Want, failing_after: Option<(usize, i32)>) {
    let p = Path::new(OsStr::from_bytes(path));
    let got = Template::from_file(p, o);
    let (opened, closed) = FILE.with(|f| { let f = f.borrow(); check_eq(&f.path, path, 2001, "another file is opened"); (f.opened, f.closed) });
    check(opened >= 1, 2002, "the file is not opened");
    if let Err(e) = &got {
        let of = match e { FileError::Open { path, .. } | FileError::Read { path, .. } | FileError::Input { path, .. } | FileError::Decode { path, .. } => path };
        check_eq(of.as_os_str().as_bytes(), path, 2003, "the error names another file");
    }
    let errno = |e: &std::io::Error| e.raw_os_error().unwrap_or(-1);
    match want {
        Want::Open(n) => {
            cover(2001);
            match &got { Err(FileError::Open { error, .. }) => check(errno(error) == n, 2004, "the open error carries another failure"), _ => check(false, 2005, "a failing open is not an open error") }
        }
        Want::Read(n) => {
            cover(2002);
            check(closed == 1, 2006, "the file is not closed after a failure");
            match &got {
                Err(FileError::Read { error, .. }) => check(errno(error) == n, 2007, "the read error carries another failure"),
                // What came before the failure may be too long already.
                Err(FileError::Input { error: InputError::LengthLimitExceeded { limit: l }, .. }) => check(failing_after.map_or(false, |(k, _)| limit.map_or(false, |m| k > m && *l == m)), 2008, "a failing read is a length error"),
                _ => check(false, 2009, "a failing read is not a read error"),
            }
        }
        Want::Content(b) => {
            check(closed == 1, 2010, "the file is not closed");
            if limit.map_or(false, |l| b.len() > l) {
                cover(2003);
                match &got { Err(FileError::Input { error: InputError::LengthLimitExceeded { limit: l }, .. }) => check(Some(*l) == limit, 2011, "the length error names another limit"), _ => check(false, 2012, "a file over the limit is not a length error") }
                return;
            }
            match std::str::from_utf8(&b) {
                Err(u) => {
                    cover(2004);
                    match &got {
                        Err(FileError::Decode { error, .. }) => check(*error == u, 2013, "the decoding error is another one than that of the whole content"),
                        _ => check(false, 2014, "content that is not UTF-8 is not a decoding error"),
                    }
                }
                Ok(s) => match (&got, Template::from_str(s, o)) {
                    (Ok(t), Ok(u)) => {
                        cover(2005);
                        check(*t == u, 2015, "the template of a file is not that of its text");
                        let r = t.to_string();
                        check_eq(r.as_bytes(), u.to_string().as_bytes(), 2016, "the template of a file renders differently from that of its text");
                        out(r.as_bytes());
                    }
                    (Err(FileError::Input { error, .. }), Err(e)) => {
                        cover(2006);
                        let (a, b) = (seen(error), seen(&e));
                        check_eq(&what_seen(&a), &what_seen(&b), 2017, "the input error of a file is not that of its text");
                        check_eq(&where_seen(&a), &where_seen(&b), 2018, "the input error of a file is at another place than that of its text");
                        out(&what_seen(&a));
                    }
                    (Ok(_), Err(_)) => check(false, 2019, "a file is accepted although its text is not"),
                    _ => check(false, 2020, "a file is refused although its text is not"),
                },
            }
        }
    }
}
const PATH: &[u8] = b"/vx-scripted/t";

/// Pieces of the content, cut at any of the given places.
pub fn pieces(b: &[u8], from: usize, to: usize) -> Vec<Op> {
    let mut o = vec![];
    let mut cur = vec![];
    for (i, c) in b.iter().enumerate() {
        if i >= from && i > 0 && i <= to && pick(2) == 1 { o.push(Op::Data(std::mem::replace(&mut cur, vec![]))) }
        cur.push(*c);
    }
    if !cur.is_empty() { o.push(Op::Data(cur)) }
    o
}
/// Arbitrary bytes in arbitrary pieces.
fn content<const N: usize>(front: &str, back: &str) {
    let mut b = front.as_bytes().to_vec();
    b.extend_from_slice(&sym::<N>());
    b.extend_from_slice(back.as_bytes());
    script(vec![], pieces(&b, front.len(), front.len() + N));
    judge(PATH, ParseOptions::default(), None, Want::Content(b), None)
}
/// As above with every length and nesting limit.
fn limited<const N: usize>(front: &str, back: &str) {
    let mut b = front.as_bytes().to_vec();
    b.extend_from_slice(&sym::<N>());
    b.extend_from_slice(back.as_bytes());
    script(vec![], pieces(&b, front.len(), front.len() + N));
    // Whether any larger limit is a limit at all, c20_endless and c20_failing decide.
    let n = pick(b.len() as u8 + 3) as usize;
    judge(PATH, ParseOptions::default().max_input_len(n).max_stack_depth(pick(3) as usize), Some(n), Want::Content(b), None)
}
/// Interruptions before, between and after the pieces.
fn interrupted(n: usize) {
    let b = model::format_cat(&["<p>", &sym_str::<2>(), "</p>"]).into_bytes();
    let mut ops = vec![];
    for (i, c) in b.iter().enumerate() {
        if i < n { for _ in 0..pick(3) { ops.push(Op::Fail(EINTR)) } }
        ops.push(Op::Data(vec![*c]));
    }
    for _ in 0..pick(2) { ops.push(Op::Fail(EINTR)) }
    let mut open = vec![];
    for _ in 0..pick(2) { open.push(EINTR) }
    script(open, ops);
    judge(PATH, ParseOptions::default(), None, Want::Content(b), None)
}
/// A failing open or read, with any error number but that of an interruption.
fn failing(n: usize) {
    let e = sym_u64() as u32 as i32;
    assume((e > 0) & (e != EINTR));
    let b = model::format_cat(&["<p>", &sym_str::<1>(), "</p"]).into_bytes();
    let k = pick(n as u8 + 2) as usize;
    let l = sym_u64() as usize;
    let o = ParseOptions::default().max_input_len(l);
    if k == 0 {
        let mut open = vec![];
        for _ in 0..pick(2) { open.push(EINTR) }
        open.push(e);
        script(open, vec![Op::Data(b)]);
        return judge(PATH, o, Some(l), Want::Open(e), None);
    }
    let k = k - 1;
    let mut ops = pieces(&b[..k], 0, k);
    if pick(2) == 1 { ops.push(Op::Fail(EINTR)) }
    ops.push(Op::Fail(e));
    ops.push(Op::Data(b[k..].to_vec()));
    script(vec![], ops);
    judge(PATH, o, Some(l), Want::Read(e), Some((k, e)))
}
/// Contents around and over the size of read buffers, with a hole at the seam.
fn large<const N: usize>() {
    let k = [8189usize, 8190, 8191, 8192, 4095, 16383][pick(6) as usize];
    let mut b = vec![];
    while b.len() < k { b.push(b'x') }
    b.extend_from_slice(&sym::<N>());
    b.extend_from_slice(b"<i>y</i>");
    let ops = if pick(2) == 0 { vec![Op::Data(b.clone())] } else { vec![Op::Data(b[..4000].to_vec()), Op::Data(b[4000..].to_vec())] };
    script(vec![], ops);
    judge(PATH, ParseOptions::default(), None, Want::Content(b), None)
}
/// A file without end is refused when there is a limit.
fn endless() {
    let n = sym_u64() as usize;
    assume(n < 12);
    script(vec![], vec![Op::Data(sym::<2>().to_vec()), Op::Endless]);
    match Template::from_file(Path::new(OsStr::from_bytes(PATH)), ParseOptions::default().max_input_len(n)) {
        Err(FileError::Input { error: InputError::LengthLimitExceeded { limit }, .. }) => check(limit == n, 2021, "the length error names another limit"),
        _ => check(false, 2022, "a file over the limit is not a length error"),
    }
    cover(2007);
}
/// Any path reaches the system, and the errors, unchanged; one that cannot is an open error.
fn paths<const N: usize>() {
    let mut p = PREFIX.to_vec();
    p.extend_from_slice(&sym::<N>());
    let e = if pick(2) == 0 { vec![] } else { vec![2] };
    let fails = !e.is_empty();
    let bad = p.iter().fold(false, |a, c| a | (*c == 0));
    if bad {
        script(e, vec![]);
        match Template::from_file(Path::new(OsStr::from_bytes(&p)), ParseOptions::default()) {
            Err(FileError::Open { path, error }) => {
                cover(2008);
                check_eq(path.as_os_str().as_bytes(), &p, 2023, "the error names another file");
                check(error.kind() == std::io::ErrorKind::InvalidInput, 2024, "an impossible path is another error");
            }
            _ => check(false, 2025, "an impossible path is not an open error"),
        }
        return;
    }
    script(e, vec![Op::Data(b"<".to_vec())]);
    judge(&p, ParseOptions::default(), None, if fails { Want::Open(2) } else { Want::Content(b"<".to_vec()) }, None);
}
/// Two loads in a row do not affect each other.
fn again() {
    let b = gen::tags(2).into_bytes();
    script(vec![], vec![Op::Data(b"<p".to_vec()), Op::Fail(5)]);
    judge(PATH, ParseOptions::default(), None, Want::Read(5), None);
    script(vec![], pieces(&b, b.len() - 3, b.len()));
    judge(PATH, ParseOptions::default(), None, Want::Content(b), None);
}

harnesses! {
    /// [qt] contents of about 64 KiB with 2 arbitrary bytes at the end of a read
    fn c20_huge2() {
        let k = [65534usize, 65535, 65536, 69999][pick(4) as usize];
        let mut b = vec![b'x'; k];
        b.extend_from_slice(&sym::<2>());
        b.extend_from_slice(b"<i>y</i>");
        let cut = [1, 8192, k + 1][pick(3) as usize];
        script(vec![], vec![Op::Data(b[..cut].to_vec()), Op::Data(b[cut..].to_vec())]);
        judge(PATH, ParseOptions::default(), None, Want::Content(b), None)
    }
    /// [q] every content of 4 bytes (UTF-8 or not), in every split into reads
    fn c20_content4() { content::<4>("", "") }
    /// [t] every content of 6 bytes
    fn c20_content6() { content::<6>("", "") }
    /// [q] 3 arbitrary bytes in a tag, in every split around them
    fn c20_tag3() { content::<3>("<a b=\"", "\">c</a>") }
    /// [t] 5 arbitrary bytes in a tag
    fn c20_tag5() { content::<5>("<a b=\"", "\"></a>") }
    /// [q] 2 arbitrary bytes between tags, every length limit up to 2 over the length, depth limits 0 to 2
    fn c20_limited2() { limited::<2>("<a>", "</a>") }
    /// [t] 4 arbitrary bytes between tags
    fn c20_limited4() { limited::<4>("<a>", "</a>") }
    /// [q] content read bytewise with up to 2 interruptions before each of the first 3 bytes, at the end, and of the open
    fn c20_interrupted3() { interrupted(3) }
    /// [t] interruptions before each of 7 bytes
    fn c20_interrupted7() { interrupted(7) }
    /// [q] every error number, at the open or after up to 3 bytes in every split, every length limit
    fn c20_failing3() { failing(3) }
    /// [t] error after up to 6 bytes
    fn c20_failing6() { failing(6) }
    /// [q] contents of 4 to 16 KiB with 2 arbitrary bytes around buffer boundaries
    fn c20_large2() { large::<2>() }
    /// [t] contents of 4 to 16 KiB with 4 arbitrary bytes around buffer boundaries
    fn c20_large4() { large::<4>() }
    /// [qt] a file without end, every length limit below 12
    fn c20_endless() { endless() }
    /// [qt] every path of 3 bytes after a prefix
    fn c20_paths3() { paths::<3>() }
    /// [qt] a load after a failed one
    fn c20_again() { again() }
}
