//! C21: messages and causes of errors.
#![allow(deprecated)]
use crate::{canon::*, file::*, gen, ident::*, model::*, vx::*};
use html5_fuser::event::{AssertionError, MalformedReason, StreamError};
use html5_fuser::select::{self, Class, ClassError, Classes, ClassesError, Id, IdError, StaticError, Tag, TagError};
use html5_fuser::template::{FileError, InputError};
use html5_fuser::text::{Identifier, IdentifierError};
use html5_fuser::{ParseOptions, Template};
use std::error::Error;
use std::path::Path;

const PARSE: &str = "Unable to parse input into HTML5 stream";

/// The messages of an error and everything it is caused by.
fn chain(e: &dyn Error) -> Vec<String> {
    let mut o = vec![e.to_string()];
    let mut c = e.cause();
    while let Some(x) = c {
        o.push(x.to_string());
        if o.len() > 8 { break; }
        c = x.cause();
    }
    o
}
fn expect(e: &dyn Error, want: &[String], code: u32) {
    let got = chain(e);
    check(got.len() == want.len(), code, "the chain of causes has another length");
    for (g, w) in got.iter().zip(want) {
        check_eq(g.as_bytes(), w.as_bytes(), code + 1, "the message is another one");
        out(g.as_bytes());
    }
}
fn num(mut n: usize) -> String {
    let mut d = vec![];
    loop { d.push(b'0' + (n % 10) as u8); n /= 10; if n == 0 { break } }
    d.reverse();
    String::from_utf8(d).unwrap()
}
fn ident_text(f: (u8, char)) -> String {
    let esc: String = f.1.escape_default().collect();
    match f.0 {
        1 => "Value is empty".into(),
        2 => "Identifier contains non-ASCII characters".into(),
        3 => format_cat(&["Identifier contains whitespace character '", &esc, "'"]),
        _ => format_cat(&["Identifier contains forbidden character '", &esc, "'"]),
    }
}
/// What a parse error must say.
fn parse_text(src: &str, b: &Bad) -> Vec<String> {
    let at: Vec<String> = b.at.iter().map(|a| { let (l, c) = line_col(src, *a); format_cat(&["line ", &num(l), " column ", &num(c), " (byte offset ", &num(*a), ")"]) }).collect();
    let n = |i: usize| b.names[i].as_str();
    let one = |a: &str| format_cat(&[a, " at ", &at[0]]);
    let tag = |a: &str| format_cat(&[a, " '", n(0), "' at ", &at[0]]);
    let m = match b.kind {
        E_DOCTYPE => tag("Unsupported doctype"),
        E_UNCLOSED_DOCTYPE => one("Unclosed doctype directive"),
        E_UNCLOSED_COMMENT => one("Unclosed comment directive"),
        E_OPEN_END => tag("Unfinished opening tag"),
        E_CLOSE_END => tag("Unfinished closing tag"),
        E_OPEN_NAME => one("Expected an identifier for opening tag"),
        E_CLOSE_NAME => one("Expected an identifier for closing tag"),
        E_OPEN_BAD => one("Invalid opening tag identifier"),
        E_CLOSE_BAD => one("Invalid closing tag identifier"),
        E_ATTR_BAD => one("Invalid attribute identifier"),
        E_VALUE_QUOTE => format_cat(&["Invalid attribute value for '", n(0), ".", n(1), "' at ", &at[0]]),
        E_VALUE_END => format_cat(&["Unclosed attribute value for '", n(0), ".", n(1), "' at ", &at[0]]),
        E_INPUT => one("Unexpected input"),
        E_MISSING => {
            let mut o = format_cat(&["Unclosed '", n(0), "' tag starting at ", &at[0]]);
            for i in 1..b.names.len() { o = format_cat(&[&o, if i == 1 { " (also unclosed are: " } else { "," }, "'", n(i), "'"]); }
            if b.names.len() > 1 { o.push(')') }
            o
        }
        E_DEPTH => format_cat(&["Stack limit (", &num(b.num), ") exceeded by tag '", n(0), "' at ", &at[0]]),
        E_STRAY => tag("Unexpected closing tag"),
        _ => format_cat(&["Closing tag '", n(1), "' at ", &at[1], " does not match opening tag '", n(0), "' at ", &at[0]]),
    };
    let mut o = vec![m];
    if b.kind == E_OPEN_BAD || b.kind == E_CLOSE_BAD || b.kind == E_ATTR_BAD {
        let f = fault(word_at(src, b.at[0]));
        // Fine as identifier, but not as start of a tag.
        o.push(ident_text(if f.0 == 0 { (4, '!') } else { f }));
    }
    o
}
fn parse_errors(src: String, depth: Option<usize>) {
    let mut o = ParseOptions::default();
    if let Some(d) = depth { o = o.max_stack_depth(d); }
    let (e, b) = match (Template::from_str(&src, o), tokens(&src, depth)) {
        (Ok(_), Ok(_)) => return,
        (Err(e), Err(b)) => (e, b),
        _ => return check(false, 2101, "a source is wrongly accepted or rejected"),
    };
    cover(2101);
    let mut want = vec![PARSE.to_string()];
    want.extend(parse_text(&src, &b));
    expect(&e, &want, 2102);
    // As part of a transform.
    cover(2102);
    let s = StreamError::from(e);
    want.insert(0, "Input error for inserted content stream".into());
    expect(&s, &want, 2104);
}
/// Many tags left open, with long names.
fn unclosed_many() {
    let n = [5, 9, 17, 33, 65, 129][pick(6) as usize];
    let q = gen::times("q", [0, 20, 70][pick(3) as usize]);
    let s: String = (0..n).map(|i| format_cat(&["<a", &i.to_string(), &q, ">"])).collect();
    parse_errors(format_cat(&[&s, "<", &letter_str(), ">"]), None);
}
/// Tags left open, in any number.
fn unclosed(n: usize) {
    let mut s = String::new();
    for _ in 0..pick(n as u8 + 1) { s.push_str("\n<"); s.push_str(&letter_str()); s.push('>'); }
    s.push_str(["", "</a>", "x<br>", "<b></b>"][pick(4) as usize]);
    parse_errors(s, [None, Some(2)][pick(2) as usize]);
}
fn value_errors<const N: usize>() {
    parse_errors(format_cat(&["<", &letter_str(), " ", &letter_str(), "=", &sym_str::<N>(), ">"]), None)
}

fn limits() {
    let ns = [0usize, 1, 9, 10, 99, 100, 101, 999_999, 1 << 32, usize::MAX - 1];
    let n = ns[pick(10) as usize];
    let e = InputError::LengthLimitExceeded { limit: n };
    let want = format_cat(&["Input length limit (", &num(n), ") was exceeded"]);
    expect(&e, &[want], 2111);
    let m = sym_u8() as usize;
    assume(m < 100);
    let (src, depth) = (["xx", "", "<a></a>"][pick(3) as usize], pick(2));
    match Template::from_str(src, ParseOptions::default().max_input_len(m).max_stack_depth(depth as usize)) {
        Ok(_) => check((m >= src.len()) & (depth > 0 || src.len() < 3), 2113, "a limit is not applied"),
        Err(e) => {
            cover(2103);
            if src.len() > m { expect(&e, &[format_cat(&["Input length limit (", &num(conc(m as u64) as usize), ") was exceeded"])], 2114) }
            else { expect(&e, &[PARSE.to_string(), "Stack limit (0) exceeded by tag 'a' at line 1 column 1 (byte offset 0)".to_string()], 2116) }
        }
    }
}

fn file_errors<const N: usize>() {
    let (k, inserted) = (pick(4), pick(2) == 1);
    let path = ["/vx-scripted/a", "/vx-scripted/'q' b"][pick(2) as usize];
    let bytes = sym::<N>().to_vec();
    let errno = [2i32, 13, 5][pick(3) as usize];
    let mut o = ParseOptions::default();
    match k {
        0 => script(vec![errno], vec![]),
        1 => script(vec![], vec![Op::Data(bytes.clone()), Op::Fail(errno)]),
        2 => { script(vec![], vec![Op::Data(bytes.clone())]); assume(errno == 2) }
        _ => { o = o.max_input_len(N - 1); script(vec![], vec![Op::Data(bytes.clone())]); assume(errno == 2) }
    }
    let e = match Template::from_file(Path::new(path), o) { Ok(_) => return, Err(e) => e };
    cover(2104);
    let cause = ["failure (os error 2)", "failure (os error 13)", "failure (os error 5)"][match errno { 2 => 0, 13 => 1, _ => 2 }].to_string();
    let (what, causes) = match k {
        0 => ("open", vec![cause]),
        1 => ("read", vec![cause]),
        2 => match std::str::from_utf8(&bytes) {
            Err(u) => ("decode", vec![u.to_string()]),
            Ok(s) => match tokens(s, None) {
                Err(b) => { let mut v = vec![PARSE.to_string()]; v.extend(parse_text(s, &b)); ("process", v) }
                Ok(_) => return check(false, 2121, "a well-formed file is rejected"),
            },
        },
        _ => ("process", vec![format_cat(&["Input length limit (", &num(N - 1), ") was exceeded"])]),
    };
    let mut want = vec![format_cat(&["Unable to ", what, " file '", path, "'"])];
    want.extend(causes);
    if inserted {
        want.insert(0, "Input error for inserted file content stream".into());
        expect(&StreamError::from(e), &want, 2122);
    } else {
        expect(&e, &want, 2124);
    }
}

/// Selector and identifier errors on their own and as errors of transforms.
fn names<const N: usize>() {
    let s = leak(sym_str::<N>());
    let f = fault(s);
    if f.0 == 0 { return; }
    cover(2105);
    let text = ident_text(f);
    let plain = "Invalid element selector".to_string();
    let two = |a: &str| vec![a.to_string(), text.clone()];
    let t = parse("<p></p>");
    let run = |r: Result<Template, StreamError>| -> StreamError { match r { Err(e) => e, Ok(_) => { check(false, 2131, "an invalid selector succeeds"); unreachable!() } } };
    match pick(8) {
        0 => { let e = s.parse::<Identifier>().unwrap_err(); expect(&e, &[text.clone()], 2132); expect(&run(t.transform(|h| h.select("p", |e| e.set_empty_attribute(s)))), &two("Invalid attribute identifier"), 2134) }
        1 => {
            let want = two("Invalid identifier for tag name selector");
            expect(&s.parse::<Tag>().unwrap_err(), &want, 2136);
            let mut w = want; w.insert(0, plain);
            expect(&run(t.transform(|h| h.select(s.parse::<Tag>(), |e| e))), &w, 2138);
        }
        2 => {
            let want = two("Invalid identifier for id selector");
            expect(&s.parse::<Id>().unwrap_err(), &want, 2140);
            let mut w = want; w.insert(0, plain);
            expect(&run(t.transform(|h| h.select(s.parse::<Id>(), |e| e))), &w, 2142);
        }
        3 => {
            let want = two("Invalid identifier for class selector");
            expect(&s.parse::<Class>().unwrap_err(), &want, 2144);
            let mut w = want; w.insert(0, plain);
            expect(&run(t.transform(|h| h.select(s.parse::<Class>(), |e| e))), &w, 2146);
        }
        4 => {
            let i = pick(12) as usize;
            let list = || (0..12).map(move |k| if k == i { s } else { "c" });
            let want = two(&format_cat(&["Invalid identifier for class selector at index ", &num(i)]));
            expect(&Classes::from_str_iterator(list()).unwrap_err(), &want, 2148);
            let mut w = want; w.insert(0, "Invalid classes selector".into()); w.insert(0, plain);
            expect(&run(t.transform(|h| h.select(Classes::from_str_iterator(list()), |e| e))), &w, 2150);
        }
        5 => {
            // In a static selector the name must not contain its separators.
            for b in s.bytes() { assume((b != b'.') & (b != b'#')); }
            let i = pick(12) as usize;
            let mut st = String::from("q");
            for k in 0..12 { st.push('.'); st.push_str(if k == i { s } else { "c" }); }
            let st = leak(st);
            let want = vec!["Invalid static str selector".to_string(), format_cat(&["Invalid identifier for class (index ", &num(i), ") in static selector"]), text.clone()];
            expect(&run(t.transform(|h| h.select(st, |e| e))), &want, 2152);
        }
        6 => {
            for b in s.bytes() { assume((b != b'.') & (b != b'#')); }
            let st = leak(format_cat(&[["", "q"][pick(2) as usize], "#", s, [".c", ""][pick(2) as usize]]));
            let want = vec!["Invalid static str selector".to_string(), "Invalid identifier for id in static selector".to_string(), text.clone()];
            expect(&run(t.transform(|h| h.select(st, |e| e))), &want, 2154);
        }
        _ => {
            for b in s.bytes() { assume((b != b'.') & (b != b'#')); }
            if s.is_empty() {
                let want = vec!["Invalid static str selector".to_string(), "Empty static selector matches everything".to_string()];
                return expect(&run(t.transform(|h| h.select(s, |e| e))), &want, 2156);
            }
            let st = leak(format_cat(&[s, ["", "#q", ".c"][pick(3) as usize]]));
            let want = vec!["Invalid static str selector".to_string(), "Invalid identifier for tag name in static selector".to_string(), text.clone()];
            expect(&run(t.transform(|h| h.select(st, |e| e))), &want, 2158);
        }
    }
}
/// Errors put together by hand: every variant leads to what it holds.
fn built() {
    let id = || IdentifierError::Forbidden { forbidden: ['=', '\'', '"', ';'][pick(4) as usize] };
    let tag: Identifier = byte_str(letter()).parse().unwrap();
    let name = tag.to_string();
    cover(2106);
    match pick(8) {
        0 => { let i = id(); let want = vec!["Invalid element selector".to_string(), "Invalid identifier for id selector".to_string(), ident_text(fault_of(&i))]; expect(&StreamError::from(IdError::Identifier { error: i }), &want, 2161) }
        1 => { let i = id(); let want = vec!["Invalid element selector".to_string(), "Invalid identifier for tag name selector".to_string(), ident_text(fault_of(&i))]; expect(&StreamError::from(TagError::Identifier { error: i }), &want, 2163) }
        2 => { let i = id(); let want = vec!["Invalid element selector".to_string(), "Invalid identifier for class selector".to_string(), ident_text(fault_of(&i))]; expect(&StreamError::from(ClassError::Identifier { error: i }), &want, 2165) }
        3 => expect(&StreamError::from(ClassesError::Empty), &["Invalid element selector".to_string(), "Invalid classes selector".to_string(), "List of selected classes is empty".to_string()], 2167),
        4 => { let i = id(); let want = vec!["Invalid static str selector".to_string(), "Invalid identifier for id in static selector".to_string(), ident_text(fault_of(&i))]; expect(&StreamError::from(StaticError::Id { error: i }), &want, 2169) }
        5 => {
            let e = StreamError::Assertion { error: AssertionError::Malformed { error: MalformedReason::UnexpectedClosingTag { tag } } };
            expect(&e, &["An internal invariant was not upheld".to_string(), "Malformed event stream".to_string(), format_cat(&["Unexpected closing tag for '", &name, "'"])], 2171)
        }
        6 => {
            let e = StreamError::Assertion { error: AssertionError::Malformed { error: MalformedReason::ExpectedOpeningTag { event: None } } };
            expect(&e, &["An internal invariant was not upheld".to_string(), "Malformed event stream".to_string(), "Expected opening tag, found end of input".to_string()], 2173)
        }
        _ => {
            let e = StreamError::Assertion { error: AssertionError::Malformed { error: MalformedReason::ExpectedClosingTag { event: None, tag } } };
            expect(&e, &["An internal invariant was not upheld".to_string(), "Malformed event stream".to_string(), format_cat(&["Expected closing tag for ", &name, ", found end of input"])], 2175)
        }
    }
    let _: Option<select::Error> = None;
    let _: Option<FileError> = None;
}

harnesses! {
    /// [qt] 12 parts of a source made of up to 160 characters of 2 to 4 bytes at every alignment, with a symbolic letter
    fn c21_wide() { parse_errors(gen::wide(), None) }
    /// [qt] 14 parts of a source at 11 lengths up to 256, with a symbolic byte
    fn c21_grown() { parse_errors(gen::grown(), None) }
    /// [q] every source of 4 bytes
    fn c21_arb4() { parse_errors(gen::arb::<4>(), None) }
    /// [t] every source of 7 bytes
    fn c21_arb7() { parse_errors(gen::arb::<7>(), None) }
    /// [q] an element with an arbitrary rest of tag of 3 bytes
    fn c21_tag_body3() { parse_errors(gen::tag_body::<3>(), None) }
    /// [t] an element with an arbitrary rest of tag of 5 bytes
    fn c21_tag_body5() { parse_errors(gen::tag_body::<5>(), None) }
    /// [q] attributes with symbolic names and 2 arbitrary bytes as value
    fn c21_value2() { value_errors::<2>() }
    /// [t] attributes with symbolic names and 4 arbitrary bytes as value
    fn c21_value4() { value_errors::<4>() }
    /// [q] 2 arbitrary bytes in a doctype
    fn c21_doctype2() { parse_errors(gen::doctype_content::<2>(), None) }
    /// [t] 4 arbitrary bytes in a doctype
    fn c21_doctype4() { parse_errors(gen::doctype_content::<4>(), None) }
    /// [q] 3 arbitrary bytes in a closing tag
    fn c21_close_tag3() { parse_errors(gen::close_tag::<3>(), None) }
    /// [t] 5 arbitrary bytes in a closing tag
    fn c21_close_tag5() { parse_errors(gen::close_tag::<5>(), None) }
    /// [q] 16 kinds of errors behind lines with 1 arbitrary byte
    fn c21_lines1() { parse_errors(gen::lines::<1>(), None) }
    /// [t] 16 kinds of errors behind lines with 3 arbitrary bytes
    fn c21_lines3() { parse_errors(gen::lines::<3>(), None) }
    /// [q] runs of 3 tags with symbolic names, depth limit 1
    fn c21_tags3() { parse_errors(gen::tags(3), Some(1)) }
    /// [t] runs of 5 tags with symbolic names, depth limit 2
    fn c21_tags5() { parse_errors(gen::tags(5), Some(2)) }
    /// [q] up to 3 tags left open
    fn c21_unclosed3() { unclosed(3) }
    /// [qt] up to 130 tags with long names left open
    fn c21_unclosed_many() { unclosed_many() }
    /// [t] up to 12 tags left open
    fn c21_unclosed12() { unclosed(12) }
    /// [qt] length limits: 10 fixed ones and every one below 100; depth limits
    fn c21_limits() { limits() }
    /// [q] file errors of every kind, 2 arbitrary bytes of content, 3 failures, alone and as error of a transform
    fn c21_files2() { file_errors::<2>() }
    /// [t] file errors of every kind, 4 arbitrary bytes of content
    fn c21_files4() { file_errors::<4>() }
    /// [q] every name of 2 bytes in 8 kinds of selectors, up to the 12th class
    fn c21_names2() { names::<2>() }
    /// [t] every name of 4 bytes in 8 kinds of selectors
    fn c21_names4() { names::<4>() }
    /// [qt] the empty name
    fn c21_names0() { names::<0>() }
    /// [qt] errors put together by hand
    fn c21_built() { built() }
}
