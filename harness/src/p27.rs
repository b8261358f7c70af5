//! C27: displaying writes the whole text, or reports that it could not.
#![allow(deprecated)]
use crate::{canon::*, gen, model::*, trees::*, vx::*};
use html5_fuser::select as sel;
use html5_fuser::template::InputError;
use html5_fuser::text::{Data, Identifier, Value};
use html5_fuser::{ParseOptions, Template};
use std::error::Error;
use std::fmt::{self, Display, Write};

/// Takes `left` bytes and then refuses: from then on, or only once.
struct Writer { got: Vec<u8>, left: usize, once: bool, refused: bool }
impl Write for Writer {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.refused {
            if !self.once { return Err(fmt::Error); }
            self.got.extend_from_slice(s.as_bytes());
            return Ok(());
        }
        if s.len() <= self.left {
            self.left -= s.len();
            self.got.extend_from_slice(s.as_bytes());
            return Ok(());
        }
        self.got.extend_from_slice(&s.as_bytes()[..self.left]);
        self.refused = true;
        Err(fmt::Error)
    }
}
/// The writer refuses after `left` bytes of a text that is `want` in full.
fn at<T: Display + ?Sized>(x: &T, want: &[u8], left: usize) {
    let mut w = Writer { got: vec![], left, once: pick(2) == 1, refused: false };
    let r = write!(w, "{}", x);
    if want.len() <= left {
        cover(2701);
        check(r.is_ok(), 2701, "displaying fails though the writer takes everything");
        check_eq(&w.got, want, 2702, "what is displayed is not the text");
    } else {
        cover(2702);
        check(r.is_err(), 2703, "displaying succeeds though the writer refused");
        check_eq(&w.got, &want[..left], 2704, "what is written before and after a refusal is not a prefix of the text");
    }
    out(&w.got);
}
/// The writer refuses anywhere in the text, or not at all.
fn all<T: Display + ?Sized>(x: &T, want: &str) {
    let n = want.len().min(250);
    at(x, want.as_bytes(), pick(n as u8 + 1) as usize);
}
fn itself<T: Display + ?Sized>(x: &T) { all(x, &x.to_string()) }

/// What is asked of the formatting does not reach the parts of a template.
fn flagged(t: &Template, want: &str) {
    let mut w = String::new();
    let r = match pick(9) {
        0 => write!(w, "{:7}", t),
        1 => write!(w, "{:>7}", t),
        2 => write!(w, "{:*^7}", t),
        3 => write!(w, "{:.0}", t),
        4 => write!(w, "{:.1}", t),
        5 => write!(w, "{:<5.2}", t),
        6 => write!(w, "{:#}", t),
        7 => write!(w, "{:07}", t),
        _ => write!(w, "{:+1$.2$}", t, pick(9) as usize, pick(4) as usize),
    };
    cover(2703);
    check(r.is_ok(), 2705, "displaying with a width or a precision fails");
    check_eq(w.as_bytes(), want.as_bytes(), 2706, "a width or a precision changes what a template displays");
    out(w.as_bytes());
}
fn flags(s: String) {
    match (Template::from_str(&s, opts()), tokens(&s, None)) { (Ok(t), Ok(k)) => flagged(&t, &render(&k)), _ => assume(false) }
}

fn flags_edited(f: Forest) {
    let k = pick(29);
    match parse(&src(&f)).transform(|h| h.select("a", move |e| edit(k, "a", e.into_boxed_element()))) { Ok(t) => flagged(&t, &t.to_string()), Err(_) => assume(false) }
}

/// An error or one of the errors that caused it.
fn chain(e: &dyn Error) {
    let mut c = Some(e);
    for _ in 0..pick(4) { c = c.and_then(|e| e.cause()); }
    match c { Some(e) => itself(e), None => assume(false) }
}

/// An accepted source; its rendering is that of the reference.
fn source(s: String) {
    let (t, k) = match (Template::from_str(&s, opts()), tokens(&s, None)) {
        (Ok(t), Ok(k)) => (t, k),
        // Which sources are accepted is for C02.
        _ => { assume(false); return }
    };
    all(&t, &render(&k));
}

harnesses! {
/// [qt] every accepted source of 4 bytes
fn c27_arb4() { source(gen::arb::<4>()) }
/// [t] every accepted source of 5 bytes
fn c27_arb5() { source(gen::arb::<5>()) }
/// [qt] every accepted tag `<aXXX></a>` of three free bytes
fn c27_tag() { source(gen::tag_body::<3>()) }
/// [qt] a free attribute value of two bytes, before another attribute
fn c27_value() { source(gen::attr_value::<2>()) }
/// [qt] two attributes with two free bytes in the values
fn c27_attrs() { source(gen::two_attrs::<2>()) }
/// [qt] comments of two free bytes
fn c27_comment() { source(gen::comment::<2>()) }
/// [qt] a doctype in any letter case, with and without white space
fn c27_doctype() { source(format_cat(&["<!", &gen::anycase("doc"), "type", gen::sym_gap(), &gen::anycase("ht"), "ml", ["", " "][pick(2) as usize], ">z"])) }
/// [q] a raw text element with two free bytes
fn c27_raw() { source(gen::raw_tag::<2>()) }
/// [t] a raw text element with three free bytes
fn c27_raw3() { source(gen::raw_tag::<3>()) }
/// [qt] every sequence of three tags, texts or comments
fn c27_tags() { source(gen::tags_mix(3)) }
/// [qt] trees of two nodes with ids, classes and attributes
fn c27_tree() { source(src(&forest(2, 2, Mark::Rich))) }
/// [t] trees of three nodes
fn c27_trees() { source(src(&forest(3, 3, Mark::Class))) }
/// [q] parts of up to 4096 bytes; the writer refuses at the first byte, somewhere before the 250th, or at the last byte
fn c27_sized() {
    let s = gen::sized();
    let (t, k) = match (Template::from_str(&s, opts()), tokens(&s, None)) { (Ok(t), Ok(k)) => (t, k), _ => { assume(false); return } };
    let want = render(&k);
    let n = want.len();
    at(&t, want.as_bytes(), [0, 1, n / 3, n / 2, n - n.min(12), n - n.min(7), n - 1, n][pick(8) as usize]);
}
/// [qt] a changed template: one of 29 edits of an element
fn c27_edited() {
    let f = forest(2, 2, Mark::Tag);
    let k = pick(29);
    match parse(&src(&f)).transform(|h| h.select("a", move |e| edit(k, "a", e.into_boxed_element()))) {
        // What the result is, is for the properties of the operations.
        Ok(t) => itself(&t),
        Err(_) => assume(false),
    }
}
/// [qt] every accepted source of 3 bytes, displayed with a width, a fill, a precision or another flag
fn c27_flags_arb() { flags(gen::arb::<3>()) }
/// [qt] every sequence of three tags, texts or comments, displayed with a flag
fn c27_flags_tags() { flags(gen::tags_mix(3)) }
/// [qt] a raw text element of a free byte, displayed with a flag
fn c27_flags_raw() { flags(gen::raw_tag::<1>()) }
/// [qt] trees of two nodes with ids, classes and attributes, displayed with a flag
fn c27_flags_tree() { flags(src(&forest(2, 2, Mark::Rich))) }
/// [q] a changed template: one of 29 edits of an element without content, displayed with a flag
fn c27_flags_edited() { flags_edited(forest(1, 1, Mark::Tag)) }
/// [t] a changed template: one of 29 edits of an element with or without content, displayed with a flag
fn c27_flags_edited2() { flags_edited(forest(2, 2, Mark::Tag)) }
/// [t] one of 29 edits of an element with an id, classes and attributes
fn c27_edited_rich() {
    let f = forest(2, 2, Mark::Rich);
    let k = pick(29);
    match parse(&src(&f)).transform(|h| h.select("a", move |e| edit(k, "a", e.into_boxed_element()))) { Ok(t) => itself(&t), Err(_) => assume(false) }
}
/// [t] encoded text, values and identifiers of four free bytes
fn c27_text4() {
    let s = sym_str::<4>();
    match pick(3) {
        0 => all(&Data::from_unencoded_str(&s), &encode(&s)),
        1 => all(&Value::from_unencoded_str(&s), &encode(&s)),
        _ => match s.parse::<Identifier>() { Ok(i) => all(&i, &s), Err(e) => itself(&e) },
    }
}
/// [qt] encoded text, values and identifiers of three free bytes
fn c27_text() {
    let s = sym_str::<3>();
    match pick(3) {
        0 => all(&Data::from_unencoded_str(&s), &encode(&s)),
        1 => all(&Value::from_unencoded_str(&s), &encode(&s)),
        _ => match s.parse::<Identifier>() { Ok(i) => all(&i, &s), Err(e) => itself(&e) },
    }
}
/// [qt] text of static storage, converted text, encoded references
fn c27_text_other() {
    let s = leak(sym_str::<1>());
    match pick(4) {
        0 => all(&Data::from_unencoded_static_str(s), &encode(s)),
        1 => all(&Value::from_unencoded_static_str(s), &encode(s)),
        2 => all(&Data::from(Value::from_unencoded_static_str(s)), &encode(s)),
        _ => all(&Value::from_unencoded_str("p<").as_encoded_ref(), "p&lt;"),
    }
}
/// [q] the error, and each of its causes, of every rejected source of 3 bytes
fn c27_error3() { match Template::from_str(&gen::arb::<3>(), opts()) { Ok(_) => assume(false), Err(e) => chain(&e) } }
/// [t] the error, and each of its causes, of every rejected source of 4 bytes
fn c27_error4() { match Template::from_str(&gen::arb::<4>(), opts()) { Ok(_) => assume(false), Err(e) => chain(&e) } }
/// [qt] the error, and each of its causes, of every rejected sequence of two tags
fn c27_error_tags() { match Template::from_str(&gen::tags(2), opts()) { Ok(_) => assume(false), Err(e) => chain(&e) } }
/// [qt] the error, and each of its causes, of sources over the length limit or the depth limit
fn c27_error_limit() {
    let o = ParseOptions::default().max_stack_depth(1).max_input_len(pick(20) as usize);
    match Template::from_str("<a><b></b></a>", o) { Ok(_) => assume(false), Err(e) => chain(&e) }
}
/// [qt] one error of every kind that content, a selector or a function may bring in
fn c27_error_stream() { chain(&made(pick(KINDS), [0, 7, 12345678][pick(3) as usize])) }
/// [qt] a number in a limit
fn c27_error_number() { itself(&InputError::LengthLimitExceeded { limit: [0, 9, 10, 255, 65536, usize::MAX][pick(6) as usize] }) }
/// [qt] the error, and each of its causes, of a selector of two free bytes, of three types
fn c27_error_selector() {
    let s = sym_str::<2>();
    match pick(3) {
        0 => match s.parse::<sel::Id>() { Err(e) => chain(&e), Ok(_) => assume(false) },
        1 => match s.parse::<sel::Tag>() { Err(e) => chain(&e), Ok(_) => assume(false) },
        _ => match s.parse::<sel::Class>() { Err(e) => chain(&e), Ok(_) => assume(false) },
    }
}
/// [qt] the error, and each of its causes, of a transform with a static selector of two free bytes
fn c27_error_static() {
    let s = leak(sym_str::<2>());
    match parse("<a/>").transform(|h| h.select(s, |e| e.remove())) { Err(e) => chain(&e), Ok(_) => assume(false) }
}
}
