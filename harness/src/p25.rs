//! C25: template equality is equality of what the templates contain.
use crate::{canon::*, gen, model::*, trees::*, vx::*};
use html5_fuser::Template;
use std::rc::Rc;

fn sym_ascii_byte() -> u8 { let b = sym_u8(); assume(b < 0x80); b }
fn named(a: &str, x: &Attrs, b: &str, y: &Attrs) -> bool {
    if x.len() != y.len() { return false; }
    let mut r = ieq(a, b);
    for ((k, v), (l, w)) in x.iter().zip(y) {
        r &= ieq(k, l) & match (v, w) { (None, None) => true, (Some(v), Some(w)) => same(v.as_bytes(), w.as_bytes()), _ => false };
    }
    r
}
/// Whether the two say the same; nothing said about two doctypes of different spelling.
fn agree(x: &[Tok], y: &[Tok]) -> bool {
    if x.len() != y.len() { return false; }
    let mut r = true;
    for (a, b) in x.iter().zip(y) {
        r &= match (a, b) {
            (Tok::Doctype(a), Tok::Doctype(b)) => { assume(same(a.as_bytes(), b.as_bytes())); true }
            (Tok::Comment(a), Tok::Comment(b)) | (Tok::Text(a), Tok::Text(b)) | (Tok::Raw(a), Tok::Raw(b)) => same(a.as_bytes(), b.as_bytes()),
            (Tok::Open(a, x), Tok::Open(b, y)) | (Tok::Solo(a, x), Tok::Solo(b, y)) | (Tok::Void(a, x), Tok::Void(b, y)) => named(a, x, b, y),
            (Tok::Close(a), Tok::Close(b)) => ieq(a, b),
            _ => false,
        };
    }
    r
}
fn read(s: &str) -> Option<(Template, Vec<Tok>)> {
    match (Template::from_str(s, opts()), tokens(s, None)) {
        (Ok(t), Ok(k)) => Some((t, k)),
        // Which sources are accepted is for C02.
        _ => { assume(false); None }
    }
}
/// Two templates compare as their contents do, in both directions, also as copies.
fn compare(a: String, b: String) {
    let (x, y) = match (read(&a), read(&b)) { (Some(x), Some(y)) => (x, y), _ => return };
    let want = agree(&x.1, &y.1);
    let eq = x.0 == y.0;
    cover(2501);
    check(eq == want, 2501, "equality of templates is not equality of what they contain");
    check((y.0 == x.0) == eq, 2502, "equality of templates depends on the order");
    check((x.0 != y.0) != eq, 2503, "templates are both equal and unequal");
    let c = y.0.clone();
    check((x.0 == c) == eq, 2504, "a clone compares differently");
    check(c == y.0, 2505, "a clone is not equal to its template");
    if eq { cover(2502) } else { cover(2503) }
    out(&[eq as u8]);
}
/// A template compares the same however it came to be.
fn ways(s: String) {
    let (t, k) = match read(&s) { Some(x) => x, None => return };
    cover(2504);
    check(t == t.clone(), 2511, "a clone is not equal to its template");
    check(*Rc::new(t.clone()) == t, 2512, "a shared template is not equal to its origin");
    match read(&render(&k)) { Some((u, _)) => check(u == t, 2513, "a template with other white space in its tags is not equal"), None => () }
    match t.transform(|h| h) { Ok(u) => check(u == t, 2514, "an unchanged template is not equal to its origin"), Err(_) => check(false, 2515, "a transform that does nothing fails") }
    match Template::rebuilt(&t) { Some(u) => check(u == t, 2516, "a template put together from its contents is not equal"), None => check(false, 2517, "inserting a template fails") }
    // Among other things, so that its texts lie elsewhere in the source.
    let long = format_cat(&["<x>0123456789", "</x>", &s]);
    match (read(&long), read(&long)) { (Some((u, _)), Some((v, _))) => { check(u == v, 2518, "two readings of a source are not equal"); check(k.is_empty() || u != t, 2519, "different templates are equal") } _ => () }
    let rest = parse(&long).transform(|h| h.select("x", |e| e.remove()));
    match rest { Ok(u) => check(u == t || clash(&k), 2520, "what is left of a longer template is not equal to the same template"), Err(_) => check(false, 2521, "a transform fails") }
    out(s.as_bytes());
}
/// An element x of its own.
fn clash(k: &[Tok]) -> bool { k.iter().any(|t| match t { Tok::Open(n, _) | Tok::Solo(n, _) | Tok::Void(n, _) => ieq(n, "x"), _ => false }) }
trait Rebuilt: Sized { fn rebuilt(t: &Self) -> Option<Self>; }
impl Rebuilt for Template {
    fn rebuilt(t: &Template) -> Option<Template> { parse("<a/>").transform(|h| h.replace(t)).ok() }
}

/// The same tag written with other gaps and other letter case.
fn spelled() {
    let gap = || [" ", "\n", "  "][pick(3) as usize];
    let (n, k) = (gen::anycase("pq"), gen::anycase("k"));
    let a = format_cat(&["<pq", " ", "k=\"v\"", " ", "m>t</pq>"]);
    let b = format_cat(&["<", &n, gap(), &k, gen::sym_gap(), "=", "\"v\"", gap(), "m", "", ">t</", &n, ">"]);
    compare(a, b);
}
/// Attribute lists of three: names and presence of values symbolic, one value symbolic.
fn attrs() -> String {
    let mut s = "<p".to_string();
    for i in 0..2 {
        match pick(4) {
            0 => (),
            1 => s = format_cat(&[&s, " ", &letter_str()]),
            2 => s = format_cat(&[&s, " ", &letter_str(), "=\"\""]),
            _ => s = format_cat(&[&s, if i == 0 { " k=\"" } else { " m=\"" }, &sym_ascii::<1>(|b| b != b'"'), "\""]),
        }
    }
    format_cat(&[&s, [">", "/>"][pick(2) as usize]])
}
fn closed(s: String) -> String { if s.ends_with("/>") { s } else { format_cat(&[&s, "</p>"]) } }

harnesses! {
    /// [qt] 14 parts of a source at 11 lengths up to 256, two symbolic bytes compared
    fn c25_grown() {
        let (n, k) = (gen::SIZES[pick(11) as usize], pick(gen::GROWN));
        compare(gen::grown_of(n, k, byte_str(sym_ascii_byte())), gen::grown_of(n, k, byte_str(sym_ascii_byte())))
    }
    /// [qt] the same source at two of 4 lengths
    fn c25_lengths() {
        let (n, m, k) = ([255, 256, 511, 512][pick(4) as usize], [255, 256, 511, 512][pick(4) as usize], pick(gen::GROWN));
        compare(gen::grown_of(n, k, "x".into()), gen::grown_of(m, k, "x".into()))
    }
    /// [qt] two texts of over 65535 bytes, a symbolic letter at the end of each
    fn c25_huge() {
        let (a, b) = (letter_str(), letter_str());
        let q = gen::times("q", 65540);
        let (t, u) = (parse(&format_cat(&[&q, &a])), parse(&format_cat(&[&q, &b])));
        check((t == u) == (a == b), 2522, "long templates with different texts are equal, or with the same text different");
    }
    /// [q] every two sources of 3 bytes and 2 bytes
    fn c25_arb3_2() { compare(gen::arb::<3>(), gen::arb::<2>()) }
    /// [q] every two sources of 3 bytes
    fn c25_arb3_3() { compare(gen::arb::<3>(), gen::arb::<3>()) }
    /// [t] every two sources of 4 bytes
    fn c25_arb4_4() { compare(gen::arb::<4>(), gen::arb::<4>()) }
    /// [q] every two tags with 3 arbitrary bytes after the name
    fn c25_tag_body3() { compare(gen::tag_body::<3>(), gen::tag_body::<3>()) }
    /// [t] every two tags with 4 arbitrary bytes after the name
    fn c25_tag_body4() { compare(gen::tag_body::<4>(), gen::tag_body::<4>()) }
    /// [q] attribute values of 2 and 2 bytes
    fn c25_value2() { compare(gen::attr_value::<2>(), gen::attr_value::<2>()) }
    /// [t] attribute values of 3 and 4 bytes
    fn c25_value3_4() { compare(gen::attr_value::<3>(), gen::attr_value::<4>()) }
    /// [q] attribute names of 2 bytes
    fn c25_name2() { compare(gen::attr_name::<2>(), gen::attr_name::<2>()) }
    /// [q] long texts, stored apart from the source, with 1 arbitrary byte in text and value
    fn c25_long1() { compare(gen::long_text::<1>(), gen::long_text::<1>()) }
    /// [q] comments of 2 bytes
    fn c25_comment2() { compare(gen::comment::<2>(), gen::comment::<2>()) }
    /// [q] raw texts of 2 bytes
    fn c25_raw2() { compare(gen::raw_tag::<2>(), gen::raw_tag::<1>()) }
    /// [q] two runs of 2 tags
    fn c25_tags2() { compare(gen::tags(2), gen::tags(2)) }
    /// [t] two runs of 4 tags
    fn c25_tags4() { compare(gen::tags(4), gen::tags(4)) }
    /// [q] two lists of up to 2 attributes, with, without and with empty value, on a paired or self-closed element
    fn c25_attrs() { compare(closed(attrs()), closed(attrs())) }
    /// [q] one tag in other spacing and letter case
    fn c25_spelled() { spelled() }
    /// [q] two trees of 2 nodes
    fn c25_trees2() { compare(show(&forest(2, 2, Mark::Tag)), show(&forest(2, 2, Mark::Tag))) }
    /// [t] two trees of 3 nodes
    fn c25_trees3() { compare(show(&forest(3, 3, Mark::Tag)), show(&forest(3, 3, Mark::Tag))) }
    /// [q] sources of 4 bytes, built and read in 7 ways
    fn c25_ways4() { ways(gen::arb::<4>()) }
    /// [t] sources of 6 bytes
    fn c25_ways6() { ways(gen::arb::<6>()) }
    /// [q] tags with 3 arbitrary bytes after the name
    fn c25_ways_tag3() { ways(gen::tag_body::<3>()) }
    /// [t] tags with 6 arbitrary bytes after the name
    fn c25_ways_tag6() { ways(gen::tag_body::<6>()) }
    /// [q] long texts
    fn c25_ways_long1() { ways(gen::long_text::<1>()) }
    /// [q] raw texts of 2 bytes
    fn c25_ways_raw2() { ways(gen::raw_tag::<2>()) }
}
