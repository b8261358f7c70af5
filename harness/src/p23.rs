//! C23: inserted content contributes its own rendering, complete and once per insertion.
use crate::{canon::*, gen, model::*, trees::*, vx::*};
use html5_fuser::event::{IntoStream, Stream, StreamError};
use html5_fuser::template::{FileError, InputError};
use html5_fuser::text::{Data, Identifier, IdentifierError, IntoIdentifier, IntoValue, Value};
use html5_fuser::Template;
use std::cell::RefCell;
use std::rc::Rc;

type Outcome = Result<Template, StreamError>;

pub const PLACES: u8 = 21;
const TARGETS: [&str; 3] = ["p", "br", "q"];
fn document() -> Forest {
    let mut p = el("p", Form::Pair);
    p.attrs.push(("a".into(), Some("1".into())));
    p.kids = vec![leaf("y"), Node::El(el("i", Form::Solo))];
    vec![leaf("x"), Node::El(p), Node::El(el("br", Form::Void)), leaf("z"), Node::El(el("q", Form::Solo))]
}
/// The content in one of 21 places: the stream's three, and six of each of a paired, a void and a self-closed element.
fn place<C: IntoStream>(t: &Template, k: u8, c: C) -> Outcome {
    if k < 3 { return match k { 0 => t.transform(|h| h.append(c)), 1 => t.transform(|h| h.prepend(c)), _ => t.transform(|h| h.replace(c)) } }
    let s = TARGETS[(k as usize - 3) / 6];
    match (k - 3) % 6 {
        0 => t.transform(|h| h.select_once(s, |e| e.append(c))),
        1 => t.transform(|h| h.select_once(s, |e| e.prepend(c))),
        2 => t.transform(|h| h.select_once(s, |e| e.replace(c))),
        3 => t.transform(|h| h.select_once(s, |e| e.append_contents(c))),
        4 => t.transform(|h| h.select_once(s, |e| e.prepend_contents(c))),
        _ => t.transform(|h| h.select_once(s, |e| e.replace_contents(c))),
    }
}
fn place_ref(f: Forest, k: u8, c: &str) -> Forest {
    let at = |mut f: Forest, end: bool| { if end { f.push(leaf(c)) } else { f.insert(0, leaf(c)) } f };
    if k < 3 { return match k { 0 => at(f, true), 1 => at(f, false), _ => vec![leaf(c)] } }
    let s = TARGETS[(k as usize - 3) / 6];
    select_once(f, &|e| ieq(&e.name, s), &mut |e| match (k - 3) % 6 {
        0 => at(vec![Node::El(e)], true),
        1 => at(vec![Node::El(e)], false),
        2 => vec![leaf(c)],
        3 => vec![Node::El(e.contents(|f| at(f, true)))],
        4 => vec![Node::El(e.contents(|f| at(f, false)))],
        _ => vec![Node::El(e.contents(|_| vec![leaf(c)]))],
    })
}
fn shows(r: Outcome, want: &str, code: u32) -> Option<Template> {
    match r {
        Ok(r) => { let s = r.to_string(); check_eq(s.as_bytes(), want.as_bytes(), code, "inserted content is not just its own rendering"); out(s.as_bytes()); Some(r) }
        Err(_) => { check(false, code + 1, "inserting content fails"); None }
    }
}

// ---- texts

const TEXTS: u8 = 13;
fn text_as(t: &Template, place_at: u8, kind: u8, s: String) -> Outcome {
    let fixed = leak(s.clone());
    let k = place_at;
    match kind {
        0 => place(t, k, fixed),
        1 => place(t, k, Value::from_unencoded_str(&s)),
        2 => { let v = Value::from_unencoded_str(&s); place(t, k, &v) }
        3 => place(t, k, Value::from_unencoded_static_str(fixed)),
        4 => place(t, k, Data::from_unencoded_str(&s)),
        5 => { let d = Data::from_unencoded_str(s); place(t, k, &d) }
        6 => place(t, k, Data::from_unencoded_static_str(fixed)),
        7 => place(t, k, Data::from(Value::from_unencoded_str(&s))),
        8 => place(t, k, Ok::<_, InputError>(fixed)),
        9 => place(t, k, Ok::<_, IdentifierError>(Ok::<_, FileError>(Value::from_unencoded_str(&s)))),
        10 => { let b: Box<dyn Stream> = Box::new(Value::from_unencoded_str(&s).into_stream()); place(t, k, b) }
        11 => { let r = Rc::new(RefCell::new(fixed.into_stream())); place(t, k, r) }
        _ => { let v = Value::from_unencoded_static_str(fixed); place(t, k, fixed.into_value()).and_then(|_| place(t, k, v.clone())) }
    }
}
fn texts(s: String) { texts_in(s, PLACES) }
fn texts_in(s: String, places: u8) {
    let f = document();
    let (k, kind) = (pick(places), pick(TEXTS));
    let t = parse(&src(&f));
    cover(2301);
    let want = show(&place_ref(f, k, &encode(&s)));
    shows(text_as(&t, k, kind, s), &want, 2301);
}

// ---- templates

/// Sources of templates to insert: every kind of event, symbolic holes, and random trees.
fn source(kind: u8) -> String {
    match kind {
        0 => String::new(),
        1 => format_cat(&["a&", &byte_str(letter()), ";<b c=\"&lt;", &letter_str(), "\">&amp;&amp;</b>"]),
        2 => format_cat(&["<!doctype html><!--", &letter_str(), "&<-->"]),
        3 => format_cat(&["<script>if (a < b && ", &letter_str(), ") {}</script><br><i d />"]),
        4 => format_cat(&["<p><q></q><br></p>", &letter_str()]),
        _ => show(&forest(2, 2, Mark::Tag)),
    }
}
const SOURCES: u8 = 5;
const TEMPLATES: u8 = 10;
fn template_as(t: &Template, k: u8, kind: u8, x: &Template) -> Outcome {
    match kind {
        0 => place(t, k, x),
        1 => place(t, k, x.clone()),
        2 => place(t, k, Rc::new(x.clone())),
        3 => place(t, k, Ok::<_, StreamError>(x)),
        4 => place(t, k, Ok::<_, FileError>(Rc::new(x.clone()))),
        5 => place(t, k, x.transform(|h| h)),
        6 => place(t, k, Template::from_str(&x.to_string(), opts())),
        7 => { let b: Box<dyn Stream> = Box::new(x.into_stream()); place(t, k, b) }
        8 => { let r = Rc::new(RefCell::new(x.clone().into_stream())); place(t, k, r) }
        _ => place(t, k, Ok::<_, IdentifierError>(Ok::<_, InputError>(x))),
    }
}
fn templates(source: String, places: u8) {
    let f = document();
    let (k, kind) = (pick(places), pick(TEMPLATES));
    let t = parse(&src(&f));
    let x = parse(&source);
    let s = x.to_string();
    cover(2302);
    let want = show(&place_ref(f, k, &s));
    let got = shows(template_as(&t, k, kind, &x), &want, 2311);
    check_eq(x.to_string().as_bytes(), s.as_bytes(), 2313, "inserting a template changes it");
    // As text, the same source is escaped.
    if kind == 0 {
        shows(place(&t, k, Data::from_unencoded_str(&s)), &show(&place_ref(document(), k, &encode(&s))), 2314);
        // And the result can itself be inserted.
        if let Some(g) = got { shows(place(&t, k, &g), &show(&place_ref(document(), k, &want)), 2316); }
    }
}

// ---- several insertions

/// Two contents in two places, or one in two.
fn several(kinds: u8) {
    let f = document();
    let (j, k) = (pick(PLACES), pick(PLACES));
    let kind = pick(kinds);
    let t = parse(&src(&f));
    let c = format_cat(&["<u>&amp;", &letter_str(), "</u>"]);
    let x = parse(&c);
    cover(2303);
    let after = |first: &str, second: &str| show(&place_ref(place_ref(document(), j, first), k, second));
    // The first replacing or content edit may remove the second's place; the reference knows.
    match kind {
        0 => { if let Some(a) = shows(place(&t, j, &x), &show(&place_ref(document(), j, &c)), 2321) { shows(place(&a, k, &x), &after(&c, &c), 2323); } }
        1 => { let r = Rc::new(x); if let Some(a) = shows(place(&t, j, r.clone()), &show(&place_ref(document(), j, &c)), 2325) { shows(place(&a, k, r), &after(&c, &c), 2327); } }
        _ => { let v = Value::from_unencoded_str(&c); if let Some(a) = shows(place(&t, j, &v), &show(&place_ref(document(), j, &encode(&c))), 2329) { shows(place(&a, k, v), &after(&encode(&c), &encode(&c)), 2331); } }
    }
}
/// One content for every selected element and every repetition.
fn many(n: usize) {
    let f = forest(pick(n as u8 + 1) as usize, 2, Mark::Tag);
    let t = parse(&src(&f));
    let c = format_cat(&["<u>&amp;", &letter_str(), "</u>"]);
    let s = format_cat(&["<&", &letter_str()]);
    let x = parse(&c);
    let rc = Rc::new(x.clone());
    let v = Value::from_unencoded_str(&s);
    let d = Data::from_unencoded_str(&s);
    let e = encode(&s);
    let p: Pred = &is_a(Mark::Tag);
    cover(2304);
    let (r, want) = match pick(7) {
        0 => (t.transform(|h| h.select("a", |el| el.append_contents(&x))), select(f, p, &mut |e| vec![Node::El(e.contents(|mut f| { f.push(leaf(&c)); f }))])),
        1 => (t.transform(|h| h.select("a", |el| el.prepend(rc.clone()).append(&d))), select(f, p, &mut |el| vec![leaf(&c), Node::El(el), leaf(&e)])),
        2 => (t.transform(|h| h.select("a", |el| el.replace(&v))), select(f, p, &mut |_| vec![leaf(&e)])),
        3 => (t.transform(|h| h.repeat(0u8..2, |h, _| h.append(&x))), { let mut g = f.clone(); g.push(leaf(&c)); g.extend(f); g.push(leaf(&c)); g }),
        4 => (t.transform(|h| h.select("a", |el| el.repeat_contents(vec![&x, &x], |h, x| h.prepend(x)))), select(f, p, &mut |e| vec![Node::El(e.contents(|f| { let mut g = vec![leaf(&c)]; g.extend(f.clone()); g.push(leaf(&c)); g.extend(f); g }))])),
        5 => (t.transform(|h| h.select("a", |el| el.replace_contents(x.transform(|h| h.append(&d))))), select(f, p, &mut |el| vec![Node::El(el.contents(|_| vec![leaf(&c), leaf(&e)]))])),
        _ => (t.transform(|h| h.apply_as_template(|t| t.transform(|h| h.append(&x))).append(&t)), { let mut g = f.clone(); g.push(leaf(&c)); g.extend(f); g }),
    };
    shows(r, &show(&want), 2341);
}

// ---- attributes

const NAMES: u8 = 4;
const VALUES: u8 = 5;
fn with_value<I: IntoIdentifier, V: IntoValue>(t: &Template, op: u8, n: I, v: V) -> Outcome {
    match op {
        0 => t.transform(|h| h.select_once("p", |e| e.set_attribute_with_value(n, v))),
        1 => t.transform(|h| h.select_once("p", |e| e.add_attribute_with_value(n, v))),
        2 => t.transform(|h| h.select_once("p", |e| e.add_to_attribute(n, v, "-"))),
        3 => t.transform(|h| h.select_once("p", |e| e.set_attribute(n, Some(v)))),
        4 => t.transform(|h| h.select_once("p", |e| e.add_attribute(n, Some(v)))),
        5 => t.transform(|h| h.select_once("p", |e| e.add_to_attribute("old", "x", v).set_empty_attribute(n))),
        _ => t.transform(|h| h.select_once("p", |e| e.add_empty_attribute(n).replace_attribute_value_if_exists("old", v))),
    }
}
fn with_name<I: IntoIdentifier>(t: &Template, op: u8, n: I, kind: u8, s: &'static str) -> Outcome {
    match kind {
        0 => with_value(t, op, n, s),
        1 => with_value(t, op, n, Value::from_unencoded_str(s)),
        2 => with_value(t, op, n, &Value::from_unencoded_str(s)),
        3 => with_value(t, op, n, Value::from_unencoded_static_str(s)),
        _ => with_value(t, op, n, Value::from_unencoded_str(s).into_value().clone()),
    }
}
/// A name and a value, each in every form, in every attribute operation.
fn attributes<const N: usize, const M: usize>() {
    let s = leak(sym_str::<N>());
    let n = leak(sym_ascii::<M>(|b| b != b'o' && b != b'O' && valid_ident(&byte_str(b))));
    let op = pick(7);
    let (nk, vk) = (pick(NAMES), pick(VALUES));
    let t = parse("<p old=\"w\">y</p>");
    cover(2305);
    let r = match nk {
        0 => with_name(&t, op, n, vk, s),
        1 => with_name(&t, op, n.parse::<Identifier>(), vk, s),
        2 => match n.parse::<Identifier>() { Ok(i) => with_name(&t, op, &i, vk, s), Err(_) => return check(false, 2351, "a name is refused") },
        _ => match Identifier::from_static_str(n) { Ok(i) => with_name(&t, op, i, vk, s), Err(_) => return check(false, 2352, "a name is refused") },
    };
    let v = encode(s);
    let want = match op {
        0..=4 => format_cat(&["<p old=\"w\" ", n, "=\"", &v, "\">y</p>"]),
        5 => format_cat(&["<p old=\"w", &v, "x\" ", n, ">y</p>"]),
        _ => format_cat(&["<p ", n, " old=\"", &v, "\">y</p>"]),
    };
    shows(r, &want, 2353);
}

harnesses! {
    /// [q] templates of 130 and 258 elements, in 10 forms and 4 places
    fn c23_template_large() { templates(show(&large()), 4) }
    /// [t] templates of 130 and 258 elements, in 10 forms and 21 places
    fn c23_template_many() { templates(show(&large()), PLACES) }
    /// [qt] texts of over 65535 bytes with a symbolic byte at the end, in 13 forms and 3 places
    fn c23_text_huge() { texts_in(format_cat(&[&gen::times("q", 65540), &sym_str::<1>()]), 3) }
    /// [q] every text of 2 bytes, in 13 forms and 21 places
    fn c23_text2() { texts(sym_str::<2>()) }
    /// [t] every text of 4 bytes, in 13 forms and 21 places
    fn c23_text4() { texts(sym_str::<4>()) }
    /// [q] text long enough for heap storage with one arbitrary byte
    fn c23_text_long() { texts(format_cat(&["0123456789\"", &sym_str::<1>(), "0123456789<&"])) }
    /// [q] 5 templates with a symbolic letter, in 10 forms and 21 places, then nested once more
    fn c23_template() { templates(source(pick(SOURCES)), PLACES) }
    /// [t] templates of 3 nodes
    fn c23_template_tree3() { templates(show(&forest(3, 2, Mark::Tag)), PLACES) }
    /// [t] templates of arbitrary source of 3 bytes
    fn c23_template_any3() { let s = gen::arb::<3>(); assume(Template::from_str(&s, opts()).is_ok()); templates(s, PLACES) }
    /// [q] one content inserted in two of 21 places, one after the other
    fn c23_several() { several(3) }
    /// [q] one content for all selected elements or repetitions, trees of up to 2 nodes, 7 ways
    fn c23_many2() { many(2) }
    /// [t] trees of up to 4 nodes
    fn c23_many4() { many(4) }
    /// [q] attribute values of 2 arbitrary bytes, names of 1, 4 and 5 forms, 7 operations
    fn c23_attr2_1() { attributes::<2, 1>() }
    /// [t] attribute values of 4 arbitrary bytes, names of 2
    fn c23_attr4_2() { attributes::<4, 2>() }
}
