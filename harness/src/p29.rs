//! C29: what was done before changes nothing.
use crate::ident::*;
use crate::{canon::*, file::*, gen, model, model::*, trees::*, vx::*};
use html5_fuser::select::{Class, Id, IntoSelector, Tag};
use html5_fuser::template::{FileError, InputError};
use html5_fuser::text::{Data, Identifier, IdentifierError, Value};
use html5_fuser::{ParseOptions, Template};
use std::path::Path;

/// Text in one buffer, so that what comes next lies where the last one lay.
fn put<'b>(buf: &'b mut String, s: &str) -> &'b str { buf.clear(); buf.push_str(s); buf.as_str() }

// ---- one use of each part, against its reference

const SHAPES: u8 = 10;
fn shape(k: u8, s: &str) -> String {
    match k {
        0 => format_cat(&["<a", s, "></a>"]),
        1 => format_cat(&["<a b=\"", s, "\"/>"]),
        2 => format_cat(&["<!--", s, "--"]),
        3 => format_cat(&["<!doctype ", s, "html>"]),
        4 => format_cat(&["<p></", s, ">"]),
        5 => format_cat(&["<title>", s, "</title>"]),
        6 => format_cat(&["\n<a><b>", s]),
        7 => format_cat(&["<", s, "/><p>x</p>"]),
        8 => format_cat(&["\n<a b=", s, "\">"]),
        _ => s.to_string(),
    }
}
/// All there is to see of a parse.
fn parsed(src: &str, o: ParseOptions) -> Vec<u8> {
    match Template::from_str(src, o) {
        Ok(t) => { let mut v = vec![0]; v.extend_from_slice(t.to_string().as_bytes()); v }
        Err(e) => { let s = seen(&e); let mut v = what_seen(&s); v.extend(where_seen(&s)); v.extend_from_slice(e.to_string().as_bytes()); v }
    }
}
fn source(src: &str, len: Option<usize>, depth: Option<usize>) {
    let mut o = opts();
    if let Some(n) = len { o = o.max_input_len(n); }
    if let Some(n) = depth { o = o.max_stack_depth(n); }
    let got = Template::from_str(src, o);
    if let Some(n) = len {
        if src.len() > n {
            cover(2901);
            return match got { Err(InputError::LengthLimitExceeded { limit }) => check(limit == n, 2901, "the length error names another limit"), _ => check(false, 2902, "a source over the limit is no length error") };
        }
    }
    match (got, tokens(src, depth)) {
        (Ok(t), Ok(r)) => { cover(2902); check_eq(t.to_string().as_bytes(), render(&r).as_bytes(), 2903, "a source is read differently after another one"); }
        (Err(e), Err(b)) => {
            cover(2903);
            let s = seen(&e);
            check_eq(&what_seen(&s), &what_ref(&b), 2904, "a source is refused for another reason after another one");
            check_eq(&where_seen(&s), &where_ref(src, &b), 2905, "a source is refused at another place after another one");
        }
        (Ok(_), Err(_)) => check(false, 2906, "a malformed source is accepted after another one"),
        (Err(_), Ok(_)) => check(false, 2907, "a well-formed source is refused after another one"),
    }
}
fn identifier(s: &str) { identifier_of(s.parse(), s) }
fn identifier_of(r: Result<Identifier, IdentifierError>, s: &str) {
    let want = fault(s);
    match r {
        Ok(i) => { cover(2904); check(want.0 == 0, 2911, "an invalid identifier is accepted after another one"); check_eq(i.to_string().as_bytes(), s.as_bytes(), 2912, "an identifier is another one after another one") }
        Err(e) => { check(want.0 != 0, 2913, "a valid identifier is refused after another one"); check(fault_of(&e) == want, 2914, "an identifier is refused for another reason after another one") }
    }
}
fn text(s: &str) {
    let want = encode(s);
    cover(2905);
    check_eq(Data::from_unencoded_str(s.to_string()).to_string().as_bytes(), want.as_bytes(), 2923, "owned text is escaped differently after another one");
    check_eq(Data::from_unencoded_str(s).to_string().as_bytes(), want.as_bytes(), 2921, "text is escaped differently after another one");
    check_eq(Value::from_unencoded_str(s).to_string().as_bytes(), want.as_bytes(), 2922, "a value is escaped differently after another one");
}
/// Tag, id or class, on an element with the given name for it.
fn selector(k: u8, name: &str, with: &str) {
    let mut e = el(if k == 0 { with } else { "p" }, Form::Pair);
    if k == 1 { e.attrs.push(("id".into(), Some(with.into()))); }
    if k == 2 { e.attrs.push(("class".into(), Some(with.into()))); }
    let want = match k { 0 => ieq(&e.name, name), 1 => e.has_id(name), _ => e.has_class(name) };
    let st = leak(format_cat(&[["", "#", "."][k as usize], name]));
    let t = parse(&src(&[Node::El(e)]));
    if want { cover(2906) } else { cover(2907) }
    let run = |r: Result<Template, html5_fuser::event::StreamError>, code: u32| match r {
        Ok(r) => check((r.to_string() == "!") == want, code, "a selector matches differently after another one"),
        Err(_) => check(false, code, "a selector fails after another one"),
    };
    run(t.transform(|h| h.select(st, |e| e.replace("!"))), 2931);
    if let Ok(s) = st.into_selector() { run(t.transform(|h| h.select(&s, |e| e.replace("!"))), 2932) }
    match k {
        0 => run(t.transform(|h| h.select(name.parse::<Tag>(), |e| e.replace("!"))), 2933),
        1 => run(t.transform(|h| h.select(name.parse::<Id>(), |e| e.replace("!"))), 2933),
        _ => run(t.transform(|h| h.select(name.parse::<Class>(), |e| e.replace("!"))), 2933),
    }
}
fn file(b: &[u8], limit: Option<usize>, depth: Option<usize>) {
    script(vec![], if b.is_empty() { vec![] } else { vec![Op::Data(b.to_vec())] });
    let mut o = opts();
    if let Some(n) = limit { o = o.max_input_len(n); }
    if let Some(n) = depth { o = o.max_stack_depth(n); }
    let got = Template::from_file(Path::new("/vx-scripted/t"), o);
    cover(2909);
    match (got, std::str::from_utf8(b)) {
        (Err(FileError::Input { error: InputError::LengthLimitExceeded { limit: l }, .. }), _) => check(limit.map_or(false, |n| (b.len() > n) & (l == n)), 2961, "a file within the limit is over it after another one"),
        (Err(FileError::Decode { error, .. }), u) => check(u.err() == Some(error), 2962, "a file is decoded differently after another one"),
        (Err(FileError::Input { error, .. }), Ok(s)) => match tokens(s, depth) {
            Err(b) => { let e = seen(&error); check_eq(&what_seen(&e), &what_ref(&b), 2963, "a file is refused for another reason after another one") }
            Ok(_) => check(false, 2964, "a file is refused after another one"),
        },
        (Ok(t), Ok(s)) => {
            check(limit.map_or(true, |n| b.len() <= n), 2965, "a file over the limit is accepted after another one");
            match tokens(s, depth) {
                Ok(k) => check_eq(t.to_string().as_bytes(), render(&k).as_bytes(), 2966, "a file is read differently after another one"),
                Err(_) => check(false, 2967, "a malformed file is accepted after another one"),
            }
        }
        _ => check(false, 2968, "a file comes to something else after another one"),
    }
}
fn number(n: u8, place: u8) {
    let mut d = vec![];
    if n >= 100 { d.push(b'0' + n / 100); }
    if n >= 10 { d.push(b'0' + n / 10 % 10); }
    d.push(b'0' + n % 10);
    let d = unsafe { std::str::from_utf8_unchecked(&d) };
    cover(2912);
    let (t, want) = match place {
        0 => (parse("<p/>").transform(|h| h.append(n)), format_cat(&["<p />", d])),
        _ => (parse("<p/>").transform(|h| h.select("p", |e| e.set_attribute_with_value("a", n))), format_cat(&["<p a=\"", d, "\" />"])),
    };
    match t { Ok(t) => check_eq(t.to_string().as_bytes(), want.as_bytes(), 2971, "a number is another one after another one"), Err(_) => check(false, 2972, "inserting a number fails after another one") }
}
/// One element, perhaps the selected one, edited.
fn edited(k: u8, class: &str) {
    let mut e = el("p", Form::Pair);
    e.attrs.push(("class".into(), Some(class.into())));
    let mut i = el("a", Form::Solo);
    i.attrs.push(("class".into(), Some("a".into())));
    e.kids = vec![leaf("1"), Node::El(i), leaf("2")];
    let f = vec![Node::El(e), leaf("3")];
    let p = is_a(Mark::Class);
    let want = model::select(f.clone(), &p, &mut |e| edit_ref(k, &p, e));
    cover(2908);
    expect(&f, |t| t.transform(move |h| h.select(".a", move |e| edit(k, ".a", e.into_boxed_element()))), want, 2941);
}

/// A transform that fails, in one of several ways.
fn failed(k: u8) {
    let t = parse("<p><a/></p>x");
    let r = match k % 5 {
        0 => t.transform(|h| h.select("a b", |e| e.remove())),
        1 => t.transform(|h| h.select("p", |e| e.set_empty_attribute("a b"))),
        2 => t.transform(|h| h.select("p", |e| e.replace_contents(Template::from_str("<a>", opts())))),
        3 => t.transform(|h| h.select("p", |e| e.subselect("a", |e| e.add_class("")))),
        _ => t.transform(|h| h.select("p", |e| e.repeat(0u8..2, |e, _| e.append(Err::<&str, _>(made(9, 0)))))),
    };
    check(r.is_err(), 2945, "a transform that should fail does not");
}
/// A static string and parts of it.
const WHOLE: &str = "a.b.c#d&e<f";
fn part() -> &'static str {
    let (i, j) = (pick(WHOLE.len() as u8) as usize, pick(WHOLE.len() as u8 + 1) as usize);
    assume(i < j);
    &WHOLE[i..j]
}
/// What a part of the static string says, in a place that takes one.
fn said(k: u8, s: &'static str) {
    cover(2914);
    match k {
        0 => check_eq(Data::from_unencoded_static_str(s).to_string().as_bytes(), encode(s).as_bytes(), 2991, "a part of a static text is another one after another one"),
        1 => identifier_of(Identifier::from_static_str(s), s),
        2 => match parse("<p b=\"1\"/>").transform(|h| h.select("p", |e| e.set_attribute_with_value("b", s).append_contents(s))) {
            Ok(t) => check_eq(t.to_string().as_bytes(), format_cat(&["<p b=\"", &encode(s), "\">", &encode(s), "</p>"]).as_bytes(), 2992, "a part of a static text is another one after another one"),
            Err(_) => check(false, 2993, "inserting a part of a static text fails"),
        },
        _ => {
            // Its parts, by the rules of C09, for what such a slice can be.
            let (name, rest) = s.split_at(s.find(|c| c == '.' || c == '#').unwrap_or(s.len()));
            let (id, rest) = if rest.starts_with('#') { rest[1..].split_at(rest[1..].find('.').unwrap_or(rest.len() - 1)) } else { ("", rest) };
            let hash = s[name.len()..].starts_with('#');
            let mut good = (name.is_empty() | valid_ident(name)) & (!hash | valid_ident(id));
            let mut classes = vec![];
            if !rest.is_empty() { for c in rest[1..].split('.') { good &= valid_ident(c); classes.push(c) } }
            good &= !(name.is_empty() & !hash & classes.is_empty());
            let t = parse("<a/><a class=\"b\"/><b class=\"b c\"/><c id=\"d\"/><b/><d class=\"c\"/>");
            let mut els = vec![el("a", Form::Solo), el("a", Form::Solo), el("b", Form::Solo), el("c", Form::Solo), el("b", Form::Solo), el("d", Form::Solo)];
            els[1].attrs.push(("class".into(), Some("b".into())));
            els[2].attrs.push(("class".into(), Some("b c".into())));
            els[3].attrs.push(("id".into(), Some("d".into())));
            els[5].attrs.push(("class".into(), Some("c".into())));
            let hit = |e: &El| (name.is_empty() | ieq(name, &e.name)) & (!hash || e.has_id(id)) & classes.iter().all(|c| e.has_class(c));
            let want = show(&els.into_iter().map(|e| if hit(&e) { leaf("!") } else { Node::El(e) }).collect::<Vec<_>>());
            match t.transform(|h| h.select(s, |e| e.replace("!"))) {
                Ok(t) => { check(good, 2994, "a part of a static string is accepted as a selector after another one"); check_eq(t.to_string().as_bytes(), want.as_bytes(), 2995, "a part of a static selector matches differently after another one") }
                Err(_) => check(!good, 2996, "a part of a static string is refused as a selector after another one"),
            }
        }
    }
}
fn parts(kinds: u8) {
    let k = pick(kinds);
    let (a, b) = (part(), part());
    said(k, a);
    said(k, b);
    cover(2910);
}

const PARTS: u8 = 8;
/// Some concrete use of a part, `n` of many.
fn used(k: u8, n: u8, buf: &mut String) {
    let n = n as usize;
    match k {
        0 => source(put(buf, ["<a b=\"&\">x<br/></a>", "<a>\n<b>", "<!doctype q>", "<title><a></title>"][n % 4]), None, None),
        1 => source(put(buf, ["<a><b></b></a>", "<a><b></b></a>", "abcdefgh", "<a/>"][n % 4]), [None, None, Some(7), Some(4)][n % 4], [Some(1), Some(2), None, Some(0)][n % 4]),
        2 => identifier(put(buf, ["ab", "", "a b", "\u{e9}"][n % 4])),
        3 => text(put(buf, ["a&", "<>", "ab", "\u{e9}\""][n % 4])),
        4 => selector((n % 3) as u8, ["ab", "cd", "AB", "xy"][n % 4], ["ab", "ab", "ab", "x"][n % 4]),
        5 => file([&b"<a>x</a>"[..], b"<a>", b"\xff<a/>", b"12345678"][n % 4], [None, None, None, Some(7)][n % 4], None),
        6 => if n % 4 == 3 { failed(n as u8 / 4) } else { edited([1, 5, 14][n % 4], ["a", "b", "a"][n % 4]) },
        _ => number([7u8, 255, 10, 0][n % 4], (n % 2) as u8),
    }
}
/// Any use of a part.
fn any(k: u8, buf: &mut String) {
    match k {
        0 => { let s = shape(pick(SHAPES), &sym_str::<1>()); source(put(buf, &s), None, None) }
        1 => {
            let s = shape([0, 6, 7][pick(3) as usize], &sym_str::<1>());
            if pick(2) == 0 { source(put(buf, &s), None, Some(pick(3) as usize)) } else { let n = s.len() - pick(3) as usize; source(put(buf, &s), Some(n), None) }
        }
        2 => { let s = sym_str::<2>(); identifier(put(buf, &s)) }
        3 => { let s = sym_str::<2>(); text(put(buf, &s)) }
        4 => { let (a, b) = (format_cat(&[&letter_str(), "b"]), format_cat(&["a", &letter_str()])); selector(pick(3), &a, &b) }
        5 => {
            let mut b = b"<a>".to_vec();
            b.extend_from_slice(&sym::<1>());
            b.extend_from_slice(b"</a>");
            let l = pick(5) as usize;
            file(&b, [None, Some(8), Some(7), None, None][l], [None, None, None, Some(0), Some(1)][l])
        }
        6 => { let k = pick(EDITS); let c = letter_str(); edited(k, &c) }
        _ => { let n = sym_u8(); number(n, pick(2)) }
    }
}
/// Two sources with N arbitrary bytes each.
fn sources<const N: usize, const M: usize>() {
    let mut buf = String::with_capacity(64);
    let s = shape(pick(SHAPES), &sym_str::<N>());
    source(put(&mut buf, &s), None, None);
    let s = shape(pick(SHAPES), &sym_str::<M>());
    source(put(&mut buf, &s), None, None);
    cover(2910);
}
/// The same part twice, the second time on something else.
fn twice(k: u8) {
    let mut buf = String::with_capacity(64);
    any(k, &mut buf);
    any(k, &mut buf);
    cover(2910);
    out(buf.as_bytes());
}
/// Any part after a concrete use of any part.
fn after(uses: u8) {
    let mut buf = String::with_capacity(64);
    let (k, l) = (pick(PARTS), pick(PARTS));
    for i in 0..uses { used(k, if uses == 1 { pick(4) } else { i }, &mut buf); }
    any(l, &mut buf);
    cover(2910);
}
/// Any part after many uses of it.
fn worn(sizes: &[usize]) {
    let mut buf = String::with_capacity(64);
    let k = pick(PARTS);
    // One kind of use over and over, or all in turn.
    let same = pick(5);
    for i in 0..sizes[pick(sizes.len() as u8) as usize] { used(k, if same < 4 { same } else { (i % 20) as u8 }, &mut buf); }
    any(k, &mut buf);
    cover(2910);
}
/// x, y, and x again: the first and the last are the same.
fn back(x: String, y: String) {
    let mut buf = String::with_capacity(64);
    let a = parsed(put(&mut buf, &x), opts());
    source(put(&mut buf, &y), None, None);
    let b = parsed(put(&mut buf, &x), opts());
    check_eq(&b, &a, 2951, "a source is read differently the second time");
    cover(2911);
    out(&a);
}

/// The items of a repetition, each made by using a part of the library.
struct Making { left: u8, k: u8 }
impl Iterator for Making {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.left == 0 { return None; }
        self.left -= 1;
        any(self.k, &mut String::with_capacity(64));
        Some(self.left)
    }
}
/// Any part while a transform is under way: in its closures and in the iterators it is given.
fn within() {
    let k = pick(PARTS);
    let c = letter_str();
    let f = { let mut e = el("p", Form::Pair); e.attrs.push(("class".into(), Some(c))); let i = el("i", Form::Solo); e.kids = vec![leaf("1"), Node::El(i)]; vec![Node::El(e), leaf("2")] };
    let p = is_a(Mark::Class);
    let q = |e: &El| ieq(&e.name, "i");
    let hit = match &f[0] { Node::El(e) => p(e), _ => false };
    let now = move || any(k, &mut String::with_capacity(64));
    match pick(4) {
        0 => {
            let want = model::select(f.clone(), &p, &mut |e| edit_ref(9, &p, e));
            expect(&f, |t| t.transform(move |h| h.select(".a", move |e| { now(); e.append_contents("q") })), want, 2981)
        }
        1 => {
            let want = model::select(f.clone(), &p, &mut |e| vec![Node::El(e.contents(|c| model::select(c, &q, &mut |x| vec![Node::El(x), leaf("d")])))]);
            expect(&f, |t| t.transform(move |h| h.select(".a", move |e| e.subselect("i", move |e| { now(); e.append("d") }).into_boxed())), want, 2983)
        }
        2 => {
            let want = model::select(f.clone(), &p, &mut |e| vec![Node::El(e.clone()), leaf("1"), Node::El(e), leaf("0")]);
            expect(&f, |t| t.transform(move |h| h.select(".a", move |e| e.repeat(Making { left: 2, k }, |e, i| e.append(i)))), want, 2985)
        }
        _ => {
            let mut want = f.clone();
            want.push(leaf("z"));
            expect(&f, |t| t.transform(move |h| { now(); h.append("z") }), want, 2987)
        }
    }
    if hit { cover(2913) }
}

harnesses! {
    /// [qt] 8 parts of the library used while a transform is under way, at 4 places in it
    fn c29_within() { within() }
    /// [qt] two sources of 10 shapes with an arbitrary byte each, one after the other in the same memory
    fn c29_source_twice() { twice(0) }
    /// [qt] two sources of 10 shapes, with 1 and with 2 arbitrary bytes
    fn c29_source_more() { sources::<1, 2>() }
    /// [qt] two sources of 10 shapes, with 2 and with 1 arbitrary bytes
    fn c29_source_less() { sources::<2, 1>() }
    /// [qt] two sources of 3 shapes with an arbitrary byte each, with other depth and length limits
    fn c29_limits_twice() { twice(1) }
    /// [qt] two identifiers of 2 arbitrary bytes, one after the other in the same memory
    fn c29_identifier_twice() { twice(2) }
    /// [qt] any two parts of a static string of 11 characters as text, identifier, value and selector
    fn c29_static_parts() { parts(4) }
    /// [qt] two texts of 2 arbitrary bytes, one after the other in the same memory
    fn c29_text_twice() { twice(3) }
    /// [qt] two selectors (tag, id or class of 2 letters) on two elements
    fn c29_selector_twice() { twice(4) }
    /// [qt] a file of 8 bytes, one of them arbitrary, loaded, changed and loaded again, with and without limits
    fn c29_file_twice() { twice(5) }
    /// [qt] two of 29 edits, one after the other, on elements with a symbolic class
    fn c29_edit_twice() { twice(6) }
    /// [qt] every u8 after every u8
    fn c29_number_twice() { twice(7) }
    /// [qt] 8 parts of the library after each of 4 uses of each of the 8
    fn c29_after1() { after(1) }
    /// [qt] 8 parts of the library after 4 uses of each of the 8
    fn c29_after4() { after(4) }
    /// [q] 8 parts of the library after 17 and 257 uses of it
    fn c29_worn() { worn(&[17, 257]) }
    /// [t] 8 parts of the library after 15 to 1025 uses of it, 7 numbers
    fn c29_worn_more() { worn(&[15, 16, 100, 128, 255, 256, 1025]) }
    /// [q] 10 shapes with an arbitrary byte, twice, with one of 10 others between
    fn c29_back1() { let x = shape(pick(SHAPES), &sym_str::<1>()); let y = shape(pick(SHAPES), "<"); back(x, y) }
    /// [t] 10 shapes with an arbitrary byte, twice, with any of them between
    fn c29_back() { let x = shape(pick(SHAPES), &sym_str::<1>()); let y = shape(pick(SHAPES), &sym_str::<1>()); back(x, y) }
    /// [qt] 14 parts of a source at 11 lengths up to 256, with a symbolic byte, twice, with a malformed one between
    fn c29_back_grown() { back(gen::grown(), "<a>\n<b".into()) }
}
