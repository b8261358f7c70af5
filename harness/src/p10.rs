//! C10: selectors match exactly the elements they describe.
use crate::{canon::*, model, model::*, vx::*};
use html5_fuser::event::StreamError;
use html5_fuser::select::{Class, Classes, Id, Selector, Tag};
use html5_fuser::Template;
use std::rc::Rc;

fn value_byte(b: u8) -> bool { (b != b'"') & (b < 0x80) }

/// An element whose matching is in question.
fn source(e: &El) -> String { model::format_cat(&["x", &show(&[Node::El(e.clone())]), "<z></z>"]) }

fn hit<S: Selector>(src: &str, sel: Result<S, impl Into<StreamError>>, code: u32) -> bool {
    let t = parse(src);
    match t.transform(|h| h.select(sel, |e| e.replace("!"))) {
        Ok(r) => {
            let r = r.to_string();
            let b = r.as_bytes();
            b.len() > 1 && b[1] == b'!'
        }
        Err(_) => { check(false, code, "selecting fails"); false }
    }
}
fn hit_static(src: &str, sel: &'static str, code: u32) -> bool {
    match parse(src).transform(|h| h.select(sel, |e| e.replace("!"))) {
        Ok(r) => { let r = r.to_string(); r.as_bytes()[1] == b'!' }
        Err(_) => { check(false, code, "selecting fails"); false }
    }
}
fn ok<S>(s: S) -> Result<S, StreamError> { Ok(s) }

const FORMS: [Form; 3] = [Form::Pair, Form::Solo, Form::Void];
fn form(name: &str) -> Form { if is_void(name) { Form::Void } else { FORMS[pick(2) as usize] } }

fn tags(name: String) {
    let f = form(&name);
    let e = el(&name, f);
    let want = ieq(&name, "ab");
    if want { cover(1001) } else { cover(1002) }
    let src = source(&e);
    check(hit_static(&src, "ab", 1001) == want, 1002, "a static tag selector matches wrongly");
    check(hit_static(&src, "aB", 1001) == want, 1003, "a static tag selector matches wrongly");
    check(hit(&src, "Ab".parse::<Tag>(), 1004) == want, 1005, "a tag selector matches wrongly");
    let r = Rc::new(match "ab".parse::<Tag>() { Ok(t) => t, Err(_) => return });
    check(hit(&src, ok(r.clone()), 1004) == want, 1006, "a shared tag selector matches wrongly");
    check(hit(&src, ok(&*r), 1004) == want, 1007, "a tag selector by reference matches wrongly");
}
fn attr_with(name: &str, value: Option<String>) -> El {
    let mut e = el("p", FORMS[pick(2) as usize]);
    e.attrs.push((name.to_string(), value));
    e
}
fn ids(e: El) {
    let want = e.has_id("xy");
    if want { cover(1003) } else { cover(1004) }
    let src = source(&e);
    check(hit_static(&src, "#xy", 1011) == want, 1012, "a static id selector matches wrongly");
    check(hit_static(&src, "p#xY", 1011) == want, 1013, "a static id selector matches wrongly");
    check(!hit_static(&src, "q#xy", 1011), 1014, "a static selector ignores its tag");
    check(hit(&src, "Xy".parse::<Id>(), 1015) == want, 1016, "an id selector matches wrongly");
    let r = Rc::new(match "xy".parse::<Id>() { Ok(t) => t, Err(_) => return });
    check(hit(&src, ok(r.clone()), 1015) == want, 1017, "a shared id selector matches wrongly");
    check(hit(&src, ok(&*r), 1015) == want, 1018, "an id selector by reference matches wrongly");
}
fn classes(e: El) {
    let (a, b) = (e.has_class("xy"), e.has_class("z"));
    if a { cover(1005) } else { cover(1006) }
    if a & b { cover(1007) }
    let src = source(&e);
    check(hit_static(&src, ".xy", 1021) == a, 1022, "a static class selector matches wrongly");
    check(hit_static(&src, "p.Xy", 1021) == a, 1023, "a static class selector matches wrongly");
    check(hit_static(&src, ".xy.z", 1021) == (a & b), 1024, "a static selector of two classes matches wrongly");
    check(hit_static(&src, ".Z.xY", 1021) == (a & b), 1025, "a static selector of two classes matches wrongly");
    check(hit_static(&src, ".z", 1021) == b, 1031, "a static class selector matches wrongly");
    check(hit(&src, "xY".parse::<Class>(), 1026) == a, 1027, "a class selector matches wrongly");
    let r = Rc::new(match Classes::from_str_iterator(["xy", "z"].iter().map(|s| *s)) { Ok(t) => t, Err(_) => return });
    check(hit(&src, ok(r.clone()), 1026) == (a & b), 1028, "a class list selector matches wrongly");
    check(hit(&src, ok(&*r), 1026) == (a & b), 1029, "a class list selector by reference matches wrongly");
    check(hit(&src, Classes::from_str_iterator(["XY"].iter().map(|s| *s)), 1026) == a, 1030, "a list of one class matches wrongly");
}
/// An attribute list of `n` out of id, class, another one, in any order, values among near misses.
fn mixed(n: usize) {
    let mut e = el("p", FORMS[pick(2) as usize]);
    for _ in 0..n {
        let k = ["id", "CLASS", "data"][pick(3) as usize];
        let v = [None, Some("xy"), Some("z xY"), Some("z"), Some("xyz")][pick(5) as usize].map(|s| s.to_string());
        e.attrs.push((k.to_string(), v));
    }
    let (i, a, b) = (e.has_id("xy"), e.has_class("xy"), e.has_class("z"));
    let src = source(&e);
    check(hit_static(&src, "p#xy.xy.z", 1041) == (i & a & b), 1042, "a full static selector matches wrongly");
    check(hit_static(&src, "#xy.z", 1041) == (i & b), 1043, "a selector of id and class matches wrongly");
    check(!hit_static(&src, "q#xy.z", 1041), 1044, "a static selector ignores its tag");
    check(hit(&src, "xy".parse::<Id>(), 1045) == i, 1046, "an id selector matches wrongly");
    check(hit(&src, Classes::from_str_iterator(["z", "xy"].iter().map(|s| *s)), 1045) == (a & b), 1047, "a class list selector matches wrongly");
    check(hit(&src, "z".parse::<Class>(), 1045) == b, 1048, "a class selector matches wrongly");
}
/// Only elements are matched, whatever else the template says.
fn others() {
    let t = ["<!doctype html>", "ab", "<!--ab-->", "<!--id=\"xy\"-->", "<title>ab<ab></title>", "</ab>", "&lt;ab&gt;"];
    let k = pick(7) as usize;
    let src = if k == 5 { "<ab class=\"z\"></ab>".to_string() } else { t[k].to_string() };
    let want = if k == 5 { "!" } else { &src };
    match parse(&src).transform(|h| h.select("ab", |e| e.replace("!"))) {
        Ok(r) => check_eq(r.to_string().as_bytes(), want.as_bytes(), 1051, "something that is not an element is matched"),
        Err(_) => check(false, 1052, "selecting fails"),
    }
}

/// Ids and classes far behind.
fn many() {
    let n = crate::trees::MANY[pick(6) as usize];
    let mut e = el("p", Form::Pair);
    match pick(4) {
        0 => { let mut v = crate::gen::times("xyz ", n); v.push_str("z xy"); e.attrs.push(("class".into(), Some(v))) }
        1 => { for _ in 0..n { e.attrs.push(("class".into(), Some("xyz".into()))); } e.attrs.push(("class".into(), Some("z".into()))) }
        2 => { for _ in 0..n { e.attrs.push(("id".into(), Some("x".into()))); e.attrs.push(("data".into(), None)); } e.attrs.push(("id".into(), Some("xy".into()))) }
        _ => { let mut v = crate::gen::times(" ", n); v.push_str("xy"); v.push_str(&crate::gen::times("\n", n)); v.push('z'); e.attrs.push(("class".into(), Some(v))) }
    }
    let (i, a, b) = (e.has_id("xy"), e.has_class("xy"), e.has_class("z"));
    let src = source(&e);
    check(hit_static(&src, "#xy", 1071) == i, 1072, "a static id selector matches wrongly");
    check(hit_static(&src, ".xy.z", 1071) == (a & b), 1073, "a static selector of two classes matches wrongly");
    check(hit_static(&src, "p.z", 1071) == b, 1074, "a static class selector matches wrongly");
    check(hit(&src, "xy".parse::<Id>(), 1071) == i, 1075, "an id selector matches wrongly");
    check(hit(&src, "z".parse::<Class>(), 1071) == b, 1076, "a class selector matches wrongly");
    check(hit(&src, Classes::from_str_iterator(["z", "xy"].iter().map(|s| *s)), 1071) == (a & b), 1077, "a class list selector matches wrongly");
}
/// Long ids and classes against ones that differ in one byte or in length.
fn sized() {
    let v = crate::gen::sized();
    for b in v.bytes() { assume((b > b'>') & (b < 0x7f)); }
    let s = leak(crate::gen::times("q", v.len()));
    let mut e = el("p", Form::Pair);
    e.attrs.push(("id".into(), Some(v.clone())));
    e.attrs.push(("class".into(), Some(model::format_cat(&["z ", &v]))));
    let want = ieq(&v, s);
    let src = source(&e);
    check(hit(&src, s.parse::<Id>(), 1081) == want, 1082, "an id selector matches wrongly");
    check(hit(&src, s.parse::<Class>(), 1081) == want, 1083, "a class selector matches wrongly");
    check(hit_static(&src, leak(model::format_cat(&["#", s, ".z.", s])), 1081) == want, 1084, "a full static selector matches wrongly");
    let longer = model::format_cat(&[s, "q"]);
    check(!hit(&src, longer.parse::<Id>(), 1081), 1085, "an id selector matches a shorter id");
    check(!hit(&src, longer.parse::<Class>(), 1081), 1086, "a class selector matches a shorter class");
    let el2 = el(&v, Form::Solo);
    assume(!is_void(&v));
    check(hit(&source(&el2), s.parse::<Tag>(), 1081) == want, 1087, "a tag selector matches wrongly");
}

harnesses! {
    /// [qt] ids and classes that lie behind 2 to 1030 others
    fn c10_many() { many() }
    /// [qt] ids and classes of up to 257 bytes, one of them symbolic
    fn c10_sized() { sized() }
    /// [qt] element names of 2 symbolic bytes against a tag
    fn c10_tag2() { tags(sym_ascii::<2>(|c| (c > b'>') & (c < 0x7f))) }
    /// [qt] element names of 1 to 3 symbolic bytes against a tag of 2
    fn c10_tag_len() { let n = pick(2); tags(if n == 0 { letter_str() } else { model::format_cat(&["ab", &sym_ascii::<1>(|c| c > b'>')]) }) }
    /// [qt] void elements
    fn c10_void() {
        let n = VOID[pick(16) as usize];
        let src = model::format_cat(&["x<", n, " id=\"xy\" class=\"z\">"]);
        check(hit_static(&src, leak(model::format_cat(&[n, "#xy.z"])), 1061), 1062, "a void element is not matched");
    }
    /// [q] ids of 2 symbolic bytes
    fn c10_id2() { ids(attr_with("id", Some(sym_ascii::<2>(value_byte)))) }
    /// [qt] ids of 3 symbolic bytes
    fn c10_id3() { ids(attr_with("iD", Some(sym_str::<3>().replace('"', "'")))) }
    /// [qt] attribute names of 2 symbolic bytes against id
    fn c10_id_name() { ids(attr_with(&sym_ascii::<2>(|c| (c > b'>') & (c < 0x7f)), Some("xy".to_string()))) }
    fn c10_id_none() { ids(attr_with("id", None)) }
    /// [q] class values of 4 symbolic bytes
    fn c10_class4() { classes(attr_with("class", Some(sym_ascii::<4>(value_byte)))) }
    /// [t] class values of 6 symbolic bytes
    fn c10_class6() { classes(attr_with("class", Some(sym_ascii::<6>(value_byte)))) }
    /// [qt] class values with white space of any kind, several-byte included
    fn c10_class_gaps() {
        let g = crate::gen::sym_gap();
        let h = crate::gen::sym_gap();
        classes(attr_with("class", Some(model::format_cat(&[g, "xy", h, &sym_str::<2>().replace('"', "'"), g, "z"]))))
    }
    /// [qt] attribute names of 5 symbolic letters against class
    fn c10_class_name() { classes(attr_with(&sym_ascii::<5>(|c| (c >= b'a') & (c <= b'z') | (c == b'C')), Some("xy".to_string()))) }
    fn c10_class_none() { classes(attr_with("class", None)) }
    /// [q] 2 attributes
    fn c10_mixed2() { mixed(2) }
    /// [t] 4 attributes
    fn c10_mixed4() { mixed(4) }
    /// [t] 3 attributes
    fn c10_mixed3() { mixed(3) }
    fn c10_others() { others() }
}
