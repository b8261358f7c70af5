//! C11: selecting transforms exactly the selected elements.
use crate::{model::*, trees::*, vx::*};

/// Marks each hit with its number and checks the whole result; every method.
fn numbered(n: usize, depth: usize, m: Mark) {
    let f = forest(n, depth, m);
    let p = is_a(m);
    let s = sel_a(m);
    let which = pick(4);
    let mut c = 0u8;
    let mut k = 0u8;
    let mut mark = |mut e: El| { k += 1; attr_set(&mut e.attrs, "n", Some(k.to_string())); vec![Node::El(e)] };
    let want = match which {
        0 => select(f.clone(), &p, &mut mark),
        1 => select_once(f.clone(), &p, &mut mark),
        2 => select_direct(f.clone(), &p, &mut mark),
        _ => select_direct_once(f.clone(), &p, &mut mark),
    };
    if k > 0 { cover(1101) } else { cover(1102) }
    if k > 1 { cover(1103) }
    match which {
        0 => expect(&f, |t| t.transform(|h| h.select(s, |e| { c += 1; e.set_attribute_with_value("n", c) })), want, 1101),
        1 => expect(&f, |t| t.transform(|h| h.select_once(s, |e| { c += 1; e.set_attribute_with_value("n", c) })), want, 1103),
        2 => expect(&f, |t| t.transform(|h| h.select_direct(s, |e| { c += 1; e.set_attribute_with_value("n", c) })), want, 1105),
        _ => expect(&f, |t| t.transform(|h| h.select_direct_once(s, |e| { c += 1; e.set_attribute_with_value("n", c) })), want, 1107),
    }
    check(c == k, 1109, "the transformation is applied another number of times");
}
/// The edits of the catalogue as inner transformation.
fn edited(n: usize, depth: usize, m: Mark) {
    let f = forest(n, depth, m);
    let p = is_a(m);
    let s = sel_a(m);
    let k = pick(EDITS);
    let which = pick(4);
    let mut inner = |e: El| edit_ref(k, &p, e);
    let want = match which {
        0 => select(f.clone(), &p, &mut inner),
        1 => select_once(f.clone(), &p, &mut inner),
        2 => select_direct(f.clone(), &p, &mut inner),
        _ => select_direct_once(f.clone(), &p, &mut inner),
    };
    cover(1104);
    match which {
        0 => expect(&f, |t| t.transform(|h| h.select(s, |e| edit(k, s, e.into_boxed_element()))), want, 1111),
        1 => expect(&f, |t| t.transform(|h| h.select_once(s, |e| edit(k, s, e.into_boxed_element()))), want, 1113),
        2 => expect(&f, |t| t.transform(|h| h.select_direct(s, |e| edit(k, s, e.into_boxed_element()))), want, 1115),
        _ => expect(&f, |t| t.transform(|h| h.select_direct_once(s, |e| edit(k, s, e.into_boxed_element()))), want, 1117),
    }
}
/// A transformation that drops what it is given, so that the rest must be skipped over.
fn dropped(n: usize, depth: usize) {
    let f = forest(n, depth, Mark::Tag);
    let p = is_a(Mark::Tag);
    let which = pick(2);
    let want = if which == 0 { select(f.clone(), &p, &mut |_| vec![leaf("!")]) } else { select_once(f.clone(), &p, &mut |_| vec![]) };
    if which == 0 {
        expect(&f, |t| t.transform(|h| h.select("a", |e| e.replace("!"))), want, 1121)
    } else {
        expect(&f, |t| t.transform(|h| h.select_once("a", |e| e.remove())), want, 1123)
    }
}
/// Two selections, one after the other and one inside the other.
fn twice(n: usize, depth: usize) {
    let f = forest(n, depth, Mark::Tag);
    let a = is_a(Mark::Tag);
    let b = |e: &El| ieq(&e.name, "b");
    let set = |k: &'static str| move |mut e: El| { attr_set(&mut e.attrs, k, None); vec![Node::El(e)] };
    if pick(2) == 0 {
        let want = select(select(f.clone(), &a, &mut set("x")), &b, &mut set("y"));
        expect(&f, |t| t.transform(|h| h.select("a", |e| e.set_empty_attribute("x")).select("b", |e| e.set_empty_attribute("y"))), want, 1131)
    } else {
        let want = select(f.clone(), &a, &mut |e| select(vec![Node::El(e)], &b, &mut set("y")));
        expect(&f, |t| t.transform(|h| h.select("a", |e| e.select("b", |e| e.set_empty_attribute("y")))), want, 1133)
    }
}

/// Other events around and inside the matches.
fn events(m: u8) {
    let mk = |i: u8| -> Node {
        match i {
            0 => leaf("<!doctype html>"),
            1 => leaf("<!--<a></a>-->"),
            2 => { let mut e = el("title", Form::Pair); e.kids.push(leaf("<a></a>")); Node::El(e) }
            3 => Node::El(el(&letter_str(), Form::Pair)),
            _ => leaf("t "),
        }
    };
    let mut inner = el(&letter_str(), Form::Pair);
    inner.close = match inner.name.as_bytes()[0] ^ 0x20 { b => byte_str(b) };
    inner.kids = vec![mk(pick(5)), mk(1 + pick(4))];
    let f = vec![mk(pick(5)), Node::El(inner), mk(pick(5))];
    let p = is_a(Mark::Tag);
    let mut set = |mut e: El| { attr_set(&mut e.attrs, "x", None); vec![leaf("<!--c-->"), Node::El(e)] };
    let t = match html5_fuser::Template::from_str("<!--c-->", Default::default()) { Ok(t) => t, Err(_) => return check(false, 1143, "a comment is rejected") };
    match m {
        0 => { let want = select(f.clone(), &p, &mut set); expect(&f, |s| s.transform(|h| h.select("A", |e| e.set_empty_attribute("x").prepend(&t))), want, 1141) }
        _ => { let want = select_once(f.clone(), &p, &mut set); expect(&f, |s| s.transform(|h| h.select_once("A", |e| e.set_empty_attribute("x").prepend(&t))), want, 1144) }
    }
}

/// Long and deep streams: what is counted is counted beyond every small number.
fn many() {
    let n = MANY[pick(6) as usize];
    let a = is_a(Mark::Tag);
    let set = |mut e: El| { attr_set(&mut e.attrs, "x", None); vec![Node::El(e)] };
    let mut first = el("a", Form::Pair);
    first.kids = match pick(3) { 0 => nest(n, &["b", "a"], vec![leaf("1")]), 1 => nest(n, &["a"], vec![leaf("1")]), _ => row(n, &["b", "a"]) };
    let mut outer = el("p", Form::Pair);
    outer.kids = vec![Node::El(first), leaf("2"), Node::El(el("a", Form::Pair)), leaf("3")];
    let last = el("a", Form::Solo);
    // Also at the bottom.
    let mut f = if pick(2) == 0 { vec![Node::El(outer)] } else { nest(n, &["b"], vec![Node::El(outer)]) };
    f.push(Node::El(last));
    cover(1105);
    match pick(4) {
        0 => { let want = select(f.clone(), &a, &mut |e| set(e)); expect(&f, |t| t.transform(|h| h.select("a", |e| e.set_empty_attribute("x"))), want, 1151) }
        1 => { let want = select_once(f.clone(), &a, &mut |e| set(e)); expect(&f, |t| t.transform(|h| h.select_once("a", |e| e.set_empty_attribute("x"))), want, 1153) }
        2 => { let want = select_direct(f.clone(), &a, &mut |e| set(e)); expect(&f, |t| t.transform(|h| h.select_direct("a", |e| e.set_empty_attribute("x"))), want, 1155) }
        _ => { let want = select_direct_once(f.clone(), &a, &mut |_| vec![]); expect(&f, |t| t.transform(|h| h.select_direct_once("a", |e| e.remove())), want, 1157) }
    }
}

harnesses! {
    /// [qt] matches that hold, follow and lie below 2 to 1030 elements
    fn c11_many() { many() }
    /// [q] every forest of 3 nodes with comments and raw text, symbolic tag names; all four methods
    fn c11_numbered_rich3() { numbered(3, 3, Mark::Rich) }
    /// [t] every forest of 4 nodes with comments and raw text
    fn c11_numbered_rich4() { numbered(4, 4, Mark::Rich) }
    /// [q] every forest of 4 nodes, nesting 3, symbolic tag names; all four methods
    fn c11_numbered4() { numbered(4, 3, Mark::Tag) }
    /// [t] every forest of 5 nodes, nesting 4
    fn c11_numbered5() { numbered(5, 4, Mark::Tag) }
    /// [q] every forest of 3 nodes, symbolic classes
    fn c11_numbered_class3() { numbered(3, 3, Mark::Class) }
    /// [t] every forest of 4 nodes, symbolic classes
    fn c11_numbered_class4() { numbered(4, 3, Mark::Class) }
    /// [q] every forest of 2 nodes, every edit of the catalogue inside every method
    fn c11_edited2() { edited(2, 2, Mark::Tag) }
    /// [t] every forest of 3 nodes, every edit of the catalogue inside every method
    fn c11_edited3() { edited(3, 3, Mark::Tag) }
    /// [t] as above with symbolic classes
    fn c11_edited_class3() { edited(3, 3, Mark::Class) }
    /// [q] every forest of 4 nodes, removing and replacing
    fn c11_dropped4() { dropped(4, 4) }
    /// [t] every forest of 5 nodes, removing and replacing
    fn c11_dropped5() { dropped(5, 5) }
    /// [q] every forest of 3 nodes, two selections
    fn c11_twice3() { twice(3, 3) }
    /// [t] every forest of 4 nodes, two selections
    fn c11_twice4() { twice(4, 4) }
    /// [qt] doctype, comment, raw text, elements and text around and inside a match
    fn c11_events() { events(0) }
    fn c11_events_once() { events(1) }
}
