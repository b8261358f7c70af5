//! C12: subselecting reaches only inside the element.
use html5_fuser::{BoxedApi, BoxedElementApi};
use crate::{model::*, trees::*, vx::*};

/// An element with id "x" holding the given forest, among others.
fn around(kids: Forest, m: Mark, form: Form) -> Forest {
    let mut root = match (m, form) {
        (_, Form::Void) => el("br", form),
        (Mark::Tag, _) => el(&letter_str(), form),
        _ => el("r", form),
    };
    root.attrs.push(("k".into(), None));
    root.attrs.push(("id".into(), Some("x".into())));
    if m == Mark::Class { root.attrs.push(("class".into(), Some("a".into()))); }
    if form == Form::Pair { root.kids = kids; }
    // Closed by another spelling of its name.
    if form == Form::Pair { root.close = match root.name.as_bytes() { [b] => byte_str(*b ^ 0x20), _ => root.name.clone() } }
    let mut sib = el("a", Form::Pair);
    sib.attrs.push(("class".into(), Some("a".into())));
    let mut outer = el("a", Form::Pair);
    outer.attrs.push(("class".into(), Some("a".into())));
    outer.kids = vec![leaf("1"), Node::El(sib.clone()), Node::El(root), Node::El(sib.clone()), leaf("2")];
    vec![Node::El(sib.clone()), Node::El(outer), Node::El(sib)]
}
fn roots(n: usize, depth: usize, m: Mark) -> Forest {
    let form = [Form::Pair, Form::Solo, Form::Void][pick(3) as usize];
    let kids = if form == Form::Pair { forest(n, depth, m) } else { vec![] };
    around(kids, m, form)
}
fn is_x(e: &El) -> bool { e.has_id("x") }

/// Numbers the matches; all four methods and the contents.
fn numbered(n: usize, depth: usize, m: Mark) {
    let f = roots(n, depth, m);
    let (p, s) = (is_a(m), sel_a(m));
    let which = pick(5);
    let mut k = 0u8;
    let mut mark = |mut e: El| { k += 1; attr_set(&mut e.attrs, "n", Some(k.to_string())); vec![Node::El(e), leaf("!")] };
    let want = select(f.clone(), &is_x, &mut |e| vec![Node::El(e.contents(|c| match which {
        0 => select(c, &p, &mut mark),
        1 => select_once(c, &p, &mut mark),
        2 => select_direct(c, &p, &mut mark),
        3 => select_direct_once(c, &p, &mut mark),
        _ => { let mut c = c; c.insert(0, leaf("(")); c.push(leaf(")")); c }
    }))]);
    if k > 0 { cover(1201) } else { cover(1202) }
    if k > 1 { cover(1203) }
    let c = &std::cell::Cell::new(0u8);
    let next = || { c.set(c.get() + 1); c.get() };
    let next = &next;
    match which {
        0 => expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.subselect(s, move |e| { let c = next(); e.set_attribute_with_value("n", c).append("!") }))), want, 1201),
        1 => expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.subselect_once(s, move |e| { let c = next(); e.set_attribute_with_value("n", c).append("!") }))), want, 1203),
        2 => expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.subselect_direct(s, move |e| { let c = next(); e.set_attribute_with_value("n", c).append("!") }))), want, 1205),
        3 => expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.subselect_direct_once(s, move |e| { let c = next(); e.set_attribute_with_value("n", c).append("!") }))), want, 1207),
        _ => expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect_contents(|h| h.prepend("(").append(")")))), want, 1209),
    }
    check(c.get() == k, 1211, "the transformation is applied another number of times");
}

/// The edits of the catalogue as inner transformation.
fn edited(n: usize, depth: usize, m: Mark) {
    let f = around(forest(n, depth, m), m, Form::Pair);
    let (p, s) = (is_a(m), sel_a(m));
    let k = pick(EDITS);
    let which = pick(4);
    let want = select(f.clone(), &is_x, &mut |e| vec![Node::El(e.contents(|c| {
        let mut inner = |e: El| edit_ref(k, &p, e);
        match which {
            0 => select(c, &p, &mut inner),
            1 => select_once(c, &p, &mut inner),
            2 => select_direct(c, &p, &mut inner),
            _ => select_direct_once(c, &p, &mut inner),
        }
    }))]);
    cover(1204);
    match which {
        0 => expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect(s, |e| edit(k, s, e.into_boxed_element())))), want, 1221),
        1 => expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect_once(s, |e| edit(k, s, e.into_boxed_element())))), want, 1223),
        2 => expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect_direct(s, |e| edit(k, s, e.into_boxed_element())))), want, 1225),
        _ => expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect_direct_once(s, |e| edit(k, s, e.into_boxed_element())))), want, 1227),
    }
}

/// Subselection on what other edits have made of the element, and of a subselected element.
fn chained(n: usize, depth: usize) {
    let f = roots(n, depth, Mark::Tag);
    let a = is_a(Mark::Tag);
    let b = |e: &El| ieq(&e.name, "b");
    let set = |k: &'static str| move |mut e: El| { attr_set(&mut e.attrs, k, None); vec![Node::El(e)] };
    let deep = |c: Forest| select(c, &a, &mut |e| vec![Node::El(e.contents(|c| select(c, &b, &mut set("y"))))]);
    match pick(6) {
        0 => {
            let want = select(f.clone(), &is_x, &mut |e| vec![Node::El(e.contents(|c| select(select(c, &a, &mut set("z")), &b, &mut set("y"))))]);
            expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect("a", |e| e.set_empty_attribute("z")).subselect("b", |e| e.set_empty_attribute("y")))), want, 1231)
        }
        1 => {
            let want = select(f.clone(), &is_x, &mut |e| vec![Node::El(e.contents(deep))]);
            expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect("a", |e| e.subselect("b", |e| e.set_empty_attribute("y"))))), want, 1233)
        }
        2 => {
            let want = select(f.clone(), &is_x, &mut |mut e| { attr_set(&mut e.attrs, "q", Some("1".into())); vec![Node::El(e.contents(|c| select_direct(c, &a, &mut |_| vec![])))] });
            expect(&f, |t| t.transform(|h| h.select("#x", |e| e.set_attribute_with_value("q", 1u8).subselect_direct("a", |e| e.remove()))), want, 1235)
        }
        3 => {
            let want = select(f.clone(), &is_x, &mut |e| vec![Node::El(e.contents(|c| { let mut c = select_once(c, &a, &mut |_| vec![leaf("r")]); c.push(leaf("2")); c }))]);
            expect(&f, |t| t.transform(|h| h.select("#x", |e| e.append_contents("2").subselect_once("a", |e| e.replace("r")))), want, 1237)
        }
        4 => {
            let want = select(f.clone(), &is_x, &mut |e| vec![Node::El(e.contents(|c| select_direct_once(select(c, &a, &mut set("z")), &b, &mut |e| vec![Node::El(e.contents(|_| vec![]))])))]);
            expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect_contents(|h| h.select("a", |e| e.set_empty_attribute("z"))).subselect_direct_once("b", |e| e.remove_contents()))), want, 1239)
        }
        _ => {
            let want = select(f.clone(), &is_x, &mut |e| vec![Node::El(e.contents(|c| select_once(c, &a, &mut |e| vec![Node::El(e.contents(|c| select_direct_once(c, &a, &mut set("y"))))])))]);
            expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect_once("a", |e| e.subselect_direct_once("a", |e| e.set_empty_attribute("y"))))), want, 1241)
        }
    }
}

/// Subselection in every selected element, also inside the same name nested in itself.
fn every(n: usize, depth: usize) {
    let f = forest(n, depth, Mark::Tag);
    let a = is_a(Mark::Tag);
    let set = |mut e: El| { attr_set(&mut e.attrs, "y", None); vec![Node::El(e)] };
    let which = pick(4);
    let want = select(f.clone(), &a, &mut |e| vec![Node::El(e.contents(|c| match which {
        0 => select(c, &a, &mut |e| set(e)),
        1 => select_once(c, &a, &mut |e| set(e)),
        2 => select_direct(c, &a, &mut |e| set(e)),
        _ => select_direct_once(c, &a, &mut |e| set(e)),
    }))]);
    match which {
        0 => expect(&f, |t| t.transform(|h| h.select("a", |e| e.subselect("a", |e| e.set_empty_attribute("y")))), want, 1251),
        1 => expect(&f, |t| t.transform(|h| h.select("a", |e| e.subselect_once("a", |e| e.set_empty_attribute("y")))), want, 1253),
        2 => expect(&f, |t| t.transform(|h| h.select("a", |e| e.subselect_direct("a", |e| e.set_empty_attribute("y")))), want, 1255),
        _ => expect(&f, |t| t.transform(|h| h.select("a", |e| e.subselect_direct_once("a", |e| e.set_empty_attribute("y")))), want, 1257),
    }
}

/// Long and deep contents.
fn many() {
    let n = MANY[pick(6) as usize];
    let names: &[&str] = [&["b", "a"][..], &["b"][..], &["a"][..]][pick(3) as usize];
    let mut kids = if pick(2) == 0 { nest(n, names, vec![Node::El(el("a", Form::Solo))]) } else { row(n, names) };
    kids.push(Node::El(el("a", Form::Pair)));
    kids.push(Node::El(el("a", Form::Pair)));
    let f = around(kids, Mark::Tag, Form::Pair);
    let a = is_a(Mark::Tag);
    let which = pick(5);
    cover(1205);
    let mut set = |mut e: El| { attr_set(&mut e.attrs, "y", None); vec![Node::El(e)] };
    let want = select(f.clone(), &is_x, &mut |e| vec![Node::El(e.contents(|c| match which {
        0 => select(c, &a, &mut set),
        1 => select_once(c, &a, &mut set),
        2 => select_direct(c, &a, &mut set),
        3 => select_direct_once(c, &a, &mut |_| vec![]),
        _ => { let mut c = c; c.insert(0, leaf("(")); c.push(leaf(")")); c }
    }))]);
    match which {
        0 => expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect("a", |e| e.set_empty_attribute("y")))), want, 1261),
        1 => expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect_once("a", |e| e.set_empty_attribute("y")))), want, 1263),
        2 => expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect_direct("a", |e| e.set_empty_attribute("y")))), want, 1265),
        3 => expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect_direct_once("a", |e| e.remove()))), want, 1267),
        _ => expect(&f, |t| t.transform(|h| h.select("#x", |e| e.subselect_contents(|h| h.prepend("(").append(")")))), want, 1269),
    }
}

fn dig<'t>(e: BoxedElementApi<'t>, n: usize, way: u8) -> BoxedApi<'t> {
    if n == 0 { return e.set_empty_attribute("y").into_boxed() }
    match way {
        0 => e.subselect("a", move |e| dig(e.into_boxed_element(), n - 1, way)).into_boxed(),
        1 => e.subselect_direct_once("a", move |e| dig(e.into_boxed_element(), n - 1, way)).into_boxed(),
        _ => e.subselect_contents(move |c| c.select_direct("a", move |e| dig(e.into_boxed_element(), n - 1, way))).into_boxed(),
    }
}
fn dig_ref(e: El, n: usize, way: u8) -> Forest {
    let a = is_a(Mark::Tag);
    if n == 0 { let mut e = e; attr_set(&mut e.attrs, "y", None); return vec![Node::El(e)] }
    let mut next = |e: El| dig_ref(e, n - 1, way);
    vec![Node::El(e.contents(|c| match way { 0 => select(c, &a, &mut next), 1 => select_direct_once(c, &a, &mut next), _ => select_direct(c, &a, &mut next) }))]
}
/// Subselections in subselections.
fn deep() {
    let (n, m) = ([3, 17, 40][pick(3) as usize], [3, 17, 40][pick(3) as usize]);
    let way = pick(3);
    let mut kids = nest(m, &["a"], vec![Node::El(el("a", Form::Pair))]);
    kids.push(Node::El(el("a", Form::Solo)));
    let f = around(kids, Mark::Tag, Form::Pair);
    let want = select(f.clone(), &is_x, &mut |e| dig_ref(e, n, way));
    expect(&f, |t| t.transform(|h| h.select("#x", move |e| dig(e.into_boxed_element(), n, way))), want, 1271);
}

harnesses! {
    /// [qt] 3 to 40 subselections in each other on 3 to 40 elements in each other
    fn c12_deep() { deep() }
    /// [qt] elements that hold 2 to 1030 elements, in each other or in a row
    fn c12_many() { many() }
    /// [q] element holding every forest of 2 nodes with comments and raw text, all methods
    fn c12_numbered_rich2() { numbered(2, 2, Mark::Rich) }
    /// [t] element holding every forest of 3 nodes with comments and raw text, all methods
    fn c12_numbered_rich3() { numbered(3, 3, Mark::Rich) }
    /// [q] element pair, self-closed or void holding every forest of 3 nodes, nesting 3, symbolic tag names (also its own); all methods
    fn c12_numbered3() { numbered(3, 3, Mark::Tag) }
    /// [t] as above, every forest of 4 nodes, nesting 4
    fn c12_numbered4() { numbered(4, 4, Mark::Tag) }
    /// [q] every forest of 2 nodes, symbolic classes
    fn c12_numbered_class2() { numbered(2, 2, Mark::Class) }
    /// [t] every forest of 4 nodes, symbolic classes
    fn c12_numbered_class4() { numbered(4, 3, Mark::Class) }
    /// [q] every forest of 2 nodes in the element, every edit of the catalogue inside every method
    fn c12_edited2() { edited(2, 2, Mark::Tag) }
    /// [t] every forest of 3 nodes in the element, every edit of the catalogue inside every method
    fn c12_edited3() { edited(3, 3, Mark::Tag) }
    /// [t] as above with symbolic classes
    fn c12_edited_class3() { edited(3, 3, Mark::Class) }
    /// [q] element with every forest of 3 nodes, six chains of two edits
    fn c12_chained3() { chained(3, 3) }
    /// [t] element with every forest of 4 nodes, six chains of two edits
    fn c12_chained4() { chained(4, 4) }
    /// [q] every forest of 4 nodes, in each selected element
    fn c12_every4() { every(4, 4) }
    /// [t] every forest of 5 nodes, in each selected element
    fn c12_every5() { every(5, 5) }
}
