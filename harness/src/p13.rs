//! C13: content edits place new content exactly where they say.
use crate::{canon::*, model::*, trees::*, vx::*};
use html5_fuser::event::StreamError;
use html5_fuser::text::Data;
use html5_fuser::{BoxedApi, BoxedElementApi, Template};

/// New content: real and as expected.
#[derive(Clone)]
enum New { Text(&'static str), Frag(Template, Forest), None }

impl New {
    fn want(&self) -> Forest {
        match self {
            New::Text(s) => if s.is_empty() { vec![] } else { vec![leaf(&encode(s))] },
            New::Frag(_, f) => f.clone(),
            New::None => vec![],
        }
    }
    fn real(&self) -> Result<Template, StreamError> {
        match self {
            New::Text(s) => parse("").transform(|h| h.append(Data::from_unencoded_str(s))),
            New::Frag(t, _) => Ok(t.clone()),
            New::None => Ok(parse("")),
        }
    }
}
fn new_content(n: u8) -> New {
    match pick(3) {
        0 => New::Text(leak(byte_str({ let b = sym_u8(); assume(b < 0x80); b }))),
        1 => {
            let mut e = el(&letter_str(), Form::Pair);
            e.kids.push(leaf(if n == 0 { "x" } else { "y" }));
            let f = vec![leaf("\""), Node::El(e), Node::El(el("hr", Form::Void))];
            New::Frag(parse(&src(&f)), f)
        }
        _ => New::None,
    }
}

/// Edits of a stream.
fn whole<'t>(k: u8, h: BoxedApi<'t>, c: &New) -> BoxedApi<'t> {
    match c {
        New::Text(s) => match k {
            0 => h.remove().into_boxed(), 1 => h.replace(*s).into_boxed(), 2 => h.prepend(*s).into_boxed(), _ => h.append(*s).into_boxed(),
        },
        _ => match k {
            0 => h.remove().into_boxed(), 1 => h.replace(c.real()).into_boxed(), 2 => h.prepend(c.real()).into_boxed(), _ => h.append(c.real()).into_boxed(),
        },
    }
}
fn whole_ref(k: u8, mut f: Forest, c: &New) -> Forest {
    match k {
        0 => vec![],
        1 => c.want(),
        2 => { let mut n = c.want(); n.extend(f); n }
        _ => { f.extend(c.want()); f }
    }
}
/// Edits of an element that leave it an element.
fn inner<'t>(k: u8, e: BoxedElementApi<'t>, c: &New) -> BoxedElementApi<'t> {
    match c {
        New::Text(s) => match k {
            0 => e.remove_contents().into_boxed_element(), 1 => e.replace_contents(*s).into_boxed_element(),
            2 => e.prepend_contents(*s).into_boxed_element(), _ => e.append_contents(*s).into_boxed_element(),
        },
        _ => match k {
            0 => e.remove_contents().into_boxed_element(), 1 => e.replace_contents(c.real()).into_boxed_element(),
            2 => e.prepend_contents(c.real()).into_boxed_element(), _ => e.append_contents(c.real()).into_boxed_element(),
        },
    }
}
fn inner_ref(k: u8, e: El, c: &New) -> El { e.contents(|f| whole_ref(k, f, c)) }

fn attrs(e: &mut El) {
    e.attrs.push(("id".into(), Some("x".into())));
    e.attrs.push((letter_str(), None));
}
/// An element of any form with any small contents.
fn element(n: usize, depth: usize) -> El {
    let mut e = match pick(4) {
        0 => { let mut e = el(&letter_str(), Form::Pair); e.kids = sub_forest(n, depth); e }
        1 => el(&letter_str(), Form::Solo),
        2 => el("input", Form::Void),
        // Written self-closed.
        _ => { let mut e = el("Input", Form::Void); e.close = "/".into(); e }
    };
    attrs(&mut e);
    e
}
fn sub_forest(n: usize, depth: usize) -> Forest {
    let n = pick(n as u8 + 1) as usize;
    forest(n, depth, Mark::Rich)
}
fn placed(e: El) -> Forest {
    let mut p = el("p", Form::Pair);
    let mut s = el(&e.name, if e.form == Form::Void { Form::Void } else { Form::Solo });
    s.attrs.push(("r".into(), None));
    p.kids = vec![leaf("1"), Node::El(s.clone()), Node::El(e), Node::El(s), leaf("2")];
    vec![Node::El(p), leaf("3")]
}
fn is_x(e: &El) -> bool { e.has_id("x") }

/// One edit of the whole stream.
fn all(n: usize, depth: usize) {
    let f = sub_forest(n, depth);
    let c = new_content(0);
    let k = pick(4);
    let want = whole_ref(k, f.clone(), &c);
    cover(1301);
    expect(&f, |t| t.transform(|h| whole(k, h.into_boxed(), &c)), want, 1301);
}
/// Two edits of the whole stream.
fn all2(n: usize) {
    let f = sub_forest(n, 2);
    let (c, d) = (new_content(0), new_content(1));
    let (k, l) = (pick(4), pick(4));
    let want = whole_ref(l, whole_ref(k, f.clone(), &c), &d);
    expect(&f, |t| t.transform(|h| whole(l, whole(k, h.into_boxed(), &c), &d)), want, 1303);
}
/// One edit of an element and its contents, in place.
fn one(n: usize, depth: usize) {
    let e = element(n, depth);
    let f = placed(e);
    let c = new_content(0);
    let k = pick(8);
    let which = pick(4);
    let mut edit_el = |e: El| if k < 4 { whole_ref(k, vec![Node::El(e)], &c) } else { vec![Node::El(inner_ref(k - 4, e, &c))] };
    let want = select(f.clone(), &is_x, &mut edit_el);
    if k < 4 { cover(1302) } else { cover(1303) }
    let d = c.clone();
    match which {
        0 => expect(&f, |t| t.transform(|h| h.select("#x", move |e| if k < 4 { whole(k, e.into_boxed(), &d) } else { inner(k - 4, e.into_boxed_element(), &d).into_boxed() })), want, 1305),
        1 => expect(&f, |t| t.transform(|h| h.select_once("#x", move |e| if k < 4 { whole(k, e.into_boxed(), &d) } else { inner(k - 4, e.into_boxed_element(), &d).into_boxed() })), want, 1307),
        2 => expect(&f, |t| t.transform(|h| h.select("p", move |e| { let d = d.clone(); e.subselect("#x", move |e| if k < 4 { whole(k, e.into_boxed(), &d) } else { inner(k - 4, e.into_boxed_element(), &d).into_boxed() }) })), want, 1309),
        _ => expect(&f, |t| t.transform(|h| h.select("p", move |e| { let d = d.clone(); e.subselect_direct_once("#x", move |e| if k < 4 { whole(k, e.into_boxed(), &d) } else { inner(k - 4, e.into_boxed_element(), &d).into_boxed() }) })), want, 1311),
    }
}
/// Chains of edits of one element: contents edits, then one of the element.
fn chain(n: usize, len: usize) {
    let e = element(n, 2);
    let f = placed(e);
    let mut ks = vec![];
    for i in 0..len { ks.push((pick(4), new_content(i as u8))); }
    let last = (pick(5), new_content(1));
    let want = select(f.clone(), &is_x, &mut |mut e| {
        for (k, c) in &ks { e = inner_ref(*k, e, c); }
        if last.0 < 4 { whole_ref(last.0, vec![Node::El(e)], &last.1) } else { vec![Node::El(e)] }
    });
    expect(&f, |t| t.transform(|h| h.select("#x", move |e| {
        let mut e = e.into_boxed_element();
        for (k, c) in &ks { e = inner(*k, e, c); }
        if last.0 < 4 { whole(last.0, e.into_boxed(), &last.1) } else { e.into_boxed() }
    })), want, 1313);
}
/// Attributes come through contents edits.
fn with_attrs() {
    let e = element(1, 1);
    let f = placed(e);
    let k = pick(4);
    let c = new_content(0);
    let set = |e: &mut El| attr_set(&mut e.attrs, "w", Some("v".into()));
    let first = pick(2) == 0;
    let want = select(f.clone(), &is_x, &mut |mut e| { set(&mut e); vec![Node::El(inner_ref(k, e, &c))] });
    expect(&f, |t| t.transform(|h| h.select("#x", move |e| if first {
        inner(k, e.set_attribute_with_value("w", "v").into_boxed_element(), &c).into_boxed()
    } else {
        inner(k, e.into_boxed_element(), &c).set_attribute_with_value("w", "v").into_boxed()
    })), want, 1315);
}
/// Elements made by name.
fn made() {
    let name = leak(match pick(3) { 0 => letter_str(), 1 => "BR".to_string(), _ => "title".to_string() });
    let c = new_content(0);
    let k = pick(8);
    let e = el(name, if name.len() == 2 { Form::Void } else { Form::Solo });
    let want = if k < 4 { whole_ref(k, vec![Node::El(e)], &c) } else { vec![Node::El(inner_ref(k - 4, e, &c))] };
    let r = Template::with_transformed_element(name, move |e| if k < 4 { whole(k, e.into_boxed(), &c) } else { inner(k - 4, e.into_boxed_element(), &c).into_boxed() });
    match r {
        Ok(t) => { let t = t.to_string(); check_eq(t.as_bytes(), show(&want).as_bytes(), 1317, "the made element is not as expected"); out(t.as_bytes()) }
        Err(_) => check(false, 1318, "making an element fails"),
    }
}
/// Long and several-byte texts.
fn text<const N: usize>() {
    let s = leak(sym_str::<N>());
    let c = New::Text(s);
    let k = pick(8);
    let form = [Form::Pair, Form::Solo, Form::Void][pick(3) as usize];
    let mut e = el(if form == Form::Void { "hr" } else { "e" }, form);
    e.attrs.push(("id".into(), Some("x".into())));
    if form == Form::Pair { e.kids.push(leaf("o")); }
    let f = placed(e);
    let want = select(f.clone(), &is_x, &mut |e| if k < 4 { whole_ref(k, vec![Node::El(e)], &c) } else { vec![Node::El(inner_ref(k - 4, e, &c))] });
    expect(&f, |t| t.transform(|h| h.select("#x", move |e| if k < 4 { whole(k, e.into_boxed(), &c) } else { inner(k - 4, e.into_boxed_element(), &c).into_boxed() })), want, 1319);
}
/// Long and deep contents.
fn many() {
    let n = MANY[pick(6) as usize];
    let mut e = el("a", Form::Pair);
    e.attrs.push(("id".into(), Some("x".into())));
    e.kids = if pick(2) == 0 { nest(n, &["a", "title2"], vec![leaf("1")]) } else { row(n, &["a", "b"]) };
    let f = placed(e);
    let (k, c) = (pick(8), New::Text("N"));
    cover(1304);
    let want = select(f.clone(), &is_x, &mut |e| if k < 4 { whole_ref(k, vec![Node::El(e)], &c) } else { vec![Node::El(inner_ref(k - 4, e, &c))] });
    expect(&f, |t| t.transform(|h| h.select("#x", move |e| if k < 4 { whole(k, e.into_boxed(), &c) } else { inner(k - 4, e.into_boxed_element(), &c).into_boxed() })), want, 1321);
}

harnesses! {
    /// [qt] elements that hold 2 to 1030 elements, in each other or in a row; 8 edits
    fn c13_many() { many() }
    /// [q] every forest of up to 3 nodes; one edit of the stream with symbolic text, a fragment or nothing
    fn c13_all3() { all(3, 3) }
    /// [t] every forest of up to 4 nodes
    fn c13_all4() { all(4, 4) }
    /// [q] every forest of up to 1 node; two edits of the stream
    fn c13_all2_1() { all2(1) }
    /// [t] every forest of up to 2 nodes; two edits of the stream
    fn c13_all2_2() { all2(2) }
    /// [q] element of any form with every forest of up to 1 node; 8 edits x 4 ways to select it
    fn c13_one1() { one(1, 1) }
    /// [t] element of any form with every forest of up to 3 nodes
    fn c13_one3() { one(3, 3) }
    /// [q] element of any form, empty or not; one contents edit, then one edit of the element
    fn c13_chain1() { chain(1, 1) }
    /// [t] two contents edits, then one edit of the element
    fn c13_chain2() { chain(1, 2) }
    /// [qt] attribute edits before and after contents edits
    fn c13_attrs() { with_attrs() }
    /// [qt] elements made by name, void and not; 8 edits
    fn c13_made() { made() }
    /// [q] every text of 3 bytes as content
    fn c13_text3() { text::<3>() }
    /// [t] every text of 5 bytes as content
    fn c13_text5() { text::<5>() }
}
