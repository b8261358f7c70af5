//! C16: repetition yields one transformed copy per item, in order.
use crate::{model::*, trees::*, vx::*};
use html5_fuser::BoxedApi;
use std::cell::{Cell, RefCell};

/// Up to `n` items with symbolic digits.
fn items(n: u8) -> Vec<u8> {
    let k = pick(n + 1);
    let mut v = vec![];
    for _ in 0..k { let d = sym_u8(); assume(d < 10); v.push(d); }
    v
}
fn digit(d: u8) -> String { byte_str(b'0' + d) }
fn text(d: u8) -> &'static str { leak(digit(d)) }

/// What is done to each copy.
const EACH: u8 = 7;
fn each<'t>(k: u8, d: u8, h: BoxedApi<'t>) -> BoxedApi<'t> {
    match k {
        0 => h.append(text(d)).into_boxed(),
        1 => h.select("a", move |e| e.set_attribute_with_value("n", text(d))).into_boxed(),
        2 => h.select_once("a", move |e| e.replace_contents(text(d))).into_boxed(),
        3 => h.replace(text(d)).into_boxed(),
        4 => h.remove().into_boxed(),
        5 => h.select_direct("a", |e| e.remove()).into_boxed(),
        _ => h,
    }
}
fn each_ref(k: u8, d: u8, mut f: Forest) -> Forest {
    let p = is_a(Mark::Tag);
    let s = digit(d);
    match k {
        0 => { f.push(leaf(&s)); f }
        1 => select(f, &p, &mut |mut e| { attr_set(&mut e.attrs, "n", Some(s.clone())); vec![Node::El(e)] }),
        2 => select_once(f, &p, &mut |e| vec![Node::El(e.contents(|_| vec![leaf(&s)]))]),
        3 => vec![leaf(&s)],
        4 => vec![],
        5 => select_direct(f, &p, &mut |_| vec![]),
        _ => f,
    }
}
fn copies(k: u8, v: &[u8], f: &Forest) -> Forest {
    let mut o = vec![];
    for d in v { o.extend(each_ref(k, *d, f.clone())); }
    o
}

/// The whole stream.
fn whole(n: usize, depth: usize, m: u8) {
    let n = pick(n as u8 + 1) as usize;
    let f = forest(n, depth, Mark::Rich);
    let v = items(m);
    let k = pick(EACH);
    let els = pick(2) == 0;
    if v.is_empty() { cover(1601) } else { cover(1602) }
    let seen = RefCell::new(vec![]);
    let alt = Cell::new(0);
    if els {
        let want = if v.is_empty() { let mut f = f.clone(); f.insert(0, leaf("E")); f } else { copies(k, &v, &f) };
        expect(&f, |t| t.transform(|h| h.repeat_or_else(v.clone(), |h, d| { seen.borrow_mut().push(d); each(k, d, h.into_boxed()) }, |h| { alt.set(alt.get() + 1); h.prepend("E") })), want, 1601);
        check(alt.get() == v.is_empty() as i32, 1603, "the alternative is run another number of times");
    } else {
        let want = copies(k, &v, &f);
        expect(&f, |t| t.transform(|h| h.repeat(v.clone(), |h, d| { seen.borrow_mut().push(d); each(k, d, h.into_boxed()) })), want, 1604);
    }
    let seen = seen.into_inner();
    check_eq(&seen, &v, 1606, "the items given to the transformation differ");
}

fn is_x(e: &El) -> bool { e.has_id("x") }
/// An element of any form with surroundings that look alike.
fn placed(n: usize, depth: usize) -> Forest {
    let form = [Form::Pair, Form::Solo, Form::Void][pick(3) as usize];
    let mut e = el(if form == Form::Void { "br" } else { "a" }, form);
    if form != Form::Void { e.name = letter_str(); e.close = e.name.clone(); }
    e.attrs = vec![("id".into(), Some("x".into())), ("k".into(), None)];
    if form == Form::Pair { e.kids = forest(pick(n as u8 + 1) as usize, depth, Mark::Rich); }
    let mut s = el("a", Form::Pair);
    s.kids.push(Node::El(el("a", Form::Solo)));
    let mut p = el("p", Form::Pair);
    p.kids = vec![Node::El(s.clone()), Node::El(e), leaf("1"), Node::El(s.clone())];
    vec![Node::El(s), Node::El(p), leaf("2")]
}
/// One element.
fn element(n: usize, depth: usize, m: u8) {
    let f = placed(n, depth);
    let v = items(m);
    let k = pick(EACH + 1);
    let els = pick(2) == 0;
    let want = select(f.clone(), &is_x, &mut |mut e| {
        if v.is_empty() && els { attr_set(&mut e.attrs, "k", Some("E".into())); return vec![Node::El(e)]; }
        if k < EACH { return copies(k, &v, &vec![Node::El(e)]); }
        let mut o = vec![];
        for d in &v { let mut c = e.clone(); attr_set(&mut c.attrs, "k", Some(digit(*d))); o.push(Node::El(c)); }
        o
    });
    cover(1603);
    let w = v.clone();
    if els {
        if k < EACH { expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat_or_else(w.clone(), move |h, d| each(k, d, h.into_boxed()), |h| h.set_attribute_with_value("k", "E")))), want, 1611) }
        else { expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat_or_else(w.clone(), |h, d| h.set_attribute_with_value("k", text(d)), |h| h.set_attribute_with_value("k", "E")))), want, 1613) }
    } else {
        if k < EACH { expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat(w.clone(), move |h, d| each(k, d, h.into_boxed())))), want, 1615) }
        else { expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat(w.clone(), |h, d| h.set_attribute_with_value("k", text(d))))), want, 1617) }
    }
}
/// The contents of one element.
fn contents(n: usize, depth: usize, m: u8) {
    let f = placed(n, depth);
    let v = items(m);
    let k = pick(EACH);
    let els = pick(2) == 0;
    let then = pick(2) == 0;
    let want = select(f.clone(), &is_x, &mut |e| {
        if v.is_empty() && els { return vec![leaf("E"), Node::El(e)]; }
        let mut e = e.contents(|c| copies(k, &v, &c));
        if then && !els { attr_set(&mut e.attrs, "w", None); }
        vec![Node::El(e)]
    });
    cover(1604);
    let w = v.clone();
    if els {
        expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat_contents_or_else(w.clone(), move |h, d| each(k, d, h.into_boxed()), |h| h.prepend("E")))), want, 1621)
    } else if then {
        expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat_contents(w.clone(), move |h, d| each(k, d, h.into_boxed())).set_empty_attribute("w"))), want, 1623)
    } else {
        expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat_contents(w.clone(), move |h, d| each(k, d, h.into_boxed())))), want, 1625)
    }
}
/// Repetition in repetition, and after other edits.
fn nested(n: usize, depth: usize, m: u8) {
    let f = placed(n, depth);
    let v = items(m);
    let w = items(m);
    let way = pick(4);
    let num = |d: &u8| leaf(&digit(*d));
    let want = select(f.clone(), &is_x, &mut |mut e| {
        let mut o = vec![];
        match way {
            0 => for d in &v { for c in &w { o.push(Node::El(e.clone())); o.push(num(c)); } o.push(num(d)); },
            1 => o.push(Node::El(e.contents(|c| { let mut k = vec![]; for d in &v { for g in &w { k.extend(c.clone()); k.push(num(g)); } k.push(num(d)); } k }))),
            2 => for d in &v { let mut x = e.clone(); attr_set(&mut x.attrs, "k", Some(digit(*d))); o.push(Node::El(x.contents(|c| { let mut k = vec![]; for g in &w { k.extend(c.clone()); k.push(num(g)); } k }))); },
            _ => { attr_set(&mut e.attrs, "k", Some("0".into())); let e = e.contents(|mut c| { c.push(leaf("q")); c }); for d in &v { let mut x = e.clone(); attr_extend(&mut x.attrs, "k", &digit(*d), ","); o.push(Node::El(x)); } }
        }
        o
    });
    match way {
        0 => expect(&f, |t| t.transform(|h| h.select("#x", move |e| { let w = w.clone(); e.repeat(v.clone(), move |h, d| h.repeat(w.clone(), |h, c| h.append(text(c))).append(text(d))) })), want, 1631),
        1 => expect(&f, |t| t.transform(|h| h.select("#x", move |e| { let w = w.clone(); e.repeat_contents(v.clone(), move |h, d| h.repeat(w.clone(), |h, c| h.append(text(c))).append(text(d))) })), want, 1633),
        2 => expect(&f, |t| t.transform(|h| h.select("#x", move |e| { let w = w.clone(); e.repeat(v.clone(), move |h, d| h.set_attribute_with_value("k", text(d)).repeat_contents(w.clone(), |h, c| h.append(text(c)))) })), want, 1635),
        _ => expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.set_attribute_with_value("k", "0").append_contents("q").repeat(v.clone(), |h, d| h.add_to_attribute("k", text(d), ",")))), want, 1637),
    }
}
/// Every edit of the catalogue in each of two copies.
fn edited(n: usize) {
    let f = placed(n, 2);
    let k = pick(EDITS);
    let p = is_a(Mark::Tag);
    let want = select(f.clone(), &is_x, &mut |e| {
        let mut o = vec![leaf("a")];
        o.extend(edit_ref(k, &p, e.clone()));
        o.push(leaf("b"));
        o.extend(edit_ref(k, &p, e));
        o
    });
    expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat(vec!["a", "b"], move |e, s| edit(k, "a", e.into_boxed_element()).prepend(s)))), want, 1641);
}
/// Iterators of several kinds, called no more than needed.
struct Count<'c> { left: u8, calls: &'c Cell<u32>, hint: u8, more: bool, over: bool }
impl<'c> Iterator for Count<'c> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        self.calls.set(self.calls.get() + 1);
        // Asked again behind its end, it may go on.
        if self.over { return if self.more { Some(9) } else { None }; }
        if self.left == 0 { self.over = true; return None; }
        self.left -= 1;
        Some(self.left)
    }
    /// What is true of the number of items that are left, more or less exactly.
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left as usize;
        match self.hint { 0 => (0, None), 1 => (n, Some(n)), 2 => (0, Some(n)), 3 => (n, None), _ => (0, Some(n + 7)) }
    }
}
fn iterators() {
    let n = pick(4);
    let way = pick(4);
    let (hint, more) = (pick(5), pick(2) == 1);
    let calls = Cell::new(0u32);
    let mut e = el("a", Form::Pair);
    e.attrs = vec![("id".into(), Some("x".into()))];
    e.kids = vec![leaf("t")];
    let f = vec![Node::El(e)];
    let it = || Count { left: n, calls: &calls, hint, more, over: false };
    let mut want = vec![];
    for i in (0..n).rev() { if way % 2 == 0 { let mut g = f.clone(); want.append(&mut g); } else { want.push(leaf("t")); } want.push(leaf(&digit(i))); }
    if way % 2 == 1 { let w = std::mem::take(&mut want); if let Node::El(mut e) = f[0].clone() { e.kids = w; want.push(Node::El(e)); } }
    if n == 0 && way > 1 { want = vec![leaf("E")]; }
    let it = &it;
    match way {
        0 => expect(&f, |t| t.transform(|h| h.repeat(it(), |h, d| h.append(text(d)))), want, 1652),
        1 => expect(&f, |t| t.transform(|h| h.select_once("a", |h| h.repeat_contents(it(), |h, d| h.append(text(d))))), want, 1654),
        2 => expect(&f, |t| t.transform(|h| h.repeat_or_else(it(), |h, d| h.append(text(d)), |h| h.replace("E"))), want, 1656),
        _ => expect(&f, |t| t.transform(|h| h.select_once("a", |h| h.repeat_contents_or_else(it(), |h, d| h.append(text(d)), |h| h.replace("E")))), want, 1658),
    }
}
/// Many items, and long and deep streams repeated.
fn many() {
    let n = MANY[pick(6) as usize];
    let way = pick(4);
    let els = pick(2) == 0;
    let wide = pick(2) == 0;
    cover(1605);
    let items: Vec<u8> = if wide { (0..n).map(|i| (i % 10) as u8).collect() } else { vec![1, 2] };
    let mut e = el("a", Form::Pair);
    e.attrs.push(("id".into(), Some("x".into())));
    e.kids = if wide { vec![leaf("t")] } else { nest(n, &["a"], vec![leaf("t")]) };
    let f = vec![Node::El(el("a", Form::Pair)), Node::El(e), leaf("z"), Node::El(el("a", Form::Solo))];
    let mut copies = |e: Forest| { let mut o = vec![]; for i in &items { o.extend(e.clone()); o.push(leaf(&digit(*i))); } o };
    let want = match way {
        0 => copies(f.clone()),
        1 => select(f.clone(), &is_x, &mut |e| copies(vec![Node::El(e)])),
        _ => select(f.clone(), &is_x, &mut |e| vec![Node::El(e.contents(&mut copies))]),
    };
    let v = items.clone();
    match (way, els) {
        (0, false) => expect(&f, |t| t.transform(|h| h.repeat(v, |h, d| h.append(d))), want, 1661),
        (0, true) => expect(&f, |t| t.transform(|h| h.repeat_or_else(v, |h, d| h.append(d), |h| h)), want, 1663),
        (1, false) => expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat(v.clone(), |h, d| h.append(d)))), want, 1665),
        (1, true) => expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat_or_else(v.clone(), |h, d| h.append(d), |h| h))), want, 1667),
        (_, false) => expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat_contents(v.clone(), |h, d| h.append(d)))), want, 1669),
        (_, true) => expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat_contents_or_else(v.clone(), |h, d| h.append(d), |h| h))), want, 1671),
    }
}

fn layers<'t>(h: BoxedApi<'t>, n: usize, way: u8) -> BoxedApi<'t> {
    if n == 0 { return h.append("x").into_boxed() }
    match way {
        0 => h.repeat(0u8..1, move |h, _| layers(h.into_boxed(), n - 1, way)).into_boxed(),
        1 => h.repeat_or_else(0u8..0, move |h, i| h.append(i), move |h| layers(h.into_boxed(), n - 1, way)).into_boxed(),
        _ => h.select("a", move |e| e.repeat_contents(0u8..1, move |h, _| layers(h.into_boxed(), n - 1, way))).into_boxed(),
    }
}
fn layers_ref(f: Forest, n: usize, way: u8) -> Forest {
    if n == 0 { let mut f = f; f.push(leaf("x")); return f }
    if way < 2 { return layers_ref(f, n - 1, way) }
    select(f, &is_a(Mark::Tag), &mut |e| vec![Node::El(e.contents(|c| layers_ref(c, n - 1, way)))])
}
/// Repetitions in repetitions.
fn deep() {
    let n = [3, 17, 40][pick(3) as usize];
    let way = pick(3);
    let f = nest(n, &["a"], vec![Node::El(el("a", Form::Pair))]);
    let want = layers_ref(f.clone(), n, way);
    expect(&f, |t| t.transform(|h| layers(h.into_boxed(), n, way)), want, 1673);
}

harnesses! {
    /// [qt] 3 to 40 repetitions in each other
    fn c16_deep() { deep() }
    /// [qt] 2 to 1030 items, and 2 to 1030 nested elements copied
    fn c16_many() { many() }
    /// [q] streams of up to 3 nodes, up to 2 symbolic items, 7 transformations, with and without alternative
    fn c16_whole3() { whole(3, 3, 2) }
    /// [t] streams of up to 4 nodes, up to 3 symbolic items
    fn c16_whole4() { whole(4, 4, 3) }
    /// [q] elements of any form with up to 2 nodes, up to 2 items, 8 transformations
    fn c16_element2() { element(2, 2, 2) }
    /// [t] elements of any form with up to 3 nodes, up to 3 items
    fn c16_element3() { element(3, 3, 3) }
    /// [q] contents of up to 2 nodes, up to 2 items, 7 transformations
    fn c16_contents2() { contents(2, 2, 2) }
    /// [t] contents of up to 3 nodes, up to 3 items
    fn c16_contents3() { contents(3, 3, 3) }
    /// [q] four nestings of repetitions, up to 2 items each, contents of up to 2 nodes
    fn c16_nested2() { nested(2, 2, 2) }
    /// [t] four nestings of repetitions, up to 3 items each, contents of up to 3 nodes
    fn c16_nested3() { nested(3, 3, 3) }
    /// [q] every edit of the catalogue in two copies of elements with up to 2 nodes
    fn c16_edited2() { edited(2) }
    /// [t] every edit of the catalogue in two copies of elements with up to 3 nodes
    fn c16_edited3() { edited(3) }
    /// [qt] iterators of up to 3 items that tell their number more or less exactly and may go on behind their end, four methods
    fn c16_iterators() { iterators() }
}
