//! C14: attribute edits change the named attribute and nothing else.
use crate::{model::*, trees::*, vx::*};
use html5_fuser::text::Value;
use html5_fuser::BoxedElementApi;

/// Two-letter name: a symbolic letter and `t`; keeps edits and attributes apart from `id`.
fn name() -> &'static str { leak(format_cat(&[&letter_str(), "t"])) }

#[derive(Clone)]
#[derive(Copy)]
struct Op { k: u8, n: &'static str, v: &'static str, s: &'static str }
const OPS: u8 = 11;

/// Values need encoding or not, or are empty.
fn value(i: usize) -> &'static str { [["v", "", "<&", "\u{e9} "], ["w", "", "\">", "x y"], ["u", "", "'", "\u{20ac}"]][i % 3][pick(4) as usize] }
fn op(i: usize, rich: bool) -> Op {
    let k = pick(OPS);
    let v = if !rich { ["<v", "w", "u"][i % 3] } else if k == 1 || k == 3 || k == 7 || k == 8 || k == 9 { ["v", "w", "u"][i % 3] } else { value(i) };
    let s = if !rich { ":" } else if k == 5 || k == 6 { [":", " ", "", "&"][pick(4) as usize] } else { "" };
    Op { k, n: name(), v, s }
}
fn real<'t>(o: &Op, e: BoxedElementApi<'t>) -> BoxedElementApi<'t> {
    match o.k {
        0 => e.add_attribute_with_value(o.n, o.v).into_boxed_element(),
        1 => e.add_empty_attribute(o.n).into_boxed_element(),
        2 => e.add_attribute(o.n, Some(o.v)).into_boxed_element(),
        3 => e.add_attribute(o.n, None::<Value>).into_boxed_element(),
        4 => e.set_attribute_with_value(o.n, o.v).into_boxed_element(),
        5 => e.add_to_attribute(o.n, o.v, o.s).into_boxed_element(),
        6 => e.add_to_attribute(o.n, Value::from_unencoded_str(o.v), Value::from_unencoded_str(o.s)).into_boxed_element(),
        7 => e.set_empty_attribute(o.n).into_boxed_element(),
        8 => e.remove_attribute(o.n).into_boxed_element(),
        9 => e.set_attribute(o.n, None::<Value>).into_boxed_element(),
        _ => e.replace_attribute_value_if_exists(o.n, o.v).into_boxed_element(),
    }
}
fn refr(o: &Op, a: &mut Attrs) {
    let v = encode(o.v);
    match o.k {
        0 | 2 => attr_add(a, o.n, Some(v)),
        1 | 3 => attr_add(a, o.n, None),
        4 => attr_set(a, o.n, Some(v)),
        5 | 6 => attr_extend(a, o.n, &v, &encode(o.s)),
        7 | 9 => attr_set(a, o.n, None),
        8 => attr_remove(a, o.n),
        _ => attr_replace(a, o.n, Some(v)),
    }
}

/// An element with up to `n` attributes with symbolic names, in some form.
fn element(n: usize, deep: bool) -> Forest {
    let form = [Form::Pair, Form::Solo, Form::Void][if deep { pick(3) as usize } else { 0 }];
    let mut e = el(match form { Form::Pair => "p", Form::Solo => "s", Form::Void => "img" }, form);
    for i in 0..n {
        let v = match pick(4) { 0 => break, 1 => None, 2 => Some(["1", "2", "3", "4"][i].to_string()), _ => Some(String::new()) };
        e.attrs.push((name().to_string(), v));
    }
    let at = pick(e.attrs.len() as u8 + 1) as usize;
    e.attrs.insert(at, ("id".into(), Some("x".into())));
    if form == Form::Pair { let mut i = el("i", Form::Pair); i.attrs.push(("at".into(), Some("&amp;".into()))); e.kids = vec![leaf("t"), Node::El(i)]; }
    let mut s = el("q", Form::Solo);
    s.attrs.push(("at".into(), None));
    vec![Node::El(s.clone()), Node::El(e), Node::El(s)]
}
fn is_x(e: &El) -> bool { e.has_id("x") }

fn seq(attrs: usize, ops: usize, deep: bool) {
    let f = element(attrs, deep);
    let os: Vec<Op> = (0..ops).map(|i| op(i, ops == 1)).collect();
    let want = select(f.clone(), &is_x, &mut |mut e| { for o in &os { refr(o, &mut e.attrs); } vec![Node::El(e)] });
    cover(1401);
    expect(&f, |t| t.transform(|h| h.select("#x", move |e| { let mut e = e.into_boxed_element(); for o in &os { e = real(o, e); } e })), want, 1401);
}

/// Symbolic values: present and added ones.
fn values<const N: usize, const M: usize>() {
    let old = sym_ascii::<M>(|c| c != b'"');
    let v = leak(sym_str::<N>());
    let k = pick(4);
    let o = Op { k: [0, 4, 5, 10][k as usize], n: "N", v, s: ";" };
    let mut e = el("p", Form::Pair);
    e.attrs.push(("n".into(), Some(old)));
    e.attrs.push(("m".into(), None));
    let f = vec![Node::El(e)];
    let want = select(f.clone(), &|_| true, &mut |mut e| { refr(&o, &mut e.attrs); vec![Node::El(e)] });
    cover(1402);
    expect(&f, |t| t.transform(|h| h.select("p", move |e| real(&o, e.into_boxed_element()))), want, 1403);
}

/// Symbolic names with several attributes of each other's length.
fn names<const N: usize>() {
    let ok: fn(u8) -> bool = |c| (c > b'>') & (c < 0x7f);
    let (a, b) = (sym_ascii::<N>(ok), sym_ascii::<N>(ok));
    let n = leak(sym_ascii::<N>(ok));
    let o = Op { k: [0, 4, 5, 7, 8, 10][pick(6) as usize], n, v: "v", s: ";" };
    let mut e = el("p", Form::Pair);
    e.attrs.push((a, Some("1".into())));
    e.attrs.push((b, Some("2".into())));
    let f = vec![Node::El(e)];
    let want = select(f.clone(), &|_| true, &mut |mut e| { refr(&o, &mut e.attrs); vec![Node::El(e)] });
    expect(&f, |t| t.transform(|h| h.select("p", move |e| real(&o, e.into_boxed_element()))), want, 1405);
}

/// One edit applied to every element of a forest.
fn every(n: usize, depth: usize) {
    let f = forest(n, depth, Mark::Rich);
    let o = Op { k: pick(OPS), n: "x", v: "v", s: ";" };
    let p = is_a(Mark::Tag);
    let want = select(f.clone(), &p, &mut |mut e| { refr(&o, &mut e.attrs); vec![Node::El(e)] });
    expect(&f, |t| t.transform(|h| h.select("a", move |e| real(&o, e.into_boxed_element()))), want, 1407);
}

/// Edits of what other edits put out: copies, alternatives, made elements, contents edits in between.
fn mixed() {
    let f = element(1, true);
    let o = op(0, false);
    let p = op(1, false);
    let way = pick(4);
    let both = |mut e: El, mid: &dyn Fn(El) -> El| { refr(&o, &mut e.attrs); e = mid(e); refr(&p, &mut e.attrs); vec![Node::El(e)] };
    let want = select(f.clone(), &is_x, &mut |e| match way {
        0 => both(e, &|e| e.contents(|mut c| { c.push(leaf("q")); c })),
        1 => { let mut v = both(e.clone(), &|e| e); let mut w = both(e, &|e| e); v.append(&mut w); v }
        2 => both(e, &|e| { let id = |e: &El| ieq(&e.name, "i"); e.contents(|c| select(c, &id, &mut |mut e| { refr(&o, &mut e.attrs); vec![Node::El(e)] })) }),
        _ => both(e, &|e| e),
    });

    match way {
        0 => expect(&f, |t| t.transform(|h| h.select("#x", move |e| real(&p, real(&o, e.into_boxed_element()).append_contents("q").into_boxed_element()))), want, 1411),
        1 => expect(&f, |t| t.transform(|h| h.select("#x", move |e| e.repeat(0..2, move |e, _: i32| real(&p, real(&o, e.into_boxed_element()))))), want, 1413),
        2 => expect(&f, |t| t.transform(|h| h.select("#x", move |e| real(&p, real(&o, e.into_boxed_element()).subselect("i", move |e| real(&o, e.into_boxed_element())).into_boxed_element()))), want, 1415),
        _ => expect(&f, |t| t.transform(|h| h.select("#x", move |e| real(&o, e.into_boxed_element())).select("#x", move |e| real(&p, e.into_boxed_element()))), want, 1417),
    }
}

/// Long attribute lists.
fn many() {
    let n = MANY[pick(6) as usize];
    let mut e = el("p", Form::Pair);
    for i in 0..n { e.attrs.push((format_cat(&["a", &i.to_string()]), if i % 3 == 0 { None } else { Some(i.to_string()) })); if i % 7 == 6 { e.attrs.push(("Many".into(), Some("m".into()))); } }
    let name = leak(match pick(5) { 0 => "A0".to_string(), 1 => format_cat(&["a", &(n - 1).to_string()]), 2 => format_cat(&["a", &(n / 2).to_string()]), 3 => "many".to_string(), _ => "none".to_string() });
    let o = Op { k: pick(OPS), n: name, v: "<", s: ";" };
    let f = vec![Node::El(e)];
    let want = select(f.clone(), &|_| true, &mut |mut e| { refr(&o, &mut e.attrs); vec![Node::El(e)] });
    expect(&f, |t| t.transform(|h| h.select("p", move |e| real(&o, e.into_boxed_element()))), want, 1421);
}

/// Long names and values.
fn sized() {
    let l = crate::gen::sized();
    let n = l.len();
    let k = [0, 4, 5, 7, 8, 10][pick(6) as usize];
    let long = leak(crate::gen::times("q", n));
    let mut e = el("p", Form::Pair);
    e.attrs.push(("b".into(), None));
    let by_name = pick(2) == 0;
    let o = if by_name {
        for b in l.bytes() { assume((b > b'>') & (b < 0x7f)); }
        e.attrs.push((l, Some("1".into())));
        Op { k, n: long, v: "v", s: ";" }
    } else {
        e.attrs.push(("n".into(), Some(long.to_string())));
        Op { k, n: "N", v: leak(l), s: ";" }
    };
    e.attrs.push(("c".into(), Some("2".into())));
    let f = vec![Node::El(e)];
    let want = select(f.clone(), &|_| true, &mut |mut e| { refr(&o, &mut e.attrs); vec![Node::El(e)] });
    expect(&f, |t| t.transform(|h| h.select("p", move |e| real(&o, e.into_boxed_element()))), want, 1431);
}

harnesses! {
    /// [qt] names and values of up to 257 bytes, one of them symbolic, 6 edits
    fn c14_sized() { sized() }
    /// [qt] 2 to 1030 attributes, of which some are named alike; 11 edits of the first, the last, one in the middle, all or none
    fn c14_many() { many() }
    /// [q] up to 2 attributes with symbolic names, with and without value, any form; one of 11 edits with a symbolic name
    fn c14_seq2_1() { seq(2, 1, true) }
    /// [t] up to 4 attributes, one edit
    fn c14_seq4_1() { seq(4, 1, true) }
    /// [q] up to 1 attribute, two edits
    fn c14_seq1_2() { seq(1, 2, false) }
    /// [t] up to 2 attributes, any form, two edits
    fn c14_seq2_2() { seq(2, 2, true) }
    /// [t] no or one attribute, three edits
    fn c14_seq1_3() { seq(1, 3, false) }
    /// [q] any old value of 2 bytes, any new value of 3 bytes
    fn c14_values2() { values::<3, 2>() }
    /// [t] any old value of 3 bytes, any new value of 5 bytes
    fn c14_values4() { values::<5, 3>() }
    /// [q] three symbolic names of 1 byte
    fn c14_names1() { names::<1>() }
    /// [q] three symbolic names of 2 bytes
    fn c14_names2() { names::<2>() }
    /// [t] three symbolic names of 3 bytes
    fn c14_names3() { names::<3>() }
    /// [q] each selected element of every forest of 3 nodes
    fn c14_every3() { every(3, 3) }
    /// [t] each selected element of every forest of 4 nodes
    fn c14_every4() { every(4, 4) }
    /// [t] two edits around a contents edit, a subselection, in copies, in two selections
    fn c14_mixed() { mixed() }
}
