//! C18: errors in a transform surface, exactly when reached, and are the right ones.
use crate::{canon::*, ident::*, model::*, trees::*, vx::*};
use html5_fuser::event::StreamError;
use html5_fuser::select::{self, StaticError};
use html5_fuser::template::InputError;
use html5_fuser::text::{Identifier, IdentifierError, Value};
use html5_fuser::{BoxedApi, BoxedElementApi, Template};

// In the reference an error is a leaf standing where it surfaces; the first one in the result is reported.
const MARK: char = '\u{1}';
fn bang(code: u8) -> Node { leaf(&format_cat(&["\u{1}", &byte_str(b'0' + code)])) }
fn errors(f: &[Node], o: &mut Vec<u8>) {
    for n in f {
        match n {
            Node::Leaf(s) => if s.starts_with(MARK) { o.push(s.as_bytes()[1] - b'0') },
            Node::El(e) => errors(&e.kids, o),
        }
    }
}
fn kept(f: &[Node]) -> Forest { let mut o = vec![]; errors(f, &mut o); o.into_iter().map(bang).collect() }

/// The character that makes a name bad, one per place.
const BAD: [char; 4] = ['=', '<', '&', ','];
fn name(code: u8) -> &'static str { ["x=", "x<", "x&", "x,"][code as usize] }
fn limit(code: u8) -> StreamError { StreamError::Input { error: InputError::LengthLimitExceeded { limit: 70 + code as usize } } }
fn content(code: u8) -> Result<Template, StreamError> { Err(limit(code)) }
fn text(code: u8) -> Result<Value, InputError> { Err(InputError::LengthLimitExceeded { limit: 70 + code as usize }) }

/// Which place an error is from; the form must be that of the operation.
fn code_of(e: &StreamError) -> (u8, u8) {
    let bad = |e: &IdentifierError| match e { IdentifierError::Forbidden { forbidden } => BAD.iter().position(|c| c == forbidden).map_or(99, |p| p as u8), _ => 99 };
    match e {
        StreamError::Input { error: InputError::LengthLimitExceeded { limit } } => (1, limit.wrapping_sub(70) as u8),
        StreamError::Identifier { error } => (2, bad(error)),
        StreamError::StaticSelector { error: StaticError::Tag { error } } => (3, bad(error)),
        StreamError::StaticSelector { error: StaticError::Id { error } } => (4, bad(error)),
        StreamError::StaticSelector { error: StaticError::Class { index: 1, error } } => (5, bad(error)),
        StreamError::Selector { error: select::Error::Class { error } } => (6, bad(error)),
        StreamError::Selector { error: select::Error::Tag { error } } => (7, bad(error)),
        _ => (0, 99),
    }
}
fn kind_of(k: u8) -> u8 {
    match k { 0..=6 | 27 => 1, 7..=18 => 2, 19 | 23 => 3, 20 | 24 => 4, 21 | 25 => 5, 22 => 6, 26 => 7, _ => 0 }
}
fn sel(kind: u8, code: u8) -> &'static str {
    match kind { 3 => ["x=", "x<", "x&", "x,"][code as usize], 4 => ["a#=", "#<", "#&.c", "#,"][code as usize], _ => [".a.=.b", "a.a.<", "#b.a.&", ".b.,"][code as usize] }
}

pub const BADS: u8 = 30;
/// An operation that fails on the element, or one that does not (28, 29).
fn bad<'t>(k: u8, c: u8, e: BoxedElementApi<'t>) -> BoxedApi<'t> {
    let n = name(c);
    match k {
        0 => e.append(content(c)).into_boxed(),
        1 => e.prepend(text(c)).into_boxed(),
        2 => e.replace(content(c)).into_boxed(),
        3 => e.append_contents(content(c)).into_boxed(),
        4 => e.prepend_contents(text(c)).into_boxed(),
        5 => e.replace_contents(content(c)).into_boxed(),
        6 => e.apply_as_template(move |_| content(c)).into_boxed(),
        7 => e.add_attribute(n, Some("v")).into_boxed(),
        8 => e.add_attribute_with_value(n, "v").into_boxed(),
        9 => e.add_empty_attribute(n.parse::<Identifier>()).into_boxed(),
        10 => e.add_to_attribute(n, "v", ",").into_boxed(),
        11 => e.replace_attribute_value_if_exists(n, "v").into_boxed(),
        12 => e.set_attribute_with_value(n.parse::<Identifier>(), "v").into_boxed(),
        13 => e.set_attribute(n, None::<Value>).into_boxed(),
        14 => e.set_empty_attribute(n).into_boxed(),
        15 => e.remove_attribute(n).into_boxed(),
        16 => e.add_class(n).into_boxed(),
        17 => e.remove_class(n.parse::<Identifier>()).into_boxed(),
        18 => e.set_id(n).into_boxed(),
        19 => e.select(sel(3, c), |e| e.remove()).into_boxed(),
        20 => e.select_once(sel(4, c), |e| e.remove()).into_boxed(),
        21 => e.select_direct(sel(5, c), |e| e.remove()).into_boxed(),
        22 => e.select_direct_once(n.parse::<select::Class>(), |e| e.remove()).into_boxed(),
        23 => e.subselect(sel(3, c), |e| e.remove()).into_boxed(),
        24 => e.subselect_once(sel(4, c), |e| e.remove()).into_boxed(),
        25 => e.subselect_direct(sel(5, c), |e| e.remove()).into_boxed(),
        26 => e.subselect_direct_once(n.parse::<select::Tag>(), |e| e.remove()).into_boxed(),
        27 => e.subselect_contents(move |h| h.append(content(c)).prepend("p")).into_boxed(),
        28 => e.append_contents("k").into_boxed(),
        _ => e.remove().into_boxed(),
    }
}
fn bad_ref(k: u8, c: u8, e: El) -> Forest {
    let x = bang(c);
    let old = kept(&[Node::El(e.clone())]);
    match k {
        0 => vec![Node::El(e), x],
        1 => vec![x, Node::El(e)],
        2 => { let mut f = vec![x]; f.extend(old); f }
        3 => vec![Node::El(e.contents(|mut f| { f.push(x); f }))],
        4 => vec![Node::El(e.contents(|mut f| { f.insert(0, x); f }))],
        5 => vec![Node::El(e.contents(|f| { let mut n = vec![x]; n.extend(kept(&f)); n }))],
        6 => { let mut f = old; f.push(x); f }
        7..=26 => vec![x, Node::El(e)],
        27 => vec![Node::El(e.contents(|mut f| { f.insert(0, leaf("p")); f.push(x); f }))],
        28 => vec![Node::El(e.contents(|mut f| { f.push(leaf("k")); f }))],
        _ => old,
    }
}

/// The transform fails with the first error of the expected result, or gives that result.
fn expect_first(f: &Forest, real: impl FnOnce(&Template) -> Result<Template, StreamError>, want: Forest, kinds: [u8; 4], code: u32) {
    let mut es = vec![];
    errors(&want, &mut es);
    match real(&parse(&src(f))) {
        Ok(r) => {
            check(es.is_empty(), code, "an error that is reached does not surface");
            cover(1801);
            let r = r.to_string();
            check_eq(r.as_bytes(), show(&want).as_bytes(), code + 1, "errors that are not reached change the result");
            out(r.as_bytes());
        }
        Err(e) => {
            check(!es.is_empty(), code + 2, "an error that is not reached surfaces");
            cover(1802);
            if es.len() > 1 { cover(1803) }
            let g = code_of(&e);
            check(g.0 == kinds[es[0] as usize], code + 3, "an error surfaces in another form");
            check(g.1 == es[0], code + 4, "not the first error in document order surfaces");
            out(&[g.0, g.1]);
        }
    }
}

/// One failing operation in each selection.
fn single(n: usize, depth: usize) { single_of(forest(n, depth, Mark::Rich)) }
fn single_of(f: Forest) {
    let p = is_a(Mark::Tag);
    let k = pick(BADS);
    let which = pick(4);
    let mut inner = |e: El| bad_ref(k, 0, e);
    let want = match which {
        0 => select(f.clone(), &p, &mut inner),
        1 => select_once(f.clone(), &p, &mut inner),
        2 => select_direct(f.clone(), &p, &mut inner),
        _ => select_direct_once(f.clone(), &p, &mut inner),
    };
    let kinds = [kind_of(k); 4];
    match which {
        0 => expect_first(&f, |t| t.transform(|h| h.select("a", move |e| bad(k, 0, e.into_boxed_element()))), want, kinds, 1801),
        1 => expect_first(&f, |t| t.transform(|h| h.select_once("a", move |e| bad(k, 0, e.into_boxed_element()))), want, kinds, 1806),
        2 => expect_first(&f, |t| t.transform(|h| h.select_direct("a", move |e| bad(k, 0, e.into_boxed_element()))), want, kinds, 1811),
        _ => expect_first(&f, |t| t.transform(|h| h.select_direct_once("a", move |e| bad(k, 0, e.into_boxed_element()))), want, kinds, 1816),
    }
}
/// Two failing operations, one after or inside the other.
fn double(n: usize, depth: usize, full: bool) {
    let f = forest(n, depth, Mark::Rich);
    let a = is_a(Mark::Tag);
    let b = |e: &El| ieq(&e.name, "b");
    let few = [0u8, 1, 2, 3, 5, 6, 8, 19, 24, 28, 29];
    let k = few[pick(11) as usize];
    let l = if full { pick(BADS) } else { few[pick(11) as usize] };
    let kinds = [kind_of(k), kind_of(l), 0, 0];
    match pick(4) {
        0 => {
            let want = select(select(f.clone(), &a, &mut |e| bad_ref(k, 0, e)), &b, &mut |e| bad_ref(l, 1, e));
            expect_first(&f, |t| t.transform(|h| h.select("a", move |e| bad(k, 0, e.into_boxed_element())).select("b", move |e| bad(l, 1, e.into_boxed_element()))), want, kinds, 1821)
        }
        1 => {
            let want = select(f.clone(), &a, &mut |e| select(bad_ref(k, 0, e), &b, &mut |e| bad_ref(l, 1, e)));
            expect_first(&f, |t| t.transform(|h| h.select("a", move |e| bad(k, 0, e.into_boxed_element()).select("b", move |e| bad(l, 1, e.into_boxed_element())))), want, kinds, 1826)
        }
        2 => {
            let want = select(f.clone(), &a, &mut |e| bad_ref(k, 0, e.contents(|c| select(c, &b, &mut |e| bad_ref(l, 1, e)))));
            expect_first(&f, |t| t.transform(|h| h.select("a", move |e| bad(k, 0, e.subselect("b", move |e| bad(l, 1, e.into_boxed_element())).into_boxed_element()))), want, kinds, 1831)
        }
        _ => {
            let mut want = select_once(f.clone(), &a, &mut |e| bad_ref(k, 0, e));
            want.push(bang(2));
            let kinds = [kind_of(k), 0, 1, 0];
            expect_first(&f, |t| t.transform(|h| h.append(content(2)).select_once("a", move |e| bad(k, 0, e.into_boxed_element()))), want, kinds, 1836)
        }
    }
}
/// Errors of the whole stream: selectors and content; nothing can avoid them.
fn streams(n: usize) {
    let f = forest(pick(n as u8 + 1) as usize, 2, Mark::Rich);
    let k = pick(9);
    let (x, y) = (bang(0), bang(1));
    let mut want = f.clone();
    let then = pick(4);
    let kinds = [if k < 5 { [3, 4, 5, 6, 7][k as usize] } else { 1 }, 1, 0, 0];
    match k {
        0..=5 => want.insert(0, x),
        6 => want.push(x),
        7 => want = vec![x],
        _ => want.push(x),
    }
    match then {
        0 => (),
        1 => want.push(y),
        2 => want.insert(0, y),
        _ => { let mut n = vec![leaf("r")]; n.extend(kept(&want)); want = n; }
    }
    expect_first(&f, |t| t.transform(|h| {
        let h: BoxedApi = match k {
            0 => h.select(sel(3, 0), |e| e.remove()).into_boxed(),
            1 => h.select_once(sel(4, 0), |e| e.remove()).into_boxed(),
            2 => h.select_direct(sel(5, 0), |e| e.remove()).into_boxed(),
            3 => h.select_direct_once(name(0).parse::<select::Class>(), |e| e.remove()).into_boxed(),
            4 => h.select(name(0).parse::<select::Tag>(), |e| e.remove()).into_boxed(),
            5 => h.prepend(text(0)).into_boxed(),
            6 => h.append(content(0)).into_boxed(),
            7 => h.replace(content(0)).into_boxed(),
            _ => h.apply_as_template(|_| content(0)).into_boxed(),
        };
        match then { 0 => h, 1 => h.append(content(1)).into_boxed(), 2 => h.prepend(content(1)).into_boxed(), _ => h.replace("r").into_boxed() }
    }), want, kinds, 1841);
}
/// In repetitions and conditions.
fn nested(n: usize) {
    let f = forest(n, 2, Mark::Rich);
    let a = is_a(Mark::Tag);
    let k = pick(BADS);
    let m = pick(3);
    let kinds = [kind_of(k), 1, 0, 0];
    match pick(5) {
        0 => {
            let want = select(f.clone(), &a, &mut |e| { let mut o = vec![]; for _ in 0..m { o.extend(bad_ref(k, 0, e.clone())); } o });
            expect_first(&f, |t| t.transform(|h| h.select("a", move |e| e.repeat(0..m, move |e, _| bad(k, 0, e.into_boxed_element())))), want, kinds, 1851)
        }
        1 => {
            let want = select(f.clone(), &a, &mut |e| { let o = bad_ref(k, 0, e); let es = kept(&o); if es.is_empty() { let mut r = vec![]; for _ in 0..m { r.extend(o.clone()); } r } else { es } });
            expect_first(&f, |t| t.transform(|h| h.select("a", move |e| bad(k, 0, e.into_boxed_element()).repeat(0..m, |e, _| e))), want, kinds, 1856)
        }
        2 => {
            let want = select(f.clone(), &a, &mut |e| if m == 0 { vec![bang(1), Node::El(e)] } else { bad_ref(k, 0, e) });
            expect_first(&f, |t| t.transform(|h| h.select("a", move |e| e.repeat_or_else(0..(m > 0) as u8, move |e, _| bad(k, 0, e.into_boxed_element()), |e| e.prepend(content(1))))), want, kinds, 1861)
        }
        3 => {
            let want = select(f.clone(), &a, &mut |e| vec![Node::El(e.contents(|c| { let mut o = vec![]; for _ in 0..m { o.extend(select(c.clone(), &a, &mut |e| bad_ref(k, 0, e))); } o }))]);
            expect_first(&f, |t| t.transform(|h| h.select("a", move |e| e.repeat_contents(0..m, move |h, _| h.select("a", move |e| bad(k, 0, e.into_boxed_element()))))), want, kinds, 1866)
        }
        _ => {
            let want = select(f.clone(), &a, &mut |e| if m == 0 { bad_ref(k, 0, e) } else { vec![Node::El(e)] });
            expect_first(&f, |t| t.transform(|h| h.select("a", move |e| e.into_boxed_element().apply_if_else(m == 0, move |e| bad(k, 0, e).into_boxed(), |e| e.into_boxed()))), want, kinds, 1871)
        }
    }
}
/// Any name in any operation taking one: works when valid, fails with its own reason otherwise.
fn names<const N: usize>() {
    let s = leak(sym_str::<N>());
    let k = 7 + pick(13);
    let want = fault(s);
    let mut e = el("p", Form::Pair);
    e.kids.push(Node::El(el("q", Form::Solo)));
    let f = vec![Node::El(e)];
    let parsed = pick(2) == 1;
    let t = parse(&src(&f));
    let r = t.transform(|h| h.select("p", move |e| -> BoxedApi {
        let i = || s.parse::<Identifier>();
        if !parsed {
            match k {
                7 => e.add_attribute(s, Some("v")).into_boxed(), 8 => e.add_attribute_with_value(s, "v").into_boxed(), 9 => e.add_empty_attribute(s).into_boxed(),
                10 => e.add_to_attribute(s, "v", ",").into_boxed(), 11 => e.replace_attribute_value_if_exists(s, "v").into_boxed(), 12 => e.set_attribute_with_value(s, "v").into_boxed(),
                13 => e.set_attribute(s, None::<Value>).into_boxed(), 14 => e.set_empty_attribute(s).into_boxed(), 15 => e.remove_attribute(s).into_boxed(),
                16 => e.add_class(s).into_boxed(), 17 => e.remove_class(s).into_boxed(), 18 => e.set_id(s).into_boxed(), _ => e.append(Template::with_element(s)).into_boxed(),
            }
        } else {
            match k {
                7 => e.add_attribute(i(), Some("v")).into_boxed(), 8 => e.add_attribute_with_value(i(), "v").into_boxed(), 9 => e.add_empty_attribute(i()).into_boxed(),
                10 => e.add_to_attribute(i(), "v", ",").into_boxed(), 11 => e.replace_attribute_value_if_exists(i(), "v").into_boxed(), 12 => e.set_attribute_with_value(i(), "v").into_boxed(),
                13 => e.set_attribute(i(), None::<Value>).into_boxed(), 14 => e.set_empty_attribute(i()).into_boxed(), 15 => e.remove_attribute(i()).into_boxed(),
                16 => e.add_class(i()).into_boxed(), 17 => e.remove_class(i()).into_boxed(), 18 => e.set_id(i()).into_boxed(), _ => e.append(Template::with_element(i())).into_boxed(),
            }
        }
    }));
    match r {
        Ok(r) => {
            cover(1804);
            check(want.0 == 0, 1881, "an operation with an invalid name succeeds");
            out(r.to_string().as_bytes());
        }
        Err(StreamError::Identifier { error }) => {
            cover(1805);
            let g = fault_of(&error);
            // Names made elements have one restriction more.
            if k == 19 && want.0 == 0 { check(s.starts_with('!'), 1882, "an element with a valid name is refused"); return; }
            check(want.0 != 0, 1883, "an operation with a valid name fails");
            check((g.0 == want.0) & (g.1 == want.1), 1884, "the failure is about something else than the name");
        }
        Err(_) => check(false, 1885, "another kind of error surfaces"),
    }
}
/// Inserted results carry their own error through.
fn carried() {
    let src = leak(format_cat(&["<", &letter_str(), ["", ">", ">\n</x>", " =", "/>"][pick(5) as usize]]));
    let r = || Template::from_str(src, opts());
    let own = match r() { Ok(_) => None, Err(e) => Some(what_seen(&seen(&e))) };
    let own_at = match r() { Ok(_) => vec![], Err(e) => where_seen(&seen(&e)) };
    let f = vec![Node::El(el("p", Form::Solo))];
    let k = pick(4);
    let t = parse(&crate::model::src(&f));
    let got = t.transform(|h| h.select("p", move |e| -> BoxedApi { match k { 0 => e.append(r()).into_boxed(), 1 => e.prepend_contents(r()).into_boxed(), 2 => e.replace(r()).into_boxed(), _ => e.apply_as_template(move |_| Ok(r()?)).into_boxed() } }));
    match (got, own) {
        (Ok(g), None) => { cover(1806); out(g.to_string().as_bytes()) }
        (Err(StreamError::Input { error }), Some(own)) => {
            cover(1807);
            check_eq(&what_seen(&seen(&error)), &own, 1891, "an input error is changed on its way");
            check_eq(&where_seen(&seen(&error)), &own_at, 1892, "the location of an input error is changed on its way");
        }
        (Ok(_), Some(_)) => check(false, 1893, "a failed template inserted as content is ignored"),
        _ => check(false, 1894, "inserting a template fails with another error"),
    }
}

/// An error of any kind, brought in at any place, comes out as it went in, whatever the steps around it.
fn kinds() {
    let t = parse("<b>1<a>2</a></b><i/>3");
    let n = sym_u8() as usize;
    let k = pick(KINDS);
    let err = move || -> Result<Template, StreamError> { Err(made(k, n)) };
    let way = pick(14);
    let r = match way {
        0 => t.transform(|h| h.select("a", move |e| e.apply_as_template(move |_| err())).append("z")),
        1 => t.transform(|h| h.apply_as_template(move |_| err())),
        2 => t.transform(|h| h.select("a", move |e| e.append(err())).select("b", |e| e.prepend_contents("p"))),
        3 => t.transform(|h| h.select("a", move |e| e.prepend(err()).into_boxed()).select_direct("b", |e| e.subselect_direct_once("i", |e| e.remove()))),
        4 => t.transform(|h| h.select("a", move |e| e.replace(err())).select_once("b", |e| e.repeat(0u8..2, |e, _| e))),
        5 => t.transform(|h| h.select_once("a", move |e| e.append_contents(err())).select("b", |e| e.repeat_contents(0u8..2, |c, _| c))),
        6 => t.transform(|h| h.select("b", move |e| e.subselect("a", move |e| e.prepend_contents(err())).remove_contents())),
        7 => t.transform(|h| h.select("b", move |e| e.subselect_contents(move |c| c.append(err())).replace("r"))),
        8 => t.transform(|h| h.select("i", move |e| e.replace_contents(err()).into_boxed_element()).remove()),
        9 => t.transform(|h| h.prepend(err()).repeat_or_else(0u8..1, |h, _| h, |h| h)),
        10 => t.transform(|h| h.append(err()).apply_as_template(|t| Ok(t))),
        11 => t.transform(|h| h.select("b", move |e| e.repeat_contents(0u8..2, move |c, i| c.append(if i == 1 { err() } else { Template::from_str("", opts()).map_err(Into::into) })))),
        12 => t.transform(|h| h.select("a", move |e| e.apply_if_else(k < 7, move |e| e.append(err()), move |e| e.prepend(err()))).replace("x")),
        _ => t.transform(|h| h.select("i", move |e| e.apply_with_result(err(), |e, t| e.append(t), |e, x| e.append(Err::<Template, _>(x)))).select("b", |e| e.add_class("c"))),
    };
    match r {
        Ok(_) => check(false, 1895, "an error that is reached does not surface"),
        Err(e) => {
            cover(1808);
            let (e, w) = (format!("{:?}", e), format!("{:?}", made(k, n)));
            check_eq(e.as_bytes(), w.as_bytes(), 1896, "an error surfaces changed");
            out(e.as_bytes());
        }
    }
}

harnesses! {
    /// [qt] streams of 130 and 258 elements, one after or in the other
    fn c18_many() { single_of(large()) }
    /// [qt] errors of 14 kinds brought in at 14 places, symbolic numbers in them
    fn c18_kinds() { kinds() }
    /// [q] every forest of 2 nodes, 28 failing operations and 2 others, 4 ways to select
    fn c18_single2() { single(2, 2) }
    /// [t] every forest of 3 nodes
    fn c18_single3() { single(3, 3) }
    /// [q] every forest of 2 nodes, two of 11 operations in each of 4 arrangements
    fn c18_double2() { double(2, 2, false) }
    /// [t] every forest of 3 nodes, one of 11 and one of 30 operations in each of 4 arrangements
    fn c18_double3() { double(3, 3, true) }
    /// [qt] streams of up to 2 nodes, 9 failing operations, one more error before, after or in a replacement
    fn c18_streams2() { streams(2) }
    /// [q] every forest of 1 node, 30 operations in repetitions and conditions
    fn c18_nested1() { nested(1) }
    /// [t] every forest of 3 nodes
    fn c18_nested3() { nested(3) }
    /// [q] every name of 2 bytes in 13 operations, given as string or parsed
    fn c18_names2() { names::<2>() }
    /// [t] every name of 4 bytes
    fn c18_names4() { names::<4>() }
    fn c18_names0() { names::<0>() }
    /// [qt] sources that fail to parse inserted in four ways
    fn c18_carried() { carried() }
}
