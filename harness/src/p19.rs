//! C19: transforms leave their source and what they insert alone, can be repeated, and give sources that parse again.
use crate::{canon::*, model::*, trees::*, vx::*};
use html5_fuser::event::StreamError;
use html5_fuser::text::{Identifier, Value};
use html5_fuser::{BoxedApi, BoxedElementApi, Template};
use std::rc::Rc;

type Outcome = Result<Template, StreamError>;

/// The result renders to a source that reads back and renders the same, also when transformed by nothing.
fn settled(r: &Template, code: u32) -> String {
    let s = r.to_string();
    match Template::from_str(&s, opts()) {
        Ok(u) => {
            check_eq(u.to_string().as_bytes(), s.as_bytes(), code, "the result reads back differently");
            match u.transform(|h| h) {
                Ok(v) => { check(u == v, code + 1, "a transform that does nothing gives an unequal template"); check_eq(v.to_string().as_bytes(), s.as_bytes(), code + 2, "a transform that does nothing changes the rendering") }
                Err(_) => check(false, code + 3, "a transform that does nothing fails"),
            }
        }
        Err(_) => check(false, code + 4, "the result's rendering is rejected"),
    }
    s
}
/// Two runs of one transform on one template.
fn twice(t: &Template, was: &str, run: &dyn Fn(&Template) -> Outcome, code: u32) -> Option<Template> {
    let keep = t.clone();
    let a = match run(t) { Ok(a) => a, Err(_) => { check(false, code, "the transform fails"); return None } };
    check_eq(t.to_string().as_bytes(), was.as_bytes(), code + 1, "a transform changes its source");
    check(keep == *t, code + 2, "a transformed template is not equal to its copy");
    let b = match run(t) { Ok(b) => b, Err(_) => { check(false, code + 3, "the transform fails the second time"); return None } };
    check(a == b, code + 4, "the second result is not equal to the first");
    let s = settled(&a, code + 5);
    check_eq(b.to_string().as_bytes(), s.as_bytes(), code + 10, "the second result renders differently");
    check_eq(t.to_string().as_bytes(), was.as_bytes(), code + 11, "a transform changes its source");
    out(s.as_bytes());
    Some(a)
}

/// Two steps on the stream.
fn steps(n: usize, depth: usize, mark: Mark) { steps_of(forest(pick(n as u8 + 1) as usize, depth, mark), mark, STEPS) }
fn steps_of(f: Forest, mark: Mark, then: u8) {
    let was = show(&f);
    let t = parse(&src(&f));
    let (i, j) = (pick(STEPS), pick(then));
    let s = sel_a(mark);
    cover(1901);
    twice(&t, &was, &|t| t.transform(|h| step(j, s, step(i, s, h.into_boxed()))), 1901);
}
/// An edit of every selected element, then of what it selects in turn.
fn edits(n: usize, depth: usize, mark: Mark, full: bool) {
    let f = forest(n, depth, mark);
    let (s, r) = match mark { Mark::Class => (".a", ".b"), _ => ("a", "b") };
    let was = show(&f);
    let t = parse(&src(&f));
    let i = pick(EDITS);
    let j = if full { pick(EDITS) } else { [2, 7, 10, 18, 20][pick(5) as usize] };
    cover(1902);
    twice(&t, &was, &move |t| t.transform(|h| h.select(s, move |e| edit(i, r, e.into_boxed_element()).select_once(s, move |e| edit(j, s, e.into_boxed_element())))), 1921);
}
fn by_ref(t: &Template, c: &Template, k: u8) -> Outcome {
    match k {
        0 => t.transform(|h| h.select("a", |e| e.append(c))),
        1 => t.transform(|h| h.select("a", |e| e.prepend_contents(c))),
        2 => t.transform(|h| h.select("a", |e| e.replace(c))),
        3 => t.transform(|h| h.select("a", |e| e.replace_contents(c))),
        4 => t.transform(|h| h.select("a", |e| e.repeat(0u8..2, |e, _| e.append(c)))),
        _ => t.transform(|h| h.select("a", |e| e.append_contents(c).prepend(c))),
    }
}
/// Templates inserted in every way, into others and into themselves.
fn inserted(n: usize, depth: usize) {
    let f = forest(n, depth, Mark::Rich);
    let was = show(&f);
    let t = parse(&src(&f));
    let src = ["<a><i/></a>u", "", "<br><!-- c --><title><a></title>", "<a></a>"][pick(4) as usize];
    let x = parse(src);
    let xs = x.to_string();
    let rc = Rc::new(x.clone());
    let (k, way) = (pick(6), pick(5));
    cover(1903);
    let shared = |t: &Template, c: Rc<Template>| -> Outcome {
        t.transform(|h| h.select("a", move |e| -> BoxedApi { let c = c.clone(); match k {
            0 => e.append(c).into_boxed(), 1 => e.prepend_contents(c).into_boxed(), 2 => e.replace(c).into_boxed(),
            3 => e.replace_contents(c).into_boxed(),
            4 => e.repeat(0u8..2, move |e, _| e.append(c.clone())).into_boxed(),
            _ => e.append_contents(c.clone()).prepend(c).into_boxed(),
        } }))
    };
    let got = match way {
        0 => twice(&t, &was, &|t| shared(t, rc.clone()), 1941),
        1 => twice(&t, &was, &|t| by_ref(t, &x, k), 1941),
        2 => twice(&t, &was, &|t| shared(t, Rc::new(x.transform(|h| h)?)), 1941),
        // Into itself.
        3 => twice(&t, &was, &|t| by_ref(t, t, k), 1941),
        _ => { let me = Rc::new(t.clone()); let g = twice(&t, &was, &|t| shared(t, me.clone()), 1941); check_eq(me.to_string().as_bytes(), was.as_bytes(), 1954, "inserting changes a template"); g }
    };
    check_eq(x.to_string().as_bytes(), xs.as_bytes(), 1955, "inserting changes a template");
    check(x == parse(src), 1956, "an inserted template is no longer equal to its source's");
    drop(t);
    drop(x);
    if let Some(g) = got { settled(&g, 1957); }
}
/// A history of transforms, each of an earlier result; nothing earlier ever changes.
fn history(n: usize, len: usize, choices: &[u8]) {
    let f = forest(n, 2, Mark::Rich);
    let mut all = vec![(parse(&src(&f)), show(&f))];
    for _ in 0..len {
        let from = pick(all.len() as u8) as usize;
        let put = pick(all.len() as u8 + 1) as usize;
        let k = choices[pick(choices.len() as u8) as usize];
        let r = {
            let t = &all[from].0;
            if put == all.len() { t.transform(|h| step(k, "a", h.into_boxed())) }
            else { let c = &all[put].0; t.transform(|h| step(k, "a", h.into_boxed()).select("a", |e| e.append_contents(c))) }
        };
        match r {
            Ok(r) => { let s = r.to_string(); all.push((r, s)) }
            Err(_) => return check(false, 1971, "a transform fails"),
        }
    }
    cover(1904);
    for (t, s) in &all {
        check_eq(t.to_string().as_bytes(), s.as_bytes(), 1972, "an earlier template changes");
        out(s.as_bytes());
    }
    settled(&all[len].0, 1973);
}
/// Arbitrary names and texts in every place that takes one.
fn place<'t>(k: u8, id: Identifier, value: &'static str, e: BoxedElementApi<'t>) -> BoxedApi<'t> {
    let v = || Value::from_unencoded_str(value);
    match k {
        2 => e.set_attribute_with_value(id, v()).into_boxed(),
        3 => e.add_attribute_with_value(id, v()).into_boxed(),
        4 => e.set_empty_attribute(id).into_boxed(),
        5 => e.add_to_attribute("title", v(), v()).into_boxed(),
        6 => e.replace_attribute_value_if_exists("title", v()).into_boxed(),
        7 => e.set_id(id).into_boxed(),
        8 => e.add_class(id).into_boxed(),
        9 => e.append_contents(v()).into_boxed(),
        10 => e.prepend(v()).into_boxed(),
        11 => e.replace_contents(value).into_boxed(),
        _ => e.append(Template::with_element(id)).into_boxed(),
    }
}
fn texts<const N: usize, const M: usize>() {
    let value = leak(sym_str::<N>());
    let name = sym_str::<M>();
    let id: Identifier = match name.parse() { Ok(i) => i, Err(_) => { assume(false); return } };
    let src = ["<a></a>", "<a class=\"x\" id=\"y\" title=\"z\"/>", "<title id=\"\">t</title>", "<br TITLE>"][pick(4) as usize];
    let t = parse(src);
    let was = t.to_string();
    let k = pick(13);
    assume(!(k == 12 && name.as_bytes()[0] == b'!'));
    cover(1905);
    twice(&t, &was, &|t| {
        let (a, b, c) = (id.clone(), id.clone(), id.clone());
        match k {
            0 => t.transform(|h| h.append(Value::from_unencoded_str(value))),
            1 => t.transform(|h| h.replace(value)),
            _ => t.transform(|h| h
                .select("a", move |e| place(k, a.clone(), value, e.into_boxed_element()))
                .select("title", move |e| place(k, b.clone(), value, e.into_boxed_element()))
                .select("br", move |e| place(k, c.clone(), value, e.into_boxed_element()))),
        }
    }, 1981);
}

/// Many transforms, each of the result before.
fn long() {
    let n = MANY[pick(5) as usize];
    let k = [0, 3, 5, 12][pick(4) as usize];
    let f = vec![Node::El(el("a", Form::Pair)), leaf("t"), Node::El(el("a", Form::Solo))];
    let mut want = f.clone();
    let mut t = parse(&src(&f));
    let first = t.clone();
    for i in 0..n {
        let r = if k == 12 { let c = &first; t.transform(|h| h.select_direct_once("a", |e| e.append(if i % 8 == 0 { c.clone() } else { parse("") }))) } else { t.transform(|h| step(k, "a", h.into_boxed())) };
        match r { Ok(r) => t = r, Err(_) => return check(false, 1991, "a transform fails") }
        want = if k == 12 { if i % 8 == 0 { let c = f.clone(); select_direct_once(want, &is_a(Mark::Tag), &mut |e| { let mut o = vec![Node::El(e)]; o.extend(c.clone()); o }) } else { want } } else { step_ref(k, &is_a(Mark::Tag), want) };
    }
    check_eq(t.to_string().as_bytes(), show(&want).as_bytes(), 1992, "a long history ends in something else");
    check_eq(first.to_string().as_bytes(), show(&f).as_bytes(), 1993, "an earlier template changes");
}

harnesses! {
    /// [qt] 2 to 256 transforms one after the other
    fn c19_long() { long() }
    /// [qt] streams of 130 and 258 elements, one after or in the other, 13 steps and 4
    fn c19_many() { steps_of(large(), Mark::Tag, 4) }
    /// [q] streams of up to 2 nodes, two of 13 steps each, run twice
    fn c19_steps2() { steps(2, 2, Mark::Rich) }
    /// [t] streams of up to 4 nodes
    fn c19_steps4() { steps(4, 3, Mark::Rich) }
    /// [t] streams of up to 3 nodes, symbolic classes
    fn c19_steps_class3() { steps(3, 3, Mark::Class) }
    /// [q] streams of 2 nodes, one of 29 edits followed by one of 5
    fn c19_edits2() { edits(2, 2, Mark::Rich, false) }
    /// [t] streams of 3 nodes, two of 29 edits
    fn c19_edits3() { edits(3, 3, Mark::Rich, true) }
    /// [q] streams of 1 node of any class, also self-closed and raw, one of 29 edits followed by one of 5
    fn c19_edits_class1() { edits(1, 1, Mark::Class, false) }
    /// [t] streams of 2 nodes of any class, two of 29 edits
    fn c19_edits_class2() { edits(2, 2, Mark::Class, true) }
    /// [q] streams of 2 nodes, 4 templates inserted in 6 places, given in 3 ways, or the stream itself inserted in 2
    fn c19_inserted2() { inserted(2, 2) }
    /// [t] streams of 3 nodes
    fn c19_inserted3() { inserted(3, 3) }
    /// [q] histories of 2 transforms of earlier results of a stream of 1 node, with earlier results inserted
    fn c19_history1_2() { history(1, 2, &[0, 1, 2, 6, 8, 10]) }
    /// [t] histories of 3 transforms
    fn c19_history1_3() { history(1, 3, &[0, 1, 2, 6, 8, 10]) }
    /// [t] histories of 2 transforms of a stream of 3 nodes
    fn c19_history3_2() { history(3, 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]) }
    /// [q] texts of 2 and names of 1 arbitrary bytes in 13 places of 4 elements
    fn c19_texts2_1() { texts::<2, 1>() }
    /// [t] texts of 3 and names of 3 arbitrary bytes
    fn c19_texts3_3() { texts::<3, 3>() }
}
