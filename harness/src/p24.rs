//! C24: transformations compose like the sequence of their parts.
use crate::{canon::*, model::*, trees::*, vx::*};
use html5_fuser::event::StreamError;
use html5_fuser::text::Value;
use html5_fuser::{BoxedElementApi, Template};

type Outcome = Result<Template, StreamError>;

fn text(r: Outcome, code: u32) -> String {
    match r { Ok(t) => t.to_string(), Err(_) => { check(false, code, "a composed transform fails"); unreachable!() } }
}

// ---- steps on the stream

const WAYS: [u8; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];
/// The steps in one transform, put together in one of 9 ways.
fn chained(t: &Template, ks: &[u8], s: &'static str, way: u8) -> Outcome {
    let (i, j) = (ks[0], ks[1]);
    match way {
        0 => t.transform(|h| step(j, s, step(i, s, h.into_boxed()))),
        1 => t.transform(|h| h.apply(|h| step(i, s, h.into_boxed())).apply(|h| step(j, s, h.into_boxed()))),
        2 => t.transform(|h| h.apply(|h| step(j, s, step(i, s, h.into_boxed())))),
        3 => t.transform(|h| h.apply_as_boxed(|h| step(i, s, h)).into_boxed().apply_as_boxed(|h| step(j, s, h))),
        4 => t.transform(|h| step(j, s, h.apply_as_template(move |t| t.transform(move |h| step(i, s, h.into_boxed()))).into_boxed())),
        5 => t.transform(|h| step(i, s, h.into_boxed()).apply_as_template(move |t| t.transform(move |h| step(j, s, h.into_boxed())))),
        6 => t.transform(|h| h.apply_if(true, |h| step(i, s, h.into_boxed())).apply_if_else(false, |h| step(i, s, h.into_boxed()), |h| step(j, s, h.into_boxed()))),
        7 => t.transform(|h| h.apply_with_option(Some(i), |h, k| step(k, s, h.into_boxed()), |h| h.into_boxed()).apply_with_result(Err::<u8, u8>(j), |h, _| h.into_boxed(), |h, k| step(k, s, h.into_boxed()))),
        _ => t.transform(move |h| h.repeat(0u8..1, move |h, _| step(i, s, h.into_boxed())).repeat(0u8..1, move |h, _| step(j, s, h.into_boxed()))),
    }
}
fn pairs(n: usize, depth: usize, mark: Mark, ways: &[u8]) { pairs_of(forest(pick(n as u8 + 1) as usize, depth, mark), mark, ways, STEPS) }
fn pairs_of(f: Forest, mark: Mark, ways: &[u8], then: u8) {
    let (i, j, way) = (pick(STEPS), pick(then), ways[pick(ways.len() as u8) as usize]);
    let s = sel_a(mark);
    let t = parse(&src(&f));
    cover(2401);
    let first = match t.transform(|h| step(i, s, h.into_boxed())) { Ok(a) => a, Err(_) => return check(false, 2401, "a transform fails") };
    let after = text(first.transform(|h| step(j, s, h.into_boxed())), 2402);
    let one = text(chained(&t, &[i, j], s, way), 2403);
    check_eq(one.as_bytes(), after.as_bytes(), 2404, "one transform of two steps differs from two transforms");
    // Also through text.
    let again = text(parse(&first.to_string()).transform(|h| step(j, s, h.into_boxed())), 2405);
    check_eq(again.as_bytes(), one.as_bytes(), 2406, "a step sees something else than the rendering of the earlier one");
    let p: Pred = &is_a(mark);
    check_eq(one.as_bytes(), show(&step_ref(j, p, step_ref(i, p, f))).as_bytes(), 2407, "two steps give something else than one after the other");
    out(one.as_bytes());
}
fn triples(n: usize, depth: usize, mark: Mark, ks: &[u8]) {
    let f = forest(n, depth, mark);
    let mut pk = || ks[pick(ks.len() as u8) as usize];
    let (i, j, k) = (pk(), pk(), pk());
    let s = sel_a(mark);
    let t = parse(&src(&f));
    cover(2402); // thorough
    let p: Pred = &is_a(mark);
    let want = show(&step_ref(k, p, step_ref(j, p, step_ref(i, p, f))));
    let r = text(t.transform(|h| step(k, s, step(j, s, step(i, s, h.into_boxed())))), 2411);
    check_eq(r.as_bytes(), want.as_bytes(), 2412, "three steps give something else than one after the other");
    let r = text(t.transform(|h| h.apply_as_template(move |t| t.transform(|h| step(j, s, step(i, s, h.into_boxed())))).apply(|h| step(k, s, h.into_boxed()))), 2413);
    check_eq(r.as_bytes(), want.as_bytes(), 2414, "grouping steps changes the result");
    out(r.as_bytes());
}
// Unboxed: every pair of these, each combination its own stream type.
macro_rules! plain {
    (0 $h:expr) => { $h.select("a", |e| e.set_attribute_with_value("x", 1u8)) };
    (2 $h:expr) => { $h.select_once("a", |e| e.remove()) };
    (3 $h:expr) => { $h.select_direct("a", |e| e.prepend("P")) };
    (4 $h:expr) => { $h.select_direct_once("a", |e| e.replace("R")) };
    (7 $h:expr) => { $h.select("a", |e| e.subselect("a", |e| e.append("d"))) };
    (8 $h:expr) => { $h.repeat(0u8..2, |h, i| h.append(i)) };
    (9 $h:expr) => { $h.select("a", |e| e.replace_contents("r")) };
    (12 $h:expr) => { $h.select("a", |e| e.subselect_contents(|c| c.select_once("a", |e| e.remove_contents()))) };
}
macro_rules! second {
    ($t:ident $j:ident $i:tt) => { match $j {
        0 => $t.transform(|h| plain!(0 plain!($i h))), 2 => $t.transform(|h| plain!(2 plain!($i h))),
        3 => $t.transform(|h| plain!(3 plain!($i h))), 4 => $t.transform(|h| plain!(4 plain!($i h))),
        7 => $t.transform(|h| plain!(7 plain!($i h))), 8 => $t.transform(|h| plain!(8 plain!($i h))),
        9 => $t.transform(|h| plain!(9 plain!($i h))), _ => $t.transform(|h| plain!(12 plain!($i h))),
    } };
}
fn unboxed(n: usize, depth: usize) {
    let f = forest(n, depth, Mark::Tag);
    let ks = [0u8, 2, 3, 4, 7, 8, 9, 12];
    let (i, j) = (ks[pick(8) as usize], ks[pick(8) as usize]);
    let t = parse(&src(&f));
    cover(2403);
    let p: Pred = &is_a(Mark::Tag);
    let r: Outcome = match i {
        0 => second!(t j 0), 2 => second!(t j 2), 3 => second!(t j 3), 4 => second!(t j 4),
        7 => second!(t j 7), 8 => second!(t j 8), 9 => second!(t j 9), _ => second!(t j 12),
    };
    let r = text(r, 2421);
    check_eq(r.as_bytes(), show(&step_ref(j, p, step_ref(i, p, f))).as_bytes(), 2422, "two steps give something else than one after the other");
    out(r.as_bytes());
}

// ---- edits of an element

/// Edits after which the element is still there to edit, as in the catalogue of `trees`.
const KEEP: [u8; 16] = [0, 1, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 20, 21, 22, 24];
fn keep<'t>(k: u8, s: &'static str, e: BoxedElementApi<'t>) -> BoxedElementApi<'t> {
    match k {
        0 => e,
        1 => e.set_attribute_with_value("x", 1u8).into_boxed_element(),
        6 => e.remove_contents().into_boxed_element(),
        7 => e.replace_contents("r").into_boxed_element(),
        8 => e.prepend_contents("p").into_boxed_element(),
        9 => e.append_contents("q").into_boxed_element(),
        11 => e.repeat_contents(0u8..2, |c, i| c.append(i)).into_boxed_element(),
        12 => e.subselect(s, |e| e.set_empty_attribute("y")).into_boxed_element(),
        13 => e.subselect_direct(s, |e| e.append("d")).into_boxed_element(),
        14 => e.subselect_once(s, |e| e.replace("o")).into_boxed_element(),
        15 => e.subselect_direct_once(s, |e| e.remove()).into_boxed_element(),
        16 => e.subselect_contents(|c| c.prepend("<")).into_boxed_element(),
        20 => e.replace_contents(Template::from_str("<a><i/></a>", Default::default())).into_boxed_element(),
        21 => e.add_class("n").into_boxed_element(),
        22 => e.remove_class("a").into_boxed_element(),
        _ => e.repeat_contents(0u8..0, |c, i| c.append(i)).into_boxed_element(),
    }
}
/// Each edit seen by the next: two or three on the same element.
fn elements(n: usize, depth: usize, mark: Mark, three: bool, last: u8, ways: u8) {
    let f = forest(n, depth, mark);
    let i = KEEP[pick(16) as usize];
    let j = KEEP[if three { pick(16) as usize } else { 0 }];
    let k = pick(last);
    let way = pick(ways);
    let s = sel_a(mark);
    let t = parse(&src(&f));
    cover(2404);
    let p: Pred = &is_a(mark);
    let mut want = vec![];
    // `select` on the outermost matches; each edit on what the one before left.
    let w = select(f, p, &mut |e| {
        let a = edit_ref(i, p, e);
        let b: Forest = a.into_iter().flat_map(|n| match n { Node::El(e) => edit_ref(j, p, e), l => vec![l] }).collect();
        b.into_iter().flat_map(|n| match n { Node::El(e) => edit_ref(k, p, e), l => vec![l] }).collect()
    });
    want.extend(w);
    let r = match way {
        0 => t.transform(|h| h.select(s, move |e| edit(k, s, keep(j, s, keep(i, s, e.into_boxed_element()))))),
        1 => t.transform(|h| h.select(s, move |e| e.apply_as_boxed_element(|e| keep(i, s, e)).apply(|e| edit(k, s, keep(j, s, e))))),
        2 => t.transform(|h| h.select(s, move |e| keep(i, s, e.into_boxed_element()).apply_if(i != 0, |e| keep(j, s, e)).apply_as_boxed_element(|e| edit(k, s, e)))),
        // An edit inside a selection of the same element.
        _ => t.transform(|h| h.select(s, move |e| e.apply(|e| keep(i, s, e.into_boxed_element())).apply_if_else(true, |e| edit(k, s, e), |e| e.into_boxed()))),
    };
    let r = text(r, 2431);
    check_eq(r.as_bytes(), show(&want).as_bytes(), 2432, "edits of an element in a row give something else than one after the other");
    out(r.as_bytes());
}
/// Later steps see names, classes and ids that earlier ones gave or took, of symbolic spelling.
fn seen<const N: usize>() {
    let name = sym_ascii::<N>(|b| valid_ident(&byte_str(b)));
    let word = leak(name.clone());
    let t = parse("<p>x</p><q class=\"k\" id=\"j\"></q>");
    let hit = |p: &str, q: &str| format_cat(&["<p", p, ">x</p><q", q, "></q>"]);
    let class: html5_fuser::select::Class = match word.parse() { Ok(c) => c, Err(_) => return check(false, 2441, "a name is refused") };
    let id: html5_fuser::select::Id = match word.parse() { Ok(c) => c, Err(_) => return check(false, 2441, "a name is refused") };
    cover(2405);
    let (is_k, is_j) = (ieq(&name, "k"), ieq(&name, "j"));
    let (r, want) = match pick(6) {
        0 => (t.transform(|h| h.select("p", |e| e.add_class(word)).select(class, |e| e.set_empty_attribute("hit"))),
            hit(&format_cat(&[" class=\"", &name, "\" hit"]), if is_k { " class=\"k\" id=\"j\" hit" } else { " class=\"k\" id=\"j\"" })),
        1 => (t.transform(|h| h.select("p", |e| e.set_id(word)).select(id, |e| e.set_empty_attribute("hit"))),
            hit(&format_cat(&[" id=\"", &name, "\" hit"]), if is_j { " class=\"k\" id=\"j\" hit" } else { " class=\"k\" id=\"j\"" })),
        2 => (t.transform(|h| h.select("q", |e| e.remove_class(word)).select(".k", |e| e.set_empty_attribute("hit"))),
            hit("", if is_k { " id=\"j\"" } else { " class=\"k\" id=\"j\" hit" })),
        3 => (t.transform(|h| h.select("p", |e| e.append(Template::with_element(word))).select("k", |e| e.append("!"))),
            { assume(name.as_bytes()[0] != b'!' && !is_void(&name)); format_cat(&["<p>x</p><", &name, " />", if is_k { "!" } else { "" }, "<q class=\"k\" id=\"j\"></q>"]) }),
        4 => (t.transform(|h| h.select("p", |e| e.set_attribute_with_value("class", Value::from_unencoded_str(word)).add_class("m").remove_class("k"))),
            hit(&if is_k { " class=\"m\"".to_string() } else { format_cat(&[" class=\"", &name, " m\""]) }, " class=\"k\" id=\"j\"")),
        _ => (t.transform(|h| h.select("q", |e| e.remove_id().set_id(word)).select("#j", |e| e.remove())),
            if is_j { "<p>x</p>".to_string() } else { hit("", &format_cat(&[" class=\"k\" id=\"", &name, "\""])) }),
    };
    let r = text(r, 2442);
    check_eq(r.as_bytes(), want.as_bytes(), 2443, "a later step does not see what the earlier one did");
    out(r.as_bytes());
}

/// Many steps in one transform, in a row or as many transforms in it.
fn long() {
    let k = [0, 1, 3, 5][pick(4) as usize];
    let way = pick(3);
    let n = [2, 31, 128, 130, 256][pick(if k == 0 && way == 0 { 5 } else { 4 }) as usize];
    let f = vec![Node::El(el("a", Form::Pair)), leaf("t"), Node::El(el("a", Form::Solo))];
    let mut want = f.clone();
    for _ in 0..n { want = step_ref(k, &is_a(Mark::Tag), want); }
    let t = parse(&src(&f));
    let r = text(t.transform(|h| {
        let mut h = h.into_boxed();
        for _ in 0..n {
            h = match way { 0 => step(k, "a", h), 1 => h.apply(|h| step(k, "a", h)).into_boxed(), _ => h.select_once("none", |e| e.remove()).into_boxed() };
            if way == 2 { h = step(k, "a", h) }
        }
        h
    }), 2431);
    check_eq(r.as_bytes(), show(&want).as_bytes(), 2432, "many steps give something else than one after the other");
}

harnesses! {
    /// [qt] 2 to 130 steps in one transform, 256 of one kind
    fn c24_long() { long() }
    /// [qt] streams of 130 and 258 elements, one after or in the other, 13 steps and 5
    fn c24_many() { pairs_of(large(), Mark::Tag, &[0], 5) }
    /// [q] streams of up to 1 node, every pair of 13 steps, put together in 9 ways
    fn c24_pairs1() { pairs(1, 1, Mark::Tag, &WAYS) }
    /// [q] streams of up to 2 nodes, every pair of 13 steps, put together in 3 ways
    fn c24_pairs2() { pairs(2, 2, Mark::Rich, &[0, 1, 4]) }
    /// [t] streams of up to 3 nodes, put together in 2 ways
    fn c24_pairs3() { pairs(3, 3, Mark::Rich, &[0, 4]) }
    /// [t] streams of up to 2 nodes, symbolic classes, put together in 9 ways
    fn c24_pairs_class2() { pairs(2, 2, Mark::Class, &WAYS) }
    /// [t] streams of 2 nodes, every triple of 13 steps
    fn c24_triples2() { triples(2, 2, Mark::Tag, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]) }
    /// [t] streams of 3 nodes, every triple of 5 steps
    fn c24_triples3() { triples(3, 3, Mark::Tag, &[0, 2, 6, 7, 10]) }
    /// [q] streams of 2 nodes, every pair of 8 steps without boxing
    fn c24_unboxed2() { unboxed(2, 2) }
    /// [t] streams of 3 nodes
    fn c24_unboxed3() { unboxed(3, 3) }
    /// [q] elements in streams of 2 nodes, 16 edits followed by 29, in a row
    fn c24_elements2_row() { elements(2, 2, Mark::Rich, false, EDITS, 1) }
    /// [q] elements in streams of 1 node, 16 edits followed by 29, put together in 4 ways
    fn c24_elements1() { elements(1, 1, Mark::Tag, false, EDITS, 4) }
    /// [t] elements in streams of 2 nodes, 16 edits followed by 29, put together in 4 ways
    fn c24_elements2() { elements(2, 2, Mark::Tag, false, EDITS, 4) }
    /// [q] classes in streams of 1 node, 16 edits followed by 16 and 10
    fn c24_elements1_three() { elements(1, 1, Mark::Class, true, 10, 1) }
    /// [t] classes in streams of 1 node, 16 edits followed by 16 and 29
    fn c24_elements1_more() { elements(1, 1, Mark::Class, true, EDITS, 1) }
    /// [t] elements in streams of 2 nodes, 16 edits followed by 16 and 29
    fn c24_elements2_three() { elements(2, 2, Mark::Tag, true, EDITS, 1) }
    /// [t] elements in streams of 3 nodes, 16 edits followed by 29, in a row
    fn c24_elements3() { elements(3, 3, Mark::Tag, false, EDITS, 1) }
    /// [q] names of 1 arbitrary byte given or taken by a step and looked for by the next
    fn c24_seen1() { seen::<1>() }
    /// [t] names of 4 arbitrary bytes
    fn c24_seen4() { seen::<4>() }
}
