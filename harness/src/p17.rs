//! C17: conditional and wrapping applications run exactly the chosen branch.
use crate::{canon::*, model::*, trees::*, vx::*};
use html5_fuser::event::StreamError;
use html5_fuser::{BoxedApi, Template};
use std::cell::Cell;

fn digit(d: u8) -> &'static str { leak(byte_str(b'0' + d)) }
fn sym_digit() -> u8 { let d = sym_u8(); assume(d < 10); d }
fn same_ran(a: &Cell<u32>, b: &Cell<u32>, x: u32, y: u32, code: u32) {
    check(a.get() == x, code, "the first branch runs another number of times");
    check(b.get() == y, code + 1, "the second branch runs another number of times");
}
fn bump(c: &Cell<u32>) { c.set(c.get() + 1) }
fn after(mut f: Forest, s: &str) -> Forest { f.push(leaf(s)); f }

/// On whole streams: six ways, both branches, then one more step.
fn streams(n: usize, depth: usize) { streams_of(forest(pick(n as u8 + 1) as usize, depth, Mark::Rich), STEPS, 3) }
fn streams_of(f: Forest, steps: u8, second: u8) {
    let p = is_a(Mark::Tag);
    let (i, j) = (pick(steps), 1 + pick(second));
    let yes = pick(2) == 0;
    let d = sym_digit();
    let (a, b) = (Cell::new(0), Cell::new(0));
    let way = pick(6);
    let s = digit(d);
    let first = step_ref(i, &p, f.clone());
    let second = step_ref(j, &p, f.clone());
    let want = match way {
        0 => first,
        1 => if yes { first } else { f.clone() },
        2 => if yes { first } else { second },
        3 => if yes { after(first, s) } else { second },
        4 => if yes { after(first, s) } else { after(second, s) },
        _ => first,
    };
    if yes { cover(1701) } else { cover(1702) }
    let want = after(want, "$");
    let carried: Option<u8> = if yes { Some(d) } else { None };
    let result: Result<u8, u8> = if yes { Ok(d) } else { Err(d) };
    match way {
        0 => expect(&f, |t| t.transform(|h| h.apply(|h| { bump(&a); step(i, "a", h.into_boxed()) }).append("$")), want, 1701),
        1 => expect(&f, |t| t.transform(|h| h.apply_if(yes, |h| { bump(&a); step(i, "a", h.into_boxed()) }).append("$")), want, 1703),
        2 => expect(&f, |t| t.transform(|h| h.apply_if_else(yes, |h| { bump(&a); step(i, "a", h.into_boxed()) }, |h| { bump(&b); step(j, "a", h.into_boxed()) }).append("$")), want, 1705),
        3 => expect(&f, |t| t.transform(|h| h.apply_with_option(carried, |h, v: u8| { bump(&a); step(i, "a", h.into_boxed()).append(digit(v)) }, |h| { bump(&b); step(j, "a", h.into_boxed()) }).append("$")), want, 1707),
        4 => expect(&f, |t| t.transform(|h| h.apply_with_result(result, |h, v: u8| { bump(&a); step(i, "a", h.into_boxed()).append(digit(v)) }, |h, e: u8| { bump(&b); step(j, "a", h.into_boxed()).append(digit(e)) }).append("$")), want, 1709),
        _ => expect(&f, |t| t.transform(|h| h.apply_as_boxed(|h| { bump(&a); step(i, "a", h) }).append("$")), want, 1711),
    }
    let (x, y) = match way { 0 | 5 => (1, 0), 1 => (yes as u32, 0), _ => (yes as u32, !yes as u32) };
    same_ran(&a, &b, x, y, 1713);
}

/// On elements, in each selected one; the branch depends on the element.
fn elements(n: usize, depth: usize) {
    let f = forest(n, depth, Mark::Rich);
    let p = is_a(Mark::Tag);
    let k = pick(EDITS);
    let way = pick(6);
    // Branch of the first, second, ... selected element.
    let plan = [pick(2) == 0, pick(2) == 0];
    let at = |c: u32| plan[(c as usize) % 2];
    let mut c = 0u32;
    let set = |mut e: El, v: String| { attr_set(&mut e.attrs, "v", Some(v)); vec![Node::El(e)] };
    let want = select(f.clone(), &p, &mut |e| {
        let yes = at(c);
        let n = c as u8;
        c += 1;
        match way {
            0 | 5 => edit_ref(k, &p, e),
            1 => if yes { set(e, "1".into()) } else { vec![Node::El(e)] },
            2 => if yes { edit_ref(k, &p, e) } else { set(e, "0".into()) },
            3 => if yes { set(e, byte_str(b'0' + n)) } else { edit_ref(k, &p, e) },
            _ => if yes { set(e, byte_str(b'0' + n)) } else { set(e, byte_str(b'a' + n)) },
        }
    });
    let c = &Cell::new(0u32);
    let next = move || { let n = c.get(); c.set(n + 1); n };
    let name = |b: u8| leak(byte_str(b));
    match way {
        0 => expect(&f, |t| t.transform(|h| h.select("a", |e| e.apply(|e| edit(k, "a", e.into_boxed_element())))), want, 1721),
        1 => expect(&f, |t| t.transform(|h| h.select("a", |e| e.apply_if(at(next()), |e| e.set_attribute_with_value("v", 1u8)))), want, 1723),
        2 => expect(&f, |t| t.transform(|h| h.select("a", |e| e.apply_if_else(at(next()), |e| edit(k, "a", e.into_boxed_element()), |e| e.set_attribute_with_value("v", 0u8)))), want, 1725),
        3 => expect(&f, |t| t.transform(|h| h.select("a", |e| { let n = next(); e.apply_with_option(if at(n) { Some(n as u8) } else { None }, |e, v| e.set_attribute_with_value("v", v), |e| edit(k, "a", e.into_boxed_element())) })), want, 1727),
        4 => expect(&f, |t| t.transform(|h| h.select("a", |e| { let n = next(); e.apply_with_result(if at(n) { Ok(n as u8) } else { Err(name(b'a' + n as u8)) }, |e, v: u8| e.set_attribute_with_value("v", v), |e, v: &'static str| e.set_attribute_with_value("v", v)) })), want, 1729),
        _ => expect(&f, |t| t.transform(|h| h.select("a", |e| e.apply_as_boxed_element(|e| edit(k, "a", e)))), want, 1731),
    }
}

/// The template given is what has been rendered so far, and what is returned goes on.
fn templates(n: usize, depth: usize) { templates_of(forest(pick(n as u8 + 1) as usize, depth, Mark::Rich), STEPS) }
fn templates_of(f: Forest, steps: u8) {
    let p = is_a(Mark::Tag);
    let (i, j) = (pick(STEPS), pick(steps));
    let mid = step_ref(i, &p, f.clone());
    let want = after(step_ref(j, &p, mid.clone()), "$");
    let runs = Cell::new(0u32);
    let mid = show(&mid);
    cover(1703);
    let which = pick(3);
    match which {
        // By a transform of it.
        0 => expect(&f, |t| t.transform(|h| step(i, "a", h.into_boxed()).apply_as_template(|t| {
            bump(&runs);
            check_eq(t.to_string().as_bytes(), mid.as_bytes(), 1741, "the given template differs from the stream so far");
            t.transform(|h| step(j, "a", h.into_boxed()))
        }).append("$")), want, 1742),
        // Unchanged, then a step.
        1 => {
            let run = |t: &Template| t.transform(|h| {
                let h: BoxedApi = step(i, "a", h.into_boxed()).apply_as_template(|t| Ok(t)).into_boxed();
                step(j, "a", h).append("$")
            });
            expect(&f, run, want, 1744);
            runs.set(1);
        }
        // By another one altogether.
        _ => {
            let other = vec![leaf("o"), Node::El(el("hr", Form::Void))];
            let o = parse(&show(&other));
            expect(&f, |t| t.transform(|h| step(i, "a", h.into_boxed()).apply_as_template(|_| { bump(&runs); Ok(o.clone()) }).append("$")), after(other, "$"), 1746)
        }
    }
    check(runs.get() == 1, 1748, "the transformation runs another number of times");
}
/// In each selected element.
fn element_templates(n: usize, depth: usize) {
    let f = forest(n, depth, Mark::Rich);
    let p = is_a(Mark::Tag);
    let k = pick(EDITS);
    let want = select(f.clone(), &p, &mut |e| after(edit_ref(k, &p, e), ";"));
    expect(&f, |t| t.transform(|h| h.select("a", |e| e.apply_as_template(|t| t.transform(|h| h.select_once("a", |e| edit(k, "a", e.into_boxed_element())))).append(";"))), want, 1751)
}

/// What the branch not chosen would fail with has no effect, what the chosen one fails with has; an error of any kind.
fn failing() {
    let f = vec![Node::El(el(&letter_str(), Form::Pair))];
    let t = parse(&src(&f));
    let yes = pick(2) == 0;
    let (k, n) = (pick(KINDS), sym_digit() as usize);
    let way = pick(10);
    let opt: Option<u8> = if yes { Some(1) } else { None };
    let res: Result<u8, u8> = if yes { Ok(1) } else { Err(2) };
    let bad = || -> Result<Template, StreamError> { Err(made(k, n)) };
    let r = match way {
        0 => t.transform(|h| h.apply_if(yes, |h| h.append(bad()))),
        1 => t.transform(|h| h.apply_if_else(yes, |h| h.append(bad()), |h| h)),
        2 => t.transform(|h| h.apply_if_else(!yes, |h| h, |h| h.prepend(bad()))),
        3 => t.transform(|h| h.apply_with_option(opt, |h, _| h.replace(bad()), |h| h)),
        4 => t.transform(|h| h.apply_with_result(res, |h, _| h.append(bad()), |h, _| h)),
        5 => t.transform(|h| h.select_direct("html", |e| e.set_id("")).apply_if(yes, |h| h.append(bad()))),
        6 => t.transform(|h| h.apply_as_template(move |t| if yes { bad() } else { Ok(t) })),
        7 => t.transform(|h| h.apply_as_boxed(|h| if yes { h.append(bad()).into_boxed() } else { h })),
        // In the template of a template; before the template is complete.
        8 => t.transform(|h| h.apply_as_template(move |t| t.transform(|h| h.apply_as_template(move |t| if yes { bad() } else { Ok(t) })))),
        _ => t.transform(|h| h.apply_if(yes, |h| h.prepend(bad())).apply_as_template(move |t| Ok(t))),
    };
    match r {
        Err(e) => {
            cover(1704);
            check(yes, 1761, "an error of a branch not chosen surfaces");
            let (e, w) = (format!("{:?}", e), format!("{:?}", made(k, n)));
            check_eq(e.as_bytes(), w.as_bytes(), 1762, "another error surfaces");
        }
        Ok(r) => {
            cover(1705);
            check(!yes, 1763, "an error of the chosen branch is lost");
            let r = r.to_string();
            check_eq(r.as_bytes(), show(&f).as_bytes(), 1764, "a stream without applied branch is changed");
            out(r.as_bytes());
        }
    }
}
/// Branches in branches, on elements that stay elements.
fn nested() {
    let mut e = el(&letter_str(), if pick(2) == 0 { Form::Solo } else { Form::Pair });
    e.attrs.push(("id".into(), Some("x".into())));
    let f = vec![Node::El(e)];
    let (a, b, c) = (pick(2) == 0, pick(2) == 0, pick(2) == 0);
    let want = select(f.clone(), &|e| e.has_id("x"), &mut |mut e| {
        if a { if b { attr_set(&mut e.attrs, "b", None) } else { attr_set(&mut e.attrs, "nb", None) } }
        else { e = e.contents(|mut k| { k.push(leaf("c")); k }); }
        if c { attr_remove(&mut e.attrs, "id") }
        e = e.contents(|mut k| { k.insert(0, leaf("p")); k });
        vec![Node::El(e)]
    });
    expect(&f, |t| t.transform(|h| h.select("#x", |e| e
        .apply_if_else(a,
            |e| e.apply_with_option(if b { Some("b") } else { None }, |e, n| e.set_empty_attribute(n), |e| e.set_empty_attribute("nb")),
            |e| e.append_contents("c"))
        .apply_if(c, |e| e.remove_id())
        .apply_as_boxed_element(|e| e.prepend_contents("p"))
    )), want, 1771);
}

fn layers<'t>(h: BoxedApi<'t>, n: usize, way: u8) -> BoxedApi<'t> {
    if n == 0 { return step(0, "a", h) }
    let end = move |h: BoxedApi<'t>| h.append(digit((n % 10) as u8)).into_boxed();
    end(match way {
        0 => h.apply(move |h| layers(h.into_boxed(), n - 1, way)).into_boxed(),
        1 => h.apply_if(true, move |h| layers(h.into_boxed(), n - 1, way)).into_boxed(),
        2 => h.apply_if_else(n % 2 == 0, move |h| layers(h.into_boxed(), n - 1, way), move |h| layers(h.into_boxed(), n - 1, way)).into_boxed(),
        3 => h.apply_with_option(if n % 3 == 0 { None } else { Some(n) }, move |h, n| layers(h.into_boxed(), n - 1, way), move |h| layers(h.into_boxed(), n - 1, way)).into_boxed(),
        4 => h.apply_as_boxed(move |h| layers(h, n - 1, way)).into_boxed(),
        _ => h.apply_as_template(move |t| t.transform(move |h| layers(h.into_boxed(), n - 1, way))).into_boxed(),
    })
}
/// Branches in branches.
fn deep() {
    let n = [3, 17, 130][pick(3) as usize];
    let way = pick(6);
    let f = vec![Node::El(el("a", Form::Pair)), Node::El(el("b", Form::Solo)), Node::El(el("a", Form::Solo))];
    let mut want = step_ref(0, &is_a(Mark::Tag), f.clone());
    for i in 1..n + 1 { want.push(leaf(&digit((i % 10) as u8))); }
    expect(&f, |t| t.transform(|h| layers(h.into_boxed(), n, way)), want, 1773);
}

harnesses! {
    /// [qt] 3 to 130 branches in each other, 6 ways
    fn c17_deep() { deep() }
    /// [q] streams of 130 and 258 elements, one after or in the other, 5 steps
    fn c17_many() { streams_of(large(), 5, 1) }
    /// [t] such streams, 13 steps
    fn c17_many_steps() { streams_of(large(), STEPS, 3) }
    /// [qt] such streams as template
    fn c17_many_templates() { templates_of(large(), 1) }
    /// [q] streams of up to 1 node, 13 steps in the first and 3 in the second branch, 6 ways, symbolic carried value
    fn c17_streams1() { streams(1, 1) }
    /// [t] streams of up to 3 nodes
    fn c17_streams3() { streams(3, 3) }
    /// [q] streams of 2 nodes, every edit of the catalogue in the selected elements, the branch depending on the element
    fn c17_elements2() { elements(2, 2) }
    /// [t] streams of 3 nodes
    fn c17_elements3() { elements(3, 3) }
    /// [q] streams of up to 2 nodes, 13 steps before and 13 in or after
    fn c17_templates2() { templates(2, 2) }
    /// [t] streams of up to 3 nodes
    fn c17_templates3() { templates(3, 3) }
    /// [q] every edit of the catalogue in the template of each selected element, streams of 2 nodes
    fn c17_element_templates2() { element_templates(2, 2) }
    /// [t] streams of 3 nodes
    fn c17_element_templates3() { element_templates(3, 3) }
    /// [qt] errors of 14 kinds in chosen and other branches, 10 ways
    fn c17_failing() { failing() }
    /// [qt] branches in branches
    fn c17_nested() { nested() }
}
