//! Symbolic trees and a catalogue of edits, each as real transformation and as reference.
use crate::canon::*;
use crate::model::*;
use crate::vx::*;
use html5_fuser::event::StreamError;
use html5_fuser::text::Data;
use html5_fuser::{BoxedApi, BoxedElementApi, Template};

/// What tells elements apart: symbolic one-letter names, or symbolic one-letter classes.
/// `Rich` is `Tag` with comments, doctypes and elements of raw text among the texts, and closing tags in other case;
/// `Class` has self-closed elements that otherwise hold raw text, and many void elements.
#[derive(Clone, Copy, PartialEq)]
pub enum Mark { Tag, Class, Rich }

const VOIDS: [&str; 16] = ["wbr", "area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link", "menuitem", "meta", "param", "source", "Track"];

struct Budget { left: usize, made: usize, mark: Mark }

/// All forests of exactly `n` nodes: texts, self-closed, void and paired elements; nesting up to `depth`.
pub fn forest(n: usize, depth: usize, mark: Mark) -> Forest {
    let mut b = Budget { left: n, made: 0, mark };
    level(&mut b, depth, true)
}
fn level(b: &mut Budget, depth: usize, top: bool) -> Forest {
    let mut out: Forest = vec![];
    let mut text = false;
    while b.left > 0 {
        let k = pick(5);
        if k == 0 {
            // End of this level; the top level takes all nodes.
            assume(!top);
            break;
        }
        b.left -= 1;
        b.made += 1;
        if k == 1 {
            // One of two neighbouring texts says nothing new.
            assume(!text);
            text = true;
            let t = ((b'0' + b.made as u8) as char).to_string();
            match if b.mark == Mark::Rich { pick(4) } else { 0 } {
                0 => out.push(leaf(&t)),
                3 => { out.push(leaf("<!doctype html>")); text = false }
                1 => out.push(leaf(&format_cat(&["<!--", &t, "<a>-->"]))),
                _ => { let mut e = el("title", Form::Pair); e.kids.push(leaf(&format_cat(&[&t, "<a>"]))); out.push(Node::El(e)) }
            }
            continue;
        }
        text = false;
        let form = [Form::Solo, Form::Void, Form::Pair][k as usize - 2];
        let mut e = match (b.mark, form) {
            (Mark::Tag, Form::Void) | (Mark::Rich, Form::Void) => el("br", form),
            (Mark::Tag, _) | (Mark::Rich, _) => el(&letter_str(), form),
            (Mark::Class, Form::Void) => el(VOIDS[b.made % 16], form),
            (Mark::Class, Form::Solo) => el(["e", "script", "f", "title", "TextArea"][b.made % 5], form),
            (Mark::Class, _) => el(&format_cat(&["e", &((b'0' + b.made as u8) as char).to_string()]), form),
        };
        // Every other void element is written self-closed in the source.
        if form == Form::Void && b.made % 2 == 1 { e.close = "/".into(); }
        // Every other name is spelled in the other case where it is closed.
        if form == Form::Pair && b.mark == Mark::Rich && b.made % 2 == 1 { e.close = byte_str(e.name.as_bytes()[0] ^ 0x20); }
        if b.mark == Mark::Class { e.attrs.push(("class".into(), Some(letter_str()))); }
        if form == Form::Pair && depth > 1 { e.kids = level(b, depth - 1, false); }
        out.push(Node::El(e));
    }
    out
}

/// Numbers on both sides of what a small counter holds.
pub const MANY: [usize; 6] = [2, 31, 130, 256, 258, 1030];
/// `n` elements, each in the one before, with `inner` in the last and texts on both sides of each.
pub fn nest(n: usize, names: &[&str], inner: Forest) -> Forest {
    let mut f = inner;
    for i in (0..n).rev() {
        let mut e = el(names[i % names.len()], Form::Pair);
        e.kids = f;
        f = vec![leaf("("), Node::El(e), leaf(")")];
    }
    f
}
/// `n` elements in a row, with a text after each.
pub fn row(n: usize, names: &[&str]) -> Forest {
    let mut f = vec![];
    for i in 0..n { f.push(Node::El(el(names[i % names.len()], [Form::Pair, Form::Solo][i % 2]))); f.push(leaf("-")); }
    f
}

/// Long or deep streams with an element a at the end, at the bottom, or at many places.
pub fn large() -> Forest {
    let n = [130, 258][pick(2) as usize];
    let a = || { let mut a = el("a", Form::Pair); a.kids.push(leaf("1")); Node::El(a) };
    match pick(4) {
        0 => nest(n, &["b"], vec![a(), leaf("2"), a()]),
        1 => { let mut f = row(n, &["b", "i"]); f.push(a()); f.push(leaf("2")); f }
        2 => { let mut e = el("a", Form::Pair); e.kids = nest(n, &["b", "a"], vec![leaf("1")]); vec![Node::El(e), leaf("2"), a()] }
        _ => { let mut e = el("b", Form::Pair); e.kids = row(n, &["a", "i"]); vec![Node::El(e), leaf("2"), a()] }
    }
}

pub fn is_a(m: Mark) -> impl Fn(&El) -> bool {
    move |e| match m { Mark::Class => e.has_class("a"), _ => ieq(&e.name, "a") }
}
pub fn sel_a(m: Mark) -> &'static str { match m { Mark::Class => ".a", _ => "a" } }

/// Parse the forest, transform it, compare with the expected forest.
pub fn expect(f: &Forest, real: impl FnOnce(&Template) -> Result<Template, StreamError>, want: Forest, code: u32) {
    let t = parse(&src(f));
    match real(&t) {
        Ok(r) => {
            let r = r.to_string();
            check_eq(r.as_bytes(), show(&want).as_bytes(), code, "the transform's result is not the expected one");
            out(r.as_bytes());
        }
        Err(_) => check(false, code + 1, "the transform fails"),
    }
}

// ---- catalogue of edits of one element

pub const EDITS: u8 = 29;

pub fn edit<'t>(k: u8, s: &'static str, e: BoxedElementApi<'t>) -> BoxedApi<'t> {
    match k {
        0 => e.into_boxed(),
        1 => e.set_attribute_with_value("x", 1u8).into_boxed(),
        2 => e.remove().into_boxed(),
        3 => e.replace("R").into_boxed(),
        4 => e.prepend("P").into_boxed(),
        5 => e.append("Q").into_boxed(),
        6 => e.remove_contents().into_boxed(),
        7 => e.replace_contents("r").into_boxed(),
        8 => e.prepend_contents("p").into_boxed(),
        9 => e.append_contents("q").into_boxed(),
        10 => e.repeat(0u8..2, |e, i| e.append(i)).into_boxed(),
        11 => e.repeat_contents(0u8..2, |c, i| c.append(i)).into_boxed(),
        12 => e.subselect(s, |e| e.set_empty_attribute("y")).into_boxed(),
        13 => e.subselect_direct(s, |e| e.append("d")).into_boxed(),
        14 => e.subselect_once(s, |e| e.replace("o")).into_boxed(),
        15 => e.subselect_direct_once(s, |e| e.remove()).into_boxed(),
        16 => e.subselect_contents(|c| c.prepend("<")).into_boxed(),
        17 => e.select(s, |e| e.prepend_contents("s")).into_boxed(),
        18 => e.select_once(s, |e| e.remove_contents()).into_boxed(),
        19 => e.select_direct(s, |e| e.set_empty_attribute("z")).into_boxed(),
        20 => e.replace_contents(Template::from_str("<a><i/></a>", Default::default())).into_boxed(),
        21 => e.add_class("n").into_boxed(),
        22 => e.remove_class("a").into_boxed(),
        23 => e.repeat_or_else(0u8..0, |e, i| e.append(i), |e| e.append("E")).into_boxed(),
        24 => e.repeat_contents(0u8..0, |c, i| c.append(i)).into_boxed(),
        25 => e.select_direct_once(s, |e| e.append("1")).into_boxed(),
        26 => e.prepend_contents("").into_boxed(),
        27 => e.replace_contents(Template::from_str("", Default::default())).into_boxed(),
        _ => e.append_contents(Data::from_unencoded_str("")).append("").into_boxed(),
    }
}
pub fn edit_ref(k: u8, p: Pred, mut e: El) -> Forest {
    let one = |e: El| vec![Node::El(e)];
    let with = |mut f: Forest, s: &str, front: bool| { if front { f.insert(0, leaf(s)) } else { f.push(leaf(s)) } f };
    match k {
        0 => one(e),
        1 => { attr_set(&mut e.attrs, "x", Some("1".into())); one(e) }
        2 => vec![],
        3 => vec![leaf("R")],
        4 => with(one(e), "P", true),
        5 => with(one(e), "Q", false),
        6 => one(e.contents(|_| vec![])),
        7 => one(e.contents(|_| vec![leaf("r")])),
        8 => one(e.contents(|c| with(c, "p", true))),
        9 => one(e.contents(|c| with(c, "q", false))),
        10 => { let mut f = one(e.clone()); f.push(leaf("0")); f.push(Node::El(e)); f.push(leaf("1")); f }
        11 => one(e.contents(|c| { let mut f = c.clone(); f.push(leaf("0")); f.extend(c); f.push(leaf("1")); f })),
        12 => one(e.contents(|c| select(c, p, &mut |mut x| { attr_set(&mut x.attrs, "y", None); vec![Node::El(x)] }))),
        13 => one(e.contents(|c| select_direct(c, p, &mut |x| vec![Node::El(x), leaf("d")]))),
        14 => one(e.contents(|c| select_once(c, p, &mut |_| vec![leaf("o")]))),
        15 => one(e.contents(|c| select_direct_once(c, p, &mut |_| vec![]))),
        16 => one(e.contents(|c| with(c, "&lt;", true))),
        17 => select(one(e), p, &mut |x| vec![Node::El(x.contents(|c| { let mut c = c; c.insert(0, leaf("s")); c }))]),
        18 => select_once(one(e), p, &mut |x| vec![Node::El(x.contents(|_| vec![]))]),
        19 => select_direct(one(e), p, &mut |mut x| { attr_set(&mut x.attrs, "z", None); vec![Node::El(x)] }),
        20 => one(e.contents(|_| { let mut a = el("a", Form::Pair); a.kids.push(Node::El(el("i", Form::Solo))); vec![Node::El(a)] })),
        21 => { attr_extend(&mut e.attrs, "class", "n", " "); one(e) }
        22 => { class_remove(&mut e.attrs, "a"); one(e) }
        23 => with(one(e), "E", false),
        24 => one(e.contents(|_| vec![])),
        25 => select_direct_once(one(e), p, &mut |x| vec![Node::El(x), leaf("1")]),
        27 => one(e.contents(|_| vec![])),
        _ => one(e.contents(|c| c)),
    }
}

// ---- catalogue of edits of a stream

pub const STEPS: u8 = 13;

pub fn step<'t>(k: u8, s: &'static str, h: BoxedApi<'t>) -> BoxedApi<'t> {
    match k {
        0 => h.select(s, |e| e.set_attribute_with_value("x", 1u8)).into_boxed(),
        1 => h.select(s, |e| e.append_contents("q")).into_boxed(),
        2 => h.select_once(s, |e| e.remove()).into_boxed(),
        3 => h.select_direct(s, |e| e.prepend("P")).into_boxed(),
        4 => h.select_direct_once(s, |e| e.replace("R")).into_boxed(),
        5 => h.prepend("<").into_boxed(),
        6 => h.append(Template::from_str("<a>t</a>", Default::default())).into_boxed(),
        7 => h.select(s, move |e| e.subselect(s, |e| e.append("d"))).into_boxed(),
        8 => h.repeat(0u8..2, |h, i| h.append(i)).into_boxed(),
        9 => h.select(s, |e| e.replace_contents("r")).into_boxed(),
        10 => h.select_once(s, |e| e.repeat(0u8..2, |e, i| e.set_attribute_with_value("n", i))).into_boxed(),
        11 => h.prepend(Template::from_str("", Default::default())).append("").into_boxed(),
        _ => h.select(s, move |e| e.subselect_contents(move |c| c.select_once(s, |e| e.remove_contents()))).into_boxed(),
    }
}
pub fn step_ref(k: u8, p: Pred, f: Forest) -> Forest {
    match k {
        0 => select(f, p, &mut |e| edit_ref(1, p, e)),
        1 => select(f, p, &mut |e| edit_ref(9, p, e)),
        2 => select_once(f, p, &mut |_| vec![]),
        3 => select_direct(f, p, &mut |e| edit_ref(4, p, e)),
        4 => select_direct_once(f, p, &mut |e| edit_ref(3, p, e)),
        5 => { let mut f = f; f.insert(0, leaf("&lt;")); f }
        6 => { let mut f = f; let mut a = el("a", Form::Pair); a.kids.push(leaf("t")); f.push(Node::El(a)); f }
        7 => select(f, p, &mut |e| vec![Node::El(e.contents(|c| select(c, p, &mut |x| vec![Node::El(x), leaf("d")])))]),
        8 => { let mut g = f.clone(); g.push(leaf("0")); g.extend(f); g.push(leaf("1")); g }
        9 => select(f, p, &mut |e| edit_ref(7, p, e)),
        10 => select_once(f, p, &mut |e| {
            let (mut x, mut y) = (e.clone(), e);
            attr_set(&mut x.attrs, "n", Some("0".into()));
            attr_set(&mut y.attrs, "n", Some("1".into()));
            vec![Node::El(x), Node::El(y)]
        }),
        11 => f,
        _ => select(f, p, &mut |e| vec![Node::El(e.contents(|c| select_once(c, p, &mut |x| vec![Node::El(x.contents(|_| vec![]))])))]),
    }
}
