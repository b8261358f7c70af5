//! C15: class and id edits affect exactly the named class or the id.
use crate::{canon::*, model::*, trees::*, vx::*};
use html5_fuser::text::Identifier;
use html5_fuser::{select, BoxedElementApi};

#[derive(Clone, Copy)]
struct Op { k: u8, n: &'static str }
fn real<'t>(o: Op, e: BoxedElementApi<'t>) -> BoxedElementApi<'t> {
    match o.k {
        0 => e.add_class(o.n).into_boxed_element(),
        1 => e.remove_class(o.n).into_boxed_element(),
        2 => e.set_id(o.n).into_boxed_element(),
        3 => e.remove_id().into_boxed_element(),
        4 => e.add_class(o.n.parse::<Identifier>()).into_boxed_element(),
        _ => e.remove_class(o.n.parse::<Identifier>()).into_boxed_element(),
    }
}
fn refr(o: Op, a: &mut Attrs) {
    match o.k {
        0 | 4 => attr_extend(a, "class", o.n, " "),
        1 | 5 => class_remove(a, o.n),
        2 => attr_set(a, "id", Some(o.n.to_string())),
        _ => attr_remove(a, "id"),
    }
}
fn run(f: Forest, os: &[Op], code: u32) {
    let os: Vec<Op> = os.to_vec();
    let want = select(f.clone(), &|e| ieq(&e.name, "p"), &mut |mut e| { for o in &os { refr(*o, &mut e.attrs); } vec![Node::El(e)] });
    expect(&f, |t| t.transform(|h| h.select("p", move |e| { let mut e = e.into_boxed_element(); for o in &os { e = real(*o, e); } e })), want, code);
}
fn host(attrs: Attrs) -> Forest {
    let mut e = el("p", Form::Pair);
    e.attrs = attrs;
    let mut i = el("i", Form::Pair);
    i.attrs = vec![("class".into(), Some("a b".into())), ("id".into(), Some("a".into()))];
    e.kids = vec![leaf("a"), Node::El(i)];
    vec![Node::El(e)]
}

/// Any class value; one class added or removed.
fn value<const N: usize, const M: usize>() {
    let v = sym_str::<N>();
    for b in v.bytes() { assume((b != b'"') & (b != b'&')); }
    let n = leak(sym_ascii::<M>(|c| ((c >= b'?') & (c < 0x7f)) | (c == b'-')));
    let k = pick(2);
    let f = host(vec![("class".into(), Some(v)), ("id".into(), Some("b".into()))]);
    cover(1501);
    run(f, &[Op { k, n }], 1501);
}
/// Words around and in a class value, several kinds of white space between them.
fn classes(n: usize) {
    let mut v = String::new();
    for i in 0..n {
        if i > 0 || pick(2) == 1 { v.push_str([" ", "\t ", "\n", "\u{3000}"][pick(4) as usize]); }
        v.push_str(["a", "A", "ab", "ba", "b"][pick(5) as usize]);
    }
    v.push_str(["", " "][pick(2) as usize]);
    let o = Op { k: [0, 1, 5][pick(3) as usize], n: "a" };
    run(host(vec![("x".into(), None), ("Class".into(), Some(v)), ("y".into(), Some("a".into()))]), &[o], 1503);
}
/// Several class and id attributes, without and with values; one or two edits.
fn several(n: usize, ops: usize) {
    let mut a: Attrs = vec![];
    for _ in 0..n {
        match pick(9) {
            0 => break,
            1 => a.push(("class".into(), None)),
            2 => a.push(("CLASS".into(), Some(String::new()))),
            3 => a.push(("class".into(), Some("a".into()))),
            4 => a.push(("class".into(), Some(format_cat(&["b ", &letter_str(), " c"])))),
            5 => a.push(("id".into(), Some("a".into()))),
            6 => a.push(("Id".into(), None)),
            7 => a.push(("classs".into(), Some("a".into()))),
            _ => a.push(("idd".into(), Some("a".into()))),
        }
    }
    let form = pick(3);
    let mut os = vec![];
    for _ in 0..ops { os.push(Op { k: pick(4), n: leak(letter_str()) }); }
    let mut f = host(a);
    if form > 0 { if let Node::El(e) = &mut f[0] { e.kids.clear(); e.form = Form::Solo; } }
    cover(1502);
    run(f, &os, 1505);
}
/// What a later selector sees.
fn matches() {
    let v = format_cat(&[&letter_str(), " ", &letter_str()]);
    let n = leak(letter_str());
    let w = leak(letter_str());
    let k = pick(6);
    let f = host(vec![("class".into(), Some(v)), ("id".into(), Some(letter_str()))]);
    let o = Op { k, n };
    let want = select(f.clone(), &|e| ieq(&e.name, "p"), &mut |mut e| {
        refr(o, &mut e.attrs);
        if e.has_class(w) { attr_set(&mut e.attrs, "c", None); }
        if e.has_id(w) { attr_set(&mut e.attrs, "d", None); }
        vec![Node::El(e)]
    });
    let t = parse(&src(&f));
    let c: select::Class = match w.parse() { Ok(c) => c, Err(_) => return check(false, 1511, "a class selector is refused") };
    let i: select::Id = match w.parse() { Ok(c) => c, Err(_) => return check(false, 1512, "an id selector is refused") };
    let r = t.transform(|h| h.select("p", move |e| real(o, e.into_boxed_element())).select_direct(c, |e| e.set_empty_attribute("c")).select_direct(i, |e| e.set_empty_attribute("d")));
    match r {
        Ok(r) => { let r = r.to_string(); check_eq(r.as_bytes(), show(&want).as_bytes(), 1513, "selection after a class or id edit differs"); out(r.as_bytes()) }
        Err(_) => check(false, 1514, "the transform fails"),
    }
}
/// Directly stated: who matches afterwards, and what is kept.
fn kept<const N: usize>() {
    let v = sym_str::<N>();
    for b in v.bytes() { assume((b != b'"') & (b != b'&')); }
    let f = host(vec![("class".into(), Some(v.clone()))]);
    let t = parse(&src(&f));
    let add = match t.transform(|h| h.select_direct("p", |e| e.add_class("zz")).select_direct(".zz", |e| e.replace("hit"))) { Ok(t) => t.to_string(), Err(_) => return check(false, 1521, "adding a class fails") };
    check_eq(add.as_bytes(), b"hit", 1522, "an element does not match the class added to it");
    let del = match t.transform(|h| h.select_direct("p", |e| e.remove_class("z")).select_direct("p.z", |e| e.replace("hit"))) { Ok(t) => t, Err(_) => return check(false, 1523, "removing a class fails") };
    check(del.to_string() != "hit", 1524, "an element matches the class removed from it");
    for w in words(&v) {
        if ieq(w, "z") { continue; }
        let plain = w.bytes().all(|b| ((b >= b'0') & (b <= b'9')) | ((b | 32 >= b'a') & (b | 32 <= b'z')));
        if !plain { continue; }
        let c: select::Class = match w.parse() { Ok(c) => c, Err(_) => continue };
        let r = del.transform(|h| h.select_direct(c, |e| e.replace("hit")));
        match r { Ok(r) => { cover(1503); check_eq(r.to_string().as_bytes(), b"hit", 1525, "removing one class loses another") } Err(_) => check(false, 1526, "selecting fails") }
    }
    out(del.to_string().as_bytes());
}

/// Long class lists.
fn many() {
    let n = MANY[pick(6) as usize];
    let mut ws: Vec<String> = (0..n).map(|i| format_cat(&["c", &i.to_string()])).collect();
    let at = pick(5);
    match at { 0 => ws[0] = "A".into(), 1 => ws[n - 1] = "a".into(), 2 => ws[n / 2] = "a".into(), 3 => { ws[0] = "a".into(); ws[n - 1] = "A".into() } _ => () }
    let mut attrs: Attrs = vec![("x".into(), None)];
    if pick(2) == 0 { attrs.push(("class".into(), Some(ws.join(" ")))) } else { for w in ws { attrs.push(("class".into(), Some(w))); } }
    run(host(attrs), &[Op { k: pick(2), n: "a" }], 1531);
}

/// Class lists in which classes are repeated.
fn repeated() {
    let n = [3, 7, 12, 40][pick(4) as usize];
    let m = [1, 2, 3, 5][pick(4) as usize];
    let mut ws: Vec<String> = (0..n).map(|i| ["b", "cc", "B", "e-e", "b"][i % m].to_string()).collect();
    let at = pick(5);
    let a = letter_str();
    if at > 0 { ws.insert([0, n / 2, n][at as usize % 3], a); }
    if at == 4 { ws.push("a".into()); }
    run(host(vec![("class".into(), Some(ws.join([" ", "  ", "\n"][pick(3) as usize])))]), &[Op { k: pick(2), n: ["a", "b"][pick(2) as usize] }], 1541);
}

harnesses! {
    /// [qt] 3 to 40 classes, of up to 3 different names, one more with a symbolic name; one added or removed
    fn c15_repeated() { repeated() }
    /// [qt] 2 to 1030 classes in one attribute or each in its own; a class at either end, in the middle, several times or missing added or removed
    fn c15_many() { many() }
    /// [q] every class value of 4 bytes, every class name of 1 byte
    fn c15_value4_1() { value::<4, 1>() }
    /// [q] every class value of 3 bytes, every class name of 2 bytes
    fn c15_value3_2() { value::<3, 2>() }
    /// [t] every class value of 5 bytes, every class name of 1 byte
    fn c15_value5_1() { value::<5, 1>() }
    /// [t] every class value of 5 bytes, every class name of 2 bytes
    fn c15_value5_2() { value::<5, 2>() }
    /// [q] up to 3 words of 5, 4 kinds of separators
    fn c15_classes2() { classes(2) }
    /// [t] up to 4 words
    fn c15_classes3() { classes(3) }
    /// [q] up to 2 of 9 attributes, one edit with a symbolic name
    fn c15_several2() { several(2, 1) }
    /// [t] up to 3 of 9 attributes, one edit
    fn c15_several3() { several(3, 1) }
    /// [q] no or one attribute, two edits
    fn c15_sequence1() { several(1, 2) }
    /// [t] up to two attributes, two edits
    fn c15_sequence2() { several(2, 2) }
    /// [t] no or one attribute, three edits
    fn c15_sequence1_3() { several(1, 3) }
    /// [qt] symbolic classes, id, edit and selectors after the edit
    fn c15_matches() { matches() }
    /// [q] every class value of 3 bytes: the added class matches, the removed one does not, others stay
    fn c15_kept3() { kept::<3>() }
    /// [t] every class value of 5 bytes
    fn c15_kept5() { kept::<5>() }
}
