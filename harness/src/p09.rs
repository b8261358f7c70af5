//! C09: selector strings are understood exactly.
use crate::ident::*;
use crate::{model, vx::*};
use html5_fuser::select::{Class, ClassError, Classes, ClassesError, Id, IdError, IntoSelector, StaticError, Tag, TagError};
use html5_fuser::Template;

/// What a static selector says: its parts, or the part that is wrong.
enum Sel<'s> { Parts(Option<&'s str>, Option<&'s str>, Vec<&'s str>), Bad(u8, usize, (u8, char)) }

fn find(s: &str, f: fn(u8) -> bool) -> usize {
    for (i, b) in s.bytes().enumerate() { if f(b) { return i; } }
    s.len()
}
fn reference(s: &str) -> Sel {
    let n = find(s, |b| (b == b'#') | (b == b'.'));
    let (tag, mut rest) = (&s[..n], &s[n..]);
    let mut t = None;
    if !tag.is_empty() {
        let f = fault(tag);
        if f.0 != 0 { return Sel::Bad(1, 0, f); }
        t = Some(tag);
    }
    let mut id = None;
    if !rest.is_empty() && rest.as_bytes()[0] == b'#' {
        let n = find(rest, |b| b == b'.');
        let f = fault(&rest[1..n]);
        if f.0 != 0 { return Sel::Bad(2, 0, f); }
        id = Some(&rest[1..n]);
        rest = &rest[n..];
    }
    let mut classes = vec![];
    while !rest.is_empty() {
        rest = &rest[1..];
        let n = find(rest, |b| b == b'.');
        let f = fault(&rest[..n]);
        if f.0 != 0 { return Sel::Bad(3, classes.len(), f); }
        classes.push(&rest[..n]);
        rest = &rest[n..];
    }
    if t.is_none() && id.is_none() && classes.is_empty() { return Sel::Bad(4, 0, (0, ' ')); }
    Sel::Parts(t, id, classes)
}
fn seen(e: &StaticError) -> (u8, usize, (u8, char)) {
    match e {
        StaticError::Tag { error } => (1, 0, fault_of(error)),
        StaticError::Id { error } => (2, 0, fault_of(error)),
        StaticError::Class { index, error } => (3, *index, fault_of(error)),
        StaticError::Unrestricted => (4, 0, (0, ' ')),
    }
}

fn grammar(s: String) {
    let st = leak(s.clone());
    match (st.into_selector(), reference(&s)) {
        (Ok(sel), Sel::Parts(t, i, c)) => {
            cover(901);
            // An element with exactly these parts is matched, and is not when a part is missing.
            let tag = t.unwrap_or("p");
            let mut src = model::format_cat(&["<", tag]);
            if let Some(i) = i { src.push_str(" id=\""); src.push_str(i); src.push('"'); }
            if !c.is_empty() { src.push_str(" class=\""); for w in &c { src.push_str(" "); src.push_str(w); } src.push('"'); }
            src.push_str("/>");
            let hit = |src: &str| match Template::from_str(src, Default::default()) {
                Ok(t) => match t.transform(|h| h.select(&sel, |e| e.replace("!"))) { Ok(r) => Some(same(r.to_string().as_bytes(), b"!")), Err(_) => { check(false, 901, "selecting with an accepted selector fails"); None } },
                Err(_) => None,
            };
            if let Some(h) = hit(&src) { cover(902); check(h, 902, "an accepted selector does not match the element it spells"); }
            if t.is_some() {
                let other = model::format_cat(&["<x", &src[1..]]);
                if let Some(h) = hit(&other) { check(!h, 903, "a selector ignores its tag"); }
            }
            if let Some(i) = i {
                let other = model::format_cat(&["<", tag, " id=\"x", i, "\" class=\"", &c.join(" "), "\"/>"]);
                if let Some(h) = hit(&other) { check(!h, 904, "a selector ignores its id"); }
            }
            for k in 0..c.len() {
                if c.len() > 20 && k > 0 && k + 1 < c.len() { continue }
                let mut o = model::format_cat(&["<", tag, " id=\"", i.unwrap_or(""), "\" class=\""]);
                let mut dup = false;
                for (j, w) in c.iter().enumerate() { if j != k { dup |= model::ieq(w, c[k]); o.push_str(w); o.push(' '); } }
                o.push_str("\"/>");
                if let Some(h) = hit(&o) { check(h == dup, 905, "a selector ignores one of its classes"); }
            }
            // As an argument.
            let r = model_free(st);
            check(r.is_ok(), 906, "a selector is accepted on its own but not by select");
        }
        (Err(e), Sel::Bad(k, n, f)) => {
            if k == 1 { cover(903) }
            if k == 2 { cover(904) }
            if k == 3 { cover(905) }
            if k == 4 { cover(906) }
            let g = seen(&e);
            check(g.0 == k, 911, "another part of the selector is reported as wrong");
            check(g.1 == n, 912, "another class index is reported as wrong");
            check(g.2 == f, 913, "the wrong reason is reported for a selector part");
            match model_free(st) {
                Ok(_) => check(false, 914, "a selector is refused on its own but not by select"),
                Err(html5_fuser::event::StreamError::StaticSelector { error }) => check(seen(&error) == (k, n, f), 915, "select reports another selector error"),
                Err(_) => check(false, 916, "a refused selector ends in another error"),
            }
            out(&[k, n as u8]);
        }
        (Ok(_), Sel::Bad(..)) => check(false, 917, "an invalid selector was accepted"),
        (Err(_), Sel::Parts(..)) => check(false, 918, "a valid selector was refused"),
    }
}
fn model_free(st: &'static str) -> Result<Template, html5_fuser::event::StreamError> {
    crate::canon::parse("x").transform(|h| h.select(st, |e| e.remove()))
}

fn typed(s: String) {
    let f = fault(&s);
    match s.parse::<Tag>() { Ok(_) => check(f.0 == 0, 921, "an invalid tag selector was accepted"), Err(TagError::Identifier { error }) => check(fault_of(&error) == f, 922, "wrong tag selector error") }
    match s.parse::<Id>() { Ok(_) => check(f.0 == 0, 923, "an invalid id selector was accepted"), Err(IdError::Identifier { error }) => check(fault_of(&error) == f, 924, "wrong id selector error") }
    match s.parse::<Class>() { Ok(_) => check(f.0 == 0, 925, "an invalid class selector was accepted"), Err(ClassError::Identifier { error }) => check(fault_of(&error) == f, 926, "wrong class selector error") }
    if f.0 == 0 { cover(907) } else { cover(908) }
}
/// A class list of `n` words of symbolic bytes.
fn list(n: usize) {
    let mut w = vec![];
    for _ in 0..n { w.push(sym_str::<1>()); }
    let mut want = None;
    for (i, s) in w.iter().enumerate() { let f = fault(s); if f.0 != 0 { want = Some((i, f)); break; } }
    match Classes::from_str_iterator(w.iter().map(|s| s.as_str())) {
        Ok(_) => { cover(909); check(n > 0 && want.is_none(), 931, "an invalid class list was accepted") }
        Err(ClassesError::Empty) => { cover(910); check(n == 0, 932, "a class list is called empty and is not") }
        Err(ClassesError::Identifier { index, error }) => { cover(911); check(want == Some((index, fault_of(&error))), 933, "the wrong class of a list is reported") }
    }
}
/// Selector pieces around the markers.
fn pieces(n: usize) -> String {
    let mut o = String::new();
    for _ in 0..n {
        match pick(5) {
            0 => o.push('#'),
            1 => o.push('.'),
            2 => o.push_str("ab"),
            3 => o.push_str(&letter_str()),
            _ => {}
        }
    }
    o
}

harnesses! {
    fn c09_empty() { grammar(String::new()) }
    /// [q] every selector of 3 bytes
    fn c09_any3() { grammar(sym_str::<3>()) }
    /// [q] every selector of 4 bytes
    fn c09_any4() { grammar(sym_str::<4>()) }
    /// [q] every ASCII selector of 5 bytes
    fn c09_ascii5() { grammar(sym_ascii::<5>(|_| true)) }
    /// [t] every selector of 6 bytes
    fn c09_any6() { grammar(sym_str::<6>()) }
    /// [q] 4 pieces out of #, ., a word and a symbolic letter
    fn c09_pieces4() { grammar(pieces(4)) }
    /// [t] as above, 6 pieces
    fn c09_pieces6() { grammar(pieces(6)) }
    /// [qt] all parts present, with a hole in each place
    fn c09_full() { grammar(model::format_cat(&["t", &sym_str::<1>(), "#i", &sym_str::<1>(), ".c", &sym_str::<1>(), ".d", &sym_str::<1>()])) }
    /// [qt] many classes, the last one symbolic
    fn c09_index() { grammar(model::format_cat(&[".a.b.c.d.e.f.g.h.i.j.k.", &sym_str::<2>()])) }
    /// [qt] 2 to 1030 classes, the last one symbolic
    fn c09_many() { grammar(model::format_cat(&[&crate::gen::times(".a", crate::trees::MANY[pick(6) as usize]), ".", &sym_str::<1>()])) }
    /// [qt] long names of each part, with a hole at either end or in the middle
    fn c09_sized() {
        let l = crate::gen::sized();
        grammar(match pick(4) {
            0 => model::format_cat(&[&l, "#i.c"]),
            1 => model::format_cat(&["t#", &l, ".c"]),
            2 => model::format_cat(&["t#i.", &l, ".d"]),
            _ => model::format_cat(&["t#i.c.", &l]),
        })
    }
    /// [qt] lists of 2 to 1030 words, the last one symbolic
    fn c09_list_many() {
        let n = crate::trees::MANY[pick(6) as usize];
        let s = sym_str::<1>();
        let f = fault(&s);
        match Classes::from_str_iterator((0..n).map(|_| "a").chain(std::iter::once(s.as_str()))) {
            Ok(_) => check(f.0 == 0, 934, "an invalid class list was accepted"),
            Err(ClassesError::Empty) => check(false, 935, "a class list is called empty and is not"),
            Err(ClassesError::Identifier { index, error }) => check(f.0 != 0 && index == n && fault_of(&error) == f, 936, "the wrong class of a list is reported"),
        }
    }
    fn c09_typed_empty() { typed(String::new()) }
    /// [qt] every typed selector of 4 bytes
    fn c09_typed4() { typed(sym_str::<4>()) }
    fn c09_list0() { list(0) }
    fn c09_list1() { list(1) }
    /// [qt] lists of 3 one-byte words
    fn c09_list3() { list(3) }
}
