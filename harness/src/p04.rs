//! C04: exactly the properly nested sources are accepted.
use crate::{canon::*, gen, model, vx::*};
use html5_fuser::{ParseOptions, Template};

fn nest(src: String, depth: Option<usize>) {
    let o = match depth { Some(d) => ParseOptions::default().max_stack_depth(d), None => ParseOptions::default().no_max_stack_depth() };
    match (Template::from_str(&src, o), model::tokens(&src, depth)) {
        (Ok(t), Ok(r)) => {
            cover(401);
            check_eq(t.to_string().as_bytes(), model::render(&r).as_bytes(), 401, "balanced source rendered differently");
        }
        (Err(e), Err(b)) => {
            if b.kind == model::E_DEPTH { cover(402) }
            if b.kind == model::E_STRAY { cover(403) }
            if b.kind == model::E_MISMATCH { cover(404) }
            if b.kind == model::E_MISSING { cover(405) }
            check_eq(&what_seen(&seen(&e)), &what_ref(&b), 402, "wrong reason for rejecting badly nested tags");
            check_eq(&where_seen(&seen(&e)), &where_ref(&src, &b), 403, "wrong tag reported for badly nested tags");
            out(&[b.kind]);
        }
        (Ok(_), Err(_)) => check(false, 404, "badly nested source accepted"),
        (Err(_), Ok(_)) => check(false, 405, "properly nested source rejected"),
    }
}
fn limited(src: String) { nest(src, Some(sym_u64() as usize)) }

/// `n` levels of elements, closed in order, with one symbolic tag somewhere; the limit free.
fn tower(n: usize) {
    let mut o = String::new();
    for _ in 0..n { o.push('<'); o.push_str(&letter_str()); o.push('>'); }
    let names: Vec<u8> = o.bytes().filter(|b| *b != b'<' && *b != b'>').collect();
    for b in names.iter().rev() { o.push_str("</"); o.push_str(&byte_str(*b ^ 0x20)); o.push('>'); }
    limited(o)
}
/// Without a configured limit any depth is fine.
fn default_limit() {
    let n = [1, 31, 128, 257, 600][pick(5) as usize];
    let mut o = String::new();
    for _ in 0..n { o.push_str("<b>"); }
    for _ in 0..n { o.push_str("</B>"); }
    cover(406);
    check(Template::from_str(&o, ParseOptions::default()).is_ok(), 406, "deep nesting rejected without a limit");
    check(Template::from_str(&o, ParseOptions::default().max_stack_depth(n)).is_ok(), 407, "nesting as deep as the limit rejected");
    check(Template::from_str(&o, ParseOptions::default().max_stack_depth(n - 1)).is_err(), 408, "nesting beyond the limit accepted");
    check(Template::from_str(&o, ParseOptions::default().max_stack_depth(1).no_max_stack_depth()).is_ok(), 409, "a lifted limit still applies");
}

harnesses! {
    /// [q] all sequences of 4 tags (open, close, self-closed, br) with symbolic one-letter names, no limit
    fn c04_tags4() { nest(gen::tags(4), None) }
    /// [t] as above, 6 tags
    fn c04_tags6() { nest(gen::tags(6), None) }
    /// [q] sequences of 3 tags under every depth limit
    fn c04_limit3() { limited(gen::tags(3)) }
    /// [t] sequences of 5 tags under every depth limit
    fn c04_limit5() { limited(gen::tags(5)) }
    /// [q] sequences of 3 tags of mixed kinds (void, closed void, raw text, two-letter names)
    fn c04_mix3() { nest(gen::tags_mix(3), None) }
    /// [q] as above, under every depth limit
    fn c04_mix_limit3() { limited(gen::tags_mix(3)) }
    /// [t] as above, 4 tags under every depth limit
    fn c04_mix4() { limited(gen::tags_mix(4)) }
    /// [q] 4 levels of elements with symbolic names closed in the other case, every limit
    fn c04_tower4() { tower(4) }
    /// [t] as above, 8 levels
    fn c04_tower8() { tower(8) }
    /// [qt] names of two symbolic letters against each other
    fn c04_names2() { nest(model::format_cat(&["<", &sym_ascii::<2>(|c| c != b'>'), ">x</", &sym_ascii::<2>(|c| c != b'>'), ">"]), None) }
    /// [qt] names of three symbolic bytes against each other
    fn c04_names3() {
        let a = sym::<3>();
        let b = sym::<3>();
        for i in 0..3 { assume((a[i] | 0x20 >= b'`') & (a[i] | 0x20 < 0x7e) & (b[i] | 0x20 >= b'`') & (b[i] | 0x20 < 0x7e)); }
        let (a, b) = unsafe { (String::from_utf8_unchecked(a.to_vec()), String::from_utf8_unchecked(b.to_vec())) };
        nest(model::format_cat(&["<", &a, "></", &b, ">"]), None)
    }
    /// [qt] 1 to 600 levels, no limit, exact limit, one less
    fn c04_default() { default_limit() }
}
