//! C06: errors point at the offending place.
use crate::{canon::*, gen, model, vx::*};
use html5_fuser::Template;

fn place(src: String) {
    if let (Err(e), Err(b)) = (Template::from_str(&src, opts()), model::tokens(&src, None)) {
        cover(601);
        let s = seen(&e);
        check(s.kind == b.kind, 601, "wrong kind of error");
        check_eq(&where_seen(&s), &where_ref(&src, &b), 602, "wrong location in a parse error");
        out(&where_seen(&s));
    }
}
/// The source after a line with several-byte characters, so that lines, columns and offsets differ.
fn moved(src: String) { place(model::format_cat(&["a\n\u{e9}\t", &sym_str::<1>(), &src])) }

/// The stack limit error.
fn deep(src: String) {
    let d = sym_u64() as usize;
    if let (Err(e), Err(b)) = (Template::from_str(&src, opts().max_stack_depth(d)), model::tokens(&src, Some(d))) {
        let s = seen(&e);
        if b.kind == model::E_DEPTH { cover(602); }
        check(s.kind == b.kind, 603, "wrong kind of error");
        check_eq(&where_seen(&s), &where_ref(&src, &b), 604, "wrong location in a parse error under a depth limit");
    }
}

harnesses! {
    /// [qt] 8 parts of a source at 3 lengths about 65535, with a symbolic letter
    fn c06_huge() { place(gen::huge(gen::PARTS_HUGE)) }
    /// [qt] 12 parts of a source made of up to 160 characters of 2 to 4 bytes at every alignment, with a symbolic letter
    fn c06_wide() { place(gen::wide()) }
    /// [qt] 14 parts of a source at 11 lengths up to 256, with a symbolic byte
    fn c06_grown() { place(gen::grown()) }
    /// [q]
    fn c06_tag_body5() { place(gen::tag_body::<5>()) }
    /// [t]
    fn c06_tag_body7() { place(gen::tag_body::<7>()) }
    /// [q]
    fn c06_tag_name3() { place(gen::tag_name::<3>()) }
    /// [t]
    fn c06_tag_name5() { place(gen::tag_name::<5>()) }
    /// [q]
    fn c06_attr_name3() { place(gen::attr_name::<3>()) }
    /// [t]
    fn c06_attr_name5() { place(gen::attr_name::<5>()) }
    /// [q]
    fn c06_attr_value4() { place(gen::attr_value::<4>()) }
    /// [t]
    fn c06_attr_value6() { place(gen::attr_value::<6>()) }
    /// [q]
    fn c06_attr_eq3() { place(gen::attr_eq::<3>()) }
    /// [t]
    fn c06_attr_eq5() { place(gen::attr_eq::<5>()) }
    fn c06_void_tag() { place(gen::void_tag()) }
    fn c06_near_name() { place(gen::near_name()) }
    /// [q]
    fn c06_raw_tag4() { place(gen::raw_tag::<4>()) }
    /// [t]
    fn c06_raw_tag6() { place(gen::raw_tag::<6>()) }
    fn c06_raw_inner() { place(gen::raw_inner()) }
    /// [q]
    fn c06_raw_open3() { place(gen::raw_open::<3>()) }
    /// [t]
    fn c06_raw_open5() { place(gen::raw_open::<5>()) }
    /// [q]
    fn c06_comment4() { place(gen::comment::<4>()) }
    /// [t]
    fn c06_comment6() { place(gen::comment::<6>()) }
    /// [q]
    fn c06_comment_open4() { place(gen::comment_open::<4>()) }
    /// [t]
    fn c06_comment_open6() { place(gen::comment_open::<6>()) }
    /// [q]
    fn c06_doctype2() { place(gen::doctype::<2>()) }
    /// [t]
    fn c06_doctype3() { place(gen::doctype::<3>()) }
    /// [q]
    fn c06_doctype_content4() { place(gen::doctype_content::<4>()) }
    /// [t]
    fn c06_doctype_content6() { place(gen::doctype_content::<6>()) }
    /// [q]
    fn c06_close_tag4() { place(gen::close_tag::<4>()) }
    /// [t]
    fn c06_close_tag6() { place(gen::close_tag::<6>()) }
    fn c06_spaced() { place(gen::spaced()) }
    fn c06_spaced_attr() { place(gen::spaced_attr()) }
    /// [q]
    fn c06_tags4() { place(gen::tags(4)) }
    /// [t]
    fn c06_tags6() { place(gen::tags(6)) }
    /// [q]
    fn c06_lines3() { place(gen::lines::<3>()) }
    /// [t]
    fn c06_lines4() { place(gen::lines::<4>()) }
    /// [q]
    fn c06_long_text3() { place(gen::long_text::<3>()) }
    /// [t]
    fn c06_long_text5() { place(gen::long_text::<5>()) }
    /// [q]
    fn c06_two_attrs2() { place(gen::two_attrs::<2>()) }
    /// [t]
    fn c06_two_attrs3() { place(gen::two_attrs::<3>()) }
    /// [q]
    fn c06_nested_raw2() { place(gen::nested_raw::<2>()) }
    /// [t]
    fn c06_nested_raw3() { place(gen::nested_raw::<3>()) }
    /// [q]
    fn c06_arb5() { moved(gen::arb::<5>()) }
    /// [t]
    fn c06_arb7() { moved(gen::arb::<7>()) }
    /// [q]
    fn c06_moved_tag_body4() { moved(gen::tag_body::<4>()) }
    /// [t]
    fn c06_moved_tag_body6() { moved(gen::tag_body::<6>()) }
    fn c06_moved_close4() { moved(gen::close_tag::<4>()) }
    fn c06_depth() { deep(model::format_cat(&["\u{e9}\n", &sym_str::<1>(), &gen::tags(3)])) }
}
