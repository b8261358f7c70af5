//! C01: parsing and rendering never panic, overflow or hang.
use crate::{canon::*, gen, vx::*};
use html5_fuser::{ParseOptions, Template};

/// The messages of an error and everything it is caused by.
#[allow(deprecated)]
fn chain(e: &dyn std::error::Error) -> Vec<String> {
    let mut o = vec![e.to_string()];
    let mut c = e.cause();
    while let Some(x) = c { o.push(x.to_string()); c = x.cause(); }
    o
}
fn total(src: String) {
    match Template::from_str(&src, opts()) {
        Ok(t) => {
            cover(101);
            let o = t.to_string();
            out(o.as_bytes());
            let u = t.transform(|html| html);
            check(u.is_ok(), 101, "the identity transform of a parsed template fails");
        }
        Err(e) => {
            cover(102);
            let s = seen(&e);
            out(&what_seen(&s));
            out(&where_seen(&s));
            for e in chain(&e) { out(e.as_bytes()) }
        }
    }
}

harnesses! {
    /// [qt] 8 parts of a source at 3 lengths about 65535, with a symbolic letter
    fn c01_huge() { total(gen::huge(gen::PARTS_HUGE)) }
    /// [qt] 12 parts of a source made of up to 160 characters of 2 to 4 bytes at every alignment, with a symbolic letter
    fn c01_wide() { total(gen::wide()) }
    /// [qt] 14 parts of a source at 11 lengths up to 256, with a symbolic byte
    fn c01_grown() { total(gen::grown()) }
    /// [q]
    fn c01_arb6() { total(gen::arb::<6>()) }
    /// [t]
    fn c01_arb8() { total(gen::arb::<8>()) }
    /// [q]
    fn c01_tag_body5() { total(gen::tag_body::<5>()) }
    /// [t]
    fn c01_tag_body7() { total(gen::tag_body::<7>()) }
    /// [q]
    fn c01_tag_name3() { total(gen::tag_name::<3>()) }
    /// [t]
    fn c01_tag_name5() { total(gen::tag_name::<5>()) }
    /// [q]
    fn c01_attr_name3() { total(gen::attr_name::<3>()) }
    /// [t]
    fn c01_attr_name5() { total(gen::attr_name::<5>()) }
    /// [q]
    fn c01_attr_value4() { total(gen::attr_value::<4>()) }
    /// [t]
    fn c01_attr_value6() { total(gen::attr_value::<6>()) }
    /// [q]
    fn c01_attr_eq3() { total(gen::attr_eq::<3>()) }
    /// [t]
    fn c01_attr_eq5() { total(gen::attr_eq::<5>()) }
    fn c01_void_tag() { total(gen::void_tag()) }
    fn c01_near_name() { total(gen::near_name()) }
    /// [q]
    fn c01_raw_tag4() { total(gen::raw_tag::<4>()) }
    /// [t]
    fn c01_raw_tag6() { total(gen::raw_tag::<6>()) }
    fn c01_raw_inner() { total(gen::raw_inner()) }
    /// [q]
    fn c01_raw_open3() { total(gen::raw_open::<3>()) }
    /// [t]
    fn c01_raw_open5() { total(gen::raw_open::<5>()) }
    /// [q]
    fn c01_comment4() { total(gen::comment::<4>()) }
    /// [t]
    fn c01_comment6() { total(gen::comment::<6>()) }
    /// [q]
    fn c01_comment_open4() { total(gen::comment_open::<4>()) }
    /// [t]
    fn c01_comment_open6() { total(gen::comment_open::<6>()) }
    /// [q]
    fn c01_doctype2() { total(gen::doctype::<2>()) }
    /// [t]
    fn c01_doctype3() { total(gen::doctype::<3>()) }
    /// [q]
    fn c01_doctype_content4() { total(gen::doctype_content::<4>()) }
    /// [t]
    fn c01_doctype_content6() { total(gen::doctype_content::<6>()) }
    /// [q]
    fn c01_close_tag4() { total(gen::close_tag::<4>()) }
    /// [t]
    fn c01_close_tag6() { total(gen::close_tag::<6>()) }
    fn c01_spaced() { total(gen::spaced()) }
    fn c01_spaced_attr() { total(gen::spaced_attr()) }
    /// [q]
    fn c01_tags4() { total(gen::tags(4)) }
    /// [t]
    fn c01_tags6() { total(gen::tags(6)) }
    /// [q]
    fn c01_lines3() { total(gen::lines::<3>()) }
    /// [t]
    fn c01_lines4() { total(gen::lines::<4>()) }
    /// [q]
    fn c01_long_text3() { total(gen::long_text::<3>()) }
    /// [t]
    fn c01_long_text5() { total(gen::long_text::<5>()) }
    /// [q]
    fn c01_two_attrs2() { total(gen::two_attrs::<2>()) }
    /// [t]
    fn c01_two_attrs3() { total(gen::two_attrs::<3>()) }
    /// [q]
    fn c01_nested_raw2() { total(gen::nested_raw::<2>()) }
    /// [t]
    fn c01_nested_raw3() { total(gen::nested_raw::<3>()) }
    fn c01_options() {
        let src = gen::tags(2);
        let depth = sym_u64() as usize;
        let len = sym_u64() as usize;
        let o = ParseOptions::default().max_stack_depth(depth).max_input_len(len);
        match Template::from_str(&src, o) {
            Ok(t) => { cover(103); out(t.to_string().as_bytes()) }
            Err(e) => { cover(104); out(&what_seen(&seen(&e))) }
        }
    }
}
