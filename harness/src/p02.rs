//! C02: parsing accepts exactly the documented syntax and preserves what it read.
use crate::{canon::*, gen, model, vx::*};
use html5_fuser::Template;

fn same_as_ref(src: String) {
    let real = Template::from_str(&src, opts());
    match (real, model::tokens(&src, None)) {
        (Ok(t), Ok(r)) => {
            cover(201);
            let o = t.to_string();
            check_eq(o.as_bytes(), model::render(&r).as_bytes(), 201, "rendered template differs from what the source says");
            out(o.as_bytes());
        }
        (Err(e), Err(b)) => {
            cover(202);
            check_eq(&what_seen(&seen(&e)), &what_ref(&b), 202, "wrong reason for rejecting the source");
            out(&[b.kind]);
        }
        (Ok(_), Err(_)) => check(false, 203, "malformed source accepted"),
        (Err(_), Ok(_)) => check(false, 204, "well-formed source rejected"),
    }
}

harnesses! {
    /// [qt] 8 parts of a source at 3 lengths about 65535, with a symbolic letter
    fn c02_huge() { same_as_ref(gen::huge(gen::PARTS_HUGE)) }
    /// [qt] 12 parts of a source made of up to 160 characters of 2 to 4 bytes at every alignment, with a symbolic letter
    fn c02_wide() { same_as_ref(gen::wide()) }
    /// [qt] 14 parts of a source at 11 lengths up to 256, with a symbolic byte
    fn c02_grown() { same_as_ref(gen::grown()) }
    /// [q]
    fn c02_arb6() { same_as_ref(gen::arb::<6>()) }
    /// [t]
    fn c02_arb8() { same_as_ref(gen::arb::<8>()) }
    /// [q]
    fn c02_tag_body5() { same_as_ref(gen::tag_body::<5>()) }
    /// [t]
    fn c02_tag_body7() { same_as_ref(gen::tag_body::<7>()) }
    /// [q]
    fn c02_tag_name3() { same_as_ref(gen::tag_name::<3>()) }
    /// [t]
    fn c02_tag_name5() { same_as_ref(gen::tag_name::<5>()) }
    /// [q]
    fn c02_attr_name3() { same_as_ref(gen::attr_name::<3>()) }
    /// [t]
    fn c02_attr_name5() { same_as_ref(gen::attr_name::<5>()) }
    /// [q]
    fn c02_attr_value4() { same_as_ref(gen::attr_value::<4>()) }
    /// [t]
    fn c02_attr_value6() { same_as_ref(gen::attr_value::<6>()) }
    /// [q]
    fn c02_attr_eq3() { same_as_ref(gen::attr_eq::<3>()) }
    /// [t]
    fn c02_attr_eq5() { same_as_ref(gen::attr_eq::<5>()) }
    fn c02_void_tag() { same_as_ref(gen::void_tag()) }
    fn c02_near_name() { same_as_ref(gen::near_name()) }
    /// [q]
    fn c02_raw_tag4() { same_as_ref(gen::raw_tag::<4>()) }
    /// [t]
    fn c02_raw_tag6() { same_as_ref(gen::raw_tag::<6>()) }
    fn c02_raw_inner() { same_as_ref(gen::raw_inner()) }
    /// [q]
    fn c02_raw_open3() { same_as_ref(gen::raw_open::<3>()) }
    /// [t]
    fn c02_raw_open5() { same_as_ref(gen::raw_open::<5>()) }
    /// [q]
    fn c02_comment4() { same_as_ref(gen::comment::<4>()) }
    /// [t]
    fn c02_comment6() { same_as_ref(gen::comment::<6>()) }
    /// [q]
    fn c02_comment_open4() { same_as_ref(gen::comment_open::<4>()) }
    /// [t]
    fn c02_comment_open6() { same_as_ref(gen::comment_open::<6>()) }
    /// [q]
    fn c02_doctype2() { same_as_ref(gen::doctype::<2>()) }
    /// [t]
    fn c02_doctype3() { same_as_ref(gen::doctype::<3>()) }
    /// [q]
    fn c02_doctype_content4() { same_as_ref(gen::doctype_content::<4>()) }
    /// [t]
    fn c02_doctype_content6() { same_as_ref(gen::doctype_content::<6>()) }
    /// [q]
    fn c02_close_tag4() { same_as_ref(gen::close_tag::<4>()) }
    /// [t]
    fn c02_close_tag6() { same_as_ref(gen::close_tag::<6>()) }
    fn c02_spaced() { same_as_ref(gen::spaced()) }
    fn c02_spaced_attr() { same_as_ref(gen::spaced_attr()) }
    /// [q]
    fn c02_tags4() { same_as_ref(gen::tags(4)) }
    /// [t]
    fn c02_tags6() { same_as_ref(gen::tags(6)) }
    /// [q]
    fn c02_lines3() { same_as_ref(gen::lines::<3>()) }
    /// [t]
    fn c02_lines4() { same_as_ref(gen::lines::<4>()) }
    /// [q]
    fn c02_long_text3() { same_as_ref(gen::long_text::<3>()) }
    /// [t]
    fn c02_long_text5() { same_as_ref(gen::long_text::<5>()) }
    /// [q]
    fn c02_two_attrs2() { same_as_ref(gen::two_attrs::<2>()) }
    /// [t]
    fn c02_two_attrs3() { same_as_ref(gen::two_attrs::<3>()) }
    /// [q]
    fn c02_nested_raw2() { same_as_ref(gen::nested_raw::<2>()) }
    /// [t]
    fn c02_nested_raw3() { same_as_ref(gen::nested_raw::<3>()) }
}
