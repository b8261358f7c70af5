//! C03: renderings can be parsed again and come back unchanged.
use crate::{canon::*, gen, model, vx::*};
use html5_fuser::text::Identifier;
use html5_fuser::Template;

fn back(src: String) {
    let t = match Template::from_str(&src, opts()) { Ok(t) => t, Err(_) => return };
    cover(301);
    let r = t.to_string();
    let u = match Template::from_str(&r, opts()) { Ok(u) => u, Err(_) => return check(false, 301, "the rendering of a parsed template is rejected") };
    check_eq(u.to_string().as_bytes(), r.as_bytes(), 302, "a second round trip changes the rendering");
    check(t == u, 303, "the template read back is not equal to the first");
    out(r.as_bytes());
}

/// Elements made from a name.
fn made<const N: usize>() {
    let name = sym_str::<N>();
    let tag: Identifier = match name.parse() {
        Ok(t) => t,
        Err(_) => { check(!model::valid_ident(&name), 304, "a valid name was refused"); cover(302); return }
    };
    check(model::valid_ident(&name), 305, "an invalid name was accepted");
    let t = match Template::with_element(tag.clone()) {
        Ok(t) => t,
        Err(_) => { check(name.as_bytes()[0] == b'!', 306, "a usable element name was refused"); cover(303); return }
    };
    cover(304);
    let void = model::is_void(&name);
    let want = if void { model::format_cat(&["<", &name, ">"]) } else { model::format_cat(&["<", &name, " />"]) };
    let r = t.to_string();
    check_eq(r.as_bytes(), want.as_bytes(), 307, "a made element renders wrongly");
    let u = match Template::from_str(&r, opts()) { Ok(u) => u, Err(_) => return check(false, 308, "the rendering of a made element is rejected") };
    check(t == u, 309, "a made element reads back differently");
    let w = match Template::with_transformed_element(tag.clone(), |e| e.replace_contents("x").set_empty_attribute(tag.clone())) {
        Ok(w) => w, Err(_) => return check(false, 310, "transforming a made element fails") };
    let want = if void { model::format_cat(&["<", &name, " ", &name, ">"]) } else { model::format_cat(&["<", &name, " ", &name, ">x</", &name, ">"]) };
    let r = w.to_string();
    check_eq(r.as_bytes(), want.as_bytes(), 311, "a made and transformed element renders wrongly");
    match Template::from_str(&r, opts()) {
        Ok(u) => check_eq(u.to_string().as_bytes(), r.as_bytes(), 312, "a made and transformed element reads back differently"),
        Err(_) => check(false, 313, "the rendering of a made and transformed element is rejected"),
    }
    out(r.as_bytes());
}

harnesses! {
    /// [qt] 12 parts of a source made of up to 160 characters of 2 to 4 bytes at every alignment, with a symbolic letter
    fn c03_wide() { back(gen::wide()) }
    /// [qt] 14 parts of a source at 11 lengths up to 256, with a symbolic byte
    fn c03_grown() { back(gen::grown()) }
    /// [q]
    fn c03_arb6() { back(gen::arb::<6>()) }
    /// [t]
    fn c03_arb8() { back(gen::arb::<8>()) }
    /// [q]
    fn c03_tag_body5() { back(gen::tag_body::<5>()) }
    /// [t]
    fn c03_tag_body7() { back(gen::tag_body::<7>()) }
    /// [q]
    fn c03_tag_name3() { back(gen::tag_name::<3>()) }
    /// [t]
    fn c03_tag_name5() { back(gen::tag_name::<5>()) }
    /// [q]
    fn c03_attr_name3() { back(gen::attr_name::<3>()) }
    /// [t]
    fn c03_attr_name5() { back(gen::attr_name::<5>()) }
    /// [q]
    fn c03_attr_value4() { back(gen::attr_value::<4>()) }
    /// [t]
    fn c03_attr_value6() { back(gen::attr_value::<6>()) }
    /// [q]
    fn c03_attr_eq3() { back(gen::attr_eq::<3>()) }
    /// [t]
    fn c03_attr_eq5() { back(gen::attr_eq::<5>()) }
    fn c03_void_tag() { back(gen::void_tag()) }
    fn c03_near_name() { back(gen::near_name()) }
    /// [q]
    fn c03_raw_tag4() { back(gen::raw_tag::<4>()) }
    /// [t]
    fn c03_raw_tag6() { back(gen::raw_tag::<6>()) }
    fn c03_raw_inner() { back(gen::raw_inner()) }
    /// [q]
    fn c03_raw_open3() { back(gen::raw_open::<3>()) }
    /// [t]
    fn c03_raw_open5() { back(gen::raw_open::<5>()) }
    /// [q]
    fn c03_comment4() { back(gen::comment::<4>()) }
    /// [t]
    fn c03_comment6() { back(gen::comment::<6>()) }
    /// [q]
    fn c03_comment_open4() { back(gen::comment_open::<4>()) }
    /// [t]
    fn c03_comment_open6() { back(gen::comment_open::<6>()) }
    /// [q]
    fn c03_doctype2() { back(gen::doctype::<2>()) }
    /// [t]
    fn c03_doctype3() { back(gen::doctype::<3>()) }
    /// [q]
    fn c03_doctype_content4() { back(gen::doctype_content::<4>()) }
    /// [t]
    fn c03_doctype_content6() { back(gen::doctype_content::<6>()) }
    /// [q]
    fn c03_close_tag4() { back(gen::close_tag::<4>()) }
    /// [t]
    fn c03_close_tag6() { back(gen::close_tag::<6>()) }
    fn c03_spaced() { back(gen::spaced()) }
    fn c03_spaced_attr() { back(gen::spaced_attr()) }
    /// [q]
    fn c03_tags4() { back(gen::tags(4)) }
    /// [t]
    fn c03_tags6() { back(gen::tags(6)) }
    /// [q]
    fn c03_lines3() { back(gen::lines::<3>()) }
    /// [t]
    fn c03_lines4() { back(gen::lines::<4>()) }
    /// [q]
    fn c03_long_text3() { back(gen::long_text::<3>()) }
    /// [t]
    fn c03_long_text5() { back(gen::long_text::<5>()) }
    /// [q]
    fn c03_two_attrs2() { back(gen::two_attrs::<2>()) }
    /// [t]
    fn c03_two_attrs3() { back(gen::two_attrs::<3>()) }
    /// [q]
    fn c03_nested_raw2() { back(gen::nested_raw::<2>()) }
    /// [t]
    fn c03_nested_raw3() { back(gen::nested_raw::<3>()) }
    /// [q] element names of up to 3 bytes
    fn c03_made1() { made::<1>() }
    /// [qt] element names of 3 arbitrary bytes
    fn c03_made3() { made::<3>() }
    /// [t] element names of 5 arbitrary bytes
    fn c03_made5() { made::<5>() }
}
