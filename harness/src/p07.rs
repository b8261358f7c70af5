//! C07: text is escaped exactly once and reads back.
use crate::{canon::*, model, vx::*};
use html5_fuser::text::{Data, IntoValue, Value};
use html5_fuser::Template;

/// Entity decoder.
fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let mut hit = false;
        if b[i] == b'&' {
            for (e, c) in [("&amp;", b'&'), ("&lt;", b'<'), ("&gt;", b'>'), ("&quot;", b'"')] {
                if !hit && i + e.len() <= b.len() && &b[i..i + e.len()] == e.as_bytes() { o.push(c); i += e.len(); hit = true; }
            }
        }
        if !hit { o.push(b[i]); i += 1; }
    }
    String::from_utf8(o).unwrap()
}
fn run(t: Result<Template, html5_fuser::event::StreamError>, code: u32) -> String {
    match t { Ok(t) => t.to_string(), Err(_) => { check(false, code, "a transform with text fails"); unreachable!() } }
}
fn content(s: String) {
    let st = leak(s.clone());
    let enc = model::encode(&s);
    let t = parse("<p>x</p>");
    let want = model::format_cat(&["<p>", &enc, "</p>"]);
    cover(701);
    let all = [
        run(t.transform(|h| h.select("p", |e| e.replace_contents(Data::from_unencoded_str(s.as_str())))), 701),
        run(t.transform(|h| h.select("p", |e| e.replace_contents(Data::from_unencoded_str(s.clone())))), 702),
        run(t.transform(|h| h.select("p", |e| e.replace_contents(Data::from_unencoded_static_str(st)))), 703),
        run(t.transform(|h| h.select("p", |e| e.replace_contents(st))), 704),
        run(t.transform(|h| h.select("p", |e| e.replace_contents(Value::from_unencoded_str(&s)))), 705),
        run(t.transform(|h| h.select("p", |e| e.replace_contents(Data::from(Value::from_unencoded_static_str(st))))), 706),
    ];
    for (i, o) in all.iter().enumerate() { check_eq(o.as_bytes(), want.as_bytes(), 711 + i as u32, "text content is not escaped as it should be"); }
    // No markup comes from the text.
    match Template::from_str(&all[0], opts()) {
        Ok(u) => check_eq(u.to_string().as_bytes(), want.as_bytes(), 720, "escaped text reads back differently"),
        Err(_) => check(false, 721, "escaped text breaks the template"),
    }
    let ds = [Data::from_unencoded_str(&s), Data::from_unencoded_static_str(st), Data::from(Value::from_unencoded_str(&s))];
    for d in ds.iter() {
        check_eq(d.to_string().as_bytes(), enc.as_bytes(), 722, "text renders unescaped");
        check_eq(d.as_encoded_ref().to_string().as_bytes(), enc.as_bytes(), 723, "the encoded form differs");
    }
    check(ds[0] == ds[1] && ds[1] == ds[2], 724, "equal texts compare unequal");
    let back = decode(&ds[0].to_string());
    check_eq(back.as_bytes(), s.as_bytes(), 725, "decoding does not give the text back");
    out(enc.as_bytes());
}
fn value(s: String) {
    let st = leak(s.clone());
    let enc = model::encode(&s);
    let t = parse("<p a=\"y\">x</p>");
    let want = model::format_cat(&["<p a=\"", &enc, "\">x</p>"]);
    cover(702);
    let all = [
        run(t.transform(|h| h.select("p", |e| e.set_attribute_with_value("a", Value::from_unencoded_str(s.as_str())))), 731),
        run(t.transform(|h| h.select("p", |e| e.set_attribute_with_value("a", Value::from_unencoded_static_str(st)))), 732),
        run(t.transform(|h| h.select("p", |e| e.set_attribute_with_value("a", st))), 733),
        run(t.transform(|h| h.select("p", |e| e.replace_attribute_value_if_exists("a", st))), 734),
        run(t.transform(|h| h.select("p", |e| e.set_attribute_with_value("a", &Value::from_unencoded_str(&s)))), 735),
        run(t.transform(|h| h.select("p", |e| e.remove_attribute("a").add_attribute_with_value("a", st))), 736),
        run(t.transform(|h| h.select("p", |e| e.remove_attribute("a").add_to_attribute("a", st, " "))), 737),
    ];
    for (i, o) in all.iter().enumerate() { check_eq(o.as_bytes(), want.as_bytes(), 741 + i as u32, "an attribute value is not escaped as it should be"); }
    match Template::from_str(&all[0], opts()) {
        Ok(u) => check_eq(u.to_string().as_bytes(), want.as_bytes(), 750, "an escaped value reads back differently"),
        Err(_) => check(false, 751, "an escaped value breaks the template"),
    }
    let want2 = model::format_cat(&["<p a=\"y", &enc, &enc, "\">x</p>"]);
    let o = run(t.transform(|h| h.select("p", |e| e.add_to_attribute("a", st, Value::from_unencoded_str(&s)))), 752);
    check_eq(o.as_bytes(), want2.as_bytes(), 753, "a joined value is not escaped as it should be");
    let vs = [Value::from_unencoded_str(&s), Value::from_unencoded_static_str(st), st.into_value(), (&Value::from_unencoded_str(&s)).into_value()];
    for v in vs.iter() {
        check_eq(v.to_string().as_bytes(), enc.as_bytes(), 754, "a value renders unescaped");
        check_eq(v.as_encoded_ref().to_string().as_bytes(), enc.as_bytes(), 755, "the encoded form differs");
    }
    check(vs[0] == vs[1] && vs[1] == vs[2] && vs[2] == vs[3], 756, "equal values compare unequal");
    out(enc.as_bytes());
}
/// One way at a time, for long texts.
fn huge() {
    let s = crate::gen::sized_huge();
    let st = leak(s.clone());
    let enc = model::encode(&s);
    let t = parse("<p a=\"y\">x</p>");
    let got = match pick(7) {
        0 => run(t.transform(|h| h.select("p", |e| e.replace_contents(Data::from_unencoded_str(st)))), 771),
        1 => run(t.transform(|h| h.select("p", |e| e.replace_contents(Data::from_unencoded_static_str(st)))), 772),
        2 => run(t.transform(|h| h.select("p", |e| e.replace_contents(st))), 773),
        3 => run(t.transform(|h| h.select("p", |e| e.set_attribute_with_value("a", Value::from_unencoded_str(st)))), 774),
        4 => run(t.transform(|h| h.select("p", |e| e.set_attribute_with_value("a", st))), 775),
        5 => { let d = Data::from_unencoded_str(st); return check_eq(d.to_string().as_bytes(), enc.as_bytes(), 776, "text renders unescaped") }
        _ => { let v = Value::from_unencoded_str(st); return check_eq(v.to_string().as_bytes(), enc.as_bytes(), 777, "a value renders unescaped") }
    };
    let content = got.starts_with("<p a=\"y\">");
    let want = if content { model::format_cat(&["<p a=\"y\">", &enc, "</p>"]) } else { model::format_cat(&["<p a=\"", &enc, "\">x</p>"]) };
    check_eq(got.as_bytes(), want.as_bytes(), 778, "a long text is not escaped as it should be");
}
/// Equality of texts is equality of strings.
fn equal<const N: usize>() {
    let (a, b) = (sym_str::<N>(), sym_str::<N>());
    let same = same(a.as_bytes(), b.as_bytes());
    let (sa, sb) = (leak(a.clone()), leak(b.clone()));
    check((Data::from_unencoded_str(&a) == Data::from_unencoded_str(&b)) == same, 761, "text equality is not string equality");
    check((Data::from_unencoded_static_str(sa) == Data::from_unencoded_str(&b)) == same, 762, "text equality is not string equality");
    check((Value::from_unencoded_static_str(sa) == Value::from_unencoded_static_str(sb)) == same, 763, "text equality is not string equality");
    check((Value::from_unencoded_str(&a) == Value::from_unencoded_static_str(sb)) == same, 764, "text equality is not string equality");
}

harnesses! {
    /// [qt] a symbolic byte in over 65535 others, as content or attribute value, 7 ways
    fn c07_huge() { huge() }
    /// [qt] a symbolic byte at either end or in the middle of up to 256 others, as content
    fn c07_content_sized() { content(crate::gen::sized()) }
    /// [qt] a symbolic byte at either end or in the middle of up to 256 others, as attribute value
    fn c07_value_sized() { value(crate::gen::sized()) }
    /// [qt] up to 150 characters of 2 to 4 bytes or to be encoded, at every alignment, with a symbolic byte, as content
    fn c07_content_wide() { content(crate::gen::wide_text()) }
    /// [qt] the same as attribute value
    fn c07_value_wide() { value(crate::gen::wide_text()) }
    /// [q] every text of 2 bytes as content
    fn c07_content2() { content(sym_str::<2>()) }
    /// [q] every text of 4 bytes as content
    fn c07_content4() { content(sym_str::<4>()) }
    /// [t] every text of 6 bytes as content
    fn c07_content6() { content(sym_str::<6>()) }
    fn c07_content_empty() { content(String::new()) }
    /// [qt] long texts with holes
    fn c07_content_long() { content(model::format_cat(&[&sym_str::<1>(), "0123456789", &sym_str::<2>(), "&amp;\u{e9}\u{1f600}tail", &sym_str::<1>()])) }
    /// [qt] texts that already look encoded
    fn c07_content_entity() { content(model::format_cat(&["&", &sym_ascii::<3>(|_| true), ";"])) }
    /// [q] every text of 2 bytes as attribute value
    fn c07_value2() { value(sym_str::<2>()) }
    /// [q] every text of 4 bytes as attribute value
    fn c07_value4() { value(sym_str::<4>()) }
    /// [t] every text of 6 bytes as attribute value
    fn c07_value6() { value(sym_str::<6>()) }
    fn c07_value_empty() { value(String::new()) }
    fn c07_value_long() { value(model::format_cat(&[&sym_str::<1>(), "0123456789", &sym_str::<2>(), "&quot;\u{e9}\u{1f600}tail", &sym_str::<1>()])) }
    /// [qt] every pair of 2-byte texts
    fn c07_equal2() { equal::<2>() }
}
