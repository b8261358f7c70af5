//! C08: identifiers.
use crate::ident::*;
use crate::{canon::*, model, vx::*};
use html5_fuser::text::{Identifier, IdentifierError, IntoIdentifier};
use html5_fuser::Template;

fn verdict(r: Result<Identifier, IdentifierError>, s: &str, want: (u8, char), base: u32) -> Option<Identifier> {
    match r {
        Ok(i) => {
            cover(801);
            check(want.0 == 0, base, "an invalid identifier was accepted");
            check_eq(i.to_string().as_bytes(), s.as_bytes(), base + 1, "an identifier renders differently");
            check_eq(i.as_bytes(), s.as_bytes(), base + 2, "an identifier reads differently");
            Some(i)
        }
        Err(e) => {
            check(want.0 != 0, base + 3, "a valid identifier was refused");
            let g = fault_of(&e);
            if g.0 == 2 { cover(802) }
            if g.0 == 3 { cover(803) }
            if g.0 == 4 { cover(804) }
            check(g.0 == want.0, base + 4, "an identifier was refused for the wrong reason");
            check(g.1 == want.1, base + 5, "the refusal names another character");
            None
        }
    }
}
fn valid(s: String) {
    let want = fault(&s);
    let a = verdict(s.parse(), &s, want, 801);
    let st = leak(s.clone());
    let b = verdict(Identifier::from_static_str(st), &s, want, 811);
    let c = verdict(st.into_identifier(), &s, want, 821);
    verdict(s.parse::<Identifier>().into_identifier(), &s, want, 831);
    if let (Some(a), Some(b), Some(c)) = (a, b, c) {
        check((a == b) & (b == c), 841, "equal identifiers compare unequal");
        check((&a).into_identifier().map_or(false, |x| x == a), 842, "conversion changes an identifier");
        verdict(a.into_identifier(), &s, want, 851);
        verdict((&b).into_identifier(), &s, want, 861);
        verdict(b.clone().into_identifier(), &s, want, 871);
    }
    out(s.as_bytes());
}
fn pair<const N: usize>(ok: fn(u8) -> bool) {
    let (x, y) = (sym_ascii::<N>(ok), sym_ascii::<N>(ok));
    let (a, b): (Identifier, Identifier) = match (x.parse(), y.parse()) { (Ok(a), Ok(b)) => (a, b), _ => return };
    let want = model::ieq(&x, &y);
    let got = a == b;
    if got { cover(805) } else { cover(806) }
    check(got == want, 881, "identifier equality is not equality up to ASCII case");
    check((b == a) == want, 882, "identifier equality is not symmetric");
    check((a != b) == !want, 883, "identifier inequality is not the negation of equality");
    let c = match Identifier::from_static_str(leak(y.clone())) { Ok(c) => c, Err(_) => return };
    check((a == c) == want, 884, "identifier equality depends on the constructor");
    // The same equality decides attribute names.
    let t = match parse("<p/>").transform(|h| h.select("p", |e| e.set_attribute_with_value(a.clone(), 1u8).set_attribute_with_value(b.clone(), 2u8))) {
        Ok(t) => t, Err(_) => return check(false, 885, "setting valid attributes fails") };
    let w = if want { model::format_cat(&["<p ", &y, "=\"2\" />"]) } else { model::format_cat(&["<p ", &x, "=\"1\" ", &y, "=\"2\" />"]) };
    check_eq(t.to_string().as_bytes(), w.as_bytes(), 886, "attribute names are not compared like identifiers");
    out(t.to_string().as_bytes());
}
fn lengths<const N: usize, const M: usize>() {
    let (x, y) = (sym_ascii::<N>(|c| c > b'>'), sym_ascii::<M>(|c| c > b'>'));
    if let (Ok(a), Ok(b)) = (x.parse::<Identifier>(), y.parse::<Identifier>()) {
        check(a != b, 887, "identifiers of different lengths are equal");
    }
}

/// Identifiers are validated in every place that takes one.
fn uses<const N: usize>() {
    let s = leak(sym_str::<N>());
    let ok = fault(s).0 == 0;
    let t = parse("<p class=\"x\" id=\"y\"/>");
    let codes = |r: Result<Template, html5_fuser::event::StreamError>, code: u32| match r {
        Ok(_) => check(ok, code, "an invalid identifier was accepted by an edit"),
        Err(html5_fuser::event::StreamError::Identifier { error }) => {
            check(!ok, code, "a valid identifier was refused by an edit");
            check(fault_of(&error) == fault(s), code, "an edit reports another identifier fault");
        }
        Err(_) => check(false, code, "an invalid identifier ends in another error"),
    };
    codes(t.transform(|h| h.select("p", |e| e.set_empty_attribute(s))), 888);
    codes(t.transform(|h| h.select("p", |e| e.add_class(s))), 889);
    codes(t.transform(|h| h.select("p", |e| e.remove_class(s))), 890);
    codes(t.transform(|h| h.select("p", |e| e.set_id(s))), 891);
    codes(t.transform(|h| h.select("p", |e| e.remove_attribute(s))), 892);
}

harnesses! {
    /// [qt] a symbolic byte in over 65535 others
    fn c08_huge() {
        let s = leak(crate::gen::sized_huge());
        let want = fault(s);
        match pick(3) {
            0 => verdict(s.parse(), s, want, 801),
            1 => verdict(Identifier::from_static_str(s), s, want, 811),
            _ => verdict(s.into_identifier(), s, want, 821),
        };
    }
    /// [qt] a symbolic byte at either end or in the middle of up to 256 others
    fn c08_sized() { valid(crate::gen::sized()) }
    /// [qt] the empty string
    fn c08_empty() { valid(String::new()) }
    fn c08_valid1() { valid(sym_str::<1>()) }
    /// [q] every string of 3 bytes
    fn c08_valid3() { valid(sym_str::<3>()) }
    /// [q] every string of 4 bytes
    fn c08_valid4() { valid(sym_str::<4>()) }
    /// [t] every string of 6 bytes
    fn c08_valid6() { valid(sym_str::<6>()) }
    /// [qt] every string of 20 bytes of which 2 are symbolic
    fn c08_long() { valid(model::format_cat(&["abcdefghi", &sym_str::<2>(), "jklmnopqr"])) }
    /// [qt] every pair of 1-byte identifiers
    fn c08_pair1() { pair::<1>(|_| true) }
    /// [q] every pair of 2-byte identifiers
    fn c08_pair2() { pair::<2>(|c| c > b'>') }
    /// [qt] every pair of 3-byte identifiers of letters and the like
    fn c08_pair3() { pair::<3>(|c| c > b'>') }
    /// [t] every pair of 5-byte identifiers of letters and the like
    fn c08_pair5() { pair::<5>(|c| c > b'>') }
    /// [t] every pair of 2-byte identifiers
    fn c08_pair2_all() { pair::<2>(|_| true) }
    fn c08_lengths() { lengths::<2, 3>() }
    /// [qt] identifier arguments of 2 arbitrary bytes
    fn c08_uses() { uses::<2>() }
}
