//! Generators of symbolic template sources: concrete skeletons with symbolic holes.
use crate::model::*;
use crate::vx::*;

pub fn arb<const N: usize>() -> String { sym_str::<N>() }

/// One element whose tag body after the name is arbitrary.
pub fn tag_body<const N: usize>() -> String { format_cat(&["<a", &sym_str::<N>(), "></a>"]) }

/// One element with an arbitrary name, spelled twice.
pub fn tag_name<const N: usize>() -> String {
    let n = sym_str::<N>();
    format_cat(&["<", &n, "></", &n, ">"])
}

/// An attribute with an arbitrary name and value part, among other attributes.
pub fn attr_name<const N: usize>() -> String { format_cat(&["<a b=\"c\" ", &sym_str::<N>(), "=\"v\" d e=\"\"></a>"]) }
pub fn attr_value<const N: usize>() -> String { format_cat(&["<a b=\"", &sym_str::<N>(), "\" c/>"]) }
/// Whatever stands between attribute name and value.
pub fn attr_eq<const N: usize>() -> String { format_cat(&["<a b", &sym_str::<N>(), "v\"></a>"]) }

/// `s` with each letter in symbolic case.
pub fn anycase(s: &str) -> String {
    let mut o = vec![];
    for b in s.bytes() {
        let m = sym_u8();
        assume((m == 0) | (m == 0x20));
        o.push(b ^ m);
    }
    String::from_utf8(o).unwrap()
}
pub fn void_tag() -> String {
    let n = anycase(VOID[pick(16) as usize]);
    format_cat(&["<b><", &n, &sym_str::<2>(), "></b>"])
}
/// Near misses of void and raw names: one byte changed anywhere.
pub fn near_name() -> String {
    let all = ["hr", "img", "link", "title", "style", "wbr"];
    let mut n = all[pick(6) as usize].as_bytes().to_vec();
    let i = pick(5) as usize;
    assume(i < n.len());
    n[i] = sym_u8();
    assume(n[i] < 0x80);
    let n = String::from_utf8(n).unwrap();
    format_cat(&["<", &n, ">x</", &n, ">"])
}
pub fn raw_tag<const N: usize>() -> String {
    let r = RAW[pick(4) as usize];
    format_cat(&["<", &anycase(r), ">", &sym_str::<N>(), "</", r, sym_gap(), ">", "y"])
}
/// Raw text with closing tags of other elements and broken ones inside.
pub fn raw_inner() -> String {
    let r = RAW[pick(4) as usize];
    let i = ["<b></b>", "</", "</scrip>", "<!-- ", "</title", "</title x>", "</styl e>", "< / textarea >", "</script>"];
    format_cat(&["<", r, ">", i[pick(9) as usize], &sym_str::<1>(), "</", r, ">"])
}
pub fn raw_open<const N: usize>() -> String {
    let r = RAW[pick(4) as usize];
    format_cat(&["<", r, &sym_str::<N>(), "<b></b></", r, ">"])
}
/// One symbolic byte of ASCII white space or nothing.
pub fn sym_gap() -> &'static str {
    let g = ["", " ", "\n", "\t ", "\u{a0}", "\u{2003}"];
    g[pick(6) as usize]
}
pub fn comment<const N: usize>() -> String { format_cat(&["<!--", &sym_str::<N>(), "-->z"]) }
pub fn comment_open<const N: usize>() -> String { format_cat(&["<!-", &sym_str::<N>(), "->z"]) }
pub fn doctype<const N: usize>() -> String {
    format_cat(&["<!", sym_gap(), &anycase("doctype"), &sym_str::<N>(), "html", &sym_str::<1>(), ">z"])
}
pub fn doctype_content<const N: usize>() -> String { format_cat(&["<!doctype ", &sym_str::<N>(), ">z"]) }
pub fn close_tag<const N: usize>() -> String { format_cat(&["<ab><c/></", &sym_str::<N>(), ">"]) }
pub fn spaced() -> String {
    format_cat(&["<", sym_gap(), "a", sym_gap(), ">", "<", sym_gap(), "/", sym_gap(), "a", sym_gap(), ">"])
}
pub fn spaced_attr() -> String {
    format_cat(&["<a ", "b", sym_gap(), "=", sym_gap(), "\"v\"", sym_gap(), "c", sym_gap(), "/", sym_gap(), ">"])
}
/// A run of `n` tags, each opening, closing, self-closed or void, with symbolic letters as names.
pub fn tags(n: usize) -> String {
    let mut o = String::new();
    for _ in 0..n {
        match pick(4) {
            0 => { o.push('<'); o.push_str(&letter_str()); o.push('>') }
            1 => { o.push_str("</"); o.push_str(&letter_str()); o.push('>') }
            2 => { o.push('<'); o.push_str(&letter_str()); o.push_str("/>") }
            _ => o.push_str("<br>"),
        }
    }
    o
}
/// Lines of text (line ends, several-byte characters) ahead of something wrong.
pub fn lines<const N: usize>() -> String {
    let w = ["</p>", "<p", "<p><q></p>", "<!--", "<!doctype x>", "<p><q>", "<p a=b>", "<p a=\"", "</,>", "<p ,>", "<p\n\n/ x>", "<p></p x>", "</>", "<>", "<,>", "<!doctype"];
    format_cat(&["\u{e9}\n", &sym_str::<N>(), "<i></i>", w[pick(16) as usize]])
}
/// Text long enough to need heap storage, with a hole.
pub fn long_text<const N: usize>() -> String {
    format_cat(&["0123456789abcdef ", &sym_str::<N>(), " <p title=\"0123456789abcdef", &sym_str::<1>(), "\">x</p> tail"])
}
/// Two attributes side by side, with arbitrary bytes at every seam between them.
pub fn two_attrs<const N: usize>() -> String {
    format_cat(&["<a b=\"", &sym_str::<1>(), "\"", &sym_str::<N>(), "c=\"", &sym_str::<1>(), "\"", &sym_str::<1>(), "></a>"])
}
/// Raw-text elements among others: an arbitrary hole before, in and after a raw-text element inside another one.
pub fn nested_raw<const N: usize>() -> String {
    let r = RAW[pick(4) as usize];
    format_cat(&["<p>", &sym_str::<1>(), "<", r, " a>", &sym_str::<N>(), "<b></", r, ">", &sym_str::<1>(), "<i></i></p>"])
}
/// As `tags`, with more kinds: closing tags of void elements, raw text, two-letter names, closing tag in the other case.
pub fn tags_mix(n: usize) -> String {
    let mut o = String::new();
    for _ in 0..n {
        match pick(8) {
            0 => { o.push('<'); o.push_str(&letter_str()); o.push('>') }
            1 => { o.push_str("</"); o.push_str(&letter_str()); o.push('>') }
            2 => o.push_str("<BR/>"),
            3 => o.push_str("</br>"),
            4 => { o.push_str("<Title>"); o.push_str("</"); o.push_str(&letter_str()); o.push_str("></title>") }
            5 => { o.push_str("<xy>") }
            6 => { o.push_str("</X"); o.push_str(&letter_str()); o.push('>') }
            _ => o.push_str("<style/>"),
        }
    }
    o
}

/// Lengths on both sides of what short strings and small counters hold.
pub const SIZES: [usize; 11] = [0, 7, 8, 9, 16, 31, 32, 127, 128, 255, 256];
/// `n` times `s`.
pub fn times(s: &str, n: usize) -> String {
    let mut o = String::new();
    for _ in 0..n { o.push_str(s); }
    o
}
/// A text longer than 16-bit numbers can say, with a symbolic byte at either end or in the middle.
pub fn sized_huge() -> String {
    let n = 65540;
    let a = [0, n / 2, n][pick(3) as usize];
    format_cat(&[&times("q", a), &sym_str::<1>(), &times("q", n - a)])
}
/// A text of one symbolic byte and up to 256 plain ones before or after it, or around it.
pub fn sized() -> String {
    let n = SIZES[pick(11) as usize];
    let a = [0, n / 2, n][pick(3) as usize];
    format_cat(&[&times("q", a), &sym_str::<1>(), &times("q", n - a)])
}
/// Every part of a source that may be long, at many lengths, with a hole.
pub fn grown() -> String { grown_of(SIZES[pick(11) as usize], pick(14), sym_str::<1>()) }
pub const GROWN: u8 = 14;
pub fn grown_of(n: usize, k: u8, h: String) -> String {
    let q = times("q", n);
    match k {
        0 => format_cat(&["<p>", &q, &h, "<i/></p>"]),
        1 => format_cat(&["<!--", &q, &h, "-->z"]),
        2 => format_cat(&["<p a=\"", &q, &h, "\" b></p>"]),
        3 => format_cat(&["<q", &q, &h, "></Q", &q, ">"]),
        4 => format_cat(&["<p ", &q, &h, " b/>"]),
        5 => format_cat(&["<p", &times([" ", "\n"][pick(2) as usize], n), &h, "></p>"]),
        6 => format_cat(&["<title>", &q, &h, "</titl</title>"]),
        7 => format_cat(&["<!doctype ", &times("\n", n), &h, "html>"]),
        8 => format_cat(&["<p", &times(" a b=\"\"", n), &h, "></p>"]),
        9 => format_cat(&[&times("<i/>-", n), &h, "<!---->"]),
        10 => format_cat(&["<p></p", &times("\n", n), &h, ">"]),
        11 => format_cat(&[&times("\n", n), &times("\u{e9}", n), "</p", &h, ">"]),
        12 => format_cat(&["<p>", &times("<br><b/>", n), &h]),
        _ => format_cat(&["<!--", &times("-", n), &h, "-->"]),
    }
}
/// A text of characters of 1 to 4 bytes, or of those to be encoded, at every alignment, with a symbolic byte anywhere.
pub fn wide_text() -> String {
    let c = ["\u{e9}", "\u{20ac}", "\u{1f600}", "&", "\"x", "<\u{e9}>"][pick(6) as usize];
    let q = ["", "q", "qq"][pick(3) as usize];
    let (a, b) = [(0, 40), (9, 9), (40, 0), (150, 1)][pick(4) as usize];
    format_cat(&[q, &times(c, a), &sym_str::<1>(), &times(c, b)])
}
/// Parts of a source made of characters of several bytes, at every alignment, with something wrong behind or not.
pub fn wide() -> String {
    let (c, by) = [("\u{e9}", 2), ("\u{20ac}", 3), ("\u{1f600}", 4)][pick(3) as usize];
    let by = if by == 4 { 2 } else { by };
    let q = format_cat(&["qqq".get(..pick(by) as usize).unwrap_or(""), &times(c, [3, 40, 160][pick(3) as usize])]);
    let end = ["<b></b>", "<b>", "</b>"][pick(3) as usize];
    let h = letter_str();
    match pick(12) {
        0 => format_cat(&[&q, &h, end]),
        1 => format_cat(&["<!--", &q, &h, "-->", end]),
        2 => format_cat(&["<p a=\"", &q, &h, "\" b/>", end]),
        3 => format_cat(&["<title>", &q, &h, "</title>", end]),
        4 => format_cat(&["<!doctype ", &q, &h, ">", end]),
        5 => format_cat(&["<", &q, &h, ">", end]),
        6 => format_cat(&["<q", &h, &q, "/>", end]),
        7 => format_cat(&["</", &q, &h, ">", end]),
        8 => format_cat(&["<p ", &q, &h, "/>", end]),
        9 => format_cat(&["<p ", &h, "=", &q, ">", end]),
        10 => format_cat(&["<p ", &h, "=\"", &q]),
        _ => format_cat(&["<style>", &q, "<!doctype ", &h, &q]),
    }
}
/// Around the ends of 16-bit numbers.
pub const HUGE: [usize; 3] = [65534, 65536, 70000];
pub const PARTS_HUGE: u8 = 8;
/// Parts of a source that are longer than 16-bit numbers can say, in front of something wrong or not.
pub fn huge(parts: u8) -> String {
    let n = HUGE[pick(3) as usize];
    let k = pick(parts);
    let q = times(if k == 3 { "\n" } else if k == 4 { "\u{e9}" } else { "q" }, n);
    let end = ["<b></b>", "<b>", "</b>"][pick(3) as usize];
    let h = letter_str();
    match k {
        0 => format_cat(&[&q, &h, end]),
        1 => format_cat(&["<!--", &q, &h, "-->", end]),
        2 => format_cat(&["<p a=\"", &q, &h, "\" b/>", end]),
        3 | 4 => format_cat(&[&q, &h, end]),
        5 => format_cat(&["<title>", &q, &h, "</title>", end]),
        6 => format_cat(&["<q", &q, &h, "/>", end]),
        _ => format_cat(&["<p ", &q, &h, "/>", end]),
    }
}
