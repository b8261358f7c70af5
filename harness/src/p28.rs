//! C28: content read event by event.
use crate::{canon::*, gen, model::*, trees::*, vx::*};
use html5_fuser::event::{Event, IntoStream, Stream, StreamError};
use html5_fuser::select::{Class, Id, Selector, Tag};
use html5_fuser::text::{Data, IntoValue, Value};
use html5_fuser::Template;
use std::cell::RefCell;
use std::rc::Rc;

enum Got { More(Event), End, Failed(StreamError) }
/// With or without what stands for nothing.
fn pull<S: Stream + ?Sized>(s: &mut S, skip: bool) -> Got {
    match if skip { s.next_event_skip_noop() } else { s.next_event() } { Ok(Some(e)) => Got::More(e), Ok(None) => Got::End, Err(e) => Got::Failed(e) }
}
fn kind(t: &Tok) -> &'static str {
    match t {
        Tok::Doctype(_) => "doctype",
        Tok::Comment(_) => "comment",
        Tok::Text(_) => "content",
        Tok::Raw(_) => "raw content",
        Tok::Open(..) => "opening tag",
        Tok::Close(_) => "closing tag",
        Tok::Solo(..) => "self-closed tag",
        Tok::Void(..) => "void tag",
    }
}
/// The stream gives `want` and stays at its end.
fn whole<S: Stream + ?Sized>(s: &mut S, want: &str, skip: bool) {
    let mut o = String::new();
    for _ in 0..want.len() + 3 {
        match pull(s, skip) {
            Got::More(e) => {
                check(!skip | (e.description() != "noop"), 2801, "an event that stands for nothing is not skipped");
                o.push_str(&e.to_string());
            }
            Got::End => break,
            Got::Failed(_) => return check(false, 2802, "reading content fails"),
        }
    }
    check_eq(o.as_bytes(), want.as_bytes(), 2803, "the events of some content are not its text");
    for _ in 0..3 { check(matches!(pull(s, skip), Got::End), 2804, "content goes on behind its end") }
    cover(2801);
    out(o.as_bytes());
}
/// The events of a template are those of its source, one by one.
fn events(src: String) {
    let (t, k) = match (Template::from_str(&src, opts()), tokens(&src, None)) {
        (Ok(t), Ok(k)) => (t, k),
        // Which sources are accepted is for C02.
        _ => { assume(false); return }
    };
    let mut s = match pick(3) { 0 => (&t).into_stream(), 1 => Rc::new(t.clone()).into_stream(), _ => t.clone().into_stream() };
    let mut i = 0;
    let mut texts = String::new();
    loop {
        let e = match pull(&mut s, true) { Got::More(e) => e, Got::End => break, Got::Failed(_) => return check(false, 2812, "reading a template fails") };
        let d = e.description();
        // How a run of text is split is left open.
        if d == "content" || d == "raw content" {
            texts.push_str(&e.to_string());
            continue;
        }
        let mut want = String::new();
        while i < k.len() { match &k[i] { Tok::Text(t) | Tok::Raw(t) => want.push_str(t), _ => break } i += 1; }
        check_eq(texts.as_bytes(), want.as_bytes(), 2811, "the text between two events differs");
        texts.clear();
        if i == k.len() { return check(false, 2813, "a template has more events than its source") }
        check(d == kind(&k[i]), 2814, "an event is described as another kind");
        check_eq(e.to_string().as_bytes(), render(&k[i..i + 1]).as_bytes(), 2815, "an event shows something else than its source");
        i += 1;
    }
    let mut want = String::new();
    while i < k.len() { match &k[i] { Tok::Text(t) | Tok::Raw(t) => want.push_str(t), _ => break } i += 1; }
    check_eq(texts.as_bytes(), want.as_bytes(), 2816, "the last text differs");
    check(i == k.len(), 2817, "a template has fewer events than its source");
    for _ in 0..3 { check(matches!(pull(&mut s, false), Got::End), 2818, "a template goes on behind its end") }
    cover(2802);
    out(render(&k).as_bytes());
}
fn template(n: usize) -> (Forest, Template, String) {
    let f = forest(n, n, Mark::Rich);
    let t = parse(&src(&f));
    let s = show(&f);
    (f, t, s)
}
/// Two readers of one template, one step of either at a time.
fn readers(n: usize) {
    let (_, t, want) = template(2);
    let mut s = [t.into_stream_of(), t.into_stream_of()];
    let mut o = [String::new(), String::new()];
    let mut end = [false, false];
    for _ in 0..n {
        let i = pick(2) as usize;
        match pull(&mut s[i], false) {
            Got::More(e) => { check(!end[i], 2821, "a reader goes on behind its end"); o[i].push_str(&e.to_string()) }
            Got::End => end[i] = true,
            Got::Failed(_) => return check(false, 2822, "reading fails"),
        }
    }
    for i in 0..2 {
        while let Got::More(e) = pull(&mut s[i], false) { o[i].push_str(&e.to_string()) }
        check_eq(o[i].as_bytes(), want.as_bytes(), 2823, "a reader is disturbed by another one");
    }
    check_eq(t.to_string().as_bytes(), want.as_bytes(), 2824, "reading changes the template");
    out(want.as_bytes());
}
trait Reader { fn into_stream_of(&self) -> html5_fuser::template::TemplateStream; }
impl Reader for Template { fn into_stream_of(&self) -> html5_fuser::template::TemplateStream { self.into_stream() } }

/// A stream read in part and then put into a template gives what is left of it.
fn rest(n: usize) {
    let (_, t, _) = template(n);
    let mut s = t.into_stream_of();
    let (mut depth, mut used) = (0, 0);
    for _ in 0..pick(5) {
        match pull(&mut s, pick(2) == 1) {
            Got::More(e) => match e.description() { "opening tag" => { depth += 1; used += 1 } "closing tag" => { depth -= 1; used += 1 } "noop" => (), _ => used += 1 },
            _ => break,
        }
    }
    // What is not balanced is for C26.
    assume(depth == 0);
    let mut left = String::new();
    let mut u = t.into_stream_of();
    let mut all = vec![];
    while let Got::More(e) = pull(&mut u, true) { all.push(e) }
    let shared = Rc::new(RefCell::new(s));
    let r = match pick(4) {
        0 => parse("<o9/>").transform(|h| h.replace(shared.clone())),
        1 => parse("<o9/>").transform(|h| h.append(shared.clone())),
        2 => parse("<o9/>").transform(|h| h.select("o9", |e| e.replace(shared.clone()))),
        // The second one finds nothing left.
        _ => parse("<o9/>").transform(|h| h.append(shared.clone()).append(shared.clone())),
    };
    let o = match r { Ok(o) => o.to_string(), Err(_) => return check(false, 2831, "inserting the rest of a stream fails") };
    let p = if o.starts_with("<o9 />") { "<o9 />" } else { "" };
    for e in &all[used..] { left.push_str(&e.to_string()) }
    check_eq(o.as_bytes(), format_cat(&[p, &left]).as_bytes(), 2832, "what is inserted is not the rest of the stream");
    check(matches!(pull(&mut *shared.borrow_mut(), false), Got::End), 2833, "a stream that was inserted is not at its end");
    cover(2803);
    out(o.as_bytes());
}
/// The streams of all kinds of content.
fn kinds<const N: usize>() {
    let s = sym_str::<N>();
    let st = leak(s.clone());
    let enc = encode(&s);
    let skip = pick(2) == 1;
    let n = [0i64, 7, -10, 255, 65536][pick(5) as usize];
    match pick(14) {
        0 => whole(&mut st.into_stream(), &enc, skip),
        1 => whole(&mut Data::from_unencoded_str(&s).into_stream(), &enc, skip),
        2 => whole(&mut (&Data::from_unencoded_static_str(st)).into_stream(), &enc, skip),
        3 => whole(&mut Value::from_unencoded_str(&s).into_stream(), &enc, skip),
        4 => whole(&mut (&st.into_value()).into_stream(), &enc, skip),
        5 => whole(&mut Ok::<_, StreamError>(st).into_stream(), &enc, skip),
        6 => whole(&mut Ok::<Result<_, StreamError>, StreamError>(Ok(st)).into_stream(), &enc, skip),
        7 => { let mut b: Box<dyn Stream> = Box::new(st.into_stream()); whole(&mut b, &enc, skip) }
        8 => { let mut r = Rc::new(RefCell::new(st.into_stream())); whole(&mut r, &enc, skip) }
        9 => { let mut b: Box<dyn Stream> = Box::new(Ok::<_, StreamError>(parse("<a>b</a><br>")).into_stream()); whole(&mut b, "<a>b</a><br>", skip) }
        10 => whole(&mut st.into_stream().into_stream(), &enc, skip),
        11 => whole(&mut (n as i32).into_stream(), &n.to_string(), skip),
        12 => whole(&mut n.into_stream(), &n.to_string(), skip),
        _ => whole(&mut (n as u8).into_stream(), &(n as u8).to_string(), skip),
    }
}
/// The error of content, once.
fn failing() {
    let k = pick(KINDS);
    let want = made(k, 7).to_string();
    let skip = pick(2) == 1;
    let f = |s: &mut dyn Stream| {
        match pull(s, skip) {
            Got::Failed(e) => check_eq(e.to_string().as_bytes(), want.as_bytes(), 2841, "the error of some content is another one"),
            Got::More(_) if !skip => return,
            _ => return check(false, 2842, "the error of some content is not reported"),
        }
        for _ in 0..2 { check(!matches!(pull(s, skip), Got::More(_)), 2843, "content goes on behind its error") }
        cover(2804);
    };
    match pick(3) {
        0 => f(&mut Err::<Template, StreamError>(made(k, 7)).into_stream()),
        1 => f(&mut Ok::<_, StreamError>(Err::<&'static str, StreamError>(made(k, 7))).into_stream()),
        _ => { let mut b: Box<dyn Stream> = Box::new(Err::<Value, StreamError>(made(k, 7)).into_stream()); f(&mut b) }
    }
}
/// Selectors asked about single events accept the start of an element they describe and nothing else.
fn asked() {
    let n = letter_str();
    let f = forest(2, 2, Mark::Rich);
    let t = parse(&src(&f));
    let all = |e: &El| -> (bool, bool, bool) { (ieq(&e.name, &n), e.has_class(&n), e.has_id(&n)) };
    let mut want = vec![];
    fn walk(f: &[Node], g: &dyn Fn(&El) -> (bool, bool, bool), o: &mut Vec<(bool, bool, bool)>) { for x in f { if let Node::El(e) = x { o.push(g(e)); walk(&e.kids, g, o) } } }
    walk(&f, &all, &mut want);
    let (tag, class, id): (Tag, Class, Id) = match (n.parse(), n.parse(), n.parse()) { (Ok(a), Ok(b), Ok(c)) => (a, b, c), _ => return check(false, 2851, "a selector is refused") };
    let mut s = t.into_stream_of();
    let mut i = 0;
    while let Got::More(e) = pull(&mut s, false) {
        let got = (tag.matches(&e), class.matches(&e), id.matches(&e));
        match e.description() {
            "opening tag" | "self-closed tag" | "void tag" => {
                if i == want.len() { return check(false, 2852, "more elements than there are") }
                check(got == want[i], 2853, "a selector accepts another element than it describes");
                i += 1;
            }
            _ => check(got == (false, false, false), 2854, "a selector accepts an event that starts no element"),
        }
    }
    check(i == want.len(), 2855, "fewer elements than there are");
    out(&[i as u8]);
}

harnesses! {
/// [q] every accepted source of 4 bytes
fn c28_arb4() { events(gen::arb::<4>()) }
/// [t] every accepted source of 6 bytes
fn c28_arb6() { events(gen::arb::<6>()) }
/// [q] every accepted tag `<aXXX></a>` of three free bytes
fn c28_tag() { events(gen::tag_body::<3>()) }
/// [t] every accepted tag of five free bytes
fn c28_tag5() { events(gen::tag_body::<5>()) }
/// [qt] a raw text element with two free bytes
fn c28_raw() { events(gen::raw_tag::<2>()) }
/// [qt] comments of two free bytes
fn c28_comment() { events(gen::comment::<2>()) }
/// [q] every sequence of three tags, texts or comments
fn c28_tags() { events(gen::tags_mix(3)) }
/// [t] every sequence of five tags, texts or comments
fn c28_tags5() { events(gen::tags_mix(5)) }
/// [qt] 14 parts of a source at 11 lengths up to 256, with a symbolic byte
fn c28_grown() { events(gen::grown()) }
/// [qt] 12 parts of a source made of up to 160 characters of 2 to 4 bytes, with a symbolic letter
fn c28_wide() { events(gen::wide()) }
/// [q] two readers of trees of two nodes, every order of 6 steps
fn c28_readers() { readers(6) }
/// [t] every order of 10 steps
fn c28_readers10() { readers(10) }
/// [q] trees of two nodes, of which up to four events are read before the rest is used in four ways
fn c28_rest() { rest(2) }
/// [t] trees of three nodes
fn c28_rest3() { rest(3) }
/// [q] 14 kinds of content, with every text of two bytes
fn c28_kinds() { kinds::<2>() }
/// [t] 14 kinds of content, with every text of four bytes
fn c28_kinds4() { kinds::<4>() }
/// [qt] one error of every kind in three kinds of content
fn c28_failing() { failing() }
/// [qt] selectors with a symbolic letter asked about every event of trees of two nodes
fn c28_asked() { asked() }
}
