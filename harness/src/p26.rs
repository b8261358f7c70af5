//! C26: streams and selectors that a user writes.
use crate::{canon::*, model::*, trees::*, vx::*};
use html5_fuser::event::{AssertionError, Event, IntoStream, MalformedReason, Stream, StreamError, StreamResult};
use html5_fuser::select::Selector;
use html5_fuser::text::Data;
use html5_fuser::{BoxedApi, Template};
use std::rc::Rc;

type Outcome = Result<Template, StreamError>;

// ---- streams

/// A stream of given events, possibly failing behind them.
/// Asked again behind its end, it goes on with what no one asked for.
struct Made { events: Vec<Event>, at: usize, end: Option<StreamError>, later: Vec<Event>, over: bool }
impl Stream for Made {
    fn next_event(&mut self) -> StreamResult {
        if self.at < self.events.len() { self.at += 1; return Ok(Some(self.events[self.at - 1].clone())) }
        if self.over { return Ok(self.later.pop()) }
        self.over = true;
        match self.end.take() { Some(e) => Err(e), None => Ok(None) }
    }
}
fn events_of<S: Stream>(mut s: S) -> Vec<Event> {
    let mut v = vec![];
    while let Ok(Some(e)) = s.next_event() { v.push(e) }
    v
}
/// Parts of streams; the first four open and close.
const PARTS: [&str; 10] = ["<a>", "</a>", "<b>", "</b>", "<br>", "<a />", "t", "<!--c-->", "", ""];
fn parts() -> Vec<Vec<Event>> {
    let mut v: Vec<Vec<Event>> = events_of(parse("<a></a><b></b><br><a/>t<!--c-->").into_stream()).into_iter().map(|e| vec![e]).collect();
    // What does nothing.
    v.push(events_of(Ok::<_, StreamError>(parse("")).into_stream()));
    // A text without characters.
    v.push(events_of(Data::from_unencoded_str("").into_stream()));
    v
}
fn picked(n: usize, kinds: u8) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n { v.push(pick(kinds)) }
    v
}
fn made(codes: &[u8], end: Option<StreamError>) -> Made {
    let p = parts();
    let mut events = vec![];
    for c in codes { events.extend(p[*c as usize].iter().cloned()) }
    let later = vec![p[6][0].clone(), p[5][0].clone(), p[0][0].clone()];
    Made { events, at: 0, end, later, over: false }
}
fn balanced(codes: &[u8]) -> bool {
    let mut open = vec![];
    for c in codes {
        match c { 0 | 2 => open.push(*c), 1 | 3 => if open.pop() != Some(c - 1) { return false }, _ => {} }
    }
    open.is_empty()
}
const PLACES: u8 = 9;
const INTO: &str = "<p>1<a>2</a></p><br>";
fn place<C: IntoStream + 'static>(k: u8, c: C, then: &dyn for<'t> Fn(BoxedApi<'t>) -> BoxedApi<'t>) -> Outcome where C::Stream: 'static {
    let t = parse(INTO);
    match k {
        0 => t.transform(|h| then(h.append(c).into_boxed())),
        1 => t.transform(|h| then(h.prepend(c).into_boxed())),
        2 => t.transform(|h| then(h.replace(c).into_boxed())),
        3 => t.transform(|h| then(h.select_once("p", |e| e.append_contents(c)).into_boxed())),
        4 => t.transform(|h| then(h.select_once("p", |e| e.prepend_contents(c)).into_boxed())),
        5 => t.transform(|h| then(h.select_once("p", |e| e.replace_contents(c)).into_boxed())),
        6 => t.transform(|h| then(h.select_once("a", |e| e.append(c)).into_boxed())),
        7 => t.transform(|h| then(h.select_once("a", |e| e.prepend(c)).into_boxed())),
        _ => t.transform(|h| then(h.select_once("p", |e| e.subselect_once("a", |e| e.replace(c))).into_boxed())),
    }
}
fn is_assertion(e: &StreamError) -> bool { if let StreamError::Assertion { .. } = e { true } else { false } }
/// A written stream stands for the template with its events, or fails in the one way for malformed streams.
fn inserted(n: usize, kinds: u8, places: u8, steps: u8) {
    let codes = picked(n, kinds);
    let (k, i) = (pick(places), pick(steps));
    let s = ["a", "b"][pick(2) as usize];
    let r = place(k, made(&codes, None), &|h| step(i, s, h));
    if balanced(&codes) {
        cover(2601);
        let mut src = String::new();
        for c in &codes { src.push_str(PARTS[*c as usize]) }
        let w = match place(k, parse(&src), &|h| step(i, s, h)) { Ok(w) => w.to_string(), Err(_) => return check(false, 2601, "inserting a template fails") };
        match r {
            Ok(r) => { let r = r.to_string(); check_eq(r.as_bytes(), w.as_bytes(), 2602, "a written stream gives something else than the template with its events"); out(r.as_bytes()) }
            Err(_) => check(false, 2603, "a balanced stream is reported"),
        }
    } else {
        match r {
            Ok(r) => {
                cover(2602);
                out(r.to_string().as_bytes());
                // The result is a template like any other.
                match r.transform(|h| h) { Ok(u) => check(u == r, 2604, "a transform that does nothing changes a template"), Err(_) => check(false, 2605, "a transform that does nothing fails") }
            }
            Err(e) => { cover(2603); check(is_assertion(&e), 2606, "a malformed stream is reported as another kind of error"); out(e.to_string().as_bytes()) }
        }
    }
}
/// Edits that take the contents of elements apart, on malformed streams; no panic, no hang, no other error.
fn edited(n: usize, kinds: u8, edits: u8) {
    let codes = picked(n, kinds);
    let (k, j) = (pick(3), pick(4));
    let i = pick(edits);
    let (s, r) = [("a", "a"), ("a", "b"), ("b", "a"), ("p", "a")][pick(4) as usize];
    let out_of = place([0, 3, 6][k as usize], made(&codes, None), &|h| match j {
        0 => h.select(s, move |e| edit(i, r, e.into_boxed_element())).into_boxed(),
        1 => h.select_once(s, move |e| edit(i, r, e.into_boxed_element())).into_boxed(),
        2 => h.select_direct(s, move |e| edit(i, r, e.into_boxed_element())).into_boxed(),
        _ => h.select_direct_once(s, move |e| edit(i, r, e.into_boxed_element())).into_boxed(),
    });
    match out_of {
        Ok(t) => { cover(2604); out(t.to_string().as_bytes()) }
        Err(e) => { cover(2605); check(is_assertion(&e) && !balanced(&codes), 2611, "a stream is reported in another way"); out(e.to_string().as_bytes()) }
    }
}
/// What a written stream fails with surfaces as it is.
fn failing(n: usize) {
    let mut codes = picked(n, 6);
    for c in codes.iter_mut() { *c += 4 }
    let (k, i) = (pick(PLACES), pick(STEPS));
    let (kind, num) = (pick(KINDS), sym_u8() as usize);
    let m = made(&codes, Some(crate::canon::made(kind, num)));
    match place(k, m, &|h| step(i, "a", h)) {
        Ok(_) => check(false, 2621, "the error of a stream is lost"),
        Err(e) => {
            cover(2606);
            let (e, w) = (format!("{:?}", e), format!("{:?}", crate::canon::made(kind, num)));
            check_eq(e.as_bytes(), w.as_bytes(), 2622, "the error of a stream is changed");
        }
    }
}

// ---- selectors

struct By<F>(F);
impl<F: Fn(&Event) -> bool> Selector for By<F> { fn matches(&self, e: &Event) -> bool { (self.0)(e) } }

fn is_element(e: &Event) -> bool { match e.description() { "opening tag" | "self-closed tag" | "void tag" => true, _ => false } }
/// The number an element carries as attribute, if any.
fn number(e: &Event) -> Option<usize> {
    if !is_element(e) { return None }
    let s = e.to_string();
    s.find(" n=\"").map(|p| (s.as_bytes()[p + 4] - b'0') as usize)
}
fn numbers(f: &mut Forest, k: &mut u8) {
    for n in f.iter_mut() { if let Node::El(e) = n { if !e.attrs.is_empty() || e.name != "title" { attr_set(&mut e.attrs, "n", Some(byte_str(b'0' + *k))); *k += 1; numbers(&mut e.kids, k) } } }
}
/// Exactly the elements that a written selector accepts are selected.
fn chosen(n: usize, depth: usize, mark: Mark) {
    let mut f = forest(n, depth, mark);
    let mut count = 0;
    numbers(&mut f, &mut count);
    let mask = sym_u8();
    let bit = move |i: usize| conc((mask >> i & 1) as u64) == 1;
    let accept = |e: &Event| match number(e) { Some(i) => bit(i), None => false };
    let p = |e: &El| e.attrs.iter().any(|(k, v)| k == "n" && match v { Some(v) => bit((v.as_bytes()[0] - b'0') as usize), None => false });
    let set = |mut e: El| { attr_set(&mut e.attrs, "x", None); vec![Node::El(e)] };
    let way = pick(6);
    cover(2607);
    let want = match way {
        0 => select(f.clone(), &p, &mut |e| set(e)),
        1 => select_once(f.clone(), &p, &mut |e| set(e)),
        2 => select_direct(f.clone(), &p, &mut |e| set(e)),
        3 => select_direct_once(f.clone(), &p, &mut |e| set(e)),
        4 => select(f.clone(), &p, &mut |e| vec![Node::El(e.contents(|c| select(c, &p, &mut |e| set(e))))]),
        _ => select_once(f.clone(), &p, &mut |e| vec![Node::El(e.contents(|c| select_direct_once(c, &p, &mut |_| vec![])))]),
    };
    let by = Rc::new(By(accept));
    match way {
        0 => expect(&f, |t| t.transform(|h| h.select(&*by, |e| e.set_empty_attribute("x"))), want, 2631),
        1 => expect(&f, |t| t.transform(|h| h.select_once(by.clone(), |e| e.set_empty_attribute("x"))), want, 2633),
        2 => expect(&f, |t| t.transform(|h| h.select_direct(Ok::<_, StreamError>(&*by), |e| e.set_empty_attribute("x"))), want, 2635),
        3 => expect(&f, |t| t.transform(|h| h.select_direct_once(Ok::<_, StreamError>(by.clone()), |e| e.set_empty_attribute("x"))), want, 2637),
        4 => expect(&f, |t| t.transform(|h| h.select(&*by, |e| e.subselect(by.clone(), |e| e.set_empty_attribute("x")))), want, 2639),
        _ => expect(&f, |t| t.transform(|h| h.select_once(&*by, |e| e.subselect_direct_once(by.clone(), |e| e.remove()))), want, 2641),
    }
}
/// A selector that accepts what is no element is reported with what it accepted; not when it does not come to that.
fn wrong() {
    const KINDS: [(&str, &str); 5] = [("doctype", "<!doctype html>"), ("comment", "<!--c-->"), ("content", "t"), ("raw content", "r"), ("closing tag", "</b>")];
    let (kind, shown) = KINDS[pick(5) as usize];
    let t = parse(["<!doctype html><b>t<!--c--></b><title>r</title>", "<p><!doctype html><b><!--c--></b><title>r</title>t</p>", "<a><br><i/></a>"][pick(3) as usize]);
    let was = t.to_string();
    let top = !was.starts_with("<p>");
    let way = pick(6);
    let by = By(move |e: &Event| e.description() == kind && e.to_string() == shown);
    // Whether such an event is there for the selector to see; at the top, or anywhere.
    let any = was.contains(shown) && !(kind == "raw content" && !was.contains("<title>")) && !(kind == "content" && !was.contains(">t<"));
    let direct = any && top && (kind == "doctype");
    let r = match way {
        0 => t.transform(|h| h.select(by, |e| e.append("x"))),
        1 => t.transform(|h| h.select_once(by, |e| e.remove())),
        2 => t.transform(|h| h.select(by, |e| e.replace_contents("x"))),
        3 => t.transform(|h| h.select_once(by, |e| e.add_class("x"))),
        4 => t.transform(|h| h.select_direct(by, |e| e.prepend("x"))),
        _ => t.transform(|h| h.select_direct_once(by, |e| e.repeat(0u8..2, |e, _| e))),
    };
    match r {
        Err(StreamError::Assertion { error: AssertionError::Malformed { error: MalformedReason::ExpectedOpeningTag { event: Some(e) } } }) => {
            cover(2608);
            // Closing tags at the top level close what is open there.
            check(if way < 4 { any } else { direct || (any && top && kind == "closing tag") }, 2651, "an event is reported that is not there");
            check(e.description() == kind, 2652, "another kind of event is reported");
            check_eq(e.to_string().as_bytes(), shown.as_bytes(), 2653, "another event is reported");
        }
        Err(_) => check(false, 2654, "accepting what is no element is reported as something else"),
        Ok(r) => {
            cover(2609);
            check(if way < 4 { !any } else { !direct }, 2655, "a selector that accepts what is no element is not reported");
            let r = r.to_string();
            check_eq(r.as_bytes(), was.as_bytes(), 2656, "a selector without match changes something");
            out(r.as_bytes());
        }
    }
}

/// Long and deep written streams, closed too little, enough or too much.
fn many() {
    let n = MANY[pick(6) as usize];
    let close = [n - 1, n, n + 1][pick(3) as usize];
    let k = pick(PLACES);
    let mut codes = vec![];
    let deep = pick(2) == 0;
    for _ in 0..n { codes.push(0); if !deep { codes.push(1) } }
    if deep { for _ in 0..close { codes.push(1) } }
    else if close < n { codes.pop(); } else if close > n { codes.push(1) }
    let i = [0u8, 4, 6, 7][pick(4) as usize];
    let r = place(k, made(&codes, None), &|h| step(i, "b", h).select("a", |e| e.subselect("a", |e| e.append_contents("x"))).into_boxed());
    match r {
        Ok(t) => {
            cover(2610);
            let o = t.to_string();
            if close == n { check(Template::from_str(&o, opts()).is_ok(), 2661, "a balanced stream gives what does not parse") }
            out(o.as_bytes());
        }
        Err(e) => { check(close != n && is_assertion(&e), 2662, "a stream is reported in another way"); out(e.to_string().as_bytes()) }
    }
}

harnesses! {
    /// [qt] written streams of 2 to 1030 elements, one after or in the other
    fn c26_many() { many() }
    /// [q] written streams of 2 of 10 events, balanced or not, in 9 places, followed by 13 steps
    fn c26_inserted2() { inserted(2, 10, PLACES, STEPS) }
    /// [q] written streams of 3 of 5 events in 3 places, followed by 8 steps
    fn c26_inserted3() { inserted(3, 5, 3, 8) }
    /// [t] written streams of 3 of 10 events in 9 places, followed by 13 steps
    fn c26_inserted3_all() { inserted(3, 10, PLACES, STEPS) }
    /// [t] written streams of 4 of 5 events in 9 places, followed by 13 steps
    fn c26_inserted4() { inserted(4, 5, PLACES, STEPS) }
    /// [q] 29 edits of selected elements of malformed streams of 2 events
    fn c26_edited2() { edited(2, 4, EDITS) }
    /// [t] of 3 events
    fn c26_edited3() { edited(3, 4, EDITS) }
    /// [q] written streams that fail with one of 14 kinds of errors behind 1 event
    fn c26_failing1() { failing(1) }
    /// [q] behind no event
    fn c26_failing0() { failing(0) }
    /// [t] behind 2 events
    fn c26_failing2() { failing(2) }
    /// [q] written selectors that accept any set of the elements of every forest of 3 nodes
    fn c26_chosen3() { chosen(3, 3, Mark::Class) }
    /// [t] of 4 nodes
    fn c26_chosen4() { chosen(4, 4, Mark::Class) }
    /// [t] of 3 nodes with comments, doctypes and raw text
    fn c26_chosen_rich3() { chosen(3, 3, Mark::Rich) }
    /// [qt] written selectors that accept what is no element
    fn c26_wrong() { wrong() }
}
