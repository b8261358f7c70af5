//! Reference semantics, written from the documentation and independent of the code in /repo.
//! `tokens` is a reference tokenizer and balance checker for template sources; `Node`/`El` with
//! the functions below are a reference for tree edits.

pub type Attrs = Vec<(String, Option<String>)>;

#[derive(Clone)]
pub enum Tok {
    Doctype(String),
    Comment(String),
    Text(String),
    Raw(String),
    Open(String, Attrs),
    Solo(String, Attrs),
    Void(String, Attrs),
    Close(String),
}

/// A reference parse error: kind, byte positions, names, limit.
pub struct Bad {
    pub kind: u8,
    pub at: Vec<usize>,
    pub names: Vec<String>,
    pub num: usize,
}

pub const E_DOCTYPE: u8 = 1;
pub const E_UNCLOSED_DOCTYPE: u8 = 2;
pub const E_UNCLOSED_COMMENT: u8 = 3;
pub const E_OPEN_END: u8 = 4;
pub const E_CLOSE_END: u8 = 5;
pub const E_OPEN_NAME: u8 = 6;
pub const E_OPEN_BAD: u8 = 7;
pub const E_CLOSE_NAME: u8 = 8;
pub const E_CLOSE_BAD: u8 = 9;
pub const E_ATTR_BAD: u8 = 10;
pub const E_VALUE_QUOTE: u8 = 11;
pub const E_VALUE_END: u8 = 12;
pub const E_INPUT: u8 = 13;
pub const E_MISSING: u8 = 14;
pub const E_DEPTH: u8 = 15;
pub const E_STRAY: u8 = 16;
pub const E_MISMATCH: u8 = 17;
pub const E_LENGTH: u8 = 18;

pub const VOID: [&str; 16] = [
    "area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link", "menuitem", "meta", "param",
    "source", "track", "wbr",
];
pub const RAW: [&str; 4] = ["script", "style", "title", "textarea"];

fn low(b: u8) -> u8 { b | (((b.wrapping_sub(b'A') < 26) as u8) << 5) }

/// ASCII case-insensitive equality, as one formula.
pub fn ieq(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return false; }
    let mut acc = 0u8;
    for i in 0..a.len() { acc |= (low(a[i]) ^ low(b[i])) | ((a[i] | b[i]) & 0x80); }
    acc == 0
}
pub fn is_void(n: &str) -> bool { VOID.iter().any(|v| ieq(v, n)) }
pub fn is_raw(n: &str) -> bool { RAW.iter().any(|v| ieq(v, n)) }

/// Whether a word is a valid identifier.
pub fn valid_ident(s: &str) -> bool {
    if s.is_empty() { return false; }
    for b in s.bytes() {
        if b >= 0x80 { return false; }
        if (b == b' ') | ((b >= 9) & (b <= 13)) { return false; }
        if (b == b'=') | (b == b'"') | (b == b'\'') | (b == b'/') | (b == b'>') | (b == b'<') | (b == b'&') | (b == b',') | (b == b';') {
            return false;
        }
    }
    true
}

struct Cur<'s> { src: &'s str, p: usize }

impl<'s> Cur<'s> {
    fn rest(&self) -> &'s str { &self.src[self.p..] }
    fn byte(&self) -> Option<u8> { self.src.as_bytes().get(self.p).copied() }
    fn eat(&mut self, b: u8) -> bool {
        if self.byte() == Some(b) { self.p += 1; true } else { false }
    }
    fn eat_all(&mut self, s: &str) -> bool {
        let t = self.src.as_bytes();
        for (i, b) in s.bytes().enumerate() {
            match t.get(self.p + i) { Some(c) if *c == b => (), _ => return false }
        }
        self.p += s.len();
        true
    }
    fn ws(&mut self) {
        while let Some(c) = self.rest().chars().next() {
            if !c.is_whitespace() { break; }
            self.p += c.len_utf8();
        }
    }
    fn word(&mut self) -> &'s str {
        let s = self.p;
        while let Some(b) = self.byte() {
            match b {
                b' ' | b'\t' | b'\r' | b'\n' | b'>' | b'<' | b'"' | b'/' | b'=' | b'\'' | b'&' => break,
                _ => self.p += 1,
            }
        }
        &self.src[s..self.p]
    }
    /// Text up to the next `stop`, which is consumed too.
    fn upto(&mut self, stop: &str) -> Option<&'s str> {
        let (t, n) = (self.src.as_bytes(), stop.len());
        let mut i = self.p;
        while i + n <= t.len() {
            let mut j = 0;
            while j < n && t[i + j] == stop.as_bytes()[j] { j += 1; }
            if j == n {
                let r = &self.src[self.p..i];
                self.p = i + n;
                return Some(r);
            }
            i += 1;
        }
        None
    }
}

/// The word at a position.
pub fn word_at(src: &str, p: usize) -> &str { Cur { src, p }.word() }

fn bad<T>(kind: u8, at: usize, names: &[&str]) -> Result<T, Bad> {
    Err(Bad { kind, at: vec![at], names: names.iter().map(|s| s.to_string()).collect(), num: 0 })
}

fn trimmed(s: &str) -> &str {
    let mut a = 0;
    while let Some(c) = s[a..].chars().next() {
        if !c.is_whitespace() { break; }
        a += c.len_utf8();
    }
    let mut b = s.len();
    while let Some(c) = s[a..b].chars().next_back() {
        if !c.is_whitespace() { break; }
        b -= c.len_utf8();
    }
    &s[a..b]
}

/// `None`: no closing tag starts here at all.
fn closing<'s>(c: &mut Cur<'s>) -> Option<Result<&'s str, Bad>> {
    if !c.eat(b'<') { return None; }
    c.ws();
    if !c.eat(b'/') { return None; }
    c.ws();
    let at = c.p;
    let w = c.word();
    if w.is_empty() { return Some(bad(E_CLOSE_NAME, at, &[])); }
    if !valid_ident(w) { return Some(bad(E_CLOSE_BAD, at, &[])); }
    c.ws();
    if !c.eat(b'>') { return Some(bad(E_CLOSE_END, c.p, &[w])); }
    Some(Ok(w))
}

fn opening(c: &mut Cur) -> Result<(Tok, bool), Bad> {
    c.p += 1;
    c.ws();
    let at = c.p;
    let tag = c.word();
    if tag.is_empty() { return bad(E_OPEN_NAME, at, &[]); }
    if !valid_ident(tag) || tag.as_bytes()[0] == b'!' { return bad(E_OPEN_BAD, at, &[]); }
    c.ws();
    let mut attrs = vec![];
    loop {
        let at = c.p;
        let name = c.word();
        if name.is_empty() { break; }
        if !valid_ident(name) { return bad(E_ATTR_BAD, at, &[]); }
        c.ws();
        let mut value = None;
        if c.eat(b'=') {
            c.ws();
            let at = c.p;
            if !c.eat(b'"') { return bad(E_VALUE_QUOTE, at, &[tag, name]); }
            match c.upto("\"") {
                Some(v) => value = Some(v.to_string()),
                None => return bad(E_VALUE_END, at, &[tag, name]),
            }
            c.ws();
        }
        attrs.push((name.to_string(), value));
    }
    let solo = c.eat(b'/');
    if solo { c.ws(); }
    if !c.eat(b'>') { return bad(E_OPEN_END, c.p, &[tag]); }
    let tag_s = tag.to_string();
    let tok = if is_void(tag) {
        Tok::Void(tag_s, attrs)
    } else if solo {
        Tok::Solo(tag_s, attrs)
    } else {
        Tok::Open(tag_s, attrs)
    };
    Ok((tok, solo))
}

/// Reference tokenizer with balance and depth checking.
pub fn tokens(src: &str, depth: Option<usize>) -> Result<Vec<Tok>, Bad> {
    let mut c = Cur { src, p: 0 };
    let mut out = vec![];
    let mut open: Vec<(String, usize)> = vec![];
    let mut raw: Option<&str> = None;
    while c.p < src.len() {
        let at = c.p;
        if let Some(name) = raw.take() {
            let mut i = at;
            let end = loop {
                if i == src.len() { break i; }
                if src.as_bytes()[i] == b'<' {
                    let mut d = Cur { src, p: i };
                    if let Some(Ok(w)) = closing(&mut d) {
                        if ieq(w, name) { break i; }
                    }
                }
                i += 1;
            };
            out.push(Tok::Raw(src[at..end].to_string()));
            c.p = end;
            continue;
        }
        if !(c.byte() == Some(b'<')) {
            let mut e = at;
            while e < src.len() && src.as_bytes()[e] != b'<' { e += 1; }
            out.push(Tok::Text(src[at..e].to_string()));
            c.p = e;
            continue;
        }
        if c.eat_all("<!--") {
            match c.upto("-->") {
                Some(t) => { out.push(Tok::Comment(t.to_string())); continue; }
                None => return bad(E_UNCLOSED_COMMENT, at, &[]),
            }
        }
        if c.eat_all("<!") {
            c.ws();
            let w = c.word();
            if ieq(w, "doctype") {
                c.ws();
                match c.upto(">") {
                    None => return bad(E_UNCLOSED_DOCTYPE, at, &[]),
                    Some(t) => {
                        let t = trimmed(t);
                        if !ieq(t, "html") { return bad(E_DOCTYPE, at, &[t]); }
                        out.push(Tok::Doctype(t.to_string()));
                        continue;
                    }
                }
            }
            c.p = at;
        }
        match closing(&mut c) {
            Some(Err(e)) => return Err(e),
            Some(Ok(w)) => {
                match open.pop() {
                    None => return bad(E_STRAY, at, &[w]),
                    Some((o, oat)) => {
                        if !ieq(&o, w) {
                            return Err(Bad { kind: E_MISMATCH, at: vec![oat, at], names: vec![o, w.to_string()], num: 0 });
                        }
                    }
                }
                out.push(Tok::Close(w.to_string()));
                continue;
            }
            None => c.p = at,
        }
        let (tok, solo) = opening(&mut c)?;
        let name = match &tok { Tok::Open(n, _) | Tok::Solo(n, _) | Tok::Void(n, _) => n.clone(), _ => String::new() };
        if let Tok::Open(..) = tok {
            if depth == Some(open.len()) {
                return Err(Bad { kind: E_DEPTH, at: vec![at], names: vec![name], num: open.len() });
            }
            open.push((name.clone(), at));
            for r in RAW.iter() { if !solo && ieq(r, &name) { raw = Some(r); } }
        }
        out.push(tok);
    }
    if let Some((inner, at)) = open.pop() {
        let mut b = Bad { kind: E_MISSING, at: vec![at], names: vec![inner], num: 0 };
        for (n, a) in open { b.at.push(a); b.names.push(n); }
        return Err(b);
    }
    Ok(out)
}

fn tag_text(o: &mut String, n: &str, a: &Attrs) {
    o.push('<');
    o.push_str(n);
    for (k, v) in a {
        o.push(' ');
        o.push_str(k);
        if let Some(v) = v {
            o.push_str("=\"");
            o.push_str(v);
            o.push('"');
        }
    }
}

pub fn render(toks: &[Tok]) -> String {
    let mut o = String::new();
    for t in toks {
        match t {
            Tok::Doctype(c) => { o.push_str("<!doctype "); o.push_str(c); o.push('>') }
            Tok::Comment(c) => { o.push_str("<!--"); o.push_str(c); o.push_str("-->") }
            Tok::Text(c) | Tok::Raw(c) => o.push_str(c),
            Tok::Open(n, a) | Tok::Void(n, a) => { tag_text(&mut o, n, a); o.push('>') }
            Tok::Solo(n, a) => { tag_text(&mut o, n, a); o.push_str(" />") }
            Tok::Close(n) => { o.push_str("</"); o.push_str(n); o.push('>') }
        }
    }
    o
}

/// Line and column (both from 1) of a byte offset.
pub fn line_col(src: &str, off: usize) -> (usize, usize) {
    let b = src.as_bytes();
    let (mut line, mut col) = (1usize, 1usize);
    for i in 0..off {
        let nl = (b[i] == b'\n') as usize;
        let lead = ((b[i] & 0xc0) != 0x80) as usize;
        line += nl;
        col = nl | ((1 - nl) * (col + lead));
    }
    (line, col)
}

pub fn encode(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            c => o.push(c),
        }
    }
    o
}

// ---- trees

#[derive(Clone, Copy, PartialEq)]
pub enum Form { Pair, Solo, Void }

#[derive(Clone)]
pub struct El {
    pub name: String,
    /// Spelling of the closing tag, where it differs.
    pub close: String,
    pub attrs: Attrs,
    pub form: Form,
    pub kids: Vec<Node>,
}

#[derive(Clone)]
pub enum Node { Leaf(String), El(El) }

pub type Forest = Vec<Node>;

pub fn leaf(s: &str) -> Node { Node::Leaf(s.to_string()) }
pub fn el(name: &str, form: Form) -> El {
    El { name: name.to_string(), close: name.to_string(), attrs: vec![], form, kids: vec![] }
}

pub fn show(f: &[Node]) -> String {
    let mut o = String::new();
    show_to(f, &mut o, false);
    o
}
/// A source of the forest: its rendering, but that void elements with "/" as `close` are written self-closed.
pub fn src(f: &[Node]) -> String {
    let mut o = String::new();
    show_to(f, &mut o, true);
    o
}
fn show_to(f: &[Node], o: &mut String, src: bool) {
    for n in f {
        match n {
            Node::Leaf(s) => o.push_str(s),
            Node::El(e) => {
                tag_text(o, &e.name, &e.attrs);
                match e.form {
                    Form::Pair => {
                        o.push('>');
                        show_to(&e.kids, o, src);
                        o.push_str("</");
                        o.push_str(&e.close);
                        o.push('>');
                    }
                    Form::Solo => o.push_str(" />"),
                    Form::Void => o.push_str(if src && e.close == "/" { "/>" } else { ">" }),
                }
            }
        }
    }
}

impl El {
    /// The contents become `f` of the contents; void elements have none, self-closed ones gain them.
    pub fn contents(mut self, f: impl FnOnce(Forest) -> Forest) -> El {
        match self.form {
            Form::Void => (),
            Form::Solo => { self.form = Form::Pair; self.kids = f(vec![]); }
            Form::Pair => { let k = std::mem::take(&mut self.kids); self.kids = f(k); }
        }
        self
    }
    /// The contents become `f` of the contents, the form stays.
    pub fn inside(mut self, f: impl FnOnce(Forest) -> Forest) -> El {
        if self.form == Form::Pair { let k = std::mem::take(&mut self.kids); self.kids = f(k); }
        self
    }
    pub fn has_id(&self, id: &str) -> bool {
        let mut r = false;
        for (k, v) in &self.attrs { if let Some(v) = v { r |= ieq(k, "id") & ieq(v, id); } }
        r
    }
    pub fn has_class(&self, c: &str) -> bool {
        for (k, v) in &self.attrs {
            if let Some(v) = v { if ieq(k, "class") && words(v).iter().any(|w| ieq(w, c)) { return true; } }
        }
        false
    }
}

/// The whitespace-separated words of a value.
pub fn words(v: &str) -> Vec<&str> {
    let mut out = vec![];
    let mut start = None;
    for (i, c) in v.char_indices() {
        if c.is_whitespace() {
            if let Some(s) = start.take() { out.push(&v[s..i]); }
        } else if start.is_none() {
            start = Some(i);
        }
    }
    if let Some(s) = start { out.push(&v[s..]); }
    out
}

pub type Pred<'p> = &'p dyn Fn(&El) -> bool;

/// Every outermost matching element, anywhere, replaced by `f` of it.
pub fn select(f: Forest, p: Pred, e: &mut dyn FnMut(El) -> Forest) -> Forest {
    let mut out = vec![];
    for n in f {
        match n {
            Node::El(x) if p(&x) => out.extend(e(x)),
            Node::El(mut x) => {
                x.kids = select(std::mem::take(&mut x.kids), p, e);
                out.push(Node::El(x));
            }
            n => out.push(n),
        }
    }
    out
}
/// As `select`, only the first match in document order.
pub fn select_once(f: Forest, p: Pred, e: &mut dyn FnMut(El) -> Forest) -> Forest {
    let mut done = false;
    go_once(f, p, e, &mut done)
}
fn go_once(f: Forest, p: Pred, e: &mut dyn FnMut(El) -> Forest, done: &mut bool) -> Forest {
    let mut out = vec![];
    for n in f {
        match n {
            Node::El(mut x) if !*done => {
                if p(&x) {
                    *done = true;
                    out.extend(e(x));
                } else {
                    x.kids = go_once(std::mem::take(&mut x.kids), p, e, done);
                    out.push(Node::El(x));
                }
            }
            n => out.push(n),
        }
    }
    out
}
/// Matching elements of the top level only.
pub fn select_direct(f: Forest, p: Pred, e: &mut dyn FnMut(El) -> Forest) -> Forest {
    let mut out = vec![];
    for n in f {
        match n { Node::El(x) if p(&x) => out.extend(e(x)), n => out.push(n) }
    }
    out
}
pub fn select_direct_once(f: Forest, p: Pred, e: &mut dyn FnMut(El) -> Forest) -> Forest {
    let mut out = vec![];
    let mut done = false;
    for n in f {
        match n {
            Node::El(x) if !done && p(&x) => { done = true; out.extend(e(x)) }
            n => out.push(n),
        }
    }
    out
}

// ---- attributes

pub fn attr_set(a: &mut Attrs, k: &str, v: Option<String>) {
    a.retain(|(n, _)| !ieq(n, k));
    a.push((k.to_string(), v));
}
pub fn attr_add(a: &mut Attrs, k: &str, v: Option<String>) { a.push((k.to_string(), v)); }
pub fn attr_remove(a: &mut Attrs, k: &str) { a.retain(|(n, _)| !ieq(n, k)); }
pub fn attr_replace(a: &mut Attrs, k: &str, v: Option<String>) {
    let n = a.len();
    a.retain(|(n, _)| !ieq(n, k));
    if a.len() != n { a.push((k.to_string(), v)); }
}
pub fn attr_extend(a: &mut Attrs, k: &str, v: &str, sep: &str) {
    for (n, old) in a.iter_mut() {
        if ieq(n, k) {
            *old = Some(match old.take() { Some(o) => format_cat(&[&o, sep, v]), None => v.to_string() });
            return;
        }
    }
    a.push((k.to_string(), Some(v.to_string())));
}
pub fn format_cat(p: &[&str]) -> String {
    let mut o = String::new();
    for s in p { o.push_str(s); }
    o
}
/// Drop one class: attributes without it are untouched, an attribute left without classes goes.
pub fn class_remove(a: &mut Attrs, c: &str) {
    let old = std::mem::take(a);
    for (k, v) in old {
        let hit = ieq(&k, "class") && v.as_ref().map_or(false, |v| words(v).iter().any(|w| ieq(w, c)));
        if !hit { a.push((k, v)); continue; }
        let mut o = String::new();
        for w in words(v.as_ref().unwrap()) {
            if !ieq(w, c) {
                if !o.is_empty() { o.push(' '); }
                o.push_str(w);
            }
        }
        if !o.is_empty() { a.push((k, Some(o))); }
    }
}
