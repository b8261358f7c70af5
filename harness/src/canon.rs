//! Canonical byte form of real and reference parse results.
use crate::model::*;
use html5_fuser::event::{AssertionError, MalformedReason, StreamError};
use html5_fuser::location::Location;
use html5_fuser::parse::Error as P;
use html5_fuser::select::{self as sel, StaticError};
use html5_fuser::template::{FileError, InputError};
use html5_fuser::text::Identifier;
use html5_fuser::{ParseOptions, Template};

pub struct Seen { pub kind: u8, pub at: Vec<Location>, pub names: Vec<String>, pub num: usize }

pub fn seen(e: &InputError) -> Seen {
    let (kind, at, names, num): (u8, Vec<Location>, Vec<&str>, usize) = match e {
        InputError::LengthLimitExceeded { limit } => (E_LENGTH, vec![], vec![], *limit),
        InputError::Parse { error } => match error {
            P::UnsupportedDoctype { location, doctype } => (E_DOCTYPE, vec![*location], vec![doctype], 0),
            P::UnclosedDoctype { location } => (E_UNCLOSED_DOCTYPE, vec![*location], vec![], 0),
            P::UnclosedComment { location } => (E_UNCLOSED_COMMENT, vec![*location], vec![], 0),
            P::ExpectedOpeningTagClose { tag, location } => (E_OPEN_END, vec![*location], vec![tag], 0),
            P::ExpectedClosingTagClose { tag, location } => (E_CLOSE_END, vec![*location], vec![tag], 0),
            P::ExpectedOpeningTagIdentifier { location } => (E_OPEN_NAME, vec![*location], vec![], 0),
            P::InvalidOpeningTagIdentifier { location, .. } => (E_OPEN_BAD, vec![*location], vec![], 0),
            P::ExpectedClosingTagIdentifier { location } => (E_CLOSE_NAME, vec![*location], vec![], 0),
            P::InvalidClosingTagIdentifier { location, .. } => (E_CLOSE_BAD, vec![*location], vec![], 0),
            P::InvalidAttributeIdentifier { location, .. } => (E_ATTR_BAD, vec![*location], vec![], 0),
            P::InvalidAttributeValue { location, tag, attribute_name } => (E_VALUE_QUOTE, vec![*location], vec![tag, attribute_name], 0),
            P::UnclosedAttributeValue { location, tag, attribute_name } => (E_VALUE_END, vec![*location], vec![tag, attribute_name], 0),
            P::UnexpectedInput { location } => (E_INPUT, vec![*location], vec![], 0),
            P::MissingClosingTags { inner, others } => {
                let mut at = vec![inner.1];
                let mut names: Vec<&str> = vec![&inner.0];
                for o in others { at.push(o.1); names.push(&o.0); }
                (E_MISSING, at, names, 0)
            }
            P::StackLimitExceeded { tag, location, limit } => (E_DEPTH, vec![*location], vec![tag], *limit),
            P::UnexpectedClosingTag { tag, location } => (E_STRAY, vec![*location], vec![tag], 0),
            P::MismatchedClosingTag { opening_tag, opening_location, closing_tag, closing_location } =>
                (E_MISMATCH, vec![*opening_location, *closing_location], vec![opening_tag, closing_tag], 0),
        },
    };
    Seen { kind, at, names: names.into_iter().map(|s| s.to_string()).collect(), num }
}

fn put(o: &mut Vec<u8>, v: usize) { o.extend_from_slice(&(v as u64).to_le_bytes()); }

/// Kind, names and limit.
pub fn what_seen(s: &Seen) -> Vec<u8> { what(s.kind, &s.names, s.num) }
pub fn what_ref(b: &Bad) -> Vec<u8> { what(b.kind, &b.names, b.num) }
fn what(kind: u8, names: &[String], num: usize) -> Vec<u8> {
    let mut o = vec![kind];
    put(&mut o, num);
    for n in names { put(&mut o, n.len()); o.extend_from_slice(n.as_bytes()); }
    o
}
/// Locations.
pub fn where_seen(s: &Seen) -> Vec<u8> {
    let mut o = vec![];
    for l in &s.at { put(&mut o, l.line()); put(&mut o, l.column()); put(&mut o, l.offset()); }
    o
}
pub fn where_ref(src: &str, b: &Bad) -> Vec<u8> {
    let mut o = vec![];
    for a in &b.at { let (l, c) = line_col(src, *a); put(&mut o, l); put(&mut o, c); put(&mut o, *a); }
    o
}

pub fn opts() -> ParseOptions { ParseOptions::default() }
pub fn parse(s: &str) -> Template {
    match Template::from_str(s, opts()) { Ok(t) => t, Err(_) => { crate::vx::check(false, 99, "a well-formed template source was rejected"); unreachable!() } }
}

pub const KINDS: u8 = 14;
/// One error of each kind that content or a function may bring in.
pub fn made(k: u8, n: usize) -> StreamError {
    let path = || std::path::PathBuf::from("d/f");
    let id = |s: &str| s.parse::<Identifier>().map(|_| ()).unwrap_err();
    match k {
        0 => StreamError::Input { error: InputError::LengthLimitExceeded { limit: n } },
        1 => StreamError::Input { error: Template::from_str("<a><b>", opts()).unwrap_err() },
        2 => StreamError::File { error: FileError::Read { path: path(), error: std::io::ErrorKind::UnexpectedEof.into() } },
        3 => StreamError::File { error: FileError::Open { path: path(), error: std::io::ErrorKind::Interrupted.into() } },
        4 => StreamError::File { error: FileError::Input { path: path(), error: InputError::LengthLimitExceeded { limit: n } } },
        5 => StreamError::File { error: FileError::Decode { path: path(), error: std::str::from_utf8(&[b'x', 0xff]).unwrap_err() } },
        6 => StreamError::Identifier { error: id("") },
        7 => StreamError::Identifier { error: id("a b") },
        8 => StreamError::Selector { error: sel::Error::Id { error: id("\u{e9}") } },
        9 => StreamError::Selector { error: sel::Error::Classes { error: sel::ClassesError::Empty } },
        10 => StreamError::StaticSelector { error: StaticError::Unrestricted },
        11 => StreamError::StaticSelector { error: StaticError::Class { index: n, error: id("a;") } },
        12 => StreamError::Assertion { error: AssertionError::Malformed { error: MalformedReason::UnexpectedClosingTag { tag: "q".parse().unwrap() } } },
        _ => StreamError::Assertion { error: AssertionError::Malformed { error: MalformedReason::ExpectedOpeningTag { event: None } } },
    }
}
