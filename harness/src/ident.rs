//! Reference for identifier validity.
use html5_fuser::text::IdentifierError;

const RESERVED: &[u8] = b"=\"'/><&,;";

/// Kind (0 fine, 1 empty, 2 not ASCII, 3 white space, 4 reserved) and character.
pub fn fault(s: &str) -> (u8, char) {
    if s.is_empty() { return (1, ' '); }
    for b in s.bytes() { if b >= 0x80 { return (2, ' '); } }
    for b in s.bytes() { if (b == b' ') | ((b >= 9) & (b <= 13)) { return (3, b as char); } }
    for b in s.bytes() { for r in RESERVED { if b == *r { return (4, b as char); } } }
    (0, ' ')
}
pub fn fault_of(e: &IdentifierError) -> (u8, char) {
    match *e {
        IdentifierError::Empty => (1, ' '),
        IdentifierError::NotAscii => (2, ' '),
        IdentifierError::Whitespace { whitespace } => (3, whitespace),
        IdentifierError::Forbidden { forbidden } => (4, forbidden),
    }
}
