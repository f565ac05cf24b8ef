//! The notation of moves, recognised independently of the library's grammar.
use crate::phys::Mv;

/// A move that a text denotes
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Note {
    Face(Mv),
    /// layer turn written with a number or w or a small letter
    Wide(Mv),
    /// axis, clockwise quarter turns around its positive end
    Rotation(usize, i32),
    /// axis, clockwise quarter turns around its positive end, all middle layers
    Slice(usize, i32, bool),
}

/// What a text means
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Meaning {
    Is(Note),
    /// documented nowhere (a layer turn of "zero" layers): anything but a crash
    Unspecified,
    Nothing,
}

pub const FACES: &str = "RUFLDB";

pub fn amount(s: &str) -> Option<i32> {
    match s {
        "" => Some(1),
        "2" => Some(2),
        "'" => Some(3),
        _ => None,
    }
}
pub fn face(s: &str) -> Option<usize> {
    if s.len() == 1 {
        FACES.find(s)
    } else {
        None
    }
}
pub fn axis(s: &str) -> Option<usize> {
    match s {
        "x" => Some(0),
        "y" => Some(1),
        "z" => Some(2),
        _ => None,
    }
}

/// Splits after the first character, which must be ASCII
fn first(s: &str) -> Option<(char, &str)> {
    let c = s.chars().next()?;
    c.is_ascii().then(|| (c, &s[1..]))
}

pub fn face_turn(s: &str) -> Option<Mv> {
    let (c, rest) = first(s)?;
    let f = FACES.find(c)?;
    Some(Mv::from_face(f, amount(rest)?, 0))
}

pub fn rotation(s: &str) -> Option<(usize, i32)> {
    let (c, rest) = first(s)?;
    let a = "xyz".find(c)?;
    Some((a, amount(rest)?))
}

pub fn slice(s: &str) -> Option<(usize, i32, bool)> {
    let (c, rest) = first(s)?;
    let i = "MESmes".find(c)?;
    let k = amount(rest)?;
    // M and E turn as L and D do, S as F does
    let k = if i % 3 == 2 { k } else { 4 - k };
    Some((i % 3, k, i >= 3))
}

/// Layer turns: the number before the letter is the depth, counted from 0 for the outer layer
pub fn wide(s: &str, max: u32) -> Meaning {
    if let Some(m) = face_turn(s) {
        return Meaning::Is(Note::Face(m));
    }
    let digits = s.len() - s.trim_start_matches(|c: char| c.is_ascii_digit()).len();
    let (number, rest) = s.split_at(digits);
    let Some((c, rest)) = first(rest) else { return Meaning::Nothing };
    let (f, rest) = if let Some(f) = FACES.find(c) {
        match rest.strip_prefix('w') {
            Some(r) => (f, r),
            None => return Meaning::Nothing,
        }
    } else if let Some(f) = "rufldb".find(c) {
        (f, rest)
    } else {
        return Meaning::Nothing;
    };
    let Some(k) = amount(rest) else { return Meaning::Nothing };
    let depth = if number.is_empty() {
        1
    } else {
        let n = number.trim_start_matches('0');
        if n.is_empty() {
            return Meaning::Unspecified;
        }
        // a number beyond any depth is an error
        if n.len() > 10 {
            return Meaning::Nothing;
        }
        n.bytes().fold(0u64, |a, b| a * 10 + u64::from(b - b'0'))
    };
    if depth > u64::from(max) {
        return Meaning::Nothing;
    }
    Meaning::Is(Note::Wide(Mv::from_face(f, k, depth as u32)))
}

pub fn extended(s: &str) -> Meaning {
    if let Some((a, k)) = rotation(s) {
        return Meaning::Is(Note::Rotation(a, k));
    }
    if let Some((a, k, w)) = slice(s) {
        return Meaning::Is(Note::Slice(a, k, w));
    }
    wide(s, u32::MAX)
}

/// Words separated by white space, each a move
pub fn alg(s: &str, one: impl Fn(&str) -> Meaning) -> Option<Result<Vec<Note>, ()>> {
    let mut v = vec![];
    let mut unspecified = false;
    for w in s.split(char::is_whitespace).filter(|w| !w.is_empty()) {
        match one(w) {
            Meaning::Is(n) => v.push(n),
            Meaning::Unspecified => unspecified = true,
            Meaning::Nothing => return Some(Err(())),
        }
    }
    if unspecified {
        None
    } else {
        Some(Ok(v))
    }
}
