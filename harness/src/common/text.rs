//! A plain model of text, positions and changes, independent of the code
//! under test: a text is a list of characters, a line ends at '\n'.
#![allow(dead_code)]

use crate::vp;
use ethersync::types::{EditorTextDelta, EditorTextOp, Position, Range, TextDelta, TextOp};

pub type Text = Vec<char>;

pub fn string(t: &[char]) -> String {
    t.iter().collect()
}
pub fn chars(s: &str) -> Text {
    s.chars().collect()
}

/// Any character of one byte other than a newline, symbolic.
pub fn letter() -> char {
    let c = vp::range(0, 0x7f);
    vp::assume(c != b'\n');
    c as char
}
/// A lower-case letter, for texts that travel in JSON messages.
pub fn plain() -> char {
    vp::range(b'a', b'z') as char
}
/// A character that programs like to treat specially.
pub fn special() -> char {
    [' ', '\t', '\r', '\n', '\0', '"', '\\', '\u{7f}', '\u{feff}', '\u{2028}', '\u{e9}', '\u{1f600}'][vp::choice(12)]
}
/// A character: letter or newline; from `wide` 1 also a two-byte character,
/// from 2 a four-byte one and from 3 a three-byte one.
pub fn character(wide: usize) -> char {
    match vp::choice([2, 3, 4, 5][wide]) {
        0 => letter(),
        1 => '\n',
        2 => char::from_u32(0xC0 + vp::range(0, 0x3f) as u32).unwrap(),
        3 => char::from_u32(0x1F600 + vp::range(0, 0x3f) as u32).unwrap(),
        _ => char::from_u32(0x3040 + vp::range(0, 0x3f) as u32).unwrap(),
    }
}
pub fn text(len: usize, wide: usize) -> Text {
    (0..len).map(|_| character(wide)).collect()
}

pub fn position(t: &[char], off: usize) -> Position {
    let mut line = 0;
    let mut character = 0;
    for c in &t[..off] {
        if *c == '\n' {
            line += 1;
            character = 0;
        } else {
            character += 1;
        }
    }
    Position { line, character }
}
pub fn offset(t: &[char], p: &Position) -> Option<usize> {
    let mut line = 0;
    let mut i = 0;
    while line < p.line {
        if i >= t.len() {
            return None;
        }
        if t[i] == '\n' {
            line += 1;
        }
        i += 1;
    }
    let mut c = 0;
    while c < p.character {
        if i >= t.len() || t[i] == '\n' {
            return None;
        }
        i += 1;
        c += 1;
    }
    Some(i)
}
pub fn range(t: &[char], from: usize, to: usize) -> Range {
    Range { start: position(t, from), end: position(t, to) }
}

/// Apply keep/insert/delete steps.
pub fn apply(t: &[char], d: &TextDelta) -> Option<Text> {
    let mut out = vec![];
    let mut i = 0;
    for op in &d.0 {
        match op {
            TextOp::Retain(n) => {
                if i + n > t.len() {
                    return None;
                }
                out.extend_from_slice(&t[i..i + n]);
                i += n;
            }
            TextOp::Insert(s) => out.extend(s.chars()),
            TextOp::Delete(n) => {
                if i + n > t.len() {
                    return None;
                }
                i += n;
            }
        }
    }
    out.extend_from_slice(&t[i..]);
    Some(out)
}
/// Apply ranged replacements that all refer to the given text.
pub fn apply_ranges(t: &[char], d: &EditorTextDelta) -> Option<Text> {
    let mut out = t.to_vec();
    let mut last = usize::MAX;
    for op in d.0.iter().rev() {
        let (a, b) = (offset(t, &op.range.start)?, offset(t, &op.range.end)?);
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if b > last {
            return None; // overlapping or out of order
        }
        last = a;
        let ins: Text = chars(&op.replacement);
        out.splice(a..b, ins);
    }
    Some(out)
}
pub fn replace(t: &[char], from: usize, to: usize, s: &[char]) -> Text {
    let mut out = t[..from].to_vec();
    out.extend_from_slice(s);
    out.extend_from_slice(&t[to..]);
    out
}
pub fn ranged(t: &[char], from: usize, to: usize, s: &[char]) -> EditorTextDelta {
    EditorTextDelta(vec![EditorTextOp { range: range(t, from, to), replacement: string(s) }])
}
/// Keep `from`, delete up to `to`, insert `s`.
pub fn delta(from: usize, to: usize, s: &[char]) -> TextDelta {
    let mut d = TextDelta::default();
    d.retain(from);
    d.delete(to - from);
    d.insert(&string(s));
    d
}

/// A well-formed change of `t` with up to `parts` steps.
pub fn change(t: &[char], parts: usize) -> TextDelta {
    let mut d = TextDelta::default();
    let mut i = 0;
    let mut last = 0;
    for _ in 0..parts {
        match vp::choice(4) {
            0 => break,
            1 if i < t.len() && last != 1 => {
                let n = 1 + vp::choice(t.len() - i);
                d.retain(n);
                i += n;
                last = 1;
            }
            2 if i < t.len() && last != 2 => {
                let n = 1 + vp::choice(t.len() - i);
                d.delete(n);
                i += n;
                last = 2;
            }
            3 if last != 3 => {
                let s: Text = match vp::choice(3) {
                    0 => vec![letter()],
                    1 => vec!['\n'],
                    _ => vec![char::from_u32(0x1F600 + vp::range(0, 0x3f) as u32).unwrap(), '\n', letter()],
                };
                d.insert(&string(&s));
                last = 3;
            }
            _ => vp::end(),
        }
    }
    d
}
