//! C02: ranges mean the same text to the editor and to the daemon.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use ethersync::types::{EditorTextDelta, EditorTextOp, Range, TextDelta, TextOp};
use text::Text;

/// Any ASCII character, any Latin-1 one (two bytes), general punctuation and
/// letter-like symbols (three bytes, with the line separators) and emoji (four).
fn character(kinds: usize) -> char {
    match vp::choice(kinds) {
        0 => vp::range(0, 0x7f) as char,
        1 => char::from_u32(0x1F500 + vp::u8() as u32).unwrap(),
        2 => vp::range(0x80, 0xff) as char,
        _ => char::from_u32(0x2000 + vp::u8() as u32).unwrap(),
    }
}
fn text(len: usize, kinds: usize) -> Text {
    let n = vp::choice(len + 1);
    (0..n).map(|_| character(kinds)).collect()
}

/// What an editor says it changed is what the daemon takes it to be.
fn from_editor(len: usize, kinds: usize, inserted: usize) {
    let t = text(len, kinds);
    let a = vp::choice(t.len() + 1);
    let b = vp::choice(t.len() + 1);
    let s: Text = text(inserted, if inserted > 1 { kinds } else { 1 });
    let range = Range { start: text::position(&t, a), end: text::position(&t, b) };
    let (lo, hi) = (a.min(b), a.max(b));
    vp::check(range.is_empty() == (a == b), "a range is empty exactly if it ends where it starts");
    vp::check(range.is_forward() == (a <= b), "a range is forward exactly if it ends at or after its start");
    let content = text::string(&t);
    vp::check(range.as_relative(&content) == (lo, hi - lo), "a range designates its start and length");
    let d = EditorTextDelta(vec![EditorTextOp { range, replacement: text::string(&s) }]);
    let td = TextDelta::from_ed_delta(d, &content);
    match text::apply(&t, &td) {
        Some(u) => {
            vp::check_same(&text::string(&u), &text::string(&text::replace(&t, lo, hi, &s)), "an edit changes exactly the designated text")
        }
        None => vp::fail("the delta of an edit fits the text"),
    }
    vp::cover(1);
}

/// What the daemon tells the editor reproduces the change.
fn to_editor(len: usize, kinds: usize, parts: usize) {
    let t = text(len, kinds);
    let d = text::change(&t, parts);
    let want = text::apply(&t, &d).unwrap();
    let content = text::string(&t);
    let ed = EditorTextDelta::from_delta(d.clone(), &content);
    match text::apply_ranges(&t, &ed) {
        Some(u) => vp::check_same(&text::string(&u), &text::string(&want), "ranges sent to the editor reproduce the change"),
        None => vp::fail("ranges sent to the editor lie in the text, in order"),
    }
    // each range is canonical: a position of the text
    for op in &ed.0 {
        let (a, b) = (text::offset(&t, &op.range.start).unwrap(), text::offset(&t, &op.range.end).unwrap());
        vp::check(op.range.as_relative(&content) == (a.min(b), a.max(b) - a.min(b)), "both sides resolve a sent range alike");
    }
    let ops = d.0.iter().filter(|o| !matches!(o, TextOp::Retain(_))).count();
    vp::check(ops == 0 || !ed.0.is_empty(), "a change is described");
    vp::cover(1);
}

/// An edit with several replacements: all ranges refer to the old text.
fn multi(len: usize, kinds: usize, parts: usize) {
    let t = text(len, kinds);
    let mut ops = vec![];
    let mut want: Text = vec![];
    let mut at = 0;
    for i in 0..parts {
        let lo = at + vp::choice(t.len() - at + 1);
        let hi = lo + vp::choice(t.len() - lo + 1);
        let s: Text = if vp::flag() { vec![text::letter(), if i == 0 { '\n' } else { 'x' }] } else { vec![] };
        want.extend_from_slice(&t[at..lo]);
        want.extend_from_slice(&s);
        at = hi;
        let (start, end) = (text::position(&t, lo), text::position(&t, hi));
        let range = if vp::flag() { Range { start, end } } else { Range { start: end, end: start } };
        ops.push((lo, hi, EditorTextOp { range, replacement: text::string(&s) }));
    }
    want.extend_from_slice(&t[at..]);
    // in any order, except that insertions at the same place come in theirs
    let distinct = ops.windows(2).all(|p| p[0].0 != p[1].0);
    if distinct && vp::flag() {
        ops.reverse();
    }
    let d = EditorTextDelta(ops.into_iter().map(|o| o.2).collect());
    let td = TextDelta::from_ed_delta(d, &text::string(&t));
    match text::apply(&t, &td) {
        Some(u) => vp::check_same(&text::string(&u), &text::string(&want), "an edit changes exactly the designated texts"),
        None => vp::fail("the delta of an edit fits the text"),
    }
    vp::cover(1);
}

entries! {
    c02_multi => multi(3, 2, 2);
    c02_multi3 => multi(3, 1, 3);
    c02_from_editor => from_editor(4, 4, 1);
    c02_to_editor => to_editor(3, 3, 4);
    c02_long => from_editor(7, 1, 1);
    c02_from_editor5 => from_editor(5, 4, 1);
    c02_replacement => from_editor(2, 4, 3);
    c02_to_editor4 => to_editor(4, 4, 5);
}
