//! C04: changes made on disk are integrated exactly.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use ethersync::document::Document;
use ethersync::path::RelativePath;
use text::Text;

fn text(max: usize, kinds: usize) -> Text {
    let n = vp::choice(max + 1);
    (0..n)
        .map(|_| match vp::choice(kinds) {
            0 if kinds == 1 => text::special(),
            0 => vp::range(b'a', b'c') as char,
            1 => '\n',
            // neighbours in UTF-8: the same first bytes
            2 => char::from_u32(0xE0 + vp::range(0, 1) as u32).unwrap(),
            _ => char::from_u32(0x1F600 + vp::range(0, 1) as u32).unwrap(),
        })
        .collect()
}
fn content(d: &Document, f: &RelativePath) -> String {
    match d.current_file_content(f) {
        Ok(s) => s,
        Err(_) => vp::fail("a shared file has a text"),
    }
}

/// Replace one text by another, possibly in several steps.
fn run(old: usize, new: usize, steps: usize, kinds: usize) {
    let mut d = Document::default();
    let (f, g) = (RelativePath::new("f"), RelativePath::new("g"));
    d.initialize_text("xy", &g);
    let mut t = text(old, kinds);
    // a file that was not shared before
    d.update_text(&text::string(&t), &f);
    vp::check_same(&content(&d, &f), &text::string(&t), "a new file is shared with exactly its content");
    for _ in 0..steps {
        d.save_incremental();
        let u = text(new, kinds);
        d.update_text(&text::string(&u), &f);
        vp::check_same(&content(&d, &f), &text::string(&u), "the shared text equals the new content");
        if u == t {
            vp::check(d.save_incremental().is_empty(), "nothing is recorded if the text did not change");
            vp::cover(2);
        } else {
            vp::cover(1);
        }
        t = u;
    }
    vp::check(d.files().len() == 2, "no other file appears");
    vp::check_same(&content(&d, &g), "xy", "other files stay as they are");
}

/// A longer text, changed in some places at once.
fn large(places: usize) {
    let mut d = Document::default();
    let f = RelativePath::new("f");
    let mut t = text::chars("fn a() {\n    b(1);\n    b(2);\n}\n\nfn é() {\n    b(3);\n}\n😀");
    d.update_text(&text::string(&t), &f);
    for _ in 0..places {
        let step = if places == 1 { 1 } else { 6 };
        let from = vp::choice(t.len() / step + 1) * step;
        let to = (from + [0, 1, 6, 40][vp::choice(4)]).min(t.len());
        let s = text(1 + places % 2, 4);
        t = text::replace(&t, from, to, &s);
    }
    d.update_text(&text::string(&t), &f);
    vp::check_same(&content(&d, &f), &text::string(&t), "the shared text equals the new content");
    d.save_incremental();
    d.update_text(&text::string(&t), &f);
    vp::check(d.save_incremental().is_empty(), "nothing is recorded if the text did not change");
    vp::cover(1);
}

entries! {
    c04_small => run(2, 2, 1, 4);
    c04_ascii => run(3, 3, 1, 2);
    c04_steps => run(1, 1, 3, 2);
    c04_special => run(2, 2, 1, 1);
    c04_large => large(1);
    c04_large_more => large(2);
    c04_deep => run(4, 4, 1, 2);
    c04_wide => run(3, 3, 1, 4);
}
