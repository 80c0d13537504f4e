//! C03: a change alters exactly the addressed part of one shared file.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use ethersync::document::Document;
use ethersync::path::RelativePath;
use text::Text;

fn content(d: &Document, f: &RelativePath) -> String {
    match d.current_file_content(f) {
        Ok(s) => s,
        Err(_) => vp::fail("a shared file has a text"),
    }
}
fn text(len: usize, kinds: usize) -> Text {
    let n = vp::choice(len + 1);
    (0..n).map(|_| text::character(kinds)).collect()
}
fn check(d: &Document, files: &[(RelativePath, Text)]) {
    let mut have: Vec<String> = d.files().iter().map(|f| f.to_string()).collect();
    have.sort();
    let mut want: Vec<String> = files.iter().map(|f| f.0.to_string()).collect();
    want.sort();
    vp::check(have == want, "the set of shared files stays as it was");
    for (f, t) in files {
        vp::check(d.file_exists(f), "a shared file exists");
        vp::check_same(&content(d, f), &text::string(t), "every file has exactly the expected text");
    }
}

/// `n` changes, each to one of three files.
fn run(len: usize, kinds: usize, parts: usize, n: usize) {
    let mut d = Document::default();
    let mut files: Vec<(RelativePath, Text)> = vec![
        (RelativePath::new("f"), text(len, kinds)),
        (RelativePath::new("d/f"), vec!['x', '\n']),
    ];
    for (f, t) in &files {
        d.initialize_text(&text::string(t), f);
    }
    check(&d, &files);
    for i in 0..n {
        // a change, the creation of a file, or its removal
        let which = if n == 1 { 0 } else { vp::choice(2) };
        let k = if i > 0 { vp::choice(3) } else { 0 };
        if which >= files.len() {
            vp::end();
        }
        if k == 0 {
            let delta = text::change(&files[which].1, parts);
            d.apply_delta_to_doc(&delta, &files[which].0);
            files[which].1 = text::apply(&files[which].1, &delta).unwrap();
        } else if k == 1 {
            let t = vec![text::letter()];
            let f = RelativePath::new(if i == 1 { "g" } else { "f2" });
            d.initialize_text(&text::string(&t), &f);
            files.push((f, t));
        } else {
            d.remove_text(&files[which].0);
            files.remove(which);
        }
        check(&d, &files);
    }
    vp::cover(1);
}

/// A long text, changed around block boundaries.
fn large() {
    let mut d = Document::default();
    let f = RelativePath::new("f");
    let mut t: Text = (0..1100u32)
        .map(|i| match i % 11 {
            0 => '\n',
            5 => '\u{e9}',
            8 => '\u{1f600}',
            _ => (b'a' + (i % 26) as u8) as char,
        })
        .collect();
    d.initialize_text(&text::string(&t), &f);
    {
        let at = [0, 1, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, t.len() - 3, t.len() - 1, t.len()][vp::choice(14)];
        let n = [0, 1, 2, 300][vp::choice(4)].min(t.len() - at);
        let s: Text = match vp::choice(3) {
            0 => vec![],
            1 => vec![text::letter(), '\n'],
            _ => (0..300).map(|_| 'q').collect(),
        };
        let delta = text::delta(at, at + n, &s);
        d.apply_delta_to_doc(&delta, &f);
        t = text::replace(&t, at, at + n, &s);
        vp::check_same(&content(&d, &f), &text::string(&t), "a long text has exactly the expected content");
    }
    vp::cover(1);
}

entries! {
    c03_one => run(3, 2, 4, 1);
    c03_two => run(2, 2, 2, 2);
    c03_three => run(1, 0, 1, 3);
    c03_three2 => run(1, 1, 2, 3);
    c03_large => large();
    c03_deep => run(4, 3, 5, 1);
}
