//! C20: start-up shares what is on disk exactly when it should.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/daemon.rs"]
mod daemon;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use daemon::*;
use ethersync::daemon::DocMessage;
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

/// Is it UTF-8? As the Unicode standard says (table 3-7).
fn is_text(b: &[u8]) -> bool {
    let mut i = 0;
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    while i < b.len() {
        let (n, lo, hi) = match b[i] {
            0..=0x7f => (1, 0, 0),
            0xc2..=0xdf => (2, 0x80, 0xbf),
            0xe0 => (3, 0xa0, 0xbf),
            0xe1..=0xec | 0xee | 0xef => (3, 0x80, 0xbf),
            0xed => (3, 0x80, 0x9f),
            0xf0 => (4, 0x90, 0xbf),
            0xf1..=0xf3 => (4, 0x80, 0xbf),
            0xf4 => (4, 0x80, 0x8f),
            _ => return false,
        };
        if n > 1 && !(lo..=hi).contains(&at(i + 1)) {
            return false;
        }
        for k in 2..n {
            if !(0x80..=0xbf).contains(&at(i + k)) {
                return false;
            }
        }
        i += n;
    }
    true
}

type Tree = BTreeMap<PathBuf, Option<Vec<u8>>>;

/// Everything below a directory, except for the daemon's own files.
fn tree(dir: &Path, out: &mut Tree) {
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.file_name() == Some(OsStr::new(".ethersync")) {
            continue;
        }
        if let Ok(t) = std::fs::read_link(&p) {
            out.insert(p, Some(t.as_os_str().as_bytes().to_vec()));
        } else if p.is_dir() {
            tree(&p, out);
            out.insert(p, None);
        } else {
            let c = std::fs::read(&p).ok();
            out.insert(p, c);
        }
    }
}
fn untouched(base: &str, before: &Tree, except: &[&str]) {
    let mut now = Tree::new();
    tree(Path::new(base), &mut now);
    for f in except {
        now.remove(&Path::new(base).join(f));
    }
    let mut before = before.clone();
    for f in except {
        before.remove(&Path::new(base).join(f));
    }
    vp::check(before.keys().eq(now.keys()), "starting creates and removes no files");
    for (a, b) in before.values().zip(now.values()) {
        match (a, b) {
            (Some(a), Some(b)) => vp::check(vp::same(a, b), "starting changes no files"),
            (None, None) => {}
            _ => vp::fail("starting changes no files"),
        }
    }
}

/// Things that can be in a directory: name, content and whether it is shared.
fn put(base: &str, k: usize, len: usize, want: &mut BTreeMap<String, Vec<u8>>) {
    let p = |f: &str| format!("{base}/{f}");
    let mut file = |f: &str, shared: bool, c: Vec<u8>| {
        std::fs::create_dir_all(Path::new(&p(f)).parent().unwrap()).unwrap();
        std::fs::write(p(f), &c).unwrap();
        if shared && is_text(&c) {
            want.insert(f.into(), c);
        }
    };
    let any = |n: usize| -> Vec<u8> { (0..vp::choice(n + 1)).map(|_| vp::u8()).collect() };
    let letters = |n: usize| -> Vec<u8> { (0..vp::choice(n + 1)).map(|_| vp::range(b'a', b'z')).collect() };
    match k {
        0 => file("a", true, any(len)),
        1 => file("d/b", true, letters(2)),
        2 => file("d/e/f/c", true, letters(1)),
        3 => file("n~", false, letters(1)),
        4 => file(".git/c", false, letters(1)),
        5 => file(".ethersync/c", false, letters(1)),
        6 => {
            file(".git/x", false, vec![]);
            file(".gitignore", true, b"i\n".to_vec());
            file("i", false, letters(1));
            file("d/i", false, vec![]);
        }
        7 => std::os::unix::fs::symlink("a", p("l")).unwrap(),
        8 => std::os::unix::fs::symlink("nowhere", p("l2")).unwrap(),
        9 => {
            let _ = std::fs::write(p("../secret"), "s");
            std::os::unix::fs::symlink("../secret", p("l3")).unwrap()
        }
        10 => std::fs::create_dir_all(p("empty/dir")).unwrap(),
        11 => std::fs::write(Path::new(base).join(OsStr::from_bytes(b"n\xff")), letters(1)).unwrap(),
        12 => file(".hidden", true, letters(1)),
        13 => file("a b\u{e9}", true, letters(1)),
        14 => file("x", true, "é\u{1f600}\r\n".into()),
        15 => file("bad", true, vec![b'a', 0xff]),
        16 => std::os::unix::fs::symlink(".", p("loop")).unwrap(),
        _ => {}
    }
}

fn check_shared(w: &World, want: &BTreeMap<String, Vec<u8>>) {
    let shared = w.shared();
    for k in shared.keys() {
        vp::check(want.contains_key(k), "nothing else is shared");
    }
    for (k, c) in want {
        match shared.get(k) {
            Some(t) => vp::check(vp::same(text::string(t).as_bytes(), c), "a file is shared with exactly its content"),
            None => vp::fail("every text file that is not ignored is shared"),
        }
    }
}

fn run(kinds: &[usize], n: usize, len: usize, modes: usize) {
    vp::seed(1);
    let base = prepare();
    let mode = vp::choice(modes);
    let (host, init, persisted) = match mode {
        0 => (true, false, false),
        1 => (false, false, false),
        2 => (true, true, false),
        3 => (true, true, true),
        4 => (true, false, true),
        5 => (false, false, true),
        _ => (false, true, vp::flag()),
    };
    if persisted {
        // an earlier life with other files
        std::fs::write(format!("{base}/a"), "old").unwrap();
        std::fs::write(format!("{base}/gone"), "old").unwrap();
        let w = World::start(&base, false, true, false);
        w.send(DocMessage::Persist);
        drop(w);
        std::fs::remove_file(format!("{base}/a")).unwrap();
        std::fs::remove_file(format!("{base}/gone")).unwrap();
    }
    let mut want = BTreeMap::new();
    let mut from = 0;
    for _ in 0..n {
        // in order, each once
        if from >= kinds.len() {
            break;
        }
        let k = from + vp::choice(kinds.len() - from);
        put(&base, kinds[k], len, &mut want);
        from = k + 1;
    }
    let mut before = Tree::new();
    tree(Path::new(&base), &mut before);
    let w = World::start(&base, init, host, false);
    w.settle();
    untouched(&base, &before, &[]);
    if !host && init {
        // contradictory: it just has to start
        vp::cover(2);
        return;
    }
    if host || persisted {
        if persisted && !init {
            // content that is no text is not a change of what was shared
            if let Ok(c) = std::fs::read(format!("{base}/a")) {
                if !is_text(&c) {
                    want.insert("a".into(), b"old".to_vec());
                }
            }
        }
        check_shared(&w, &want);
    } else {
        check_shared(&w, &BTreeMap::new());
        // the peer's files arrive
        let mut p = Peer::new();
        w.sync(&mut p);
        vp::check(p.texts().is_empty(), "a joining daemon shares nothing of its own");
        untouched(&base, &before, &[]);
        let c = text::plain();
        p.create("a", &[c]);
        p.create("q", &['q']);
        w.sync(&mut p);
        untouched(&base, &before, &["a", "q"]);
        w.check_disk("a", Some(&[c]), "the peer's files arrive");
        w.check_disk("q", Some(&['q']), "the peer's files arrive");
    }
    vp::cover(1);
}

const ALL: [usize; 17] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];

entries! {
    c20_content => run(&[0], 1, 3, 6);
    c20_one => run(&ALL, 1, 1, 7);
    c20_two => run(&ALL, 2, 1, 4);
    c20_three => run(&[0, 1, 3, 6, 7, 11, 15], 3, 0, 2);
    c20_content4 => run(&[0], 1, 4, 2);
    c20_deep => run(&ALL, 3, 1, 7);
}
