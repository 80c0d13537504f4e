//! C09: a restart recovers the shared history.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/daemon.rs"]
mod daemon;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use automerge::sync::State;
use automerge::ChangeHash;
use daemon::*;
use ethersync::daemon::DocMessage;
use ethersync::document::Document;
use ethersync::watcher::WatcherEvent;
use std::collections::BTreeMap;
use std::path::PathBuf;
use text::Text;

const FILES: [&str; 3] = ["f", "g", "h"];

/// What the daemon has at the moment.
fn heads(w: &World) -> Vec<ChangeHash> {
    let mut h = w.generate_for(&mut State::new()).expect("a first message").heads;
    h.sort();
    h
}
fn peer_heads(d: &mut Document) -> Vec<ChangeHash> {
    let mut h = d.generate_sync_message(&mut State::new()).expect("a first message").heads;
    h.sort();
    h
}
/// Whether the daemon knows everything that this document knows.
fn knows(w: &World, d: &mut Document) -> bool {
    let mut s = State::new();
    let m = d.generate_sync_message(&mut State::new()).expect("a first message");
    w.receive_for(&mut s, m);
    w.generate_for(&mut s).map_or(true, |m| m.need.is_empty())
}

fn disk(w: &World) -> BTreeMap<String, Text> {
    let mut r = BTreeMap::new();
    for f in FILES {
        if let Some(Ok(s)) = w.disk(f).map(String::from_utf8) {
            r.insert(f.to_string(), text::chars(&s));
        }
    }
    r
}

fn changed(w: &World, f: &str) {
    let file_path = PathBuf::from(w.path(f));
    let e = if file_path.exists() { WatcherEvent::Changed { file_path } } else { WatcherEvent::Removed { file_path } };
    w.send(DocMessage::FromWatcher(e));
}

/// Something changes, through a peer or on disk.
fn act(w: &World, p: &mut Peer, kinds: usize) {
    match vp::choice(kinds) {
        0 => {
            let Some(t) = p.text("f") else { vp::end() };
            match vp::choice(3) {
                0 => p.replace("f", 0, 0, &[text::letter()]),
                1 => p.replace("f", t.len(), t.len(), &[text::letter(), '\n']),
                _ => p.replace("f", 0, t.len().min(1), &[]),
            }
            w.sync(p);
        }
        1 => {
            std::fs::write(w.path("f"), [vp::range(b'a', b'd'), b'\n']).unwrap();
            changed(w, "f");
        }
        2 => {
            if p.text("g").is_some() {
                p.remove("g");
            } else {
                p.create("g", &[text::letter()]);
            }
            w.sync(p);
        }
        3 => {
            if std::fs::remove_file(w.path("f")).is_err() {
                vp::end();
            }
            changed(w, "f");
        }
        4 => w.send(DocMessage::Persist),
        _ => {}
    }
}

/// Something changes while no daemon is running.
fn offline(base: &str, k: usize) {
    let p = |f: &str| format!("{base}/{f}");
    match k {
        0 => std::fs::write(p("f"), [vp::range(b'a', b'd'), vp::range(b'a', b'd')]).unwrap(),
        1 => {
            if std::fs::remove_file(p("f")).is_err() {
                vp::end();
            }
        }
        2 => std::fs::write(p("h"), [vp::range(b'a', b'd')]).unwrap(),
        3 => {
            if std::fs::rename(p("f"), p("g")).is_err() {
                vp::end();
            }
        }
        _ => std::fs::write(p("f"), []).unwrap(),
    }
}

fn begin() -> String {
    vp::seed(1);
    let base = prepare();
    if vp::flag() {
        std::fs::write(format!("{base}/f"), "x\ny").unwrap();
    } else {
        std::fs::write(format!("{base}/f"), [vp::range(b'a', b'd')]).unwrap();
    }
    base
}

fn restart(n: usize, kinds: usize, lives: usize, changes: usize) {
    let base = begin();
    let mut p = Peer::new();
    let mut w = World::start(&base, false, true, false);
    w.sync(&mut p);
    for _ in 0..lives {
        w.send(DocMessage::Persist);
        for _ in 0..n {
            act(&w, &mut p, kinds);
        }
        w.send(DocMessage::Persist);
        w.sync(&mut p);
        let before = heads(&w);
        vp::check(before == peer_heads(&mut p.d), "a peer has the same history");
        drop(w);
        for _ in 0..changes {
            offline(&base, vp::choice(5));
        }
        w = World::start(&base, false, vp::flag(), false);
        if changes == 0 {
            vp::check(heads(&w) == before, "a restart keeps the history as it was");
        }
        check_texts(&w.shared(), &disk(&w), "after a restart, the files are shared as they are on disk");
        vp::check(knows(&w, &mut p.d), "a restart keeps the history");
        let old = std::mem::replace(&mut p, Peer::new());
        p.d = old.d;
        w.sync(&mut p);
        check_texts(&p.texts(), &disk(&w), "a peer gets what changed in the meantime");
    }
    vp::cover(1);
}

/// The daemon dies while it persists.
fn crash(n: usize, kinds: usize, persists: usize, parts: u8, earlier: bool) {
    let base = begin();
    let known = format!("{base}/../known");
    if earlier {
        let w = World::start(&base, false, true, false);
        w.send(DocMessage::Persist);
        let mut p = Peer::new();
        w.sync(&mut p);
        std::fs::write(&known, p.d.save()).unwrap();
        offline(&base, vp::choice(5));
    }
    let host = vp::flag();
    let r = vp::section(|| {
        let w = World::start(&base, false, true, false);
        let mut p = Peer::new();
        for _ in 0..persists {
            w.send(DocMessage::Persist);
            w.sync(&mut p);
            std::fs::write(&known, p.d.save()).unwrap();
            for _ in 0..n {
                act(&w, &mut p, kinds);
            }
        }
        let part = if parts == 0 { vp::u8() } else { vp::range(0, parts - 1) * (255 / (parts - 1)) };
        vp::crash_arm(vp::u8(), part, 8);
        w.send(DocMessage::Persist);
        vp::crash_disarm();
        std::fs::write(&known, p.d.save()).unwrap();
    });
    vp::check(r < 2, "the daemon does not fail");
    let mut d = match std::fs::read(&known) {
        Ok(b) => Document::load(&b),
        Err(_) => Document::default(),
    };
    let none = persists == 0 && r == 1 && !earlier;
    let w = World::start(&base, false, host || none, false);
    check_texts(&w.shared(), &disk(&w), "after an interruption, the files are shared as they are on disk");
    if !none {
        vp::check(knows(&w, &mut d), "what was persisted earlier is not lost");
    }
    // it goes on from there
    w.send(DocMessage::Persist);
    let h = heads(&w);
    drop(w);
    let w = World::start(&base, false, host, false);
    vp::check(heads(&w) == h, "a restart keeps the history as it was");
    vp::cover(if r == 1 { 2 } else { 1 });
}

/// An editor has the file open and did not save it.
fn open() {
    let base = begin();
    let w = World::start(&base, false, true, true);
    let mut e = Editor::connect(&w);
    vp::check(e.open(&w, "f").is_ok(), "open");
    let saved = e.text("f");
    vp::check(e.edit(&w, "f", 0, 0, &[text::plain()]).is_ok(), "edit");
    let t = e.text("f");
    w.send(DocMessage::Persist);
    drop(w);
    let w = World::start(&base, false, true, false);
    let now = w.shared()["f"].clone();
    let same = |a: &Text, b: &Text| vp::same(text::string(a).as_bytes(), text::string(b).as_bytes());
    if same(&now, &saved) {
        vp::known("unsaved");
    }
    vp::check(same(&now, &t), "a restart keeps the shared text");
}

entries! {
    c09_restart => restart(3, 5, 1, 0);
    c09_offline => restart(2, 4, 1, 1);
    c09_offline2 => restart(0, 1, 1, 2);
    c09_twice => restart(1, 4, 2, 0);
    c09_first => crash(0, 1, 0, 16, false);
    c09_again => crash(1, 2, 0, 16, true);
    c09_crash => crash(1, 4, 1, 16, false);
    c09_append => crash(1, 2, 2, 8, false);
    c09_torn => crash(1, 1, 1, 0, false);
    c09_open => open();
    c09_deep => restart(2, 5, 2, 1);
    c09_crash_deep => crash(2, 5, 2, 0, false);
}
