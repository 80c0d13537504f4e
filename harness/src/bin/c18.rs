//! C18: two connected daemons converge end to end.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/daemon.rs"]
mod daemon;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use daemon::*;
use ethersync::daemon::DocMessage;
use ethersync::watcher::WatcherEvent;
use serde_json::json;
use std::path::PathBuf;

struct Run {
    w: Vec<World>,
    link: Link,
    /// an editor and the daemon it is connected to
    e: Vec<(usize, Editor)>,
}

const FILES: [&str; 2] = ["f", "g"];

impl Run {
    fn new(editors: usize, open: bool) -> Run {
        vp::seed(1);
        let base = prepare();
        std::fs::write(format!("{base}/f"), "x\ny").unwrap();
        let a = World::start(&base, false, true, true);
        let b = World::start(&prepare_at("2"), false, false, true);
        let mut link = Link::new();
        a.sync_with(&b, &mut link);
        let mut r = Run { w: vec![a, b], link, e: vec![] };
        for i in 0..editors {
            let at = i % 2;
            let mut e = Editor::connect(&r.w[at]);
            if open {
                vp::check(e.open(&r.w[at], "f").is_ok(), "open");
                e.digest(&r.w[at]);
            }
            r.e.push((at, e));
        }
        r
    }
    /// Pass on a message between the daemons.
    fn step(&mut self, k: usize) -> bool {
        let a = if k != 1 { self.w[0].generate_for(&mut self.link.here) } else { None };
        let b = if k != 0 { self.w[1].generate_for(&mut self.link.there) } else { None };
        let any = a.is_some() || b.is_some();
        if let Some(m) = a {
            self.w[1].receive_for(&mut self.link.there, m);
        }
        if let Some(m) = b {
            self.w[0].receive_for(&mut self.link.here, m);
        }
        any
    }
    fn watcher(&mut self, at: usize, f: &str) {
        let file_path = PathBuf::from(self.w[at].path(f));
        let e = if file_path.exists() { WatcherEvent::Changed { file_path } } else { WatcherEvent::Removed { file_path } };
        self.w[at].send(DocMessage::FromWatcher(e));
    }
    /// One action: a kind and whose it is.
    fn act(&mut self, op: usize) {
        let n = self.e.len();
        match op {
            // an editor types: at the beginning, at the end, or it deletes
            0 => {
                let i = vp::choice(n);
                let (at, e) = &mut self.e[i];
                let Some(b) = e.buffers.get("f") else { vp::end() };
                let len = b.text.len();
                let c = text::plain();
                let (from, to, s) = match vp::choice(3) {
                    0 => (0, 0, vec![c]),
                    1 => (len, len, vec![c, '\n']),
                    _ => (0, len.min(2), vec![]),
                };
                vp::check(e.edit(&self.w[*at], "f", from, to, &s).is_ok(), "an edit is accepted");
            }
            // it takes in what it was sent
            1 => {
                let i = vp::choice(n);
                let (at, e) = &mut self.e[i];
                e.digest(&self.w[*at]);
            }
            2 => {
                self.step(vp::choice(3));
            }
            // it opens or closes
            3 => {
                let i = vp::choice(n);
                self.toggle(i, "f");
            }
            4 => {
                let i = vp::choice(n);
                self.toggle(i, "g");
                let (at, e) = &mut self.e[i];
                if e.buffers.contains_key("g") {
                    e.digest(&self.w[*at]);
                    let c = text::plain();
                    vp::check(e.edit(&self.w[*at], "g", 0, 0, &[c]).is_ok(), "an edit is accepted");
                }
            }
            // another program changes or removes the file
            5 => {
                let at = vp::choice(2);
                if self.e.iter().any(|(a, e)| *a == at && e.buffers.contains_key("f")) {
                    vp::end();
                }
                let p = self.w[at].path("f");
                if vp::flag() {
                    if std::fs::remove_file(p).is_err() {
                        vp::end();
                    }
                } else {
                    std::fs::write(p, [vp::range(b'a', b'd'), b'x']).unwrap();
                }
                self.watcher(at, "f");
            }
            // a cursor moves
            _ => {
                let i = vp::choice(n);
                let (at, e) = &mut self.e[i];
                let p = json!({"line": 0, "character": 1});
                vp::check(e.cursor(&self.w[*at], "f", json!([{"start": p, "end": p}])).is_ok(), "a cursor is accepted");
            }
        }
    }
    fn toggle(&mut self, i: usize, f: &str) {
        let (at, e) = &mut self.e[i];
        if e.buffers.contains_key(f) {
            vp::check(e.close(&self.w[*at], f).is_ok(), "close");
        } else {
            vp::check(e.open(&self.w[*at], f).is_ok(), "open");
        }
    }
    /// An editor no longer has a file open that was removed by the peer.
    fn gone(&mut self) {
        for at in 0..2 {
            let shared = self.w[at].shared();
            for (a, e) in &mut self.e {
                if *a == at {
                    e.poll();
                    for f in FILES {
                        if e.buffers.contains_key(f) && !shared.contains_key(f) {
                            e.forget(&self.w[at], f);
                        }
                    }
                }
            }
        }
    }
    fn finish(&mut self, removing: bool) {
        for _ in 0..3 {
            let mut steps = 0;
            while self.step(2) {
                if removing {
                    self.gone();
                }
                steps += 1;
                vp::check(steps < 40, "the exchange between daemons comes to an end");
            }
            for (at, e) in &mut self.e {
                self.w[*at].pause();
                e.digest(&self.w[*at]);
            }
        }
        let (a, b) = (self.w[0].shared(), self.w[1].shared());
        check_texts(&a, &b, "both daemons share the same texts");
        for (_, e) in &self.e {
            for (f, b) in &e.buffers {
                match a.get(f) {
                    Some(t) => vp::check_same(&text::string(&b.text), &text::string(t), "an editor shows the shared text"),
                    None => vp::fail("an open file stays shared"),
                }
            }
        }
        for at in 0..2 {
            for f in FILES {
                if self.e.iter().any(|(x, e)| *x == at && e.buffers.contains_key(f)) {
                    continue;
                }
                self.w[at].check_disk(f, a.get(f).map(|t| &t[..]), "a file no editor has open is the shared text");
            }
        }
    }
}

fn run(n: usize, editors: usize, open: bool, ops: &[usize]) {
    let mut r = Run::new(editors, open);
    let removing = ops.contains(&5);
    for _ in 0..n {
        r.act(ops[vp::choice(ops.len())]);
        if removing {
            r.gone();
        }
    }
    r.finish(removing);
    vp::cover(1);
}

/// A file with an unusual name and content, edited on both sides.
fn special(name: bool) {
    let f = if name {
        let c = text::special();
        vp::assume(c != '\0');
        text::string(&if vp::flag() { [c, 'n'] } else { ['n', c] })
    } else {
        "f".to_string()
    };
    let content = if name { "x\ny".to_string() } else { text::string(&[text::special(), 'x']) };
    vp::seed(1);
    let base = prepare();
    std::fs::write(format!("{base}/{f}"), &content).unwrap();
    let a = World::start(&base, false, true, true);
    let b = World::start(&prepare_at("2"), false, false, true);
    let mut link = Link::new();
    a.sync_with(&b, &mut link);
    b.check_disk(&f, Some(&text::chars(&content)), "a file arrives as it is");
    let w = [a, b];
    let mut e: Vec<Editor> = w.iter().map(Editor::connect).collect();
    let side = vp::choice(2);
    for i in 0..2 {
        vp::check(e[i].open(&w[i], &f).is_ok(), "open");
        e[i].digest(&w[i]);
    }
    let len = e[side].text(&f).len();
    let (from, to) = [(0, 0), (0, 1), (len, len)][vp::choice(3)];
    let c = if name { text::plain() } else { text::special() };
    let want = text::replace(&e[side].text(&f), from, to, &[c]);
    vp::check(e[side].edit(&w[side], &f, from, to, &[c]).is_ok(), "an edit is accepted");
    w[0].sync_with(&w[1], &mut link);
    for i in 0..2 {
        w[i].pause();
        e[i].digest(&w[i]);
        vp::check_same(&text::string(&e[i].text(&f)), &text::string(&want), "an editor shows what was typed");
        vp::check(e[i].close(&w[i], &f).is_ok(), "close");
        w[i].check_disk(&f, Some(&want), "the file is written as it was typed");
        let s = w[i].shared();
        vp::check(s.len() == 1 && s.contains_key(&f), "the file is shared under its name");
    }
    vp::cover(1);
}

/// Everybody types, then everything is delivered, twice.
fn rounds(n: usize, editors: usize) {
    let mut r = Run::new(editors, true);
    for _ in 0..n {
        for i in 0..editors {
            let (at, e) = &mut r.e[i];
            let len = e.buffers["f"].text.len();
            let c = text::plain();
            let (from, to, s) = match vp::choice(4) {
                0 => (0, 0, vec![c]),
                1 => (len, len, vec![c]),
                2 => (0, len.min(2), vec![]),
                _ => continue,
            };
            vp::check(e.edit(&r.w[*at], "f", from, to, &s).is_ok(), "an edit is accepted");
        }
        r.step(vp::choice(3));
        if vp::flag() {
            let (at, e) = &mut r.e[0];
            e.digest(&r.w[*at]);
        }
    }
    r.finish(false);
    vp::cover(1);
}

entries! {
    c18_edit => run(3, 2, true, &[0, 1, 2]);
    c18_open => run(4, 2, false, &[0, 2, 3]);
    c18_create => run(4, 2, false, &[2, 4]);
    c18_disk => run(4, 1, false, &[2, 3, 5]);
    c18_rounds => rounds(1, 3);
    c18_text => special(false);
    c18_name => special(true);
    c18_all => run(2, 2, true, &[0, 1, 2, 3, 4, 5, 6]);
    c18_edit4 => run(4, 2, true, &[0, 1, 2]);
    c18_rounds_deep => rounds(2, 2);
    c18_deep => run(4, 2, true, &[0, 1, 2, 3]);
    c18_deep_all => run(3, 3, true, &[0, 1, 2, 3, 4, 5, 6]);
}
