//! C10: files on disk follow the shared text while no editor has them open.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/daemon.rs"]
mod daemon;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use daemon::*;
use std::collections::BTreeMap;

const FILES: [&str; 3] = ["text", "d/e/g", "h"];

struct Run {
    w: World,
    p: Peer,
    e: Vec<Option<Editor>>,
    disk: BTreeMap<&'static str, Option<Vec<u8>>>,
    any: bool,
}

impl Run {
    fn open(&self, f: &str) -> bool {
        self.e.iter().flatten().any(|e| e.buffers.contains_key(f))
    }
    /// After everything has been exchanged: what must be on disk.
    fn check(&mut self) {
        self.w.sync(&mut self.p);
        for e in self.e.iter_mut().flatten() {
            e.digest(&self.w);
        }
        for f in FILES {
            let now = self.w.disk(f);
            if self.p.text(f).is_none() {
                // removed by the peer, so it is not open any more
                for e in self.e.iter_mut().flatten() {
                    e.forget(&self.w, f);
                }
            }
            if self.open(f) {
                let old = &self.disk[f];
                let same = match (old, &now) {
                    (Some(a), Some(b)) => vp::same(a, b),
                    (None, None) => true,
                    _ => false,
                };
                vp::check(same, "a file that an editor has open is not written");
            } else {
                let t = self.p.text(f);
                self.w.check_disk(f, t.as_deref(), "a file that no editor has open equals the shared text");
            }
            self.disk.insert(f, now);
        }
    }
    fn forget(&mut self, f: &'static str) {
        let now = self.w.disk(f);
        self.disk.insert(f, now);
    }
    /// A change of a text with n characters.
    fn change(&self, n: usize) -> (usize, usize, Vec<char>) {
        if self.any {
            let from = vp::choice(n + 1);
            let to = from + vp::choice(n - from + 1).min(1);
            return (from, to, if vp::flag() { vec![text::plain()] } else { vec![] });
        }
        match vp::choice(2) {
            0 => (n, n, vec![text::plain()]),
            _ => (0, n.min(1), vec![]),
        }
    }
    fn act(&mut self, kinds: &[usize]) {
        let k = kinds[vp::choice(kinds.len())];
        match k {
            // the peer changes a file, or creates it
            0 | 1 | 2 => {
                let f = FILES[k];
                match self.p.text(f) {
                    None => {
                        vp::note("peer creates a file");
                        let t: Vec<char> = (0..vp::choice(3)).map(|_| text::letter()).collect();
                        self.p.create(f, &t);
                    }
                    Some(t) => {
                        vp::note("peer edits a file");
                        let (from, to, s) = self.change(t.len());
                        self.p.replace(f, from, to, &s);
                    }
                }
            }
            3 | 4 => {
                let f = FILES[k - 3];
                if self.p.text(f).is_none() {
                    vp::end();
                }
                vp::note("peer removes a file");
                self.p.remove(f);
            }
            // editors open and close a file
            5 | 6 => {
                let f = FILES[0];
                let w = &self.w;
                if let Some(e) = &mut self.e[k - 5] {
                    if e.buffers.contains_key(f) {
                        vp::note("editor closes the file");
                        vp::check(e.close(w, f).is_ok(), "close");
                    } else {
                        vp::note("editor opens the file");
                        vp::check(e.open(w, f).is_ok(), "open");
                        self.forget(f);
                    }
                } else {
                    vp::end();
                }
            }
            // an editor changes an open file
            7 | 8 => {
                let f = FILES[0];
                let w = &self.w;
                match &mut self.e[k - 7] {
                    Some(e) if e.buffers.contains_key(f) => {
                        vp::note("editor edits the file");
                        let n = e.buffers[f].text.len();
                        let from = vp::choice(if self.any { n + 1 } else { 1 });
                        vp::check(e.edit(w, f, from, from, &[text::plain()]).is_ok(), "edit");
                    }
                    _ => vp::end(),
                }
            }
            // an editor goes away without closing its files
            _ => {
                if self.e[k - 9].take().is_none() {
                    vp::end();
                }
                vp::note("editor disconnects");
                self.w.pause();
            }
        }
    }
}

fn run(n: usize, editors: usize, kinds: &[usize], batch: bool, any: bool) {
    vp::seed(1);
    let base = prepare();
    let w = World::start(&base, false, true, editors > 0);
    let mut r = Run { p: Peer::new(), e: (0..editors).map(|_| Some(Editor::connect(&w))).collect(), w, disk: BTreeMap::new(), any };
    r.p.create("text", &['x', '\n']);
    r.check();
    for _ in 0..n {
        r.act(kinds);
        if !(batch && vp::flag()) {
            r.check();
        }
    }
    r.check();
    vp::cover(1);
}

entries! {
    // several changes of a peer, one by one or several in one message
    c10_peer => run(2, 0, &[0, 1, 3, 4], true, true);
    c10_files => run(3, 0, &[0, 1, 3, 4], true, false);
    c10_editor => run(4, 1, &[0, 5, 7], false, false);
    c10_two => run(4, 2, &[0, 5, 6, 7], false, false);
    c10_leave => run(4, 2, &[0, 5, 6, 9], false, false);
    c10_removed => run(4, 1, &[0, 3, 5, 7], true, false);
    c10_any => run(3, 1, &[0, 5, 7], false, true);
    c10_all => run(3, 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], true, false);
    c10_deep => run(4, 2, &[0, 1, 3, 5, 6, 7, 8, 9], true, false);
}
