//! C11: changes on disk reach the shared state only when no editor owns the
//! file.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/daemon.rs"]
mod daemon;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use daemon::*;
use ethersync::daemon::DocMessage;
use ethersync::watcher::{Watcher, WatcherEvent};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use text::Text;

struct Run {
    w: World,
    e: Editor,
    watch: bool,
    /// what is shared without being on disk that way
    kept: BTreeMap<String, Option<Text>>,
    before: BTreeMap<String, Text>,
}

const FILES: [&str; 5] = ["f", "g", "t", "d/h", "e/h"];

impl Run {
    fn new(watch: bool) -> Run {
        vp::seed(1);
        let base = prepare();
        std::fs::write(format!("{base}/f"), "ab").unwrap();
        let out = format!("{base}/../out");
        let _ = std::fs::create_dir(&out);
        let w = World::start(&base, false, true, true);
        if watch {
            let h = w.h.clone();
            let _g = w.rt.enter();
            let mut watcher = Watcher::new(Path::new(&base));
            tokio::spawn(async move {
                while let Some(event) = watcher.next().await {
                    h.send_message(DocMessage::FromWatcher(event)).await;
                }
            });
        }
        let e = Editor::connect(&w);
        let before = w.shared();
        Run { w, e, watch, kept: BTreeMap::new(), before }
    }
    fn out(&self) -> String {
        format!("{}/../out/x", self.w.base)
    }
    fn odd(&self) -> PathBuf {
        Path::new(&self.w.base).join(std::ffi::OsStr::from_bytes(b"f\xff"))
    }
    /// Let the daemon notice everything, and compare.
    fn flush(&mut self) {
        if self.watch {
            for _ in 0..4 {
                vp::quiesce();
                self.w.pause();
            }
        }
        let now = self.w.shared();
        for f in FILES {
            let shared = now.get(f).cloned();
            if let Some(b) = self.e.buffers.get(f) {
                vp::check(shared.is_some(), "an open file stays shared");
                vp::check_same(&text::string(&b.text), &text::string(&shared.unwrap()), "an open file is only changed by its editor");
                continue;
            }
            let disk = self.w.disk(f);
            match (disk, shared) {
                (None, None) => {
                    self.kept.remove(f);
                }
                (None, Some(_)) => vp::fail("a file removed on disk is no longer shared"),
                (Some(d), s) => match (String::from_utf8(d), s) {
                    (Ok(d), Some(s)) => {
                        vp::check_same(&d, &text::string(&s), "a file changed on disk is shared as it is");
                        self.kept.remove(f);
                    }
                    (Ok(_), None) => vp::fail("a file created on disk is shared"),
                    (Err(_), s) => {
                        let before = self.kept.entry(f.into()).or_insert_with(|| self.before.get(f).cloned());
                        match (&*before, s) {
                            (None, None) => {}
                            (Some(a), Some(b)) => vp::check_same(&text::string(a), &text::string(&b), "content that is no text changes nothing"),
                            _ => vp::fail("content that is no text changes nothing"),
                        }
                    }
                },
            }
        }
        self.before = now;
        self.e.digest(&self.w);
    }
    /// One action of another program or of the editor; false if impossible.
    fn act(&mut self, op: usize) -> bool {
        let (f, g, t) = (self.w.path("f"), self.w.path("g"), self.w.path("t"));
        let exists = |p: &str| Path::new(p).exists();
        match op {
            // another program writes, removes, renames
            0 => std::fs::write(&f, content()).is_ok(),
            1 => std::fs::remove_file(&f).is_ok(),
            2 => std::fs::write(&t, content()).is_ok() && std::fs::rename(&t, &f).is_ok(),
            3 => std::fs::rename(&f, self.out()).is_ok(),
            4 => std::fs::write(self.out(), content()).is_ok() && std::fs::rename(self.out(), &f).is_ok(),
            5 => exists(&f) && std::fs::rename(&f, &g).is_ok(),
            6 => exists(&g) && std::fs::rename(&g, &f).is_ok(),
            7 => std::fs::write(&g, content()).is_ok(),
            8 => std::fs::remove_file(&g).is_ok(),
            9 => std::fs::remove_file(&f).is_ok() && std::fs::write(&f, content()).is_ok(),
            10 => {
                // only text has a defined place between other changes
                self.flush();
                let mut b = content();
                b.push(0xff);
                let r = std::fs::write(&f, b).is_ok();
                self.flush();
                r
            }
            // directories
            11 => std::fs::create_dir(self.w.path("d")).is_ok() && std::fs::write(self.w.path("d/h"), content()).is_ok(),
            12 => exists(&self.w.path("d")) && !exists(&self.w.path("e")) && std::fs::rename(self.w.path("d"), self.w.path("e")).is_ok(),
            13 => exists(&self.w.path("d")) && std::fs::remove_dir_all(self.w.path("d")).is_ok(),
            14 => exists(&self.w.path("d")) && std::fs::rename(self.w.path("d"), self.out()).is_ok(),
            // names that are no text; something else under the name
            20 => std::fs::write(self.odd(), content()).is_ok(),
            21 => exists(&f) && std::fs::rename(&f, self.odd()).is_ok(),
            22 => self.odd().exists() && std::fs::rename(self.odd(), &f).is_ok(),
            23 => std::fs::remove_file(&f).is_ok() && std::fs::create_dir(&f).is_ok(),
            24 => Path::new(&f).is_dir() && std::fs::remove_dir(&f).is_ok() && std::fs::write(&f, content()).is_ok(),
            // the editor
            15 | 16 => {
                let f = ["f", "g"][op - 15];
                if self.e.buffers.contains_key(f) || self.kept.contains_key(f) {
                    return false;
                }
                if let Some(d) = self.w.disk(f) {
                    if String::from_utf8(d).is_err() {
                        return false;
                    }
                }
                self.e.poll();
                vp::check(self.e.open(&self.w, f).is_ok(), "a file can be opened");
                self.e.digest(&self.w);
                true
            }
            17 | 18 => {
                let f = ["f", "g"][op - 17];
                self.e.buffers.contains_key(f) && self.e.close(&self.w, f).is_ok()
            }
            _ => {
                if !self.e.buffers.contains_key("f") {
                    return false;
                }
                self.e.digest(&self.w);
                let c = text::plain();
                self.e.edit(&self.w, "f", 0, 0, &[c]).is_ok()
            }
        }
    }
}

static KINDS: AtomicUsize = AtomicUsize::new(3);

fn content() -> Vec<u8> {
    let n = KINDS.load(Ordering::Relaxed);
    if n == 1 {
        return vec![vp::range(b'a', b'd')];
    }
    match vp::choice(n) {
        0 => vec![],
        1 => vec![vp::range(b'a', b'd'), vp::range(b'a', b'd')],
        3 => text::string(&[text::special(), text::special()]).into_bytes(),
        _ => text::string(&[vp::range(b'a', b'd') as char, 'é', '\n']).into_bytes(),
    }
}

fn watch(n: usize, kinds: usize, ops: &[usize]) {
    KINDS.store(kinds, Ordering::Relaxed);
    let mut r = Run::new(true);
    for _ in 0..n {
        let op = ops[vp::choice(ops.len())];
        if !r.act(op) {
            vp::end();
        }
        if vp::flag() {
            r.flush();
        }
    }
    r.flush();
    vp::cover(1);
}

/// Events that come late, twice or for no reason.
fn events(n: usize, kinds: usize) {
    let mut r = Run::new(false);
    for _ in 0..n {
        match vp::choice(5) {
            0 => {
                if !r.act([0, 1, 7, 8][vp::choice(4)]) {
                    vp::end();
                }
                continue;
            }
            1 => {
                if !r.act(15 + vp::choice(4)) {
                    vp::end();
                }
                continue;
            }
            _ => {}
        }
        send(&r.w, vp::choice(kinds));
    }
    // now the events for the way things are
    for f in ["f", "g"] {
        let p = PathBuf::from(r.w.path(f));
        let e = if p.exists() {
            if vp::flag() {
                WatcherEvent::Changed { file_path: p }
            } else {
                WatcherEvent::Created { file_path: p }
            }
        } else {
            WatcherEvent::Removed { file_path: p }
        };
        r.w.send(DocMessage::FromWatcher(e));
    }
    r.flush();
    vp::cover(1);
}

fn send(w: &World, k: usize) {
    let file_path = PathBuf::from(w.path(["f", "g", "d/h"][k / 3]));
    let e = match k % 3 {
        0 => WatcherEvent::Created { file_path },
        1 => WatcherEvent::Changed { file_path },
        _ => WatcherEvent::Removed { file_path },
    };
    w.send(DocMessage::FromWatcher(e));
}

entries! {
    c11_disk => watch(2, 3, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
    c11_content => watch(1, 4, &[0, 4, 7, 9]);
    c11_dirs => watch(4, 1, &[11, 12, 13, 14, 0]);
    c11_editor => watch(3, 1, &[0, 1, 2, 15, 17, 19]);
    c11_names => watch(3, 2, &[5, 6, 7, 15, 16, 17, 18]);
    c11_odd => watch(3, 1, &[0, 1, 20, 21, 22, 23, 24]);
    c11_events => events(2, 6);
    c11_events3 => events(3, 6);
    c11_editor_more => watch(3, 2, &[0, 1, 2, 15, 17, 19]);
    c11_deep => watch(3, 3, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 19]);
    c11_deep_dirs => watch(4, 1, &[11, 12, 13, 14, 0, 5, 15, 17]);
    c11_events_deep => events(4, 9);
}
