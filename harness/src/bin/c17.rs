//! C17: every change is eventually offered to every connected peer.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/daemon.rs"]
mod daemon;
#[path = "../common/pipe.rs"]
mod pipe;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use automerge::sync::State;
use daemon::*;
use ethersync::daemon::{DocMessage, DocumentActorHandle};
use ethersync::peer::{P2PActor, PeerConnectionInfo};
use ethersync::watcher::WatcherEvent;
use pipe::{pipe, End, Shared};
use serde_json::json;
use std::path::{Path, PathBuf};

/// A daemon whose tasks take their steps one by one.
fn start(base: &str, host: bool) -> World {
    let run = format!("{base}/../run-{}", base.rsplit('/').next().unwrap());
    let _ = std::os::unix::fs::DirBuilderExt::mode(&mut std::fs::DirBuilder::new(), 0o700).create(&run);
    let run = std::fs::canonicalize(&run).unwrap().to_str().unwrap().to_string();
    let sock = format!("{run}/ethersync");
    let rt = tokio::runtime::Builder::new_current_thread().event_interval(1).enable_all().build().unwrap();
    let h = {
        let _g = rt.enter();
        DocumentActorHandle::new(Path::new(base), false, host)
    };
    let w = World { rt, h, base: base.to_string(), sock };
    let (s, h) = (w.sock.clone(), w.h.clone());
    w.rt.spawn(async move {
        ethersync::editor::make_editor_connection(s.into(), h).await;
    });
    w.pause();
    w
}

/// The latest changes a peer has.
fn heads(p: &mut Peer) -> Vec<Vec<u8>> {
    let m = p.d.generate_sync_message(&mut State::new()).expect("a first message");
    let mut h: Vec<Vec<u8>> = m.heads.iter().map(|h| h.0.to_vec()).collect();
    h.sort();
    h
}

struct Run {
    w: Vec<World>,
    e: Vec<Option<Editor>>,
    /// from 0 to 1 and back
    p: Vec<(Shared, Shared)>,
}
impl Run {
    fn new(n: usize, seeds: usize) -> Run {
        vp::seed(vp::choice(seeds) as u64);
        let base = prepare();
        std::fs::write(format!("{base}/f"), "x").unwrap();
        let mut w = vec![start(&base, true)];
        for i in 1..n {
            w.push(start(&prepare_at(&i.to_string()), false));
        }
        let e = w.iter().map(|w| Some(Editor::connect(w))).collect();
        Run { w, e, p: vec![] }
    }
    /// Connect daemon `i` with the host.
    fn connect(&mut self, i: usize) {
        let (there, back) = (pipe(usize::MAX, usize::MAX, false), pipe(usize::MAX, usize::MAX, false));
        let ends = [End { from: back.clone(), to: there.clone() }, End { from: there.clone(), to: back.clone() }];
        for (k, end) in [0, i].into_iter().zip(ends) {
            let w = &self.w[k];
            let _g = w.rt.enter();
            let info = PeerConnectionInfo { port: None, peer: (k != 0).then(|| "x".into()), passphrase: None };
            P2PActor::new(info, w.h.clone(), Path::new(&w.base)).verif_spawn_peer_sync(end);
        }
        self.p.push((there, back));
    }
    /// A few steps of the tasks of a daemon.
    fn steps(&self, at: usize, n: usize) {
        self.w[at].rt.block_on(async {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
        });
    }
    fn carry(&self, k: usize) -> bool {
        let mut any = false;
        for (there, back) in &self.p {
            for (i, d) in [there, back].into_iter().enumerate() {
                if k == i || k == 2 {
                    let mut d = d.lock().unwrap();
                    any |= !d.sent.is_empty();
                    d.carry(usize::MAX);
                }
            }
        }
        any
    }
    /// Something reaches a daemon, but is not handled yet.
    fn post(&self, at: usize, m: DocMessage) {
        let w = &self.w[at];
        w.rt.block_on(async { w.h.send_message(m).await });
    }
    fn line(&mut self, at: usize, method: &str, params: serde_json::Value) {
        if self.e[at].is_none() {
            vp::end();
        }
        let l = json!({"jsonrpc": "2.0", "id": 9, "method": method, "params": params}).to_string();
        self.post(at, DocMessage::FromEditor(0, l));
    }
    fn change(&mut self, at: usize, op: usize) {
        let uri = self.w[at].uri("f");
        match op {
            // an editor opens the file, types into it, and closes it
            0 => {
                let c = text::plain();
                self.line(at, "open", json!({ "uri": uri }));
                self.line(at, "edit", json!({"uri": uri, "revision": 0, "delta": [{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": c.to_string()}]}));
                self.line(at, "close", json!({ "uri": uri }));
            }
            // an editor opens a file that does not exist
            1 => {
                let uri = self.w[at].uri("g");
                self.line(at, "open", json!({ "uri": uri }));
            }
            2 => {
                let p = json!({"line": 0, "character": vp::choice(2)});
                self.line(at, "cursor", json!({"uri": uri, "ranges": [{"start": p, "end": p}]}));
            }
            // the editor goes away
            3 => {
                self.e[at] = None;
                self.post(at, DocMessage::CloseEditorConnection(0));
            }
            // another program creates, changes or removes a file
            k => {
                let f = ["h", "f", "f"][k - 4];
                let file_path = PathBuf::from(self.w[at].path(f));
                if k == 6 {
                    if std::fs::remove_file(&file_path).is_err() {
                        vp::end();
                    }
                    self.post(at, DocMessage::FromWatcher(WatcherEvent::Removed { file_path }));
                } else {
                    if (k == 5) != file_path.exists() {
                        vp::end();
                    }
                    std::fs::write(&file_path, [vp::range(b'a', b'd'), b'y']).unwrap();
                    self.post(at, DocMessage::FromWatcher(if k == 4 { WatcherEvent::Created { file_path } } else { WatcherEvent::Changed { file_path } }));
                }
            }
        }
    }
    /// Everything that is going to happen by itself.
    fn finish(&self) {
        let mut quiet = 0;
        for _ in 0..60 {
            for w in &self.w {
                w.pause();
            }
            quiet = if self.carry(2) { 0 } else { quiet + 1 };
            if quiet == 2 {
                return;
            }
        }
        vp::fail("connected daemons come to rest");
    }
    fn check_equal(&self) {
        let mut seen: Vec<Peer> = vec![];
        for w in &self.w {
            let mut p = Peer::new();
            w.sync(&mut p);
            seen.push(p);
        }
        let (first, rest) = seen.split_first_mut().unwrap();
        let want = first.texts();
        let all = heads(first);
        for p in rest {
            check_texts(&p.texts(), &want, "connected daemons have the same texts");
            vp::check(heads(p) == all, "connected daemons have the same state");
        }
    }
}

const CHANGES: usize = 7;

/// Changes while the daemons are connected, with steps and messages in between.
fn changes(daemons: usize, n: usize, quiet_start: bool, fine: usize) {
    let mut r = Run::new(daemons, if fine > 1 { 2 } else { 1 });
    for i in 1..daemons {
        r.connect(i);
    }
    if quiet_start {
        r.finish();
        r.check_equal();
    }
    for _ in 0..n {
        let at = vp::choice(daemons);
        let op = vp::choice(CHANGES);
        r.change(at, op);
        r.steps(at, vp::choice(fine));
        match vp::choice(3) {
            0 => {}
            1 => {
                r.carry(2);
            }
            _ => {
                r.carry(2);
                for k in 0..daemons {
                    r.steps(k, fine);
                }
                r.carry(2);
            }
        }
    }
    r.finish();
    r.check_equal();
    vp::cover(1);
}
/// A change just before or after the daemons are connected.
fn connecting() {
    let mut r = Run::new(2, 2);
    let at = vp::choice(2);
    let op = vp::choice(CHANGES);
    let when = vp::choice(6);
    if when == 0 {
        r.change(at, op);
    }
    r.connect(1);
    if when > 0 {
        r.steps(0, when - 1);
        r.steps(1, vp::choice(4));
        if vp::flag() {
            r.carry(2);
        }
        r.change(at, op);
    }
    r.finish();
    r.check_equal();
    vp::cover(1);
}
/// More changes than there is room for notifications.
fn many(n: usize) {
    let mut r = Run::new(2, 2);
    r.connect(1);
    r.finish();
    let at = vp::choice(2);
    let k = 2 + vp::choice(n - 1);
    for i in 0..k {
        r.post(at, DocMessage::FromWatcher({
            let file_path = PathBuf::from(r.w[at].path("f"));
            std::fs::write(&file_path, [vp::range(b'a', b'd'), b'0' + i as u8]).unwrap();
            WatcherEvent::Changed { file_path }
        }));
        r.steps(at, vp::choice(3));
    }
    r.finish();
    r.check_equal();
    vp::cover(1);
}

entries! {
    c17_changes => changes(2, 1, true, 6);
    c17_two => changes(2, 2, true, 1);
    c17_first => changes(2, 1, false, 6);
    c17_connecting => connecting();
    c17_many => many(4);
    c17_three => changes(3, 1, true, 2);
    c17_two_fine => changes(2, 2, true, 3);
    c17_deep => changes(2, 3, true, 1);
    c17_three2 => changes(3, 2, true, 1);
}
