//! A daemon without its network part: the document actor, editors connected
//! through its socket, and peers as plain documents that sync with it.
#![allow(dead_code)]

use crate::text::{self, Text};
use crate::vp;
use automerge::sync::{Message, State};
use ethersync::daemon::{DocMessage, DocumentActorHandle};
use ethersync::document::Document;
use ethersync::path::RelativePath;
use ethersync::types::EditorTextDelta;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::fs::DirBuilderExt;
use std::os::unix::net::UnixStream;
use std::path::Path;
use std::time::Duration;
use tokio::runtime::Runtime;
use tokio::sync::oneshot;

pub fn rel(s: &str) -> RelativePath {
    RelativePath::new(s)
}

pub struct World {
    pub rt: Runtime,
    pub h: DocumentActorHandle,
    pub base: String,
    pub sock: String,
}

/// A fresh directory to share, with the daemon's own directory in it.
pub fn prepare() -> String {
    prepare_at("")
}
/// Another one.
pub fn prepare_at(suffix: &str) -> String {
    let base = vp::scratch() + suffix;
    let _ = std::fs::create_dir_all(format!("{base}/.ethersync"));
    base
}

impl World {
    /// Start on a directory; `editors`: also listen on the socket.
    pub fn start(base: &str, init: bool, host: bool, editors: bool) -> World {
        let run = format!("{base}/../run-{}", base.rsplit('/').next().unwrap());
        if editors {
            let _ = std::fs::DirBuilder::new().mode(0o700).create(&run);
        }
        let run = std::fs::canonicalize(&run).map(|p| p.to_str().unwrap().to_string()).unwrap_or(run);
        let sock = format!("{run}/ethersync");
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let h = {
            let _g = rt.enter();
            DocumentActorHandle::new(Path::new(base), init, host)
        };
        let w = World { rt, h, base: base.to_string(), sock };
        if editors {
            let (s, h) = (w.sock.clone(), w.h.clone());
            w.rt.spawn(async move {
                ethersync::editor::make_editor_connection(s.into(), h).await;
            });
            w.pause();
        }
        w
    }
    /// Let everything that can happen happen.
    pub fn pause(&self) {
        self.rt.block_on(async {
            tokio::time::sleep(Duration::from_millis(5)).await;
        });
        self.settle();
    }
    /// Wait until the daemon has handled what it was sent.
    pub fn settle(&self) {
        let r = self.rt.block_on(async { tokio::time::timeout(Duration::from_secs(20), self.h.content()).await });
        vp::check(r.is_ok(), "the daemon keeps handling messages");
    }
    pub fn send(&self, m: DocMessage) {
        self.rt.block_on(async { self.h.send_message(m).await });
        self.settle();
    }

    // what peers see
    pub fn generate(&self, p: &mut Peer) -> Option<Message> {
        self.generate_for(&mut p.far)
    }
    pub fn receive(&self, p: &mut Peer, message: Message) {
        self.receive_for(&mut p.far, message)
    }
    /// Exchange messages until neither side has one.
    pub fn sync(&self, p: &mut Peer) {
        for _ in 0..40 {
            let a = p.d.generate_sync_message(&mut p.near);
            let quiet = a.is_none();
            if let Some(m) = a {
                self.receive(p, m);
            }
            match self.generate(p) {
                Some(m) => {
                    p.d.receive_sync_message_log_patches(m, &mut p.near);
                }
                None if quiet => return,
                None => {}
            }
        }
        vp::fail("the exchange with a peer comes to an end");
    }
    /// The same between two daemons.
    pub fn sync_with(&self, other: &World, link: &mut Link) {
        for _ in 0..40 {
            let a = self.generate_for(&mut link.here);
            let b = other.generate_for(&mut link.there);
            if a.is_none() && b.is_none() {
                return;
            }
            if let Some(m) = a {
                other.receive_for(&mut link.there, m);
            }
            if let Some(m) = b {
                self.receive_for(&mut link.here, m);
            }
        }
        vp::fail("the exchange with a peer comes to an end");
    }
    pub fn generate_for(&self, state: &mut State) -> Option<Message> {
        let (tx, rx) = oneshot::channel();
        let st = std::mem::take(state);
        let (s, m) = self.rt.block_on(async {
            self.h.send_message(DocMessage::GenerateSyncMessage { state: st, response_tx: tx }).await;
            rx.await.expect("answer to a peer")
        });
        *state = s;
        m
    }
    pub fn receive_for(&self, state: &mut State, message: Message) {
        let (tx, rx) = oneshot::channel();
        let st = std::mem::take(state);
        *state = self.rt.block_on(async {
            self.h.send_message(DocMessage::ReceiveSyncMessage { message, state: st, response_tx: tx }).await;
            rx.await.expect("answer to a peer")
        });
    }
    /// The shared texts, read through a peer that has nothing of its own.
    pub fn shared(&self) -> BTreeMap<String, Text> {
        let mut p = Peer::new();
        self.sync(&mut p);
        p.texts()
    }

    // the directory
    pub fn path(&self, f: &str) -> String {
        format!("{}/{f}", self.base)
    }
    pub fn disk(&self, f: &str) -> Option<Vec<u8>> {
        std::fs::read(self.path(f)).ok()
    }
    pub fn put(&self, f: &str, t: &[char]) {
        std::fs::write(self.path(f), text::string(t)).unwrap();
    }
    pub fn check_disk(&self, f: &str, want: Option<&[char]>, what: &str) {
        match (self.disk(f), want) {
            (Some(b), Some(t)) => {
                let r = vp::same(&b, text::string(t).as_bytes());
                if !r && !vp::is_engine() {
                    eprintln!("{f}: {:?} instead of {:?}", String::from_utf8_lossy(&b), t);
                }
                vp::check(r, what)
            }
            (None, None) => {}
            (_d, _) => {
                if !vp::is_engine() {
                    eprintln!("{f}: {_d:?} instead of {want:?}");
                }
                vp::fail(what)
            }
        }
    }
    pub fn uri(&self, f: &str) -> String {
        format!("file://{}/{f}", self.base)
    }
}

/// What two connected daemons know of each other.
pub struct Link {
    pub here: State,
    pub there: State,
}

impl Link {
    pub fn new() -> Link {
        Link { here: State::new(), there: State::new() }
    }
}

/// Another daemon's document.
pub struct Peer {
    pub d: Document,
    near: State,
    far: State,
}

impl Peer {
    pub fn new() -> Peer {
        Peer { d: Document::default(), near: State::new(), far: State::new() }
    }
    pub fn texts(&self) -> BTreeMap<String, Text> {
        self.d
            .files()
            .iter()
            .map(|f| (f.to_string().trim_matches('\'').to_string(), text::chars(&self.d.current_file_content(f).expect("a shared file has a text"))))
            .collect()
    }
    pub fn text(&self, f: &str) -> Option<Text> {
        self.d.current_file_content(&rel(f)).ok().map(|s| text::chars(&s))
    }
    pub fn create(&mut self, f: &str, t: &[char]) {
        self.d.initialize_text(&text::string(t), &rel(f));
    }
    pub fn remove(&mut self, f: &str) {
        self.d.remove_text(&rel(f));
    }
    pub fn replace(&mut self, f: &str, from: usize, to: usize, s: &[char]) {
        self.d.apply_delta_to_doc(&text::delta(from, to, s), &rel(f));
    }
}

pub fn check_texts(a: &BTreeMap<String, Text>, b: &BTreeMap<String, Text>, what: &str) {
    let ka: Vec<_> = a.keys().collect();
    let kb: Vec<_> = b.keys().collect();
    if ka != kb && !vp::is_engine() {
        eprintln!("{a:?} {b:?}");
    }
    vp::check(ka == kb, what);
    for (k, t) in a {
        vp::check_same(&text::string(t), &text::string(&b[k]), what);
    }
}

/// An open file in an editor that follows the documented protocol.
#[derive(Clone, Default)]
pub struct Buffer {
    pub text: Text,
    pub sent: usize,
    pub seen: usize,
}

pub struct Editor {
    pub s: UnixStream,
    got: Vec<u8>,
    next: usize,
    /// notifications not yet looked at
    pub inbox: Vec<Value>,
    pub buffers: BTreeMap<String, Buffer>,
    pub cursors: Vec<Value>,
}

impl Editor {
    pub fn connect(w: &World) -> Editor {
        let s = UnixStream::connect(&w.sock).expect("connect");
        s.set_nonblocking(true).unwrap();
        w.pause();
        Editor { s, got: vec![], next: 1, inbox: vec![], buffers: BTreeMap::new(), cursors: vec![] }
    }
    pub fn write(&mut self, line: &str) {
        self.s.write_all(line.as_bytes()).expect("the daemon keeps the connection");
    }
    /// The complete lines received by now.
    pub fn lines(&mut self) -> Vec<String> {
        let mut buf = [0u8; 2048];
        loop {
            match self.s.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => self.got.extend_from_slice(&buf[..n]),
                Err(_) => break,
            }
        }
        let mut out = vec![];
        while let Some(i) = self.got.iter().position(|b| *b == b'\n') {
            let rest = self.got.split_off(i + 1);
            let mut line = std::mem::replace(&mut self.got, rest);
            line.pop();
            out.push(String::from_utf8(line).expect("lines to an editor are UTF-8"));
        }
        out
    }
    fn sort(&mut self, responses: &mut Vec<Value>) {
        for l in self.lines() {
            let v: Value = match serde_json::from_str(&l) {
                Ok(v) => v,
                Err(_) => vp::fail("every line to an editor is a JSON-RPC message"),
            };
            vp::check(v["jsonrpc"] == "2.0", "messages to an editor are JSON-RPC 2.0");
            if v.get("method").is_some() {
                self.inbox.push(v);
            } else {
                responses.push(v);
            }
        }
    }
    /// The responses that arrived; notifications go to the inbox.
    pub fn responses(&mut self) -> Vec<Value> {
        let mut r = vec![];
        self.sort(&mut r);
        r
    }
    /// Take in what arrived; there must be no response among it.
    pub fn poll(&mut self) {
        let mut r = vec![];
        self.sort(&mut r);
        vp::check(r.is_empty(), "there are no responses without a request");
    }
    /// Send a request and wait for its response: Ok or the error object.
    pub fn request(&mut self, w: &World, method: &str, params: Value) -> Result<(), Value> {
        let id = self.next;
        self.next += 1;
        let mut m = serde_json::Map::new();
        m.insert("jsonrpc".into(), "2.0".into());
        m.insert("id".into(), id.into());
        m.insert("method".into(), method.into());
        m.insert("params".into(), params);
        let line = serde_json::to_string(&Value::Object(m)).unwrap() + "\n";
        self.write(&line);
        w.pause();
        let mut r = vec![];
        self.sort(&mut r);
        vp::check(r.len() == 1, "a request gets exactly one response");
        vp::check(r[0]["id"] == json!(id), "a response carries the id of its request");
        match r[0].get("error") {
            Some(e) => Err(e.clone()),
            None => {
                vp::check(r[0].get("result").is_some(), "a response has a result or an error");
                Ok(())
            }
        }
    }
    pub fn open(&mut self, w: &World, f: &str) -> Result<(), Value> {
        // an editor shows what is in the file, or nothing if there is none
        let t = w.disk(f).map(|b| text::chars(&String::from_utf8(b).expect("text file"))).unwrap_or_default();
        let uri = w.uri(f);
        self.request(w, "open", json!({ "uri": uri }))?;
        self.buffers.insert(f.into(), Buffer { text: t, sent: 0, seen: 0 });
        Ok(())
    }
    pub fn close(&mut self, w: &World, f: &str) -> Result<(), Value> {
        let uri = w.uri(f);
        self.request(w, "close", json!({ "uri": uri }))?;
        self.forget(w, f);
        Ok(())
    }
    /// The file is not open any more; what was on its way does not matter.
    pub fn forget(&mut self, w: &World, f: &str) {
        self.buffers.remove(f);
        let uri = w.uri(f);
        self.inbox.retain(|m| m["method"] != "edit" || m["params"]["uri"] != json!(uri));
    }
    pub fn edit(&mut self, w: &World, f: &str, from: usize, to: usize, s: &[char]) -> Result<(), Value> {
        let b = self.buffers.get_mut(f).unwrap();
        let d = text::ranged(&b.text, from, to, s);
        b.text = text::replace(&b.text, from, to, s);
        b.sent += 1;
        let seen = b.seen;
        let uri = w.uri(f);
        self.request(w, "edit", json!({ "uri": uri, "revision": seen, "delta": d }))
    }
    pub fn cursor(&mut self, w: &World, f: &str, ranges: Value) -> Result<(), Value> {
        let uri = w.uri(f);
        self.request(w, "cursor", json!({ "uri": uri, "ranges": ranges }))
    }
    /// Process the notifications as the protocol says.
    pub fn digest(&mut self, w: &World) {
        self.poll();
        for m in std::mem::take(&mut self.inbox) {
            let p = &m["params"];
            if m["method"] == "edit" {
                let uri = p["uri"].as_str().expect("uri");
                let f = match uri.strip_prefix(&format!("file://{}/", w.base)) {
                    Some(f) => f.to_string(),
                    None => vp::fail("an edit names a file of the directory"),
                };
                let b = match self.buffers.get_mut(&f) {
                    Some(b) => b,
                    None => vp::fail("edits are only sent for open files"),
                };
                if p["revision"] != json!(b.sent) {
                    continue; // outdated, will be sent again
                }
                let d: EditorTextDelta = serde_json::from_value(p["delta"].clone()).expect("a delta");
                match text::apply_ranges(&b.text, &d) {
                    Some(t) => b.text = t,
                    None => vp::fail("an edit sent to an editor fits its buffer"),
                }
                b.seen += 1;
            } else {
                vp::check(m["method"] == "cursor", "messages to an editor are edits and cursors");
                self.cursors.push(p.clone());
            }
        }
    }
    pub fn text(&self, f: &str) -> Text {
        self.buffers[f].text.clone()
    }
}
