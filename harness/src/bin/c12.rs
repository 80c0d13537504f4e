//! C12: every editor request gets exactly one matching response.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/daemon.rs"]
mod daemon;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use daemon::*;
use ethersync::types::{EditorTextDelta, EditorTextOp, Position, Range};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use text::Text;

/// An editor that sends anything, a well-behaved one next to it, and a model
/// of what is shared.
struct Run {
    w: World,
    e: Editor,
    other: Editor,
    shared: BTreeMap<String, Text>,
    open: BTreeMap<String, Buffer>,
}

fn world() -> World {
    vp::seed(1);
    let base = prepare();
    std::fs::write(format!("{base}/f"), "x\ny").unwrap();
    std::fs::create_dir(format!("{base}/.git")).unwrap();
    std::fs::write(format!("{base}/.git/i"), "ii").unwrap();
    std::fs::create_dir(format!("{base}/d")).unwrap();
    World::start(&base, false, true, true)
}

const HUGE: usize = 1 << 63;

impl Run {
    fn new(open: bool) -> Run {
        let w = world();
        let e = Editor::connect(&w);
        let mut other = Editor::connect(&w);
        vp::check(other.open(&w, "f").is_ok(), "open");
        let mut r = Run { w, e, other, shared: BTreeMap::new(), open: BTreeMap::new() };
        r.shared.insert("f".into(), text::chars("x\ny"));
        if open {
            let ok = r.message(0, "f", "request");
            vp::check(ok == Some(true), "an open file can be opened by a second editor");
        }
        r
    }
    fn uri(&self, f: &str) -> String {
        match f {
            "/" => "file:///x".into(),
            "" => "f".into(),
            f => self.w.uri(f),
        }
    }
    /// Send a message of one kind; the outcome, None for a notification.
    fn message(&mut self, kind: usize, f: &str, how: &str) -> Option<bool> {
        let valid = f != "/" && !f.is_empty();
        let uri = self.uri(f);
        let mut edit = None;
        let (method, params, want) = match kind {
            0 => ("open", json!({ "uri": uri }), Some(valid && f != ".git/i" && f != "d" && f != "n/n")),
            1 => ("close", json!({ "uri": uri }), if valid { if self.open.contains_key(f) { Some(true) } else { None } } else { Some(false) }),
            2 => ("cursor", json!({ "uri": uri, "ranges": [] }), Some(valid)),
            3 => ("other", json!({ "uri": uri }), Some(false)),
            _ => {
                // an edit with any revision and any one or two ranges
                let b = self.open.get(f).cloned();
                let revision = [0, 1, 2, HUGE - 1 + HUGE][vp::choice(if kind == 4 { 3 } else { 4 })];
                let mut ops = vec![];
                for _ in 0..(if kind == 6 { 2 } else { 1 }) {
                    let mut pos = || Position { line: [0, 1, 2, HUGE][vp::choice(if kind == 5 { 4 } else { 2 })], character: [0, 1, 3, HUGE - 1 + HUGE][vp::choice(if kind == 5 { 4 } else { 2 })] };
                    let start = pos();
                    let end = if kind == 4 { Position { line: start.line, character: start.character } } else { pos() };
                    ops.push(EditorTextOp { range: Range { start, end }, replacement: text::plain().to_string() });
                }
                let d = EditorTextDelta(ops);
                let j = json!({ "uri": uri, "revision": revision, "delta": serde_json::to_value(&d).unwrap() });
                let want = match &b {
                    None => Some(false),
                    Some(b) if revision != b.seen => Some(false),
                    Some(b) => match fits(&b.text, &d) {
                        Fit::No => Some(false),
                        Fit::Unclear => None,
                        Fit::Yes(t) => {
                            edit = Some(t);
                            Some(true)
                        }
                    },
                };
                ("edit", j, want)
            }
        };
        let before = self.w.shared();
        let digit = vp::range(b'0', b'9');
        let id = [b'1', digit];
        let id = std::str::from_utf8(&id).unwrap();
        let mut line = String::from("{\"jsonrpc\":\"2.0\",");
        if how != "notification" {
            line += "\"id\":";
            line += id;
            line += ",";
        }
        line += &format!("\"method\":\"{method}\",\"params\":{}}}\n", serde_json::to_string(&params).unwrap());
        self.e.write(&line);
        self.w.pause();
        let responses = self.e.responses();
        let got = if how == "notification" && kind != 3 {
            vp::check(responses.is_empty(), "a notification gets no response");
            None
        } else {
            vp::check(responses.len() == 1, "a request gets exactly one response");
            let r = &responses[0];
            if kind == 3 {
                // not a message of the protocol
                vp::check(r["id"] == Value::Null, "an invalid message is answered with a null id");
            } else {
                let n: usize = 10 + (digit - b'0') as usize;
                vp::check(r["id"].as_u64() == Some(n as u64), "a response carries the id of its request");
            }
            vp::check(r.get("result").is_some() != r.get("error").is_some(), "a response has either a result or an error");
            Some(r.get("result").is_some())
        };
        if let (Some(g), Some(want)) = (got, want) {
            vp::check(g == want, "a request succeeds exactly if the operation can be carried out");
        }
        // effects
        if kind >= 4 && got.is_none() && want.is_none() {
            vp::end(); // the protocol does not define what this edit does
        }
        let carried = got.or(want);
        match (kind, carried) {
            (0, Some(true)) => {
                let on_disk = self.w.disk(f).map(|b| text::chars(&String::from_utf8(b).unwrap())).unwrap_or_default();
                self.shared.entry(f.into()).or_insert_with(|| on_disk.clone());
                self.open.insert(f.into(), Buffer { text: on_disk, sent: 0, seen: 0 });
            }
            (1, Some(true)) => {
                self.open.remove(f);
            }
            (4..=6, Some(true)) => {
                let b = self.open.get_mut(f).unwrap();
                match edit {
                    Some(t) => {
                        b.text = t;
                        b.sent += 1;
                        self.shared.insert(f.into(), b.text.clone());
                    }
                    None => vp::end(), // accepted at a position the protocol does not define
                }
            }
            (4..=6, Some(false)) => {
                let now = self.w.shared();
                check_texts(&before, &now, "a refused edit has no effect");
            }
            _ => {}
        }
        self.after();
        got
    }
    fn after(&mut self) {
        for m in std::mem::take(&mut self.e.inbox) {
            if m["method"] == "edit" {
                let uri = m["params"]["uri"].as_str().unwrap();
                let f = uri.rsplit('/').next().unwrap().to_string();
                let b = self.open.get_mut(&f).expect("open");
                let d: EditorTextDelta = serde_json::from_value(m["params"]["delta"].clone()).unwrap();
                if m["params"]["revision"] == json!(b.sent) {
                    b.text = text::apply_ranges(&b.text, &d).expect("edits fit");
                    b.seen += 1;
                }
            }
        }
        let now = self.w.shared();
        check_texts(&self.shared, &now, "the shared texts are as the accepted messages say");
        self.other.digest(&self.w);
        let t = self.other.text("f");
        vp::check_same(&text::string(&t), &text::string(&now["f"]), "another editor shows the shared text");
    }
}

enum Fit {
    Yes(Text),
    No,
    Unclear,
}
/// What an edit with these ranges makes of a text.
fn fits(t: &[char], d: &EditorTextDelta) -> Fit {
    let mut r: Vec<(usize, usize, &EditorTextOp)> = vec![];
    for op in &d.0 {
        match (text::offset(t, &op.range.start), text::offset(t, &op.range.end)) {
            (Some(a), Some(b)) => r.push((a.min(b), a.max(b), op)),
            _ => {
                // one past the end of a line is tolerated by some
                let past = |p: &Position| p.character > 0 && p.character < 5 && text::offset(t, p).is_none() && text::offset(t, &Position { line: p.line, character: p.character - 1 }).is_some();
                let bad = |p: &Position| text::offset(t, p).is_none() && !past(p);
                return if bad(&op.range.start) || bad(&op.range.end) { Fit::No } else { Fit::Unclear };
            }
        }
    }
    r.sort_by_key(|x| x.0);
    for p in r.windows(2) {
        if p[1].0 < p[0].1 {
            return Fit::No;
        }
        if p[1].0 == p[0].0 {
            return Fit::Unclear;
        }
    }
    let mut out = t.to_vec();
    for (a, b, op) in r.into_iter().rev() {
        out = text::replace(&out, a, b, &text::chars(&op.replacement));
    }
    Fit::Yes(out)
}

const TARGETS: [&str; 7] = ["f", "new", "", "/", ".git/i", "d", "n/n"];

fn messages(n: usize, open: bool, kinds: &[usize], targets: usize) {
    let mut r = Run::new(open);
    for _ in 0..n {
        let k = kinds[vp::choice(kinds.len())];
        let f = TARGETS[vp::choice(targets)];
        let how = if vp::flag() { "notification" } else { "request" };
        r.message(k, f, how);
    }
    vp::cover(1);
}

/// A line that is no message at all.
fn raw(n: usize) {
    let w = world();
    let mut e = Editor::connect(&w);
    let mut line = vec![];
    for _ in 0..n {
        let b = vp::u8();
        vp::assume((b < 0x80) as u8 & (b != b'\n') as u8 & (b != b'\r') as u8 == 1);
        line.push(b);
    }
    line.push(b'\n');
    e.write(std::str::from_utf8(&line).unwrap());
    w.pause();
    let r = e.responses();
    vp::check(r.len() == 1, "an invalid line gets exactly one response");
    vp::check(r[0]["id"] == Value::Null && r[0].get("id").is_some(), "an invalid line is answered with a null id");
    vp::check(r[0].get("error").is_some() && r[0].get("result").is_none(), "an invalid line is answered with an error");
    vp::check(e.open(&w, "f").is_ok(), "the connection stays usable");
    vp::cover(1);
}

/// A message with one arbitrary byte in place of one of its own.
fn damaged(message: &str) {
    let w = world();
    let mut e = Editor::connect(&w);
    let uri = w.uri("f");
    let mut line: Vec<u8> = message.replace("URI", &uri).into_bytes();
    let at = vp::choice(line.len());
    let b = vp::u8();
    vp::assume((b < 0x80) as u8 & (b != b'\n') as u8 & (b != b'\r') as u8 == 1);
    line[at] = b;
    line.push(b'\n');
    e.write(std::str::from_utf8(&line).unwrap());
    w.pause();
    let r = e.responses();
    vp::check(r.len() <= 1, "a line gets at most one response");
    if let Some(r) = r.first() {
        vp::check(r.get("result").is_some() != r.get("error").is_some(), "a response has either a result or an error");
        vp::check(r["id"] == json!(7) || r["id"] == Value::Null || r["id"].as_u64().is_some(), "a response has an id");
        vp::cover(1);
    }
    let shared = w.shared();
    vp::check(shared.contains_key("f"), "the file stays shared");
    vp::check(e.open(&w, "f").is_ok(), "the connection stays usable");
}

/// Requests arrive in pieces, or several at once.
fn pieces() {
    let w = world();
    let mut e = Editor::connect(&w);
    let uri = w.uri("f");
    let lines = format!(
        "{{\"jsonrpc\":\"2.0\",\"id\":5,\"method\":\"open\",\"params\":{{\"uri\":\"{uri}\"}}}}\n{{\"id\":6,\"method\":\"cursor\",\"params\":{{\"uri\":\"{uri}\",\"ranges\":[]}}}}\r\n{{\"jsonrpc\":\"2.0\",\"id\":4,\"method\":\"close\",\"params\":{{\"uri\":\"{uri}\"}}}}\n"
    );
    let a = vp::choice(lines.len() + 1);
    let b = a + [0, 1, 2, 60, 90][vp::choice(5)].min(lines.len() - a);
    for piece in [&lines[..a], &lines[a..b], &lines[b..]] {
        e.write(piece);
        w.pause();
    }
    let r = e.responses();
    let ids: Vec<_> = r.iter().map(|r| r["id"].clone()).collect();
    vp::check(ids == [json!(5), json!(6), json!(4)], "each request gets its response, in order");
    vp::check(r.iter().all(|r| r["result"] == "success"), "the requests succeed");
    vp::cover(1);
}

/// An editor goes away at any moment.
fn leave(n: usize) {
    let w = world();
    let mut other = Editor::connect(&w);
    vp::check(other.open(&w, "f").is_ok(), "open");
    let mut e = Editor::connect(&w);
    let uri = w.uri("f");
    let zero = json!({"line": 0, "character": 0});
    let mut sent = 0;
    let mut edits = 0;
    for i in 0..n {
        let m = match vp::choice(5) {
            0 => json!({"id": i, "method": "open", "params": {"uri": uri}}),
            1 => json!({"id": i, "method": "cursor", "params": {"uri": uri, "ranges": [{"start": zero, "end": zero}]}}),
            2 => json!({"id": i, "method": "close", "params": {"uri": uri}}),
            3 => json!({"id": i, "method": "edit", "params": {"uri": uri, "revision": 0, "delta": [{"range": {"start": zero, "end": zero}, "replacement": "z"}]}}),
            _ => break,
        };
        edits += (m["method"] == "edit") as usize;
        let line = serde_json::to_string(&m).unwrap() + "\n";
        e.write(&line);
        sent += 1;
        if vp::flag() {
            w.pause();
        }
    }
    if vp::flag() {
        e.write("{\"id\":1");
    }
    // the other one may type meanwhile
    let busy = vp::flag();
    if busy {
        let _ = other.s.set_nonblocking(true);
        other.write(&(serde_json::to_string(&json!({"id": 77, "method": "edit", "params": {"uri": uri, "revision": 0, "delta": [{"range": {"start": zero, "end": zero}, "replacement": "q"}]}})).unwrap() + "\n"));
        other.buffers.get_mut("f").unwrap().sent += 1;
        let t = other.text("f");
        other.buffers.get_mut("f").unwrap().text = text::replace(&t, 0, 0, &['q']);
    }
    drop(e);
    w.pause();
    w.pause();
    let r = other.responses();
    vp::check(r.len() == busy as usize, "the other editor gets its own responses only");
    other.digest(&w);
    let now = w.shared();
    vp::check_same(&text::string(&other.text("f")), &text::string(&now["f"]), "the other editor shows the shared text");
    vp::check(now["f"].len() <= 3 + busy as usize + edits && now["f"].len() >= 3 + busy as usize, "what was shared stays");
    vp::check(other.edit(&w, "f", 0, 0, &['w']).is_ok(), "the other editor can go on");
    let mut again = Editor::connect(&w);
    vp::check(again.open(&w, "f").is_ok(), "an editor can connect again");
    if sent > 0 {
        vp::cover(1);
    }
}

entries! {
    c12_one => messages(1, true, &[0, 1, 2, 3, 4], 7);
    c12_edits => messages(1, true, &[5, 6], 1);
    c12_two => messages(2, false, &[0, 1, 2, 4], 2);
    c12_three => messages(3, false, &[0, 1, 4], 2);
    c12_raw => raw(2);
    c12_raw_more => raw(3);
    c12_damaged_open => damaged("{\"id\":7,\"method\":\"open\",\"params\":{\"uri\":\"URI\"}}");
    c12_damaged_cursor => damaged("{\"id\":7,\"method\":\"cursor\",\"params\":{\"uri\":\"URI\",\"ranges\":[{\"start\":{\"line\":0,\"character\":1},\"end\":{\"line\":0,\"character\":1}}]}}");
    c12_pieces => pieces();
    c12_leave => leave(2);
    c12_leave_more => leave(3);
    c12_any => messages(1, true, &[0, 1, 2, 3, 4, 5, 6], 7);
    c12_deep => messages(3, false, &[0, 1, 2, 4, 6], 3);
}
