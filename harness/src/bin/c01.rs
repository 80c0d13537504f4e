//! C01: the editor and the daemon converge under every interleaving.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use ethersync::editor_connection::EditorConnection;
use ethersync::ot::OTServer;
use ethersync::path::RelativePath;
use ethersync::types::{
    ComponentMessage, EditorProtocolMessageFromEditor, EditorProtocolMessageToEditor, EditorTextDelta,
    RevisionedEditorTextDelta, TextDelta,
};
use std::collections::VecDeque;
use text::Text;

/// What edits look like.
#[derive(Clone, Copy)]
struct Edits {
    /// longest deletion
    delete: usize,
    /// longest insertion
    insert: usize,
    newlines: bool,
    wide: bool,
    /// remote changes may consist of two separate parts
    parts: bool,
    /// edits may leave the text as it is
    nothing: bool,
}
const PLAIN: Edits = Edits { delete: 1, insert: 1, newlines: true, wide: false, parts: false, nothing: false };

fn inserted(k: Edits, empty_too: bool) -> Text {
    let lo = if empty_too { 0 } else { 1 };
    let n = lo + vp::choice(k.insert + 1 - lo);
    (0..n)
        .map(|_| {
            if k.wide {
                text::character(2)
            } else if k.newlines {
                text::character(0)
            } else {
                text::letter()
            }
        })
        .collect()
}
/// One edit of `t`: (from, to, inserted).
fn edit(t: &[char], k: Edits) -> (usize, usize, Text) {
    let from = vp::choice(t.len() + 1);
    let to = from + vp::choice((t.len() - from).min(k.delete) + 1);
    (from, to, inserted(k, from != to || k.nothing))
}
/// A remote change: its delta and the text it leads to.
fn change(t: &[char], k: Edits) -> (TextDelta, Text) {
    let (a, b, s) = edit(t, k);
    let mut d = text::delta(a, b, &s);
    let mut out = t[..a].to_vec();
    out.extend_from_slice(&s);
    let mut rest = b;
    if k.parts && b < t.len() && vp::flag() {
        let a2 = b + 1 + vp::choice(t.len() - b);
        let b2 = a2 + vp::choice((t.len() - a2).min(k.delete) + 1);
        let s2 = inserted(k, a2 != b2);
        d.retain(a2 - b);
        d.delete(b2 - a2);
        d.insert(&text::string(&s2));
        out.extend_from_slice(&t[b..a2]);
        out.extend_from_slice(&s2);
        rest = b2;
    }
    out.extend_from_slice(&t[rest..]);
    (d, out)
}

/// The daemon's side of one open file.
enum Side {
    Ot(OTServer),
    Connection(EditorConnection, String),
}
type Rev = (usize, EditorTextDelta);
impl Side {
    fn from_editor(&mut self, revision: usize, delta: EditorTextDelta) -> (TextDelta, Vec<Rev>) {
        match self {
            Side::Ot(ot) => {
                let (d, to) = ot.apply_editor_operation(RevisionedEditorTextDelta { revision, delta });
                (d, to.into_iter().map(|r| (r.revision, r.delta)).collect())
            }
            Side::Connection(c, uri) => {
                let m = EditorProtocolMessageFromEditor::Edit { uri: uri.clone(), revision, delta };
                match c.message_from_editor(&m) {
                    Ok((ComponentMessage::Edit { file_path, delta }, to)) => {
                        vp::check(file_path == RelativePath::new("f"), "an edit reaches the file it is for");
                        (delta, to.into_iter().map(|m| out(m, uri)).collect())
                    }
                    _ => vp::fail("an edit of an open file is accepted"),
                }
            }
        }
    }
    fn from_shared(&mut self, d: &TextDelta) -> Vec<Rev> {
        match self {
            Side::Ot(ot) => {
                let r = ot.apply_crdt_change(d);
                vec![(r.revision, r.delta)]
            }
            Side::Connection(c, uri) => {
                let m = ComponentMessage::Edit { file_path: RelativePath::new("f"), delta: d.clone() };
                c.message_from_daemon(&m).into_iter().map(|m| out(m, uri)).collect()
            }
        }
    }
}
fn out(m: EditorProtocolMessageToEditor, uri: &str) -> Rev {
    match m {
        EditorProtocolMessageToEditor::Edit { uri: u, revision, delta } => {
            vp::check(u == uri, "an edit for the editor names the file");
            (revision, delta)
        }
        _ => vp::fail("only edits are sent for edits"),
    }
}

fn run(len: usize, n_editor: usize, n_remote: usize, k: Edits, connection: bool) {
    let len = vp::choice(len + 1);
    let mut shared = text::text(len, if k.wide { 2 } else { 0 });
    let mut buffer = shared.clone();
    let mut side = if connection {
        let dir = vp::scratch();
        let path = format!("{dir}/f");
        std::fs::write(&path, text::string(&shared)).unwrap();
        let mut c = EditorConnection::new("1".into(), dir.into());
        let uri = format!("file://{path}");
        let r = c.message_from_editor(&EditorProtocolMessageFromEditor::Open { uri: uri.clone() });
        vp::check(r.is_ok(), "an existing file can be opened");
        Side::Connection(c, uri)
    } else {
        Side::Ot(OTServer::new(text::string(&shared)))
    };
    let (mut ne, mut nr) = (n_editor, n_remote);
    let (mut editor_rev, mut daemon_rev) = (0usize, 0usize);
    let mut up: VecDeque<Rev> = VecDeque::new();
    let mut down: VecDeque<Rev> = VecDeque::new();
    // Events of the editor and of the daemon commute; only orders in which an
    // editor event does not directly follow a daemon event that did not enable
    // it are explored.
    let mut last_daemon = false;
    let mut down_before = true;
    loop {
        let editor_edit = ne > 0 && !last_daemon;
        let editor_recv = !down.is_empty() && !(last_daemon && down_before);
        let daemon_recv = !up.is_empty();
        let daemon_change = nr > 0;
        let mut options = vec![];
        if editor_edit {
            options.push(0);
        }
        if editor_recv {
            options.push(1);
        }
        if daemon_recv {
            options.push(2);
        }
        if daemon_change {
            options.push(3);
        }
        if options.is_empty() {
            if !down.is_empty() || ne > 0 {
                // only reachable in an order that is explored elsewhere
                vp::end();
            }
            break;
        }
        match options[vp::choice(options.len())] {
            0 => {
                ne -= 1;
                let (a, b, s) = edit(&buffer, k);
                vp::note("editor changes its buffer");
                up.push_back((daemon_rev, text::ranged(&buffer, a, b, &s)));
                buffer = text::replace(&buffer, a, b, &s);
                editor_rev += 1;
                last_daemon = false;
            }
            1 => {
                let (revision, delta) = down.pop_front().unwrap();
                vp::note("editor receives an edit");
                if revision == editor_rev {
                    match text::apply_ranges(&buffer, &delta) {
                        Some(t) => buffer = t,
                        None => vp::fail("an edit sent to the editor fits its buffer"),
                    }
                    daemon_rev += 1;
                }
                last_daemon = false;
            }
            2 => {
                down_before = !down.is_empty();
                let (revision, delta) = up.pop_front().unwrap();
                vp::note("daemon receives an edit from the editor");
                let (d, to_editor) = side.from_editor(revision, delta);
                match text::apply(&shared, &d) {
                    Some(t) => shared = t,
                    None => vp::fail("a delta for the shared text fits it"),
                }
                down.extend(to_editor);
                last_daemon = true;
            }
            _ => {
                down_before = !down.is_empty();
                nr -= 1;
                let (d, new) = change(&shared, k);
                vp::note("the shared text changes");
                shared = new;
                down.extend(side.from_shared(&d));
                last_daemon = true;
            }
        }
    }
    vp::cover(1);
    let s = text::string(&shared);
    if let Side::Ot(ot) = &mut side {
        vp::check_same(&ot.current_content(), &s, "the daemon's view of the file equals the shared text");
    }
    vp::check_same(&text::string(&buffer), &s, "the editor's buffer equals the shared text");
}

entries! {
    c01_wide => run(2, 1, 1, Edits { delete: 2, wide: true, ..PLAIN }, false);
    c01_parts => run(3, 1, 1, Edits { parts: true, newlines: false, ..PLAIN }, false);
    c01_pair => run(2, 1, 1, Edits { delete: 2, insert: 2, wide: true, parts: true, ..PLAIN }, false);
    c01_span => run(3, 1, 1, Edits { delete: 3, insert: 2, newlines: false, ..PLAIN }, false);
    c01_local => run(2, 2, 1, PLAIN, false);
    c01_remote => run(2, 1, 2, PLAIN, false);
    c01_connection => run(2, 1, 1, Edits { delete: 2, ..PLAIN }, true);
    c01_connection2 => run(1, 2, 1, PLAIN, true);
    c01_queue => run(1, 1, 3, Edits { newlines: false, ..PLAIN }, false);
    c01_burst => run(1, 3, 1, Edits { newlines: false, ..PLAIN }, false);
    c01_nothing => run(1, 2, 1, Edits { newlines: false, nothing: true, ..PLAIN }, true);
    c01_nothing2 => run(1, 1, 2, Edits { newlines: false, nothing: true, ..PLAIN }, false);
    c01_both => run(1, 2, 2, PLAIN, false);
    c01_deep => run(2, 2, 2, PLAIN, false);
}
