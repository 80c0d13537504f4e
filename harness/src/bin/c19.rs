//! C19: file URIs map to shared files and back without loss.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/vp.rs"]
mod vp;

use ethersync::editor_connection::EditorConnection;
use ethersync::path::RelativePath;
use ethersync::types::{ComponentMessage, EditorProtocolMessageFromEditor as From, EditorProtocolMessageToEditor as To};

const BASE: &str = "/v/b";

/// Lexical meaning of an absolute path: its components.
fn components(p: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    for c in p.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                out.pop();
            }
            c => out.push(c.to_vec()),
        }
    }
    out
}

/// The file a URI designates below the base directory, as the documentation has it.
fn expected(base: &str, uri: &[u8]) -> Option<Vec<u8>> {
    let p = uri.strip_prefix(b"file://")?;
    if p.first() != Some(&b'/') {
        return None;
    }
    let c = components(p);
    let b = components(base.as_bytes());
    if c.len() <= b.len() || c[..b.len()] != b[..] {
        return None;
    }
    Some(c[b.len()..].join(&b'/'))
}

fn messages(kind: usize, uri: String) -> From {
    match kind {
        0 => From::Cursor { uri, ranges: vec![] },
        _ => From::Close { uri },
    }
}

fn ask(base: &str, uri: &[u8]) {
    let want = expected(base, uri);
    let uri = match String::from_utf8(uri.to_vec()) {
        Ok(s) => s,
        Err(_) => vp::end(),
    };
    let mut c = EditorConnection::new("1".into(), base.into());
    let kind = vp::choice(2);
    let got = c.message_from_editor(&messages(kind, uri.clone()));
    let path = match &got {
        Ok((ComponentMessage::Cursor { file_path, .. }, _)) => Some(file_path.clone()),
        Ok((ComponentMessage::Close { file_path }, _)) => Some(file_path.clone()),
        Ok(_) => vp::fail("the message keeps its kind"),
        Err(_) => None,
    };
    match (path, want) {
        (None, None) => vp::cover(2),
        (Some(p), Some(want)) => {
            vp::cover(1);
            let want = String::from_utf8(want).unwrap();
            vp::check(p == RelativePath::new(&want), "a URI below the directory designates its relative path");
            // and back
            let m = c.message_from_daemon(&ComponentMessage::Cursor { cursor_id: "x".into(), name: None, file_path: p, ranges: vec![] });
            match &m[..] {
                [To::Cursor { uri: back, .. }] => {
                    let plain = format!("file://{base}/{want}");
                    vp::check_same(back, &plain, "a relative path is described by its URI");
                    if uri == plain {
                        vp::cover(3);
                    }
                }
                _ => vp::fail("a cursor reaches the editor"),
            }
        }
        (Some(_), None) => vp::fail("a URI that is not below the directory is refused"),
        (None, Some(_)) => vp::fail("a URI below the directory is accepted"),
    }
}

fn byte(kind: usize) -> u8 {
    // what matters in a path, and any other character
    match vp::choice([3, 4][kind]) {
        0 => b'/',
        1 => b'.',
        2 => vp::range(b'a', b'z'),
        _ => {
            let b = vp::u8();
            vp::assume(((b < 128) & (b != b'/') & (b != b'.') & !((b >= b'a') & (b <= b'z'))) as u8 == 1);
            b
        }
    }
}

/// Everything after the base directory.
fn below(n: usize, kind: usize) {
    let mut u = format!("file://{BASE}").into_bytes();
    for _ in 0..vp::choice(n + 1) {
        u.push(byte(kind));
    }
    ask(BASE, &u);
}
/// Any path at all.
fn path(n: usize) {
    let mut u = b"file://".to_vec();
    for _ in 0..vp::choice(n + 1) {
        match vp::choice(4) {
            0 => u.push(b'/'),
            1 => u.push(b'v'),
            2 => u.push(b'b'),
            _ => u.push(b'.'),
        }
    }
    ask(BASE, &u);
}
/// The beginning of the URI: any ASCII characters.
fn scheme() {
    let mut u = format!("file://{BASE}/f").into_bytes();
    let i = vp::choice(9);
    let cut = vp::choice(2);
    if cut == 1 {
        u.truncate(i);
    } else {
        u[i] = vp::u8();
        vp::assume(u[i] < 128);
    }
    ask(BASE, &u);
}
/// Names that are not ASCII, and names that look like something else.
fn names() {
    let name = ["é", "a b", "%20", "a%2Fb", "ü/ö", "日本", "a\nb", "#x", "?q", "😀", "a:b", "c\\d", "..a", "a..", "...", ".git", " ", "~"][vp::choice(18)];
    ask(BASE, format!("file://{BASE}/{name}").as_bytes());
    let base = ["/", "/v", "/v/b c", "/v/é", "/v/b/c/d"][vp::choice(5)];
    let sep = if base == "/" { "" } else { "/" };
    ask2(base, &format!("file://{base}{sep}{name}"));
}
fn ask2(base: &str, uri: &str) {
    if base == "/" {
        return;
    }
    ask(base, uri.as_bytes());
}

entries! {
    c19_below => below(5, 0);
    c19_any => below(4, 1);
    c19_path => path(7);
    c19_scheme => scheme();
    c19_names => names();
    c19_deep => below(7, 1);
}
