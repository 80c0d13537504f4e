//! C06: the daemon never touches anything outside the shared directory.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/daemon.rs"]
mod daemon;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use daemon::*;
use ethersync::sandbox;
use serde_json::json;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::symlink;
use std::path::Path;

/// base/{a, d/{b}, l..} next to things that must stay as they are.
fn tree() -> (String, String) {
    let base = prepare();
    let top = base.strip_suffix("/base").unwrap().to_string();
    fs::write(format!("{base}/a"), "aa").unwrap();
    fs::create_dir(format!("{base}/d")).unwrap();
    fs::write(format!("{base}/d/b"), "bb").unwrap();
    fs::write(format!("{top}/secret"), "ss").unwrap();
    fs::create_dir(format!("{top}/base2")).unwrap();
    fs::write(format!("{top}/base2/s"), "s2").unwrap();
    fs::create_dir(format!("{top}/o")).unwrap();
    fs::write(format!("{top}/o/b"), "ob").unwrap();
    (base, top)
}
const LINKS: usize = 10;
/// A symbolic link named "l" in the directory.
fn link(base: &str, top: &str, k: usize) {
    let to = match k {
        0 => return,
        1 => format!("{top}/o"),            // directory outside
        2 => format!("{top}/secret"),       // file outside
        3 => format!("{top}/nothing"),      // nothing, outside
        4 => "../o".into(),                 // relative, outside
        5 => "../base2/new".into(),         // nothing, outside, relative
        6 => format!("{base}/d"),           // directory inside
        7 => "a".into(),                    // file inside
        8 => "l".into(),                    // itself
        _ => "d/new".into(),                // nothing, inside
    };
    symlink(to, format!("{base}/l")).unwrap();
}

type Snap = BTreeMap<String, Vec<u8>>;
fn walk(dir: &str, rel: &str, skip: &str, out: &mut Snap) {
    let mut names: Vec<String> = fs::read_dir(format!("{dir}/{rel}")).unwrap().map(|e| e.unwrap().file_name().to_str().unwrap().to_string()).collect();
    names.sort();
    for n in names {
        let r = if rel.is_empty() { n.clone() } else { format!("{rel}/{n}") };
        if r == skip {
            continue;
        }
        let p = format!("{dir}/{r}");
        let m = fs::symlink_metadata(&p).unwrap();
        if m.is_dir() {
            out.insert(r.clone(), b"dir".to_vec());
            walk(dir, &r, skip, out);
        } else if m.is_file() {
            out.insert(r, [b"file:".to_vec(), fs::read(&p).unwrap()].concat());
        } else if m.file_type().is_symlink() {
            out.insert(r, [b"link:".to_vec(), fs::read_link(&p).unwrap().to_str().unwrap().into()].concat());
        }
    }
}
fn outside(top: &str) -> Snap {
    let mut s = Snap::new();
    walk(top, "", "base", &mut s);
    s.remove("run-base");
    s.remove("run-base/ethersync");
    s
}
fn inside(base: &str) -> Snap {
    let mut s = Snap::new();
    walk(base, "", ".ethersync", &mut s);
    s
}

const PARTS: [&str; 8] = ["a", "d", "l", "b", "n", "..", ".", ""];
/// The path that components lead to, without looking at links.
fn lexical(parts: &[&str]) -> Option<Vec<String>> {
    let mut out: Vec<String> = vec![];
    for p in parts {
        match *p {
            "" | "." => {}
            ".." => {
                out.pop()?;
            }
            p => out.push(p.into()),
        }
    }
    Some(out)
}

/// One operation on one path.
fn op(n: usize, links: bool, ops: usize) {
    let (base, top) = tree();
    let k = if links { vp::choice(LINKS) } else { 0 };
    link(&base, &top, k);
    let prefix = match vp::choice(4) {
        0 | 1 => base.clone(),
        2 => format!("{top}/base2"),
        _ => format!("{base}/../o"),
    };
    let parts: Vec<&str> = (0..n).map(|_| PARTS[vp::choice(PARTS.len())]).collect();
    let path = format!("{prefix}/{}", parts.join("/"));
    vp::note(&path);
    let o = vp::choice(ops);
    let (out0, in0) = (outside(&top), inside(&base));
    let b = Path::new(&base);
    let p = Path::new(&path);
    let content = [text::plain() as u8];
    let plain = prefix == base && !(k != 0 && parts.contains(&"l"));
    let target = if prefix == base { lexical(&parts) } else { None };
    let mut want = in0.clone();
    let mut must = None; // Some(ok): what the operation has to do
    let key = target.as_ref().map(|t| t.join("/")).unwrap_or_default();
    let parent_ok = target.as_ref().map_or(false, |t| t.len() == 1 || (t.len() > 1 && in0.get(&t[..t.len() - 1].join("/")).map_or(false, |v| v == b"dir")));
    let kind = in0.get(&key).map(|v| v.split(|b| *b == b':').next().unwrap().to_vec());
    let is_file = kind.as_deref() == Some(b"file");
    let slash = matches!(parts.last(), Some(&"") | Some(&".") | Some(&".."));
    let outcome: Result<Option<Vec<u8>>, ()> = match o {
        0 => {
            must = Some(is_file);
            sandbox::read_file(b, p).map(Some).map_err(|_| ())
        }
        1 => {
            if parent_ok && (kind.is_none() || is_file) {
                must = Some(true);
                want.insert(key.clone(), [b"file:".to_vec(), content.to_vec()].concat());
            }
            sandbox::write_file(b, p, &content).map(|_| None).map_err(|_| ())
        }
        2 => {
            if is_file {
                must = Some(true);
                want.get_mut(&key).unwrap().extend_from_slice(&content);
            }
            sandbox::append_file(b, p, &content).map(|_| None).map_err(|_| ())
        }
        3 => {
            if is_file {
                must = Some(true);
                want.remove(&key);
            }
            sandbox::remove_file(b, p).map(|_| None).map_err(|_| ())
        }
        4 => {
            if parent_ok && kind.is_none() {
                must = Some(true);
                want.insert(key.clone(), b"dir".to_vec());
            }
            sandbox::create_dir(b, p).map(|_| None).map_err(|_| ())
        }
        5 => {
            if let Some(t) = &target {
                let mut ok = true;
                for i in 1..=t.len() {
                    let q = t[..i].join("/");
                    match in0.get(&q) {
                        None => {
                            want.insert(q, b"dir".to_vec());
                        }
                        Some(v) => ok &= v == b"dir",
                    }
                }
                if ok {
                    must = Some(true);
                } else {
                    want = in0.clone();
                }
            }
            sandbox::create_dir_all(b, p).map(|_| None).map_err(|_| ())
        }
        6 => match sandbox::exists(b, p) {
            Ok(x) => {
                if plain && target.is_some() {
                    vp::check(x == (kind.is_some() || key.is_empty()), "existence is reported as it is");
                }
                if prefix != base && plain {
                    vp::check(false, "existence outside is not reported");
                }
                Ok(None)
            }
            Err(_) => Err(()),
        },
        7 => {
            if is_file {
                must = Some(true);
                let v = want.remove(&key).unwrap();
                want.insert("moved".into(), v);
            }
            sandbox::rename_file(b, p, &b.join("moved")).map(|_| None).map_err(|_| ())
        }
        8 => {
            if parent_ok && kind.is_none() {
                must = Some(true);
                let v = want.remove("a").unwrap();
                want.insert(key.clone(), v);
            }
            sandbox::rename_file(b, &b.join("a"), p).map(|_| None).map_err(|_| ())
        }
        _ => {
            let _ = sandbox::ignored(b, p);
            Ok(None)
        }
    };
    vp::check(outside(&top) == out0, "nothing outside the directory changes");
    let in1 = inside(&base);
    if outcome.is_err() {
        vp::check(in1 == in0, "a refused operation has no effect");
    }
    if let Ok(Some(bytes)) = &outcome {
        let secret = bytes == b"ss" || bytes == b"s2" || bytes == b"ob";
        vp::check(!secret, "nothing outside the directory is read");
    }
    if prefix != base && o != 9 && lexical(&parts).is_some() {
        // base2/.. and o/.. can lead back to the directory's parent, never into it
        vp::check(outcome.is_err(), "a path outside the directory is refused");
    }
    if plain && !slash && !parts.contains(&"") {
        if let (Some(must), false) = (must, key.is_empty()) {
            vp::check(outcome.is_ok() == must, "an operation inside the directory is carried out");
            if must {
                vp::cover(1);
                vp::check(in1 == want, "an operation has its effect on exactly the requested path");
                if let (0, Ok(Some(bytes))) = (o, &outcome) {
                    vp::check(in0[&key][5..] == bytes[..], "a file is read as it is");
                }
            }
        }
    }
    vp::cover(2);
}

/// What an operation reports does not depend on anything outside.
fn blind(n: usize) {
    let (base, top) = tree();
    link(&base, &top, vp::choice(LINKS));
    let parts: Vec<&str> = (0..n).map(|_| PARTS[vp::choice(PARTS.len())]).collect();
    let path = format!("{base}/{}", parts.join("/"));
    vp::note(&path);
    let (b, p) = (Path::new(&base), Path::new(&path));
    let look = || (sandbox::read_file(b, p).ok(), sandbox::exists(b, p).ok(), sandbox::ignored(b, p).ok());
    let before = look();
    fs::remove_file(format!("{top}/secret")).unwrap();
    fs::remove_file(format!("{top}/o/b")).unwrap();
    for f in ["a", "b", "n", "nothing", "o/a", "o/n", "base2/new"] {
        fs::write(format!("{top}/{f}"), "new").unwrap();
    }
    fs::create_dir(format!("{top}/d")).unwrap();
    vp::check(look() == before, "what is reported does not depend on what is outside the directory");
    vp::cover(1);
}

const NAMES: [&str; 13] = ["../new", "../secret", "/abs", "d/../../new", "l/new", "l", "l/b", "n/m/../x", "../base2/s", "d/../../base/ok", ".", "n/../../new", "..l/../../secret"];

/// A peer shares, edits or removes files with names of its choosing.
fn peer(parts: usize) {
    let (base, top) = tree();
    let k = vp::choice(LINKS);
    link(&base, &top, k);
    vp::seed(1);
    let w = World::start(&base, false, true, false);
    let mut p = Peer::new();
    w.sync(&mut p);
    let name = if parts == 0 {
        let name = NAMES[vp::choice(NAMES.len())];
        if name == "/abs" { format!("{top}/abs") } else { name.to_string() }
    } else {
        let p = if vp::flag() { format!("{top}/") } else { String::new() };
        p + &(0..parts).map(|_| PARTS[vp::choice(PARTS.len())]).collect::<Vec<_>>().join("/")
    };
    vp::note(&name);
    let out0 = outside(&top);
    p.create(&name, &[text::letter()]);
    if parts > 0 || vp::flag() {
        w.sync(&mut p);
        vp::check(outside(&top) == out0, "nothing outside the directory changes");
        if parts == 0 && vp::flag() {
            p.replace(&name, 0, 1, &[text::letter(), 'x']);
            w.sync(&mut p);
            vp::check(outside(&top) == out0, "nothing outside the directory changes");
        }
        p.remove(&name);
    }
    w.sync(&mut p);
    vp::check(outside(&top) == out0, "nothing outside the directory changes");
    // the daemon is still there
    p.create("fine", &['f']);
    w.sync(&mut p);
    w.check_disk("fine", Some(&['f']), "other files are still written");
    vp::cover(1);
}

/// An editor names files of its choosing.
fn editor(parts: usize) {
    let (base, top) = tree();
    let k = vp::choice(LINKS);
    link(&base, &top, k);
    vp::seed(1);
    let w = World::start(&base, false, true, true);
    let mut e = Editor::connect(&w);
    let mut outer = vec!["../new", "../secret", "/abs", "d/../../new", "../base2/s", "n/../../new", "..l/../../secret"];
    let name = if parts == 0 {
        NAMES[vp::choice(NAMES.len())].to_string()
    } else {
        let p: Vec<&str> = (0..parts).map(|_| PARTS[vp::choice(PARTS.len())]).collect();
        if lexical(&p).is_none() {
            // leaves the directory, and comes back at most into its parent
            outer.clear();
        }
        p.join("/")
    };
    if parts > 0 && outer.is_empty() {
        outer.push(&name);
    }
    let uri = if name == "/abs" { format!("file://{top}/abs") } else { format!("file://{base}/{name}") };
    vp::note(&uri);
    let out0 = outside(&top);
    let lexically_outside = outer.contains(&name.as_str());
    let inside_ok = k == 6 && name == "l/new" || name == "d/../../base/ok";
    let zero = json!({"line": 0, "character": 0});
    let r = e.request(&w, "open", json!({ "uri": uri }));
    vp::check(outside(&top) == out0, "nothing outside the directory changes");
    if lexically_outside {
        vp::check(r.is_err(), "opening a file outside the directory is refused");
    }
    if inside_ok {
        vp::check(r.is_ok(), "opening a file inside the directory works");
    }
    let q = e.request(&w, "edit", json!({ "uri": uri, "revision": 0, "delta": [{"range": {"start": zero, "end": zero}, "replacement": "x"}]}));
    vp::check(q.is_ok() == r.is_ok(), "only an open file can be edited");
    let _ = e.request(&w, "close", json!({ "uri": uri }));
    vp::check(outside(&top) == out0, "nothing outside the directory changes");
    for (_, t) in w.shared() {
        let s = text::string(&t);
        vp::check(!["ss", "s2", "ob", "xss", "xs2", "xob"].contains(&s.as_str()), "nothing outside the directory is shared");
    }
    if r.is_ok() {
        vp::cover(1);
    } else {
        vp::cover(2);
    }
}

entries! {
    c06_plain => op(3, false, 10);
    c06_links => op(2, true, 10);
    c06_peer => peer(0);
    c06_editor => editor(0);
    c06_peer_any => peer(2);
    c06_editor_any => editor(2);
    c06_blind => blind(3);
    c06_deep => op(3, true, 10);
    c06_peer_deep => peer(3);
    c06_editor_deep => editor(3);
}
