//! C07: ignored files are never shared, all others are.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/daemon.rs"]
mod daemon;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use daemon::*;
use ethersync::daemon::DocMessage;
use ethersync::watcher::Watcher;
use std::path::Path;

const FILES: [&str; 16] = [
    "a", "i", "d/i", "d/b", "x.o", "d/x.o", "n~", "d/n~", ".git/c", "d/.git/c", ".ethersync/c", ".h", "n~x", ".gitx", "d/.ethersync/c", "~",
];

/// What there is to say about ignored files: where it is said, what it is.
const RULES: [&[(&str, &str)]; 12] = [
    &[],
    &[(".gitignore", "i\n")],
    &[(".gitignore", "/i\n")],
    &[(".gitignore", "d/\n")],
    &[(".gitignore", "*.o\n")],
    &[(".gitignore", "*.o\n!x.o\n")],
    &[(".gitignore", "d/i\n")],
    &[("d/.gitignore", "i\n")],
    &[(".gitignore", "i\n"), ("d/.gitignore", "!i\n")],
    &[(".git/info/exclude", "i\n")],
    &[(".gitignore", "# i\n\n*.o  \n")],
    &[(".gitignore", "*\n!*.o\n!.gitignore\n!d/\n")],
];

/// The rules as the documentation of git explains them.
fn ruled(rule: usize, f: &str) -> bool {
    let name = f.rsplit('/').next().unwrap();
    let in_d = f.starts_with("d/");
    match rule {
        1 | 9 => name == "i",
        2 => f == "i",
        3 => in_d,
        4 | 10 => name.ends_with(".o"),
        6 => f == "d/i",
        7 => f == "d/i",
        8 => f == "i",
        11 => !name.ends_with(".o") && name != ".gitignore",
        _ => false,
    }
}

fn ignored(git: bool, rule: usize, f: &str) -> bool {
    f.split('/').any(|c| c == ".git" || c == ".ethersync") || f.ends_with('~') || (git && ruled(rule, f))
}

fn put(base: &str, f: &str, t: &[u8]) {
    let p = format!("{base}/{f}");
    std::fs::create_dir_all(Path::new(&p).parent().unwrap()).unwrap();
    std::fs::write(&p, t).unwrap();
}

fn content() -> Vec<u8> {
    match vp::choice(2) {
        0 => vec![],
        _ => vec![vp::range(b'a', b'd'), vp::range(b'a', b'd')],
    }
}

fn run(files: &[usize], rules: &[usize], routes: &[usize]) {
    vp::seed(1);
    let f = FILES[files[vp::choice(files.len())]];
    let rule = rules[vp::choice(rules.len())];
    let route = routes[vp::choice(routes.len())];
    // without a repository, there is nothing that version control ignores
    let mut git = rule != 0 && vp::flag();
    if f.starts_with("d/.git/") && rule != 0 {
        vp::end(); // another repository inside of this one
    }
    let in_dir = f.contains('/');
    if route >= 8 && !in_dir {
        vp::end();
    }
    let base = prepare();
    let out = format!("{base}/../out");
    let _ = std::fs::create_dir(&out);
    if git {
        let _ = std::fs::create_dir(format!("{base}/.git"));
    }
    for (p, t) in RULES[rule] {
        if p.starts_with(".git/") && !git {
            vp::end();
        }
        if route >= 8 && p.starts_with("d/") {
            vp::end();
        }
        put(&base, p, t.as_bytes());
    }
    git |= f.starts_with(".git/");
    let c = content();
    let full = format!("{base}/{f}");
    let dir = Path::new(&full).parent().unwrap().to_path_buf();
    if route < 8 && vp::flag() {
        // its directory is there already
        if !in_dir {
            vp::end();
        }
        std::fs::create_dir_all(&dir).unwrap();
    }
    match route {
        0 | 3 | 9 => put(&base, f, &c),
        2 => put(&base, f, b"zz"),
        5 => put(&base, "z", &c),
        7 => {
            let w = World::start(&base, false, true, false);
            w.send(DocMessage::Persist);
            drop(w);
            put(&base, f, &c);
        }
        _ => {}
    }
    let editor = route == 3 || route == 4;
    let watch = [1, 2, 5, 6, 8, 9].contains(&route);
    let w = World::start(&base, route == 0 && vp::flag(), true, editor);
    if watch {
        let h = w.h.clone();
        let _g = w.rt.enter();
        let mut watcher = Watcher::new(Path::new(&base));
        tokio::spawn(async move {
            while let Some(event) = watcher.next().await {
                h.send_message(DocMessage::FromWatcher(event)).await;
            }
        });
    }
    if watch {
        vp::quiesce();
        w.pause();
    }
    let hidden = ignored(git, rule, f);
    match route {
        // it appears while the daemon is running
        1 | 2 => put(&base, f, &c),
        5 | 6 => {
            let from = if route == 5 { format!("{base}/z") } else { format!("{out}/z") };
            if route == 6 {
                std::fs::write(&from, &c).unwrap();
            }
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::rename(&from, &full).unwrap();
        }
        // an editor opens it
        3 | 4 => {
            if route == 4 {
                let known = vp::flag();
                std::fs::create_dir_all(&dir).unwrap();
                if known {
                    std::fs::write(&full, &c).unwrap();
                }
            }
            let c = w.disk(f).unwrap_or_default();
            let mut e = Editor::connect(&w);
            let r = e.open(&w, f);
            vp::check(r.is_err() == hidden, "exactly the files that are not ignored can be opened");
            if hidden {
                let r = e.request(&w, "edit", serde_json::json!({ "uri": w.uri(f), "revision": 0, "delta": [] }));
                vp::check(r.is_err(), "an ignored file can't be edited");
            }
            finish(&w, f, hidden, git, rule, &c);
            return;
        }
        // its directory is moved in or renamed
        8 => {
            std::fs::create_dir_all(format!("{out}/x")).unwrap();
            std::fs::write(format!("{out}/x/{}", f.rsplit('/').next().unwrap()), &c).unwrap();
            let _ = std::fs::remove_dir(&dir);
            if dir.exists() {
                vp::end();
            }
            std::fs::create_dir_all(dir.parent().unwrap()).unwrap();
            std::fs::rename(format!("{out}/x"), &dir).unwrap();
        }
        // another program writes the same again
        9 => {
            std::fs::remove_file(&full).unwrap();
            put(&base, f, &c);
        }
        _ => {}
    }
    if watch {
        for _ in 0..4 {
            vp::quiesce();
            w.pause();
        }
    }
    finish(&w, f, hidden, git, rule, &c);
}

fn finish(w: &World, f: &str, hidden: bool, git: bool, rule: usize, c: &[u8]) {
    let shared = w.shared();
    for s in shared.keys() {
        vp::check(!ignored(git, rule, s), "an ignored file is never shared");
    }
    if !hidden {
        match shared.get(f) {
            Some(t) => vp::check(vp::same(text::string(t).as_bytes(), c), "a file that is not ignored is shared as it is"),
            None => vp::fail("a file that is not ignored is shared"),
        }
    }
    for (p, t) in RULES[rule] {
        if !ignored(git, rule, p) {
            vp::check(shared.get(*p).map(|s| text::string(s) == *t).unwrap_or(false), "a file that is not ignored is shared");
        }
    }
    vp::cover(if hidden { 1 } else { 2 });
}

const ALL: [usize; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];

entries! {
    c07_names => run(&ALL, &[0], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
    c07_start => run(&[1, 2, 3, 4, 5], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], &[0, 7]);
    c07_disk => run(&[1, 2, 4, 5], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], &[1, 2, 5]);
    c07_editor => run(&[1, 2, 4, 5], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], &[3, 4]);
    c07_deep => run(&ALL, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
}
