//! C14: local sockets and keys are only usable by their owner.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/vp.rs"]
mod vp;

use ethersync::daemon::DocumentActorHandle;
use ethersync::editor;
use ethersync::peer::{P2PActor, PeerConnectionInfo};
use std::ffi::OsStr;
use std::fs::{self, Permissions};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{DirBuilderExt, FileTypeExt, PermissionsExt};
use std::path::Path;
use std::time::Duration;

extern "C" {
    fn umask(m: u32) -> u32;
}

/// All permission bits, kept symbolic.
fn mode() -> u32 {
    let hi = vp::range(0, 15);
    (hi as u32) << 8 | vp::u8() as u32
}
fn top() -> String {
    let base = vp::scratch();
    fs::create_dir_all(&base).unwrap();
    base
}
fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

const LISTENS: u64 = 5;
const PANICS: u64 = 400;

/// Start listening under a name in the directory of the environment, in a
/// process of its own: LISTENS, PANICS, or something else.
fn listen(base: &str, name: &[u8]) -> u64 {
    vp::section(|| {
        vp::may_panic();
        let path = editor::get_socket_path(Path::new(OsStr::from_bytes(name)));
        let rt = runtime();
        let h = {
            let _g = rt.enter();
            DocumentActorHandle::new(Path::new(base), false, true)
        };
        let p = path.clone();
        rt.spawn(async move { editor::make_editor_connection(p, h).await });
        rt.block_on(async {
            tokio::time::sleep(Duration::from_millis(5)).await;
        });
        let ok = std::os::unix::net::UnixStream::connect(&path).is_ok();
        std::process::exit(if ok { 3 } else { 4 });
    })
}
/// Listening needs a directory without access for group and others.
fn judge(r: u64, mode: u32) {
    vp::check(r == LISTENS || r == PANICS, "the daemon either listens or refuses");
    if r == LISTENS {
        vp::check(mode & 0o077 == 0, "the daemon only listens in a directory of its owner");
        vp::cover(1);
    } else {
        vp::check(mode != 0o700, "the daemon listens in a directory of its owner");
        vp::cover(2);
    }
}

fn socket_dir() {
    let base = top();
    fs::create_dir(format!("{base}/.ethersync")).unwrap();
    let dir = format!("{base}/../run");
    fs::create_dir(&dir).unwrap();
    let m = mode();
    fs::set_permissions(&dir, Permissions::from_mode(m)).unwrap();
    std::env::set_var("XDG_RUNTIME_DIR", &dir);
    let r = listen(&base, b"ethersync");
    // so that it can be removed again
    fs::set_permissions(&dir, Permissions::from_mode(0o700)).unwrap();
    judge(r, m);
}
/// Without a runtime directory: one of its own in /tmp.
fn fallback() {
    let base = top();
    fs::create_dir(format!("{base}/.ethersync")).unwrap();
    let user = if vp::is_engine() { "u".to_string() } else { format!("vp-{}", std::process::id()) };
    if vp::is_engine() {
        let _ = fs::create_dir("/tmp");
    }
    std::env::set_var("USER", &user);
    std::env::remove_var("XDG_RUNTIME_DIR");
    let dir = format!("/tmp/ethersync-{user}");
    let old = unsafe { umask([0o022, 0, 0o077][vp::choice(3)]) };
    let m = if vp::flag() {
        fs::create_dir(&dir).unwrap();
        let m = mode();
        fs::set_permissions(&dir, Permissions::from_mode(m)).unwrap();
        m
    } else {
        0o700
    };
    let r = listen(&base, b"ethersync");
    unsafe { umask(old) };
    let now = fs::metadata(&dir).unwrap().permissions().mode();
    fs::set_permissions(&dir, Permissions::from_mode(0o700)).unwrap();
    if !vp::is_engine() {
        fs::remove_dir_all(&dir).unwrap();
    }
    vp::check(now & 0o7777 == m, "the directory has the expected permissions");
    judge(r, m);
}
/// The socket is directly in that directory, under the given name.
fn socket_name(max: usize, lo: u8, hi: u8) {
    let base = top();
    fs::create_dir(format!("{base}/.ethersync")).unwrap();
    let dir = format!("{base}/../run");
    fs::DirBuilder::new().mode(0o700).create(&dir).unwrap();
    // places a name must not lead to
    fs::DirBuilder::new().mode(0o777).create(format!("{dir}/0")).unwrap();
    std::env::set_var("XDG_RUNTIME_DIR", &dir);
    let n = vp::choice(max + 1);
    let name: Vec<u8> = (0..n).map(|_| vp::concrete(vp::range(lo, hi) as usize) as u8).collect();
    let r = listen(&base, &name);
    vp::check(r == LISTENS || r == PANICS, "the daemon either listens or refuses");
    let mut sockets = vec![];
    for d in [&dir, &format!("{dir}/0"), &base, &format!("{base}/..")] {
        for e in fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            if e.file_type().unwrap().is_socket() {
                sockets.push((d.clone(), e.file_name()));
            }
        }
    }
    let plain = !name.is_empty() && !name.contains(&b'/') && name != b"." && name != b"..";
    if r == LISTENS {
        vp::check(plain, "only a plain name is used");
        vp::check(sockets.len() == 1 && sockets[0].0 == dir && sockets[0].1.as_bytes() == name, "the socket is where it should be");
        vp::cover(1);
    } else {
        vp::check(!plain || name == b"0", "a plain name is used");
        vp::check(sockets.is_empty(), "nothing listens");
        vp::cover(2);
    }
}

const KEPT: u64 = 5;
const OTHER: u64 = 6;
fn identity(base: &str, expect: &mut Option<Vec<u8>>) -> u64 {
    let out = format!("{base}/identity");
    let r = vp::section(|| {
        vp::may_panic();
        let rt = runtime();
        let h = {
            let _g = rt.enter();
            DocumentActorHandle::new(Path::new(base), false, true)
        };
        let info = PeerConnectionInfo { port: None, peer: None, passphrase: None };
        let id = P2PActor::new(info, h, Path::new(base)).verif_identity();
        fs::write(&out, &id).unwrap();
        std::process::exit(match expect {
            Some(e) if *e != id => 4,
            _ => 3,
        });
    });
    if r == KEPT || r == OTHER {
        *expect = fs::read(&out).ok();
    }
    r
}
/// A key is created with the right protection, and used again.
fn key_new() {
    let base = top();
    fs::create_dir(format!("{base}/.ethersync")).unwrap();
    let old = unsafe { umask([0o022, 0, 0o077, 0o002][vp::choice(4)]) };
    let mut id = None;
    let r = identity(&base, &mut id);
    unsafe { umask(old) };
    vp::check(r == KEPT, "a key is created");
    let m = fs::metadata(format!("{base}/.ethersync/key")).unwrap().permissions().mode();
    vp::check(m == 0o100600, "a key is only accessible to its owner");
    vp::check(identity(&base, &mut id) == KEPT, "a key is used again");
    vp::cover(1);
}
/// A key that others can access is not used.
fn key_old() {
    let base = top();
    fs::create_dir(format!("{base}/.ethersync")).unwrap();
    let mut id = None;
    vp::check(identity(&base, &mut id) == KEPT, "a key is created");
    let m = mode();
    fs::set_permissions(format!("{base}/.ethersync/key"), Permissions::from_mode(m)).unwrap();
    let before = id.clone();
    let r = identity(&base, &mut id);
    vp::check(r == KEPT || r == PANICS, "the daemon either uses the key or refuses");
    if r == KEPT {
        vp::check(m & 0o077 == 0, "a key that others can access is not used");
        vp::cover(1);
    } else {
        vp::check(m != 0o600, "a protected key is used");
        vp::cover(2);
    }
    vp::check(before == id, "the identity stays the same");
}

entries! {
    c14_dir => socket_dir();
    c14_fallback => fallback();
    c14_name => socket_name(4, b'-', b'0');
    c14_bytes => socket_name(1, 1, 255);
    c14_key_new => key_new();
    c14_key_old => key_old();
}
