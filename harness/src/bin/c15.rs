//! C15: command line settings override the configuration file.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/vp.rs"]
mod vp;

use ethersync::peer::PeerConnectionInfo;
use std::path::PathBuf;

fn file() -> PathBuf {
    let base = vp::scratch();
    std::fs::create_dir_all(format!("{base}/.ethersync")).unwrap();
    format!("{base}/.ethersync/config").into()
}
/// Symbolic text of up to `max` printable ASCII characters, without those that
/// have a meaning of their own in the file: quotes, backslashes, and spaces at
/// either end.
fn value(max: usize) -> String {
    let n = 1 + vp::choice(max);
    let mut s = String::new();
    for i in 0..n {
        let inner = i > 0 && i + 1 < n;
        let c = vp::range(if inner { b' ' } else { b'!' }, b'~');
        vp::assume(((c != b'\\') as u8 & (c != b'"') as u8 & (c != b'\'') as u8) == 1);
        s.push(c as char);
    }
    s
}
/// A port number of `n` digits, and its text.
fn port(n: usize) -> (u16, String) {
    let mut v = 0u32;
    let mut s = String::new();
    for _ in 0..n {
        let c = vp::range(b'0', b'9');
        v = v * 10 + (c - b'0') as u32;
        s.push(c as char);
    }
    vp::assume(v <= 65535);
    (v as u16, s)
}
fn same_text(a: &Option<String>, b: &Option<String>, what: &str) {
    match (a, b) {
        (Some(a), Some(b)) => vp::check_same(a, b, what),
        (a, b) => vp::check(a.is_none() && b.is_none(), what),
    }
}
fn check(got: &PeerConnectionInfo, port: Option<u16>, peer: &Option<String>, secret: &Option<String>) {
    match (got.port, port) {
        (Some(a), Some(b)) => vp::check(a == b, "the port is the one to be used"),
        (a, b) => vp::check(a.is_none() && b.is_none(), "there is a port exactly if one was given"),
    }
    same_text(&got.peer, peer, "the peer is the one to be used");
    same_text(&got.passphrase, secret, "the secret is the one to be used");
    vp::check(got.is_host() == peer.is_none(), "a daemon is a host exactly if it has no peer");
}

/// The settings of a file.
fn load(digits: usize, len: usize, styles: usize) -> (PeerConnectionInfo, Option<u16>, Option<String>, Option<String>) {
    let p = vp::flag().then(|| port(1 + vp::choice(digits)));
    let peer = vp::flag().then(|| value(len));
    let secret = vp::flag().then(|| value(len));
    let mut lines: Vec<String> = vec![];
    let (eq, between) = [(" = ", ""), ("=", ""), (" = ", "# peer = x\n\n"), ("\t=  ", "; port = 1\n")][vp::choice(styles)];
    if let Some((_, t)) = &p {
        lines.push(format!("port{eq}{t}\n"));
    }
    if let Some(t) = &peer {
        lines.push(format!("peer{eq}{t}\n"));
    }
    if let Some(t) = &secret {
        lines.push(format!("secret{eq}{t}\n"));
    }
    if lines.len() > 1 {
        let k = vp::choice(lines.len());
        lines.rotate_left(k);
        if vp::flag() {
            lines.reverse();
        }
    }
    let mut t = lines.join(between);
    if vp::flag() && t.ends_with('\n') {
        t.pop();
    }
    let f = file();
    std::fs::write(&f, t).unwrap();
    let got = PeerConnectionInfo::from_config_file(&f);
    vp::check(got.is_some(), "an existing file is used");
    (got.unwrap(), p.map(|x| x.0), peer, secret)
}

/// What a file says.
fn from_file(digits: usize, len: usize, styles: usize) {
    let (got, p, peer, secret) = load(digits, len, styles);
    check(&got, p, &peer, &secret);
    vp::cover(1);
}
fn cli(len: usize) -> (Option<u16>, Option<String>, Option<String>) {
    let p = vp::flag().then(|| (vp::u8() as u16) << 8 | vp::u8() as u16);
    (p, vp::flag().then(|| value(len)), vp::flag().then(|| value(len)))
}
/// Both places.
fn merged(digits: usize, len: usize) {
    let (file, p, peer, secret) = load(digits, len, 1);
    let (cp, cpeer, csecret) = cli(len);
    let c = PeerConnectionInfo { port: cp, peer: cpeer.clone(), passphrase: csecret.clone() };
    let got = c.takes_precedence_over(file);
    check(&got, cp.or(p), &cpeer.or(peer), &csecret.or(secret));
    vp::cover(1);
}
/// No file: nothing comes from it.
fn no_file() {
    let f = file();
    vp::check(PeerConnectionInfo::from_config_file(&f).is_none(), "no settings come from a file that does not exist");
    vp::cover(1);
}

entries! {
    c15_port => from_file(5, 1, 1);
    c15_file => from_file(1, 3, 4);
    c15_merged => merged(2, 2);
    c15_none => no_file();
    c15_deep => from_file(2, 5, 4);
}
