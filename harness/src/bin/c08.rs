//! C08: Content-Length framing is lossless under any chunking.
//!
//! The client command is run as it is: its standard input and output are
//! replaced by sockets, and the daemon's socket by one of the harness.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;
#[allow(dead_code)]
#[path = "/repo/daemon/src/jsonrpc_forwarder.rs"]
mod jsonrpc_forwarder;

use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::PathBuf;
use std::time::Duration;
use tokio::runtime::Runtime;

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}

struct Client {
    rt: Runtime,
    /// what the language client writes to and reads from
    stdin: UnixStream,
    stdout: UnixStream,
    /// the daemon's end of the socket
    daemon: UnixStream,
}

impl Client {
    fn start() -> Client {
        let sock = format!("{}/sock", vp::scratch());
        let l = UnixListener::bind(&sock).unwrap();
        let (stdin, a) = UnixStream::pair().unwrap();
        let (stdout, b) = UnixStream::pair().unwrap();
        unsafe {
            dup2(a.as_raw_fd(), 0);
            dup2(b.as_raw_fd(), 1);
        }
        drop((a, b));
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let path = PathBuf::from(sock);
        rt.spawn(async move {
            let _ = jsonrpc_forwarder::connection(&path).await;
            vp::fail("the client command keeps running");
        });
        rt.block_on(async { tokio::time::sleep(Duration::from_millis(1)).await });
        let (daemon, _) = l.accept().unwrap();
        stdin.set_nonblocking(true).unwrap();
        stdout.set_nonblocking(true).unwrap();
        daemon.set_nonblocking(true).unwrap();
        Client { rt, stdin, stdout, daemon }
    }
    fn pause(&self) {
        let n = if vp::is_engine() { 1 } else { 10 };
        for _ in 0..n {
            self.rt.block_on(async { tokio::time::sleep(Duration::from_millis(2)).await });
            vp::quiesce();
        }
    }
}

fn read(s: &mut UnixStream, out: &mut Vec<u8>) {
    let mut buf = [0u8; 512];
    loop {
        match s.read(&mut buf) {
            Ok(0) => vp::fail("the connection stays open"),
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(_) => break,
        }
    }
}

/// A message body: any characters, with something that looks like a header.
fn body(n: usize, kinds: usize) -> Vec<u8> {
    let mut b = vec![];
    match vp::choice(kinds) {
        1 => b.extend_from_slice(b"Content-Length: 1"),
        2 => b.extend_from_slice(b"Content-Length: 2 \xc3\xa9\xf0\x9f\xa5\x95"),
        3 => b.extend_from_slice(b"{\n\n\"a\":\r\n\r\n1}"),
        _ => {}
    }
    let k = vp::choice(n + 1);
    for _ in 0..k {
        let c = vp::u8();
        vp::assume((c < 0x80) as u8 & (c != b'\n') as u8 & (c != b'\r') as u8 == 1);
        b.push(c);
    }
    b
}

fn header(n: usize, kinds: usize) -> String {
    match vp::choice(kinds) {
        0 => format!("Content-Length: {n}\r\n\r\n"),
        1 => format!("Content-Length: {n}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n"),
        2 => format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {n}\r\n\r\n"),
        _ => format!("Content-Length: {n}\n\n"),
    }
}

fn squeeze(b: &[u8]) -> Vec<u8> {
    b.iter().copied().filter(|c| !matches!(c, b' ' | b'\r' | b'\n')).collect()
}

/// From the language client to the daemon.
fn to_daemon(n: usize, len: usize, kinds: usize, headers: usize, cuts: usize) {
    let r = vp::section(|| {
        let mut c = Client::start();
        let mut bodies = vec![];
        let mut stream = vec![];
        for _ in 0..n {
            let b = body(len, kinds);
            stream.extend_from_slice(header(b.len(), headers).as_bytes());
            stream.extend_from_slice(&b);
            bodies.push((b, stream.len()));
        }
        let mut got = vec![];
        let mut at = 0;
        for i in 0..=cuts {
            let to = if i == cuts { stream.len() } else { at + vp::choice(stream.len() - at + 1) };
            c.stdin.write_all(&stream[at..to]).unwrap();
            at = to;
            c.pause();
            read(&mut c.daemon, &mut got);
            let lines = got.iter().filter(|x| **x == b'\n').count();
            let complete = bodies.iter().filter(|b| b.1 <= at).count();
            vp::check(lines == complete, "a message is passed on exactly when it is complete");
        }
        let lines: Vec<&[u8]> = got.split(|x| *x == b'\n').collect();
        vp::check(lines.len() == n + 1 && lines[n].is_empty(), "each message becomes one line");
        for (l, (b, _)) in lines.iter().zip(&bodies) {
            let same = if b.contains(&b'\n') { vp::same(&squeeze(l), &squeeze(b)) } else { vp::same(l, b) };
            vp::check(same, "a message is passed on unchanged");
        }
        vp::cover(1);
        std::mem::forget(c);
    });
    vp::check(r == 0, "the client command does not exit");
}

/// From the daemon to the language client.
fn from_daemon(n: usize, len: usize, cuts: usize) {
    let r = vp::section(|| {
        let mut c = Client::start();
        let mut bodies = vec![];
        let mut stream = vec![];
        for _ in 0..n {
            let b = body(len, 3);
            stream.extend_from_slice(&b);
            stream.push(b'\n');
            bodies.push((b, stream.len()));
        }
        let mut got = vec![];
        let mut at = 0;
        for i in 0..=cuts {
            let to = if i == cuts { stream.len() } else { at + vp::choice(stream.len() - at + 1) };
            c.daemon.write_all(&stream[at..to]).unwrap();
            at = to;
            c.pause();
            read(&mut c.stdout, &mut got);
            let mut want = vec![];
            for (b, _) in bodies.iter().filter(|b| b.1 <= at) {
                want.extend_from_slice(format!("Content-Length: {}\r\n\r\n", b.len()).as_bytes());
                want.extend_from_slice(b);
            }
            vp::check(vp::same(&want, &got), "each complete line is passed on with its length");
        }
        vp::cover(1);
        std::mem::forget(c);
    });
    vp::check(r == 0, "the client command does not exit");
}

entries! {
    c08_two => to_daemon(2, 1, 3, 1, 2);
    c08_headers => to_daemon(2, 0, 4, 4, 1);
    c08_header => to_daemon(1, 1, 4, 4, 2);
    c08_body => to_daemon(1, 12, 3, 2, 1);
    c08_three => to_daemon(3, 1, 1, 1, 2);
    c08_back => from_daemon(2, 2, 2);
    c08_back_three => from_daemon(3, 1, 1);
    c08_deep => to_daemon(2, 2, 4, 4, 2);
    c08_deep3 => to_daemon(3, 2, 3, 1, 3);
    c08_back_deep => from_daemon(3, 3, 2);
}
