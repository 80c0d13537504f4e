//! A connection between two daemons: two byte pipes whose bytes move when the
//! harness says so.
#![allow(dead_code)]

use futures::io::{AsyncRead, AsyncWrite};
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// One direction.
#[derive(Default)]
pub struct Pipe {
    /// written, but not there yet
    pub sent: VecDeque<u8>,
    /// there, but not read yet
    pub there: VecDeque<u8>,
    /// how many bytes may be on their way
    pub capacity: usize,
    /// written bytes are there at once
    pub direct: bool,
    /// most bytes that one read gives
    pub chunk: usize,
    pub closed: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
}
pub type Shared = Arc<Mutex<Pipe>>;

pub fn pipe(capacity: usize, chunk: usize, direct: bool) -> Shared {
    Arc::new(Mutex::new(Pipe { capacity, chunk, direct, ..Pipe::default() }))
}
impl Pipe {
    fn wake(w: &mut Option<Waker>) {
        if let Some(w) = w.take() {
            w.wake();
        }
    }
    /// Bytes of the harness itself arrive.
    pub fn arrive(&mut self, bytes: &[u8]) {
        self.there.extend(bytes);
        Self::wake(&mut self.reader);
    }
    /// Written bytes arrive.
    pub fn carry(&mut self, n: usize) {
        let n = n.min(self.sent.len());
        let b: Vec<u8> = self.sent.drain(..n).collect();
        self.arrive(&b);
        Self::wake(&mut self.writer);
    }
    /// Take what was written.
    pub fn take(&mut self) -> Vec<u8> {
        let b = self.sent.drain(..).collect();
        Self::wake(&mut self.writer);
        b
    }
    pub fn close(&mut self) {
        self.closed = true;
        Self::wake(&mut self.reader);
        Self::wake(&mut self.writer);
    }
}

/// What one of the daemons holds.
pub struct End {
    pub from: Shared,
    pub to: Shared,
}
impl AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut p = self.from.lock().unwrap();
        if p.there.is_empty() {
            if p.closed {
                return Poll::Ready(Ok(0));
            }
            p.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(p.there.len()).min(p.chunk);
        for x in buf.iter_mut().take(n) {
            *x = p.there.pop_front().unwrap();
        }
        Pipe::wake(&mut p.writer);
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for End {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.to.lock().unwrap();
        if p.closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let used = p.sent.len() + if p.direct { p.there.len() } else { 0 };
        let n = buf.len().min(p.capacity.saturating_sub(used));
        if n == 0 && !buf.is_empty() {
            p.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if p.direct {
            p.there.extend(&buf[..n]);
            Pipe::wake(&mut p.reader);
        } else {
            p.sent.extend(&buf[..n]);
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.to.lock().unwrap().close();
        Poll::Ready(Ok(()))
    }
}
impl Drop for End {
    fn drop(&mut self) {
        self.to.lock().unwrap().close();
        self.from.lock().unwrap().closed = true;
    }
}
