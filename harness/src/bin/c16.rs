//! C16: messages between peers arrive intact and in order.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/pipe.rs"]
mod pipe;
#[path = "../common/vp.rs"]
mod vp;

use automerge::sync::{Message, MessageVersion};
use automerge::ChangeHash;
use ethersync::peer::P2PActor;
use pipe::{pipe, End, Shared};
use tokio::runtime::Runtime;
use tokio::sync::mpsc;
use tokio::task::JoinHandle;

struct Connection {
    rt: Runtime,
    /// towards the daemon, and from it
    to: Shared,
    from: Shared,
    submit: Option<mpsc::Sender<Message>>,
    delivered: mpsc::Receiver<Message>,
    task: JoinHandle<bool>,
}
impl Connection {
    fn new(room: usize, capacity: usize, chunk: usize) -> Connection {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let (to, from) = (pipe(usize::MAX, chunk, false), pipe(capacity, usize::MAX, false));
        let (from_peer_tx, delivered) = mpsc::channel(room);
        let (submit, to_peer_rx) = mpsc::channel(16);
        let end = End { from: to.clone(), to: from.clone() };
        let task = rt.spawn(async move { P2PActor::verif_protocol_handler(end, from_peer_tx, to_peer_rx).await.is_ok() });
        Connection { rt, to, from, submit: Some(submit), delivered, task }
    }
    /// Let everything that can happen happen.
    fn run(&self) {
        self.rt.block_on(async {
            for _ in 0..12 {
                tokio::task::yield_now().await;
            }
        });
    }
    fn submit(&self, m: &Message) {
        vp::check(self.submit.as_ref().unwrap().try_send(m.clone()).is_ok(), "there is room for an outgoing message");
    }
    fn ended(&self) -> bool {
        self.task.is_finished()
    }
    fn take(&mut self, into: &mut Vec<Vec<u8>>) {
        while let Ok(m) = self.delivered.try_recv() {
            into.push(m.clone().encode());
        }
    }
}

/// Messages of several lengths, with symbolic contents.
fn messages() -> Vec<Message> {
    let message = |changes: Vec<Vec<u8>>, heads| Message {
        heads,
        need: vec![],
        have: vec![],
        changes: changes.into(),
        supported_capabilities: None,
        version: MessageVersion::V1,
    };
    let mut hash = [7; 32];
    hash[0] = vp::u8();
    hash[31] = vp::u8();
    vec![
        message(vec![], vec![]),
        message(vec![vec![vp::u8(), vp::u8()]], vec![]),
        message(vec![vec![vp::u8()], vec![vp::u8()]], vec![ChangeHash(hash)]),
    ]
}
fn framed(m: &[u8]) -> Vec<u8> {
    let mut v = (m.len() as u32).to_be_bytes().to_vec();
    v.extend(m);
    v
}
fn check_list(got: &[Vec<u8>], want: &[Vec<u8>], what: &str) {
    vp::check(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| vp::same(a, b)), what);
}

/// Incoming bytes in pieces that end anywhere, with outgoing messages handed
/// over in between; then the stream may end anywhere.
fn overlap(count: usize, cuts: usize, chunked: bool) {
    vp::seed(vp::choice(2) as u64);
    let mut all = messages();
    if !chunked {
        all.truncate(2);
    }
    let k = vp::choice(all.len());
    all.rotate_left(k);
    let incoming: Vec<Vec<u8>> = all.iter().cycle().take(count).map(|m| m.clone().encode()).collect();
    let stream: Vec<u8> = incoming.iter().flat_map(|m| framed(m)).collect();
    let mut c = Connection::new(1 + 3 * vp::choice(2), usize::MAX, if chunked { 1 } else { usize::MAX });
    let mut got = vec![];
    let mut submitted = vec![];
    let mut at = 0;
    c.run();
    for i in 0..cuts {
        let to = at + vp::choice(stream.len() + 1 - at);
        c.to.lock().unwrap().arrive(&stream[at..to]);
        at = to;
        if vp::flag() {
            // before or after the bytes were looked at
            if vp::flag() {
                c.run();
            }
            let m = &all[(i + 1) % all.len()];
            c.submit(m);
            submitted.push(m.clone().encode());
        }
        c.run();
        if i == 0 || vp::flag() {
            c.take(&mut got);
            c.run();
        }
    }
    vp::check(!c.ended(), "the connection stays open");
    if vp::flag() {
        // the stream ends here
        c.to.lock().unwrap().close();
    } else {
        c.to.lock().unwrap().arrive(&stream[at..]);
        at = stream.len();
    }
    for _ in 0..=count {
        c.run();
        c.take(&mut got);
    }
    let mut whole = 0;
    let mut n = 0;
    for m in &incoming {
        n += 4 + m.len();
        if n <= at {
            whole += 1;
        }
    }
    check_list(&got, &incoming[..whole], "complete messages are delivered, in order");
    vp::check(c.ended() == c.to.lock().unwrap().closed, "the connection ends with the stream");
    let written = c.from.lock().unwrap().take();
    let want: Vec<u8> = submitted.iter().flat_map(|m| framed(m)).collect();
    vp::check(vp::same(&written, &want), "outgoing messages are written, in order");
    vp::cover(if c.ended() { 2 } else { 1 });
}

/// A slow receiver: what is written stays intact, and incoming messages are
/// still delivered.
fn slow(count: usize, steps: usize) {
    vp::seed(vp::choice(2) as u64);
    let all = messages();
    let mut c = Connection::new(1, 1 + vp::choice(6), usize::MAX);
    let out: Vec<Vec<u8>> = all.iter().cycle().take(count).map(|m| m.clone().encode()).collect();
    for m in all.iter().cycle().take(count) {
        c.submit(m);
    }
    let want: Vec<u8> = out.iter().flat_map(|m| framed(m)).collect();
    let incoming = all[0].clone().encode();
    let when = vp::choice(steps);
    let mut written = vec![];
    let mut got = vec![];
    for i in 0..want.len() + 2 {
        c.run();
        if i == when {
            c.to.lock().unwrap().arrive(&framed(&incoming));
            c.run();
            c.take(&mut got);
            check_list(&got, &[incoming.clone()], "messages arrive while others wait to be sent");
        }
        written.extend(c.from.lock().unwrap().take());
    }
    vp::check(vp::same(&written, &want), "outgoing messages are written, in order");
    // no more outgoing messages: the connection is given up
    c.submit = None;
    c.run();
    vp::check(c.ended(), "the connection is given up when there is nothing to send any more");
    vp::cover(1);
}

/// Something that is not a message.
fn garbage(max: usize) {
    vp::seed(0);
    let good = messages()[0].clone().encode();
    let n = vp::choice(max + 1);
    let body: Vec<u8> = (0..n).map(|_| vp::u8()).collect();
    let mut c = Connection::new(4, usize::MAX, usize::MAX);
    let valid = Message::decode(&body).is_ok();
    let mut stream = framed(&good);
    stream.extend(framed(&body));
    stream.extend(framed(&good));
    c.to.lock().unwrap().arrive(&stream);
    let mut got = vec![];
    c.run();
    c.run();
    c.take(&mut got);
    if valid {
        vp::check(got.len() == 3, "messages around another one are delivered");
        vp::check(!c.ended(), "the connection stays open");
        vp::cover(2);
    } else {
        check_list(&got, &[good.clone()], "nothing is delivered after something that is not a message");
        vp::check(c.ended(), "the connection is given up");
        vp::cover(1);
    }
}

entries! {
    c16_overlap => overlap(2, 2, false);
    c16_bytes => overlap(2, 1, true);
    c16_slow => slow(2, 12);
    c16_garbage => garbage(5);
    c16_deep => overlap(3, 3, false);
}
