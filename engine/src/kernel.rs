//! A small model of the operating system: files, descriptors, sockets, epoll,
//! inotify and a virtual clock. Only plain data here; `ext.rs` holds the entry
//! points called by the program.

use crate::expr::E;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;

pub const ENOENT: i32 = 2;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const EPIPE: i32 = 32;
pub const ERANGE: i32 = 34;
pub const ENAMETOOLONG: i32 = 36;
pub const ENOSYS: i32 = 38;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;
pub const ENOTSOCK: i32 = 88;
pub const EADDRINUSE: i32 = 98;
pub const ECONNREFUSED: i32 = 111;
pub const ETIMEDOUT: i32 = 110;

pub type Byte = (u8, E);

#[derive(Clone)]
pub enum Data {
    File(Vec<Byte>),
    Dir(BTreeMap<Vec<u8>, usize>),
    Link(Vec<u8>),
    Sock(Option<usize>),
    Null,
}
#[derive(Clone)]
pub struct Inode {
    pub data: Data,
    pub mode: u32,
    /// The permission bits (12 bits) if they are symbolic, otherwise 0.
    pub perms: crate::expr::E,
    pub parent: usize,
    pub nlink: u32,
    pub mtime: u64,
}

#[derive(Clone)]
pub enum Kind {
    Std,
    File { ino: usize, off: u64, append: bool, wr: bool, rd: bool },
    Dir { ino: usize },
    Stream { rx: usize, tx: usize },
    Sock,
    Bound { ino: usize },
    Listener { ino: usize },
    Epoll(usize),
    Event { count: u64, gen: u64 },
    Inotify(usize),
}
#[derive(Clone)]
pub struct Desc {
    pub kind: Kind,
    pub nonblock: bool,
    pub refs: u32,
}
#[derive(Clone, Default)]
pub struct Chan {
    pub buf: VecDeque<Byte>,
    pub wclosed: bool,
    pub rclosed: bool,
    pub gen: u64,
}
#[derive(Clone, Default)]
pub struct Listen {
    pub backlog: VecDeque<(usize, usize)>,
    pub gen: u64,
    pub open: bool,
}
#[derive(Clone)]
pub struct Interest {
    pub desc: usize,
    pub fd: i32,
    pub events: u32,
    pub data: u64,
    pub last: u64,
    pub lastmask: u32,
    pub armed: bool,
}
#[derive(Clone, Default)]
pub struct Epoll {
    pub list: Vec<Interest>,
}
#[derive(Clone, Default)]
pub struct Inotify {
    pub watches: BTreeMap<i32, (usize, u32)>, // wd -> inode, mask
    pub next: i32,
    pub queue: VecDeque<Vec<u8>>,
    pub gen: u64,
}

/// Per-process part (dies with a crash).
#[derive(Clone)]
pub struct Proc {
    pub fds: Vec<Option<usize>>,
    pub cwd: usize,
    pub descs: Vec<Option<Desc>>,
    pub eps: Vec<Epoll>,
    pub inos: Vec<Inotify>,
    pub env: Rc<BTreeMap<Vec<u8>, Vec<u8>>>,
    pub env_ptrs: Rc<HashMap<Vec<u8>, u64>>,
    pub umask: u32,
    /// a panic ends the current section instead of being reported
    pub may_panic: bool,
}

#[derive(Clone)]
pub struct Crash {
    pub armed: bool,
    pub var: E,
    pub pvar: E,
    pub count: u32,
    pub max: u32,
}

#[derive(Clone)]
pub struct Kernel {
    pub inodes: Rc<Vec<Rc<Inode>>>,
    pub p: Proc,
    pub chans: Vec<Chan>,
    pub listens: Vec<Listen>,
    pub now: u64,
    pub events: u64,
    pub rng: u64,
    pub cookie: u32,
    pub crash: Option<Crash>,
    pub time_limit: Option<u64>,
    /// base names of every path the program touched outside of `jail`
    pub fslog: Rc<Vec<(String, String)>>,
    pub log_on: bool,
}

impl Kernel {
    pub fn new() -> Kernel {
        let dir = |parent| Rc::new(Inode { data: Data::Dir(BTreeMap::new()), mode: 0o40755, perms: 0, parent, nlink: 2, mtime: 0 });
        let mut k = Kernel {
            inodes: Rc::new(vec![dir(0)]),
            p: Proc {
                fds: vec![Some(0), Some(0), Some(0)],
                cwd: 0,
                descs: vec![Some(Desc { kind: Kind::Std, nonblock: false, refs: 3 })],
                eps: vec![],
                inos: vec![],
                env: Rc::new(BTreeMap::new()),
                env_ptrs: Rc::new(HashMap::new()),
                umask: 0o022,
                may_panic: false,
            },
            chans: vec![],
            listens: vec![],
            now: 1_000_000_000,
            events: 0,
            rng: 0x5eed_0001,
            cookie: 0,
            crash: None,
            time_limit: None,
            fslog: Rc::new(vec![]),
            log_on: false,
        };
        for d in ["/v", "/v/base", "/v/home", "/v/out", "/tmp", "/dev", "/run"] {
            k.mkdir(d.as_bytes(), 0o755).unwrap();
        }
        let (p, n, _) = k.resolve(b"/dev/null", true).unwrap();
        k.create(p, &n, Data::Null, 0o20666);
        {
            let env = Rc::make_mut(&mut k.p.env);
            env.insert(b"HOME".to_vec(), b"/v/home".to_vec());
            env.insert(b"USER".to_vec(), b"verif".to_vec());
            env.insert(b"XDG_RUNTIME_DIR".to_vec(), b"/run".to_vec());
            env.insert(b"TMPDIR".to_vec(), b"/tmp".to_vec());
        }
        k
    }
    pub fn rand(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn next_timer(&self) -> Option<u64> {
        None
    }
    pub fn ino(&self, i: usize) -> &Inode {
        &self.inodes[i]
    }
    pub fn ino_mut(&mut self, i: usize) -> &mut Inode {
        Rc::make_mut(&mut Rc::make_mut(&mut self.inodes)[i])
    }
    pub fn lookup(&self, dir: usize, name: &[u8]) -> Result<Option<usize>, i32> {
        match &self.ino(dir).data {
            Data::Dir(m) => {
                if name == b"." {
                    return Ok(Some(dir));
                }
                if name == b".." {
                    return Ok(Some(self.ino(dir).parent));
                }
                Ok(m.get(name).cloned())
            }
            _ => Err(ENOTDIR),
        }
    }
    /// Whether the owner's permission bits (4 read, 2 write, 1 search) allow this;
    /// everything belongs to the user the program runs as.
    pub fn may(&self, ino: usize, bits: u32) -> bool {
        self.ino(ino).mode >> 6 & bits == bits
    }
    /// (parent directory, last component, inode if it exists)
    pub fn resolve(&self, path: &[u8], follow: bool) -> Result<(usize, Vec<u8>, Option<usize>), i32> {
        self.resolve_from(self.p.cwd, path, follow, 0)
    }
    pub fn resolve_from(&self, start: usize, path: &[u8], follow: bool, depth: u32) -> Result<(usize, Vec<u8>, Option<usize>), i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        if depth > 40 {
            return Err(ELOOP);
        }
        let mut cur = if path[0] == b'/' { 0 } else { start };
        let trailing = path[path.len() - 1] == b'/';
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        if comps.is_empty() {
            return Ok((0, b".".to_vec(), Some(0)));
        }
        for (i, c) in comps.iter().enumerate() {
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let last = i + 1 == comps.len();
            if matches!(self.ino(cur).data, Data::Dir(_)) && !self.may(cur, 1) {
                return Err(EACCES);
            }
            let found = self.lookup(cur, c)?;
            match found {
                None => {
                    if last {
                        return Ok((cur, c.to_vec(), None));
                    }
                    return Err(ENOENT);
                }
                Some(ino) => {
                    if let Data::Link(t) = &self.ino(ino).data {
                        if !last || follow || trailing {
                            let (p, n, r) = self.resolve_from(cur, t, true, depth + 1)?;
                            if last {
                                if trailing {
                                    match r {
                                        Some(x) if matches!(self.ino(x).data, Data::Dir(_)) => {}
                                        Some(_) => return Err(ENOTDIR),
                                        None => {}
                                    }
                                }
                                return Ok((p, n, r));
                            }
                            match r {
                                Some(x) => {
                                    cur = x;
                                    continue;
                                }
                                None => return Err(ENOENT),
                            }
                        }
                    }
                    if last {
                        if trailing && !matches!(self.ino(ino).data, Data::Dir(_)) {
                            return Err(ENOTDIR);
                        }
                        return Ok((cur, c.to_vec(), Some(ino)));
                    }
                    cur = ino;
                }
            }
        }
        unreachable!()
    }
    pub fn create(&mut self, dir: usize, name: &[u8], data: Data, mode: u32) -> usize {
        let id = self.inodes.len();
        let isdir = matches!(data, Data::Dir(_));
        let now = self.now;
        Rc::make_mut(&mut self.inodes).push(Rc::new(Inode { data, mode, perms: 0, parent: dir, nlink: if isdir { 2 } else { 1 }, mtime: now }));
        if let Data::Dir(m) = &mut self.ino_mut(dir).data {
            m.insert(name.to_vec(), id);
        }
        self.ino_mut(dir).mtime = now;
        id
    }
    pub fn mkdir(&mut self, path: &[u8], mode: u32) -> Result<(), i32> {
        let (p, n, r) = self.resolve(path, false)?;
        if r.is_some() {
            return Err(EEXIST);
        }
        if !self.may(p, 2) {
            return Err(EACCES);
        }
        let mode = mode & !self.p.umask & 0o7777;
        let id = self.create(p, &n, Data::Dir(BTreeMap::new()), 0o40000 | mode);
        self.notify(p, 0x100 | 0x4000_0000, &n, 0);
        let _ = id;
        Ok(())
    }
    pub fn abs_path(&self, mut ino: usize) -> Vec<u8> {
        let mut parts: Vec<Vec<u8>> = vec![];
        while ino != 0 {
            let p = self.ino(ino).parent;
            if let Data::Dir(m) = &self.ino(p).data {
                if let Some((n, _)) = m.iter().find(|(_, v)| **v == ino) {
                    parts.push(n.clone());
                } else {
                    parts.push(b"(deleted)".to_vec());
                }
            }
            ino = p;
        }
        let mut out = vec![];
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend(p);
        }
        if out.is_empty() {
            out.push(b'/');
        }
        out
    }
    /// inotify event on directory `dir` for entry `name`, and on the inode itself.
    pub fn notify(&mut self, dir: usize, mask: u32, name: &[u8], cookie: u32) {
        let mut hit = false;
        for i in self.p.inos.iter_mut() {
            let ws: Vec<(i32, u32)> = i.watches.iter().filter(|(_, w)| w.0 == dir).map(|(k, w)| (*k, w.1)).collect();
            for (wd, wm) in ws {
                if wm & mask & 0xfff == 0 {
                    continue;
                }
                let mut ev = vec![];
                ev.extend(wd.to_le_bytes());
                ev.extend(mask.to_le_bytes());
                ev.extend(cookie.to_le_bytes());
                let mut nm = name.to_vec();
                if !nm.is_empty() {
                    nm.push(0);
                    while nm.len() % 16 != 0 {
                        nm.push(0);
                    }
                }
                ev.extend((nm.len() as u32).to_le_bytes());
                ev.extend(nm);
                i.queue.push_back(ev);
                i.gen += 1;
                hit = true;
            }
        }
        if hit {
            self.events += 1;
        }
    }
    /// Event about an inode: reported to a watch on it and on its parent.
    pub fn notify_ino(&mut self, ino: usize, mask: u32) {
        self.notify(ino, mask, b"", 0);
        let p = self.ino(ino).parent;
        let name = match &self.ino(p).data {
            Data::Dir(m) => m.iter().find(|(_, v)| **v == ino).map(|(n, _)| n.clone()),
            _ => None,
        };
        if let Some(n) = name {
            let d = if matches!(self.ino(ino).data, Data::Dir(_)) { 0x4000_0000 } else { 0 };
            self.notify(p, mask | d, &n, 0);
        }
    }
    pub fn new_desc(&mut self, kind: Kind, nonblock: bool) -> i32 {
        let d = self.p.descs.len();
        self.p.descs.push(Some(Desc { kind, nonblock, refs: 1 }));
        self.new_fd(d, 0)
    }
    pub fn new_fd(&mut self, d: usize, min: usize) -> i32 {
        while self.p.fds.len() < min {
            self.p.fds.push(None);
        }
        for (i, f) in self.p.fds.iter_mut().enumerate().skip(min) {
            if f.is_none() {
                *f = Some(d);
                return i as i32;
            }
        }
        self.p.fds.push(Some(d));
        self.p.fds.len() as i32 - 1
    }
    pub fn desc(&self, fd: i32) -> Option<(usize, &Desc)> {
        let d = *self.p.fds.get(fd as usize)?.as_ref()?;
        Some((d, self.p.descs[d].as_ref()?))
    }
    pub fn desc_mut(&mut self, fd: i32) -> Option<&mut Desc> {
        let d = *self.p.fds.get(fd as usize)?.as_ref()?;
        self.p.descs[d].as_mut()
    }
    pub fn close(&mut self, fd: i32) -> Result<(), i32> {
        let d = match self.p.fds.get_mut(fd as usize) {
            Some(x @ Some(_)) => x.take().unwrap(),
            _ => return Err(EBADF),
        };
        let last = {
            let de = self.p.descs[d].as_mut().unwrap();
            de.refs -= 1;
            de.refs == 0
        };
        if last {
            self.drop_desc(d);
        }
        Ok(())
    }
    pub fn drop_desc(&mut self, d: usize) {
        let de = self.p.descs[d].take().unwrap();
        match de.kind {
            Kind::Stream { rx, tx } => {
                self.chans[rx].rclosed = true;
                self.chans[rx].gen += 1;
                self.chans[tx].wclosed = true;
                self.chans[tx].gen += 1;
                self.events += 1;
            }
            Kind::Listener { ino } => {
                if let Data::Sock(Some(l)) = self.ino(ino).data {
                    self.listens[l].open = false;
                }
            }
            Kind::File { ino, wr, .. } => {
                self.notify_ino(ino, if wr { 0x8 } else { 0x10 });
            }
            Kind::Inotify(i) => self.p.inos[i].watches.clear(),
            _ => {}
        }
        for e in self.p.eps.iter_mut() {
            e.list.retain(|i| i.desc != d);
        }
    }
    /// The process dies: every descriptor is closed.
    pub fn kill_process(&mut self) {
        for d in 0..self.p.descs.len() {
            if self.p.descs[d].is_some() {
                self.drop_desc(d);
            }
        }
    }
    /// (ready mask, change generation)
    pub fn readiness(&self, d: usize) -> (u32, u64) {
        const IN: u32 = 1;
        const OUT: u32 = 4;
        const ERR: u32 = 8;
        const HUP: u32 = 16;
        const RDHUP: u32 = 0x2000;
        let de = match &self.p.descs[d] {
            Some(d) => d,
            None => return (0, 0),
        };
        match &de.kind {
            Kind::Stream { rx, tx } => {
                let (r, t) = (&self.chans[*rx], &self.chans[*tx]);
                let mut m = 0;
                if !r.buf.is_empty() {
                    m |= IN;
                }
                if r.wclosed {
                    m |= IN | RDHUP;
                    if t.rclosed {
                        m |= HUP;
                    }
                }
                if t.rclosed {
                    m |= OUT | ERR;
                }
                if t.buf.len() < 200_000 {
                    m |= OUT;
                }
                (m, r.gen + t.gen)
            }
            Kind::Listener { ino } => {
                if let Data::Sock(Some(l)) = self.ino(*ino).data {
                    let l = &self.listens[l];
                    (if l.backlog.is_empty() { 0 } else { IN }, l.gen)
                } else {
                    (0, 0)
                }
            }
            Kind::Event { count, gen } => (if *count > 0 { IN | OUT } else { OUT }, *gen),
            Kind::Inotify(i) => {
                let i = &self.p.inos[*i];
                (if i.queue.is_empty() { 0 } else { IN }, i.gen)
            }
            Kind::Epoll(e) => {
                let any = self.p.eps[*e].list.iter().any(|i| {
                    let (m, _) = self.readiness(i.desc);
                    m & (i.events | ERR | HUP) != 0
                });
                (if any { IN } else { 0 }, self.events)
            }
            Kind::File { .. } | Kind::Std => (IN | OUT, 0),
            _ => (0, 0),
        }
    }
    pub fn pair(&mut self) -> (Kind, Kind) {
        let a = self.chans.len();
        self.chans.push(Chan::default());
        self.chans.push(Chan::default());
        (Kind::Stream { rx: a, tx: a + 1 }, Kind::Stream { rx: a + 1, tx: a })
    }
    pub fn remove_entry(&mut self, dir: usize, name: &[u8]) {
        let now = self.now;
        if let Data::Dir(m) = &mut self.ino_mut(dir).data {
            if let Some(i) = m.remove(name) {
                let n = self.ino_mut(i);
                n.nlink = n.nlink.saturating_sub(1);
            }
        }
        self.ino_mut(dir).mtime = now;
    }
}
