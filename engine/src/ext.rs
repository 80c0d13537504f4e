//! Functions the engine provides: LLVM intrinsics, libc, and the harness
//! primitives (`vp_*`).

use crate::exec::*;
use crate::expr::{mask, sx, Op, E};
use crate::kernel::*;
use crate::ll::{CallI, B, C, V};
use std::rc::Rc;

pub enum Ret {
    Void,
    Val(V),
    Vals(Vec<V>),
    Body,
    Frames,
    Yield(V),
}
pub struct Cx<'a> {
    pub fi: usize,
    pub ci: &'a CallI,
    pub a: &'a [V],
}
type H = fn(&mut Exec, &mut State, &Cx) -> R<Ret>;

struct Table {
    exact: std::collections::HashMap<&'static str, u16>,
    prefix: Vec<(&'static str, u16)>,
    contains: Vec<(&'static str, u16)>,
    fns: Vec<H>,
}
static mut TABLE: Option<Table> = None;
#[allow(static_mut_refs)]
fn table() -> &'static mut Table {
    unsafe { TABLE.as_mut().unwrap() }
}

pub fn lookup(_ex: &Exec, name: &'static str, _has_body: bool) -> u16 {
    let t = table();
    if let Some(&h) = t.exact.get(name) {
        return h;
    }
    for (p, h) in &t.prefix {
        if name.starts_with(p) {
            return *h;
        }
    }
    for (p, h) in &t.contains {
        if name.contains(p) {
            return *h;
        }
    }
    0
}

pub fn call(ex: &mut Exec, st: &mut State, h: u16, fi: usize, ci: &CallI, a: &[V]) -> R<Ret> {
    let f = table().fns[h as usize];
    f(ex, st, &Cx { fi, ci, a })
}

fn v(x: u64) -> R<Ret> {
    Ok(Ret::Val(V::c(x)))
}
fn err(st: &mut State, e: i32) -> R<Ret> {
    let a = st.th[st.cur].errno_addr;
    let _ = st.mem.write_conc(a, &e.to_le_bytes());
    Ok(Ret::Val(V::c(u64::MAX)))
}
fn err32(st: &mut State, e: i32) -> R<Ret> {
    let _ = err(st, e);
    Ok(Ret::Val(V::c(u32::MAX as u64)))
}
fn errn(st: &mut State, c: &Cx, e: i32) -> R<Ret> {
    if c.ci.retw.first() == Some(&32) {
        err32(st, e)
    } else {
        err(st, e)
    }
}

impl<'a> Cx<'a> {
    /// Concrete value of argument i.
    fn c(&self, ex: &mut Exec, st: &mut State, i: usize) -> R<u64> {
        let x = self.a[i];
        if x.sym == 0 {
            Ok(x.lo)
        } else {
            Ok(ex.concretize(st, x, self.ci.argw[i])? as u64)
        }
    }
    fn i32(&self, ex: &mut Exec, st: &mut State, i: usize) -> R<i32> {
        Ok(self.c(ex, st, i)? as u32 as i32)
    }
}

pub fn cstr(ex: &mut Exec, st: &mut State, p: u64) -> R<Vec<u8>> {
    let mut out = vec![];
    let mut a = p;
    loop {
        let (b, e) = st.mem.byte(a)?;
        let b = if e == 0 { b } else { ex.concretize(st, V::s(e), 8)? as u8 };
        if b == 0 {
            return Ok(out);
        }
        out.push(b);
        a += 1;
    }
}
fn slice_str(ex: &mut Exec, st: &mut State, p: u64, n: u64) -> R<Vec<u8>> {
    let mut out = vec![];
    for i in 0..n {
        let (b, e) = st.mem.byte(p + i)?;
        out.push(if e == 0 { b } else { ex.concretize(st, V::s(e), 8)? as u8 });
    }
    Ok(out)
}
fn rd(st: &mut State, a: u64, n: usize) -> R<u64> {
    let mut r = 0u64;
    for i in 0..n {
        r |= (st.mem.byte(a + i as u64)?.0 as u64) << (8 * i);
    }
    Ok(r)
}
fn wr(st: &mut State, a: u64, n: usize, val: u64) -> R<()> {
    st.mem.write_conc(a, &val.to_le_bytes()[..n])?;
    Ok(())
}

// ------------------------------------------------------------------ allocator

fn class_of(total: u64) -> (usize, u64) {
    if total <= 2048 {
        let c = ((total + 15) / 16) as usize;
        (c, c as u64 * 16)
    } else {
        let p = total.next_power_of_two();
        (160 + p.trailing_zeros() as usize, p)
    }
}
pub fn malloc(st: &mut State, size: u64) -> R<u64> {
    let total = size.max(16) + 16;
    if total > 1 << 28 {
        return Ok(0);
    }
    let (c, bytes) = class_of(total);
    let h = st.heap.free[c];
    let base = if h != 0 {
        let next = rd(st, h + 16, 8)?;
        st.heap.free[c] = next;
        h
    } else {
        let b = st.heap.brk;
        st.heap.brk += bytes;
        if st.heap.brk > st.heap.mapped {
            let n = (st.heap.brk - st.heap.mapped + 0xffff) & !0xffff;
            if st.heap.mapped + n > 0x8000_0000 {
                return Err(Stop::Error("heap exhausted".into()));
            }
            let m = st.heap.mapped;
            st.mem.map(m, n);
            st.heap.mapped += n;
        }
        b
    };
    wr(st, base, 8, c as u64)?;
    wr(st, base + 8, 8, size)?;
    Ok(base + 16)
}
fn memalign(st: &mut State, align: u64, size: u64) -> R<u64> {
    if align <= 16 {
        return malloc(st, size);
    }
    let raw = malloc(st, size + align + 16)?;
    let p = (raw + 16 + align - 1) & !(align - 1);
    // marker header: class 0xffff, size field holds the raw pointer
    wr(st, p - 16, 8, 0xffff_0000 | (size << 32))?;
    wr(st, p - 8, 8, raw)?;
    Ok(p)
}
fn usable(st: &mut State, p: u64) -> R<u64> {
    let c = rd(st, p - 16, 8)?;
    if c & 0xffff_0000 == 0xffff_0000 {
        return Ok(c >> 32);
    }
    rd(st, p - 8, 8)
}
pub fn free(st: &mut State, p: u64) -> R<()> {
    if p == 0 {
        return Ok(());
    }
    let c = rd(st, p - 16, 8)?;
    if c & 0xffff_0000 == 0xffff_0000 {
        let raw = rd(st, p - 8, 8)?;
        return free(st, raw);
    }
    if c as usize >= st.heap.free.len() {
        return Err(Stop::Error(format!("free of bad pointer {:#x}", p)));
    }
    let h = st.heap.free[c as usize];
    wr(st, p, 8, h)?;
    st.heap.free[c as usize] = p - 16;
    Ok(())
}

// --------------------------------------------------------------- intrinsics

fn map2(ex: &mut Exec, st: &mut State, c: &Cx, f: fn(&mut Exec, &mut State, u8, V, V) -> R<V>) -> R<Ret> {
    let n = c.ci.retw.len();
    if n == 1 {
        return Ok(Ret::Val(f(ex, st, c.ci.argw[0], c.a[0], c.a[1])?));
    }
    let mut out = vec![];
    for i in 0..n {
        out.push(f(ex, st, c.ci.argw[i], c.a[i], c.a[n + i])?);
    }
    Ok(Ret::Vals(out))
}
fn map1(ex: &mut Exec, st: &mut State, c: &Cx, f: fn(&mut Exec, &mut State, u8, V) -> R<V>) -> R<Ret> {
    let n = c.ci.retw.len();
    let mut out = vec![];
    for i in 0..n {
        out.push(f(ex, st, c.ci.argw[i], c.a[i])?);
    }
    Ok(Ret::Vals(out))
}
fn pick(ex: &mut Exec, w: u8, cond: V, a: V, b: V) -> V {
    if cond.sym == 0 {
        return if cond.lo & 1 == 1 { a } else { b };
    }
    let (ea, eb) = (ex.e(a, w), ex.e(b, w));
    let r = ex.x.ite(cond.sym, ea, eb);
    ex.ve(r)
}
fn minmax(ex: &mut Exec, st: &State, p: C, w: u8, a: V, b: V) -> V {
    let c = ex.cmp(st, p, w, a, b);
    pick(ex, w, c, a, b)
}
fn with_overflow(ex: &mut Exec, st: &mut State, c: &Cx, op: B, signed: bool) -> R<Ret> {
    let w = c.ci.argw[0];
    let (a, b) = (c.a[0], c.a[1]);
    if a.sym == 0 && b.sym == 0 && w <= 64 {
        let (r, full_ok);
        if signed {
            let (x, y) = (sx(a.u128(), w), sx(b.u128(), w));
            let full = match op {
                B::Add => x + y,
                B::Sub => x - y,
                _ => x * y,
            };
            r = (full as u128) & mask(w);
            full_ok = sx(r, w) == full;
        } else {
            let (x, y) = (a.u128() as i128, b.u128() as i128);
            let full = match op {
                B::Add => x + y,
                B::Sub => x - y,
                _ => ((a.u128()).wrapping_mul(b.u128())) as i128,
            };
            r = (full as u128) & mask(w);
            full_ok = match op {
                B::Mul => a.u128().wrapping_mul(b.u128()) <= mask(w),
                _ => full >= 0 && (full as u128) <= mask(w),
            };
        }
        return Ok(Ret::Vals(vec![V::c128(r), V::c(!full_ok as u64)]));
    }
    let r = ex.bin(st, op, w, a, b)?;
    let ov = if !signed {
        match op {
            B::Add => ex.cmp(st, C::Ult, w, r, a),
            B::Sub => ex.cmp(st, C::Ult, w, a, b),
            _ => {
                if w > 64 {
                    return Err(Stop::Error("wide multiply".into()));
                }
                let (ea, eb) = (ex.e(a, w), ex.e(b, w));
                let (za, zb) = (ex.x.zext(ea, w * 2), ex.x.zext(eb, w * 2));
                let p = ex.x.bin(Op::Mul, za, zb);
                let hi = ex.x.extract(p, w, w);
                let hv = ex.ve(hi);
                ex.cmp(st, C::Ne, w, hv, V::c(0))
            }
        }
    } else {
        if w > 64 {
            return Err(Stop::Error("wide signed overflow".into()));
        }
        let (ea, eb) = (ex.e(a, w), ex.e(b, w));
        let w2 = if op == B::Mul { w * 2 } else { w + 1 };
        let (za, zb) = (ex.x.sext(ea, w2), ex.x.sext(eb, w2));
        let o = match op {
            B::Add => Op::Add,
            B::Sub => Op::Sub,
            _ => Op::Mul,
        };
        let full = ex.x.bin(o, za, zb);
        let re = ex.e(r, w);
        let back = ex.x.sext(re, w2);
        let q = ex.x.eq(full, back);
        let n = ex.x.not(q);
        ex.ve(n)
    };
    Ok(Ret::Vals(vec![r, ov]))
}
fn cmp3(ex: &mut Exec, st: &State, c: &Cx, lt: C) -> R<Ret> {
    let (w, rw) = (c.ci.argw[0], c.ci.retw[0]);
    let l = ex.cmp(st, lt, w, c.a[0], c.a[1]);
    let e = ex.cmp(st, C::Eq, w, c.a[0], c.a[1]);
    let m1 = V::c128(mask(rw));
    let t = pick(ex, rw, e, V::c(0), V::c(1));
    Ok(Ret::Val(pick(ex, rw, l, m1, t)))
}
fn count_zeros(ex: &mut Exec, w: u8, a: V, leading: bool) -> V {
    if a.sym == 0 {
        let x = a.u128();
        let n = if x == 0 {
            w as u32
        } else if leading {
            x.leading_zeros() - (128 - w as u32)
        } else {
            x.trailing_zeros()
        };
        return V::c(n as u64);
    }
    let mut acc = ex.x.konst(w, w as u128);
    let order: Vec<u8> = if leading { (0..w).collect() } else { (0..w).rev().collect() };
    for b in order {
        let bit = ex.x.extract(a.sym, b, 1);
        let k = if leading { w - 1 - b } else { b };
        let ke = ex.x.konst(w, k as u128);
        acc = ex.x.ite(bit, ke, acc);
    }
    ex.ve(acc)
}
fn bswap(ex: &mut Exec, w: u8, a: V) -> V {
    if a.sym == 0 {
        let x = a.u128();
        let mut r = 0u128;
        for i in 0..(w / 8) {
            r = (r << 8) | ((x >> (8 * i)) & 0xff);
        }
        return V::c128(r);
    }
    let mut acc: Option<E> = None;
    for i in 0..(w / 8) {
        let b = ex.x.extract(a.sym, 8 * i, 8);
        acc = Some(match acc {
            None => b,
            Some(x) => ex.x.concat(x, b),
        });
    }
    ex.ve(acc.unwrap())
}

fn compare_mem(ex: &mut Exec, st: &mut State, a: u64, b: u64, n: u64, ordered: bool) -> R<V> {
    // fast concrete prefix
    let mut i = 0;
    let mut pairs: Vec<((u8, E), (u8, E))> = vec![];
    while i < n {
        let (x, y) = (st.mem.byte(a + i)?, st.mem.byte(b + i)?);
        if x.1 == 0 && y.1 == 0 {
            if x.0 != y.0 {
                if pairs.is_empty() || !ordered {
                    let r = if x.0 < y.0 { 0xffff_ffffu64 } else { 1 };
                    return Ok(V::c(r));
                }
                pairs.push((x, y));
                break;
            }
        } else if x.1 != y.1 {
            pairs.push((x, y));
        }
        i += 1;
    }
    if pairs.is_empty() {
        return Ok(V::c(0));
    }
    if !ordered {
        // differ anywhere?
        let mut acc = ex.x.konst(1, 1);
        for (x, y) in pairs {
            let xe = if x.1 != 0 { x.1 } else { ex.x.konst(8, x.0 as u128) };
            let ye = if y.1 != 0 { y.1 } else { ex.x.konst(8, y.0 as u128) };
            let q = ex.x.eq(xe, ye);
            acc = ex.x.bin(Op::And, acc, q);
            if ex.x.as_const(acc) == Some(0) {
                break;
            }
        }
        let z = ex.x.konst(32, 0);
        let o = ex.x.konst(32, 1);
        let r = ex.x.ite(acc, z, o);
        return Ok(ex.ve(r));
    }
    let mut acc = ex.x.konst(32, 0);
    for (x, y) in pairs.into_iter().rev() {
        let xe = if x.1 != 0 { x.1 } else { ex.x.konst(8, x.0 as u128) };
        let ye = if y.1 != 0 { y.1 } else { ex.x.konst(8, y.0 as u128) };
        let q = ex.x.eq(xe, ye);
        let lt = ex.x.bin(Op::Ult, xe, ye);
        let m1 = ex.x.konst(32, 0xffff_ffff);
        let p1 = ex.x.konst(32, 1);
        let d = ex.x.ite(lt, m1, p1);
        acc = ex.x.ite(q, acc, d);
    }
    Ok(ex.ve(acc))
}

// ------------------------------------------------------------------- threads

pub fn thread_exit(ex: &mut Exec, st: &mut State, val: V) -> R<()> {
    let cur = st.cur;
    if cur == 0 {
        return Err(Stop::Done);
    }
    if let Some((f, obj)) = st.th[cur].dtors.pop() {
        st.th[cur].ret = if st.th[cur].ret == 0 { val.lo } else { st.th[cur].ret };
        let fi = ((f - crate::ll::FUNC_BASE) / 16) as usize;
        let fr = st.th[cur].frames.pop().unwrap();
        // run the destructor as a new bottom frame
        let g = ex.m.compile(fi);
        let need = (fr.base + g.nregs) as usize + 16;
        let th = &mut st.th[cur];
        if th.regs.len() < need {
            th.regs.resize(need, V::default());
        }
        th.regs[fr.base as usize] = V::c(obj);
        th.frames.push(Frame { f: g, pc: 0, base: fr.base, sp: fr.sp, d: 0, kind: 1 });
        return Ok(());
    }
    st.th[cur].done = true;
    st.th[cur].block = None;
    st.k.events += 1;
    Err(Stop::Switch)
}

fn block(st: &mut State, deadline: Option<u64>, futex: Option<u64>) -> R<Ret> {
    let _ = st;
    Err(Stop::Block { deadline, futex })
}
/// Was this call already blocked and did its deadline pass?
fn timed_out(st: &State) -> bool {
    match &st.th[st.cur].block {
        Some(b) => b.deadline.map_or(false, |d| d <= st.k.now),
        None => false,
    }
}
fn unblock(st: &mut State) {
    let c = st.cur;
    st.th[c].block = None;
}

fn futex(ex: &mut Exec, st: &mut State, c: &Cx) -> R<Ret> {
    let addr = c.c(ex, st, 1)?;
    let op = c.c(ex, st, 2)? as u32 & 0x7f;
    match op {
        0 | 9 => {
            if let Some(b) = &st.th[st.cur].block {
                if b.woken {
                    unblock(st);
                    return v(0);
                }
                if timed_out(st) {
                    unblock(st);
                    return err(st, ETIMEDOUT);
                }
                return block(st, None, Some(addr));
            }
            let cur = st.mem.load(&mut ex.x, addr, 32)?;
            let cur = ex.concretize(st, cur, 32)? as u32;
            let val = c.c(ex, st, 3)? as u32;
            if cur != val {
                return err(st, EAGAIN);
            }
            let tp = c.c(ex, st, 4)?;
            let deadline = if tp != 0 {
                let t = rd(st, tp, 8)?.saturating_mul(1_000_000_000).saturating_add(rd(st, tp + 8, 8)?);
                Some(if op == 0 { st.k.now.saturating_add(t) } else { t })
            } else {
                None
            };
            block(st, deadline, Some(addr))
        }
        1 | 10 => {
            let n = c.c(ex, st, 3)? as i32 as i64;
            let mut woken = 0;
            for t in st.th.iter_mut() {
                if woken >= n {
                    break;
                }
                if let Some(b) = &mut t.block {
                    if b.futex == Some(addr) && !b.woken {
                        b.woken = true;
                        woken += 1;
                    }
                }
            }
            v(woken as u64)
        }
        _ => Err(Stop::Error(format!("futex op {}", op))),
    }
}

// ------------------------------------------------------------------- sections

pub fn section_end(_ex: &mut Exec, st: &mut State, code: u64) -> R<()> {
    let secs = Rc::make_mut(&mut st.sections);
    let s = secs.pop().expect("section");
    st.k.kill_process();
    st.k.p = s.proc.clone();
    if let Some(c) = &mut st.k.crash {
        c.armed = false;
    }
    // snapshot() needs &mut only to flush the write TLB, which is empty here
    let sm = unsafe { &mut *(Rc::as_ptr(&s) as *mut Section) };
    st.mem = sm.mem.snapshot();
    st.th = s.th.clone();
    st.cur = s.cur;
    st.heap = s.heap.clone();
    let th = &mut st.th[st.cur];
    let fr = th.frames.last_mut().unwrap();
    let slot = fr.base + fr.d_slot();
    fr.pc += 1;
    th.regs[slot as usize] = V::c(code);
    Ok(())
}
impl Frame {
    fn d_slot(&self) -> u32 {
        match &self.f.code[self.pc as usize] {
            crate::ll::I::Call(ci) => ci.d,
            _ => panic!("section call"),
        }
    }
}

/// Whether a panic just ends the current section.
fn may_panic(st: &State) -> bool {
    !st.sections.is_empty() && st.k.p.may_panic
}

/// Decision whether the process dies at this file-system mutation. For a
/// write, `n` is its length and the result is how much of it reaches the disk.
fn crash_point(ex: &mut Exec, st: &mut State, n: u64) -> R<Option<u64>> {
    let (var, pvar, count) = match &st.k.crash {
        Some(c) if c.armed && c.count < c.max => (c.var, c.pvar, c.count),
        _ => return Ok(None),
    };
    let k = ex.x.konst(8, count as u128);
    let e = ex.x.eq(var, k);
    if ex.decide(st, e)? {
        let part = if n > 0 {
            let p = ex.concretize(st, V::s(pvar), 8)? as u64;
            // p of 256 parts
            (n * p) / 256
        } else {
            0
        };
        return Ok(Some(part));
    }
    st.k.crash.as_mut().unwrap().count += 1;
    Ok(None)
}
macro_rules! crashable {
    ($ex:expr, $st:expr) => {
        if crash_point($ex, $st, 0)?.is_some() {
            section_end($ex, $st, 1)?;
            return Ok(Ret::Frames);
        }
    };
}

// ------------------------------------------------------------------- files

fn write_stat(ex: &mut Exec, st: &mut State, ino: usize, buf: u64) -> R<()> {
    let n = st.k.ino(ino).clone();
    st.mem.fill(buf, 144, 0, 0)?;
    let size = match &n.data {
        Data::File(d) => d.len() as u64,
        Data::Dir(_) => 4096,
        Data::Link(t) => t.len() as u64,
        _ => 0,
    };
    let t = n.mtime + 1_700_000_000_000_000_000;
    wr(st, buf, 8, 1)?;
    wr(st, buf + 8, 8, ino as u64 + 1)?;
    wr(st, buf + 16, 8, n.nlink as u64)?;
    wr(st, buf + 24, 4, n.mode as u64)?;
    if n.perms != 0 {
        let kind = ex.x.konst(32, (n.mode & !0o7777) as u128);
        let perms = ex.x.zext(n.perms, 32);
        let e = ex.x.bin(Op::Or, kind, perms);
        let m = ex.ve(e);
        st.mem.store(&mut ex.x, buf + 24, 32, m)?;
    }
    wr(st, buf + 28, 4, 0)?;
    wr(st, buf + 48, 8, size)?;
    wr(st, buf + 56, 8, 4096)?;
    wr(st, buf + 64, 8, (size + 511) / 512)?;
    for o in [72, 88, 104] {
        wr(st, buf + o, 8, t / 1_000_000_000)?;
        wr(st, buf + o + 8, 8, t % 1_000_000_000)?;
    }
    Ok(())
}
fn stat_path(ex: &mut Exec, st: &mut State, c: &Cx, follow: bool) -> R<Ret> {
    let p = c.c(ex, st, 0)?;
    let path = cstr(ex, st, p)?;
    let buf = c.c(ex, st, 1)?;
    match st.k.resolve(&path, follow) {
        Ok((_, _, Some(i))) => {
            write_stat(ex, st, i, buf)?;
            v(0)
        }
        Ok(_) => err32(st, ENOENT),
        Err(e) => err32(st, e),
    }
}
fn dir_base(st: &State, dfd: i32) -> Result<usize, i32> {
    if dfd == -100 {
        return Ok(st.k.p.cwd);
    }
    match st.k.desc(dfd) {
        Some((_, Desc { kind: Kind::Dir { ino }, .. })) => Ok(*ino),
        Some((_, Desc { kind: Kind::File { ino, .. }, .. })) => Ok(*ino),
        _ => Err(EBADF),
    }
}
fn open(ex: &mut Exec, st: &mut State, c: &Cx) -> R<Ret> {
    let p = c.c(ex, st, 0)?;
    let path = cstr(ex, st, p)?;
    let flags = c.c(ex, st, 1)? as u32;
    let mode = if c.a.len() > 2 { c.c(ex, st, 2)? as u32 } else { 0o644 };
    let base = st.k.p.cwd;
    open_at(ex, st, base, &path, flags, mode)
}
fn open_at(ex: &mut Exec, st: &mut State, base: usize, path: &[u8], flags: u32, mode: u32) -> R<Ret> {
    let (creat, excl, trunc, append) = (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
    let acc = flags & 3;
    let (rdf, wrf) = (acc != 1, acc != 0);
    let nofollow = flags & 0o400000 != 0 || (creat && excl);
    let (dir, name, ino) = match st.k.resolve_from(base, path, !nofollow, 0) {
        Ok(x) => x,
        Err(e) => return err32(st, e),
    };
    let ino = match ino {
        Some(i) => {
            if creat && excl {
                return err32(st, EEXIST);
            }
            let dir_write = wrf && matches!(st.k.ino(i).data, Data::Dir(_));
            if !dir_write && !st.k.may(i, if rdf { 4 } else { 0 } | if wrf { 2 } else { 0 }) {
                return err32(st, EACCES);
            }
            i
        }
        None => {
            if !creat {
                return err32(st, ENOENT);
            }
            if path.ends_with(b"/") {
                return err32(st, EISDIR);
            }
            if !st.k.may(dir, 2) {
                return err32(st, EACCES);
            }
            crashable!(ex, st);
            let m = 0o100000 | (mode & !st.k.p.umask & 0o7777);
            let i = st.k.create(dir, &name, Data::File(vec![]), m);
            st.k.notify(dir, 0x100, &name, 0);
            i
        }
    };
    let nb = flags & 0o4000 != 0;
    match &st.k.ino(ino).data {
        Data::Dir(_) => {
            if wrf {
                return err32(st, EISDIR);
            }
            let fd = st.k.new_desc(Kind::Dir { ino }, nb);
            return v(fd as u64);
        }
        Data::Link(_) => return err32(st, ELOOP),
        Data::Sock(_) => return err32(st, 6),
        _ => {}
    }
    if flags & 0o200000 != 0 {
        return err32(st, ENOTDIR);
    }
    if trunc && wrf {
        if let Data::File(d) = &st.k.ino(ino).data {
            if !d.is_empty() {
                crashable!(ex, st);
                if let Data::File(d) = &mut st.k.ino_mut(ino).data {
                    d.clear();
                }
                st.k.notify_ino(ino, 0x2);
            }
        }
    }
    let fd = st.k.new_desc(Kind::File { ino, off: 0, append, wr: wrf, rd: rdf }, nb);
    st.k.notify_ino(ino, 0x20);
    v(fd as u64)
}
fn read_fd(ex: &mut Exec, st: &mut State, c: &Cx, fd: i32, bufs: &[(u64, u64)], pos: Option<u64>) -> R<Ret> {
    let total: u64 = bufs.iter().map(|b| b.1).sum();
    let (di, kind, nb) = match st.k.desc(fd) {
        Some((i, d)) => (i, d.kind.clone(), d.nonblock),
        None => return errn(st, c, EBADF),
    };
    let _ = ex;
    let data: Vec<Byte> = match kind {
        Kind::File { ino, off, rd, .. } => {
            if !rd {
                return errn(st, c, EBADF);
            }
            let o = pos.unwrap_or(off) as usize;
            let d = match &st.k.ino(ino).data {
                Data::File(d) => d[o.min(d.len())..(o + total as usize).min(d.len()).max(o.min(d.len()))].to_vec(),
                _ => vec![],
            };
            if pos.is_none() {
                if let Some(Desc { kind: Kind::File { off, .. }, .. }) = &mut st.k.p.descs[di] {
                    *off += d.len() as u64;
                }
            }
            d
        }
        Kind::Dir { .. } => return errn(st, c, EISDIR),
        Kind::Std => vec![],
        Kind::Stream { rx, .. } => {
            let ch = &mut st.k.chans[rx];
            if ch.buf.is_empty() {
                if ch.wclosed || total == 0 {
                    vec![]
                } else if nb {
                    return errn(st, c, EAGAIN);
                } else {
                    return block(st, None, None);
                }
            } else {
                let n = ch.buf.len().min(total as usize);
                let d: Vec<Byte> = ch.buf.drain(..n).collect();
                ch.gen += 0;
                st.k.events += 1;
                d
            }
        }
        Kind::Event { count, gen } => {
            if count == 0 {
                return if nb { errn(st, c, EAGAIN) } else { block(st, None, None) };
            }
            if let Some(d) = &mut st.k.p.descs[di] {
                d.kind = Kind::Event { count: 0, gen };
            }
            count.to_le_bytes().iter().map(|b| (*b, 0)).collect()
        }
        Kind::Inotify(i) => {
            let q = &mut st.k.p.inos[i];
            if q.queue.is_empty() {
                return if nb { errn(st, c, EAGAIN) } else { block(st, None, None) };
            }
            let mut out: Vec<Byte> = vec![];
            while let Some(e) = q.queue.front() {
                if out.len() + e.len() > total as usize {
                    break;
                }
                let e = q.queue.pop_front().unwrap();
                out.extend(e.into_iter().map(|b| (b, 0)));
            }
            out
        }
        _ => return errn(st, c, EINVAL),
    };
    unblock(st);
    let mut it = data.iter();
    'o: for (a, n) in bufs {
        for i in 0..*n {
            match it.next() {
                Some((b, e)) => st.mem.set_byte(a + i, *b, *e)?,
                None => break 'o,
            }
        }
    }
    v(data.len() as u64)
}
fn write_fd(ex: &mut Exec, st: &mut State, c: &Cx, fd: i32, bufs: &[(u64, u64)]) -> R<Ret> {
    let (di, kind, nb) = match st.k.desc(fd) {
        Some((i, d)) => (i, d.kind.clone(), d.nonblock),
        None => return errn(st, c, EBADF),
    };
    let mut data: Vec<Byte> = vec![];
    for (a, n) in bufs {
        data.extend(st.mem.read_bytes(*a, *n as usize)?);
    }
    let total = data.len() as u64;
    match kind {
        Kind::File { ino, off, append, wr, .. } => {
            if !wr {
                return errn(st, c, EBADF);
            }
            let crash = if total > 0 { crash_point(ex, st, total)? } else { None };
            if let Some(part) = crash {
                data.truncate(part as usize);
            }
            let now = st.k.now;
            let n = st.k.ino_mut(ino);
            n.mtime = now;
            let mut newoff = off;
            if let Data::File(d) = &mut n.data {
                let o = if append { d.len() } else { off as usize };
                if d.len() < o {
                    d.resize(o, (0, 0));
                }
                let ov = (d.len() - o).min(data.len());
                d[o..o + ov].copy_from_slice(&data[..ov]);
                d.extend_from_slice(&data[ov..]);
                newoff = (o + data.len()) as u64;
            }
            if crash.is_some() {
                section_end(ex, st, 1)?;
                return Ok(Ret::Frames);
            }
            if let Some(Desc { kind: Kind::File { off, .. }, .. }) = &mut st.k.p.descs[di] {
                *off = newoff;
            }
            st.k.notify_ino(ino, 0x2);
            v(total)
        }
        Kind::Std => {
            if ex.crash_log {
                let s: Vec<u8> = data.iter().map(|b| if b.1 != 0 { b'?' } else { b.0 }).collect();
                eprint!("{}", String::from_utf8_lossy(&s));
            }
            v(total)
        }
        Kind::Stream { tx, .. } => {
            let ch = &mut st.k.chans[tx];
            if ch.rclosed {
                return errn(st, c, EPIPE);
            }
            let room = 212_992usize.saturating_sub(ch.buf.len());
            if room == 0 {
                return if nb { errn(st, c, EAGAIN) } else { block(st, None, None) };
            }
            let n = room.min(data.len());
            ch.buf.extend(data[..n].iter().cloned());
            ch.gen += 1;
            st.k.events += 1;
            unblock(st);
            v(n as u64)
        }
        Kind::Event { count, gen } => {
            let add = data.iter().enumerate().fold(0u64, |a, (i, b)| a | (b.0 as u64) << (8 * i));
            if let Some(d) = &mut st.k.p.descs[di] {
                d.kind = Kind::Event { count: count + add, gen: gen + 1 };
            }
            st.k.events += 1;
            v(8)
        }
        _ => errn(st, c, EINVAL),
    }
}
fn iov(ex: &mut Exec, st: &mut State, p: u64, n: u64) -> R<Vec<(u64, u64)>> {
    let mut out = vec![];
    for i in 0..n {
        let a = st.mem.load(&mut ex.x, p + 16 * i, 64)?;
        let l = st.mem.load(&mut ex.x, p + 16 * i + 8, 64)?;
        let a = ex.concretize(st, a, 64)? as u64;
        let l = ex.concretize(st, l, 64)? as u64;
        out.push((a, l));
    }
    Ok(out)
}
fn sock_path(ex: &mut Exec, st: &mut State, p: u64, len: u64) -> R<Vec<u8>> {
    let b = slice_str(ex, st, p + 2, len.saturating_sub(2))?;
    Ok(b.split(|c| *c == 0).next().unwrap_or(&[]).to_vec())
}

fn epoll_wait(ex: &mut Exec, st: &mut State, c: &Cx) -> R<Ret> {
    let fd = c.i32(ex, st, 0)?;
    let (evs, max) = (c.c(ex, st, 1)?, c.c(ex, st, 2)?);
    let timeout = c.i32(ex, st, 3)?;
    let e = match st.k.desc(fd) {
        Some((_, Desc { kind: Kind::Epoll(e), .. })) => *e,
        _ => return err32(st, EBADF),
    };
    let mut out = vec![];
    let list = st.k.p.eps[e].list.clone();
    for (i, it) in list.iter().enumerate() {
        if out.len() as u64 >= max {
            break;
        }
        if !it.armed {
            continue;
        }
        let (m, gen) = st.k.readiness(it.desc);
        let m = m & (it.events | 8 | 16);
        if m == 0 {
            st.k.p.eps[e].list[i].lastmask = 0;
            continue;
        }
        let et = it.events & 0x8000_0000 != 0;
        if et && gen == it.last && m == it.lastmask {
            continue;
        }
        st.k.p.eps[e].list[i].last = gen;
        st.k.p.eps[e].list[i].lastmask = m;
        if it.events & 0x4000_0000 != 0 {
            st.k.p.eps[e].list[i].armed = false;
        }
        out.push((m, it.data));
    }
    if out.is_empty() {
        if timeout == 0 {
            // let other threads make progress
            unblock(st);
            return Ok(Ret::Yield(V::c(0)));
        }
        if timed_out(st) {
            unblock(st);
            return v(0);
        }
        let dl = if timeout > 0 { Some(st.k.now + timeout as u64 * 1_000_000) } else { None };
        return block(st, dl, None);
    }
    for (i, (m, d)) in out.iter().enumerate() {
        wr(st, evs + 12 * i as u64, 4, *m as u64)?;
        wr(st, evs + 12 * i as u64 + 4, 8, *d)?;
    }
    unblock(st);
    v(out.len() as u64)
}

fn panic_location(ex: &mut Exec, st: &mut State, loc: V) -> String {
    let r: R<String> = (|| {
        if loc.sym != 0 {
            return Ok("?".to_string());
        }
        let (fp, fl) = (rd(st, loc.lo, 8)?, rd(st, loc.lo + 8, 8)?);
        let (line, col) = (rd(st, loc.lo + 16, 4)?, rd(st, loc.lo + 20, 4)?);
        let f = slice_str(ex, st, fp, fl.min(500))?;
        Ok(format!("{}:{}:{}", String::from_utf8_lossy(&f).trim_end_matches('\0'), line, col))
    })();
    r.unwrap_or_else(|_| "?".into())
}

impl Exec {
    /// Text of a byte string under a model.
    pub fn show(&mut self, b: &[Byte], model: &[u8]) -> String {
        let mut s = vec![];
        for (x, e) in b {
            let y = if *e == 0 { *x } else { self.x.eval(*e, model) as u8 };
            s.push(y);
        }
        String::from_utf8_lossy(&s).into_owned()
    }
}

pub fn register(_ex: &mut Exec) {
    let mut t = Table {
        exact: Default::default(),
        prefix: vec![],
        contains: vec![],
        fns: vec![|_, _, _| Ok(Ret::Body), |_, _, _| Ok(Ret::Body)],
    };
    macro_rules! on {
        ($($n:literal)|+, $f:expr) => {{
            let h: H = $f;
            t.fns.push(h);
            let id = t.fns.len() as u16 - 1;
            $(
                if $n.ends_with('*') {
                    t.prefix.push((&$n[..$n.len() - 1], id));
                } else if $n.starts_with('~') {
                    t.contains.push((&$n[1..], id));
                } else {
                    t.exact.insert($n, id);
                }
            )+
        }};
    }
    // ---- intrinsics
    on!("llvm.memcpy.*" | "llvm.memmove.*" | "memcpy" | "memmove", |ex, st, c| {
        let n = c.c(ex, st, 2)?;
        if n == 0 {
            return Ok(Ret::Val(c.a[0]));
        }
        let (d, s) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        st.mem.copy(d, s, n)?;
        if c.ci.retw.is_empty() {
            return Ok(Ret::Void);
        }
        v(d)
    });
    on!("llvm.memset.*" | "memset", |ex, st, c| {
        let n = c.c(ex, st, 2)?;
        let d = c.c(ex, st, 0)?;
        let b = c.a[1];
        let e = if b.sym != 0 { ex.x.extract(b.sym, 0, 8) } else { 0 };
        st.mem.fill(d, n, b.lo as u8, e)?;
        if c.ci.retw.is_empty() {
            return Ok(Ret::Void);
        }
        v(d)
    });
    on!("llvm.lifetime.*" | "llvm.experimental.noalias*" | "llvm.assume" | "llvm.donothing" | "llvm.prefetch*" | "llvm.va_start*" | "llvm.va_end*", |_, _, _| Ok(Ret::Void));
    on!("llvm.x86.sse2.pause", |_, st, _| {
        st.k.now += 100;
        Ok(Ret::Yield(V::c(0)))
    });
    on!("sched_yield", |_, st, _| {
        st.k.now += 100;
        Ok(Ret::Yield(V::c(0)))
    });
    on!("llvm.umin.*", |ex, st, c| map2(ex, st, c, |ex, st, w, a, b| Ok(minmax(ex, st, C::Ult, w, a, b))));
    on!("llvm.umax.*", |ex, st, c| map2(ex, st, c, |ex, st, w, a, b| Ok(minmax(ex, st, C::Ugt, w, a, b))));
    on!("llvm.smin.*", |ex, st, c| map2(ex, st, c, |ex, st, w, a, b| Ok(minmax(ex, st, C::Slt, w, a, b))));
    on!("llvm.smax.*", |ex, st, c| map2(ex, st, c, |ex, st, w, a, b| Ok(minmax(ex, st, C::Sgt, w, a, b))));
    on!("llvm.usub.sat.*", |ex, st, c| map2(ex, st, c, |ex, st, w, a, b| {
        let s = ex.bin(st, B::Sub, w, a, b)?;
        let l = ex.cmp(st, C::Ult, w, a, b);
        Ok(pick(ex, w, l, V::c(0), s))
    }));
    on!("llvm.uadd.sat.*", |ex, st, c| map2(ex, st, c, |ex, st, w, a, b| {
        let s = ex.bin(st, B::Add, w, a, b)?;
        let l = ex.cmp(st, C::Ult, w, s, a);
        Ok(pick(ex, w, l, V::c128(mask(w)), s))
    }));
    on!("llvm.sadd.sat.*" | "llvm.ssub.sat.*", |ex, st, c| {
        let w = c.ci.argw[0];
        let a = sx(ex.concretize(st, c.a[0], w)?, w);
        let b = sx(ex.concretize(st, c.a[1], w)?, w);
        let sub = ex.m.func_name(c.fi).contains("ssub");
        let r = if sub { a - b } else { a + b };
        let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        Ok(Ret::Val(V::c128((r.clamp(lo, hi) as u128) & mask(w))))
    });
    on!("llvm.uadd.with.overflow.*", |ex, st, c| with_overflow(ex, st, c, B::Add, false));
    on!("llvm.usub.with.overflow.*", |ex, st, c| with_overflow(ex, st, c, B::Sub, false));
    on!("llvm.umul.with.overflow.*", |ex, st, c| with_overflow(ex, st, c, B::Mul, false));
    on!("llvm.sadd.with.overflow.*", |ex, st, c| with_overflow(ex, st, c, B::Add, true));
    on!("llvm.ssub.with.overflow.*", |ex, st, c| with_overflow(ex, st, c, B::Sub, true));
    on!("llvm.smul.with.overflow.*", |ex, st, c| with_overflow(ex, st, c, B::Mul, true));
    on!("llvm.ucmp.*", |ex, st, c| cmp3(ex, st, c, C::Ult));
    on!("llvm.scmp.*", |ex, st, c| cmp3(ex, st, c, C::Slt));
    on!("llvm.cttz.*", |ex, _, c| Ok(Ret::Val(count_zeros(ex, c.ci.argw[0], c.a[0], false))));
    on!("llvm.ctlz.*", |ex, _, c| Ok(Ret::Val(count_zeros(ex, c.ci.argw[0], c.a[0], true))));
    on!("llvm.ctpop.*", |ex, st, c| map1(ex, st, c, |ex, _, w, a| {
        if a.sym == 0 {
            return Ok(V::c(a.u128().count_ones() as u64));
        }
        let mut acc = ex.x.konst(w, 0);
        for i in 0..w {
            let b = ex.x.extract(a.sym, i, 1);
            let z = ex.x.zext(b, w);
            acc = ex.x.bin(Op::Add, acc, z);
        }
        Ok(ex.ve(acc))
    }));
    on!("llvm.bswap.*", |ex, st, c| map1(ex, st, c, |ex, _, w, a| Ok(bswap(ex, w, a))));
    on!("llvm.bitreverse.*", |ex, st, c| map1(ex, st, c, |ex, st, w, a| {
        let x = ex.concretize(st, a, w)?;
        Ok(V::c128(x.reverse_bits() >> (128 - w as u32)))
    }));
    on!("llvm.fshl.*" | "llvm.fshr.*", |ex, st, c| {
        let n = c.ci.retw.len();
        let left = ex.m.func_name(c.fi).contains("fshl");
        let mut out = vec![];
        for i in 0..n {
            let w = c.ci.argw[i];
            let (a, b) = (c.a[i], c.a[n + i]);
            let s = (ex.concretize(st, c.a[2 * n + i], w)? % w as u128) as u8;
            if s == 0 {
                out.push(if left { a } else { b });
                continue;
            }
            let sl = if left { s } else { w - s };
            if a.sym == 0 && b.sym == 0 {
                out.push(V::c128(((a.u128() << sl) | (b.u128() >> (w - sl))) & mask(w)));
            } else {
                let (ea, eb) = (ex.e(a, w), ex.e(b, w));
                let hi = ex.x.extract(ea, 0, w - sl);
                let lo = ex.x.extract(eb, w - sl, sl);
                let r = ex.x.concat(hi, lo);
                out.push(ex.ve(r));
            }
        }
        Ok(Ret::Vals(out))
    });
    on!("llvm.abs.*", |ex, st, c| map1(ex, st, c, |ex, st, w, a| {
        let neg = ex.bin(st, B::Sub, w, V::c(0), a)?;
        let l = ex.cmp(st, C::Slt, w, a, V::c(0));
        Ok(pick(ex, w, l, neg, a))
    }));
    on!("llvm.is.constant.*", |_, _, _| v(0));
    on!("llvm.expect.*", |_, _, c| Ok(Ret::Val(c.a[0])));
    on!("llvm.stacksave*", |_, st, _| v(st.th[st.cur].sp));
    on!("llvm.stackrestore*", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let cur = st.cur;
        st.th[cur].sp = p;
        Ok(Ret::Void)
    });
    on!("llvm.threadlocal.address*", |_, st, c| v(c.a[0].lo.wrapping_add(st.th[st.cur].tls)));
    on!("llvm.fabs.*", |ex, st, c| {
        let w = c.ci.argw[0];
        let x = ex.concretize(st, c.a[0], w)?;
        Ok(Ret::Val(V::c128(x & (mask(w) >> 1))))
    });
    on!("llvm.floor.*" | "llvm.ceil.*" | "llvm.trunc.f*" | "llvm.round.*" | "llvm.rint.*" | "llvm.sqrt.*" | "llvm.log2.*" | "llvm.log.*" | "llvm.exp.*" | "llvm.roundeven.*" | "log2" | "log" | "exp" | "floor" | "ceil" | "llvm.log10.*" | "llvm.exp2.*", |ex, st, c| {
        let w = c.ci.argw[0];
        let b = ex.concretize(st, c.a[0], w)?;
        let x = if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
        let n = ex.m.func_name(c.fi);
        let r = if n.contains("floor") {
            x.floor()
        } else if n.contains("ceil") {
            x.ceil()
        } else if n.contains("trunc") {
            x.trunc()
        } else if n.contains("rint") || n.contains("roundeven") {
            x.round_ties_even()
        } else if n.contains("round") {
            x.round()
        } else if n.contains("sqrt") {
            x.sqrt()
        } else if n.contains("log2") {
            x.log2()
        } else if n.contains("log10") {
            x.log10()
        } else if n.contains("log") {
            x.ln()
        } else if n.contains("exp2") {
            x.exp2()
        } else {
            x.exp()
        };
        v(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() })
    });
    on!("pow" | "llvm.pow.*" | "llvm.powi.*", |ex, st, c| {
        let a = f64::from_bits(ex.concretize(st, c.a[0], 64)? as u64);
        let r = if c.ci.argw[1] == 32 {
            let b = ex.concretize(st, c.a[1], 32)? as u32 as i32;
            a.powi(b)
        } else {
            let b = f64::from_bits(ex.concretize(st, c.a[1], 64)? as u64);
            a.powf(b)
        };
        v(r.to_bits())
    });
    on!("llvm.maxnum.*" | "llvm.minnum.*" | "llvm.copysign.*", |ex, st, c| {
        let a = f64::from_bits(ex.concretize(st, c.a[0], 64)? as u64);
        let b = f64::from_bits(ex.concretize(st, c.a[1], 64)? as u64);
        let n = ex.m.func_name(c.fi);
        let r = if n.contains("max") { a.max(b) } else if n.contains("min") { a.min(b) } else { a.copysign(b) };
        v(r.to_bits())
    });
    on!("llvm.fptoui.sat.*" | "llvm.fptosi.sat.*", |ex, st, c| {
        let w = c.ci.argw[0];
        let b = ex.concretize(st, c.a[0], w)?;
        let x = if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
        let rw = c.ci.retw[0];
        if ex.m.func_name(c.fi).contains("fptoui") {
            let m = mask(rw);
            Ok(Ret::Val(V::c128((x as u128).min(m))))
        } else {
            let (lo, hi) = (-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1);
            Ok(Ret::Val(V::c128(((x as i128).clamp(lo, hi) as u128) & mask(rw))))
        }
    });
    on!("llvm.x86.sse2.psad.bw", |ex, st, c| {
        let mut out = vec![];
        for h in 0..2 {
            let mut acc = V::c(0);
            for i in 0..8 {
                let (a, b) = (c.a[h * 8 + i], c.a[16 + h * 8 + i]);
                let d1 = ex.bin(st, B::Sub, 8, a, b)?;
                let d2 = ex.bin(st, B::Sub, 8, b, a)?;
                let l = ex.cmp(st, C::Ult, 8, a, b);
                let d = pick(ex, 8, l, d2, d1);
                let e = ex.e(d, 8);
                let z = ex.x.zext(e, 64);
                let z = ex.ve(z);
                acc = ex.bin(st, B::Add, 64, acc, z)?;
            }
            out.push(acc);
        }
        Ok(Ret::Vals(out))
    });
    on!("llvm.vector.reduce.*", |ex, st, c| {
        let n = ex.m.func_name(c.fi);
        let w = c.ci.argw[0];
        let mut acc = c.a[0];
        for i in 1..c.a.len() {
            let b = c.a[i];
            acc = if n.contains(".or.") {
                ex.bin(st, B::Or, w, acc, b)?
            } else if n.contains(".and.") {
                ex.bin(st, B::And, w, acc, b)?
            } else if n.contains(".add.") {
                ex.bin(st, B::Add, w, acc, b)?
            } else if n.contains(".xor.") {
                ex.bin(st, B::Xor, w, acc, b)?
            } else if n.contains(".umax.") {
                minmax(ex, st, C::Ugt, w, acc, b)
            } else if n.contains(".umin.") {
                minmax(ex, st, C::Ult, w, acc, b)
            } else {
                return Err(Stop::Error(format!("reduce {}", n)));
            };
        }
        Ok(Ret::Val(acc))
    });
    on!("llvm.trap" | "abort" | "llvm.ubsantrap*" | "llvm.debugtrap", |ex, st, _| {
        Err(Stop::Panic(format!("abort{}", ex.stack_trace(st))))
    });
    // ---- memory
    on!("bcmp", |ex, st, c| {
        let n = c.c(ex, st, 2)?;
        if n == 0 {
            return v(0);
        }
        let (a, b) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        Ok(Ret::Val(compare_mem(ex, st, a, b, n, false)?))
    });
    on!("memcmp", |ex, st, c| {
        let n = c.c(ex, st, 2)?;
        if n == 0 {
            return v(0);
        }
        let (a, b) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        Ok(Ret::Val(compare_mem(ex, st, a, b, n, true)?))
    });
    on!("strlen", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let mut n = 0;
        loop {
            let (b, e) = st.mem.byte(p + n)?;
            let z = if e == 0 {
                b == 0
            } else {
                let k = ex.x.konst(8, 0);
                let q = ex.x.eq(e, k);
                ex.decide(st, q)?
            };
            if z {
                return v(n);
            }
            n += 1;
        }
    });
    on!("memchr", |ex, st, c| {
        let (p, n) = (c.c(ex, st, 0)?, c.c(ex, st, 2)?);
        let b = c.c(ex, st, 1)? as u8;
        for i in 0..n {
            let (x, e) = st.mem.byte(p + i)?;
            let hit = if e == 0 {
                x == b
            } else {
                let k = ex.x.konst(8, b as u128);
                let q = ex.x.eq(e, k);
                ex.decide(st, q)?
            };
            if hit {
                return v(p + i);
            }
        }
        v(0)
    });
    on!("memrchr", |ex, st, c| {
        let (p, n) = (c.c(ex, st, 0)?, c.c(ex, st, 2)?);
        let b = c.c(ex, st, 1)? as u8;
        for i in (0..n).rev() {
            let (x, e) = st.mem.byte(p + i)?;
            let hit = if e == 0 {
                x == b
            } else {
                let k = ex.x.konst(8, b as u128);
                let q = ex.x.eq(e, k);
                ex.decide(st, q)?
            };
            if hit {
                return v(p + i);
            }
        }
        v(0)
    });
    on!("malloc", |ex, st, c| {
        let n = c.c(ex, st, 0)?;
        v(malloc(st, n)?)
    });
    on!("calloc", |ex, st, c| {
        let n = c.c(ex, st, 0)?.saturating_mul(c.c(ex, st, 1)?);
        let p = malloc(st, n)?;
        if p != 0 {
            st.mem.fill(p, n, 0, 0)?;
        }
        v(p)
    });
    on!("realloc", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let n = c.c(ex, st, 1)?;
        if p == 0 {
            return v(malloc(st, n)?);
        }
        let old = usable(st, p)?;
        let q = malloc(st, n)?;
        if q == 0 {
            return v(0);
        }
        st.mem.copy(q, p, old.min(n))?;
        free(st, p)?;
        v(q)
    });
    on!("free", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        free(st, p)?;
        Ok(Ret::Void)
    });
    on!("posix_memalign", |ex, st, c| {
        let (o, al, n) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        let p = memalign(st, al, n)?;
        wr(st, o, 8, p)?;
        v(0)
    });
    on!("aligned_alloc" | "memalign", |ex, st, c| {
        let (al, n) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        v(memalign(st, al, n)?)
    });
    on!("mmap" | "mmap64", |ex, st, c| {
        let n = c.c(ex, st, 1)?;
        let b = (st.heap.brk + 4095) & !4095;
        let n = (n + 4095) & !4095;
        st.heap.brk = b + n;
        if st.heap.brk > st.heap.mapped {
            let m = st.heap.mapped;
            let l = (st.heap.brk - m + 0xffff) & !0xffff;
            st.mem.map(m, l);
            st.heap.mapped = m + l;
        }
        st.mem.fill(b, n, 0, 0)?;
        v(b)
    });
    on!("munmap" | "mprotect" | "madvise", |_, _, _| v(0));
    // ---- misc libc
    on!("__errno_location", |_, st, _| v(st.th[st.cur].errno_addr));
    on!("getenv" | "secure_getenv", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let n = cstr(ex, st, p)?;
        match st.k.p.env.get(&n).cloned() {
            None => v(0),
            Some(val) => {
                if let Some(p) = st.k.p.env_ptrs.get(&n) {
                    return v(*p);
                }
                let p = malloc(st, val.len() as u64 + 1)?;
                st.mem.write_conc(p, &val)?;
                st.mem.set_byte(p + val.len() as u64, 0, 0)?;
                Rc::make_mut(&mut st.k.p.env_ptrs).insert(n, p);
                v(p)
            }
        }
    });
    on!("setenv", |ex, st, c| {
        let (p, q) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        let (n, val) = (cstr(ex, st, p)?, cstr(ex, st, q)?);
        Rc::make_mut(&mut st.k.p.env_ptrs).remove(&n);
        Rc::make_mut(&mut st.k.p.env).insert(n, val);
        v(0)
    });
    on!("unsetenv", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let n = cstr(ex, st, p)?;
        Rc::make_mut(&mut st.k.p.env_ptrs).remove(&n);
        Rc::make_mut(&mut st.k.p.env).remove(&n);
        v(0)
    });
    on!("getrandom", |ex, st, c| {
        let (p, n) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        for i in 0..n {
            let b = st.k.rand() as u8;
            st.mem.set_byte(p + i, b, 0)?;
        }
        v(n)
    });
    on!("getentropy", |ex, st, c| {
        let (p, n) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        for i in 0..n {
            let b = st.k.rand() as u8;
            st.mem.set_byte(p + i, b, 0)?;
        }
        v(0)
    });
    on!("sysconf", |ex, st, c| {
        let n = c.c(ex, st, 0)?;
        v(match n {
            30 => 4096,
            84 | 83 => 1,
            69 | 70 => 1024,
            _ => u64::MAX,
        })
    });
    on!("sched_getaffinity", |_, st, _| err32(st, ENOSYS));
    on!("getpid" | "getppid", |_, _, _| v(4242));
    on!("gettid", |_, st, _| v(4242 + st.cur as u64));
    on!("getuid" | "geteuid" | "getgid" | "getegid", |_, _, _| v(0));
    on!("getpwuid_r", |ex, st, c| {
        let res = c.c(ex, st, 4)?;
        wr(st, res, 8, 0)?;
        v(0)
    });
    on!("getauxval", |_, _, _| v(0));
    on!("sigaction" | "signal" | "sigaltstack" | "sigemptyset" | "sigaddset" | "pthread_sigmask" | "pthread_setname_np" | "prctl" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_attr_setguardsize" | "pthread_detach" | "pthread_setaffinity_np" | "atexit" | "__cxa_atexit" | "fsync" | "fdatasync" | "flock" | "setsockopt" | "pthread_condattr_init" | "pthread_condattr_setclock" | "sigprocmask" | "sigfillset" | "utimensat" | "futimens", |_, _, _| v(0));
    on!("pthread_attr_getstack", |ex, st, c| {
        let (a, b) = (c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        let lo = st.th[st.cur].stack_lo;
        wr(st, a, 8, lo)?;
        wr(st, b, 8, 4 << 20)?;
        v(0)
    });
    on!("pthread_attr_getguardsize", |ex, st, c| {
        let a = c.c(ex, st, 1)?;
        wr(st, a, 8, 4096)?;
        v(0)
    });
    on!("pthread_getattr_np", |_, _, _| v(0));
    on!("pthread_self", |_, st, _| v(st.th[st.cur].id));
    on!("pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_init" | "pthread_mutex_destroy" | "pthread_mutex_trylock" | "pthread_mutexattr_init" | "pthread_mutexattr_settype" | "pthread_mutexattr_destroy", |_, _, _| v(0));
    on!("pthread_key_create", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        st.k.cookie += 1;
        let k = st.k.cookie;
        wr(st, p, 4, k as u64)?;
        v(0)
    });
    on!("pthread_key_delete", |_, _, _| v(0));
    on!("pthread_setspecific", |ex, st, c| {
        let (k, p) = (c.c(ex, st, 0)? as u32, c.c(ex, st, 1)?);
        let cur = st.cur;
        st.th[cur].specific.insert(k, p);
        v(0)
    });
    on!("pthread_getspecific", |ex, st, c| {
        let k = c.c(ex, st, 0)? as u32;
        v(*st.th[st.cur].specific.get(&k).unwrap_or(&0))
    });
    on!("__cxa_thread_atexit_impl", |ex, st, c| {
        let (f, o) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        let cur = st.cur;
        st.th[cur].dtors.push((f, o));
        v(0)
    });
    on!("pthread_create", |ex, st, c| {
        let (out, start, arg) = (c.c(ex, st, 0)?, c.c(ex, st, 2)?, c.a[3]);
        let fi = ((start - crate::ll::FUNC_BASE) / 16) as usize;
        let i = ex.new_thread(st, fi, &[arg]);
        let id = st.th[i].id;
        wr(st, out, 8, id)?;
        v(0)
    });
    on!("pthread_join", |ex, st, c| {
        let id = c.c(ex, st, 0)?;
        let t = st.th.iter().find(|t| t.id == id);
        match t {
            Some(t) if !t.done => block(st, None, None),
            Some(t) => {
                let r = t.ret;
                let p = c.c(ex, st, 1)?;
                if p != 0 {
                    wr(st, p, 8, r)?;
                }
                unblock(st);
                v(0)
            }
            None => v(3),
        }
    });
    on!("dl_iterate_phdr" | "_Unwind_Backtrace" | "_Unwind_GetIP" | "_Unwind_FindEnclosingFunction" | "_Unwind_GetCFA" | "_Unwind_GetIPInfo", |_, _, _| v(0));
    on!("isatty" | "issetugid", |_, _, _| v(0));
    on!("gnu_get_libc_version" | "dlsym", |_, _, _| v(0));
    on!("pause", |_, st, _| block(st, None, None));
    on!("exit" | "_exit" | "quick_exit", |ex, st, c| {
        let code = c.c(ex, st, 0)?;
        if !st.sections.is_empty() && st.th[st.cur].frames.iter().any(|f| f.kind == 2) {
            section_end(ex, st, 2 + (code & 0xff))?;
            return Ok(Ret::Frames);
        }
        Err(Stop::Panic(format!("exit({}){}", code as i32, ex.stack_trace(st))))
    });
    on!("clock_gettime", |ex, st, c| {
        let (k, p) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        st.k.now += 1000;
        let t = if k == 0 || k == 5 { st.k.now + 1_700_000_000_000_000_000 } else { st.k.now };
        wr(st, p, 8, t / 1_000_000_000)?;
        wr(st, p + 8, 8, t % 1_000_000_000)?;
        v(0)
    });
    on!("gettimeofday", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let t = st.k.now + 1_700_000_000_000_000_000;
        wr(st, p, 8, t / 1_000_000_000)?;
        wr(st, p + 8, 8, t % 1_000_000_000 / 1000)?;
        v(0)
    });
    on!("time", |_, st, _| v(1_700_000_000 + st.k.now / 1_000_000_000));
    on!("nanosleep" | "clock_nanosleep", |ex, st, c| {
        let (i, abs) = if c.a.len() == 4 { (2, c.c(ex, st, 1)? == 1) } else { (0, false) };
        if timed_out(st) {
            unblock(st);
            return v(0);
        }
        let p = c.c(ex, st, i)?;
        let t = rd(st, p, 8)? * 1_000_000_000 + rd(st, p + 8, 8)?;
        let d = if abs { t } else { st.k.now + t };
        block(st, Some(d), None)
    });
    on!("__xpg_strerror_r" | "strerror_r", |ex, st, c| {
        let (p, n) = (c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        let e = c.c(ex, st, 0)?;
        let mut s = format!("os error {}", e).into_bytes();
        s.truncate(n as usize - 1);
        s.push(0);
        st.mem.write_conc(p, &s)?;
        v(0)
    });
    on!("gethostname", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        st.mem.write_conc(p, b"host\0")?;
        v(0)
    });
    on!("syscall", |ex, st, c| {
        let n = c.c(ex, st, 0)?;
        match n {
            202 => futex(ex, st, c),
            186 => v(4242 + st.cur as u64),
            318 => {
                let (p, n) = (c.c(ex, st, 1)?, c.c(ex, st, 2)?);
                for i in 0..n {
                    let b = st.k.rand() as u8;
                    st.mem.set_byte(p + i, b, 0)?;
                }
                v(n)
            }
            24 => Ok(Ret::Yield(V::c(0))),
            _ => err(st, ENOSYS),
        }
    });
    on!("statx" | "copy_file_range" | "renameat2" | "sendfile" | "sendfile64" | "splice" | "clone3" | "pidfd_open", |_, st, c| errn(st, c, ENOSYS));
    // ---- files
    on!("open" | "open64", |ex, st, c| open(ex, st, c));
    on!("openat" | "openat64", |ex, st, c| {
        let d = c.i32(ex, st, 0)?;
        let p = c.c(ex, st, 1)?;
        let path = cstr(ex, st, p)?;
        let flags = c.c(ex, st, 2)? as u32;
        let mode = if c.a.len() > 3 { c.c(ex, st, 3)? as u32 } else { 0 };
        match dir_base(st, d) {
            Ok(b) => open_at(ex, st, b, &path, flags, mode),
            Err(e) => err32(st, e),
        }
    });
    on!("close", |ex, st, c| {
        let fd = c.i32(ex, st, 0)?;
        match st.k.close(fd) {
            Ok(()) => v(0),
            Err(e) => err32(st, e),
        }
    });
    on!("dup", |ex, st, c| {
        let fd = c.i32(ex, st, 0)?;
        match st.k.desc(fd) {
            Some((d, _)) => {
                st.k.p.descs[d].as_mut().unwrap().refs += 1;
                let n = st.k.new_fd(d, 0);
                v(n as u64)
            }
            None => err32(st, EBADF),
        }
    });
    on!("dup2" | "dup3", |ex, st, c| {
        let (fd, to) = (c.i32(ex, st, 0)?, c.i32(ex, st, 1)?);
        match st.k.desc(fd) {
            Some((d, _)) if fd != to => {
                st.k.p.descs[d].as_mut().unwrap().refs += 1;
                let _ = st.k.close(to);
                while st.k.p.fds.len() <= to as usize {
                    st.k.p.fds.push(None);
                }
                st.k.p.fds[to as usize] = Some(d);
                v(to as u64)
            }
            Some(_) => v(to as u64),
            None => err32(st, EBADF),
        }
    });
    on!("fcntl" | "fcntl64", |ex, st, c| {
        let (fd, cmd) = (c.i32(ex, st, 0)?, c.i32(ex, st, 1)?);
        let d = match st.k.desc(fd) {
            Some((d, _)) => d,
            None => return err32(st, EBADF),
        };
        match cmd {
            0 | 1030 => {
                let min = c.i32(ex, st, 2)?;
                st.k.p.descs[d].as_mut().unwrap().refs += 1;
                let n = st.k.new_fd(d, min as usize);
                v(n as u64)
            }
            1 => v(1),
            2 => v(0),
            3 => {
                let de = st.k.p.descs[d].as_ref().unwrap();
                v(2 | if de.nonblock { 0o4000 } else { 0 })
            }
            4 => {
                let f = c.i32(ex, st, 2)?;
                st.k.p.descs[d].as_mut().unwrap().nonblock = f & 0o4000 != 0;
                v(0)
            }
            _ => v(0),
        }
    });
    on!("ioctl", |ex, st, c| {
        let (fd, req) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)? as u32);
        if req == 0x5421 {
            let p = c.c(ex, st, 2)?;
            let on = rd(st, p, 4)? != 0;
            if let Some(d) = st.k.desc_mut(fd) {
                d.nonblock = on;
            }
            return v(0);
        }
        if req == 0x5451 || req == 0x5450 {
            return v(0);
        }
        err32(st, 25)
    });
    on!("read", |ex, st, c| {
        let (fd, p, n) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        read_fd(ex, st, c, fd, &[(p, n)], None)
    });
    on!("pread64" | "pread", |ex, st, c| {
        let (fd, p, n, o) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?, c.c(ex, st, 2)?, c.c(ex, st, 3)?);
        read_fd(ex, st, c, fd, &[(p, n)], Some(o))
    });
    on!("recv" | "recvfrom", |ex, st, c| {
        let (fd, p, n) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        read_fd(ex, st, c, fd, &[(p, n)], None)
    });
    on!("readv", |ex, st, c| {
        let (fd, p, n) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        let b = iov(ex, st, p, n)?;
        read_fd(ex, st, c, fd, &b, None)
    });
    on!("write" | "send" | "sendto", |ex, st, c| {
        let (fd, p, n) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        write_fd(ex, st, c, fd, &[(p, n)])
    });
    on!("writev", |ex, st, c| {
        let (fd, p, n) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        let b = iov(ex, st, p, n)?;
        write_fd(ex, st, c, fd, &b)
    });
    on!("sendmsg", |ex, st, c| {
        let (fd, m) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?);
        let (p, n) = (rd(st, m + 16, 8)?, rd(st, m + 24, 8)?);
        let b = iov(ex, st, p, n)?;
        write_fd(ex, st, c, fd, &b)
    });
    on!("recvmsg", |ex, st, c| {
        let (fd, m) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?);
        let (p, n) = (rd(st, m + 16, 8)?, rd(st, m + 24, 8)?);
        let b = iov(ex, st, p, n)?;
        read_fd(ex, st, c, fd, &b, None)
    });
    on!("lseek" | "lseek64", |ex, st, c| {
        let (fd, o, wh) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)? as i64, c.i32(ex, st, 2)?);
        let (ino, cur) = match st.k.desc(fd) {
            Some((_, Desc { kind: Kind::File { ino, off, .. }, .. })) => (*ino, *off as i64),
            Some((_, Desc { kind: Kind::Dir { .. }, .. })) => return v(0),
            Some(_) => return err(st, 29),
            None => return err(st, EBADF),
        };
        let size = match &st.k.ino(ino).data {
            Data::File(d) => d.len() as i64,
            _ => 0,
        };
        let n = match wh {
            0 => o,
            1 => cur + o,
            _ => size + o,
        };
        if n < 0 {
            return err(st, EINVAL);
        }
        if let Some(Desc { kind: Kind::File { off, .. }, .. }) = st.k.desc_mut(fd) {
            *off = n as u64;
        }
        v(n as u64)
    });
    on!("ftruncate" | "ftruncate64", |ex, st, c| {
        let (fd, n) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?);
        let ino = match st.k.desc(fd) {
            Some((_, Desc { kind: Kind::File { ino, .. }, .. })) => *ino,
            _ => return err32(st, EBADF),
        };
        crashable!(ex, st);
        if let Data::File(d) = &mut st.k.ino_mut(ino).data {
            d.resize(n as usize, (0, 0));
        }
        st.k.notify_ino(ino, 0x2);
        v(0)
    });
    on!("fstat" | "fstat64", |ex, st, c| {
        let (fd, p) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?);
        match st.k.desc(fd) {
            Some((_, Desc { kind: Kind::File { ino, .. }, .. })) | Some((_, Desc { kind: Kind::Dir { ino }, .. })) => {
                let i = *ino;
                write_stat(ex, st, i, p)?;
                v(0)
            }
            Some(_) => {
                st.mem.fill(p, 144, 0, 0)?;
                wr(st, p + 24, 4, 0o140777)?;
                v(0)
            }
            None => err32(st, EBADF),
        }
    });
    on!("stat" | "stat64", |ex, st, c| stat_path(ex, st, c, true));
    on!("lstat" | "lstat64", |ex, st, c| stat_path(ex, st, c, false));
    on!("fstatat64" | "fstatat" | "newfstatat", |ex, st, c| {
        let d = c.i32(ex, st, 0)?;
        let p = c.c(ex, st, 1)?;
        let path = cstr(ex, st, p)?;
        let buf = c.c(ex, st, 2)?;
        let fl = c.c(ex, st, 3)?;
        let b = match dir_base(st, d) {
            Ok(b) => b,
            Err(e) => return err32(st, e),
        };
        match st.k.resolve_from(b, &path, fl & 0x100 == 0, 0) {
            Ok((_, _, Some(i))) => {
                write_stat(ex, st, i, buf)?;
                v(0)
            }
            Ok(_) => err32(st, ENOENT),
            Err(e) => err32(st, e),
        }
    });
    on!("access" | "faccessat", |ex, st, c| {
        let i = if c.a.len() == 4 { 1 } else { 0 };
        let p = c.c(ex, st, i)?;
        let path = cstr(ex, st, p)?;
        let bits = c.c(ex, st, i + 1)? as u32 & 7;
        match st.k.resolve(&path, true) {
            Ok((_, _, Some(i))) if !st.k.may(i, bits) => err32(st, EACCES),
            Ok((_, _, Some(_))) => v(0),
            Ok(_) => err32(st, ENOENT),
            Err(e) => err32(st, e),
        }
    });
    on!("mkdir", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let path = cstr(ex, st, p)?;
        let mode = c.c(ex, st, 1)? as u32;
        match st.k.resolve(&path, false) {
            Err(e) => return err32(st, e),
            Ok((_, _, Some(_))) => return err32(st, EEXIST),
            Ok((d, _, None)) if !st.k.may(d, 2) => return err32(st, EACCES),
            _ => {}
        }
        crashable!(ex, st);
        match st.k.mkdir(&path, mode) {
            Ok(()) => v(0),
            Err(e) => err32(st, e),
        }
    });
    on!("rmdir", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let path = cstr(ex, st, p)?;
        remove(ex, st, st_cwd, &path, true)
    });
    on!("unlink", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let path = cstr(ex, st, p)?;
        remove(ex, st, st_cwd, &path, false)
    });
    on!("unlinkat", |ex, st, c| {
        let d = c.i32(ex, st, 0)?;
        let p = c.c(ex, st, 1)?;
        let path = cstr(ex, st, p)?;
        let fl = c.c(ex, st, 2)?;
        let b = match dir_base(st, d) {
            Ok(b) => b,
            Err(e) => return err32(st, e),
        };
        remove_at(ex, st, b, &path, fl & 0x200 != 0)
    });
    on!("rename", |ex, st, c| {
        let (p, q) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        let (a, b) = (cstr(ex, st, p)?, cstr(ex, st, q)?);
        let (d1, n1, i1) = match st.k.resolve(&a, false) {
            Ok((d, n, Some(i))) => (d, n, i),
            Ok(_) => return err32(st, ENOENT),
            Err(e) => return err32(st, e),
        };
        let (d2, n2, i2) = match st.k.resolve(&b, false) {
            Ok(x) => x,
            Err(e) => return err32(st, e),
        };
        let dir1 = matches!(st.k.ino(i1).data, Data::Dir(_));
        if !st.k.may(d1, 2) || !st.k.may(d2, 2) || (dir1 && d1 != d2 && !st.k.may(i1, 2)) {
            return err32(st, EACCES);
        }
        // a directory cannot move into itself
        let mut up = d2;
        loop {
            if up == i1 {
                return err32(st, EINVAL);
            }
            let next = st.k.ino(up).parent;
            if next == up {
                break;
            }
            up = next;
        }
        if let Some(t) = i2 {
            if t == i1 {
                return v(0);
            }
            match (&st.k.ino(t).data, dir1) {
                (Data::Dir(m), true) => {
                    if !m.is_empty() {
                        return err32(st, ENOTEMPTY);
                    }
                }
                (Data::Dir(_), false) => return err32(st, EISDIR),
                (_, true) => return err32(st, ENOTDIR),
                _ => {}
            }
        }
        crashable!(ex, st);
        st.k.cookie += 1;
        let ck = st.k.cookie;
        if i2.is_some() {
            st.k.remove_entry(d2, &n2);
        }
        if let Data::Dir(m) = &mut st.k.ino_mut(d1).data {
            m.remove(&n1);
        }
        if let Data::Dir(m) = &mut st.k.ino_mut(d2).data {
            m.insert(n2.clone(), i1);
        }
        st.k.ino_mut(i1).parent = d2;
        let f = if dir1 { 0x4000_0000 } else { 0 };
        st.k.notify(d1, 0x40 | f, &n1, ck);
        st.k.notify(d2, 0x80 | f, &n2, ck);
        v(0)
    });
    on!("symlink", |ex, st, c| {
        let (p, q) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        let (t, l) = (cstr(ex, st, p)?, cstr(ex, st, q)?);
        match st.k.resolve(&l, false) {
            Ok((_, _, Some(_))) => err32(st, EEXIST),
            Ok((d, _, None)) if !st.k.may(d, 2) => err32(st, EACCES),
            Ok((d, n, None)) => {
                st.k.create(d, &n, Data::Link(t), 0o120777);
                st.k.notify(d, 0x100, &n, 0);
                v(0)
            }
            Err(e) => err32(st, e),
        }
    });
    on!("link" | "linkat", |ex, st, c| {
        let (i, j) = if c.a.len() == 5 { (1, 3) } else { (0, 1) };
        let (p, q) = (c.c(ex, st, i)?, c.c(ex, st, j)?);
        let (a, b) = (cstr(ex, st, p)?, cstr(ex, st, q)?);
        let src = match st.k.resolve(&a, false) {
            Ok((_, _, Some(i))) => i,
            Ok(_) => return err32(st, ENOENT),
            Err(e) => return err32(st, e),
        };
        match st.k.resolve(&b, false) {
            Ok((_, _, Some(_))) => err32(st, EEXIST),
            Ok((d, _, None)) if !st.k.may(d, 2) => err32(st, EACCES),
            Ok((d, n, None)) => {
                crashable!(ex, st);
                if let Data::Dir(m) = &mut st.k.ino_mut(d).data {
                    m.insert(n, src);
                }
                st.k.ino_mut(src).nlink += 1;
                v(0)
            }
            Err(e) => err32(st, e),
        }
    });
    on!("readlink", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let path = cstr(ex, st, p)?;
        let (buf, n) = (c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        match st.k.resolve(&path, false) {
            Ok((_, _, Some(i))) => match st.k.ino(i).data.clone() {
                Data::Link(t) => {
                    let t = &t[..t.len().min(n as usize)];
                    st.mem.write_conc(buf, t)?;
                    v(t.len() as u64)
                }
                _ => err(st, EINVAL),
            },
            Ok(_) => err(st, ENOENT),
            Err(e) => err(st, e),
        }
    });
    on!("realpath", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let path = cstr(ex, st, p)?;
        let out = c.c(ex, st, 1)?;
        match st.k.resolve(&path, true) {
            Ok((d, n, Some(i))) => {
                let r = if matches!(st.k.ino(i).data, Data::Dir(_)) {
                    st.k.abs_path(i)
                } else {
                    let mut r = st.k.abs_path(d);
                    if r != b"/" {
                        r.push(b'/');
                    }
                    r.extend(n);
                    r
                };
                let o = if out == 0 { malloc(st, r.len() as u64 + 1)? } else { out };
                st.mem.write_conc(o, &r)?;
                st.mem.set_byte(o + r.len() as u64, 0, 0)?;
                v(o)
            }
            Ok(_) => {
                let _ = err(st, ENOENT);
                v(0)
            }
            Err(e) => {
                let _ = err(st, e);
                v(0)
            }
        }
    });
    on!("getcwd", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let n = c.c(ex, st, 1)?;
        let mut r = st.k.abs_path(st.k.p.cwd);
        r.push(0);
        if r.len() as u64 > n {
            let _ = err(st, ERANGE);
            return v(0);
        }
        st.mem.write_conc(p, &r)?;
        v(p)
    });
    on!("chdir", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let path = cstr(ex, st, p)?;
        match st.k.resolve(&path, true) {
            Ok((_, _, Some(i))) if matches!(st.k.ino(i).data, Data::Dir(_)) => {
                st.k.p.cwd = i;
                v(0)
            }
            Ok((_, _, Some(_))) => err32(st, ENOTDIR),
            Ok(_) => err32(st, ENOENT),
            Err(e) => err32(st, e),
        }
    });
    on!("chmod", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let path = cstr(ex, st, p)?;
        let m = c.a[1];
        match st.k.resolve(&path, true) {
            Ok((_, _, Some(i))) => {
                crashable!(ex, st);
                if m.sym != 0 {
                    // what the owner may do is decided now, the rest stays symbolic
                    let e = ex.x.extract(m.sym, 6, 3);
                    let owner = ex.concretize(st, V::s(e), 3)? as u32;
                    let perms = ex.x.extract(m.sym, 0, 12);
                    let n = st.k.ino_mut(i);
                    n.perms = perms;
                    n.mode = (n.mode & !0o7777) | owner << 6;
                } else {
                    let n = st.k.ino_mut(i);
                    n.perms = 0;
                    n.mode = (n.mode & !0o7777) | (m.lo as u32 & 0o7777);
                }
                st.k.notify_ino(i, 0x4);
                v(0)
            }
            Ok(_) => err32(st, ENOENT),
            Err(e) => err32(st, e),
        }
    });
    on!("fchmod", |ex, st, c| {
        let fd = c.i32(ex, st, 0)?;
        let m = c.c(ex, st, 1)? as u32;
        let ino = match st.k.desc(fd) {
            Some((_, Desc { kind: Kind::File { ino, .. }, .. })) => *ino,
            _ => return err32(st, EBADF),
        };
        crashable!(ex, st);
        let n = st.k.ino_mut(ino);
        n.perms = 0;
        n.mode = (n.mode & !0o7777) | (m & 0o7777);
        v(0)
    });
    on!("umask", |ex, st, c| {
        let m = c.c(ex, st, 0)? as u32;
        let o = st.k.p.umask;
        st.k.p.umask = m & 0o777;
        v(o as u64)
    });
    on!("opendir" | "fdopendir", |ex, st, c| {
        let ino = if ex.m.func_name(c.fi) == "opendir" {
            let p = c.c(ex, st, 0)?;
            let path = cstr(ex, st, p)?;
            match st.k.resolve(&path, true) {
                Ok((_, _, Some(i))) if !st.k.may(i, 4) => {
                    let _ = err(st, EACCES);
                    return v(0);
                }
                Ok((_, _, Some(i))) => i,
                Ok(_) => {
                    let _ = err(st, ENOENT);
                    return v(0);
                }
                Err(e) => {
                    let _ = err(st, e);
                    return v(0);
                }
            }
        } else {
            let fd = c.i32(ex, st, 0)?;
            dir_base(st, fd).unwrap_or(0)
        };
        let names: Vec<(Vec<u8>, usize)> = match &st.k.ino(ino).data {
            Data::Dir(m) => m.iter().map(|(a, b)| (a.clone(), *b)).collect(),
            _ => {
                let _ = err(st, ENOTDIR);
                return v(0);
            }
        };
        // DIR: [pos][count][entry pointers...]
        let fd = st.k.new_desc(Kind::Dir { ino }, false);
        let n = names.len() as u64;
        let d = malloc(st, 24 + 8 * n)?;
        wr(st, d, 8, 0)?;
        wr(st, d + 8, 8, n)?;
        wr(st, d + 16, 8, fd as u64)?;
        for (i, (nm, no)) in names.iter().enumerate() {
            let e = malloc(st, 280)?;
            wr(st, e, 8, *no as u64 + 1)?;
            wr(st, e + 8, 8, i as u64 + 1)?;
            wr(st, e + 16, 2, 280)?;
            let ty = match &st.k.ino(*no).data {
                Data::Dir(_) => 4,
                Data::File(_) => 8,
                Data::Link(_) => 10,
                Data::Sock(_) => 12,
                Data::Null => 2,
            };
            wr(st, e + 18, 1, ty)?;
            st.mem.write_conc(e + 19, nm)?;
            st.mem.set_byte(e + 19 + nm.len() as u64, 0, 0)?;
            wr(st, d + 24 + 8 * i as u64, 8, e)?;
        }
        v(d)
    });
    on!("readdir" | "readdir64", |ex, st, c| {
        let d = c.c(ex, st, 0)?;
        let (pos, n) = (rd(st, d, 8)?, rd(st, d + 8, 8)?);
        if pos >= n {
            return v(0);
        }
        wr(st, d, 8, pos + 1)?;
        v(rd(st, d + 24 + 8 * pos, 8)?)
    });
    on!("dirfd", |ex, st, c| {
        let d = c.c(ex, st, 0)?;
        v(rd(st, d + 16, 8)?)
    });
    on!("closedir", |ex, st, c| {
        let d = c.c(ex, st, 0)?;
        let n = rd(st, d + 8, 8)?;
        let fd = rd(st, d + 16, 8)? as i32;
        let _ = st.k.close(fd);
        for i in 0..n {
            let e = rd(st, d + 24 + 8 * i, 8)?;
            free(st, e)?;
        }
        free(st, d)?;
        v(0)
    });
    // ---- sockets, epoll, eventfd, inotify
    on!("socket", |ex, st, c| {
        let (dom, ty) = (c.i32(ex, st, 0)?, c.i32(ex, st, 1)?);
        if dom != 1 {
            return err32(st, 97);
        }
        let fd = st.k.new_desc(Kind::Sock, ty & 0o4000 != 0);
        v(fd as u64)
    });
    on!("socketpair", |ex, st, c| {
        let ty = c.i32(ex, st, 1)?;
        let p = c.c(ex, st, 3)?;
        let (a, b) = st.k.pair();
        let nb = ty & 0o4000 != 0;
        let (x, y) = (st.k.new_desc(a, nb), st.k.new_desc(b, nb));
        wr(st, p, 4, x as u64)?;
        wr(st, p + 4, 4, y as u64)?;
        v(0)
    });
    on!("bind", |ex, st, c| {
        let (fd, p, n) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        let path = sock_path(ex, st, p, n)?;
        match st.k.resolve(&path, false) {
            Ok((_, _, Some(_))) => err32(st, EADDRINUSE),
            Ok((_, _, None)) if path.ends_with(b"/") || path.ends_with(b"/.") => err32(st, ENOENT),
            Ok((d, _, None)) if !st.k.may(d, 2) => err32(st, EACCES),
            Ok((d, nm, None)) => {
                crashable!(ex, st);
                let m = 0o140000 | (0o777 & !st.k.p.umask);
                let i = st.k.create(d, &nm, Data::Sock(None), m);
                st.k.notify(d, 0x100, &nm, 0);
                if let Some(de) = st.k.desc_mut(fd) {
                    de.kind = Kind::Bound { ino: i };
                }
                v(0)
            }
            Err(e) => err32(st, e),
        }
    });
    on!("listen", |ex, st, c| {
        let fd = c.i32(ex, st, 0)?;
        let ino = match st.k.desc(fd) {
            Some((_, Desc { kind: Kind::Bound { ino }, .. })) => *ino,
            _ => return err32(st, EINVAL),
        };
        let l = st.k.listens.len();
        st.k.listens.push(Listen { open: true, ..Default::default() });
        st.k.ino_mut(ino).data = Data::Sock(Some(l));
        st.k.desc_mut(fd).unwrap().kind = Kind::Listener { ino };
        v(0)
    });
    on!("connect", |ex, st, c| {
        let (fd, p, n) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        let path = sock_path(ex, st, p, n)?;
        let ino = match st.k.resolve(&path, true) {
            Ok((_, _, Some(i))) => i,
            Ok(_) => return err32(st, ENOENT),
            Err(e) => return err32(st, e),
        };
        match st.k.ino(ino).data {
            _ if !st.k.may(ino, 2) => err32(st, EACCES),
            Data::Sock(Some(l)) if st.k.listens[l].open => {
                let (a, b) = st.k.pair();
                if let Kind::Stream { rx, tx } = b {
                    st.k.listens[l].backlog.push_back((rx, tx));
                    st.k.listens[l].gen += 1;
                }
                st.k.desc_mut(fd).unwrap().kind = a;
                st.k.events += 1;
                v(0)
            }
            _ => err32(st, ECONNREFUSED),
        }
    });
    on!("accept4" | "accept", |ex, st, c| {
        let fd = c.i32(ex, st, 0)?;
        let (ino, nb) = match st.k.desc(fd) {
            Some((_, Desc { kind: Kind::Listener { ino }, nonblock, .. })) => (*ino, *nonblock),
            _ => return err32(st, EINVAL),
        };
        let l = match st.k.ino(ino).data {
            Data::Sock(Some(l)) => l,
            _ => return err32(st, EINVAL),
        };
        match st.k.listens[l].backlog.pop_front() {
            Some((rx, tx)) => {
                let fl = if c.a.len() > 3 { c.i32(ex, st, 3)? } else { 0 };
                let n = st.k.new_desc(Kind::Stream { rx, tx }, fl & 0o4000 != 0);
                let (ap, lp) = (c.c(ex, st, 1)?, c.c(ex, st, 2)?);
                if ap != 0 {
                    wr(st, ap, 2, 1)?;
                    wr(st, lp, 4, 2)?;
                }
                unblock(st);
                v(n as u64)
            }
            None => {
                if nb {
                    err32(st, EAGAIN)
                } else {
                    block(st, None, None)
                }
            }
        }
    });
    on!("shutdown", |ex, st, c| {
        let (fd, how) = (c.i32(ex, st, 0)?, c.i32(ex, st, 1)?);
        if let Some((_, Desc { kind: Kind::Stream { rx, tx }, .. })) = st.k.desc(fd) {
            let (rx, tx) = (*rx, *tx);
            if how != 0 {
                st.k.chans[tx].wclosed = true;
                st.k.chans[tx].gen += 1;
            }
            if how != 1 {
                st.k.chans[rx].rclosed = true;
                st.k.chans[rx].gen += 1;
            }
            st.k.events += 1;
            return v(0);
        }
        err32(st, ENOTSOCK)
    });
    on!("getsockopt", |ex, st, c| {
        let (p, l) = (c.c(ex, st, 3)?, c.c(ex, st, 4)?);
        let n = rd(st, l, 4)?;
        st.mem.fill(p, n, 0, 0)?;
        v(0)
    });
    on!("getsockname" | "getpeername", |ex, st, c| {
        let (p, l) = (c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        wr(st, p, 2, 1)?;
        wr(st, l, 4, 2)?;
        v(0)
    });
    on!("epoll_create1" | "epoll_create", |_, st, _| {
        let e = st.k.p.eps.len();
        st.k.p.eps.push(Epoll::default());
        let fd = st.k.new_desc(Kind::Epoll(e), false);
        v(fd as u64)
    });
    on!("epoll_ctl", |ex, st, c| {
        let (ep, op, fd, ev) = (c.i32(ex, st, 0)?, c.i32(ex, st, 1)?, c.i32(ex, st, 2)?, c.c(ex, st, 3)?);
        let e = match st.k.desc(ep) {
            Some((_, Desc { kind: Kind::Epoll(e), .. })) => *e,
            _ => return err32(st, EBADF),
        };
        let (d, isfile) = match st.k.desc(fd) {
            Some((d, de)) => (d, matches!(de.kind, Kind::File { .. } | Kind::Dir { .. })),
            None => return err32(st, EBADF),
        };
        if isfile {
            return err32(st, 1);
        }
        let (mask, data) = if ev != 0 { (rd(st, ev, 4)? as u32, rd(st, ev + 4, 8)?) } else { (0, 0) };
        let l = &mut st.k.p.eps[e].list;
        match op {
            1 => {
                if l.iter().any(|i| i.fd == fd) {
                    return err32(st, EEXIST);
                }
                l.push(Interest { desc: d, fd, events: mask, data, last: u64::MAX, lastmask: 0, armed: true });
            }
            2 => l.retain(|i| i.fd != fd),
            _ => match l.iter_mut().find(|i| i.fd == fd) {
                Some(i) => {
                    i.events = mask;
                    i.data = data;
                    i.last = u64::MAX;
                    i.armed = true;
                }
                None => return err32(st, ENOENT),
            },
        }
        st.k.events += 1;
        v(0)
    });
    on!("epoll_wait" | "epoll_pwait", |ex, st, c| epoll_wait(ex, st, c));
    on!("poll", |ex, st, c| {
        let (p, n) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        let timeout = c.i32(ex, st, 2)?;
        let mut cnt = 0;
        for i in 0..n {
            let fd = rd(st, p + 8 * i, 4)? as u32 as i32;
            let ev = rd(st, p + 8 * i + 4, 2)? as u32;
            let mut re = 0;
            if fd >= 0 {
                match st.k.desc(fd) {
                    Some((d, _)) => {
                        let (m, _) = st.k.readiness(d);
                        re = m & (ev | 8 | 16);
                    }
                    None => re = 0x20,
                }
            }
            wr(st, p + 8 * i + 6, 2, re as u64)?;
            if re != 0 {
                cnt += 1;
            }
        }
        if cnt == 0 && timeout != 0 && !timed_out(st) {
            let dl = if timeout > 0 { Some(st.k.now + timeout as u64 * 1_000_000) } else { None };
            return block(st, dl, None);
        }
        unblock(st);
        v(cnt)
    });
    on!("eventfd", |ex, st, c| {
        let (n, fl) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        let fd = st.k.new_desc(Kind::Event { count: n as u32 as u64, gen: 0 }, fl & 0o4000 != 0);
        v(fd as u64)
    });
    on!("pipe2" | "pipe", |ex, st, c| {
        let p = c.c(ex, st, 0)?;
        let fl = if c.a.len() > 1 { c.c(ex, st, 1)? } else { 0 };
        let (a, b) = st.k.pair();
        let nb = fl & 0o4000 != 0;
        let (x, y) = (st.k.new_desc(a, nb), st.k.new_desc(b, nb));
        wr(st, p, 4, x as u64)?;
        wr(st, p + 4, 4, y as u64)?;
        v(0)
    });
    on!("inotify_init1" | "inotify_init", |ex, st, c| {
        let fl = if c.a.is_empty() { 0 } else { c.c(ex, st, 0)? };
        let i = st.k.p.inos.len();
        st.k.p.inos.push(Inotify { next: 1, ..Default::default() });
        let fd = st.k.new_desc(Kind::Inotify(i), fl & 0o4000 != 0);
        v(fd as u64)
    });
    on!("inotify_add_watch", |ex, st, c| {
        let (fd, p, m) = (c.i32(ex, st, 0)?, c.c(ex, st, 1)?, c.c(ex, st, 2)? as u32);
        let path = cstr(ex, st, p)?;
        let i = match st.k.desc(fd) {
            Some((_, Desc { kind: Kind::Inotify(i), .. })) => *i,
            _ => return err32(st, EBADF),
        };
        let ino = match st.k.resolve(&path, m & 0x0200_0000 == 0) {
            Ok((_, _, Some(x))) if !st.k.may(x, 4) => return err32(st, EACCES),
            Ok((_, _, Some(x))) => x,
            Ok(_) => return err32(st, ENOENT),
            Err(e) => return err32(st, e),
        };
        let q = &mut st.k.p.inos[i];
        if let Some((wd, w)) = q.watches.iter_mut().find(|(_, w)| w.0 == ino) {
            w.1 = if m & 0x2000_0000 != 0 { w.1 | m } else { m };
            return v(*wd as u64);
        }
        let wd = q.next;
        q.next += 1;
        q.watches.insert(wd, (ino, m));
        v(wd as u64)
    });
    on!("inotify_rm_watch", |ex, st, c| {
        let (fd, wd) = (c.i32(ex, st, 0)?, c.i32(ex, st, 1)?);
        if let Some((_, Desc { kind: Kind::Inotify(i), .. })) = st.k.desc(fd) {
            let i = *i;
            st.k.p.inos[i].watches.remove(&wd);
            return v(0);
        }
        err32(st, EBADF)
    });
    // ---- Rust runtime
    on!("~4core9panicking9panic_fmt", |ex, st, c| {
        if may_panic(st) {
            section_end(ex, st, 400)?;
            return Ok(Ret::Frames);
        }
        let loc = *c.a.last().unwrap();
        let l = panic_location(ex, st, loc);
        Err(Stop::Panic(format!("panic at {}{}", l, ex.stack_trace(st))))
    });
    on!("~7___rustc17rust_begin_unwind", |ex, st, _| Err(Stop::Panic(format!("panic{}", ex.stack_trace(st)))));
    on!("~4core9panicking19panic_cannot_unwind" | "~4core9panicking18panic_nounwind_fmt", |ex, st, _| {
        Err(Stop::Panic(format!("panic (no unwind){}", ex.stack_trace(st))))
    });
    on!("~5alloc5alloc18handle_alloc_error", |ex, st, _| Err(Stop::Panic(format!("allocation failure{}", ex.stack_trace(st)))));
    on!("~4sha26sha25611compress256", |ex, st, c| {
        // state pointer, blocks pointer, number of 64-byte blocks
        let (sp, bp, n) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        let mut blocks = st.mem.read_bytes(bp, (n * 64) as usize)?;
        if blocks.iter().all(|b| b.1 == 0) {
            return Ok(Ret::Body);
        }
        for b in blocks.iter_mut().filter(|b| b.1 != 0) {
            let e = ex.canonical(st, b.1)?;
            *b = match ex.x.as_const(e) {
                Some(k) => (k as u8, 0),
                None => (0, e),
            };
        }
        for block in blocks.chunks(64) {
            let stb = st.mem.read_bytes(sp, 32)?;
            if stb.iter().chain(block.iter()).all(|b| b.1 == 0) {
                let mut h: [u32; 8] = std::array::from_fn(|k| u32::from_le_bytes(std::array::from_fn(|m| stb[4 * k + m].0)));
                let d: [u8; 64] = std::array::from_fn(|k| block[k].0);
                sha256_block(&mut h, &d);
                for (k, x) in h.iter().enumerate() {
                    wr(st, sp + 4 * k as u64, 4, *x as u64)?;
                }
                continue;
            }
            // Symbolic data: an arbitrary but fixed digest per distinct input.
            let mut h = [0x6a09_e667_f3bc_c908u64, 0xbb67_ae85_84ca_a73b, 0x3c6e_f372_fe94_f82b, 0xa54f_f53a_5f1d_36f1];
            for (i, (b, e)) in stb.iter().chain(block.iter()).enumerate() {
                let x = if *e == 0 { *b as u64 } else { ex.structural(*e) | 1 << 63 };
                for (k, hh) in h.iter_mut().enumerate() {
                    *hh = (*hh ^ x.rotate_left(7 * k as u32) ^ (i as u64)).wrapping_mul(0x9E37_79B9_7F4A_7C15 + 2 * k as u64);
                    *hh ^= *hh >> 29;
                }
            }
            for (k, hh) in h.iter().enumerate() {
                wr(st, sp + 8 * k as u64, 8, *hh)?;
            }
        }
        Ok(Ret::Void)
    });
    // ---- harness primitives
    on!("vp_u8", |ex, st, _| {
        if let Some(r) = &ex.replay {
            let i = st.nsym as usize;
            let b = *r.get(i).unwrap_or(&0);
            ex.fresh(st);
            return v(b as u64);
        }
        let e = ex.fresh(st);
        Ok(Ret::Val(V::s(e)))
    });
    on!("vp_assume", |ex, st, c| {
        let x = c.a[0];
        if x.sym == 0 {
            return if x.lo & 1 == 1 { Ok(Ret::Void) } else { Err(Stop::Infeasible) };
        }
        let e = if c.ci.argw[0] == 1 { x.sym } else { ex.x.extract(x.sym, 0, 1) };
        if let Some(k) = ex.x.as_const(e) {
            return if k == 1 { Ok(Ret::Void) } else { Err(Stop::Infeasible) };
        }
        if ex.x.eval(e, &st.model) != 1 {
            match ex.sat_with(st, e)? {
                None => return Err(Stop::Infeasible),
                Some(m) => st.model = m,
            }
        }
        if !ex.assume(st, e) {
            return Err(Stop::Infeasible);
        }
        Ok(Ret::Void)
    });
    on!("vp_concrete", |ex, st, c| {
        let w = c.ci.argw[0];
        let x = ex.concretize(st, c.a[0], w)?;
        Ok(Ret::Val(V::c128(x)))
    });
    on!("vp_is_engine", |_, _, _| v(1));
    on!("vp_seed", |ex, st, c| {
        let s = c.c(ex, st, 0)?;
        st.k.rng = 0x5eed_0001 ^ s.wrapping_mul(0x1234_5678_9abc_def1);
        Ok(Ret::Void)
    });
    on!("vp_cover", |ex, st, c| {
        let id = c.c(ex, st, 0)? as u32;
        if !st.covers.contains(&id) {
            Rc::make_mut(&mut st.covers).push(id);
        }
        Ok(Ret::Void)
    });
    on!("vp_note", |ex, st, c| {
        let (p, n) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        let b = st.mem.read_bytes(p, n as usize)?;
        if ex.crash_log {
            eprintln!("note: {}", ex.show(&b, &st.model));
        }
        Rc::make_mut(&mut st.notes).push(b);
        Ok(Ret::Void)
    });
    on!("vp_check", |ex, st, c| {
        // vp_check(cond, name ptr, name len)
        let x = c.a[0];
        let (p, n) = (c.c(ex, st, 1)?, c.c(ex, st, 2)?);
        ex.stats.asserts += 1;
        let e = if x.sym == 0 {
            ex.x.konst(1, (x.lo & 1) as u128)
        } else if c.ci.argw[0] == 1 {
            x.sym
        } else {
            ex.x.extract(x.sym, 0, 1)
        };
        if ex.x.as_const(e) == Some(1) {
            return Ok(Ret::Void);
        }
        let ne = ex.x.not(e);
        ex.stats.assert_queries += 1;
        // the solver decides over every value the path admits
        let r = if ex.x.as_const(ne) == Some(1) { Some(st.model.clone()) } else { ex.sat_with(st, ne)? };
        match r {
            Some(m) => {
                let name = slice_str(ex, st, p, n)?;
                let what = format!("assert {}", String::from_utf8_lossy(&name));
                Err(Stop::Violation { what, model: m })
            }
            None => {
                let k = Rc::make_mut(&mut st.known);
                k.insert(e, true);
                k.insert(ne, false);
                Ok(Ret::Void)
            }
        }
    });
    on!("vp_known", |ex, st, c| {
        // a path that runs into an accepted defect ends here
        let (p, n) = (c.c(ex, st, 0)?, c.c(ex, st, 1)?);
        let name = slice_str(ex, st, p, n)?;
        let s: Vec<Byte> = b"KNOWN ".iter().chain(name.iter()).map(|b| (*b, 0)).collect();
        Rc::make_mut(&mut st.notes).push(s);
        Err(Stop::Done)
    });
    on!("vp_end", |_, _, _| Err(Stop::Done));
    on!("vp_section", |ex, st, c| {
        let (f, arg) = (c.c(ex, st, 0)?, c.a[1]);
        let sec = Section {
            mem: st.mem.snapshot(),
            th: st.th.clone(),
            cur: st.cur,
            heap: st.heap.clone(),
            proc: st.k.p.clone(),
        };
        Rc::make_mut(&mut st.sections).push(Rc::new(sec));
        for i in 0..st.th.len() {
            if i != st.cur {
                st.th[i].done = true;
            }
        }
        let fi = ((f - crate::ll::FUNC_BASE) / 16) as usize;
        ex.push_call(st, fi, &[arg], 0, 2)?;
        Ok(Ret::Frames)
    });
    on!("vp_may_panic", |_, st, _| {
        st.k.p.may_panic = true;
        Ok(Ret::Void)
    });
    on!("vp_crash_arm", |ex, st, c| {
        // vp_crash_arm(point, part, max)
        let (a, b) = (c.a[0], c.a[1]);
        let max = c.c(ex, st, 2)? as u32;
        let (ea, eb) = (ex.e(a, c.ci.argw[0]), ex.e(b, c.ci.argw[1]));
        st.k.crash = Some(Crash { armed: true, var: ea, pvar: eb, count: 0, max });
        Ok(Ret::Void)
    });
    on!("vp_crash_disarm", |_, st, _| {
        let n = st.k.crash.as_ref().map_or(0, |c| c.count);
        if let Some(c) = &mut st.k.crash {
            c.armed = false;
        }
        v(n as u64)
    });
    on!("vp_time_limit", |ex, st, c| {
        let ms = c.c(ex, st, 0)?;
        st.k.time_limit = if ms == 0 { None } else { Some(st.k.now + ms * 1_000_000) };
        Ok(Ret::Void)
    });
    on!("vp_quiesce", |_, st, _| {
        // run the other threads until all of them block
        let cur = st.cur;
        let busy = st.th.iter().enumerate().any(|(i, t)| {
            i != cur && !t.done && t.block.as_ref().map_or(true, |b| b.woken || (b.futex.is_none() && b.seen != st.k.events))
        });
        if busy {
            // leave the pc at this call: re-executed when scheduled again
            return Err(Stop::Switch);
        }
        Ok(Ret::Void)
    });
    unsafe {
        TABLE = Some(t);
    }
}

#[allow(non_upper_case_globals)]
const st_cwd: usize = usize::MAX;
fn remove(ex: &mut Exec, st: &mut State, _b: usize, path: &[u8], dir: bool) -> R<Ret> {
    let b = st.k.p.cwd;
    remove_at(ex, st, b, path, dir)
}
fn remove_at(ex: &mut Exec, st: &mut State, base: usize, path: &[u8], dir: bool) -> R<Ret> {
    let (d, n, i) = match st.k.resolve_from(base, path, false, 0) {
        Ok((d, n, Some(i))) => (d, n, i),
        Ok(_) => return err32(st, ENOENT),
        Err(e) => return err32(st, e),
    };
    if !st.k.may(d, 2) {
        return err32(st, EACCES);
    }
    match (&st.k.ino(i).data, dir) {
        (Data::Dir(m), true) => {
            if !m.is_empty() {
                return err32(st, ENOTEMPTY);
            }
        }
        (Data::Dir(_), false) => return err32(st, EISDIR),
        (_, true) => return err32(st, ENOTDIR),
        _ => {}
    }
    if n == b"." || n == b".." {
        return err32(st, EINVAL);
    }
    crashable!(ex, st);
    let f = if dir { 0x4000_0000 } else { 0 };
    st.k.notify(i, 0x400, b"", 0);
    st.k.remove_entry(d, &n);
    st.k.notify(d, 0x200 | f, &n, 0);
    // watches on the removed inode go away
    for q in st.k.p.inos.iter_mut() {
        q.watches.retain(|_, w| w.0 != i);
    }
    v(0)
}

/// The compression function of SHA-256.
fn sha256_block(h: &mut [u32; 8], d: &[u8; 64]) {
    // The constants are the fractional parts of the cube roots of the first 64 primes.
    let mut k = [0u32; 64];
    let mut p = 2u64;
    for c in k.iter_mut() {
        while (2..p).any(|q| p % q == 0) {
            p += 1;
        }
        // floor(cbrt(p) * 2^32), found bit by bit
        let mut r = 0u128;
        for bit in (0..36).rev() {
            let t = r | 1 << bit;
            if t * t * t <= (p as u128) << 96 {
                r = t;
            }
        }
        *c = r as u32;
        p += 1;
    }
    let mut w = [0u32; 64];
    for (i, x) in w.iter_mut().take(16).enumerate() {
        *x = u32::from_be_bytes(std::array::from_fn(|m| d[4 * i + m]));
    }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for (x, y) in h.iter_mut().zip(v) {
        *x = x.wrapping_add(y);
    }
}

#[test]
fn sha256_of_abc() {
    let mut h = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut d = [0u8; 64];
    d[..4].copy_from_slice(b"abc\x80");
    d[63] = 24;
    sha256_block(&mut h, &d);
    assert_eq!(h[0], 0xba7816bf);
    assert_eq!(h[7], 0xf20015ad);
}
