//! Copy-on-write paged memory with an optional per-byte symbolic overlay.

use crate::expr::{Exprs, E};
use crate::ll::V;
use std::rc::Rc;

pub const PAGE: usize = 4096;
const ROOT: usize = 512; // covers 2 GiB

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PAGE],
    pub sym: Option<Box<[u32; PAGE]>>,
}
#[derive(Clone)]
struct Dir {
    pages: Vec<Option<Rc<Page>>>,
}

const TLB: usize = 128;

pub struct Mem {
    root: Vec<Option<Rc<Dir>>>,
    rt: Box<[(u64, *const Page); TLB]>,
    wt: Box<[(u64, *mut Page); TLB]>,
}

pub struct Fault(pub u64);

impl Mem {
    pub fn new() -> Self {
        Mem {
            root: vec![None; ROOT],
            rt: Box::new([(u64::MAX, std::ptr::null()); TLB]),
            wt: Box::new([(u64::MAX, std::ptr::null_mut()); TLB]),
        }
    }
    pub fn snapshot(&mut self) -> Mem {
        for e in self.wt.iter_mut() {
            e.0 = u64::MAX;
        }
        Mem {
            root: self.root.clone(),
            rt: Box::new([(u64::MAX, std::ptr::null()); TLB]),
            wt: Box::new([(u64::MAX, std::ptr::null_mut()); TLB]),
        }
    }
    pub fn map(&mut self, addr: u64, len: u64) {
        let mut p = addr >> 12;
        let e = (addr + len + 4095) >> 12;
        while p < e {
            let (r, l) = ((p >> 10) as usize, (p & 1023) as usize);
            assert!(r < ROOT, "address space exhausted");
            let d = self.root[r].get_or_insert_with(|| Rc::new(Dir { pages: vec![None; 1024] }));
            if d.pages[l].is_none() {
                Rc::make_mut(d).pages[l] = Some(Rc::new(Page { data: [0; PAGE], sym: None }));
            }
            p += 1;
        }
        for e in self.wt.iter_mut() {
            e.0 = u64::MAX;
        }
        for e in self.rt.iter_mut() {
            e.0 = u64::MAX;
        }
    }
    #[inline(always)]
    fn rpage(&mut self, addr: u64) -> Result<&Page, Fault> {
        let p = addr >> 12;
        let t = &self.rt[(p as usize) & (TLB - 1)];
        if t.0 == p {
            return Ok(unsafe { &*t.1 });
        }
        self.rslow(addr)
    }
    #[cold]
    fn rslow(&mut self, addr: u64) -> Result<&Page, Fault> {
        let p = addr >> 12;
        let r = (p >> 10) as usize;
        if r >= ROOT {
            return Err(Fault(addr));
        }
        let pg = self.root[r].as_ref().and_then(|d| d.pages[(p & 1023) as usize].as_ref()).ok_or(Fault(addr))?;
        let ptr = Rc::as_ptr(pg);
        self.rt[(p as usize) & (TLB - 1)] = (p, ptr);
        Ok(unsafe { &*ptr })
    }
    #[inline(always)]
    fn wpage(&mut self, addr: u64) -> Result<&mut Page, Fault> {
        let p = addr >> 12;
        let t = &self.wt[(p as usize) & (TLB - 1)];
        if t.0 == p {
            return Ok(unsafe { &mut *t.1 });
        }
        self.wslow(addr)
    }
    #[cold]
    fn wslow(&mut self, addr: u64) -> Result<&mut Page, Fault> {
        let p = addr >> 12;
        let r = (p >> 10) as usize;
        if r >= ROOT {
            return Err(Fault(addr));
        }
        let d = self.root[r].as_mut().ok_or(Fault(addr))?;
        let d = Rc::make_mut(d);
        let pg = d.pages[(p & 1023) as usize].as_mut().ok_or(Fault(addr))?;
        let pg: *mut Page = Rc::make_mut(pg);
        let ix = (p as usize) & (TLB - 1);
        self.wt[ix] = (p, pg);
        self.rt[ix] = (p, pg);
        Ok(unsafe { &mut *pg })
    }

    #[inline(always)]
    pub fn load(&mut self, x: &mut Exprs, addr: u64, w: u8) -> Result<V, Fault> {
        let n = (w as usize + 7) >> 3;
        let o = (addr & 4095) as usize;
        if o + n <= PAGE {
            let pg = self.rpage(addr)?;
            let issym = match &pg.sym {
                None => false,
                Some(s) => s[o..o + n].iter().any(|e| *e != 0),
            };
            if !issym {
                let d = &pg.data;
                return Ok(match w {
                    64 => V::c(u64::from_le_bytes(d[o..o + 8].try_into().unwrap())),
                    32 => V::c(u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64),
                    16 => V::c(u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as u64),
                    8 => V::c(d[o] as u64),
                    1 => V::c((d[o] & 1) as u64),
                    _ => {
                        let mut b = [0u8; 16];
                        b[..n].copy_from_slice(&d[o..o + n]);
                        V::c128(u128::from_le_bytes(b) & crate::expr::mask(w))
                    }
                });
            }
        }
        self.load_slow(x, addr, w)
    }
    #[cold]
    fn load_slow(&mut self, x: &mut Exprs, addr: u64, w: u8) -> Result<V, Fault> {
        let n = (w as u64 + 7) / 8;
        let mut val = 0u128;
        let mut any = false;
        let mut es: Vec<(u8, E)> = vec![];
        for i in 0..n {
            let (b, e) = self.byte(addr + i)?;
            val |= (b as u128) << (8 * i);
            any |= e != 0;
            es.push((b, e));
        }
        if !any {
            return Ok(V::c128(val & crate::expr::mask(w)));
        }
        let mut acc = 0;
        for (b, e) in es {
            let be = if e != 0 { e } else { x.konst(8, b as u128) };
            acc = if acc == 0 { be } else { x.concat(be, acc) };
        }
        if (w as u64) < n * 8 {
            acc = x.extract(acc, 0, w);
        }
        Ok(match x.as_const(acc) {
            Some(c) => V::c128(c),
            None => V::s(acc),
        })
    }
    pub fn byte(&mut self, addr: u64) -> Result<(u8, E), Fault> {
        let pg = self.rpage(addr)?;
        let o = (addr & 4095) as usize;
        Ok((pg.data[o], pg.sym.as_ref().map_or(0, |s| s[o])))
    }
    #[inline(always)]
    pub fn store(&mut self, x: &mut Exprs, addr: u64, w: u8, v: V) -> Result<(), Fault> {
        let n = (w as usize + 7) >> 3;
        let o = (addr & 4095) as usize;
        if v.sym == 0 && o + n <= PAGE {
            let pg = self.wpage(addr)?;
            match n {
                8 => pg.data[o..o + 8].copy_from_slice(&v.lo.to_le_bytes()),
                4 => pg.data[o..o + 4].copy_from_slice(&(v.lo as u32).to_le_bytes()),
                1 => pg.data[o] = v.lo as u8,
                _ => pg.data[o..o + n].copy_from_slice(&v.u128().to_le_bytes()[..n]),
            }
            if let Some(s) = &mut pg.sym {
                s[o..o + n].fill(0);
            }
            return Ok(());
        }
        self.store_slow(x, addr, w, v)
    }
    #[cold]
    fn store_slow(&mut self, x: &mut Exprs, addr: u64, w: u8, v: V) -> Result<(), Fault> {
        let n = (w as usize + 7) >> 3;
        if v.sym == 0 {
            let b = v.u128().to_le_bytes();
            for i in 0..n {
                self.set_byte(addr + i as u64, b[i], 0)?;
            }
            return Ok(());
        }
        let e = if (w as usize) < n * 8 { x.zext(v.sym, (n * 8) as u8) } else { v.sym };
        for i in 0..n {
            let be = if n == 1 { e } else { x.extract(e, (8 * i) as u8, 8) };
            match x.as_const(be) {
                Some(c) => self.set_byte(addr + i as u64, c as u8, 0)?,
                None => self.set_byte(addr + i as u64, 0, be)?,
            }
        }
        Ok(())
    }
    pub fn set_byte(&mut self, addr: u64, b: u8, e: E) -> Result<(), Fault> {
        let pg = self.wpage(addr)?;
        let o = (addr & 4095) as usize;
        pg.data[o] = b;
        if e != 0 {
            let s = pg.sym.get_or_insert_with(|| Box::new([0; PAGE]));
            s[o] = e;
        } else if let Some(s) = &mut pg.sym {
            s[o] = 0;
        }
        Ok(())
    }
    pub fn fill(&mut self, addr: u64, len: u64, b: u8, e: E) -> Result<(), Fault> {
        let mut a = addr;
        let end = addr + len;
        while a < end {
            let o = (a & 4095) as usize;
            let n = ((PAGE - o) as u64).min(end - a) as usize;
            let pg = self.wpage(a)?;
            pg.data[o..o + n].fill(b);
            if e != 0 {
                let s = pg.sym.get_or_insert_with(|| Box::new([0; PAGE]));
                s[o..o + n].fill(e);
            } else if let Some(s) = &mut pg.sym {
                s[o..o + n].fill(0);
            }
            a += n as u64;
        }
        Ok(())
    }
    /// memmove semantics
    pub fn copy(&mut self, dst: u64, src: u64, len: u64) -> Result<(), Fault> {
        if len == 0 || dst == src {
            return Ok(());
        }
        if len <= 4096 {
            let mut data = [0u8; 4096];
            let mut syms: Option<Vec<u32>> = None;
            let mut i = 0usize;
            let len = len as usize;
            while i < len {
                let a = src + i as u64;
                let o = (a & 4095) as usize;
                let n = (PAGE - o).min(len - i);
                let pg = self.rpage(a)?;
                data[i..i + n].copy_from_slice(&pg.data[o..o + n]);
                if let Some(s) = &pg.sym {
                    if s[o..o + n].iter().any(|e| *e != 0) {
                        let v = syms.get_or_insert_with(|| vec![0; len]);
                        v[i..i + n].copy_from_slice(&s[o..o + n]);
                    }
                }
                i += n;
            }
            let mut i = 0usize;
            while i < len {
                let a = dst + i as u64;
                let o = (a & 4095) as usize;
                let n = (PAGE - o).min(len - i);
                let pg = self.wpage(a)?;
                pg.data[o..o + n].copy_from_slice(&data[i..i + n]);
                match &syms {
                    Some(v) => {
                        let s = pg.sym.get_or_insert_with(|| Box::new([0; PAGE]));
                        s[o..o + n].copy_from_slice(&v[i..i + n]);
                    }
                    None => {
                        if let Some(s) = &mut pg.sym {
                            s[o..o + n].fill(0);
                        }
                    }
                }
                i += n;
            }
            return Ok(());
        }
        // chunked, direction chosen for overlap
        if dst < src {
            let mut i = 0;
            while i < len {
                let n = (len - i).min(4096);
                self.copy(dst + i, src + i, n)?;
                i += n;
            }
        } else {
            let mut i = len;
            while i > 0 {
                let n = i.min(4096);
                i -= n;
                self.copy(dst + i, src + i, n)?;
            }
        }
        Ok(())
    }
    pub fn read_bytes(&mut self, addr: u64, len: usize) -> Result<Vec<(u8, E)>, Fault> {
        let mut out = Vec::with_capacity(len);
        for i in 0..len as u64 {
            out.push(self.byte(addr + i)?);
        }
        Ok(out)
    }
    pub fn write_conc(&mut self, addr: u64, d: &[u8]) -> Result<(), Fault> {
        for (i, b) in d.iter().enumerate() {
            self.set_byte(addr + i as u64, *b, 0)?;
        }
        Ok(())
    }
    /// Every page address that is mapped (for diagnostics).
    pub fn pages(&self) -> usize {
        self.root.iter().flatten().map(|d| d.pages.iter().flatten().count()).sum()
    }
}
