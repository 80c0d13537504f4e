//! Parser for textual LLVM IR. Function bodies are parsed and lowered to a
//! register form when first executed.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Default)]
pub struct V {
    pub lo: u64,
    pub hi: u64,
    pub sym: u32,
}
impl V {
    pub fn c(v: u64) -> V {
        V { lo: v, hi: 0, sym: 0 }
    }
    pub fn c128(v: u128) -> V {
        V { lo: v as u64, hi: (v >> 64) as u64, sym: 0 }
    }
    pub fn s(e: u32) -> V {
        V { lo: 0, hi: 0, sym: e }
    }
    pub fn u128(&self) -> u128 {
        (self.lo as u128) | ((self.hi as u128) << 64)
    }
}

pub type T = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TK {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, T),
    Arr(u64, T),
    Struct(Vec<T>, bool),
    Label,
    Meta,
    Opaque,
}
#[derive(Clone, Copy, Debug)]
pub struct Leaf {
    pub off: u32,
    pub w: u8,
}
pub struct TI {
    pub k: TK,
    pub size: u64, // allocation size
    pub store: u64,
    pub align: u64,
    leaves: Option<Rc<Vec<Leaf>>>,
}

pub struct Types {
    pub v: Vec<TI>,
    m: HashMap<TK, T>,
    named: HashMap<&'static [u8], T>,
}

impl Types {
    fn new() -> Self {
        let mut t = Types { v: vec![], m: HashMap::new(), named: HashMap::new() };
        t.mk(TK::Void);
        t
    }
    pub fn mk(&mut self, k: TK) -> T {
        if let Some(&t) = self.m.get(&k) {
            return t;
        }
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        let (size, store, align) = match &k {
            TK::Void | TK::Label | TK::Meta | TK::Opaque => (0, 0, 1),
            TK::Int(w) => {
                let st = ((*w as u64) + 7) / 8;
                let al = st.next_power_of_two().min(16);
                (up(st, al), st, al)
            }
            TK::Ptr | TK::F64 => (8, 8, 8),
            TK::F32 => (4, 4, 4),
            TK::Vec(n, e) => {
                let bits = self.bits(*e) as u64 * *n as u64;
                let st = (bits + 7) / 8;
                let al = st.next_power_of_two().min(64).max(1);
                (up(st, al), st, al)
            }
            TK::Arr(n, e) => {
                let s = self.v[*e as usize].size * n;
                (s, s, self.v[*e as usize].align)
            }
            TK::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                for f in fs {
                    let fa = if *packed { 1 } else { self.v[*f as usize].align };
                    off = up(off, fa) + self.v[*f as usize].size;
                    al = al.max(fa);
                }
                let s = up(off, al);
                (s, s, al)
            }
        };
        let id = self.v.len() as T;
        self.v.push(TI { k: k.clone(), size, store, align, leaves: None });
        self.m.insert(k, id);
        id
    }
    pub fn bits(&self, t: T) -> u32 {
        match self.v[t as usize].k {
            TK::Int(w) => w,
            TK::Ptr | TK::F64 => 64,
            TK::F32 => 32,
            _ => 0,
        }
    }
    pub fn field_off(&self, t: T, i: usize) -> u64 {
        if let TK::Struct(fs, packed) = &self.v[t as usize].k {
            let mut off = 0u64;
            for (j, f) in fs.iter().enumerate() {
                let fa = if *packed { 1 } else { self.v[*f as usize].align };
                off = (off + fa - 1) / fa * fa;
                if j == i {
                    return off;
                }
                off += self.v[*f as usize].size;
            }
        }
        panic!("field_off")
    }
    pub fn leaves(&mut self, t: T) -> Rc<Vec<Leaf>> {
        if let Some(l) = &self.v[t as usize].leaves {
            return l.clone();
        }
        let mut out = vec![];
        self.leaves_rec(t, 0, &mut out);
        let r = Rc::new(out);
        self.v[t as usize].leaves = Some(r.clone());
        r
    }
    fn leaves_rec(&self, t: T, off: u64, out: &mut Vec<Leaf>) {
        match &self.v[t as usize].k {
            TK::Void | TK::Label | TK::Meta | TK::Opaque => {}
            TK::Int(w) => {
                assert!(*w <= 128, "integer wider than 128 bits");
                out.push(Leaf { off: off as u32, w: *w as u8 })
            }
            TK::Ptr | TK::F64 => out.push(Leaf { off: off as u32, w: 64 }),
            TK::F32 => out.push(Leaf { off: off as u32, w: 32 }),
            TK::Vec(n, e) => {
                let b = self.bits(*e);
                for i in 0..*n {
                    // vectors of i1 get one virtual byte per lane
                    let o = if b < 8 { i } else { i * b / 8 };
                    out.push(Leaf { off: off as u32 + o, w: b as u8 });
                }
            }
            TK::Arr(n, e) => {
                let s = self.v[*e as usize].size;
                for i in 0..*n {
                    self.leaves_rec(*e, off + i * s, out);
                }
            }
            TK::Struct(fs, _) => {
                for (i, f) in fs.iter().enumerate() {
                    let o = self.field_off(t, i);
                    self.leaves_rec(*f, off + o, out);
                }
            }
        }
    }
}

pub type Opd = i32; // >= 0 register, < 0 constant !idx

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum C {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Vec<(u32, Opd)>,
    pub conflict: bool,
}
#[derive(Debug)]
pub struct CallI {
    pub callee: Opd,      // for indirect calls
    pub direct: i32,      // function index or -1
    pub args: Vec<Opd>,   // flattened
    pub argw: Vec<u8>,
    pub d: u32,
    pub retw: Vec<u8>,
    pub fixed: u32,
}
#[derive(Debug)]
pub struct SwitchI {
    pub v: Opd,
    pub w: u8,
    pub def: u32,
    pub cases: Vec<(u128, u32)>,
    pub map: Option<HashMap<u64, u32>>,
}
#[derive(Debug)]
pub struct CastI {
    pub src: Vec<(Opd, u8)>,
    pub dst: Vec<(u32, u8)>,
}
#[derive(Debug)]
pub struct DynI {
    pub idx: Opd,
    pub iw: u8,
    pub d: u32,
    pub src: Vec<Opd>,
    pub val: Option<Opd>,
}

#[derive(Debug)]
pub enum I {
    Mov { d: u32, s: Opd },
    Bin { op: B, w: u8, d: u32, a: Opd, b: Opd },
    Cmp { p: C, w: u8, d: u32, a: Opd, b: Opd },
    Sel { ptr: bool, w: u8, d: u32, c: Opd, a: Opd, b: Opd },
    ZExt { fw: u8, tw: u8, d: u32, a: Opd },
    SExt { fw: u8, tw: u8, d: u32, a: Opd },
    Trunc { fw: u8, tw: u8, d: u32, a: Opd },
    Load { w: u8, d: u32, p: Opd, off: u32 },
    Store { w: u8, v: Opd, p: Opd, off: u32 },
    Gep { d: u32, base: Opd, off: i64, idx: Box<[(Opd, u8, i64)]> },
    GepC { d: u32, base: Opd, off: i64 },
    Gep1 { d: u32, base: Opd, idx: Opd, scale: i64 },
    Br(u32),
    CBr { c: Opd, t: u32, f: u32 },
    Switch(Box<SwitchI>),
    Ret(Box<[Opd]>),
    Unreachable,
    Call(Box<CallI>),
    Alloca { d: u32, size: u64, align: u64, cnt: Opd },
    Bitcast(Box<CastI>),
    Dyn(Box<DynI>),
    FBin { op: u8, w: u8, d: u32, a: Opd, b: Opd },
    FCmp { p: u8, w: u8, d: u32, a: Opd, b: Opd },
    FCast { op: u8, fw: u8, tw: u8, d: u32, a: Opd },
    Asm(Box<CallI>, String),
    RangeEnd,
}

pub struct Func {
    pub idx: usize,
    pub nregs: u32,
    pub nargs: u32,
    pub consts: Vec<V>,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub varargs: bool,
}

pub struct FuncEntry {
    pub name: &'static str,
    pub body: Option<(usize, usize)>, // offset of header, of body end
    pub compiled: Option<Rc<Func>>,
}

#[derive(Clone, Copy, Debug)]
pub enum Sym {
    Func(usize),
    Data(u64),
}

pub struct GlobalInit {
    pub addr: u64,
    pub bytes: Vec<u8>,
}

pub struct Module {
    pub text: &'static [u8],
    pub ty: Types,
    pub syms: HashMap<&'static [u8], Sym>,
    pub funcs: Vec<FuncEntry>,
    pub inits: Vec<GlobalInit>,
    pub data_end: u64,
    pub tls_start: u64,
    pub tls_end: u64,
    pub nparsed: usize,
}

pub const FUNC_BASE: u64 = 0x9000_0000;
pub const DATA_BASE: u64 = 0x0010_0000;

struct Cur {
    s: &'static [u8],
    p: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl Cur {
    fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => self.eol(),
                _ => break,
            }
        }
    }
    fn eol(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let b = self.s[..self.p].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
        let e = self.s[self.p..].iter().position(|c| *c == b'\n').map_or(self.s.len(), |x| self.p + x);
        panic!(
            "parse error: {} at column {} of: {}",
            m,
            self.p - b,
            String::from_utf8_lossy(&self.s[b..e])
        );
    }
    fn word(&mut self) -> &'static [u8] {
        self.ws();
        let b = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) {
            self.p += 1;
        }
        &self.s[b..self.p]
    }
    fn peek_word(&mut self) -> &'static [u8] {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        self.ws();
        let p = self.p;
        if self.word() == w.as_bytes() {
            true
        } else {
            self.p = p;
            false
        }
    }
    /// Name after % or @ (possibly quoted), with the sigil already consumed.
    fn name(&mut self) -> &'static [u8] {
        if self.s[self.p] == b'"' {
            let b = self.p + 1;
            self.p += 1;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            self.p += 1;
            &self.s[b..self.p - 1]
        } else {
            let b = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) {
                self.p += 1;
            }
            &self.s[b..self.p]
        }
    }
    fn skip_string(&mut self) {
        self.need(b'"');
        while self.s[self.p] != b'"' {
            self.p += 1;
        }
        self.p += 1;
    }
    fn balanced(&mut self, open: u8, close: u8) {
        self.need(open);
        let mut d = 1;
        while d > 0 {
            let c = self.s[self.p];
            if c == b'"' {
                self.p += 1;
                while self.s[self.p] != b'"' {
                    self.p += 1;
                }
            } else if c == open {
                d += 1;
            } else if c == close {
                d -= 1;
            }
            self.p += 1;
        }
    }
    fn int(&mut self) -> i128 {
        let w = self.word();
        std::str::from_utf8(w).unwrap().parse().unwrap_or_else(|_| self.fail("integer"))
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit())
            }
            _ => matches!(
                self.peek_word(),
                b"void" | b"ptr" | b"float" | b"double" | b"metadata" | b"label" | b"token" | b"half" | b"x86_fp80" | b"fp128"
            ),
        }
    }
}

fn hexv(c: u8) -> u8 {
    (c as char).to_digit(16).unwrap() as u8
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static [u8] = Box::leak(std::fs::read(path).expect("read module").into_boxed_slice());
        let mut m = Module {
            text,
            ty: Types::new(),
            syms: HashMap::new(),
            funcs: vec![],
            inits: vec![],
            data_end: DATA_BASE,
            tls_start: 0,
            tls_end: 0,
            nparsed: 0,
        };
        m.index();
        m
    }

    fn index(&mut self) {
        let text = self.text;
        let mut p = 0;
        let mut globals: Vec<(usize, bool)> = vec![]; // position after name/=, tls
        let mut gnames: Vec<&'static [u8]> = vec![];
        let mut types: Vec<usize> = vec![];
        let mut aliases: Vec<usize> = vec![];
        while p < text.len() {
            let e = text[p..].iter().position(|c| *c == b'\n').map_or(text.len(), |x| p + x);
            let line = &text[p..e];
            match line.first() {
                Some(b'@') => {
                    let mut c = Cur { s: text, p: p + 1 };
                    let name = c.name();
                    c.need(b'=');
                    let pos = c.p;
                    let mut tls = false;
                    loop {
                        let w = c.word();
                        if w == b"thread_local" {
                            tls = true;
                        }
                        if w == b"global" || w == b"constant" {
                            globals.push((pos, tls));
                            gnames.push(name);
                            break;
                        }
                        if w == b"alias" || w == b"ifunc" {
                            aliases.push(p);
                            break;
                        }
                        if w.is_empty() {
                            if c.peek() == b'(' {
                                c.balanced(b'(', b')');
                            } else {
                                c.fail("global");
                            }
                        }
                    }
                    p = e + 1;
                }
                Some(b'%') => {
                    types.push(p);
                    p = e + 1;
                }
                Some(b'd') if line.starts_with(b"define") || line.starts_with(b"declare") => {
                    let def = line.starts_with(b"define");
                    let at = line.iter().position(|c| *c == b'@').unwrap();
                    let mut c = Cur { s: text, p: p + at + 1 };
                    let name = c.name();
                    let mut end = e;
                    if def {
                        // body ends at a line consisting of "}"
                        let mut q = e;
                        loop {
                            let n = text[q + 1..].iter().position(|c| *c == b'\n').map_or(text.len(), |x| q + 1 + x);
                            if text[q + 1] == b'}' {
                                end = n;
                                break;
                            }
                            q = n;
                        }
                    }
                    let fi = self.funcs.len();
                    self.syms.insert(name, Sym::Func(fi));
                    self.funcs.push(FuncEntry {
                        name: std::str::from_utf8(name).unwrap(),
                        body: if def { Some((p, end)) } else { None },
                        compiled: None,
                    });
                    p = end + 1;
                }
                _ => p = e + 1,
            }
        }
        // named types (in order; forward references are rare in rustc output)
        for pos in types {
            let mut c = Cur { s: text, p: pos + 1 };
            let name = c.name();
            c.need(b'=');
            assert!(c.eat_word("type"));
            let t = if c.eat_word("opaque") { self.ty.mk(TK::Opaque) } else { self.ptype(&mut c) };
            self.ty.named.insert(name, t);
        }
        // lay out globals: first ordinary ones, then TLS
        let mut posinit: Vec<(usize, u64, T)> = vec![];
        let mut addr = DATA_BASE;
        for pass in 0..2 {
            if pass == 1 {
                addr = (addr + 4095) & !4095;
                self.tls_start = addr;
            }
            for (i, &(pos, tls)) in globals.iter().enumerate() {
                if tls != (pass == 1) {
                    continue;
                }
                let mut c = Cur { s: text, p: pos };
                let mut external = false;
                loop {
                    let w = c.word();
                    if w == b"global" || w == b"constant" {
                        break;
                    }
                    if w == b"external" || w == b"extern_weak" {
                        external = true;
                    }
                    if w.is_empty() {
                        c.balanced(b'(', b')');
                    }
                }
                let t = self.ptype(&mut c);
                let (size, mut align) = (self.ty.v[t as usize].size, self.ty.v[t as usize].align);
                // explicit alignment
                let le = text[pos..].iter().position(|c| *c == b'\n').map_or(text.len(), |x| pos + x);
                if let Some(a) = find_last(&text[pos..le], b", align ") {
                    let mut cc = Cur { s: text, p: pos + a + 8 };
                    align = align.max(cc.int() as u64);
                }
                addr = (addr + align - 1) / align * align;
                self.syms.insert(gnames[i], Sym::Data(addr));
                if !external {
                    posinit.push((c.p, addr, t));
                }
                addr += size.max(1);
            }
        }
        self.tls_end = addr;
        self.data_end = (addr + 4095) & !4095;
        for pos in aliases {
            let mut c = Cur { s: text, p: pos + 1 };
            let name = c.name();
            let le = text[pos..].iter().position(|c| *c == b'\n').map_or(text.len(), |x| pos + x);
            let line = &text[pos + 1..le];
            if let Some(a) = line.iter().rposition(|c| *c == b'@') {
                let mut c2 = Cur { s: text, p: pos + 1 + a + 1 };
                let target = c2.name();
                if let Some(&s) = self.syms.get(target) {
                    self.syms.insert(name, s);
                }
            }
        }
        for (pos, addr, t) in posinit {
            let mut c = Cur { s: text, p: pos };
            let mut buf = vec![0u8; self.ty.v[t as usize].size as usize];
            self.pconst_mem(&mut c, t, &mut buf, 0);
            self.inits.push(GlobalInit { addr, bytes: buf });
        }
    }

    pub fn func_addr(i: usize) -> u64 {
        FUNC_BASE + 16 * i as u64
    }

    fn ptype(&mut self, c: &mut Cur) -> T {
        let t = match c.peek() {
            b'{' => {
                c.p += 1;
                let mut fs = vec![];
                while !c.eat(b'}') {
                    fs.push(self.ptype(c));
                    c.eat(b',');
                }
                self.ty.mk(TK::Struct(fs, false))
            }
            b'<' => {
                c.p += 1;
                if c.eat(b'{') {
                    let mut fs = vec![];
                    while !c.eat(b'}') {
                        fs.push(self.ptype(c));
                        c.eat(b',');
                    }
                    c.need(b'>');
                    self.ty.mk(TK::Struct(fs, true))
                } else {
                    let n = c.int() as u32;
                    assert!(c.eat_word("x"));
                    let e = self.ptype(c);
                    c.need(b'>');
                    self.ty.mk(TK::Vec(n, e))
                }
            }
            b'[' => {
                c.p += 1;
                let n = c.int() as u64;
                assert!(c.eat_word("x"));
                let e = self.ptype(c);
                c.need(b']');
                self.ty.mk(TK::Arr(n, e))
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                *self.ty.named.get(n).unwrap_or_else(|| c.fail("unknown type"))
            }
            _ => {
                let w = c.word();
                match w {
                    b"void" => self.ty.mk(TK::Void),
                    b"ptr" => self.ty.mk(TK::Ptr),
                    b"float" => self.ty.mk(TK::F32),
                    b"double" => self.ty.mk(TK::F64),
                    b"label" => self.ty.mk(TK::Label),
                    b"metadata" => self.ty.mk(TK::Meta),
                    b"token" => self.ty.mk(TK::Opaque),
                    _ if w.first() == Some(&b'i') => {
                        let n: u32 = std::str::from_utf8(&w[1..]).unwrap().parse().unwrap_or_else(|_| c.fail("type"));
                        self.ty.mk(TK::Int(n))
                    }
                    b"half" => self.ty.mk(TK::Int(16)),
                    b"x86_fp80" => self.ty.mk(TK::Int(80)),
                    b"fp128" => self.ty.mk(TK::Int(128)),
                    _ => c.fail("type"),
                }
            }
        };
        t
    }

    fn sym_addr(&self, n: &[u8]) -> u64 {
        match self.syms.get(n) {
            Some(Sym::Func(i)) => Self::func_addr(*i),
            Some(Sym::Data(a)) => *a,
            None => panic!("unknown symbol {}", String::from_utf8_lossy(n)),
        }
    }

    /// A scalar constant of type `t`.
    fn pscalar(&mut self, c: &mut Cur, t: T) -> u128 {
        let bits = self.ty.bits(t);
        let m = if bits >= 128 { !0u128 } else { (1u128 << bits) - 1 };
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                return self.sym_addr(n) as u128;
            }
            _ => {}
        }
        let w = c.word();
        match w {
            b"true" => 1,
            b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none" => 0,
            b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"zext" | b"ptrtoaddr" | b"addrspacecast" => {
                c.need(b'(');
                let ft = self.ptype(c);
                let v = self.pscalar(c, ft);
                assert!(c.eat_word("to"));
                let _ = self.ptype(c);
                c.need(b')');
                v & m
            }
            b"getelementptr" => {
                while c.peek() != b'(' {
                    let w = c.word();
                    if w == b"inrange" {
                        c.balanced(b'(', b')');
                    }
                }
                c.need(b'(');
                let bt = self.ptype(c);
                c.need(b',');
                let pt = self.ptype(c);
                let mut addr = self.pscalar(c, pt) as u64;
                let mut cur = bt;
                let mut first = true;
                while c.eat(b',') {
                    let it = self.ptype(c);
                    let v = self.pscalar(c, it);
                    let v = crate::expr::sx(v, self.ty.bits(it) as u8) as i64;
                    if first {
                        addr = addr.wrapping_add((v as u64).wrapping_mul(self.ty.v[cur as usize].size));
                        first = false;
                    } else {
                        match self.ty.v[cur as usize].k.clone() {
                            TK::Struct(fs, _) => {
                                addr = addr.wrapping_add(self.ty.field_off(cur, v as usize));
                                cur = fs[v as usize];
                            }
                            TK::Arr(_, e) | TK::Vec(_, e) => {
                                addr = addr.wrapping_add((v as u64).wrapping_mul(self.ty.v[e as usize].size));
                                cur = e;
                            }
                            _ => c.fail("gep const"),
                        }
                    }
                }
                c.need(b')');
                addr as u128
            }
            b"add" | b"sub" | b"mul" | b"xor" | b"and" | b"or" | b"shl" => {
                while c.peek() != b'(' {
                    c.word();
                }
                c.need(b'(');
                let t1 = self.ptype(c);
                let a = self.pscalar(c, t1);
                c.need(b',');
                let t2 = self.ptype(c);
                let b = self.pscalar(c, t2);
                c.need(b')');
                (match w {
                    b"add" => a.wrapping_add(b),
                    b"sub" => a.wrapping_sub(b),
                    b"mul" => a.wrapping_mul(b),
                    b"xor" => a ^ b,
                    b"and" => a & b,
                    b"shl" => a << b,
                    _ => a | b,
                }) & m
            }
            _ => {
                let s = std::str::from_utf8(w).unwrap();
                match self.ty.v[t as usize].k {
                    TK::F64 | TK::F32 => {
                        let is32 = self.ty.v[t as usize].k == TK::F32;
                        let d: f64 = if let Some(h) = s.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| c.fail("float")))
                        } else {
                            // number with exponent sign: word() stops at '+'
                            let mut st = s.to_string();
                            if c.s[c.p] == b'+' {
                                c.p += 1;
                                st.push('+');
                                st.push_str(std::str::from_utf8(c.word()).unwrap());
                            }
                            st.parse().unwrap_or_else(|_| c.fail("float"))
                        };
                        if is32 {
                            (d as f32).to_bits() as u128
                        } else {
                            d.to_bits() as u128
                        }
                    }
                    _ => {
                        if let Ok(v) = s.parse::<i128>() {
                            (v as u128) & m
                        } else if let Ok(v) = s.parse::<u128>() {
                            v & m
                        } else {
                            c.fail(&format!("constant '{}'", s))
                        }
                    }
                }
            }
        }
    }

    fn pconst_mem(&mut self, c: &mut Cur, t: T, buf: &mut [u8], off: usize) {
        let k = self.ty.v[t as usize].k.clone();
        match k {
            TK::Int(_) | TK::Ptr | TK::F32 | TK::F64 => {
                let v = self.pscalar(c, t);
                let n = self.ty.v[t as usize].store as usize;
                buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            TK::Arr(_, e) | TK::Vec(_, e) => {
                let es = self.ty.v[e as usize].size as usize;
                match c.peek() {
                    b'c' if c.s[c.p + 1] == b'"' => {
                        c.p += 2;
                        let mut o = off;
                        while c.s[c.p] != b'"' {
                            let ch = c.s[c.p];
                            if ch == b'\\' {
                                if c.s[c.p + 1] == b'\\' {
                                    buf[o] = b'\\';
                                    c.p += 2;
                                } else {
                                    buf[o] = hexv(c.s[c.p + 1]) * 16 + hexv(c.s[c.p + 2]);
                                    c.p += 3;
                                }
                            } else {
                                buf[o] = ch;
                                c.p += 1;
                            }
                            o += 1;
                        }
                        c.p += 1;
                    }
                    b'[' | b'<' => {
                        let close = if c.peek() == b'[' { b']' } else { b'>' };
                        c.p += 1;
                        let mut o = off;
                        while !c.eat(close) {
                            let et = self.ptype(c);
                            self.pconst_mem(c, et, buf, o);
                            o += es;
                            c.eat(b',');
                        }
                    }
                    _ => {
                        let w = c.word();
                        if w == b"splat" {
                            c.need(b'(');
                            let et = self.ptype(c);
                            let p = c.p;
                            let n = buf.len().min(self.ty.v[t as usize].size as usize) / es.max(1);
                            for i in 0..n {
                                c.p = p;
                                self.pconst_mem(c, et, buf, off + i * es);
                            }
                            c.need(b')');
                        } else if !matches!(w, b"zeroinitializer" | b"undef" | b"poison") {
                            c.fail("array constant");
                        }
                    }
                }
            }
            TK::Struct(fs, packed) => match c.peek() {
                b'{' | b'<' => {
                    c.p += 1;
                    if packed {
                        c.need(b'{');
                    }
                    for i in 0..fs.len() {
                        let et = self.ptype(c);
                        let o = self.ty.field_off(t, i) as usize;
                        self.pconst_mem(c, et, buf, off + o);
                        c.eat(b',');
                    }
                    c.need(b'}');
                    if packed {
                        c.need(b'>');
                    }
                }
                _ => {
                    let w = c.word();
                    if !matches!(w, b"zeroinitializer" | b"undef" | b"poison") {
                        c.fail("struct constant");
                    }
                }
            },
            _ => c.fail("constant of unsized type"),
        }
    }

    /// Constant flattened to leaves.
    fn pconst_leaves(&mut self, c: &mut Cur, t: T, out: &mut Vec<u128>) {
        let k = self.ty.v[t as usize].k.clone();
        match k {
            TK::Int(_) | TK::Ptr | TK::F32 | TK::F64 => {
                let v = self.pscalar(c, t);
                out.push(v);
            }
            TK::Meta => {
                // metadata operand: skip
                self.skip_meta(c);
            }
            _ => {
                let w = c.peek_word();
                if matches!(w, b"zeroinitializer" | b"undef" | b"poison") {
                    c.word();
                    let n = self.ty.leaves(t).len();
                    out.extend(std::iter::repeat(0).take(n));
                    return;
                }
                if w == b"splat" {
                    c.word();
                    c.need(b'(');
                    let et = self.ptype(c);
                    let v = self.pscalar(c, et);
                    c.need(b')');
                    let n = self.ty.leaves(t).len();
                    out.extend(std::iter::repeat(v).take(n));
                    return;
                }
                if w == b"c" && matches!(k, TK::Arr(..)) {
                    let mut buf = vec![0u8; self.ty.v[t as usize].size as usize];
                    self.pconst_mem(c, t, &mut buf, 0);
                    out.extend(buf.iter().map(|b| *b as u128));
                    return;
                }
                let close: &[u8] = match c.peek() {
                    b'{' => b"}",
                    b'[' => b"]",
                    b'<' if matches!(k, TK::Struct(_, true)) => {
                        c.p += 1;
                        b"}>"
                    }
                    b'<' => b">",
                    _ => c.fail("aggregate constant"),
                };
                c.p += 1;
                loop {
                    if c.peek() == close[0] {
                        c.p += close.len();
                        break;
                    }
                    let et = self.ptype(c);
                    self.pconst_leaves(c, et, out);
                    c.eat(b',');
                }
            }
        }
    }
    fn skip_meta(&mut self, c: &mut Cur) {
        // after "metadata": !123, !{...}, !DIExpression(...), or <ty> <value>
        c.ws();
        let mut d = 0i32;
        loop {
            match c.s[c.p] {
                b'(' | b'{' => d += 1,
                b')' | b'}' if d > 0 => d -= 1,
                b')' | b',' if d == 0 => return,
                _ => {}
            }
            c.p += 1;
        }
    }

    pub fn func_name(&self, i: usize) -> &'static str {
        self.funcs[i].name
    }

    pub fn compile(&mut self, fi: usize) -> Rc<Func> {
        if let Some(f) = &self.funcs[fi].compiled {
            return f.clone();
        }
        let (b, e) = self.funcs[fi].body.expect("no body");
        let f = Rc::new(FB::build(self, fi, b, e));
        self.funcs[fi].compiled = Some(f.clone());
        self.nparsed += 1;
        f
    }
}

fn find_last(h: &[u8], n: &[u8]) -> Option<usize> {
    if h.len() < n.len() {
        return None;
    }
    (0..=h.len() - n.len()).rev().find(|&i| &h[i..i + n.len()] == n)
}

/// Function builder.
struct FB<'a> {
    m: &'a mut Module,
    c: Cur,
    regs: HashMap<&'static [u8], (u32, u32)>, // name -> (base, slots)
    nregs: u32,
    consts: Vec<V>,
    cmap: HashMap<u128, i32>,
    code: Vec<I>,
    edges: Vec<(u32, u32)>,              // (from block, to block)
    blocks: HashMap<&'static [u8], u32>, // label -> block id
    bstart: Vec<u32>,
    phis: Vec<Vec<(u32, Vec<(Vec<Opd>, u32)>)>>, // per block: (dst base, [(vals, pred)])
    curb: u32,
}

impl<'a> FB<'a> {
    fn reg(&mut self, name: &'static [u8], slots: usize) -> u32 {
        if let Some(&(b, n)) = self.regs.get(name) {
            debug_assert_eq!(n as usize, slots, "{}", String::from_utf8_lossy(name));
            return b;
        }
        let b = self.nregs;
        self.nregs += slots as u32;
        self.regs.insert(name, (b, slots as u32));
        b
    }
    fn konst(&mut self, v: u128) -> Opd {
        if let Some(&o) = self.cmap.get(&v) {
            return o;
        }
        let o = !(self.consts.len() as i32);
        self.consts.push(V::c128(v));
        self.cmap.insert(v, o);
        o
    }
    fn block(&mut self, name: &'static [u8]) -> u32 {
        if let Some(&b) = self.blocks.get(name) {
            return b;
        }
        let b = self.bstart.len() as u32;
        self.bstart.push(u32::MAX);
        self.phis.push(vec![]);
        self.blocks.insert(name, b);
        b
    }
    fn edge(&mut self, to: u32) -> u32 {
        self.edges.push((self.curb, to));
        self.edges.len() as u32 - 1
    }
    fn slots(&mut self, t: T) -> usize {
        self.m.ty.leaves(t).len()
    }
    fn lw(&mut self, t: T) -> Vec<u8> {
        self.m.ty.leaves(t).iter().map(|l| l.w).collect()
    }
    /// Operand of type t, flattened.
    fn val(&mut self, t: T) -> Vec<Opd> {
        if self.c.peek() == b'%' {
            self.c.p += 1;
            let n = self.c.name();
            let s = self.slots(t);
            let b = self.reg(n, s);
            return (0..s as u32).map(|i| (b + i) as Opd).collect();
        }
        let mut out = vec![];
        let m: &mut Module = self.m;
        m.pconst_leaves(&mut self.c, t, &mut out);
        out.into_iter().map(|v| self.konst(v)).collect()
    }
    fn val1(&mut self, t: T) -> Opd {
        let v = self.val(t);
        assert_eq!(v.len(), 1);
        v[0]
    }
    fn ty(&mut self) -> T {
        self.m.ptype(&mut self.c)
    }
    fn skip_attrs_to_type(&mut self) {
        while !self.c.at_type() {
            self.skip_attr();
        }
    }
    fn skip_attr(&mut self) {
        match self.c.peek() {
            b'"' => {
                self.c.skip_string();
                if self.c.s[self.c.p] == b'=' {
                    self.c.p += 1;
                    self.c.skip_string();
                }
            }
            b'#' => {
                self.c.p += 1;
                self.c.word();
            }
            b'(' => self.c.balanced(b'(', b')'),
            _ => {
                let w = self.c.word();
                if w.is_empty() {
                    self.c.fail("attribute");
                }
                if w == b"align" || w == b"cc" || w == b"addrspace" {
                    if self.c.peek() == b'(' {
                        self.c.balanced(b'(', b')');
                    } else {
                        self.c.word();
                    }
                } else if self.c.s[self.c.p] == b'(' {
                    self.c.balanced(b'(', b')');
                }
            }
        }
    }
    fn at_value(&mut self) -> bool {
        match self.c.peek() {
            b'%' | b'@' | b'{' | b'[' | b'<' | b'-' => true,
            b'0'..=b'9' => true,
            b'!' => true,
            b'c' if self.c.s[self.c.p + 1] == b'"' => true,
            _ => matches!(
                self.c.peek_word(),
                b"true"
                    | b"false"
                    | b"null"
                    | b"undef"
                    | b"poison"
                    | b"zeroinitializer"
                    | b"none"
                    | b"ptrtoint"
                    | b"inttoptr"
                    | b"bitcast"
                    | b"getelementptr"
                    | b"trunc"
                    | b"zext"
                    | b"add"
                    | b"sub"
                    | b"mul"
                    | b"xor"
                    | b"and"
                    | b"or"
                    | b"shl"
                    | b"splat"
                    | b"ptrtoaddr"
            ),
        }
    }

    fn build(m: &'a mut Module, fi: usize, b: usize, e: usize) -> Func {
        let text = m.text;
        let mut f = FB {
            m,
            c: Cur { s: &text[..e], p: b },
            regs: HashMap::new(),
            nregs: 0,
            consts: vec![],
            cmap: HashMap::new(),
            code: vec![],
            edges: vec![],
            blocks: HashMap::new(),
            bstart: vec![],
            phis: vec![],
            curb: 0,
        };
        // header: find the '(' after the name
        let at = text[b..e].iter().position(|c| *c == b'@').unwrap();
        f.c.p = b + at + 1;
        f.c.name();
        f.c.need(b'(');
        let mut unnamed = 0u32;
        let mut varargs = false;
        while !f.c.eat(b')') {
            if f.c.peek() == b'.' {
                f.c.p += 3;
                varargs = true;
                continue;
            }
            let t = f.ty();
            loop {
                match f.c.peek() {
                    b'%' | b',' | b')' => break,
                    _ => f.skip_attr(),
                }
            }
            let s = f.slots(t);
            if f.c.eat(b'%') {
                let n = f.c.name();
                if n.iter().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                f.reg(n, s);
            } else {
                f.nregs += s as u32;
                unnamed += 1;
            }
            f.c.eat(b',');
        }
        let nargs = f.nregs;
        // skip to '{'
        f.c.eol();
        assert_eq!(text[f.c.p - 1], b'{');
        let entry_name: &'static [u8] = Box::leak(unnamed.to_string().into_bytes().into_boxed_slice());
        let mut first = true;
        loop {
            f.c.ws();
            if f.c.p >= e || f.c.s[f.c.p] == b'}' {
                break;
            }
            // label?
            let p = f.c.p;
            let mut is_label = false;
            if f.c.s[p] == b'"' {
                let q = f.c.s[p + 1..].iter().position(|c| *c == b'"').unwrap() + p + 1;
                if f.c.s.get(q + 1) == Some(&b':') {
                    is_label = true;
                }
            } else {
                let mut q = p;
                while q < e && is_id(f.c.s[q]) {
                    q += 1;
                }
                if q > p && f.c.s.get(q) == Some(&b':') {
                    is_label = true;
                }
            }
            if is_label {
                let n = f.c.name();
                f.c.p += 1;
                let bid = f.block(n);
                f.bstart[bid as usize] = f.code.len() as u32;
                f.curb = bid;
                f.c.eol();
                first = false;
                continue;
            }
            if first {
                let bid = f.block(entry_name);
                f.bstart[bid as usize] = 0;
                f.curb = bid;
                first = false;
            }
            f.inst();
            // the parser may already have looked past the end of the line
            let mut q = f.c.p;
            while q > 0 && matches!(f.c.s[q - 1], b' ' | b'\t') {
                q -= 1;
            }
            if f.c.s[q - 1] != b'\n' {
                f.c.eol();
            }
        }
        // finish edges
        let mut edges = vec![];
        let elist = std::mem::take(&mut f.edges);
        for (from, to) in elist {
            let mut moves = vec![];
            for (d, ins) in &f.phis[to as usize] {
                let (vals, _) = ins.iter().find(|(_, p)| *p == from).expect("phi predecessor");
                for (k, v) in vals.iter().enumerate() {
                    let dd = d + k as u32;
                    if *v != dd as Opd {
                        moves.push((dd, *v));
                    }
                }
            }
            // does a move read a register an earlier move writes?
            let mut conflict = false;
            for i in 0..moves.len() {
                for j in 0..i {
                    if moves[i].1 == moves[j].0 as Opd {
                        conflict = true;
                    }
                }
            }
            edges.push(Edge { target: f.bstart[to as usize], moves, conflict });
        }
        Func { idx: fi, nregs: f.nregs, nargs, consts: f.consts, code: f.code, edges, varargs }
    }

    fn label(&mut self) -> u32 {
        assert!(self.c.eat_word("label"));
        self.c.need(b'%');
        let n = self.c.name();
        self.block(n)
    }

    fn inst(&mut self) {
        let mut dst: Option<&'static [u8]> = None;
        if self.c.peek() == b'%' {
            self.c.p += 1;
            dst = Some(self.c.name());
            self.c.need(b'=');
        }
        let w = self.c.word();
        match w {
            b"ret" => {
                let t = self.ty();
                let v = if self.m.ty.v[t as usize].k == TK::Void { vec![] } else { self.val(t) };
                self.code.push(I::Ret(v.into_boxed_slice()));
            }
            b"br" => {
                if self.c.peek_word() == b"label" {
                    let b = self.label();
                    let e = self.edge(b);
                    self.code.push(I::Br(e));
                } else {
                    let t = self.ty();
                    let c = self.val1(t);
                    self.c.need(b',');
                    let a = self.label();
                    self.c.need(b',');
                    let b = self.label();
                    let (ea, eb) = (self.edge(a), self.edge(b));
                    self.code.push(I::CBr { c, t: ea, f: eb });
                }
            }
            b"switch" => {
                let t = self.ty();
                let w = self.m.ty.bits(t) as u8;
                let v = self.val1(t);
                self.c.need(b',');
                let d = self.label();
                let def = self.edge(d);
                self.c.need(b'[');
                let mut cases = vec![];
                while !self.c.eat(b']') {
                    let ct = self.ty();
                    let k = self.m.pscalar(&mut self.c, ct);
                    self.c.need(b',');
                    let b = self.label();
                    let e = self.edge(b);
                    cases.push((k, e));
                }
                let map = if cases.len() > 8 && w <= 64 {
                    Some(cases.iter().map(|(k, e)| (*k as u64, *e)).collect())
                } else {
                    None
                };
                self.code.push(I::Switch(Box::new(SwitchI { v, w, def, cases, map })));
            }
            b"unreachable" => self.code.push(I::Unreachable),
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"shl" | b"lshr" | b"ashr"
            | b"and" | b"or" | b"xor" => {
                let op = match w {
                    b"add" => B::Add,
                    b"sub" => B::Sub,
                    b"mul" => B::Mul,
                    b"udiv" => B::UDiv,
                    b"sdiv" => B::SDiv,
                    b"urem" => B::URem,
                    b"srem" => B::SRem,
                    b"shl" => B::Shl,
                    b"lshr" => B::LShr,
                    b"ashr" => B::AShr,
                    b"and" => B::And,
                    b"or" => B::Or,
                    _ => B::Xor,
                };
                while !self.c.at_type() {
                    self.c.word();
                }
                let t = self.ty();
                let a = self.val(t);
                self.c.need(b',');
                let b = self.val(t);
                let lw = self.lw(t);
                let d = self.reg(dst.unwrap(), lw.len());
                for i in 0..lw.len() {
                    self.code.push(I::Bin { op, w: lw[i], d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                let op = match w {
                    b"fadd" => 0,
                    b"fsub" => 1,
                    b"fmul" => 2,
                    b"fdiv" => 3,
                    _ => 4,
                };
                while !self.c.at_type() {
                    self.c.word();
                }
                let t = self.ty();
                let a = self.val(t);
                self.c.need(b',');
                let b = self.val(t);
                let lw = self.lw(t);
                let d = self.reg(dst.unwrap(), lw.len());
                for i in 0..lw.len() {
                    self.code.push(I::FBin { op, w: lw[i], d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            b"fneg" => {
                while !self.c.at_type() {
                    self.c.word();
                }
                let t = self.ty();
                let a = self.val(t);
                let lw = self.lw(t);
                let d = self.reg(dst.unwrap(), lw.len());
                for i in 0..lw.len() {
                    let k = self.konst(1u128 << (lw[i] - 1));
                    self.code.push(I::Bin { op: B::Xor, w: lw[i], d: d + i as u32, a: a[i], b: k });
                }
            }
            b"icmp" => {
                self.c.eat_word("samesign");
                let p = match self.c.word() {
                    b"eq" => C::Eq,
                    b"ne" => C::Ne,
                    b"ult" => C::Ult,
                    b"ule" => C::Ule,
                    b"ugt" => C::Ugt,
                    b"uge" => C::Uge,
                    b"slt" => C::Slt,
                    b"sle" => C::Sle,
                    b"sgt" => C::Sgt,
                    b"sge" => C::Sge,
                    _ => self.c.fail("icmp predicate"),
                };
                let t = self.ty();
                let a = self.val(t);
                self.c.need(b',');
                let b = self.val(t);
                let lw = self.lw(t);
                let d = self.reg(dst.unwrap(), lw.len());
                for i in 0..lw.len() {
                    self.code.push(I::Cmp { p, w: lw[i], d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            b"fcmp" => {
                let mut p = self.c.word();
                while matches!(p, b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc") {
                    p = self.c.word();
                }
                let code = match p {
                    b"false" => 0u8,
                    b"oeq" => 1,
                    b"ogt" => 2,
                    b"oge" => 3,
                    b"olt" => 4,
                    b"ole" => 5,
                    b"one" => 6,
                    b"ord" => 7,
                    b"uno" => 8,
                    b"ueq" => 9,
                    b"ugt" => 10,
                    b"uge" => 11,
                    b"ult" => 12,
                    b"ule" => 13,
                    b"une" => 14,
                    _ => 15,
                };
                let t = self.ty();
                let a = self.val(t);
                self.c.need(b',');
                let b = self.val(t);
                let lw = self.lw(t);
                let d = self.reg(dst.unwrap(), lw.len());
                for i in 0..lw.len() {
                    self.code.push(I::FCmp { p: code, w: lw[i], d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            b"trunc" | b"zext" | b"sext" | b"ptrtoint" | b"inttoptr" | b"addrspacecast" | b"ptrtoaddr" => {
                while !self.c.at_type() {
                    self.c.word();
                }
                let ft = self.ty();
                let a = self.val(ft);
                assert!(self.c.eat_word("to"));
                let tt = self.ty();
                let (fw, tw) = (self.lw(ft), self.lw(tt));
                let d = self.reg(dst.unwrap(), tw.len());
                for i in 0..tw.len() {
                    let (fw, tw, d, a) = (fw[i], tw[i], d + i as u32, a[i]);
                    self.code.push(if fw == tw {
                        I::Mov { d, s: a }
                    } else if fw > tw {
                        I::Trunc { fw, tw, d, a }
                    } else if w == b"sext" {
                        I::SExt { fw, tw, d, a }
                    } else {
                        I::ZExt { fw, tw, d, a }
                    });
                }
            }
            b"bitcast" => {
                let ft = self.ty();
                let a = self.val(ft);
                assert!(self.c.eat_word("to"));
                let tt = self.ty();
                let (fw, tw) = (self.lw(ft), self.lw(tt));
                let d = self.reg(dst.unwrap(), tw.len());
                if fw == tw {
                    for i in 0..tw.len() {
                        self.code.push(I::Mov { d: d + i as u32, s: a[i] });
                    }
                } else {
                    self.code.push(I::Bitcast(Box::new(CastI {
                        src: a.into_iter().zip(fw).collect(),
                        dst: tw.into_iter().enumerate().map(|(i, w)| (d + i as u32, w)).collect(),
                    })));
                }
            }
            b"fptoui" | b"fptosi" | b"uitofp" | b"sitofp" | b"fptrunc" | b"fpext" => {
                let op = match w {
                    b"fptoui" => 0,
                    b"fptosi" => 1,
                    b"uitofp" => 2,
                    b"sitofp" => 3,
                    b"fptrunc" => 4,
                    _ => 5,
                };
                while !self.c.at_type() {
                    self.c.word();
                }
                let ft = self.ty();
                let a = self.val(ft);
                assert!(self.c.eat_word("to"));
                let tt = self.ty();
                let (fw, tw) = (self.lw(ft), self.lw(tt));
                let d = self.reg(dst.unwrap(), tw.len());
                for i in 0..tw.len() {
                    self.code.push(I::FCast { op, fw: fw[i], tw: tw[i], d: d + i as u32, a: a[i] });
                }
            }
            b"select" => {
                while !self.c.at_type() {
                    self.c.word();
                }
                let ct = self.ty();
                let c = self.val(ct);
                self.c.need(b',');
                let t = self.ty();
                let a = self.val(t);
                self.c.need(b',');
                let t2 = self.ty();
                let b = self.val(t2);
                let lw = self.lw(t);
                let ptr = self.m.ty.v[t as usize].k == TK::Ptr;
                let d = self.reg(dst.unwrap(), lw.len());
                for i in 0..lw.len() {
                    let cc = if c.len() > 1 { c[i] } else { c[0] };
                    self.code.push(I::Sel { ptr, w: lw[i], d: d + i as u32, c: cc, a: a[i], b: b[i] });
                }
            }
            b"phi" => {
                while !self.c.at_type() {
                    self.c.word();
                }
                let t = self.ty();
                let s = self.slots(t);
                let d = self.reg(dst.unwrap(), s);
                let mut ins = vec![];
                loop {
                    self.c.need(b'[');
                    let v = self.val(t);
                    self.c.need(b',');
                    self.c.need(b'%');
                    let n = self.c.name();
                    let b = self.block(n);
                    self.c.need(b']');
                    ins.push((v, b));
                    if !self.c.eat(b',') || self.c.peek() != b'[' {
                        break;
                    }
                }
                let cb = self.curb as usize;
                self.phis[cb].push((d, ins));
            }
            b"load" => {
                while !self.c.at_type() {
                    self.c.word();
                }
                let t = self.ty();
                self.c.need(b',');
                let pt = self.ty();
                let p = self.val1(pt);
                self.load_store(t, p, dst, None);
            }
            b"store" => {
                while !self.c.at_type() {
                    self.c.word();
                }
                let t = self.ty();
                let v = self.val(t);
                self.c.need(b',');
                let pt = self.ty();
                let p = self.val1(pt);
                self.load_store(t, p, None, Some(v));
            }
            b"getelementptr" => {
                while !self.c.at_type() {
                    let w = self.c.word();
                    if w == b"inrange" {
                        self.c.balanced(b'(', b')');
                    }
                }
                let bt = self.ty();
                self.c.need(b',');
                let pt = self.ty();
                let base = self.val1(pt);
                let mut off = 0i64;
                let mut idx: Vec<(Opd, u8, i64)> = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.c.peek() == b',' {
                    let save = self.c.p;
                    self.c.p += 1;
                    if self.c.peek() == b'!' {
                        self.c.p = save;
                        break;
                    }
                    let it = self.ty();
                    let iw = self.m.ty.bits(it) as u8;
                    let v = self.val1(it);
                    if first {
                        first = false;
                        let s = self.m.ty.v[cur as usize].size as i64;
                        self.add_idx(v, iw, s, &mut off, &mut idx);
                    } else {
                        match self.m.ty.v[cur as usize].k.clone() {
                            TK::Struct(fs, _) => {
                                let k = self.consts[!v as usize].lo as usize;
                                off += self.m.ty.field_off(cur, k) as i64;
                                cur = fs[k];
                            }
                            TK::Arr(_, e) | TK::Vec(_, e) => {
                                let s = self.m.ty.v[e as usize].size as i64;
                                self.add_idx(v, iw, s, &mut off, &mut idx);
                                cur = e;
                            }
                            _ => self.c.fail("gep type"),
                        }
                    }
                }
                let d = self.reg(dst.unwrap(), 1);
                if idx.is_empty() {
                    self.code.push(I::GepC { d, base, off });
                } else if idx.len() == 1 && off == 0 && idx[0].1 == 64 {
                    self.code.push(I::Gep1 { d, base, idx: idx[0].0, scale: idx[0].2 });
                } else {
                    self.code.push(I::Gep { d, base, off, idx: idx.into_boxed_slice() });
                }
            }
            b"alloca" => {
                self.c.eat_word("inalloca");
                let t = self.ty();
                let size = self.m.ty.v[t as usize].size;
                let mut align = self.m.ty.v[t as usize].align;
                let mut cnt = self.konst(1);
                while self.c.peek() == b',' {
                    self.c.p += 1;
                    if self.c.peek() == b'!' {
                        break;
                    }
                    if self.c.eat_word("align") {
                        align = align.max(self.c.int() as u64);
                    } else {
                        let it = self.ty();
                        cnt = self.val1(it);
                    }
                }
                let d = self.reg(dst.unwrap(), 1);
                self.code.push(I::Alloca { d, size, align, cnt });
            }
            b"extractvalue" => {
                let t = self.ty();
                let v = self.val(t);
                let (st, n, _) = self.agg_path(t);
                let d = self.reg(dst.unwrap(), n);
                for i in 0..n {
                    self.code.push(I::Mov { d: d + i as u32, s: v[st + i] });
                }
            }
            b"insertvalue" => {
                let t = self.ty();
                let v = self.val(t);
                self.c.need(b',');
                let et = self.ty();
                let ev = self.val(et);
                let (st, n, _) = self.agg_path(t);
                let d = self.reg(dst.unwrap(), v.len());
                for i in 0..v.len() {
                    let s = if i >= st && i < st + n { ev[i - st] } else { v[i] };
                    self.code.push(I::Mov { d: d + i as u32, s });
                }
            }
            b"extractelement" => {
                let t = self.ty();
                let v = self.val(t);
                self.c.need(b',');
                let it = self.ty();
                let iw = self.m.ty.bits(it) as u8;
                let ix = self.val1(it);
                let d = self.reg(dst.unwrap(), 1);
                if ix < 0 {
                    let k = self.consts[!ix as usize].lo as usize;
                    self.code.push(I::Mov { d, s: v[k] });
                } else {
                    self.code.push(I::Dyn(Box::new(DynI { idx: ix, iw, d, src: v, val: None })));
                }
            }
            b"insertelement" => {
                let t = self.ty();
                let v = self.val(t);
                self.c.need(b',');
                let et = self.ty();
                let ev = self.val1(et);
                self.c.need(b',');
                let it = self.ty();
                let iw = self.m.ty.bits(it) as u8;
                let ix = self.val1(it);
                let d = self.reg(dst.unwrap(), v.len());
                if ix < 0 {
                    let k = self.consts[!ix as usize].lo as usize;
                    for i in 0..v.len() {
                        self.code.push(I::Mov { d: d + i as u32, s: if i == k { ev } else { v[i] } });
                    }
                } else {
                    self.code.push(I::Dyn(Box::new(DynI { idx: ix, iw, d, src: v, val: Some(ev) })));
                }
            }
            b"shufflevector" => {
                let t = self.ty();
                let a = self.val(t);
                self.c.need(b',');
                let t2 = self.ty();
                let b = self.val(t2);
                self.c.need(b',');
                let mt = self.ty();
                let mut mask = vec![];
                self.m.pconst_leaves(&mut self.c, mt, &mut mask);
                let d = self.reg(dst.unwrap(), mask.len());
                for (i, k) in mask.iter().enumerate() {
                    let k = *k as usize;
                    let s = if k < a.len() {
                        a[k]
                    } else if k - a.len() < b.len() {
                        b[k - a.len()]
                    } else {
                        a[0]
                    };
                    self.code.push(I::Mov { d: d + i as u32, s });
                }
            }
            b"freeze" => {
                let t = self.ty();
                let v = self.val(t);
                let d = self.reg(dst.unwrap(), v.len());
                for i in 0..v.len() {
                    self.code.push(I::Mov { d: d + i as u32, s: v[i] });
                }
            }
            b"fence" => {}
            b"call" | b"tail" | b"notail" | b"musttail" => {
                if w != b"call" {
                    assert!(self.c.eat_word("call"));
                }
                self.call(dst);
            }
            _ => self.c.fail(&format!("instruction {}", String::from_utf8_lossy(w))),
        }
    }

    fn add_idx(&mut self, v: Opd, iw: u8, s: i64, off: &mut i64, idx: &mut Vec<(Opd, u8, i64)>) {
        if v < 0 {
            let k = crate::expr::sx(self.consts[!v as usize].u128(), iw) as i64;
            *off = off.wrapping_add(k.wrapping_mul(s));
        } else if s != 0 {
            idx.push((v, iw, s));
        }
    }

    fn load_store(&mut self, t: T, p: Opd, dst: Option<&'static [u8]>, v: Option<Vec<Opd>>) {
        let leaves = self.m.ty.leaves(t);
        let k = self.m.ty.v[t as usize].k.clone();
        let packed_i1 = matches!(k, TK::Vec(_, e) if self.m.ty.bits(e) < 8);
        if packed_i1 {
            let n = leaves.len();
            if let Some(d) = dst {
                let d = self.reg(d, n);
                let tmp = self.nregs;
                self.nregs += 1;
                self.code.push(I::Load { w: n as u8, d: tmp, p, off: 0 });
                self.code.push(I::Bitcast(Box::new(CastI {
                    src: vec![(tmp as Opd, n as u8)],
                    dst: (0..n as u32).map(|i| (d + i, 1)).collect(),
                })));
            } else {
                let v = v.unwrap();
                let tmp = self.nregs;
                self.nregs += 1;
                self.code.push(I::Bitcast(Box::new(CastI {
                    src: v.into_iter().map(|o| (o, 1)).collect(),
                    dst: vec![(tmp, n as u8)],
                })));
                self.code.push(I::Store { w: n as u8, v: tmp as Opd, p, off: 0 });
            }
            return;
        }
        if let Some(d) = dst {
            let d = self.reg(d, leaves.len());
            for (i, l) in leaves.iter().enumerate() {
                self.code.push(I::Load { w: l.w, d: d + i as u32, p, off: l.off });
            }
        } else {
            let v = v.unwrap();
            for (i, l) in leaves.iter().enumerate() {
                self.code.push(I::Store { w: l.w, v: v[i], p, off: l.off });
            }
        }
    }

    /// Parses ", i, j..." and returns (first slot, slots, type).
    fn agg_path(&mut self, t: T) -> (usize, usize, T) {
        let mut cur = t;
        let mut st = 0;
        while self.c.peek() == b',' {
            let save = self.c.p;
            self.c.p += 1;
            if !self.c.peek().is_ascii_digit() {
                self.c.p = save;
                break;
            }
            let k = self.c.int() as usize;
            match self.m.ty.v[cur as usize].k.clone() {
                TK::Struct(fs, _) => {
                    for f in &fs[..k] {
                        st += self.m.ty.leaves(*f).len();
                    }
                    cur = fs[k];
                }
                TK::Arr(_, e) => {
                    st += self.m.ty.leaves(e).len() * k;
                    cur = e;
                }
                _ => self.c.fail("aggregate path"),
            }
        }
        let n = self.m.ty.leaves(cur).len();
        (st, n, cur)
    }

    fn call(&mut self, dst: Option<&'static [u8]>) {
        self.skip_attrs_to_type();
        let rt = self.ty();
        if self.c.peek() == b'(' {
            self.c.balanced(b'(', b')');
        }
        let mut direct = -1;
        let mut callee = 0;
        let mut asm = None;
        if self.c.peek_word() == b"asm" {
            self.c.word();
            while self.c.peek() != b'"' {
                self.c.word();
            }
            let b = self.c.p;
            self.c.skip_string();
            asm = Some(String::from_utf8_lossy(&self.c.s[b..self.c.p]).into_owned());
            self.c.need(b',');
            self.c.skip_string();
        } else if self.c.peek() == b'@' {
            self.c.p += 1;
            let n = self.c.name();
            match self.m.syms.get(n) {
                Some(Sym::Func(i)) => direct = *i as i32,
                Some(Sym::Data(a)) => callee = {
                    let a = *a;
                    self.konst(a as u128)
                },
                None => self.c.fail("unknown callee"),
            }
        } else {
            let pt = self.m.ty.mk(TK::Ptr);
            callee = self.val1(pt);
        }
        self.c.need(b'(');
        let mut args = vec![];
        let mut argw = vec![];
        while !self.c.eat(b')') {
            let t = self.ty();
            if self.m.ty.v[t as usize].k == TK::Meta {
                self.m.skip_meta(&mut self.c);
                self.c.eat(b',');
                continue;
            }
            while !self.at_value() {
                self.skip_attr();
            }
            let v = self.val(t);
            let lw = self.lw(t);
            args.extend(v);
            argw.extend(lw);
            self.c.eat(b',');
        }
        let retw = self.lw(rt);
        let d = match dst {
            Some(n) => self.reg(n, retw.len()),
            None => {
                let d = self.nregs;
                self.nregs += retw.len() as u32;
                d
            }
        };
        let ci = CallI { callee, direct, args, argw, d, retw, fixed: 0 };
        if direct >= 0 {
            let n = self.m.funcs[direct as usize].name;
            if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n == "llvm.assume" || n == "llvm.donothing" || n.starts_with("llvm.dbg") || n.starts_with("llvm.prefetch") {
                return;
            }
        }
        match asm {
            Some(s) => self.code.push(I::Asm(Box::new(ci), s)),
            None => self.code.push(I::Call(Box::new(ci))),
        }
    }
}
