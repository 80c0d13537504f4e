//! The symbolic executor: states, decisions and the instruction interpreter.

use crate::expr::{mask, sx, Exprs, Op, Set, Sup, E};
use crate::kernel::Kernel;
use crate::ll::{Func, Module, B, C, I, V};
use crate::mem::{Fault, Mem};
use crate::z3::{Sat, Z3};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub pc: u32,
    pub base: u32,
    pub sp: u64,
    pub d: u32,
    /// 0 ordinary, 1 bottom of a thread, 2 bottom of a forked section
    pub kind: u8,
}

#[derive(Clone)]
pub struct Block {
    pub deadline: Option<u64>,
    pub seen: u64,
    pub futex: Option<u64>,
    pub woken: bool,
}

#[derive(Clone)]
pub struct Thread {
    pub id: u64,
    pub frames: Vec<Frame>,
    pub regs: Vec<V>,
    pub sp: u64,
    pub stack_lo: u64,
    pub tls: u64, // delta to the TLS template
    pub block: Option<Block>,
    pub done: bool,
    pub ret: u64,
    pub errno_addr: u64,
    pub specific: HashMap<u32, u64>,
    pub dtors: Vec<(u64, u64)>,
}

/// A suspended parent of a forked section.
pub struct Section {
    pub mem: Mem,
    pub th: Vec<Thread>,
    pub cur: usize,
    pub heap: Heap,
    pub proc: crate::kernel::Proc,
}

#[derive(Clone)]
pub struct Heap {
    pub brk: u64,
    pub free: Vec<u64>,
    pub mapped: u64,
}

pub struct State {
    pub mem: Mem,
    pub th: Vec<Thread>,
    pub cur: usize,
    pub k: Kernel,
    pub heap: Heap,
    /// constraints over more than one variable
    pub mcs: Rc<Vec<E>>,
    pub known: Rc<HashMap<E, bool>>,
    pub dom: Rc<Vec<Set>>,
    pub multi: Set,
    pub model: Vec<u8>,
    pub nsym: u16,
    pub steps: u64,
    pub depth: u32,
    pub sections: Rc<Vec<Rc<Section>>>,
    pub notes: Rc<Vec<Vec<(u8, E)>>>,
    pub covers: Rc<Vec<u32>>,
}

pub enum Stop {
    Fork { c: E, mt: Option<Vec<u8>>, mf: Option<Vec<u8>> },
    Done,
    Infeasible,
    Panic(String),
    Hang(String),
    Error(String),
    Violation { what: String, model: Vec<u8> },
    Block { deadline: Option<u64>, futex: Option<u64> },
    Switch,
}
impl From<Fault> for Stop {
    fn from(f: Fault) -> Stop {
        Stop::Error(format!("memory fault at {:#x}", f.0))
    }
}
pub type R<X> = Result<X, Stop>;

impl State {
    pub fn fork(&mut self) -> State {
        State {
            mem: self.mem.snapshot(),
            th: self.th.clone(),
            cur: self.cur,
            k: self.k.clone(),
            heap: self.heap.clone(),
            mcs: self.mcs.clone(),
            known: self.known.clone(),
            dom: self.dom.clone(),
            multi: self.multi,
            model: self.model.clone(),
            nsym: self.nsym,
            steps: self.steps,
            depth: self.depth,
            sections: self.sections.clone(),
            notes: self.notes.clone(),
            covers: self.covers.clone(),
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub forks: u64,
    pub paths: u64,
    pub pruned: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub solver_cache: u64,
    pub domain_decisions: u64,
}

pub struct Exec {
    pub m: Module,
    pub x: Exprs,
    pub z: Z3,
    pub hooks: Vec<u16>, // per function: handler id (0 = none, 1 = unresolved)
    pub names: HashMap<&'static str, u16>,
    pub stats: Stats,
    qcache: HashMap<Vec<E>, Option<Vec<(u16, u8)>>>,
    domcache: HashMap<(u16, Set), E>,
    pub shash: HashMap<E, u64>,
    pub max_steps: u64,
    pub quantum: u64,
    pub profile: Option<HashMap<usize, u64>>,
    pub trace_calls: bool,
    pub covers: HashMap<u32, u64>,
    pub crash_log: bool,
    pub replay: Option<Vec<u8>>,
    pub show_queries: bool,
}

pub fn set_empty(s: &Set) -> bool {
    s.iter().all(|x| *x == 0)
}
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_andn(a: &Set, b: &Set) -> Set {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn set_has(s: &Set, i: usize) -> bool {
    s[i >> 6] >> (i & 63) & 1 == 1
}
pub fn set_first(s: &Set) -> Option<u8> {
    for i in 0..4 {
        if s[i] != 0 {
            return Some((i * 64) as u8 + s[i].trailing_zeros() as u8);
        }
    }
    None
}
fn set_meets(a: &Set, b: &Set) -> bool {
    (0..4).any(|i| a[i] & b[i] != 0)
}

impl Exec {
    pub fn new(m: Module) -> Exec {
        let n = m.funcs.len();
        let mut ex = Exec {
            m,
            x: Exprs::new(),
            z: Z3::new(60_000),
            hooks: vec![1; n],
            names: HashMap::new(),
            stats: Stats::default(),
            qcache: HashMap::new(),
            domcache: HashMap::new(),
            shash: HashMap::new(),
            max_steps: u64::MAX,
            quantum: u64::MAX,
            profile: None,
            trace_calls: false,
            covers: HashMap::new(),
            crash_log: false,
            replay: None,
            show_queries: std::env::var_os("VEXEC_QUERIES").is_some(),
        };
        crate::ext::register(&mut ex);
        ex
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        let lo = crate::ll::DATA_BASE;
        mem.map(lo, self.m.data_end - lo);
        let inits = std::mem::take(&mut self.m.inits);
        for g in &inits {
            let _ = mem.write_conc(g.addr, &g.bytes);
        }
        self.m.inits = inits;
        let k = Kernel::new();
        let heap = Heap { brk: 0x1800_0000, free: vec![0; 512], mapped: 0x1800_0000 };
        let mut st = State {
            mem,
            th: vec![],
            cur: 0,
            k,
            heap,
            mcs: Rc::new(vec![]),
            known: Rc::new(HashMap::new()),
            dom: Rc::new(vec![]),
            multi: [0; 4],
            model: vec![],
            nsym: 0,
            steps: 0,
            depth: 0,
            sections: Rc::new(vec![]),
            notes: Rc::new(vec![]),
            covers: Rc::new(vec![]),
        };
        let fi = match self.m.syms.get(entry.as_bytes()) {
            Some(crate::ll::Sym::Func(i)) => *i,
            _ => panic!("no entry function {}", entry),
        };
        self.new_thread(&mut st, fi, &[]);
        st
    }

    pub fn new_thread(&mut self, st: &mut State, fi: usize, args: &[V]) -> usize {
        let f = self.m.compile(fi);
        let idx = st.th.len();
        let size: u64 = 4 << 20;
        let lo = 0x0800_0000 + idx as u64 * (8 << 20);
        assert!(lo + size < 0x1800_0000, "too many threads");
        st.mem.map(lo, size);
        let mut tls = 0;
        let (ts, te) = (self.m.tls_start, self.m.tls_end);
        if idx > 0 {
            // copy of the TLS template, taken from the module initialisers
            let base = lo + size;
            let base = (base + 4095) & !4095;
            st.mem.map(base, te - ts + 4096);
            let inits = std::mem::take(&mut self.m.inits);
            for g in inits.iter().filter(|g| g.addr >= ts) {
                let _ = st.mem.write_conc(g.addr - ts + base, &g.bytes);
            }
            self.m.inits = inits;
            tls = base.wrapping_sub(ts);
        }
        let mut regs = vec![V::default(); f.nregs as usize + 64];
        regs[..args.len()].copy_from_slice(args);
        let sp = lo + size - 256;
        let errno = lo + size - 64;
        st.th.push(Thread {
            id: 0x7000 + idx as u64,
            frames: vec![Frame { f, pc: 0, base: 0, sp, d: 0, kind: 1 }],
            regs,
            sp,
            stack_lo: lo,
            tls,
            block: None,
            done: false,
            ret: 0,
            errno_addr: errno,
            specific: HashMap::new(),
            dtors: vec![],
        });
        idx
    }

    // ---------------------------------------------------------------- solver

    pub fn dom_expr(&mut self, v: u16, s: &Set) -> E {
        if let Some(&e) = self.domcache.get(&(v, *s)) {
            return e;
        }
        let mut t = [0u64; 256];
        for i in 0..256 {
            t[i] = set_has(s, i) as u64;
        }
        let e = self.x.from_table(v, 1, &t, &[!0; 4]);
        self.domcache.insert((v, *s), e);
        e
    }

    /// Constraints relevant to the variables in `seed`, and the variables.
    fn slice(&mut self, st: &State, seed: Set) -> (Vec<E>, Set) {
        let mut vars = seed;
        let mut used = vec![false; st.mcs.len()];
        let mut out = vec![];
        loop {
            let mut grew = false;
            for (i, &c) in st.mcs.iter().enumerate() {
                if !used[i] && set_meets(&self.x.supset[c as usize], &vars) {
                    used[i] = true;
                    out.push(c);
                    let s = self.x.supset[c as usize];
                    for k in 0..4 {
                        vars[k] |= s[k];
                    }
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        for v in 0..st.nsym {
            if set_has(&vars, v as usize) {
                let d = st.dom[v as usize];
                if d != [!0; 4] {
                    let e = self.dom_expr(v, &d);
                    out.push(e);
                }
            }
        }
        (out, vars)
    }

    /// Is the path condition together with `c` satisfiable? Gives a model.
    pub fn sat_with(&mut self, st: &State, c: E) -> R<Option<Vec<u8>>> {
        let seed = self.x.supset[c as usize];
        let (mut cs, vars) = self.slice(st, seed);
        cs.push(c);
        cs.sort_unstable();
        cs.dedup();
        let r = match self.qcache.get(&cs) {
            Some(r) => {
                self.stats.solver_cache += 1;
                r.clone()
            }
            None => {
                let vl: Vec<u16> = (0..st.nsym).filter(|v| set_has(&vars, *v as usize)).collect();
                if self.show_queries {
                    eprintln!("query {} in {}", self.x.text(c, 12), self.stack_trace(st).lines().take(3).collect::<Vec<_>>().join(" "));
                }
                let r = match self.z.check(&self.x, &cs, &vl) {
                    Sat::Sat(vals) => Some(vals),
                    Sat::Unsat => None,
                    Sat::Unknown => return Err(Stop::Error("solver returned unknown".into())),
                };
                self.qcache.insert(cs, r.clone());
                r
            }
        };
        Ok(r.map(|vals| {
            let mut m = st.model.clone();
            for (v, b) in vals {
                m[v as usize] = b;
            }
            m
        }))
    }

    /// Ask the solver for values satisfying the whole path condition, one
    /// independent group of variables at a time.
    pub fn confirm(&mut self, st: &State) -> Option<Vec<u8>> {
        let mut seen: Set = [0; 4];
        let mut m = st.model.clone();
        for v in 0..st.nsym {
            let vi = v as usize;
            if set_has(&seen, vi) {
                continue;
            }
            let mut seed: Set = [0; 4];
            seed[vi >> 6] |= 1 << (vi & 63);
            if st.dom[vi] == [!0; 4] && !set_has(&st.multi, vi) {
                continue;
            }
            let (mut cs, vars) = self.slice(st, seed);
            for k in 0..4 {
                seen[k] |= vars[k];
            }
            cs.sort_unstable();
            cs.dedup();
            let r = match self.qcache.get(&cs) {
                Some(r) => {
                    self.stats.solver_cache += 1;
                    r.clone()
                }
                None => {
                    let vl: Vec<u16> = (0..st.nsym).filter(|v| set_has(&vars, *v as usize)).collect();
                    let r = match self.z.check(&self.x, &cs, &vl) {
                        Sat::Sat(vals) => Some(vals),
                        _ => return None,
                    };
                    self.qcache.insert(cs, r.clone());
                    r
                }
            };
            for (v, b) in r? {
                m[v as usize] = b;
            }
        }
        Some(m)
    }

    pub fn assume(&mut self, st: &mut State, c: E) -> bool {
        if let Some(k) = self.x.as_const(c) {
            return k == 1;
        }
        let n = self.x.nodes[c as usize];
        if n.op == Op::And {
            return self.assume(st, n.a) && self.assume(st, n.b);
        }
        if n.op == Op::Not {
            let i = self.x.nodes[n.a as usize];
            if i.op == Op::Or && i.w == 1 {
                let (a, b) = (self.x.not(i.a), self.x.not(i.b));
                return self.assume(st, a) && self.assume(st, b);
            }
        }
        match self.x.sup[c as usize] {
            Sup::One(v) => {
                let t = self.x.truth(c).unwrap();
                let d = &mut Rc::make_mut(&mut st.dom)[v as usize];
                *d = set_and(d, &t);
                !set_empty(d)
            }
            _ => {
                Rc::make_mut(&mut st.mcs).push(c);
                let nc = self.x.not(c);
                let k = Rc::make_mut(&mut st.known);
                k.insert(c, true);
                k.insert(nc, false);
                let s = self.x.supset[c as usize];
                for i in 0..4 {
                    st.multi[i] |= s[i];
                }
                true
            }
        }
    }

    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.x.as_const(c) {
            return Ok(k == 1);
        }
        match self.x.sup[c as usize] {
            Sup::One(v) => {
                let t = self.x.truth(c).unwrap();
                let d = st.dom[v as usize];
                let (yes, no) = (set_and(&d, &t), set_andn(&d, &t));
                self.stats.domain_decisions += 1;
                if set_empty(&no) {
                    return Ok(true);
                }
                if set_empty(&yes) {
                    return Ok(false);
                }
                if !set_has(&st.multi, v as usize) {
                    let mut mt = st.model.clone();
                    let mut mf = st.model.clone();
                    if set_has(&t, st.model[v as usize] as usize) {
                        mf[v as usize] = set_first(&no).unwrap();
                    } else {
                        mt[v as usize] = set_first(&yes).unwrap();
                    }
                    return Err(Stop::Fork { c, mt: Some(mt), mf: Some(mf) });
                }
            }
            _ => {
                if let Some(&b) = st.known.get(&c) {
                    return Ok(b);
                }
            }
        }
        let cur = self.x.eval(c, &st.model) == 1;
        let other = if cur { self.x.not(c) } else { c };
        match self.sat_with(st, other)? {
            None => {
                // implied by the path condition
                let keep = if cur { c } else { self.x.not(c) };
                if let Sup::One(v) = self.x.sup[c as usize] {
                    let t = self.x.truth(keep).unwrap();
                    let d = &mut Rc::make_mut(&mut st.dom)[v as usize];
                    *d = set_and(d, &t);
                } else {
                    let n = self.x.not(keep);
                    let k = Rc::make_mut(&mut st.known);
                    k.insert(keep, true);
                    k.insert(n, false);
                }
                Ok(cur)
            }
            Some(m) => {
                if cur {
                    Err(Stop::Fork { c, mt: None, mf: Some(m) })
                } else {
                    Err(Stop::Fork { c, mt: Some(m), mf: None })
                }
            }
        }
    }

    pub fn concretize(&mut self, st: &mut State, v: V, w: u8) -> R<u128> {
        if v.sym == 0 {
            return Ok(v.u128());
        }
        let val = self.x.eval(v.sym, &st.model);
        let k = self.x.konst(w, val);
        let c = self.x.eq(v.sym, k);
        if self.decide(st, c)? {
            Ok(val)
        } else {
            Err(Stop::Error("model does not satisfy the path condition".into()))
        }
    }

    pub fn fresh(&mut self, st: &mut State) -> E {
        let i = st.nsym;
        st.nsym += 1;
        Rc::make_mut(&mut st.dom).push([!0; 4]);
        st.model.push(0);
        self.x.var(i)
    }

    #[inline]
    pub fn e(&mut self, v: V, w: u8) -> E {
        if v.sym != 0 {
            v.sym
        } else {
            self.x.konst(w, v.u128())
        }
    }
    #[inline]
    pub fn ve(&self, e: E) -> V {
        match self.x.as_const(e) {
            Some(c) => V::c128(c),
            None => V::s(e),
        }
    }

    /// The constant or the input byte that `e` must be equal to on this path, if there is one.
    pub fn canonical(&mut self, st: &State, e: E) -> R<E> {
        if self.x.nodes[e as usize].op == Op::Var || self.x.w(e) != 8 {
            return Ok(e);
        }
        let vars = self.x.supset[e as usize];
        let val = self.x.eval(e, &st.model);
        let mut simple = vec![self.x.konst(8, val)];
        for v in (0..st.nsym).filter(|v| set_has(&vars, *v as usize)) {
            if st.model[v as usize] as u128 == val {
                simple.push(self.x.var(v));
            }
        }
        for s in simple {
            let same = self.x.eq(e, s);
            let differ = self.x.not(same);
            let must = match self.x.as_const(differ) {
                Some(k) => k == 0,
                None => self.sat_with(st, differ)?.is_none(),
            };
            if must {
                return Ok(s);
            }
        }
        Ok(e)
    }

    /// Stable structural hash of an expression.
    pub fn structural(&mut self, e: E) -> u64 {
        if let Some(&h) = self.shash.get(&e) {
            return h;
        }
        let n = self.x.nodes[e as usize];
        let mut h: u64 = 0x1234_5678_9abc_def1 ^ ((n.op as u64) << 8) ^ n.w as u64;
        let mut mix = |v: u64| {
            h = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            h ^= h >> 31;
        };
        match n.op {
            Op::Const => {
                let c = self.x.as_const(e).unwrap();
                mix(c as u64);
                mix((c >> 64) as u64);
            }
            Op::Var => mix(n.a as u64 + 77),
            Op::Not | Op::ZExt | Op::SExt => {
                let a = self.structural(n.a);
                mix(a);
            }
            Op::Extract => {
                let a = self.structural(n.a);
                mix(a);
                mix(n.b as u64);
            }
            Op::Ite => {
                let (a, b, c) = (self.structural(n.a), self.structural(n.b), self.structural(n.c));
                mix(a);
                mix(b);
                mix(c);
            }
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                // operand order depends on node numbering
                let (a, b) = (self.structural(n.a), self.structural(n.b));
                mix(a.min(b));
                mix(a.max(b));
            }
            _ => {
                let (a, b) = (self.structural(n.a), self.structural(n.b));
                mix(a);
                mix(b);
            }
        }
        self.shash.insert(e, h);
        h
    }

    // ------------------------------------------------------------ operations

    pub fn bin(&mut self, st: &mut State, op: B, w: u8, a: V, b: V) -> R<V> {
        if a.sym == 0 && b.sym == 0 {
            return bin_c(op, w, a, b).ok_or_else(|| Stop::Error("division by zero".into()));
        }
        let _ = st;
        let (ea, eb) = (self.e(a, w), self.e(b, w));
        let o = match op {
            B::Add => Op::Add,
            B::Sub => Op::Sub,
            B::Mul => Op::Mul,
            B::UDiv => Op::UDiv,
            B::SDiv => Op::SDiv,
            B::URem => Op::URem,
            B::SRem => Op::SRem,
            B::Shl => Op::Shl,
            B::LShr => Op::LShr,
            B::AShr => Op::AShr,
            B::And => Op::And,
            B::Or => Op::Or,
            B::Xor => Op::Xor,
        };
        let r = self.x.bin(o, ea, eb);
        Ok(self.ve(r))
    }
    pub fn cmp(&mut self, st: &State, p: C, w: u8, a: V, b: V) -> V {
        if a.sym == 0 && b.sym == 0 {
            return V::c(cmp_c(p, w, a, b) as u64);
        }
        let (ea, eb) = (self.e(a, w), self.e(b, w));
        let r = match p {
            C::Eq => self.x.eq(ea, eb),
            C::Ne => {
                let e = self.x.eq(ea, eb);
                self.x.not(e)
            }
            C::Ult => self.x.bin(Op::Ult, ea, eb),
            C::Ule => self.x.bin(Op::Ule, ea, eb),
            C::Ugt => self.x.bin(Op::Ult, eb, ea),
            C::Uge => self.x.bin(Op::Ule, eb, ea),
            C::Slt => self.x.bin(Op::Slt, ea, eb),
            C::Sle => self.x.bin(Op::Sle, ea, eb),
            C::Sgt => self.x.bin(Op::Slt, eb, ea),
            C::Sge => self.x.bin(Op::Sle, eb, ea),
        };
        self.narrow(st, r)
    }

    /// A condition on one variable that its domain already decides.
    #[inline]
    pub fn narrow(&mut self, st: &State, e: E) -> V {
        if let Sup::One(v) = self.x.sup[e as usize] {
            let t = self.x.truth(e).unwrap();
            let d = &st.dom[v as usize];
            if set_empty(&set_andn(d, &t)) {
                return V::c(1);
            }
            if set_empty(&set_and(d, &t)) {
                return V::c(0);
            }
        }
        self.ve(e)
    }

    /// Load through a possibly symbolic pointer.
    #[cold]
    fn load_sym(&mut self, st: &mut State, p: V, off: u32, w: u8) -> R<V> {
        let e = p.sym;
        if let Sup::One(v) = self.x.sup[e as usize] {
            if w <= 64 {
                let t = *self.x.table(e).expect("table");
                let d = st.dom[v as usize];
                let mut out = [0u64; 256];
                let mut ok = true;
                let n = (w as u64 + 7) / 8;
                'o: for i in 0..256 {
                    if !set_has(&d, i) {
                        continue;
                    }
                    let a = t[i].wrapping_add(off as u64);
                    let mut val = 0u64;
                    for k in 0..n {
                        match st.mem.byte(a.wrapping_add(k)) {
                            Ok((b, 0)) => val |= (b as u64) << (8 * k),
                            _ => {
                                ok = false;
                                break 'o;
                            }
                        }
                    }
                    out[i] = val & (mask(w) as u64);
                }
                if ok {
                    let r = self.x.from_table(v, w, &out, &d);
                    return Ok(self.ve(r));
                }
            }
        }
        let a = self.concretize(st, p, 64)? as u64;
        Ok(st.mem.load(&mut self.x, a.wrapping_add(off as u64), w)?)
    }

    /// Concatenate pieces of the flattened sources into `w` bits at `lo`.
    fn gather(&mut self, src: &[(V, u8)], lo: u32, w: u8) -> V {
        let mut pos = 0u32;
        let mut acc: Option<E> = None;
        let mut cval = 0u128;
        let mut anysym = false;
        let mut pieces: Vec<(V, u8, u8, u8)> = vec![]; // value, its width, extract low, extract width
        for (v, sw) in src {
            let (s, e) = (pos, pos + *sw as u32);
            let (a, b) = (s.max(lo), e.min(lo + w as u32));
            if a < b {
                pieces.push((*v, *sw, (a - s) as u8, (b - a) as u8));
                anysym |= v.sym != 0;
            }
            pos = e;
        }
        let mut sh = 0;
        if !anysym {
            for (v, _, l, n) in pieces {
                cval |= ((v.u128() >> l) & mask(n)) << sh;
                sh += n as u32;
            }
            return V::c128(cval);
        }
        for (v, sw, l, n) in pieces {
            let e = self.e(v, sw);
            let p = self.x.extract(e, l, n);
            acc = Some(match acc {
                None => p,
                Some(a) => self.x.concat(p, a),
            });
        }
        let r = acc.unwrap();
        self.ve(r)
    }

    pub fn stack_trace(&self, st: &State) -> String {
        let mut s = String::new();
        for f in st.th[st.cur].frames.iter().rev().take(40) {
            s.push_str("\n    ");
            s.push_str(self.m.func_name(f.f.idx));
            s.push_str(&format!(" @{}", f.pc));
        }
        s
    }

    pub fn push_call(&mut self, st: &mut State, fi: usize, args: &[V], d: u32, kind: u8) -> R<()> {
        let f = self.m.compile(fi);
        let th = &mut st.th[st.cur];
        let top = th.frames.last().unwrap();
        let base = top.base + top.f.nregs;
        let need = (base + f.nregs) as usize + 16;
        if th.regs.len() < need {
            th.regs.resize(need.max(th.regs.len() * 2), V::default());
        }
        th.regs[base as usize..base as usize + args.len()].copy_from_slice(args);
        if th.frames.len() > 4000 {
            return Err(Stop::Error("call depth".into()));
        }
        let sp = th.sp;
        th.frames.push(Frame { f, pc: 0, base, sp, d, kind });
        Ok(())
    }

    /// Run the state until something interesting happens.
    pub fn run(&mut self, st: &mut State) -> Stop {
        let start = st.steps;
        loop {
            match self.run_thread(st) {
                Ok(()) => {
                    if st.steps - start > self.quantum {
                        return Stop::Switch;
                    }
                }
                Err(Stop::Block { deadline, futex }) => {
                    let seen = st.k.events;
                    let cur = st.cur;
                    match &mut st.th[cur].block {
                        Some(b) => b.seen = seen,
                        n => *n = Some(Block { deadline, seen, futex, woken: false }),
                    }
                    if let Err(s) = self.schedule(st) {
                        return s;
                    }
                }
                Err(Stop::Switch) => {
                    if let Err(s) = self.schedule(st) {
                        return s;
                    }
                }
                Err(s) => return s,
            }
        }
    }

    pub fn schedule(&mut self, st: &mut State) -> R<()> {
        let n = st.th.len();
        let now = st.k.now;
        for pass in 0..2 {
            for i in 1..=n {
                let j = (st.cur + i) % n;
                let t = &st.th[j];
                if t.done {
                    continue;
                }
                let ready = match &t.block {
                    None => true,
                    Some(b) => {
                        b.woken || b.deadline.map_or(false, |d| d <= st.k.now) || (b.futex.is_none() && b.seen != st.k.events)
                    }
                };
                if ready {
                    st.cur = j;
                    return Ok(());
                }
            }
            if pass == 0 {
                // advance the clock to the next timeout
                let d = st.th.iter().filter(|t| !t.done).filter_map(|t| t.block.as_ref().and_then(|b| b.deadline)).min();
                let d = match (d, st.k.next_timer()) {
                    (Some(a), Some(b)) => Some(a.min(b)),
                    (a, b) => a.or(b),
                };
                match d {
                    Some(d) if d > now => {
                        st.k.now = d;
                        st.k.events += 1;
                    }
                    _ => break,
                }
                if let Some(l) = st.k.time_limit {
                    if st.k.now > l {
                        return Err(Stop::Hang("virtual time limit".into()));
                    }
                }
            }
        }
        let mut s = String::from("no runnable thread");
        let cur = st.cur;
        for i in 0..st.th.len() {
            if !st.th[i].done {
                st.cur = i;
                s.push_str(&format!("\n  thread {}:{}", i, self.stack_trace(st)));
            }
        }
        st.cur = cur;
        Err(Stop::Hang(s))
    }

    /// Interpret the current thread until an event.
    fn run_thread(&mut self, st: &mut State) -> R<()> {
        let mut budget: u64 = 50_000;
        let r = self.interpret(st, &mut budget);
        st.steps += 50_000 - budget;
        self.stats.steps += 50_000 - budget;
        if r.is_ok() && st.steps > self.max_steps {
            return Err(Stop::Error(format!("step limit{}", self.stack_trace(st))));
        }
        r
    }

    fn interpret(&mut self, st: &mut State, left: &mut u64) -> R<()> {
        let (mut f, mut pc, mut base);
        macro_rules! sync_in {
            () => {{
                let th = &st.th[st.cur];
                let fr = th.frames.last().unwrap();
                f = fr.f.clone();
                pc = fr.pc as usize;
                base = fr.base as usize;
                fr.f.code.len();
            }};
        }
        sync_in!();
        let mut rp: *mut V = st.th[st.cur].regs.as_mut_ptr();
        macro_rules! get {
            ($o:expr) => {{
                let o = $o;
                if o >= 0 {
                    unsafe { *rp.add(base + o as usize) }
                } else {
                    unsafe { *f.consts.get_unchecked(!o as usize) }
                }
            }};
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                unsafe { *rp.add(base + $d as usize) = v }
            }};
        }
        macro_rules! save {
            () => {{
                st.th[st.cur].frames.last_mut().unwrap().pc = pc as u32;
            }};
        }
        macro_rules! tr {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(s) => {
                        save!();
                        return Err(s.into());
                    }
                }
            };
        }
        macro_rules! jump {
            ($e:expr) => {{
                let ed = unsafe { f.edges.get_unchecked($e as usize) };
                if !ed.moves.is_empty() {
                    if ed.conflict {
                        let vals: Vec<V> = ed.moves.iter().map(|m| get!(m.1)).collect();
                        for (m, v) in ed.moves.iter().zip(vals) {
                            set!(m.0, v);
                        }
                    } else {
                        for m in ed.moves.iter() {
                            set!(m.0, get!(m.1));
                        }
                    }
                }
                pc = ed.target as usize;
            }};
        }
        macro_rules! addr {
            ($p:expr) => {{
                let p = $p;
                if p.sym == 0 {
                    p.lo
                } else {
                    tr!(self.concretize(st, p, 64)) as u64
                }
            }};
        }
        loop {
            *left -= 1;
            if *left == 0 {
                save!();
                return Ok(());
            }
            let inst: *const I = unsafe { f.code.as_ptr().add(pc) };
            match unsafe { &*inst } {
                I::Mov { d, s } => {
                    set!(*d, get!(*s));
                    pc += 1;
                }
                I::Bin { op, w, d, a, b } => {
                    let (a, b) = (get!(*a), get!(*b));
                    if (a.sym | b.sym) == 0 && *w <= 64 {
                        let m: u64 = if *w == 64 { !0 } else { (1u64 << *w) - 1 };
                        let r = match op {
                            B::Add => a.lo.wrapping_add(b.lo) & m,
                            B::Sub => a.lo.wrapping_sub(b.lo) & m,
                            B::And => a.lo & b.lo,
                            B::Or => a.lo | b.lo,
                            B::Xor => a.lo ^ b.lo,
                            B::Mul => a.lo.wrapping_mul(b.lo) & m,
                            B::Shl => {
                                if b.lo < *w as u64 {
                                    (a.lo << b.lo) & m
                                } else {
                                    0
                                }
                            }
                            B::LShr => {
                                if b.lo < *w as u64 {
                                    a.lo >> b.lo
                                } else {
                                    0
                                }
                            }
                            _ => match bin_c(*op, *w, a, b) {
                                Some(v) => v.lo,
                                None => {
                                    save!();
                                    return Err(Stop::Error("division by zero".into()));
                                }
                            },
                        };
                        set!(*d, V::c(r));
                    } else {
                        let v = tr!(self.bin(st, *op, *w, a, b));
                        set!(*d, v);
                    }
                    pc += 1;
                }
                I::Cmp { p, w, d, a, b } => {
                    let (a, b) = (get!(*a), get!(*b));
                    if (a.sym | b.sym) == 0 {
                        set!(*d, V::c(cmp_c(*p, *w, a, b) as u64));
                    } else {
                        let v = self.cmp(st, *p, *w, a, b);
                        set!(*d, v);
                    }
                    pc += 1;
                }
                I::Sel { ptr, w, d, c, a, b } => {
                    let c = get!(*c);
                    if c.sym == 0 {
                        set!(*d, if c.lo & 1 == 1 { get!(*a) } else { get!(*b) });
                    } else {
                        let (a, b) = (get!(*a), get!(*b));
                        if *ptr {
                            let t = tr!(self.decide(st, c.sym));
                            set!(*d, if t { a } else { b });
                        } else {
                            let (ea, eb) = (self.e(a, *w), self.e(b, *w));
                            let r = self.x.ite(c.sym, ea, eb);
                            set!(*d, self.ve(r));
                        }
                    }
                    pc += 1;
                }
                I::ZExt { tw, d, a, .. } => {
                    let a = get!(*a);
                    if a.sym == 0 {
                        set!(*d, a);
                    } else {
                        let r = self.x.zext(a.sym, *tw);
                        set!(*d, self.ve(r));
                    }
                    pc += 1;
                }
                I::SExt { fw, tw, d, a } => {
                    let a = get!(*a);
                    if a.sym == 0 {
                        set!(*d, V::c128((sx(a.u128(), *fw) as u128) & mask(*tw)));
                    } else {
                        let r = self.x.sext(a.sym, *tw);
                        set!(*d, self.ve(r));
                    }
                    pc += 1;
                }
                I::Trunc { tw, d, a, .. } => {
                    let a = get!(*a);
                    if a.sym == 0 {
                        set!(*d, V::c128(a.u128() & mask(*tw)));
                    } else {
                        let r = self.x.extract(a.sym, 0, *tw);
                        set!(*d, self.ve(r));
                    }
                    pc += 1;
                }
                I::Load { w, d, p, off } => {
                    let p = get!(*p);
                    if p.sym == 0 {
                        let v = tr!(st.mem.load(&mut self.x, p.lo.wrapping_add(*off as u64), *w));
                        set!(*d, v);
                    } else {
                        let v = tr!(self.load_sym(st, p, *off, *w));
                        set!(*d, v);
                    }
                    pc += 1;
                }
                I::Store { w, v, p, off } => {
                    let a = addr!(get!(*p));
                    let v = get!(*v);
                    tr!(st.mem.store(&mut self.x, a.wrapping_add(*off as u64), *w, v));
                    pc += 1;
                }
                I::GepC { d, base: b, off } => {
                    let p = get!(*b);
                    if p.sym == 0 {
                        set!(*d, V::c(p.lo.wrapping_add(*off as u64)));
                    } else {
                        let k = self.x.konst(64, *off as u64 as u128);
                        let r = self.x.bin(Op::Add, p.sym, k);
                        set!(*d, self.ve(r));
                    }
                    pc += 1;
                }
                I::Gep1 { d, base: b, idx, scale } => {
                    let (p, i) = (get!(*b), get!(*idx));
                    if (p.sym | i.sym) == 0 {
                        set!(*d, V::c(p.lo.wrapping_add(i.lo.wrapping_mul(*scale as u64))));
                    } else {
                        let (pe, ie) = (self.e(p, 64), self.e(i, 64));
                        let k = self.x.konst(64, *scale as u64 as u128);
                        let m = self.x.bin(Op::Mul, ie, k);
                        let r = self.x.bin(Op::Add, pe, m);
                        set!(*d, self.ve(r));
                    }
                    pc += 1;
                }
                I::Gep { d, base: b, off, idx } => {
                    let mut acc = get!(*b);
                    if acc.sym == 0 {
                        acc.lo = acc.lo.wrapping_add(*off as u64);
                    } else {
                        let k = self.x.konst(64, *off as u64 as u128);
                        let r = self.x.bin(Op::Add, acc.sym, k);
                        acc = self.ve(r);
                    }
                    for (o, iw, scale) in idx.iter() {
                        let i = get!(*o);
                        if (acc.sym | i.sym) == 0 {
                            let iv = if *iw == 64 { i.lo } else { sx(i.u128(), *iw) as u64 };
                            acc.lo = acc.lo.wrapping_add(iv.wrapping_mul(*scale as u64));
                        } else {
                            let ie = self.e(i, *iw);
                            let ie = if *iw < 64 {
                                self.x.sext(ie, 64)
                            } else if *iw > 64 {
                                self.x.extract(ie, 0, 64)
                            } else {
                                ie
                            };
                            let k = self.x.konst(64, *scale as u64 as u128);
                            let m = self.x.bin(Op::Mul, ie, k);
                            let pe = self.e(acc, 64);
                            let r = self.x.bin(Op::Add, pe, m);
                            acc = self.ve(r);
                        }
                    }
                    set!(*d, acc);
                    pc += 1;
                }
                I::Br(e) => jump!(*e),
                I::CBr { c, t, f: ff } => {
                    let c = get!(*c);
                    let b = if c.sym == 0 { c.lo & 1 == 1 } else { tr!(self.decide(st, c.sym)) };
                    if b {
                        jump!(*t)
                    } else {
                        jump!(*ff)
                    }
                }
                I::Switch(sw) => {
                    let v = get!(sw.v);
                    let e;
                    if v.sym == 0 {
                        e = match &sw.map {
                            Some(m) => *m.get(&v.lo).unwrap_or(&sw.def),
                            None => {
                                let k = v.u128();
                                sw.cases.iter().find(|c| c.0 == k).map_or(sw.def, |c| c.1)
                            }
                        };
                    } else {
                        let mut r = sw.def;
                        // group cases by target to fork once per target
                        let mut seen: Vec<u32> = vec![];
                        let same = |p: u32, q: u32| {
                            let (p, q) = (&f.edges[p as usize], &f.edges[q as usize]);
                            p.target == q.target && p.moves == q.moves
                        };
                        for (_, ce) in sw.cases.iter() {
                            if seen.iter().any(|t| same(*t, *ce)) {
                                continue;
                            }
                            seen.push(*ce);
                            let mut acc = self.x.konst(1, 0);
                            for (k2, ce2) in sw.cases.iter() {
                                if same(*ce2, *ce) {
                                    let k = self.x.konst(sw.w, *k2);
                                    let q = self.x.eq(v.sym, k);
                                    acc = self.x.bin(Op::Or, acc, q);
                                }
                            }
                            if tr!(self.decide(st, acc)) {
                                r = *ce;
                                break;
                            }
                        }
                        e = r;
                    }
                    jump!(e);
                }
                I::Ret(vals) => {
                    let th = &mut st.th[st.cur];
                    let fr = th.frames.pop().unwrap();
                    th.sp = fr.sp;
                    if fr.kind != 0 {
                        let v = if vals.is_empty() { V::default() } else { get!(vals[0]) };
                        // keep the frame out of the way of the handler
                        st.th[st.cur].frames.push(Frame { pc: pc as u32, ..fr });
                        self.thread_bottom(st, v)?;
                        sync_in!();
                        rp = st.th[st.cur].regs.as_mut_ptr();
                        continue;
                    }
                    let caller = th.frames.last().unwrap();
                    let cb = caller.base as usize + fr.d as usize;
                    for (i, o) in vals.iter().enumerate() {
                        let v = get!(*o);
                        unsafe { *rp.add(cb + i) = v };
                    }
                    sync_in!();
                }
                I::Unreachable => {
                    save!();
                    return Err(Stop::Error(format!("reached unreachable{}", self.stack_trace(st))));
                }
                I::Call(ci) => {
                    let fi = if ci.direct >= 0 {
                        ci.direct as usize
                    } else {
                        let a = addr!(get!(ci.callee));
                        let i = a.wrapping_sub(crate::ll::FUNC_BASE) / 16;
                        if a < crate::ll::FUNC_BASE || i as usize >= self.m.funcs.len() {
                            save!();
                            return Err(Stop::Error(format!("call to {:#x}{}", a, self.stack_trace(st))));
                        }
                        i as usize
                    };
                    let mut h = self.hooks[fi];
                    if h == 1 {
                        h = self.resolve(fi);
                    }
                    if h != 0 {
                        let mut args: [V; 16] = [V::default(); 16];
                        let mut av: Vec<V>;
                        let n = ci.args.len();
                        let argv: &[V] = if n <= 16 {
                            for i in 0..n {
                                args[i] = get!(ci.args[i]);
                            }
                            &args[..n]
                        } else {
                            av = Vec::with_capacity(n);
                            for i in 0..n {
                                av.push(get!(ci.args[i]));
                            }
                            &av
                        };
                        save!();
                        match crate::ext::call(self, st, h, fi, ci, argv)? {
                            crate::ext::Ret::Vals(vs) => {
                                rp = st.th[st.cur].regs.as_mut_ptr();
                                for (i, v) in vs.iter().enumerate().take(ci.retw.len()) {
                                    set!(ci.d + i as u32, *v);
                                }
                                pc += 1;
                            }
                            crate::ext::Ret::Val(v) => {
                                set!(ci.d, v);
                                pc += 1;
                            }
                            crate::ext::Ret::Void => pc += 1,
                            crate::ext::Ret::Body => {
                                // run the real body
                                st.th[st.cur].frames.last_mut().unwrap().pc = pc as u32 + 1;
                                let argv: Vec<V> = argv.to_vec();
                                self.push_call(st, fi, &argv, ci.d, 0)?;
                                sync_in!();
                                rp = st.th[st.cur].regs.as_mut_ptr();
                            }
                            crate::ext::Ret::Frames => {
                                // the handler arranged the frames
                                sync_in!();
                                rp = st.th[st.cur].regs.as_mut_ptr();
                            }
                            crate::ext::Ret::Yield(v) => {
                                if !ci.retw.is_empty() {
                                    set!(ci.d, v);
                                }
                                pc += 1;
                                save!();
                                return Err(Stop::Switch);
                            }
                        }
                        continue;
                    }
                    if let Some(p) = &mut self.profile {
                        *p.entry(fi).or_insert(0) += 1;
                    }
                    let g = match &self.m.funcs[fi].compiled {
                        Some(g) => g.clone(),
                        None => {
                            if self.m.funcs[fi].body.is_none() {
                                save!();
                                return Err(Stop::Error(format!(
                                    "unmodelled external function {}{}",
                                    self.m.func_name(fi),
                                    self.stack_trace(st)
                                )));
                            }
                            self.m.compile(fi)
                        }
                    };
                    if self.trace_calls {
                        eprintln!("{:indent$}{}", "", self.m.func_name(fi), indent = st.th[st.cur].frames.len());
                    }
                    let th = &mut st.th[st.cur];
                    let nb = base + f.nregs as usize;
                    let need = nb + (g.nregs as usize).max(ci.args.len()) + 16;
                    if th.regs.len() < need {
                        th.regs.resize(need.max(th.regs.len() * 2), V::default());
                        rp = th.regs.as_mut_ptr();
                    }
                    for (i, o) in ci.args.iter().enumerate() {
                        let v = get!(*o);
                        unsafe { *rp.add(nb + i) = v };
                    }
                    th.frames.last_mut().unwrap().pc = pc as u32 + 1;
                    if th.frames.len() > 6000 {
                        return Err(Stop::Error(format!("call depth{}", self.stack_trace(st))));
                    }
                    let sp = th.sp;
                    th.frames.push(Frame { f: g.clone(), pc: 0, base: nb as u32, sp, d: ci.d, kind: 0 });
                    f = g;
                    pc = 0;
                    base = nb;
                }
                I::Alloca { d, size, align, cnt } => {
                    let n = get!(*cnt);
                    let n = if n.sym == 0 { n.lo } else { tr!(self.concretize(st, n, 64)) as u64 };
                    let th = &mut st.th[st.cur];
                    let sp = (th.sp - size * n) & !(align.max(&8) - 1);
                    if sp < th.stack_lo + 4096 {
                        save!();
                        return Err(Stop::Error("stack overflow".into()));
                    }
                    th.sp = sp;
                    set!(*d, V::c(sp));
                    pc += 1;
                }
                I::Bitcast(ci) => {
                    let src: Vec<(V, u8)> = ci.src.iter().map(|(o, w)| (get!(*o), *w)).collect();
                    let mut lo = 0;
                    let vals: Vec<(u32, V)> = ci
                        .dst
                        .iter()
                        .map(|(d, w)| {
                            let v = self.gather(&src, lo, *w);
                            lo += *w as u32;
                            (*d, v)
                        })
                        .collect();
                    for (d, v) in vals {
                        set!(d, v);
                    }
                    pc += 1;
                }
                I::Dyn(di) => {
                    let ix = get!(di.idx);
                    let i = tr!(self.concretize(st, ix, di.iw)) as usize;
                    match di.val {
                        None => set!(di.d, get!(di.src[i % di.src.len()])),
                        Some(vo) => {
                            let vals: Vec<V> =
                                di.src.iter().enumerate().map(|(k, o)| if k == i { get!(vo) } else { get!(*o) }).collect();
                            for (k, v) in vals.into_iter().enumerate() {
                                set!(di.d + k as u32, v);
                            }
                        }
                    }
                    pc += 1;
                }
                I::FBin { op, w, d, a, b } => {
                    let (a, b) = (tr!(self.fval(st, get!(*a), *w)), tr!(self.fval(st, get!(*b), *w)));
                    let r = match op {
                        0 => a + b,
                        1 => a - b,
                        2 => a * b,
                        3 => a / b,
                        _ => a % b,
                    };
                    set!(*d, fput(r, *w));
                    pc += 1;
                }
                I::FCmp { p, w, d, a, b } => {
                    let (a, b) = (tr!(self.fval(st, get!(*a), *w)), tr!(self.fval(st, get!(*b), *w)));
                    let un = a.is_nan() || b.is_nan();
                    let r = match p {
                        0 => false,
                        1 => a == b,
                        2 => a > b,
                        3 => a >= b,
                        4 => a < b,
                        5 => a <= b,
                        6 => !un && a != b,
                        7 => !un,
                        8 => un,
                        9 => un || a == b,
                        10 => un || a > b,
                        11 => un || a >= b,
                        12 => un || a < b,
                        13 => un || a <= b,
                        14 => un || a != b,
                        _ => true,
                    };
                    set!(*d, V::c(r as u64));
                    pc += 1;
                }
                I::FCast { op, fw, tw, d, a } => {
                    let a = get!(*a);
                    let v = match op {
                        0 => V::c128((tr!(self.fval(st, a, *fw)) as u128) & mask(*tw)),
                        1 => V::c128((tr!(self.fval(st, a, *fw)) as i128 as u128) & mask(*tw)),
                        2 => fput(tr!(self.concretize(st, a, *fw)) as f64, *tw),
                        3 => fput(sx(tr!(self.concretize(st, a, *fw)), *fw) as f64, *tw),
                        _ => fput(tr!(self.fval(st, a, *fw)), *tw),
                    };
                    set!(*d, v);
                    pc += 1;
                }
                I::Asm(ci, s) => {
                    // empty barriers and cpuid only
                    if s.contains("cpuid") {
                        for i in 0..ci.retw.len() {
                            set!(ci.d + i as u32, V::c(0));
                        }
                    } else if s == "\"\"" {
                        // a barrier may pass a value through
                        for i in 0..ci.retw.len() {
                            if i < ci.args.len() {
                                set!(ci.d + i as u32, get!(ci.args[i]));
                            }
                        }
                    } else {
                        save!();
                        return Err(Stop::Error(format!("inline asm {}", s)));
                    }
                    pc += 1;
                }
                I::RangeEnd => unreachable!(),
            }
        }
    }

    fn fval(&mut self, st: &mut State, v: V, w: u8) -> R<f64> {
        let b = self.concretize(st, v, w)?;
        Ok(if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) })
    }

    fn resolve(&mut self, fi: usize) -> u16 {
        let name = self.m.func_name(fi);
        let h = crate::ext::lookup(self, name, self.m.funcs[fi].body.is_some());
        self.hooks[fi] = h;
        h
    }

    /// The bottom frame of a thread or of a forked section returned.
    fn thread_bottom(&mut self, st: &mut State, v: V) -> R<()> {
        let kind = st.th[st.cur].frames.last().unwrap().kind;
        if kind == 2 {
            return crate::ext::section_end(self, st, 0);
        }
        crate::ext::thread_exit(self, st, v)
    }
}

fn fput(v: f64, w: u8) -> V {
    if w == 32 {
        V::c((v as f32).to_bits() as u64)
    } else {
        V::c(v.to_bits())
    }
}

pub fn bin_c(op: B, w: u8, a: V, b: V) -> Option<V> {
    let (x, y) = (a.u128(), b.u128());
    let o = match op {
        B::Add => Op::Add,
        B::Sub => Op::Sub,
        B::Mul => Op::Mul,
        B::UDiv => Op::UDiv,
        B::SDiv => Op::SDiv,
        B::URem => Op::URem,
        B::SRem => Op::SRem,
        B::Shl => Op::Shl,
        B::LShr => Op::LShr,
        B::AShr => Op::AShr,
        B::And => Op::And,
        B::Or => Op::Or,
        B::Xor => Op::Xor,
    };
    if y == 0 && matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
        return None;
    }
    Some(V::c128(crate::expr::fold(o, w, w, x, y)))
}

#[inline(always)]
pub fn cmp_c(p: C, w: u8, a: V, b: V) -> bool {
    if w <= 64 {
        let s = 64 - w as u32;
        let sxx = |v: u64| ((v << s) as i64) >> s;
        match p {
            C::Eq => a.lo == b.lo,
            C::Ne => a.lo != b.lo,
            C::Ult => a.lo < b.lo,
            C::Ule => a.lo <= b.lo,
            C::Ugt => a.lo > b.lo,
            C::Uge => a.lo >= b.lo,
            C::Slt => sxx(a.lo) < sxx(b.lo),
            C::Sle => sxx(a.lo) <= sxx(b.lo),
            C::Sgt => sxx(a.lo) > sxx(b.lo),
            C::Sge => sxx(a.lo) >= sxx(b.lo),
        }
    } else {
        let (x, y) = (a.u128(), b.u128());
        let (sa, sb) = (sx(x, w), sx(y, w));
        match p {
            C::Eq => x == y,
            C::Ne => x != y,
            C::Ult => x < y,
            C::Ule => x <= y,
            C::Ugt => x > y,
            C::Uge => x >= y,
            C::Slt => sa < sb,
            C::Sle => sa <= sb,
            C::Sgt => sa > sb,
            C::Sge => sa >= sb,
        }
    }
}
