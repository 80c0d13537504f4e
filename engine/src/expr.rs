//! Hash-consed bit-vector expressions with a simplifying constructor layer.
//!
//! Every symbolic input is an 8-bit variable. Expressions that depend on one
//! variable only are additionally canonicalised by their value table, so that
//! e.g. decoding and re-encoding a character gives back the identical node.

use std::collections::HashMap;

pub type E = u32; // 0 is reserved ("concrete")

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    ZExt,
    SExt,
    Extract, // b = low bit
    Concat,  // a high, b low
    Ite,     // a cond, b, c
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub type Set = [u64; 4];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sup {
    None,
    One(u16),
    Many,
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub sup: Vec<Sup>,
    pub supset: Vec<Set>,
    cmap: HashMap<(u8, u128), E>,
    consts: Vec<u128>,
    map: HashMap<Node, E>,
    /// value tables of single-variable expressions
    tables: HashMap<E, Box<[u64; 256]>>,
    canon: HashMap<(u16, u8, u64), Vec<E>>,
    pub nvars: u16,
    pub var_e: Vec<E>,
    memo: Vec<(u32, u128)>,
    gen: u32,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: Op, w: u8, ow: u8, a: u128, b: u128) -> u128 {
    // w: result width, ow: operand width
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                m
            } else {
                (sx(a, ow).wrapping_div(sx(b, ow)) as u128) & m
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                (sx(a, ow).wrapping_rem(sx(b, ow)) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= ow as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= ow as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= ow as u128 { ow as u32 - 1 } else { b as u32 };
            ((sx(a, ow) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, ow) < sx(b, ow)) as u128,
        Op::Sle => (sx(a, ow) <= sx(b, ow)) as u128,
        _ => unreachable!(),
    }
}

impl Exprs {
    pub fn new() -> Self {
        Exprs {
            nodes: vec![Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 }],
            sup: vec![Sup::None],
            supset: vec![[0; 4]],
            cmap: HashMap::new(),
            consts: vec![],
            map: HashMap::new(),
            tables: HashMap::new(),
            canon: HashMap::new(),
            nvars: 0,
            var_e: vec![],
            memo: vec![],
            gen: 0,
        }
    }
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn konst(&mut self, w: u8, v: u128) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.cmap.get(&(w, v)) {
            return e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Const, w, a: ci, b: 0, c: 0 });
        self.sup.push(Sup::None);
        self.supset.push([0; 4]);
        self.cmap.insert((w, v), e);
        e
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    /// The i-th 8-bit input variable (shared between states).
    pub fn var(&mut self, i: u16) -> E {
        assert!(i < 256, "too many symbolic bytes");
        while self.nvars <= i {
            let n = Node { op: Op::Var, w: 8, a: self.nvars as u32, b: 0, c: 0 };
            let e = self.nodes.len() as E;
            self.nodes.push(n);
            self.sup.push(Sup::One(self.nvars));
            let mut s = [0; 4];
            s[(self.nvars >> 6) as usize] |= 1 << (self.nvars & 63);
            self.supset.push(s);
            self.var_e.push(e);
            let mut t = Box::new([0u64; 256]);
            for k in 0..256 {
                t[k] = k as u64;
            }
            let h = Self::thash(&t);
            self.tables.insert(e, t);
            self.canon.entry((self.nvars, 8, h)).or_default().push(e);
            self.nvars += 1;
        }
        self.var_e[i as usize]
    }
    fn thash(t: &[u64; 256]) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for x in t.iter() {
            h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        }
        h
    }
    fn raw(&mut self, op: Op, w: u8, a: E, b: E, c: E) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let kids: &[E] = match op {
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => &[a],
            Op::Ite => &[a, b, c],
            _ => &[a, b],
        };
        let mut s = [0u64; 4];
        let mut sup = Sup::None;
        for &k in kids {
            let ks = self.supset[k as usize];
            for i in 0..4 {
                s[i] |= ks[i];
            }
            sup = match (sup, self.sup[k as usize]) {
                (x, Sup::None) => x,
                (Sup::None, y) => y,
                (Sup::One(p), Sup::One(q)) if p == q => Sup::One(p),
                _ => Sup::Many,
            };
        }
        // canonicalise single-variable expressions by their value table
        if let Sup::One(v) = sup {
            if w <= 64 {
                let t = self.build_table(&n);
                let first = t[0];
                if t.iter().all(|x| *x == first) {
                    let e = self.konst(w, first as u128);
                    self.map.insert(n, e);
                    return e;
                }
                let h = Self::thash(&t);
                if let Some(l) = self.canon.get(&(v, w, h)) {
                    for &cand in l {
                        if *self.tables[&cand] == *t {
                            self.map.insert(n, cand);
                            return cand;
                        }
                    }
                }
                let e = self.push(n, sup, s);
                self.tables.insert(e, t);
                self.canon.entry((v, w, h)).or_default().push(e);
                return e;
            }
        }
        self.push(n, sup, s)
    }
    fn push(&mut self, n: Node, sup: Sup, s: Set) -> E {
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.sup.push(sup);
        self.supset.push(s);
        self.map.insert(n, e);
        e
    }
    fn tab(&mut self, e: E) -> Box<[u64; 256]> {
        if let Some(c) = self.as_const(e) {
            return Box::new([c as u64; 256]);
        }
        if let Some(t) = self.tables.get(&e) {
            return t.clone();
        }
        // wide (> 64 bit) intermediate: evaluate point by point
        panic!("tab of wide expression");
    }
    fn build_table(&mut self, n: &Node) -> Box<[u64; 256]> {
        let mut t = Box::new([0u64; 256]);
        let wide = |s: &Self, e: E| s.w(e) > 64;
        let kids: Vec<E> = match n.op {
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        };
        if kids.iter().any(|k| wide(self, *k)) {
            // evaluate via the generic evaluator
            let v = kids
                .iter()
                .find_map(|k| if let Sup::One(v) = self.sup[*k as usize] { Some(v) } else { None })
                .unwrap();
            let mut model = vec![0u8; self.nvars as usize];
            for x in 0..256usize {
                model[v as usize] = x as u8;
                let vals: Vec<u128> = kids.iter().map(|k| self.eval(*k, &model)).collect();
                t[x] = self.apply(n, &vals) as u64;
            }
            return t;
        }
        let tabs: Vec<Box<[u64; 256]>> = kids.iter().map(|k| self.tab(*k)).collect();
        let mut vals = [0u128; 3];
        for x in 0..256usize {
            for (i, tb) in tabs.iter().enumerate() {
                vals[i] = tb[x] as u128;
            }
            t[x] = self.apply(n, &vals[..tabs.len()]) as u64;
        }
        t
    }
    pub fn table(&mut self, e: E) -> Option<&[u64; 256]> {
        self.tables.get(&e).map(|b| &**b)
    }
    /// Truth set of a single-variable boolean.
    pub fn truth(&mut self, e: E) -> Option<Set> {
        let t = self.tables.get(&e)?;
        let mut s = [0u64; 4];
        for i in 0..256 {
            if t[i] & 1 == 1 {
                s[i >> 6] |= 1 << (i & 63);
            }
        }
        Some(s)
    }
    fn apply(&self, n: &Node, v: &[u128]) -> u128 {
        let m = mask(n.w);
        match n.op {
            Op::Not => !v[0] & m,
            Op::ZExt => v[0],
            Op::SExt => (sx(v[0], self.w(n.a)) as u128) & m,
            Op::Extract => (v[0] >> n.b) & m,
            Op::Concat => ((v[0] << self.w(n.b)) | v[1]) & m,
            Op::Ite => {
                if v[0] & 1 == 1 {
                    v[1]
                } else {
                    v[2]
                }
            }
            _ => fold(n.op, n.w, self.w(n.a), v[0], v[1]),
        }
    }
    /// Evaluate under an assignment of all variables.
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            self.memo.clear();
            self.gen = 1;
        }
        let n = self.nodes.len();
        if self.memo.len() < n {
            self.memo.resize(n + n / 4 + 16, (0, 0));
        }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return *model.get(n.a as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        let (g, v) = self.memo[e as usize];
        if g == self.gen {
            return v;
        }
        let r = match n.op {
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => {
                let a = self.eval_rec(n.a, model);
                self.apply(&n, &[a])
            }
            Op::Ite => {
                let c = self.eval_rec(n.a, model);
                if c & 1 == 1 {
                    self.eval_rec(n.b, model)
                } else {
                    self.eval_rec(n.c, model)
                }
            }
            _ => {
                let a = self.eval_rec(n.a, model);
                let b = self.eval_rec(n.b, model);
                self.apply(&n, &[a, b])
            }
        };
        self.memo[e as usize] = (self.gen, r);
        r
    }

    // ---- constructors -------------------------------------------------

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.as_const(a) {
            return self.konst(w, !c);
        }
        let n = self.nodes[a as usize];
        if n.op == Op::Not {
            return n.a;
        }
        if w == 1 {
            match n.op {
                Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                _ => {}
            }
        }
        self.raw(Op::Not, w, a, 0, 0)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.konst(w, c);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let b = self.zext(n.b, w);
                let c = self.zext(n.c, w);
                return self.ite(n.a, b, c);
            }
            _ => {}
        }
        self.raw(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.konst(w, sx(c, aw) as u128);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let b = self.sext(n.b, w);
                let c = self.sext(n.c, w);
                return self.ite(n.a, b, c);
            }
            _ => {}
        }
        if aw == 1 {
            let m1 = self.konst(w, !0);
            let z = self.konst(w, 0);
            return self.ite(a, m1, z);
        }
        self.raw(Op::SExt, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let aw = self.w(a);
        debug_assert!(lo as u32 + w as u32 <= aw as u32);
        if lo == 0 && aw == w {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.konst(w, c >> lo);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.b as u8, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let low = self.extract(n.b, lo, lw - lo);
                let high = self.extract(n.a, 0, lo + w - lw);
                return self.concat(high, low);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Shl => {
                if let Some(s) = self.as_const(n.b) {
                    let s = s.min(255) as u32;
                    if lo as u32 >= s {
                        return self.extract(n.a, lo - s as u8, w);
                    }
                    if (lo + w) as u32 <= s {
                        return self.konst(w, 0);
                    }
                }
            }
            Op::LShr => {
                if let Some(s) = self.as_const(n.b) {
                    let s = s.min(255) as u32;
                    if s + lo as u32 + w as u32 <= aw as u32 {
                        return self.extract(n.a, lo + s as u8, w);
                    }
                    if s + lo as u32 >= aw as u32 {
                        return self.konst(w, 0);
                    }
                }
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.raw(Op::Extract, w, a, lo as u32, 0)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.as_const(hi), self.as_const(lo)) {
            return self.konst(w, (a << lw) | b);
        }
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (hn, ln) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        // adjacent extracts of one value
        if hn.op == Op::Extract {
            if ln.op == Op::Extract && ln.a == hn.a && hn.b == ln.b + lw as u32 {
                return self.extract(hn.a, ln.b as u8, w);
            }
            // concat(extract(x, lw..), x-low) where lo is the low part reached through zext
            if hn.b as u8 == lw && hn.b > 0 {
                let cand = self.extract(hn.a, 0, (hn.b as u8).min(self.w(hn.a)));
                if cand == lo && hn.b == lw as u32 {
                    return self.extract(hn.a, 0, w);
                }
            }
        }
        // concat(extract(x,k), concat(extract(x,j), rest))
        if hn.op == Op::Extract && ln.op == Op::Concat {
            let inner = self.nodes[ln.a as usize];
            if inner.op == Op::Extract && inner.a == hn.a && hn.b == inner.b + inner.w as u32 {
                let m = self.extract(hn.a, inner.b as u8, inner.w + hw);
                return self.concat(m, ln.b);
            }
        }
        if let (Op::Ite, Op::Ite) = (hn.op, ln.op) {
            if hn.a == ln.a {
                let x = self.concat(hn.b, ln.b);
                let y = self.concat(hn.c, ln.c);
                return self.ite(hn.a, x, y);
            }
        }
        self.raw(Op::Concat, w, hi, lo, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k & 1 == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let cn = self.nodes[c as usize];
        if cn.op == Op::Not {
            return self.ite(cn.a, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let an = self.nodes[a as usize];
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        let bn = self.nodes[b as usize];
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        if bn.op == Op::Ite && bn.b == a {
            let cc = self.bin(Op::Or, c, bn.a);
            return self.ite(cc, a, bn.c);
        }
        self.raw(Op::Ite, w, c, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    /// Function of variable `v` given by a table; entries outside `care` are free.
    pub fn from_table(&mut self, v: u16, w: u8, t: &[u64; 256], care: &Set) -> E {
        let ve = self.var(v);
        // runs of equal values, skipping don't-care entries
        let mut runs: Vec<(usize, u64)> = vec![]; // (first index, value)
        for i in 0..256 {
            if care[i >> 6] >> (i & 63) & 1 == 0 {
                continue;
            }
            match runs.last() {
                Some(r) if r.1 == t[i] => {}
                _ => runs.push((i, t[i])),
            }
        }
        if runs.is_empty() {
            return self.konst(w, 0);
        }
        let mut acc = self.konst(w, runs[runs.len() - 1].1 as u128);
        for k in (0..runs.len() - 1).rev() {
            let b = self.konst(8, runs[k + 1].0 as u128);
            let c = self.bin(Op::Ult, ve, b);
            let val = self.konst(w, runs[k].1 as u128);
            acc = self.ite(c, val, acc);
        }
        acc
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let ow = self.w(a);
        debug_assert_eq!(ow, self.w(b), "{:?}", op);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let w = if cmp { 1 } else { ow };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, ow, x, y);
            return self.konst(w, v);
        }
        // constants to the right for commutative operators
        if ca.is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            return self.bin(op, b, a);
        }
        if cb.is_none()
            && a > b
            && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
        {
            return self.bin(op, b, a);
        }
        let an = self.nodes[a as usize];
        let bn = self.nodes[b as usize];
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if an.op == Op::Add {
                        if let Some(k2) = self.as_const(an.b) {
                            let s = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, an.a, s);
                        }
                    }
                    if an.op == Op::Ite
                        && self.as_const(an.b).is_some()
                        && self.as_const(an.c).is_some()
                    {
                        let x = self.bin(Op::Add, an.b, b);
                        let y = self.bin(Op::Add, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    let nk = self.konst(w, (0u128).wrapping_sub(k));
                    return self.bin(Op::Add, a, nk);
                }
                // (x + k) - x
                if an.op == Op::Add && an.a == b {
                    return an.b;
                }
                if an.op == Op::Add && an.b == b {
                    return an.a;
                }
                if an.op == Op::Add && bn.op == Op::Add && an.a == bn.a {
                    return self.bin(Op::Sub, an.b, bn.b);
                }
                if bn.op == Op::Add && bn.a == a {
                    let z = self.konst(w, 0);
                    return self.bin(Op::Sub, z, bn.b);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == mask(w) {
                        return a;
                    }
                    if an.op == Op::And {
                        if let Some(k2) = self.as_const(an.b) {
                            let s = self.konst(w, k & k2);
                            return self.bin(Op::And, an.a, s);
                        }
                    }
                    if an.op == Op::ZExt {
                        let iw = self.w(an.a);
                        let kk = self.konst(iw, k);
                        let x = self.bin(Op::And, an.a, kk);
                        return self.zext(x, w);
                    }
                    // low mask: zext(extract)
                    if (k + 1).is_power_of_two() {
                        let t = k.trailing_ones() as u8;
                        if t < w {
                            let x = self.extract(a, 0, t);
                            return self.zext(x, w);
                        }
                    }
                    if an.op == Op::Ite
                        && self.as_const(an.b).is_some()
                        && self.as_const(an.c).is_some()
                    {
                        let x = self.bin(Op::And, an.b, b);
                        let y = self.bin(Op::And, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.konst(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == mask(w) {
                        return b;
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.konst(1, 1);
                    }
                }
                // disjoint halves: (zext lo) | (x << k)  ->  concat
                if an.op == Op::ZExt && bn.op == Op::Shl {
                    if let Some(r) = self.or_concat(a, an, bn, w) {
                        return r;
                    }
                }
                if bn.op == Op::ZExt && an.op == Op::Shl {
                    if let Some(r) = self.or_concat(b, bn, an, w) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == mask(w) {
                        return self.not(a);
                    }
                    if an.op == Op::Xor {
                        if let Some(k2) = self.as_const(an.b) {
                            let s = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, an.a, s);
                        }
                    }
                }
                if w == 1 {
                    let e = self.eq(a, b);
                    return self.not(e);
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 && op != Op::AShr {
                        return self.konst(w, 0);
                    }
                    let k = k.min(w as u128 - 1) as u8;
                    if op == Op::LShr {
                        if an.op == Op::ZExt {
                            let iw = self.w(an.a);
                            if k >= iw {
                                return self.konst(w, 0);
                            }
                            let x = self.extract(an.a, k, iw - k);
                            return self.zext(x, w);
                        }
                        if an.op == Op::Concat {
                            let x = self.extract(a, k, w - k);
                            return self.zext(x, w);
                        }
                        if an.op == Op::LShr {
                            if let Some(k2) = self.as_const(an.b) {
                                let s = self.konst(w, k as u128 + k2);
                                return self.bin(Op::LShr, an.a, s);
                            }
                        }
                    }
                    if op == Op::Shl && an.op == Op::Shl {
                        if let Some(k2) = self.as_const(an.b) {
                            let s = self.konst(w, k as u128 + k2);
                            return self.bin(Op::Shl, an.a, s);
                        }
                    }
                    if op == Op::AShr && an.op == Op::ZExt {
                        return self.bin(Op::LShr, a, b);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(k) = cb {
                    if ow == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match an.op {
                        Op::ZExt => {
                            let iw = self.w(an.a);
                            if k > mask(iw) {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Eq, an.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(an.a);
                            let kk = k & mask(iw);
                            if (sx(kk, iw) as u128) & mask(ow) != k {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, kk);
                            return self.bin(Op::Eq, an.a, kk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(an.b) {
                                let s = self.konst(ow, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, an.a, s);
                            }
                        }
                        Op::Sub => {
                            if k == 0 {
                                return self.bin(Op::Eq, an.a, an.b);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(an.b) {
                                let s = self.konst(ow, k ^ k2);
                                return self.bin(Op::Eq, an.a, s);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, an.a, an.b);
                            }
                        }
                        Op::Not => {
                            let s = self.konst(ow, !k);
                            return self.bin(Op::Eq, an.a, s);
                        }
                        Op::Ite => {
                            let (cx, cy) = (self.as_const(an.b), self.as_const(an.c));
                            if cx.is_some() || cy.is_some() {
                                let x = self.bin(Op::Eq, an.b, b);
                                let y = self.bin(Op::Eq, an.c, b);
                                return self.ite(an.a, x, y);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(an.b);
                            let hk = self.konst(ow - lw, k >> lw);
                            let lk = self.konst(lw, k);
                            let x = self.bin(Op::Eq, an.a, hk);
                            let y = self.bin(Op::Eq, an.b, lk);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Or if k == 0 => {
                            let x = self.bin(Op::Eq, an.a, b);
                            let y = self.bin(Op::Eq, an.b, b);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                } else {
                    if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) {
                        return self.bin(Op::Eq, an.a, bn.a);
                    }
                    if an.op == Op::Add && bn.op == Op::Add && an.a == bn.a {
                        return self.bin(Op::Eq, an.b, bn.b);
                    }
                    if an.op == Op::Concat
                        && bn.op == Op::Concat
                        && self.w(an.b) == self.w(bn.b)
                    {
                        let x = self.bin(Op::Eq, an.a, bn.a);
                        let y = self.bin(Op::Eq, an.b, bn.b);
                        return self.bin(Op::And, x, y);
                    }
                    if ow == 1 {
                        let na = self.not(a);
                        if na == b {
                            return self.konst(1, 0);
                        }
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.konst(1, 0);
                }
                if cb == Some(0) {
                    return self.konst(1, 0);
                }
                if ca == Some(mask(ow)) {
                    return self.konst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.konst(ow, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.konst(ow, 0);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                if let Some(r) = self.narrow(op, a, b, an, bn, ca, cb) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b {
                    return self.konst(1, 1);
                }
                if ca == Some(0) || cb == Some(mask(ow)) {
                    return self.konst(1, 1);
                }
                if cb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                if let Some(r) = self.narrow(op, a, b, an, bn, ca, cb) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, (op == Op::Sle) as u128);
                }
                // both non-negative by construction
                let nn = |s: &Self, n: &Node, c: Option<u128>| {
                    n.op == Op::ZExt || c.map_or(false, |v| sx(v, ow) >= 0) && s.w(a) == ow
                };
                if nn(self, &an, ca) && nn(self, &bn, cb) {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, a, b);
                }
                if an.op == Op::ZExt && cb.map_or(false, |v| sx(v, ow) < 0) {
                    return self.konst(1, 0);
                }
                if bn.op == Op::ZExt && ca.map_or(false, |v| sx(v, ow) < 0) {
                    return self.konst(1, 1);
                }
            }
            _ => {}
        }
        self.raw(op, w, a, b, 0)
    }
    fn or_concat(&mut self, lo: E, lon: Node, shn: Node, w: u8) -> Option<E> {
        let k = self.as_const(shn.b)? as u32;
        let lw = self.w(lon.a) as u32;
        if lw <= k && k < w as u32 {
            let low = self.extract(lo, 0, k as u8);
            let high = self.extract(shn.a, 0, w - k as u8);
            return Some(self.concat(high, low));
        }
        None
    }
    fn narrow(
        &mut self,
        op: Op,
        a: E,
        b: E,
        an: Node,
        bn: Node,
        ca: Option<u128>,
        cb: Option<u128>,
    ) -> Option<E> {
        if an.op == Op::ZExt {
            let iw = self.w(an.a);
            if let Some(k) = cb {
                if k > mask(iw) {
                    return Some(self.konst(1, 1));
                }
                let kk = self.konst(iw, k);
                return Some(self.bin(op, an.a, kk));
            }
            if bn.op == Op::ZExt {
                let jw = self.w(bn.a);
                let m = iw.max(jw);
                if m < self.w(a) {
                    let x = self.zext(an.a, m);
                    let y = self.zext(bn.a, m);
                    return Some(self.bin(op, x, y));
                }
            }
        }
        if bn.op == Op::ZExt {
            let iw = self.w(bn.a);
            if let Some(k) = ca {
                if k > mask(iw) {
                    return Some(self.konst(1, 0));
                }
                let kk = self.konst(iw, k);
                return Some(self.bin(op, kk, bn.a));
            }
        }
        if an.op == Op::Ite && cb.is_some() {
            if self.as_const(an.b).is_some() && self.as_const(an.c).is_some() {
                let x = self.bin(op, an.b, b);
                let y = self.bin(op, an.c, b);
                return Some(self.ite(an.a, x, y));
            }
        }
        if bn.op == Op::Ite && ca.is_some() {
            if self.as_const(bn.b).is_some() && self.as_const(bn.c).is_some() {
                let x = self.bin(op, a, bn.b);
                let y = self.bin(op, a, bn.c);
                return Some(self.ite(bn.a, x, y));
            }
        }
        None
    }
}

impl Exprs {
    /// Readable form, for debugging.
    pub fn text(&self, e: E, depth: u32) -> String {
        let n = self.nodes[e as usize];
        if let Some(c) = self.as_const(e) {
            return format!("{:#x}:{}", c, n.w);
        }
        if depth == 0 {
            return "..".into();
        }
        match n.op {
            Op::Var => format!("v{}", n.a),
            Op::Not | Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.text(n.a, depth - 1)),
            Op::Extract => format!("{}[{}+{}]", self.text(n.a, depth - 1), n.b, n.w),
            Op::Ite => format!(
                "(ite {} {} {})",
                self.text(n.a, depth - 1),
                self.text(n.b, depth - 1),
                self.text(n.c, depth - 1)
            ),
            _ => format!("({:?}{} {} {})", n.op, n.w, self.text(n.a, depth - 1), self.text(n.b, depth - 1)),
        }
    }
}
