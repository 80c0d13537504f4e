//! Minimal binding to libz3 (C API) and the translation of expressions.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::abort();
}

pub struct Z3 {
    ctx: P,
    solver: P,
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    pub queries: u64,
    pub time: f64,
    n_since_reset: u32,
    timeout_ms: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sat {
    Sat(Vec<(u16, u8)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let mut z = Z3 {
                ctx,
                solver: std::ptr::null_mut(),
                bv: HashMap::new(),
                bl: HashMap::new(),
                queries: 0,
                time: 0.0,
                n_since_reset: 0,
                timeout_ms,
            };
            z.new_solver();
            z
        }
    }
    fn new_solver(&mut self) {
        unsafe {
            if !self.solver.is_null() {
                Z3_solver_dec_ref(self.ctx, self.solver);
            }
            self.solver = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            let s = Z3_mk_string_symbol(self.ctx, k.as_ptr());
            Z3_params_set_uint(self.ctx, p, s, self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.solver, p);
            self.n_since_reset = 0;
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }
    pub fn to_bool(&mut self, x: &Exprs, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) {
            return p;
        }
        let n = x.nodes[e as usize];
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if x.as_const(e) == Some(1) {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.to_bool(x, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let a = [self.to_bool(x, n.a), self.to_bool(x, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.to_bool(x, n.a), self.to_bool(x, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Eq => {
                    if x.w(n.a) == 1 {
                        let (a, b) = (self.to_bool(x, n.a), self.to_bool(x, n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.to_bv(x, n.a), self.to_bv(x, n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.to_bv(x, n.a), self.to_bv(x, n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Ite => {
                    let k = self.to_bool(x, n.a);
                    let (a, b) = (self.to_bool(x, n.b), self.to_bool(x, n.c));
                    Z3_mk_ite(c, k, a, b)
                }
                _ => {
                    let v = self.to_bv(x, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        let p = self.keep(p);
        self.bl.insert(e, p);
        p
    }
    fn num(&self, w: u8, v: u128) -> P {
        unsafe {
            let s = self.keep(Z3_mk_bv_sort(self.ctx, w as c_uint));
            if v <= u64::MAX as u128 {
                self.keep(Z3_mk_unsigned_int64(self.ctx, v as u64, s))
            } else {
                let t = CString::new(v.to_string()).unwrap();
                self.keep(Z3_mk_numeral(self.ctx, t.as_ptr(), s))
            }
        }
    }
    pub fn to_bv(&mut self, x: &Exprs, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = x.nodes[e as usize];
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => self.num(n.w, x.as_const(e).unwrap()),
                Op::Var => {
                    let s = self.keep(Z3_mk_bv_sort(c, 8));
                    let nm = CString::new(format!("v{}", n.a)).unwrap();
                    let sym = Z3_mk_string_symbol(c, nm.as_ptr());
                    Z3_mk_const(c, sym, s)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.to_bool(x, e);
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(c, b, o, z)
                }
                Op::Not => {
                    let a = self.to_bv(x, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::ZExt => {
                    let a = self.to_bv(x, n.a);
                    Z3_mk_zero_ext(c, (n.w - x.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.to_bv(x, n.a);
                    Z3_mk_sign_ext(c, (n.w - x.w(n.a)) as c_uint, a)
                }
                Op::Extract => {
                    let a = self.to_bv(x, n.a);
                    Z3_mk_extract(c, n.b + n.w as c_uint - 1, n.b, a)
                }
                Op::Ite => {
                    let k = self.to_bool(x, n.a);
                    let (a, b) = (self.to_bv(x, n.b), self.to_bv(x, n.c));
                    Z3_mk_ite(c, k, a, b)
                }
                _ => {
                    let (a, b) = (self.to_bv(x, n.a), self.to_bv(x, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        let p = self.keep(p);
        self.bv.insert(e, p);
        p
    }
    /// Is the conjunction satisfiable? Returns values for `vars`.
    pub fn time_ms(&self) -> u64 {
        (self.time * 1000.0) as u64
    }
    pub fn reset_stats(&mut self) {
        self.queries = 0;
        self.time = 0.0;
    }
    pub fn check(&mut self, x: &Exprs, cs: &[E], vars: &[u16]) -> Sat {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        self.n_since_reset += 1;
        if self.n_since_reset > 2000 {
            self.new_solver();
        }
        let ps: Vec<P> = cs.iter().map(|&e| self.to_bool(x, e)).collect();
        let r = unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for p in ps {
                Z3_solver_assert(self.ctx, self.solver, p);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for &v in vars {
                        let pv = self.to_bv(x, x.var_e[v as usize]);
                        let mut r: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(self.ctx, m, pv, true, &mut r) {
                            Z3_get_numeral_uint64(self.ctx, r, &mut val);
                        }
                        out.push((v, val as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Sat::Sat(out)
                }
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            res
        };
        self.time += t0.elapsed().as_secs_f64();
        r
    }
}
