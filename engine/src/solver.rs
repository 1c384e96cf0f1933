//! Z3 front end: independence slicing, query cache, assumption-literal incremental QF_BV solving.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, r: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_fresh_const(c: P, p: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
        std::process::exit(3);
    }
}

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    Sat(std::rc::Rc<Vec<(u32, u128)>>),
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub solved: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Solver {
    ctx: P,
    sol: P,
    bools: HashMap<E, P, BuildFx>,
    bvs: HashMap<E, P, BuildFx>,
    lits: HashMap<E, P, BuildFx>,
    cache: HashMap<Box<[E]>, Res, BuildFx>,
    pub recent: Vec<(VarSet, std::rc::Rc<Vec<(u32, u128)>>)>,
    since: u64,
    pub st: Stats,
    pub timeout_ms: u32,
}

impl Solver {
    pub fn new() -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            sol: std::ptr::null_mut(),
            bools: Default::default(),
            bvs: Default::default(),
            lits: Default::default(),
            cache: Default::default(),
            recent: vec![],
            since: 0,
            st: Default::default(),
            timeout_ms: 60000,
        };
        s.fresh();
        s
    }
    pub fn fresh(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_solver_dec_ref(self.ctx, self.sol);
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let sy = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.sol = Z3_mk_solver_for_logic(self.ctx, sy);
            Z3_solver_inc_ref(self.ctx, self.sol);
            let pr = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, pr);
            let k = CString::new("timeout").unwrap();
            let ks = Z3_mk_string_symbol(self.ctx, k.as_ptr());
            Z3_params_set_uint(self.ctx, pr, ks, self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.sol, pr);
        }
        self.bools.clear();
        self.bvs.clear();
        self.lits.clear();
        self.since = 0;
    }

    fn num(&self, w: u32, k: u128) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, k as u64, Z3_mk_bv_sort(self.ctx, w))
            } else {
                let hi = Z3_mk_unsigned_int64(self.ctx, (k >> 64) as u64, Z3_mk_bv_sort(self.ctx, w - 64));
                let lo = Z3_mk_unsigned_int64(self.ctx, k as u64, Z3_mk_bv_sort(self.ctx, 64));
                Z3_mk_concat(self.ctx, hi, lo)
            }
        }
    }
    fn varc(&self, idx: u32, w: u32) -> P {
        unsafe {
            let s = Z3_mk_int_symbol(self.ctx, (idx * 256 + w) as c_int);
            Z3_mk_const(self.ctx, s, Z3_mk_bv_sort(self.ctx, w))
        }
    }
    fn tb(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bools.get(&e) {
            return *p;
        }
        let n = ar.nodes[e as usize];
        debug_assert!(n.w == 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.tb(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And | Op::Or => {
                    let v = [self.tb(ar, n.a), self.tb(ar, n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    let a = self.tb(ar, n.a);
                    let b = self.tb(ar, n.b);
                    Z3_mk_xor(c, a, b)
                }
                Op::Ite => {
                    let a = self.tb(ar, n.a);
                    let b = self.tb(ar, n.b);
                    let d = self.tb(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq => {
                    if ar.w(n.a) == 1 {
                        let a = self.tb(ar, n.a);
                        let b = self.tb(ar, n.b);
                        Z3_mk_eq(c, a, b)
                    } else {
                        let a = self.tv(ar, n.a);
                        let b = self.tv(ar, n.b);
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult => {
                    let a = self.tv(ar, n.a);
                    let b = self.tv(ar, n.b);
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let a = self.tv(ar, n.a);
                    let b = self.tv(ar, n.b);
                    Z3_mk_bvslt(c, a, b)
                }
                _ => {
                    let a = self.tv(ar, e);
                    Z3_mk_eq(c, a, self.num(1, 1))
                }
            }
        };
        self.bools.insert(e, r);
        r
    }
    fn tv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bvs.get(&e) {
            return *p;
        }
        let n = ar.nodes[e as usize];
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.w as u32, n.k),
                Op::Var => self.varc(n.a, n.w as u32),
                Op::Eq | Op::Ult | Op::Slt | Op::Not => {
                    let b = self.tb(ar, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(1, 0))
                }
                Op::ZExt => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_zero_ext(c, n.w as u32 - ar.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_sign_ext(c, n.w as u32 - ar.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
                }
                Op::Ite => {
                    let a = self.tb(ar, n.a);
                    let b = self.tv(ar, n.b);
                    let d = self.tv(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                op => {
                    let a = self.tv(ar, n.a);
                    let b = self.tv(ar, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bvs.insert(e, r);
        r
    }
    fn lit(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.lits.get(&e) {
            return *p;
        }
        let b = self.tb(ar, e);
        let r = unsafe {
            let nm = CString::new("l").unwrap();
            let l = Z3_mk_fresh_const(self.ctx, nm.as_ptr(), Z3_mk_bool_sort(self.ctx));
            Z3_solver_assert(self.ctx, self.sol, Z3_mk_implies(self.ctx, l, b));
            l
        };
        self.lits.insert(e, r);
        r
    }

    /// Is pc && q satisfiable?  `widths[i]` is the width of variable i on this path.
    pub fn check(&mut self, ar: &mut Arena, pc: &[E], q: E, widths: &[u8], model: &[u128]) -> Res {
        self.st.queries += 1;
        if q == Arena::FALSE {
            return Res::Unsat;
        }
        // slice
        let mut vs = ar.vars[q as usize];
        let mut key: Vec<E> = vec![];
        let mut rest: Vec<E> = pc.to_vec();
        loop {
            let mut moved = false;
            rest.retain(|&e| {
                let ev = &ar.vars[e as usize];
                if (0..8).any(|i| ev[i] & vs[i] != 0) {
                    for i in 0..8 {
                        vs[i] |= ev[i];
                    }
                    key.push(e);
                    moved = true;
                    false
                } else {
                    true
                }
            });
            if !moved {
                break;
            }
        }
        key.push(q);
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key[..]) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        // try a few recent models
        for i in (0..self.recent.len()).rev() {
            let m = self.recent[i].1.clone();
            ar.epoch += 1;
            let f = |v: u32| -> u128 {
                for (k, x) in m.iter() {
                    if *k == v {
                        return *x;
                    }
                }
                *model.get(v as usize).unwrap_or(&0)
            };
            let ok = key.iter().all(|&e| ar.ev_pub(e, &f) != 0);
            if ok {
                self.st.model_hits += 1;
                let mut vals = vec![];
                for (i, w) in widths.iter().enumerate() {
                    if vs[(i % 512) / 64] >> (i % 64) & 1 == 1 {
                        vals.push((i as u32, f(i as u32) & mask(*w as u32)));
                    }
                }
                let r = Res::Sat(std::rc::Rc::new(vals));
                self.cache.insert(key.into_boxed_slice(), r.clone());
                return r;
            }
        }
        self.since += 1;
        if self.since > 4000 || self.lits.len() > 6000 {
            self.fresh();
        }
        let t0 = std::time::Instant::now();
        let lits: Vec<P> = key.iter().map(|e| self.lit(ar, *e)).collect();
        let r = unsafe { Z3_solver_check_assumptions(self.ctx, self.sol, lits.len() as c_uint, lits.as_ptr()) };
        self.st.solved += 1;
        let res = match r {
            -1 => {
                self.st.unsat += 1;
                Res::Unsat
            }
            1 => {
                self.st.sat += 1;
                let mut vals = vec![];
                unsafe {
                    let m = Z3_solver_get_model(self.ctx, self.sol);
                    Z3_model_inc_ref(self.ctx, m);
                    for (i, w) in widths.iter().enumerate() {
                        if vs[(i % 512) / 64] >> (i % 64) & 1 == 1 {
                            let v = self.varc(i as u32, *w as u32);
                            let mut out: P = std::ptr::null_mut();
                            Z3_model_eval(self.ctx, m, v, true, &mut out);
                            let mut k = 0u64;
                            Z3_get_numeral_uint64(self.ctx, out, &mut k);
                            vals.push((i as u32, k as u128));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                }
                let vals = std::rc::Rc::new(vals);
                // the model must satisfy the query under the engine's own semantics too
                let vv = vals.clone();
                let f = |v: u32| -> u128 { vv.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(0) };
                ar.epoch += 1;
                if !key.iter().all(|&e| ar.ev_pub(e, &f) != 0) {
                    eprintln!("symir: solver model does not satisfy the query (translation mismatch)");
                    std::process::exit(3);
                }
                self.recent.push((vs, vals.clone()));
                if self.recent.len() > 6 {
                    self.recent.remove(0);
                }
                Res::Sat(vals)
            }
            _ => {
                self.st.unknown += 1;
                Res::Unknown
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        if self.cache.len() > 2_000_000 {
            self.cache.clear();
        }
        self.cache.insert(key.into_boxed_slice(), res.clone());
        res
    }
}
