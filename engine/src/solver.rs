//! z3 (C API) as the decision procedure for bit-vector queries.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

pub fn version() -> String {
    unsafe {
        std::ffi::CStr::from_ptr(Z3_get_full_version())
            .to_string_lossy()
            .into_owned()
    }
}

#[derive(Clone)]
pub enum Sat {
    Sat(HashMap<u32, u128>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    solver: P,
    bv: HashMap<E, P>,
    bo: HashMap<E, P>,
    cache: HashMap<Vec<E>, Sat>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_ms: f64,
    pub max_ms: f64,
    pub dump: Option<std::path::PathBuf>,
}

impl Solver {
    pub fn reset_stats(&mut self) {
        self.queries = 0;
        self.cache_hits = 0;
        self.sat = 0;
        self.unsat = 0;
        self.unknown = 0;
        self.time_ms = 0.0;
        self.max_ms = 0.0;
    }
    /// `rlimit` bounds each query (a deterministic resource count; a wall-clock
    /// timeout would start threads, which do not survive the workers' fork()).
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let set = |k: &str, v: &str| {
                let k = CString::new(k).unwrap();
                let v = CString::new(v).unwrap();
                Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            };
            set("model", "true");
            let ctx = Z3_mk_context(cfg);
            let solver = if std::env::var("RSX_SIMPLE").is_ok() {
                Z3_mk_simple_solver(ctx)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()))
            };
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), rlimit);
            Z3_solver_set_params(ctx, solver, p);
            Solver {
                ctx,
                solver,
                bv: HashMap::new(),
                bo: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time_ms: 0.0,
                max_ms: 0.0,
                dump: None,
            }
        }
    }

    fn num(&self, k: u128, w: u16) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, k as u64, s)
            } else {
                let t = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }

    fn to_bool(&mut self, ex: &Exprs, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) {
            return p;
        }
        let n = *ex.n(e);
        assert!(n.w == 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And | Op::Or if true => {
                    let a = self.to_bool(ex, n.a);
                    let b = self.to_bool(ex, n.b);
                    let v = [a, b];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    if ex.as_const(n.b) == Some(1) {
                        let a = self.to_bool(ex, n.a);
                        Z3_mk_not(c, a)
                    } else {
                        let a = self.to_bool(ex, n.a);
                        let b = self.to_bool(ex, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Eq if ex.w(n.a) == 1 => {
                    let a = self.to_bool(ex, n.a);
                    let b = self.to_bool(ex, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.to_bv(ex, n.a);
                    let b = self.to_bv(ex, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Ite => {
                    let x = self.to_bool(ex, n.a);
                    let a = self.to_bool(ex, n.b);
                    let b = self.to_bool(ex, n.c);
                    Z3_mk_ite(c, x, a, b)
                }
                _ => {
                    let a = self.to_bv(ex, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.bo.insert(e, r);
        r
    }

    fn to_bv(&mut self, ex: &Exprs, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = *ex.n(e);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => Z3_mk_const(
                    c,
                    Z3_mk_int_symbol(c, n.k as c_int),
                    Z3_mk_bv_sort(c, n.w as c_uint),
                ),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.to_bool(ex, e);
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let b = self.to_bool(ex, e);
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Ite => {
                    let x = self.to_bool(ex, n.a);
                    let a = self.to_bv(ex, n.b);
                    let b = self.to_bv(ex, n.c);
                    Z3_mk_ite(c, x, a, b)
                }
                Op::Extract => {
                    let a = self.to_bv(ex, n.a);
                    Z3_mk_extract(
                        c,
                        (n.k as u16 + n.w - 1) as c_uint,
                        n.k as c_uint,
                        a,
                    )
                }
                Op::ZExt => {
                    let a = self.to_bv(ex, n.a);
                    Z3_mk_zero_ext(c, (n.w - ex.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.to_bv(ex, n.a);
                    Z3_mk_sign_ext(c, (n.w - ex.w(n.a)) as c_uint, a)
                }
                op => {
                    let a = self.to_bv(ex, n.a);
                    let b = self.to_bv(ex, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }

    /// Decide the conjunction of `cs`. Model covers exactly the variables in it.
    pub fn check(&mut self, ex: &Exprs, cs: &[E]) -> Sat {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t = Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for &e in &key {
                let p = self.to_bool(ex, e);
                Z3_solver_assert(self.ctx, self.solver, p);
            }
            if let Some(d) = &self.dump {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver));
                let _ = std::fs::write(
                    d.join(format!("q{}.smt2", self.queries)),
                    format!("{}\n(check-sat)\n", s.to_string_lossy()),
                );
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            let out = if Z3_get_error_code(self.ctx) != 0 {
                Sat::Unknown
            } else if r == 1 {
                let m = Z3_solver_get_model(self.ctx, self.solver);
                Z3_model_inc_ref(self.ctx, m);
                let mut vals = HashMap::new();
                let mut seen = std::collections::HashSet::new();
                let mut stack: Vec<E> = key.clone();
                while let Some(e) = stack.pop() {
                    if !seen.insert(e) {
                        continue;
                    }
                    let n = *ex.n(e);
                    if n.op == Op::Var {
                        let p = self.to_bv(ex, e);
                        let mut v: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, p, true, &mut v);
                        let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, v))
                            .to_string_lossy()
                            .into_owned();
                        vals.insert(n.k as u32, s.parse::<u128>().unwrap_or(0));
                    } else {
                        for x in [n.a, n.b, n.c] {
                            if x != 0 {
                                stack.push(x);
                            }
                        }
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                Sat::Sat(vals)
            } else if r == -1 {
                Sat::Unsat
            } else {
                Sat::Unknown
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            out
        };
        let ms = t.elapsed().as_secs_f64() * 1000.0;
        self.time_ms += ms;
        if ms > self.max_ms {
            self.max_ms = ms;
        }
        match &r {
            Sat::Sat(_) => self.sat += 1,
            Sat::Unsat => self.unsat += 1,
            Sat::Unknown => self.unknown += 1,
        }
        if !matches!(r, Sat::Unknown) {
            self.cache.insert(key, r.clone());
        }
        r
    }
}
