//! Minimal binding to libz3 and the query front end used by the executor.
use crate::term::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_error_code(c: P) -> c_uint;
}

pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Z3 {
    ctx: P,
    sol: P,
    bv: HashMap<u128, P>,
    bo: HashMap<u128, P>,
    made: usize,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
    timeout_ms: u64,
}

impl Z3 {
    pub fn new(timeout_ms: u64) -> Z3 {
        let mut z = Z3 { ctx: std::ptr::null_mut(), sol: std::ptr::null_mut(), bv: HashMap::new(), bo: HashMap::new(), made: 0,
            queries: 0, sat: 0, unsat: 0, unknown: 0, time: Default::default(), timeout_ms };
        z.open();
        z
    }
    fn open(&mut self) {
        // z3 sets up what all contexts share when the first is made
        static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _one = ONE.lock().unwrap();
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, c"model".as_ptr(), c"true".as_ptr());
            let t = std::ffi::CString::new(self.timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, c"timeout".as_ptr(), t.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            let l = Z3_mk_string_symbol(self.ctx, c"QF_BV".as_ptr());
            self.sol = Z3_mk_solver_for_logic(self.ctx, l);
            Z3_solver_inc_ref(self.ctx, self.sol);
        }
    }
    fn recycle(&mut self) {
        // terms live until the context goes; start afresh when there are many
        if self.made > 400_000 {
            unsafe { Z3_del_context(self.ctx) };
            self.bv.clear();
            self.bo.clear();
            self.made = 0;
            self.open();
        }
    }
    fn sort(&self, w: u8) -> P { unsafe { Z3_mk_bv_sort(self.ctx, w as c_uint) } }

    fn b(&mut self, t: &T) -> P {
        if t.w != 1 { panic!("bool of width {}", t.w) }
        if let Some(p) = self.bo.get(&t.h) { return *p; }
        let c = self.ctx;
        let r = unsafe {
            match &t.op {
                Op::Const(k) => if *k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Not(x) => { let a = self.b(x); Z3_mk_not(c, a) }
                Op::Bin(B::Eq, x, y) if x.w == 1 => { let (a, d) = (self.b(x), self.b(y)); Z3_mk_eq(c, a, d) }
                Op::Bin(B::Eq, x, y) => { let (a, d) = (self.v(x), self.v(y)); Z3_mk_eq(c, a, d) }
                Op::Bin(B::Ult, x, y) => { let (a, d) = (self.v(x), self.v(y)); Z3_mk_bvult(c, a, d) }
                Op::Bin(B::Slt, x, y) => { let (a, d) = (self.v(x), self.v(y)); Z3_mk_bvslt(c, a, d) }
                Op::Bin(B::And, x, y) => { let l = [self.b(x), self.b(y)]; Z3_mk_and(c, 2, l.as_ptr()) }
                Op::Bin(B::Or, x, y) => { let l = [self.b(x), self.b(y)]; Z3_mk_or(c, 2, l.as_ptr()) }
                Op::Bin(B::Xor, x, y) => { let (a, d) = (self.b(x), self.b(y)); Z3_mk_xor(c, a, d) }
                Op::Ite(k, x, y) => { let (k, a, d) = (self.b(k), self.b(x), self.b(y)); Z3_mk_ite(c, k, a, d) }
                _ => {
                    let a = self.v(t);
                    let one = Z3_mk_unsigned_int64(c, 1, self.sort(1));
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.made += 1;
        self.bo.insert(t.h, r);
        r
    }
    fn v(&mut self, t: &T) -> P {
        if let Some(p) = self.bv.get(&t.h) { return *p; }
        let c = self.ctx;
        let r = unsafe {
            match &t.op {
                Op::Var(i) => Z3_mk_const(c, Z3_mk_int_symbol(c, *i as c_int * 128 + t.w as c_int), self.sort(t.w)),
                Op::Const(k) => Z3_mk_unsigned_int64(c, *k, self.sort(t.w)),
                Op::Bin(B::Eq | B::Ult | B::Slt, ..) | Op::Not(_) => {
                    let p = self.b(t);
                    let s = self.sort(1);
                    Z3_mk_ite(c, p, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Op::ZExt(x) => { let a = self.v(x); Z3_mk_zero_ext(c, (t.w - x.w) as c_uint, a) }
                Op::SExt(x) => { let a = self.v(x); Z3_mk_sign_ext(c, (t.w - x.w) as c_uint, a) }
                Op::Extract(x, lo) => { let a = self.v(x); Z3_mk_extract(c, (*lo + t.w - 1) as c_uint, *lo as c_uint, a) }
                Op::Ite(k, x, y) => { let (k, a, d) = (self.b(k), self.v(x), self.v(y)); Z3_mk_ite(c, k, a, d) }
                Op::Bin(o, x, y) => {
                    let (a, d) = (self.v(x), self.v(y));
                    match o {
                        B::Add => Z3_mk_bvadd(c, a, d), B::Sub => Z3_mk_bvsub(c, a, d), B::Mul => Z3_mk_bvmul(c, a, d),
                        B::UDiv => Z3_mk_bvudiv(c, a, d), B::SDiv => Z3_mk_bvsdiv(c, a, d),
                        B::URem => Z3_mk_bvurem(c, a, d), B::SRem => Z3_mk_bvsrem(c, a, d),
                        B::And => Z3_mk_bvand(c, a, d), B::Or => Z3_mk_bvor(c, a, d), B::Xor => Z3_mk_bvxor(c, a, d),
                        B::Shl => Z3_mk_bvshl(c, a, d), B::LShr => Z3_mk_bvlshr(c, a, d), B::AShr => Z3_mk_bvashr(c, a, d),
                        B::Concat => Z3_mk_concat(c, a, d),
                        B::Eq | B::Ult | B::Slt => unreachable!(),
                    }
                }
            }
        };
        self.made += 1;
        self.bv.insert(t.h, r);
        r
    }
    /// Conjunction of `cs` (each width 1); on sat, values for the variables in it.
    pub fn check(&mut self, cs: &[T]) -> Res {
        self.recycle();
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.ctx, self.sol);
            for t in cs { let p = self.b(t); Z3_solver_assert(self.ctx, self.sol, p); }
            let r = match Z3_solver_check(self.ctx, self.sol) {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, self.sol);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vars = Vec::new();
                    let mut seen = std::collections::HashSet::new();
                    for t in cs { collect(t, &mut vars, &mut seen); }
                    let mut out = Vec::new();
                    for t in vars {
                        let p = self.v(&t);
                        let mut o: P = std::ptr::null_mut();
                        let mut v = 0u64;
                        if Z3_model_eval(self.ctx, m, p, true, &mut o) && Z3_get_numeral_uint64(self.ctx, o, &mut v) {
                            if let Op::Var(i) = t.op { out.push((i, v)); }
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(out)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown }
            };
            Z3_solver_pop(self.ctx, self.sol, 1);
            if Z3_get_error_code(self.ctx) != 0 { panic!("z3 error {}", Z3_get_error_code(self.ctx)); }
            r
        };
        self.time += t0.elapsed();
        r
    }
}

fn collect(t: &T, out: &mut Vec<T>, seen: &mut std::collections::HashSet<u128>) {
    if t.m.iter().all(|x| *x == 0) || !seen.insert(t.h) { return; }
    match &t.op {
        Op::Var(_) => out.push(t.clone()),
        Op::Const(_) => {}
        Op::Bin(_, x, y) => { collect(x, out, seen); collect(y, out, seen) }
        Op::Not(x) | Op::ZExt(x) | Op::SExt(x) | Op::Extract(x, _) => collect(x, out, seen),
        Op::Ite(c, x, y) => { collect(c, out, seen); collect(x, out, seen); collect(y, out, seen) }
    }
}
