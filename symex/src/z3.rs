//! Minimal binding to libz3's C API.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
}

pub enum Ans {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    ast: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            Z3_set_param_value(cfg, cs("timeout").as_ptr(), cs(&timeout_ms.to_string()).as_ptr());
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_BV").as_ptr()));
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, ast: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, time: Default::default() }
        }
    }
    fn is_bool_to_bv(&self, a: P, w: u16) -> P {
        unsafe {
            let so = Z3_mk_bv_sort(self.c, w as u32);
            let one = Z3_mk_numeral(self.c, cs("1").as_ptr(), so);
            let zero = Z3_mk_numeral(self.c, cs("0").as_ptr(), so);
            Z3_mk_ite(self.c, a, one, zero)
        }
    }
    pub fn tr(&mut self, ar: &Arena, e: E) -> P {
        if self.ast.len() < ar.n.len() {
            self.ast.resize(ar.n.len(), std::ptr::null_mut());
        }
        if !self.ast[e as usize].is_null() {
            return self.ast[e as usize];
        }
        let n = ar.n[e as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        Z3_mk_numeral(c, cs(&n.k.to_string()).as_ptr(), Z3_mk_bv_sort(c, n.w as u32))
                    }
                }
                Op::Sym => {
                    let so = if n.w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n.w as u32) };
                    Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&format!("s{}_{}", n.k, n.w)).as_ptr()), so)
                }
                Op::Ite => {
                    let (x, y, z) = (self.tr(ar, n.a), self.tr(ar, n.b), self.tr(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::ZExt => {
                    let aw = ar.w(n.a);
                    let x = self.tr(ar, n.a);
                    if aw == 1 {
                        self.is_bool_to_bv(x, n.w)
                    } else {
                        Z3_mk_zero_ext(c, (n.w - aw) as u32, x)
                    }
                }
                Op::SExt => {
                    let aw = ar.w(n.a);
                    let mut x = self.tr(ar, n.a);
                    if aw == 1 {
                        x = self.is_bool_to_bv(x, 1);
                    }
                    Z3_mk_sign_ext(c, (n.w - aw) as u32, x)
                }
                Op::Extract => {
                    let mut x = self.tr(ar, n.a);
                    if ar.w(n.a) == 1 {
                        x = self.is_bool_to_bv(x, 1);
                    }
                    let y = Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, x);
                    if n.w == 1 {
                        let so = Z3_mk_bv_sort(c, 1);
                        Z3_mk_eq(c, y, Z3_mk_numeral(c, cs("1").as_ptr(), so))
                    } else {
                        y
                    }
                }
                Op::Concat => {
                    let mut x = self.tr(ar, n.a);
                    let mut y = self.tr(ar, n.b);
                    if ar.w(n.a) == 1 {
                        x = self.is_bool_to_bv(x, 1);
                    }
                    if ar.w(n.b) == 1 {
                        y = self.is_bool_to_bv(y, 1);
                    }
                    Z3_mk_concat(c, x, y)
                }
                op => {
                    let aw = ar.w(n.a);
                    let x = self.tr(ar, n.a);
                    let y = self.tr(ar, n.b);
                    if aw == 1 {
                        let v = [x, y];
                        match op {
                            Op::And | Op::Mul => Z3_mk_and(c, 2, v.as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                            Op::Xor | Op::Add | Op::Sub => {
                                if ar.as_const(n.b) == Some(1) {
                                    Z3_mk_not(c, x)
                                } else {
                                    Z3_mk_xor(c, x, y)
                                }
                            }
                            Op::Eq => Z3_mk_eq(c, x, y),
                            Op::Ult | Op::Slt | Op::Ule | Op::Sle => {
                                let (p, q) = if matches!(op, Op::Ult | Op::Ule) { (x, y) } else { (y, x) };
                                let np = Z3_mk_not(c, p);
                                let v = [np, q];
                                if matches!(op, Op::Ult | Op::Slt) {
                                    Z3_mk_and(c, 2, v.as_ptr())
                                } else {
                                    Z3_mk_or(c, 2, v.as_ptr())
                                }
                            }
                            _ => x, // shifts/divisions of a Boolean by 0 / 1: identity
                        }
                    } else {
                        match op {
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Eq => Z3_mk_eq(c, x, y),
                            Op::Ult => Z3_mk_bvult(c, x, y),
                            Op::Ule => Z3_mk_bvule(c, x, y),
                            Op::Slt => Z3_mk_bvslt(c, x, y),
                            Op::Sle => Z3_mk_bvsle(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        if r.is_null() {
            unsafe { eprintln!("z3 error {} on {:?}", Z3_get_error_code(c), n) };
            std::process::exit(3);
        }
        self.ast[e as usize] = r;
        r
    }
    /// Satisfiability of the conjunction; on Sat, values of the given symbols.
    pub fn check(&mut self, ar: &Arena, cs_: &[E], syms: &[(u32, E)]) -> Ans {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let asts: Vec<P> = cs_.iter().map(|e| self.tr(ar, *e)).collect();
        let sy: Vec<(u32, P, u16)> = syms.iter().map(|(i, e)| (*i, self.tr(ar, *e), ar.w(*e))).collect();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for a in asts {
                Z3_solver_assert(self.c, self.s, a);
            }
            let res = match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for (i, a, w) in sy {
                        let mut v: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.c, m, a, true, &mut v);
                        assert!(ok);
                        let x = if w == 1 {
                            (Z3_get_bool_value(self.c, v) == 1) as u128
                        } else {
                            let mut u = 0u64;
                            assert!(Z3_get_numeral_uint64(self.c, v, &mut u));
                            u as u128
                        };
                        out.push((i, x));
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Ans::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Ans::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Ans::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            res
        };
        let el = t0.elapsed();
        self.time += el;
        r
    }
}
