//! Whole solver runs through the public API.
use crate::{fx::*, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_e2e_any222", h_e2e_any222),
    ("h_e2e_any321", h_e2e_any321),
    ("h_e2e_b5", h_e2e_b5),
    ("h_e2e_t3", h_e2e_t3),
    ("h_e2e_t4", h_e2e_t4),
    ("h_e2e_php", h_e2e_php),
    ("h_e2e_skel", h_e2e_skel),
    ("h_e2e_skel_x", h_e2e_skel_x),
    ("h_e2e_skel5", h_e2e_skel5),
];

pub fn to_vecs(f: &F) -> Vec<Vec<i32>> {
    f.iter().map(|c| c.iter().map(|l| to_i32(*l)).collect()).collect()
}
/// Judge a verdict for formula f over variables 1..=n.
pub fn verdict(r: &Result<Certificate, SolverError>, f: &F, n: usize, m: u64) {
    match r {
        Ok(Certificate::SAT(v)) => {
            sx::reach(1);
            sx::check(v.len() == n, 2);
            let mut bits = 0u64;
            let mut shape = true;
            for (i, x) in v.iter().enumerate() {
                shape &= x.unsigned_abs() as usize == i + 1;
                if *x > 0 {
                    bits |= 1 << (i + 1);
                }
                sx::trace(*x as u64 & 0xff);
            }
            sx::check(shape, 3);
            sx::check(f_tv(f, bits) == 1, 4);
        }
        Ok(Certificate::UNSAT) => {
            sx::reach(2);
            sx::trace(99);
            sx::check(f_tv(f, m) == 0, 5);
        }
        Err(_) => sx::check(false, 6),
    }
}
pub fn max_var(f: &F) -> usize {
    f.iter().flat_map(|c| c.iter()).map(|l| (sx::conc(*l) >> 1) as usize).max().unwrap_or(0)
}
/// Clauses of the given lengths over any literals (repetitions and tautologies included).
fn any(n: u64, shape: &[usize]) {
    let f: F = shape.iter().map(|k| (0..*k).map(|_| code(n)).collect()).collect();
    let m = model(n);
    let nv = max_var(&f);
    let r = Certificate::try_from(to_vecs(&f));
    verdict(&r, &f, nv, m);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_e2e_any222() {
    any(2, &[2, 2, 2]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_e2e_any321() {
    any(3, &[3, 2, 1]);
}
/// Proper clauses (distinct variables), all of them present in the first clause's variable set.
fn proper(n: u64, shape: &[usize]) {
    let f: F = shape.iter().map(|k| sorted_clause(n, *k)).collect();
    let m = model(n);
    let nv = max_var(&f);
    let r = Certificate::try_from(to_vecs(&f));
    verdict(&r, &f, nv, m);
}
/// Five binary clauses over three variables.
#[unsafe(no_mangle)]
pub extern "C" fn h_e2e_b5() {
    proper(3, &[2, 2, 2, 2]);
}
/// Eight 3-literal clauses over three variables: fixed variables, half of the signs symbolic.
#[unsafe(no_mangle)]
pub extern "C" fn h_e2e_t3() {
    let mut f: F = vec![];
    for i in 0..4u64 {
        f.push(vec![2 + (i & 1), 4 + (i >> 1), 7]);
    }
    for _ in 0..4 {
        f.push(signs(&[1, 2, 3]));
    }
    let m = model(3);
    let r = Certificate::try_from(to_vecs(&f));
    verdict(&r, &f, 3, m);
}
/// 3-literal clauses over 4 variables.
#[unsafe(no_mangle)]
pub extern "C" fn h_e2e_t4() {
    let mut f: F = vec![];
    for vs in [[1, 2, 3], [1, 2, 4], [1, 3, 4], [2, 3, 4], [1, 2, 3], [2, 3, 4], [1, 3, 4]] {
        f.push(signs(&vs));
    }
    let m = model(4);
    let r = Certificate::try_from(to_vecs(&f));
    verdict(&r, &f, 4, m);
}
/// A pigeon-hole-like core with arbitrary extra clauses.
#[unsafe(no_mangle)]
pub extern "C" fn h_e2e_php() {
    // 3 pigeons, 2 holes: variable 2p+h+1
    let mut f: F = vec![];
    let x = |p: u64, h: u64| 2 * p + h + 1;
    for p in 0..3 {
        f.push(vec![2 * x(p, 0) + 1, 2 * x(p, 1) + 1]);
    }
    for h in 0..2 {
        for p in 0..3 {
            for q in 0..p {
                // one of the two signs is free in one clause
                if h == 1 && p == 2 && q == 0 {
                    f.push(signs(&[x(p, h), x(q, h)]));
                } else {
                    f.push(vec![2 * x(p, h), 2 * x(q, h)]);
                }
            }
        }
    }
    f.push(sorted_clause(6, 3));
    let m = model(6);
    let r = Certificate::try_from(to_vecs(&f));
    verdict(&r, &f, 6, m);
}
/// Larger formulas: skeletons with some signs free.
fn skel(seeds: u64, n: u64, num: usize, lo: usize, hi: usize, free: usize) {
    let mut r = Rnd::pick(seeds);
    let num = num + r.below(num as u64 / 2) as usize;
    let shape = r.shape(num, lo, hi);
    let mut f = r.formula(n, &shape);
    r.vary(&mut f, free);
    let m = model(n);
    let nv = max_var(&f);
    let r = Certificate::try_from(to_vecs(&f));
    verdict(&r, &f, nv, m);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_e2e_skel() {
    skel(64, 7, 18, 2, 4, 7);
}
/// Longer clauses.
#[unsafe(no_mangle)]
pub extern "C" fn h_e2e_skel5() {
    skel(64, 8, 16, 3, 5, 7);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_e2e_skel_x() {
    skel(512, 8, 20, 2, 4, 8);
}
