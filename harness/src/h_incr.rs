//! Formulas built step by step before the solver is run.
use crate::{fx::*, h_e2e::{to_vecs, verdict}, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_incr_ops", h_incr_ops),
    ("h_incr_var", h_incr_var),
    ("h_incr_empty", h_incr_empty),
    ("h_incr_loaded", h_incr_loaded),
    ("h_incr_many", h_incr_many),
    ("h_incr_walk", h_incr_walk),
];

/// Perform one arbitrary step; false when the formula was found inconsistent.
fn op(s: &mut Solver, f: &mut F, n: &mut u64, m: u64, len: usize) -> bool {
    match sx::conc(sx::below(3)) {
        0 => {
            let v = s.add_var() as u64;
            *n += 1;
            sx::reach(3);
            sx::check(v == *n && s.asg.num_vars as u64 == *n, 20);
            true
        }
        k => {
            // one variable more than there is
            let len = if k == 1 { 1 } else { len };
            let c: Vec<L> = (0..len).map(|_| 2 * sx::conc(1 + sx::below(*n + 1)) + sx::any(1)).collect();
            let inside = c.iter().all(|l| l >> 1 <= *n);
            let v: Vec<i32> = c.iter().map(|l| to_i32(*l)).collect();
            let r = if k == 1 { s.add_assignment(v[0]).map(|_| ()) } else { s.add_clause(v).map(|_| ()) };
            match r {
                Err(SolverError::InvalidLiteral) => {
                    sx::reach(4);
                    sx::check(!inside, 21);
                    true
                }
                r => {
                    sx::check(inside, 22);
                    f.push(c);
                    if r.is_err() {
                        sx::reach(5);
                        sx::check(f_tv(f, m) == 0, 23);
                        return false;
                    }
                    true
                }
            }
        }
    }
}
fn finish(s: &mut Solver, f: &F, n: u64, m: u64) {
    let r = s.solve();
    verdict(&r, f, n as usize, m);
}
/// Arbitrary steps on a solver with one clause.
#[unsafe(no_mangle)]
pub extern "C" fn h_incr_ops() {
    let mut n = 2;
    let m = model(5);
    let mut f: F = vec![signs(&[1, 2])];
    let mut s = Solver::try_from((Config::default(), to_vecs(&f).as_ref())).unwrap();
    for _ in 0..3 {
        if !op(&mut s, &mut f, &mut n, m, 2) {
            return;
        }
    }
    finish(&mut s, &f, n, m);
}
/// Clauses over added variables.
#[unsafe(no_mangle)]
pub extern "C" fn h_incr_var() {
    let m = model(5);
    let mut f: F = vec![signs(&[1, 2, 3])];
    let mut s = Solver::try_from((Config::default(), to_vecs(&f).as_ref())).unwrap();
    sx::check(s.add_var() == 4, 20);
    let two = sx::flag();
    if two {
        sx::check(s.add_var() == 5, 20);
    }
    let n = 4 + two as u64;
    for k in [2, 3] {
        let mut c = signs(&[1, 2][..k - 1]);
        c.push(2 * (3 + sx::conc(sx::below(n - 2))) + sx::any(1));
        f.push(c.clone());
        if !add(&mut s, &c) {
            sx::check(f_tv(&f, m) == 0, 23);
            return;
        }
    }
    sx::reach(3);
    finish(&mut s, &f, n, m);
}
/// Everything from nothing.
#[unsafe(no_mangle)]
pub extern "C" fn h_incr_empty() {
    let mut n = 0;
    let m = model(5);
    let mut f: F = vec![];
    let v: Vec<Vec<i32>> = vec![];
    let mut s = if sx::flag() {
        Solver::try_from((Config::default(), v.as_ref())).unwrap()
    } else {
        empty_solver(0)
    };
    for _ in 0..2 {
        s.add_var();
        n += 1;
    }
    for _ in 0..3 {
        if !op(&mut s, &mut f, &mut n, m, 2) {
            return;
        }
    }
    finish(&mut s, &f, n, m);
}
/// A loaded formula, then clauses and assumptions.
#[unsafe(no_mangle)]
pub extern "C" fn h_incr_loaded() {
    let mut n = 4;
    let m = model(5);
    let mut f: F = vec![signs(&[1, 2, 3]), signs(&[2, 3, 4]), vec![3, 8]];
    let mut s = Solver::try_from((Config::default(), to_vecs(&f).as_ref())).unwrap();
    for _ in 0..2 {
        if !op(&mut s, &mut f, &mut n, m, 2) {
            return;
        }
    }
    finish(&mut s, &f, n, m);
}
/// Many variables added one after the other, then a search over them.
#[unsafe(no_mangle)]
pub extern "C" fn h_incr_many() {
    const N: u64 = 8;
    let m = model(N);
    let mut s = empty_solver(1);
    let mut f: F = vec![];
    for v in 2..=N {
        sx::check(s.add_var() as u64 == v, 20);
    }
    for vs in [[1, 2, 8], [2, 7, 8], [3, 6, 8], [4, 5, 8], [1, 5, 7], [3, 4, 7], [2, 5, 6]] {
        f.push(vs.iter().map(|v| 2 * v + (v & 1)).collect());
        f.push(vs.iter().map(|v| 2 * v + (v >> 1 & 1)).collect());
    }
    f.push(signs(&[6, 7, 8]));
    f.push(signs(&[1, 4]));
    for c in &f {
        add(&mut s, c);
    }
    finish(&mut s, &f, N, m);
}
/// Longer sequences (skeletons with some signs free).
#[unsafe(no_mangle)]
pub extern "C" fn h_incr_walk() {
    let mut r = Rnd::pick(512);
    let mut n = 1 + r.below(4);
    let m = model(12);
    let mut f: F = vec![];
    for _ in 0..r.below(5) {
        let k = 2 + r.below(2) as usize;
        if k as u64 <= n {
            f.push(r.clause(n, k));
        }
    }
    n = f.iter().flatten().map(|l| l >> 1).max().unwrap_or(0);
    let mut s = Solver::try_from((Config::default(), to_vecs(&f).as_ref())).unwrap();
    let mut free = 4;
    for _ in 0..14 {
        match r.below(5) {
            0 | 1 if n < 12 => {
                let v = s.add_var() as u64;
                n += 1;
                sx::reach(3);
                sx::check(v == n && s.asg.num_vars as u64 == n, 20);
            }
            k if n > 0 => {
                let len = if k == 4 { 1 } else { 1 + r.below(4) as usize };
                let mut c: Vec<L> = (0..len).map(|_| 2 + r.below(2 * n)).collect();
                if free > 0 && r.below(2) == 0 {
                    free -= 1;
                    let i = r.below(len as u64) as usize;
                    c[i] ^= sx::any(1);
                }
                let v: Vec<i32> = c.iter().map(|l| to_i32(*l)).collect();
                let ok = if k == 4 { s.add_assignment(v[0]).is_ok() } else { s.add_clause(v).is_ok() };
                f.push(c);
                if !ok {
                    sx::reach(5);
                    sx::check(f_tv(&f, m) == 0, 23);
                    return;
                }
            }
            _ => (),
        }
    }
    finish(&mut s, &f, n, m);
}
