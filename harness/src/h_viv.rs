//! Vivification.
use crate::{fx::*, h_elim::rest_tv, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_viv_2233", h_viv_2233),
    ("h_viv_333", h_viv_333),
    ("h_viv_42", h_viv_42),
    ("h_viv_2223", h_viv_2223),
    ("h_viv_refute", h_viv_refute),
    ("h_viv_433", h_viv_433),
    ("h_viv_learnt", h_viv_learnt),
    ("h_viv_chain", h_viv_chain),
    ("h_viv_fact", h_viv_fact),
    ("h_viv_skel", h_viv_skel),
    ("h_viv_skel_x", h_viv_skel_x),
    ("h_viv_skel5", h_viv_skel5),
];

pub fn vivify(s: &mut Solver, f: &F, n: u64, m: u64) -> bool {
    let fm = f_tv(f, m);
    let r = s.cdb.vivify(&mut s.asg, &mut s.state);
    if r.is_err() {
        sx::reach(1);
        sx::check(fm == 0, 1);
        return false;
    }
    sx::check(imp(fm, cdb_tv(&s.cdb, m) & root_tv(&s.asg, n, m)), 2);
    sx::check(imp(rest_tv(s, n, m), fm), 3);
    let mut ok = s.asg.decision_level() == s.asg.root_level() && s.asg.stack_len() == 0;
    for v in 1..=n {
        let v = v as usize;
        ok &= s.asg.assign(v).is_none() || s.asg.level(v) == s.asg.root_level();
    }
    sx::check(ok && !s.asg.remains(), 4);
    true
}
fn run(s: &mut Solver, f: &F, n: u64) {
    let m = model(n);
    let lits = |s: &Solver| s.cdb.iter().skip(1).map(|c| if c.is_dead() { 0 } else { c.len() }).sum::<usize>();
    let before = lits(s);
    let again = sx::flag();
    if again {
        // as in the course of a search
        s.state.handle(SolverEvent::Restart);
    }
    if vivify(s, f, n, m) {
        if lits(s) < before {
            sx::reach(2);
        }
        for c in s.cdb.iter().skip(1) {
            for l in c.iter() {
                sx::trace(of(*l));
            }
        }
        // the store still propagates
        if let Some(v) = (1..=n).find(|v| s.asg.assign(*v as usize).is_none()) {
            s.asg.assign_by_decision(to_lit(2 * v + sx::any(1)));
            if s.asg.propagate(&mut s.cdb).is_ok() {
                sx::check(crate::h_conflict::closed(&s.asg, f), 5);
            }
        }
    }
}
fn shaped(n: u64, shape: &[usize]) {
    let mut s = empty_solver(n);
    let mut f: F = vec![];
    for k in shape {
        let c = sorted_clause(n, *k);
        add_lits(&mut s, &c);
        f.push(c);
    }
    run(&mut s, &f, n);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_2233() {
    shaped(3, &[2, 2, 3]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_333() {
    shaped(4, &[3, 3, 3]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_42() {
    shaped(4, &[4, 2, 2]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_2223() {
    shaped(3, &[2, 2, 2, 3]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_433() {
    shaped(4, &[4, 3, 3]);
}
/// Enough clauses for a refutation.
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_refute() {
    const N: u64 = 3;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    for vs in [&[1, 2][..], &[1, 3], &[2, 3], &[1, 2], &[1, 2, 3]] {
        let c = signs(vs);
        add_lits(&mut s, &c);
        f.push(c);
    }
    let u = code(N);
    f.push(vec![u]);
    if s.asg.assign_at_root_level(to_lit(u)).is_ok() {
        run(&mut s, &f, N);
    }
}
/// Learnt clauses help to shorten given ones.
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_learnt() {
    const N: u64 = 5;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    let a = [3, 5];
    let first = sx::flag();
    let mut l: Vec<Lit> = [a[0], a[1], 9].iter().map(|c| to_lit(*c)).collect();
    if first {
        s.cdb.new_clause(&mut s.asg, &mut l, true);
    }
    for c in [
        vec![a[0], a[1], 9, 10],
        vec![a[0], a[1], 9, 11],
        vec![a[0], a[1], 8 + sx::any(1)],
        signs(&[1, 2, 3]),
        signs(&[1, 3, 5]),
        signs(&[2, 4]),
    ] {
        add_lits(&mut s, &c);
        f.push(c);
    }
    if !first {
        s.cdb.new_clause(&mut s.asg, &mut l, true);
    }
    let mut w: Vec<Lit> = f[3].iter().map(|c| to_lit(*c)).collect();
    w.push(to_lit(10 + sx::any(1)));
    s.cdb.new_clause(&mut s.asg, &mut w, true);
    run(&mut s, &f, N);
}
/// A long clause over an implication chain.
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_chain() {
    const N: u64 = 6;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    for c in [signs(&[1, 2, 3, 4, 5]), vec![3, 2 + sx::below(2 * N)], signs(&[2, 3, 6]), signs(&[1, 4, 6])] {
        if c[0] >> 1 == c[1] >> 1 {
            sx::assume(false);
        }
        add_lits(&mut s, &c);
        f.push(c);
    }
    run(&mut s, &f, N);
}
/// Facts waiting to be propagated.
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_fact() {
    const N: u64 = 4;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    for vs in [&[1, 2, 3, 4][..], &[1, 2, 3], &[2, 4]] {
        let c = signs(vs);
        add_lits(&mut s, &c);
        f.push(c);
    }
    let u = code(N);
    f.push(vec![u]);
    if s.asg.assign_at_root_level(to_lit(u)).is_ok() {
        run(&mut s, &f, N);
    }
}
/// Larger formulas (skeletons with some signs free) with learnt clauses.
fn skel(seeds: u64, n: u64, num: usize, lo: usize, hi: usize, free: usize) {
    let mut r = Rnd::pick(seeds);
    let num = num + r.below(6) as usize;
    let shape = r.shape(num, lo, hi);
    let mut f = r.formula(n, &shape);
    let learnt = r.derive(n, &mut f, 4, free);
    let mut s = empty_solver(n);
    for c in &f {
        add_lits(&mut s, c);
    }
    for c in &learnt {
        learn(&mut s, c);
    }
    run(&mut s, &f, n);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_skel() {
    skel(128, 7, 10, 2, 4, 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_skel5() {
    skel(128, 9, 14, 2, 6, 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_viv_skel_x() {
    skel(1024, 8, 12, 2, 5, 5);
}
