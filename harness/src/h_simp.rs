//! Subsumption, strengthening and simplification under facts.
use crate::{fx::*, h_elim::rest_tv, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_simp_facts", h_simp_facts),
    ("h_simp_facts3", h_simp_facts3),
    ("h_simp_sub", h_simp_sub),
    ("h_simp_sub3", h_simp_sub3),
    ("h_simp_str", h_simp_str),
    ("h_simp_learnt", h_simp_learnt),
    ("h_simp_learnt2", h_simp_learnt2),
    ("h_simp_skel", h_simp_skel),
    ("h_simp_skel_x", h_simp_skel_x),
    ("h_simp_skel5", h_simp_skel5),
];

/// The clauses that must stay and the facts are equivalent to the formula.
pub fn equivalent(s: &Solver, f: &F, n: u64, m: u64) {
    let fm = f_tv(f, m);
    sx::check(imp(fm, cdb_tv(&s.cdb, m) & root_tv(&s.asg, n, m)), 1);
    sx::check(imp(rest_tv(s, n, m), fm), 2);
    sx::check(s.asg.decision_level() == s.asg.root_level(), 3);
}
pub fn no_facts_left(s: &Solver) {
    let mut ok = true;
    for c in s.cdb.iter().skip(1) {
        if !c.is_dead() {
            ok &= c.len() >= 2;
            for l in c.iter() {
                ok &= s.asg.assigned(*l).is_none();
            }
        }
    }
    sx::check(ok && s.asg.stack_len() == 0, 4);
}
fn trace(s: &Solver) {
    for c in s.cdb.iter().skip(1) {
        for l in c.iter() {
            sx::trace(of(*l));
        }
    }
}
fn facts(s: &mut Solver, f: &mut F, n: u64, k: usize) -> bool {
    for _ in 0..k {
        let u = code(n);
        f.push(vec![u]);
        match s.asg.assigned(to_lit(u)) {
            None => {
                if s.asg.assign_at_root_level(to_lit(u)).is_err() {
                    return false;
                }
            }
            Some(true) => (),
            Some(false) => return false,
        }
    }
    true
}
fn with_facts(n: u64, shape: &[usize], k: usize) {
    let mut s = empty_solver(n);
    let mut f: F = vec![];
    for l in shape {
        let c = sorted_clause(n, *l);
        add_lits(&mut s, &c);
        f.push(c);
    }
    let m = model(n);
    if !facts(&mut s, &mut f, n, k) {
        return;
    }
    if s.asg.clear_asserted_literals(&mut s.cdb).is_err() {
        sx::reach(1);
        sx::check(f_tv(&f, m) == 0, 5);
        return;
    }
    sx::reach(2);
    no_facts_left(&s);
    equivalent(&s, &f, n, m);
    // the shortened clauses still propagate
    let v = (1..=n).find(|v| s.asg.assign(*v as usize).is_none());
    if let Some(v) = v {
        s.asg.assign_by_decision(to_lit(2 * v + sx::any(1)));
        let r = s.asg.propagate(&mut s.cdb);
        if r.is_ok() {
            sx::check(crate::h_conflict::closed(&s.asg, &f[..shape.len()].to_vec()), 6);
        }
    }
    trace(&s);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_simp_facts() {
    with_facts(4, &[3, 2, 2], 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_simp_facts3() {
    with_facts(4, &[4, 3], 2);
}
/// Backward subsumption alone (no elimination).
fn subsume(s: &mut Solver, f: &F, n: u64, limit: usize) {
    let m = model(n);
    let mut e = Eliminator::instantiate(&s.state.config, &s.state.cnf);
    e.prepare(&mut s.asg, &mut s.cdb, false);
    for (i, c) in s.cdb.iter_mut().enumerate().skip(1) {
        if !c.is_dead() {
            e.enqueue_clause(ClauseId::from(i), c);
        }
    }
    let mut left = limit;
    let before = s.cdb.iter().skip(1).filter(|c| !c.is_dead()).count();
    match e.backward_subsumption_check(&mut s.asg, &mut s.cdb, &mut left) {
        Ok(()) => {
            if s.cdb.iter().skip(1).filter(|c| !c.is_dead()).count() < before {
                sx::reach(2);
            }
            equivalent(s, f, n, m);
        }
        Err(_) => {
            sx::reach(1);
            sx::check(f_tv(f, m) == 0, 5);
            return;
        }
    }
    if s.asg.clear_asserted_literals(&mut s.cdb).is_ok() {
        no_facts_left(s);
        equivalent(s, f, n, m);
    } else {
        sx::check(f_tv(f, m) == 0, 5);
    }
    trace(s);
}
fn sub(n: u64, shape: &[usize]) {
    let mut s = empty_solver(n);
    let mut f: F = vec![];
    for l in shape {
        let c = sorted_clause(n, *l);
        add_lits(&mut s, &c);
        f.push(c);
    }
    subsume(&mut s, &f, n, 1000);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_simp_sub() {
    sub(3, &[2, 3, 3, 2]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_simp_sub3() {
    sub(4, &[3, 4, 2]);
}
/// Facts, then strengthening by them; any work limit.
#[unsafe(no_mangle)]
pub extern "C" fn h_simp_str() {
    const N: u64 = 4;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    for vs in [&[1, 2, 3][..], &[1, 2, 4], &[1, 2]] {
        let c = signs(vs);
        add_lits(&mut s, &c);
        f.push(c);
    }
    if !facts(&mut s, &mut f, N, 2) {
        return;
    }
    let limit = [1, 3, 6, 9, 1000][sx::conc(sx::below(5)) as usize];
    subsume(&mut s, &f, N, limit);
}
/// Learnt clauses take part: a given clause must survive in some form.
#[unsafe(no_mangle)]
pub extern "C" fn h_simp_learnt() {
    const N: u64 = 4;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    // a learnt clause that follows from two given ones by resolution on variable 4
    let a = signs(&[1, 2]);
    let b = signs(&[3]);
    let p = vec![a[0], a[1], 9];
    let q = vec![a[0], b[0], 8];
    let mut l: Vec<Lit> = [a[0], a[1], b[0]].iter().map(|c| to_lit(*c)).collect();
    let first = sx::flag();
    if first {
        s.cdb.new_clause(&mut s.asg, &mut l, true);
    }
    for c in [p, q, {
        let mut w = signs(&[1, 2, 3]);
        w.push(8 + sx::any(1));
        w
    }] {
        add_lits(&mut s, &c);
        f.push(c);
    }
    if !first {
        s.cdb.new_clause(&mut s.asg, &mut l, true);
    }
    subsume(&mut s, &f, N, 1000);
}
/// A learnt clause that subsumes the very clauses it was learnt from: when these go, it must become
/// a given clause, as it is all that is left of them.
#[unsafe(no_mangle)]
pub extern "C" fn h_simp_learnt2() {
    const N: u64 = 4;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    let a = signs(&[1, 2, 3]);
    let mut d = a.clone();
    d.push(9);
    let mut e = a.clone();
    e.push(8);
    let w = signs(&[1, 2]);
    let mut l: Vec<Lit> = a.iter().map(|c| to_lit(*c)).collect();
    let when = sx::conc(sx::below(3));
    for (i, c) in [d, w, e].into_iter().enumerate() {
        if i as u64 == when {
            s.cdb.new_clause(&mut s.asg, &mut l, true);
        }
        add_lits(&mut s, &c);
        f.push(c);
    }
    subsume(&mut s, &f, N, 1000);
}
/// Larger formulas (skeletons with some signs free) with facts and learnt clauses.
fn skel(seeds: u64, n: u64, num: usize, lo: usize, hi: usize, free: usize) {
    let mut r = Rnd::pick(seeds);
    let shape = r.shape(num, lo, hi);
    let mut f = r.formula(n, &shape);
    let learnt = r.derive(n, &mut f, 3, free);
    let mut s = empty_solver(n);
    let early = r.below(f.len() as u64) as usize;
    for (i, c) in f.iter().enumerate() {
        if i == early {
            for c in &learnt[..learnt.len() / 2] {
                learn(&mut s, c);
            }
        }
        add_lits(&mut s, c);
    }
    for c in &learnt[learnt.len() / 2..] {
        learn(&mut s, c);
    }
    for _ in 0..r.below(3) {
        let u = 2 + r.below(2 * n);
        f.push(vec![u]);
        match s.asg.assigned(to_lit(u)) {
            None if s.asg.assign_at_root_level(to_lit(u)).is_ok() => (),
            Some(true) => (),
            _ => return,
        }
    }
    if r.below(3) == 0 && s.asg.clear_asserted_literals(&mut s.cdb).is_err() {
        let m = model(n);
        sx::check(f_tv(&f, m) == 0, 5);
        return;
    }
    let limit = [5, 20, 1000, 1000][r.below(4) as usize];
    subsume(&mut s, &f, n, limit);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_simp_skel() {
    skel(128, 5, 9, 2, 4, 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_simp_skel5() {
    skel(128, 6, 10, 2, 5, 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_simp_skel_x() {
    skel(1024, 6, 11, 2, 5, 5);
}
