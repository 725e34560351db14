//! Insertion of clauses and assumptions.
use crate::{fx::*, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_load_221", h_load_221),
    ("h_load_3x", h_load_3x),
    ("h_load_mix", h_load_mix),
    ("h_load_mix3", h_load_mix3),
    ("h_load_vec", h_load_vec),
    ("h_load_bad", h_load_bad),
    ("h_load_5", h_load_5),
    ("h_load_skel", h_load_skel),
    ("h_load_skelv", h_load_skelv),
];

fn meaning(s: &Solver, n: u64, m: u64) -> u64 {
    cdb_tv(&s.cdb, m) & root_tv(&s.asg, n, m)
}
fn judge(s: &Solver, n: u64, f: &F, m: u64) {
    let fm = f_tv(f, m);
    let got = meaning(s, n, m);
    sx::check(imp(fm, got), 1);
    sx::check(imp(got, fm), 2);
    // no assignments but facts; stored clauses are proper
    sx::check(s.asg.decision_level() == s.asg.root_level(), 3);
    let mut ok = true;
    for c in s.cdb.iter().skip(1) {
        if !c.is_dead() {
            let c = clause_of(c);
            ok &= c.len() >= 2;
            for (i, a) in c.iter().enumerate() {
                for b in &c[..i] {
                    ok &= (a >> 1) != (b >> 1);
                }
            }
        }
    }
    sx::check(ok, 4);
    sx::check(s.asg.num_vars as u64 == n, 5);
}
fn trace(s: &Solver) {
    for c in s.cdb.iter().skip(1) {
        for l in c.iter() {
            sx::trace(of(*l));
        }
    }
    for l in s.asg.stack_iter() {
        sx::trace(of(*l));
    }
}
fn clauses(n: u64, shape: &[usize]) {
    let mut s = empty_solver(n);
    let m = model(n);
    let mut f: F = vec![];
    for k in shape {
        let c: Vec<L> = (0..*k).map(|_| code(n)).collect();
        f.push(c.clone());
        if !add(&mut s, &c) {
            sx::reach(1);
            sx::check(f_tv(&f, m) == 0, 6);
            return;
        }
        judge(&s, n, &f, m);
    }
    trace(&s);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_load_221() {
    clauses(2, &[2, 1, 2]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_load_3x() {
    clauses(3, &[1, 3, 2]);
}
/// Clauses and assumptions in any order.
fn mix(n: u64, steps: usize) {
    let mut s = empty_solver(n);
    let m = model(n);
    let mut f: F = vec![];
    for _ in 0..steps {
        let k = sx::conc(sx::below(3)) as usize;
        let c: Vec<L> = (0..k.max(1)).map(|_| code(n)).collect();
        f.push(c.clone());
        let ok = if k == 0 { s.add_assignment(to_i32(c[0])).is_ok() } else { add(&mut s, &c) };
        if !ok {
            sx::reach(1);
            sx::check(f_tv(&f, m) == 0, 6);
            return;
        }
        judge(&s, n, &f, m);
    }
    trace(&s);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_load_mix() {
    mix(2, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_load_mix3() {
    mix(3, 3);
}
/// The one-shot constructor.
#[unsafe(no_mangle)]
pub extern "C" fn h_load_vec() {
    const N: u64 = 3;
    let m = model(N);
    let f: F = [3, 2, 1].iter().map(|k| (0..*k).map(|_| code(N)).collect()).collect();
    let v: Vec<Vec<i32>> = f.iter().map(|c| c.iter().map(|l| to_i32(*l)).collect()).collect();
    let max = f.iter().flatten().map(|l| sx::conc(l >> 1)).max().unwrap();
    match Solver::try_from((Config::default(), v.as_ref())) {
        Ok(s) => judge(&s, max, &f, m),
        Err(e) => {
            sx::reach(1);
            sx::check(matches!(e, Ok(Certificate::UNSAT) | Err(SolverError::EmptyClause)), 7);
            sx::check(f_tv(&f, m) == 0, 6);
        }
    }
}
/// Any 32-bit integer as a literal.
#[unsafe(no_mangle)]
pub extern "C" fn h_load_bad() {
    const N: u64 = 3;
    let mut s = empty_solver(N);
    add_lits(&mut s, &[3, 5]);
    let x = sx::any(32) as u32 as i32;
    let valid = x != 0 && x.unsigned_abs() as u64 <= N;
    let how = sx::conc(sx::below(4));
    let r = match how {
        0 => s.add_assignment(x).map(|_| ()),
        1 => s.add_clause(vec![x]).map(|_| ()),
        2 => s.add_clause(vec![1, x]).map(|_| ()),
        _ => s.add_clause(vec![x, 2, -3]).map(|_| ()),
    };
    if valid {
        sx::reach(1);
        sx::check(r.is_ok(), 11);
    } else {
        sx::reach(2);
        sx::check(matches!(r, Err(SolverError::InvalidLiteral)), 12);
        let f: F = vec![vec![3, 5]];
        let m = model(N);
        judge(&s, N, &f, m);
        sx::check(s.asg.stack_len() == 0 && s.cdb.iter().skip(1).count() == 1, 13);
    }
}
/// A longer clause, literals repeated or not, after a fact.
#[unsafe(no_mangle)]
pub extern "C" fn h_load_5() {
    clauses(2, &[1, 5]);
}
/// Longer sequences (skeletons with some literals free): repeated and opposite literals, facts.
fn sequence(seeds: u64, n: u64, num: usize, hi: usize, free: usize) -> F {
    let mut r = Rnd::pick(seeds);
    let shape = r.shape(num, 1, hi);
    let mut f: F = shape.iter().map(|k| (0..*k).map(|_| 2 + r.below(2 * n)).collect()).collect();
    for _ in 0..free {
        let i = r.below(num as u64) as usize;
        let j = r.below(f[i].len() as u64) as usize;
        f[i][j] = code(n);
    }
    f
}
#[unsafe(no_mangle)]
pub extern "C" fn h_load_skel() {
    const N: u64 = 6;
    let mut s = empty_solver(N);
    let m = model(N);
    let mut f: F = vec![];
    for c in sequence(64, N, 7, 6, 2) {
        let ok = if c.len() == 1 && f.len() % 2 == 0 { s.add_assignment(to_i32(c[0])).is_ok() } else { add(&mut s, &c) };
        f.push(c);
        if !ok {
            sx::reach(1);
            sx::check(f_tv(&f, m) == 0, 6);
            return;
        }
        judge(&s, N, &f, m);
    }
    trace(&s);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_load_skelv() {
    const N: u64 = 6;
    let m = model(N);
    let mut f: F = sequence(32, N, 8, 6, 2);
    f.push(vec![3, 4, 13]); // all the variables are there
    let v: Vec<Vec<i32>> = f.iter().map(|c| c.iter().map(|l| to_i32(*l)).collect()).collect();
    match Solver::try_from((Config::default(), v.as_ref())) {
        Ok(s) => judge(&s, N, &f, m),
        Err(e) => {
            sx::reach(1);
            sx::check(matches!(e, Ok(Certificate::UNSAT) | Err(SolverError::EmptyClause)), 7);
            sx::check(f_tv(&f, m) == 0, 6);
        }
    }
}
