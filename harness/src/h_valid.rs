//! The model validator and the injection of assignments.
use crate::{fx::*, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_valid_total", h_valid_total),
    ("h_valid_partial", h_valid_partial),
    ("h_valid_inject", h_valid_inject),
    ("h_valid_inject4", h_valid_inject4),
    ("h_valid_bad", h_valid_bad),
    ("h_valid_skel", h_valid_skel),
    ("h_valid_skelp", h_valid_skelp),
];

fn load(n: u64, shape: &[usize], learnt: &[usize]) -> (Solver, F, F) {
    let mut s = empty_solver(n);
    let mut f: F = vec![];
    let mut extra: F = vec![];
    for k in shape {
        let c = sorted_clause(n, *k);
        add_lits(&mut s, &c);
        f.push(c);
    }
    for k in learnt {
        let c = sorted_clause(n, *k);
        let mut v: Vec<Lit> = c.iter().map(|c| to_lit(*c)).collect();
        s.cdb.new_clause(&mut s.asg, &mut v, true);
        extra.push(c);
    }
    (s, f, extra)
}
/// 1: satisfied, 0: falsified, 2: open
fn eval(c: &[L], val: u64, set: u64) -> u64 {
    let (mut t, mut open) = (0, 0);
    for l in c {
        let s = (set >> (l >> 1)) & 1;
        t |= s & tv(*l, val);
        open |= s ^ 1;
    }
    if t == 1 { 1 } else { 2 * open }
}
fn judge(r: Option<ClauseId>, s: &Solver, f: &F, extra: &F, val: u64, set: u64, strict: bool) {
    let bad = |c: &Vec<L>| {
        let e = eval(c, val, set);
        e == 0 || (strict && e == 2)
    };
    let any = f.iter().any(bad) || (!strict && extra.iter().any(bad));
    match r {
        None => {
            sx::reach(1);
            sx::check(!any, 1);
        }
        Some(id) => {
            sx::reach(2);
            sx::check(any, 2);
            sx::check(!s.cdb[id].is_dead() && bad(&clause_of(&s.cdb[id])), 3);
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_valid_total() {
    const N: u64 = 4;
    let (s, f, extra) = load(N, &[3, 2], &[3]);
    let val = model(N);
    let m: Vec<Option<bool>> = (0..=N).map(|v| Some((val >> v) & 1 == 1)).collect();
    let strict = sx::flag();
    judge(s.cdb.validate(&m, strict), &s, &f, &extra, val, 0xff, strict);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_valid_partial() {
    const N: u64 = 3;
    let (s, f, extra) = load(N, &[3, 2], &[3]);
    let val = model(N);
    let set = model(N);
    let m: Vec<Option<bool>> =
        (0..=N).map(|v| if (set >> v) & 1 == 1 { Some((val >> v) & 1 == 1) } else { None }).collect();
    let strict = sx::flag();
    judge(s.cdb.validate(&m, strict), &s, &f, &extra, val, set, strict);
}
fn inject(n: u64, shape: &[usize], len: usize) {
    let mut s = empty_solver(n);
    let mut f: F = vec![];
    for k in shape {
        let c = if *k == 1 { vec![code(n)] } else { sorted_clause(n, *k) };
        if !add(&mut s, &c) {
            return;
        }
        f.push(c);
    }
    // facts established so far
    let (mut val, mut set) = (0u64, 0u64);
    for v in 1..=n {
        if let Some(b) = s.asg.assign(v as usize) {
            set |= 1 << v;
            val |= (b as u64) << v;
        }
    }
    let list: Vec<L> = (0..len).map(|_| code(n)).collect();
    let v: Vec<i32> = list.iter().map(|l| to_i32(*l)).collect();
    let mut good = true;
    for l in &list {
        let bit = 1u64 << (l >> 1);
        good &= (set & bit == 0) | (tv(*l, val) == 1);
        set |= bit;
        val = (val & !bit) | (bit * (l & 1));
    }
    if s.inject_assignment(&v).is_err() {
        sx::reach(3);
        sx::check(!good, 4);
        return;
    }
    sx::check(good, 5);
    let (mut val2, mut set2) = (0u64, 0u64);
    for v in 1..=n {
        if let Some(b) = s.asg.assign(v as usize) {
            set2 |= 1 << v;
            val2 |= (b as u64) << v;
        }
    }
    sx::check(set2 == set && val2 == val, 6);
    let bad = |c: &Vec<L>| eval(c, val, set) != 1;
    match s.validate() {
        None => {
            sx::reach(1);
            sx::check(!f.iter().any(bad), 7)
        }
        Some(c) => {
            sx::reach(2);
            sx::check(f.iter().any(bad), 8);
            let c: Vec<L> = c.iter().map(|x| of(Lit::from(*x))).collect();
            sx::check(bad(&c), 9);
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_valid_inject() {
    inject(3, &[3, 2, 1], 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_valid_inject4() {
    inject(4, &[4, 2], 4);
}
/// Literals that are no literals.
#[unsafe(no_mangle)]
pub extern "C" fn h_valid_bad() {
    const N: u64 = 3;
    let mut s = empty_solver(N);
    add_lits(&mut s, &[3, 5]);
    let x = sx::any(32) as u32 as i32;
    let valid = x != 0 && x.unsigned_abs() as u64 <= N;
    let v = if sx::flag() { vec![2, x] } else { vec![x] };
    let r = s.inject_assignment(&v);
    if valid {
        let clash = v.len() == 2 && x == -2;
        sx::check(r.is_ok() != clash, 10);
        sx::reach(1);
    } else {
        sx::check(matches!(r, Err(SolverError::InvalidLiteral)), 11);
        sx::reach(2);
    }
    sx::check(matches!(s.inject_assignment(&[]), Err(_)), 12);
}
/// Larger formulas with learnt clauses.
fn skel(seeds: u64, n: u64, num: usize, total: bool) {
    let mut r = Rnd::pick(seeds);
    let shape = r.shape(num, 2, 6);
    let f = r.formula(n, &shape);
    let mut s = empty_solver(n);
    for c in &f {
        add_lits(&mut s, c);
    }
    let shape = r.shape(4, 3, 5);
    let extra = r.formula(n, &shape);
    for c in &extra {
        learn(&mut s, c);
    }
    let val = model(n);
    let set = if total { u64::MAX } else { u64::MAX ^ (1 << (1 + r.below(n))) ^ (1 << (1 + r.below(n))) };
    let m: Vec<Option<bool>> =
        (0..=n).map(|v| if (set >> v) & 1 == 1 { Some((val >> v) & 1 == 1) } else { None }).collect();
    let strict = sx::flag();
    judge(s.cdb.validate(&m, strict), &s, &f, &extra, val, set, strict);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_valid_skel() {
    skel(32, 12, 14, true);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_valid_skelp() {
    skel(32, 12, 14, false);
}
