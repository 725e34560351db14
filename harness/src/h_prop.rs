//! Unit propagation, backtracking and trail saving.
use crate::{fx::*, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_bt_33", h_bt_33),
    ("h_bt_22", h_bt_22),
    ("h_prop_333", h_prop_333),
    ("h_prop_52", h_prop_52),
    ("h_prop_233", h_prop_233),
    ("h_prop_42", h_prop_42),
    ("h_prop_62", h_prop_62),
    ("h_sandbox_23", h_sandbox_23),
    ("h_bt_233", h_bt_233),
    ("h_bt_42", h_bt_42),
    ("h_bt_5", h_bt_5),
    ("h_bt_long", h_bt_long),
    ("h_bt_long6", h_bt_long6),
    ("h_prop_huge", h_prop_huge),
    ("h_prop_walk", h_prop_walk),
    ("h_prop_walk_x", h_prop_walk_x),
    ("h_prop_walk2", h_prop_walk2),
    ("h_bt_walk", h_bt_walk),
    ("h_bt_walk_x", h_bt_walk_x),
    ("h_bt_walk2", h_bt_walk2),
    ("h_bt_saved", h_bt_saved),
    ("h_bt_saved_x", h_bt_saved_x),
];

/// What must hold of the assignment stack after propagating `dec` over F.
pub fn judge(asg: &AssignStack, cdb: &ClauseDB, f: &F, dec: &[L], r: &PropagationResult, m: u64) {
    let fm = f_tv(f, m);
    let mut d = fm;
    for l in dec {
        d &= tv(*l, m);
    }
    // every assigned literal is entailed by F and the decisions
    let mut sound = 1;
    // and its recorded reason is a clause entailed by F that was unit when it was assigned
    let mut reasons = 1;
    let mut seen: Vec<L> = vec![];
    let mut level = 0;
    let mut levels = true;
    let mut nd = 0;
    for (i, l) in asg.stack_iter().enumerate() {
        let c = of(*l);
        sound &= (d ^ 1) | tv(c, m);
        sx::check(asg.assigned(*l) == Some(true), 10);
        match asg.reason(l.vi()) {
            AssignReason::Decision(lv) => {
                if lv > 0 {
                    level += 1;
                    levels &= asg.len_upto(level - 1) == i;
                    levels &= lv == level;
                    sx::check(nd < dec.len() && dec[nd] == c, 11);
                    nd += 1;
                }
            }
            AssignReason::BinaryLink(p) => {
                sx::check(seen.contains(&of(p)), 12);
                reasons &= (fm ^ 1) | tv(c, m) | (1 ^ tv(of(p), m));
            }
            AssignReason::Implication(cid) => {
                let cl = clause_of(&cdb[cid]);
                sx::check(cl[0] == c, 13);
                for x in &cl[1..] {
                    sx::check(seen.contains(&(x ^ 1)), 14);
                }
                reasons &= (fm ^ 1) | clause_tv(&cl, m);
            }
            AssignReason::None => sx::check(false, 15),
        }
        levels &= asg.level(l.vi()) == level;
        seen.push(c);
    }
    sx::check(sound == 1, 1);
    sx::check(reasons == 1, 16);
    sx::check(levels & (level == asg.decision_level()), 17);
    match r {
        Ok(()) => {
            let mut ok = true;
            for c in f {
                let mut sat = false;
                let mut free = 0;
                for l in c {
                    match asg_code(asg, *l) {
                        Some(true) => sat = true,
                        None => free += 1,
                        Some(false) => {}
                    }
                }
                ok &= sat | (free >= 2);
            }
            sx::check(ok, 2);
            sx::check(!asg.remains(), 18);
        }
        Err((l, reason)) => {
            sx::reach(1);
            // the decisions are inconsistent with F, and the reported clause is falsified
            let mut c = vec![of(*l)];
            match reason {
                AssignReason::BinaryLink(p) => c.push(of(*p) ^ 1),
                AssignReason::Implication(cid) => {
                    c = clause_of(&cdb[*cid]);
                    sx::check(c[0] == of(*l), 9);
                }
                _ => sx::check(false, 8),
            }
            for x in &c {
                sx::check(asg_code(asg, *x) == Some(false), 4);
            }
            sx::check((d == 0) & imp(fm, clause_tv(&c, m)), 3);
        }
    }
}
pub fn trace(asg: &AssignStack) {
    for l in asg.stack_iter() {
        sx::trace(of(*l));
    }
    sx::trace(asg.decision_level() as u64);
}

/// The first clause has the variables 1..=k (up to renaming of variables); all signs are symbolic.
fn formula(n: u64, shape: &[usize]) -> F {
    shape
        .iter()
        .enumerate()
        .map(|(i, k)| if i == 0 { signs(&(1..=*k as u64).collect::<Vec<_>>()) } else { sorted_clause(n, *k) })
        .collect()
}
/// A positive literal: signs are symmetric while the signs in the formula are arbitrary.
fn positive(n: u64) -> L {
    2 * sx::below(n) + 3
}

/// Decide `steps` symbolic literals, propagating and judging after each.
fn decide_all(n: u64, shape: &[usize], steps: usize) {
    let mut s = empty_solver(n);
    let f: F = formula(n, shape);
    for c in &f {
        add_lits(&mut s, c);
    }
    let m = model(n);
    let mut dec = vec![];
    for _ in 0..steps {
        let l = positive(n);
        sx::assume(s.asg.assigned(to_lit(l)).is_none());
        dec.push(l);
        s.asg.assign_by_decision(to_lit(l));
        let r = s.asg.propagate(&mut s.cdb);
        judge(&s.asg, &s.cdb, &f, &dec, &r, m);
        if r.is_err() || s.asg.stack_len() == n as usize {
            break;
        }
    }
    trace(&s.asg);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_prop_233() {
    decide_all(4, &[2, 3, 3], 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_prop_42() {
    decide_all(4, &[4, 2], 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_prop_62() {
    decide_all(6, &[6, 2], 5);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_prop_333() {
    decide_all(4, &[3, 3, 3], 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_prop_52() {
    decide_all(5, &[5, 2], 4);
}

/// propagate_sandbox / backtrack_sandbox
#[unsafe(no_mangle)]
pub extern "C" fn h_sandbox_23() {
    const N: u64 = 4;
    let mut s = empty_solver(N);
    let f: F = formula(N, &[4, 2]);
    for c in &f {
        add_lits(&mut s, c);
    }
    let m = model(N);
    for round in 0..2 {
        let mut dec = vec![];
        for _ in 0..(if round == 0 { 3 } else { 2 }) {
            let l = if round == 0 { positive(N) } else { code(N) };
            sx::assume(s.asg.assigned(to_lit(l)).is_none());
            dec.push(l);
            s.asg.assign_by_decision(to_lit(l));
            let r = s.asg.propagate_sandbox(&mut s.cdb);
            judge(&s.asg, &s.cdb, &f, &dec, &r, m);
            if r.is_err() || s.asg.stack_len() == N as usize {
                break;
            }
        }
        trace(&s.asg);
        s.asg.backtrack_sandbox();
        sx::check(s.asg.decision_level() == 0 && s.asg.stack_len() == 0 && !s.asg.remains(), 20);
        for v in 1..=N {
            sx::check(s.asg.assign(v as usize).is_none() && s.asg.reason(v as usize) == AssignReason::None, 21);
        }
    }
}

/// A history of decisions and backjumps; afterwards the search can be completed.
fn history(n: u64, shape: &[usize], first: usize, more: usize) {
    let mut s = empty_solver(n);
    let f: F = formula(n, shape);
    for c in &f {
        add_lits(&mut s, c);
    }
    let m = model(n);
    let mut dec: Vec<L> = vec![];
    let mut failed = false;
    for _ in 0..first {
        let l = positive(n);
        sx::assume(s.asg.assigned(to_lit(l)).is_none());
        dec.push(l);
        s.asg.assign_by_decision(to_lit(l));
        let r = s.asg.propagate(&mut s.cdb);
        if r.is_err() || s.asg.stack_len() == n as usize {
            failed = r.is_err();
            break;
        }
    }
    // backjump to a symbolic lower level
    let lv = sx::below(first as u64);
    sx::assume(lv < dec.len() as u64);
    let lv = sx::conc(lv) as usize;
    let keep: Vec<(Lit, u32, AssignReason)> = s
        .asg
        .stack_iter()
        .take(s.asg.len_upto(lv as u32))
        .map(|l| (*l, s.asg.level(l.vi()), s.asg.reason(l.vi())))
        .collect();
    s.asg.cancel_until(lv as u32);
    dec.truncate(lv);
    sx::check(s.asg.decision_level() as usize == lv && s.asg.stack_len() == keep.len(), 30);
    let mut left = 0;
    for (i, (l, lvl, r)) in keep.iter().enumerate() {
        sx::check(s.asg.stack(i) == *l && s.asg.level(l.vi()) == *lvl && s.asg.reason(l.vi()) == *r, 31);
        sx::check(s.asg.assigned(*l) == Some(true), 32);
    }
    for v in 1..=n {
        left += s.asg.assign(v as usize).is_some() as usize;
    }
    sx::check(left == keep.len(), 33);
    let _ = failed;
    // go on from there
    for _ in 0..more {
        let l = code(n);
        sx::assume(s.asg.assigned(to_lit(l)).is_none());
        dec.push(l);
        s.asg.assign_by_decision(to_lit(l));
        let r = s.asg.propagate(&mut s.cdb);
        judge(&s.asg, &s.cdb, &f, &dec, &r, m);
        trace(&s.asg);
        if r.is_err() {
            sx::reach(2);
            let top = s.asg.decision_level();
            s.asg.cancel_until(top - 1);
            dec.pop();
            break;
        }
        if s.asg.stack_len() == n as usize {
            break;
        }
    }
    // complete the assignment with the solver's own choices: no variable may have been lost
    for _ in 0..n {
        if s.asg.stack_len() == n as usize {
            sx::reach(3);
            let mut t = 1;
            for c in &f {
                t &= c.iter().any(|l| asg_code(&s.asg, *l) == Some(true)) as u64;
            }
            sx::check(t == 1, 34);
            break;
        }
        let l = s.asg.select_decision_literal();
        sx::check(s.asg.assigned(l).is_none(), 35);
        dec.push(of(l));
        s.asg.assign_by_decision(l);
        let r = s.asg.propagate(&mut s.cdb);
        judge(&s.asg, &s.cdb, &f, &dec, &r, m);
        if r.is_err() {
            break;
        }
    }
    trace(&s.asg);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_233() {
    history(4, &[2, 3, 3], 3, 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_42() {
    history(4, &[4, 2], 3, 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_5() {
    history(5, &[5], 5, 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_33() {
    history(4, &[3, 3], 3, 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_22() {
    history(5, &[2, 2], 4, 1);
}
/// A long clause loses its literals in any order, some come back, and it loses literals again.
fn long(n: u64, first: usize, any: bool) {
    let mut s = empty_solver(n);
    let f: F = vec![(1..=n).map(|v| 2 * v + if any { sx::any(1) } else { v & 1 }).collect()];
    add_lits(&mut s, &f[0]);
    let m = model(n);
    let mut dec: Vec<L> = vec![];
    let fall = |s: &mut Solver, dec: &mut Vec<L>| {
        let v = sx::conc(sx::below(n)) as usize;
        let l = f[0][v] ^ 1;
        if s.asg.assigned(to_lit(l)).is_some() {
            return false;
        }
        dec.push(l);
        s.asg.assign_by_decision(to_lit(l));
        let r = s.asg.propagate(&mut s.cdb);
        judge(&s.asg, &s.cdb, &f, dec, &r, m);
        r.is_ok() && s.asg.stack_len() < n as usize
    };
    for _ in 0..first {
        if !fall(&mut s, &mut dec) {
            return;
        }
    }
    let lv = sx::conc(sx::below(first as u64)) as usize;
    s.asg.cancel_until(lv as u32);
    dec.truncate(lv);
    while fall(&mut s, &mut dec) {
        sx::reach(1);
    }
    trace(&s.asg);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_long() {
    long(5, 3, true);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_long6() {
    long(6, 4, false);
}
/// Larger formulas (skeletons with some signs free) and longer histories of decisions, backjumps
/// and choices of the solver itself.
fn walk(seeds: u64, n: u64, clauses: usize, (lo, hi): (usize, usize), free: usize, steps: usize, back: u64) {
    let mut r = Rnd::pick(seeds);
    let shape = r.shape(clauses, lo, hi);
    let mut f = r.formula(n, &shape);
    r.vary(&mut f, free);
    let mut s = empty_solver(n);
    for c in &f {
        add_lits(&mut s, c);
    }
    let m = model(n);
    let mut dec: Vec<L> = vec![];
    let full = |s: &Solver| s.asg.stack_len() == n as usize;
    for _ in 0..steps {
        let conflict = if full(&s) || (!dec.is_empty() && r.below(8) < back) {
            true
        } else {
            let l = if r.below(3) == 0 {
                s.asg.select_decision_literal()
            } else {
                let free: Vec<u64> = (1..=n).filter(|v| s.asg.assign(*v as usize).is_none()).collect();
                to_lit(2 * free[r.below(free.len() as u64) as usize] + r.below(2))
            };
            sx::check(s.asg.assigned(l).is_none(), 35);
            dec.push(of(l));
            s.asg.assign_by_decision(l);
            let p = s.asg.propagate(&mut s.cdb);
            judge(&s.asg, &s.cdb, &f, &dec, &p, m);
            p.is_err()
        };
        if conflict {
            sx::reach(2);
            let lv = r.below(dec.len() as u64) as u32;
            let keep: Vec<Lit> = s.asg.stack_iter().take(s.asg.len_upto(lv)).copied().collect();
            s.asg.cancel_until(lv);
            dec.truncate(lv as usize);
            sx::check(s.asg.decision_level() == lv && s.asg.stack_iter().copied().eq(keep), 36);
        }
    }
    // the solver's own choices complete the assignment, unless they conflict
    for _ in 0..=n {
        if full(&s) {
            sx::reach(3);
            sx::check(f.iter().all(|c| c.iter().any(|l| asg_code(&s.asg, *l) == Some(true))), 34);
            break;
        }
        let l = s.asg.select_decision_literal();
        sx::check(s.asg.assigned(l).is_none(), 35);
        dec.push(of(l));
        s.asg.assign_by_decision(l);
        let p = s.asg.propagate(&mut s.cdb);
        judge(&s.asg, &s.cdb, &f, &dec, &p, m);
        if p.is_err() {
            break;
        }
    }
    trace(&s.asg);
}
/// Many implications, and after a backjump mostly literals that were true before it, or their
/// negations: the saved assignments meet new ones of every kind.
fn replay(seeds: u64, n: u64, (two, three): (usize, usize), free: usize, steps: usize) {
    use splr::assign::property::Tusize::*;
    let mut r = Rnd::pick(seeds);
    let mut shape = vec![2; two];
    shape.extend(vec![3; three]);
    let mut f = r.formula(n, &shape);
    r.vary(&mut f, free);
    let mut s = empty_solver(n);
    for c in &f {
        add_lits(&mut s, c);
    }
    let m = model(n);
    for v in 1..=n {
        s.asg.set_activity(v as usize, r.below(3) as f64 / 2.0);
    }
    // a saved assignment whose reason has a high rank is not replayed
    let all: Vec<ClauseId> = (1..s.cdb.len()).map(ClauseId::from).collect();
    for cid in all {
        s.cdb[cid].rank = 8 * r.below(2) as u16;
    }
    let mut dec: Vec<L> = vec![];
    let mut old: Vec<Lit> = vec![];
    let mut reconflicts = 0;
    for _ in 0..steps {
        let again: Vec<Lit> = old.iter().copied().filter(|l| s.asg.assigned(*l).is_none()).collect();
        let conflict = if s.asg.stack_len() == n as usize {
            true
        } else {
            let l = if !again.is_empty() && r.below(2) == 0 {
                let l = again[r.below(again.len().min(6) as u64) as usize];
                if r.below(3) == 0 { !l } else { l }
            } else {
                let l = s.asg.select_decision_literal();
                sx::check(s.asg.assigned(l).is_none(), 35);
                l
            };
            dec.push(of(l));
            s.asg.assign_by_decision(l);
            let p = s.asg.propagate(&mut s.cdb);
            judge(&s.asg, &s.cdb, &f, &dec, &p, m);
            if s.asg.derefer(NumReconflict) > reconflicts {
                sx::reach(if matches!(p, Err((_, AssignReason::BinaryLink(_)))) { 5 } else { 6 });
            }
            p.is_err()
        };
        if conflict {
            sx::reach(2);
            let lv = r.below(dec.len() as u64) as u32;
            let keep = s.asg.len_upto(lv);
            old = s.asg.stack_iter().skip(keep).copied().collect();
            s.asg.cancel_until(lv);
            dec.truncate(lv as usize);
            if s.asg.derefer(NumReconflict) > reconflicts {
                reconflicts += 1;
                if r.below(2) == 0 {
                    break;
                }
            }
        }
    }
    if reconflicts > 0 {
        sx::reach(4);
    }
    // no variable got lost
    #[cfg(any(feature = "std", feature = "fa", feature = "fd"))]
    s.asg.clear_saved_trail();
    for _ in 0..n {
        if s.asg.stack_len() == n as usize {
            break;
        }
        let l = s.asg.select_decision_literal();
        sx::check(s.asg.assigned(l).is_none(), 35);
        dec.push(of(l));
        s.asg.assign_by_decision(l);
    }
    sx::check(s.asg.stack_len() == n as usize, 37);
    trace(&s.asg);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_saved() {
    replay(256, 12, (12, 6), 4, 24);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_saved_x() {
    replay(1024, 20, (22, 12), 4, 40);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_prop_walk() {
    walk(128, 9, 14, (2, 5), 4, 12, 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_prop_walk2() {
    walk(128, 12, 12, (3, 7), 4, 16, 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_walk() {
    walk(128, 9, 10, (2, 5), 4, 16, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_walk2() {
    walk(128, 12, 10, (3, 7), 4, 24, 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_prop_walk_x() {
    walk(1024, 10, 16, (2, 6), 5, 16, 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bt_walk_x() {
    walk(1024, 10, 12, (2, 6), 5, 24, 3);
}
/// A clause of more literals than 16 bits can count: all of them but one are made false, those
/// about the limit last, in any of several orders, and the one that is left follows.
#[unsafe(no_mangle)]
pub extern "C" fn h_prop_huge() {
    const N: u64 = 65_544;
    const LOW: u64 = 65_530;
    let mut s = empty_solver(N);
    let mut v: Vec<Lit> = (1..=N).map(|v| to_lit(2 * v + 1)).collect();
    sx::check(matches!(s.cdb.new_clause(&mut s.asg, &mut v, false), RefClause::Clause(_)), 1);
    let sandbox = sx::conc(sx::below(2)) == 1;
    let last = LOW + sx::conc(sx::below(N - LOW + 1));
    let (first, step) = (7 * sx::conc(sx::below(2)), 2 * sx::conc(sx::below(2)) + 1);
    let mut order: Vec<u64> = (1..LOW).collect();
    // (15 of them: any step but a divisor visits each)
    let span = N - LOW + 1;
    order.extend((0..span).map(|i| LOW + (first + i * (step + 1)) % span));
    for v in order {
        if v != last {
            if s.asg.assign(v as usize).is_some() {
                sx::check(false, 2);
            }
            s.asg.assign_by_decision(to_lit(2 * v));
            let r = if sandbox { s.asg.propagate_sandbox(&mut s.cdb) } else { s.asg.propagate(&mut s.cdb) };
            sx::check(r.is_ok(), 3);
        }
    }
    sx::check(s.asg.assign(last as usize) == Some(true), 4);
    sx::reach(1);
}
