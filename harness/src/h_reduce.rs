//! Deletion of learnt clauses.
use crate::{fx::*, sx};
use splr::cdb::ReductionType;

pub const ENTRIES: &[crate::Entry] = &[
    ("h_reduce_modes", h_reduce_modes),
    ("h_reduce_ranks", h_reduce_ranks),
    ("h_reduce_facts", h_reduce_facts),
    ("h_reduce_reset", h_reduce_reset),
    ("h_reduce_flags", h_reduce_flags),
    ("h_reduce_again", h_reduce_again),
    ("h_reduce_search", h_reduce_search),
    ("h_reduce_search_x", h_reduce_search_x),
];

/// Give variables levels 1..=n: the LBD of a clause is then its number of variables,
/// except that variables for which `join` holds share the level of their predecessor.
fn levels(s: &mut Solver, n: u64, join: u64) {
    for v in 1..=n {
        if v > 1 && (join >> v) & 1 == 1 {
            // same level as the one before
            s.asg.assign_by_implication(to_lit(2 * v), AssignReason::BinaryLink(to_lit(2 * v - 2)), s.asg.decision_level());
        } else {
            s.asg.assign_by_decision(to_lit(2 * v));
        }
    }
    s.asg.cancel_until(s.asg.root_level());
    s.asg.clear_saved_trail();
}
fn mode() -> (ReductionType, u64, usize) {
    let k = sx::conc(sx::below(4));
    match k {
        0 => {
            let n = sx::conc(sx::below(5)) as usize;
            (ReductionType::RASonADD(n), k, n)
        }
        1 => {
            let n = sx::conc(sx::below(5)) as usize;
            (ReductionType::LBDonADD(n), k, n)
        }
        2 => {
            let cutoff = [0.0, 5.0][sx::conc(sx::below(2)) as usize];
            let scale = [0.0, 0.4, 1.0][sx::conc(sx::below(3)) as usize];
            (ReductionType::RASonALL(cutoff, scale), k, 9)
        }
        _ => {
            let cutoff = sx::below(8) as u16;
            let scale = [0.0, 0.4, 1.0][sx::conc(sx::below(3)) as usize];
            (ReductionType::LBDonALL(cutoff, scale), k, 9)
        }
    }
}
/// (literals, learnt?) of every clause; index = clause id.
fn snapshot(s: &Solver) -> Vec<(Vec<L>, bool)> {
    s.cdb.iter().map(|c| (clause_of(c), c.is(FlagClause::LEARNT))).collect()
}
/// Number of the levels that the variables of a clause have, or had last; facts do not count.
fn lbd(s: &Solver, c: &[L]) -> usize {
    let mut lv: Vec<u32> = c.iter().map(|x| s.asg.level((x >> 1) as usize)).filter(|l| *l > 0).collect();
    lv.sort();
    lv.dedup();
    lv.len()
}
fn reduce(s: &mut Solver, n: u64) {
    let (setting, kind, size) = mode();
    reduce_by(s, n, setting, kind, size);
}
fn reduce_by(s: &mut Solver, n: u64, setting: ReductionType, kind: u64, size: usize) {
    delete(s, n, kind, size, |s| s.cdb.reduce(&mut s.asg, setting));
}
fn delete(s: &mut Solver, n: u64, kind: u64, size: usize, how: impl FnOnce(&mut Solver)) {
    let before = snapshot(s);
    how(s);
    let mut ok = true;
    let mut gone = 0;
    let mut learnt = 0;
    let mut live = 0;
    let mut two = 0;
    let mut worst_kept = 0;
    let mut best_gone = usize::MAX;
    for (i, c) in s.cdb.iter().enumerate().skip(1) {
        let (lits, l) = &before[i];
        if c.is_dead() {
            if !lits.is_empty() {
                gone += 1;
                ok &= *l && lits.len() > 2;
                best_gone = best_gone.min(lbd(s, lits));
            }
        } else {
            live += 1;
            let mut now = clause_of(c);
            let mut was = lits.clone();
            now.sort();
            was.sort();
            ok &= now == was && *l == c.is(FlagClause::LEARNT);
            if *l {
                learnt += 1;
                worst_kept = worst_kept.max(lbd(s, lits));
            }
            if now.len() == 2 {
                two += 1;
            }
        }
    }
    sx::check(ok, 1);
    if gone > 0 {
        sx::reach(1);
    }
    sx::check(gone <= size || kind > 1, 2);
    // by LBD: nothing better than a survivor was deleted
    if (kind == 1 || kind == 3) && gone > 0 {
        sx::reach(2);
        sx::check(worst_kept <= best_gone , 3);
    }
    use splr::cdb::property::Tusize::*;
    sx::check(s.cdb.derefer(NumClause) == live && s.cdb.derefer(NumLearnt) == learnt && s.cdb.derefer(NumBiClause) == two, 4);
    for c in s.cdb.iter().skip(1) {
        sx::trace(c.len() as u64);
    }
    // what is left still propagates
    let f: F = s.cdb.iter().skip(1).filter(|c| !c.is_dead()).map(clause_of).collect();
    if f.is_empty() {
        return;
    }
    let m = model(n);
    let mut facts = 1;
    for l in s.asg.stack_iter() {
        facts &= tv(of(*l), m);
    }
    let c = if f.len() < 12 {
        f[sx::conc(sx::below(f.len() as u64)) as usize].clone()
    } else {
        f[f.len() - 1 - 3 * sx::conc(sx::below(4)) as usize].clone()
    };
    let mut d = 1;
    let mut r = Ok(());
    for x in &c[1..] {
        if s.asg.assigned(to_lit(*x)).is_none() {
            s.asg.assign_by_decision(to_lit(x ^ 1));
            d &= tv(x ^ 1, m);
            r = s.asg.propagate(&mut s.cdb);
            if r.is_err() {
                break;
            }
        }
    }
    if r.is_ok() {
        sx::check(crate::h_conflict::closed(&s.asg, &f), 5);
    } else {
        sx::check(f_tv(&f, m) & facts & d == 0, 7);
    }
    crate::h_conflict::trail_ok(&s.asg, &s.cdb, f_tv(&f, m) & facts, m);
}
fn learn(s: &mut Solver, c: &[L]) {
    let mut v: Vec<Lit> = c.iter().map(|c| to_lit(*c)).collect();
    s.cdb.new_clause(&mut s.asg, &mut v, true);
}
fn span(a: u64, b: u64) -> Vec<L> {
    (a..=b).map(|v| 2 * v + 1).collect()
}
/// All modes over a fixed set of clauses, any levels.
#[unsafe(no_mangle)]
pub extern "C" fn h_reduce_modes() {
    const N: u64 = 8;
    let mut s = empty_solver(N);
    let join = (sx::conc(sx::below(8)) << 2) | (sx::conc(sx::below(4)) << 6);
    learn(&mut s, &span(1, 8));
    add_lits(&mut s, &span(2, 7));
    learn(&mut s, &span(1, 6));
    learn(&mut s, &span(1, 2));
    learn(&mut s, &span(3, 5));
    add_lits(&mut s, &span(7, 8));
    learn(&mut s, &span(2, 8));
    levels(&mut s, N, join);
    reduce(&mut s, N);
}
/// A few facts that no clause was cut by yet.
#[unsafe(no_mangle)]
pub extern "C" fn h_reduce_facts() {
    const N: u64 = 10;
    let mut s = empty_solver(N);
    learn(&mut s, &span(1, 9));
    learn(&mut s, &span(2, 10));
    learn(&mut s, &span(3, 9));
    add_lits(&mut s, &span(1, 8));
    learn(&mut s, &span(4, 10));
    let join = sx::conc(sx::below(8)) << 7;
    levels(&mut s, N, join);
    for _ in 0..2 {
        let v = 1 + sx::conc(sx::below(6));
        if s.asg.assigned(to_lit(2 * v)).is_none() {
            let l = if sx::flag() { 2 * v } else { 2 * v + 1 };
            sx::check(s.asg.assign_at_root_level(to_lit(l)).is_ok(), 6);
        }
    }
    sx::check(s.asg.propagate_sandbox(&mut s.cdb).is_ok(), 6);
    let (setting, kind, size) = mode();
    reduce_by(&mut s, N, setting, kind, size);
}
/// Clauses of any length at any place.
#[unsafe(no_mangle)]
pub extern "C" fn h_reduce_ranks() {
    const N: u64 = 8;
    let mut s = empty_solver(N);
    for _ in 0..3 {
        let a = 1 + sx::conc(sx::below(3));
        let b = 5 + 3 * sx::conc(sx::below(2));
        let c = span(a, b);
        if sx::flag() {
            learn(&mut s, &c);
        } else {
            add_lits(&mut s, &c);
        }
    }
    levels(&mut s, N, 0);
    reduce(&mut s, N);
}
/// Any activities.
#[unsafe(no_mangle)]
pub extern "C" fn h_reduce_flags() {
    const N: u64 = 8;
    let mut s = empty_solver(N);
    learn(&mut s, &span(1, 6));
    learn(&mut s, &span(2, 7));
    learn(&mut s, &span(3, 8));
    add_lits(&mut s, &span(1, 7));
    levels(&mut s, N, 0);
    for v in [1, 2, 7, 8] {
        let a = [0.0, 0.5, 1.0][sx::conc(sx::below(3)) as usize];
        s.asg.set_activity(v, a);
    }
    reduce(&mut s, N);
}
/// Slots of deleted clauses are used again.
#[unsafe(no_mangle)]
pub extern "C" fn h_reduce_again() {
    const N: u64 = 8;
    let mut s = empty_solver(N);
    learn(&mut s, &span(1, 8));
    learn(&mut s, &span(1, 7));
    add_lits(&mut s, &span(2, 8));
    levels(&mut s, N, 0);
    s.cdb.reduce(&mut s.asg, ReductionType::LBDonADD(2));
    for _ in 0..2 {
        let k = 2 + sx::conc(sx::below(5));
        let c = span(9 - k, 8);
        if sx::flag() {
            learn(&mut s, &c);
        } else {
            add_lits(&mut s, &c);
        }
    }
    reduce(&mut s, N);
}
/// Learnt clauses deleted all at once, then new ones.
#[unsafe(no_mangle)]
pub extern "C" fn h_reduce_reset() {
    const N: u64 = 8;
    let mut s = empty_solver(N);
    for _ in 0..3 {
        let a = 1 + sx::conc(sx::below(3));
        let b = 3 + a + 2 * sx::conc(sx::below(2));
        let c = span(a, b);
        if sx::flag() {
            learn(&mut s, &c);
        } else {
            add_lits(&mut s, &c);
        }
    }
    learn(&mut s, &span(4, 5));
    levels(&mut s, N, 0);
    delete(&mut s, N, 2, 9, |s| s.cdb.reset());
    s.asg.cancel_until(s.asg.root_level());
    s.asg.clear_saved_trail();
    learn(&mut s, &span(2, 7));
    add_lits(&mut s, &span(1, 6));
    reduce_by(&mut s, N, ReductionType::LBDonADD(2), 1, 2);
}
/// In the course of a search: clauses learnt from conflicts, then a reduction, and on.
#[unsafe(no_mangle)]
pub extern "C" fn h_reduce_search() {
    search(32);
}
fn search(seeds: u64) {
    const N: u64 = 24;
    let mut r = Rnd::pick(seeds);
    let mut shape = vec![6; 60];
    shape.extend([4; 40]);
    let mut f = r.formula(N, &shape);
    r.vary(&mut f, 3);
    let mut s = empty_solver(N);
    for c in &f {
        add_lits(&mut s, c);
    }
    let m = model(N);
    let mut choose = |free: &[u64]| 2 * free[r.below(free.len() as u64) as usize] + r.below(2);
    crate::h_conflict::search_by(&mut s, &f, N, 9, m, &mut choose);
    s.asg.cancel_until(s.asg.root_level());
    if s.asg.propagate_sandbox(&mut s.cdb).is_err() || s.asg.clear_asserted_literals(&mut s.cdb).is_err() {
        sx::check(f_tv(&f, m) == 0, 6);
        return;
    }
    let k = sx::conc(sx::below(4));
    let scale = [0.0, 0.4][r.below(2) as usize];
    let setting = match k {
        0 => ReductionType::RASonADD(3),
        1 => ReductionType::LBDonADD(3),
        2 => ReductionType::RASonALL(0.0, scale),
        _ => ReductionType::LBDonALL(4, scale),
    };
    reduce_by(&mut s, N, setting, k, if k < 2 { 3 } else { 99 });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_reduce_search_x() {
    search(256);
}
