//! Conflict analysis and clause learning, under decisions chosen by the harness.
use crate::{fx::*, h_prop::trace, sx};
use splr::solver::verif::handle_conflict;

pub const ENTRIES: &[crate::Entry] = &[
    ("h_cf_223", h_cf_223),
    ("h_cf_233", h_cf_233),
    ("h_cf_333", h_cf_333),
    ("h_cf_2222", h_cf_2222),
    ("h_cf_chain", h_cf_chain),
    ("h_cf_deep", h_cf_deep),
    ("h_cf_wide", h_cf_wide),
    ("h_cf_skel", h_cf_skel),
    ("h_cf_skel_x", h_cf_skel_x),
    ("h_cf_skel2", h_cf_skel2),
    ("h_cf_graph", h_cf_graph),
    ("h_cf_graph_x", h_cf_graph_x),
    ("h_cf_graph4", h_cf_graph4),
    ("h_cf_graph_long", h_cf_graph_long),
];

/// Invariants of the trail with respect to F (decisions taken from the trail itself).
pub fn trail_ok(asg: &AssignStack, cdb: &ClauseDB, fm: u64, m: u64) {
    let mut d = fm;
    let mut sound = 1;
    let mut reasons = 1;
    let mut shape = true;
    let mut level = 0;
    let mut seen: Vec<L> = vec![];
    for (i, l) in asg.stack_iter().enumerate() {
        let c = of(*l);
        shape &= asg.assigned(*l) == Some(true);
        match asg.reason(l.vi()) {
            AssignReason::Decision(lv) => {
                if lv > 0 {
                    level += 1;
                    shape &= lv == level && asg.len_upto(level - 1) == i;
                    d &= tv(c, m);
                }
            }
            AssignReason::BinaryLink(p) => {
                shape &= seen.contains(&of(p));
                reasons &= (fm ^ 1) | tv(c, m) | (1 ^ tv(of(p), m));
            }
            AssignReason::Implication(cid) => {
                let cl = clause_of(&cdb[cid]);
                shape &= cl[0] == c && !cdb[cid].is_dead();
                for x in &cl[1..] {
                    shape &= seen.contains(&(x ^ 1));
                }
                reasons &= (fm ^ 1) | clause_tv(&cl, m);
            }
            AssignReason::None => shape = false,
        }
        shape &= asg.level(l.vi()) == level;
        sound &= (d ^ 1) | tv(c, m);
        seen.push(c);
    }
    shape &= level == asg.decision_level();
    sx::check(shape, 10);
    sx::check(sound & reasons == 1, 11);
}
/// After a successful propagation no clause of F is falsified or unit.
pub fn closed(asg: &AssignStack, f: &F) -> bool {
    let mut ok = true;
    for c in f {
        let mut sat = false;
        let mut free = 0;
        for l in c {
            match asg_code(asg, *l) {
                Some(true) => sat = true,
                None => free += 1,
                Some(false) => {}
            }
        }
        ok &= sat | (free >= 2);
    }
    ok
}

/// Handle one conflict and judge the outcome; false when F was refuted.
pub fn conflict(s: &mut Solver, f: &F, n: u64, cc: &ConflictContext, m: u64) -> bool {
    let fm = f_tv(f, m);
    let dl = s.asg.decision_level();
    if dl == s.asg.root_level() {
        sx::reach(1);
        sx::check(fm == 0, 20);
        return false;
    }
    let before: Vec<L> = s.asg.stack_iter().map(|l| of(*l)).collect();
    let lims: Vec<usize> = (0..dl).map(|l| s.asg.len_upto(l)).collect();
    let num = s.cdb.iter().skip(1).filter(|c| !c.is_dead()).count();
    s.asg.update_activity_tick();
    let r = handle_conflict(&mut s.asg, &mut s.cdb, &mut s.state, cc);
    for v in 1..=n {
        sx::check(!s.asg.var(v as usize).is(FlagVar::CA_SEEN), 21);
    }
    let now = s.asg.decision_level();
    match r {
        Err(_) => {
            sx::reach(2);
            sx::check(fm == 0, 22);
            return false;
        }
        Ok(0) => {
            sx::reach(3);
            // a new fact, at the root level
            sx::check(now == s.asg.root_level() && s.asg.stack_len() >= 1, 23);
            sx::check(s.asg.remains(), 24);
        }
        Ok(_) => {
            sx::reach(4);
            // what was learnt: the (only) new clause, if it was not there already
            let live = s.cdb.iter().skip(1).filter(|c| !c.is_dead()).count();
            sx::check(live <= num + 1, 25);
            sx::check(now < dl, 26);
            let keep = lims[now as usize];
            let same = s.asg.stack_iter().take(keep).zip(before.iter()).all(|(a, b)| of(*a) == *b);
            sx::check(same && s.asg.stack_len() >= keep, 27);
            if s.asg.stack_len() > keep {
                // the asserting literal: flipped from the conflicting level, implied by the rest
                sx::check(s.asg.stack_len() == keep + 1, 28);
                let l = s.asg.stack(keep);
                sx::check(before[lims[dl as usize - 1]..].contains(&(of(l) ^ 1)), 29);
                sx::check(s.asg.level(l.vi()) == now && s.asg.remains(), 30);
                // it could not have been asserted any lower
                let top = match s.asg.reason(l.vi()) {
                    AssignReason::BinaryLink(p) => s.asg.level(p.vi()),
                    AssignReason::Implication(cid) => {
                        s.cdb[cid].iter().skip(1).map(|x| s.asg.level(x.vi())).max().unwrap_or(0)
                    }
                    _ => u32::MAX,
                };
                sx::check(top == now, 31);
                if let AssignReason::Implication(cid) = s.asg.reason(l.vi()) {
                    // the second watch has the highest level
                    let c = &s.cdb[cid];
                    sx::check(s.asg.level(c.lit1().vi()) == now, 32);
                    sx::check(c.is(FlagClause::LEARNT), 33);
                }
            } else {
                sx::reach(5);
            }
        }
    }
    trail_ok(&s.asg, &s.cdb, fm, m);
    sx::check(imp(fm, cdb_tv(&s.cdb, m)), 34);
    true
}

/// Search in which the decision variables come in the order 1, 2, ... (then by `rest`).
pub fn search(s: &mut Solver, f: &F, n: u64, conflicts: usize, m: u64) {
    search_by(s, f, n, conflicts, m, &mut |free: &[u64]| 2 * free[0] + 1);
}
/// Search with decisions chosen among the unassigned variables.
pub fn search_by(s: &mut Solver, f: &F, n: u64, conflicts: usize, m: u64, decide: &mut dyn FnMut(&[u64]) -> L) {
    let fm = f_tv(f, m);
    let mut left = conflicts;
    loop {
        if !s.asg.remains() {
            if s.asg.stack_len() == n as usize {
                // a total assignment: a model
                sx::reach(6);
                let mut t = true;
                for c in f {
                    t &= c.iter().any(|l| asg_code(&s.asg, *l) == Some(true));
                }
                sx::check(t, 40);
                break;
            }
            let free: Vec<u64> = (1..=n).filter(|v| s.asg.assign(*v as usize).is_none()).collect();
            s.asg.assign_by_decision(to_lit(decide(&free)));
        }
        let r = s.asg.propagate(&mut s.cdb);
        trail_ok(&s.asg, &s.cdb, fm, m);
        match r {
            Ok(()) => sx::check(closed(&s.asg, f), 41),
            Err(cc) => {
                if !conflict(s, f, n, &cc, m) {
                    break;
                }
                if left == 0 {
                    break;
                }
                left -= 1;
            }
        }
    }
    trace(&s.asg);
    for c in s.cdb.iter().skip(1) {
        if !c.is_dead() {
            for l in c.iter() {
                sx::trace(of(*l));
            }
        }
    }
}
fn shaped(n: u64, shape: &[usize], conflicts: usize) {
    let mut s = empty_solver(n);
    let mut f: F = vec![];
    for k in shape {
        let c = sorted_clause(n, *k);
        add_lits(&mut s, &c);
        f.push(c);
    }
    let m = model(n);
    search(&mut s, &f, n, conflicts, m);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_223() {
    shaped(4, &[2, 2, 3], 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_233() {
    shaped(4, &[2, 3, 3], 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_333() {
    shaped(4, &[3, 3, 3], 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_2222() {
    shaped(3, &[2, 2, 2, 2], 6);
}
/// Implication chains through fixed clauses, with two symbolic clauses: minimization.
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_chain() {
    const N: u64 = 7;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    let neg = |v: u64| 2 * v;
    let pos = |v: u64| 2 * v + 1;
    for c in [
        vec![neg(1), pos(4)],
        vec![neg(1), neg(2), pos(5)],
        vec![neg(4), neg(5), pos(6)],
    ] {
        add_lits(&mut s, &c);
        f.push(c);
    }
    // anything that involves the variables at hand
    for k in [3, 3] {
        let c = sorted_clause(N, k);
        add_lits(&mut s, &c);
        f.push(c);
    }
    let m = model(N);
    search(&mut s, &f, N, 1, m);
}
/// Many decision levels in one learnt clause: the backjump may go further than needed.
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_deep() {
    const N: u64 = 10;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    let mut c: Vec<L> = (1..=8).map(|v| 2 * v).collect();
    c.push(18 + sx::any(1));
    let mut d: Vec<L> = (1..=8).map(|v| 2 * v).collect();
    d.push(18 + sx::below(4));
    for c in [c, d] {
        add_lits(&mut s, &c);
        f.push(c);
    }
    for k in [3] {
        let c = sorted_clause(N, k);
        add_lits(&mut s, &c);
        f.push(c);
    }
    let m = model(N);
    search(&mut s, &f, N, 2, m);
}
/// A learnt clause of several literals, shortened through binary clauses.
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_wide() {
    const N: u64 = 6;
    let mut s = empty_solver(N);
    let mut f: F = vec![vec![2, 4, 6, 8, 11], vec![2, 4, 6, 8, 10]];
    for c in &f {
        add_lits(&mut s, c);
    }
    for k in [2, 2] {
        let c = sorted_clause(N, k);
        add_lits(&mut s, &c);
        f.push(c);
    }
    let m = model(N);
    search(&mut s, &f, N, 2, m);
}
/// Larger formulas: skeletons with some signs free.
fn skel(seeds: u64, n: u64, shape: &[usize], free: usize, conflicts: usize) {
    let mut r = Rnd::pick(seeds);
    let mut s = empty_solver(n);
    let mut f = r.formula(n, shape);
    r.vary(&mut f, free);
    for c in &f {
        add_lits(&mut s, c);
    }
    let m = model(n);
    let mut choose = |free: &[u64]| 2 * free[r.below(free.len() as u64) as usize] + r.below(2);
    search_by(&mut s, &f, n, conflicts, m, &mut choose);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_skel() {
    let mut shape = [3; 28];
    shape[..6].fill(2);
    skel(256, 9, &shape, 5, 10);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_skel2() {
    let mut shape = [2; 26];
    shape[12..20].fill(3);
    shape[20..].fill(4);
    skel(256, 10, &shape, 5, 10);
}
/// Implication graphs: every variable after the decisions is implied by earlier ones, through a
/// binary or a longer clause, and any of them clash.
fn graph(seeds: u64, dec: u64, n: u64, clash: usize) {
    graph_from(seeds, dec, n, clash, 0);
}
/// (the clash is among the variables after `low`)
fn graph_from(seeds: u64, dec: u64, n: u64, clash: usize, low: u64) {
    let mut r = Rnd::pick(seeds);
    let mut s = empty_solver(n);
    let mut f: F = vec![];
    for v in dec + 1..=n {
        let k = 1 + (r.below(3) != 0) as usize + (r.below(4) == 0) as usize;
        let mut c: Vec<L> = vec![];
        while c.len() < k.min(v as usize - 1) {
            // the recent ones rather
            let a = 1 + r.below(v - 1).max(r.below(v - 1));
            if !c.contains(&(2 * a)) {
                c.push(2 * a);
            }
        }
        c.push(2 * v + 1);
        f.push(c);
    }
    let mut c: Vec<L> = vec![];
    for i in 0..clash {
        let v = low + 1 + sx::below(n - low);
        if i > 0 {
            sx::assume(c[i - 1] < 2 * v);
        }
        c.push(2 * v);
    }
    f.push(c);
    for c in &f {
        add_lits(&mut s, c);
    }
    let m = model(n);
    search(&mut s, &f, n, 2, m);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_graph() {
    graph(128, 3, 9, 3);
}
/// Dozens of implications on one level.
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_graph_long() {
    graph_from(16, 3, 62, 2, 53);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_graph4() {
    graph(64, 5, 12, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_graph_x() {
    graph(1024, 4, 11, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cf_skel_x() {
    let mut shape = [3; 36];
    shape[..8].fill(2);
    skel(1024, 12, &shape, 5, 16);
}
