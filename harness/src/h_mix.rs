//! Whole searches whose stages are a few conflicts long: every kind of in-processing happens.
use crate::{fx::*, h_e2e::{to_vecs, verdict}, sx};
use crate::h_conflict::{closed, conflict, trail_ok};
use splr::cdb::ReductionType;
use splr::solver::verif::STAGE_SIZE;
use std::sync::{atomic::Ordering::Relaxed, OnceLock};

/// Where a search by steps is.
#[derive(Clone, Copy, PartialEq)]
pub enum At {
    Step,
    StageEnd,
    Decide,
    Decided,
    Propagate,
    Propagated,
    Conflict,
}
/// Looks on at every step (h_stat).
pub static WATCH: OnceLock<fn(&mut Solver, At)> = OnceLock::new();
fn watch(s: &mut Solver, at: At) {
    if let Some(f) = WATCH.get() {
        f(s, at);
    }
}

pub const ENTRIES: &[crate::Entry] = &[
    ("h_mix_steps", h_mix_steps),
    ("h_mix_dense", h_mix_dense),
    ("h_mix_any", h_mix_any),
    ("h_mix_deep", h_mix_deep),
    ("h_mix_deep2", h_mix_deep2),
    ("h_mix_php", h_mix_php),
    ("h_mix_parity", h_mix_parity),
    ("h_mix_r20", h_mix_r20),
    ("h_mix_r20e", h_mix_r20e),
    ("h_mix_r30", h_mix_r30),
    ("h_mix_r50", h_mix_r50),
    ("h_mix_skel", h_mix_skel),
    ("h_mix_skel12", h_mix_skel12),
    ("h_mix_skel12_x", h_mix_skel12_x),
    ("h_mix_skel5", h_mix_skel5),
];

/// No variable elimination before the search (subsumption remains).
pub fn plain() -> Config {
    Config { elm_var_occ: 0, ..Config::default() }
}
fn run(f: &F, n: u64, config: Config, stage: usize) {
    STAGE_SIZE.store(stage, Relaxed);
    let m = model(n);
    let r = match Solver::try_from((config, to_vecs(f).as_ref())) {
        Ok(mut s) => {
            let r = s.solve();
            if s.state.stm.current_stage() > 0 {
                sx::reach(10);
            }
            if s.state.stm.current_stage() > 2 {
                sx::reach(11);
            }
            if s.state.stm.current_segment() > 1 {
                sx::reach(12);
            }
            if s.state.stm.current_stage() > 6 {
                sx::reach(13);
            }
            if s.state.stm.current_stage() > 12 {
                sx::reach(14);
            }
            sx::trace(s.state.stm.current_stage() as u64);
            r
        }
        Err(Ok(c)) => Ok(c),
        Err(Err(e)) => Err(e),
    };
    verdict(&r, f, n as usize, m);
}
fn php(p: u64, h: u64) -> F {
    let x = |i: u64, j: u64| h * i + j + 1;
    let mut f: F = vec![];
    for i in 0..p {
        f.push((0..h).map(|j| 2 * x(i, j) + 1).collect());
    }
    for j in 0..h {
        for a in 0..p {
            for b in 0..a {
                f.push(vec![2 * x(b, j), 2 * x(a, j)]);
            }
        }
    }
    f
}
/// Pigeons, some of whose clauses are arbitrary.
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_php() {
    let mut f = php(4, 3);
    f[3] = signs(&[10, 11, 12]);
    f[21] = signs(&[9, 12]);
    f.push(sorted_clause(12, 3));
    run(&f, 12, Config::default(), 1);
}
/// x1+x2+x3 (+) chains of parity constraints with free signs.
fn xor(f: &mut F, a: u64, b: u64, c: u64, odd: u64) {
    for i in 0..4u64 {
        let (p, q) = (i & 1, i >> 1);
        // forbid p,q with the wrong third value
        f.push(vec![2 * a + p, 2 * b + q, 2 * c + (1 ^ p ^ q ^ odd)]);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_parity() {
    let mut f: F = vec![];
    xor(&mut f, 1, 2, 3, sx::any(1));
    xor(&mut f, 1, 4, 5, sx::any(1));
    xor(&mut f, 2, 4, 6, sx::any(1));
    xor(&mut f, 3, 5, 6, sx::any(1));
    xor(&mut f, 1, 6, 5, sx::any(1));
    run(&f, 6, plain(), 1);
}
/// A pseudo-random 3-literal formula; the last clauses have arbitrary signs.
pub fn random(n: u64, clauses: usize, free: usize, mut seed: u64) -> F {
    let mut next = |k: u64| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 33) % k
    };
    let mut f: F = vec![];
    while f.len() < clauses {
        let mut v = [1 + next(n), 1 + next(n), 1 + next(n)];
        v.sort();
        if v[0] == v[1] || v[1] == v[2] {
            continue;
        }
        if f.len() + free < clauses {
            f.push(v.iter().map(|v| 2 * v + next(2)).collect());
        } else {
            f.push(signs(&v));
        }
    }
    f
}
fn searches(n: u64, clauses: usize, seeds: u64, base: u64, config: Config) {
    let seed = sx::conc(sx::below(seeds));
    let stage = 1 + sx::conc(sx::below(2)) as usize;
    run(&random(n, clauses, 2, base + seed), n, config, stage);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_r20() {
    searches(20, 92, 8, 20, plain());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_r20e() {
    searches(20, 90, 8, 30, Config::default());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_r30() {
    searches(30, 130, 8, 40, plain());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_r50() {
    searches(50, 214, 2, 50, Config::default());
}
/// The end of a stage, as the search does it; `what` says which in-processing takes place.
/// None: the formula was refuted.
fn stage(s: &mut Solver, what: u64) -> Option<()> {
    s.asg.cancel_until(s.asg.root_level());
    s.cdb.handle(SolverEvent::Restart);
    s.state.handle(SolverEvent::Restart);
    s.asg.select_rephasing_target();
    s.asg.clear_asserted_literals(&mut s.cdb).ok()?;
    if what & 1 != 0 {
        s.cdb.reduce(&mut s.asg, ReductionType::RASonADD(1));
    }
    if what & 2 != 0 {
        s.cdb.reduce(&mut s.asg, ReductionType::LBDonALL(4, 0.0));
        s.asg.select_rephasing_target();
        s.cdb.vivify(&mut s.asg, &mut s.state).ok()?;
    }
    if what & 4 != 0 {
        let mut elim = Eliminator::instantiate(&s.state.config, &s.state.cnf);
        elim.simplify(&mut s.asg, &mut s.cdb, &mut s.state, false).ok()?;
        s.asg.eliminated.append(elim.eliminated_lits());
    }
    s.asg.handle(SolverEvent::Stage(1));
    Some(())
}
/// A search in which the first moves are arbitrary; stage ends may come at any moment.
pub fn steps(s: &mut Solver, f: &F, n: u64, mut ends: usize, (mut given, mut moves): (usize, usize), kinds: &[u64]) {
    let mut when = || {
        if ends == 0 || !sx::flag() {
            return None;
        }
        ends -= 1;
        Some(kinds[if kinds.len() > 1 { sx::conc(sx::below(kinds.len() as u64)) as usize } else { 0 }])
    };
    let mut decide = |free: &[u64]| {
        if given > 0 {
            given -= 1;
            Some(2 * free[0] + 1)
        } else if moves > 0 {
            moves -= 1;
            Some(2 * free[0] + sx::any(1))
        } else {
            None
        }
    };
    steps_by(s, f, n, 40, &mut when, &mut decide);
}
/// `when`: a stage ends here, of this kind; `decide`: a decision, or the solver's own if None.
pub fn steps_by(s: &mut Solver, f: &F, n: u64, mut fuel: usize, when: &mut dyn FnMut() -> Option<u64>, decide: &mut dyn FnMut(&[u64]) -> Option<L>) {
    let m = model(n);
    let fm = f_tv(f, m);
    let mut gone = false;
    loop {
        sx::check(fuel > 0, 50);
        fuel -= 1;
        watch(s, At::Step);
        if let Some(what) = when() {
            if stage(s, what).is_none() {
                sx::reach(2);
                sx::check(fm == 0, 51);
                return;
            }
            gone |= s.asg.num_eliminated_vars > 0;
            watch(s, At::StageEnd);
            sx::check(imp(fm, cdb_tv(&s.cdb, m) & root_tv(&s.asg, n, m)), 52);
            let mut ok = s.asg.decision_level() == s.asg.root_level();
            for v in 1..=n {
                let v = v as usize;
                ok &= s.asg.assign(v).is_none() || s.asg.level(v) == s.asg.root_level();
            }
            sx::check(ok, 53);
            sx::reach(3);
        }
        use splr::assign::property::Tusize::NumUnassignedVar;
        if s.asg.derefer(NumUnassignedVar) == 0 && !s.asg.remains() {
            break;
        }
        if !s.asg.remains() {
            let free: Vec<u64> = (1..=n)
                .filter(|v| s.asg.assign(*v as usize).is_none() && !s.asg.var(*v as usize).is(FlagVar::ELIMINATED))
                .collect();
            let lit = match decide(&free) {
                Some(l) => to_lit(l),
                None => {
                    let l = s.asg.select_decision_literal();
                    sx::check(
                        s.asg.assigned(l).is_none() && !s.asg.var(l.vi()).is(FlagVar::ELIMINATED) && l.vi() as u64 <= n,
                        54,
                    );
                    l
                }
            };
            watch(s, At::Decide);
            s.asg.assign_by_decision(lit);
            watch(s, At::Decided);
        }
        watch(s, At::Propagate);
        let r = s.asg.propagate(&mut s.cdb);
        watch(s, if r.is_ok() { At::Propagated } else { At::Conflict });
        trail_ok(&s.asg, &s.cdb, fm, m);
        match r {
            Ok(()) => {
                if !gone {
                    sx::check(closed(&s.asg, f), 55)
                }
            }
            Err(cc) => {
                sx::reach(4);
                if s.asg.decision_level() == s.asg.root_level() {
                    sx::check(fm == 0, 56);
                    return;
                }
                if !gone {
                    if !conflict(s, f, n, &cc, m) {
                        return;
                    }
                } else {
                    sx::reach(5);
                    s.asg.update_activity_tick();
                    if splr::solver::verif::handle_conflict(&mut s.asg, &mut s.cdb, &mut s.state, &cc).is_err() {
                        sx::check(fm == 0, 57);
                        return;
                    }
                }
            }
        }
    }
    sx::reach(1);
    let model = s.asg.extend_model(&mut s.cdb);
    let mut bits = 0u64;
    for v in 1..=n {
        match model[v as usize] {
            Some(b) => bits |= (b as u64) << v,
            None => sx::check(false, 58),
        }
    }
    sx::trace(bits);
    sx::check(f_tv(f, bits) == 1, 59);
    sx::check(s.cdb.validate(&model, false).is_none(), 60);
}
pub fn with(n: u64, fixed: &[&[L]], free: &[&[u64]]) -> (Solver, F) {
    let mut s = empty_solver(n);
    let mut f: F = fixed.iter().map(|c| c.to_vec()).collect();
    f.extend(free.iter().map(|vs| signs(vs)));
    for c in &f {
        add_lits(&mut s, c);
    }
    (s, f)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_steps() {
    let (mut s, f) = with(4, &[], &[&[1, 2, 3], &[2, 3, 4], &[1, 4]]);
    steps(&mut s, &f, 4, 1, (0, 2), &[0, 1, 2, 4, 6]);
}
/// Denser: conflicts come before and after the stage ends.
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_dense() {
    let (mut s, f) = with(
        5,
        &[&[3, 5, 7], &[2, 4, 9], &[6, 9, 11], &[3, 6, 8], &[2, 8, 10]],
        &[&[1, 4, 5], &[2, 3, 5]],
    );
    steps(&mut s, &f, 5, 2, (0, 2), &[0, 2, 4, 6]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_any() {
    let mut s = empty_solver(4);
    let mut f: F = vec![];
    for k in [3, 3, 2] {
        let c = sorted_clause(4, k);
        add_lits(&mut s, &c);
        f.push(c);
    }
    steps(&mut s, &f, 4, 1, (0, 2), &[6]);
}
/// Learnt clauses over many levels, which reduction may delete.
pub fn deep(ends: usize) {
    let c: Vec<L> = (1..=7).map(|v| 2 * v).collect();
    let mut d = c.clone();
    d.push(16);
    let mut e = c.clone();
    e.push(17);
    let x = 2 + sx::below(6);
    let (mut s, f) = with(9, &[&d, &e, &[2, 2 * x + 1, 18]], &[&[1, 8, 9], &[7, 8]]);
    steps(&mut s, &f, 9, ends, (7, 0), &[0, 1, 2, 6]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_deep() {
    deep(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_deep2() {
    deep(2);
}
/// Larger formulas (skeletons with some signs free); the stage ends come at any moment, too.
pub fn skel(seeds: u64, n: u64, num: usize, lo: usize, hi: usize, free: usize) {
    let r = &mut Rnd::pick(seeds);
    let num = num + r.below(num as u64 / 3) as usize;
    let shape = r.shape(num, lo, hi);
    let mut f = r.formula(n, &shape);
    r.vary(&mut f, free);
    let mut s = empty_solver(n);
    for c in &f {
        add_lits(&mut s, c);
    }
    let mut r2 = Rnd::new(r.next() % 1000);
    let mut ends = 4;
    let mut when = || {
        if ends > 0 && r2.below(4) == 0 {
            ends -= 1;
            Some([0, 1, 2, 2, 3, 4, 4, 6][r2.below(8) as usize])
        } else {
            None
        }
    };
    let mut decide = |free: &[u64]| {
        if r.below(3) > 0 {
            return None;
        }
        Some(2 * free[r.below(free.len() as u64) as usize] + r.below(2))
    };
    steps_by(&mut s, &f, n, 300, &mut when, &mut decide);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_skel() {
    skel(256, 8, 20, 2, 4, 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_skel12() {
    skel(192, 12, 36, 2, 4, 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_skel5() {
    skel(128, 12, 36, 3, 6, 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_mix_skel12_x() {
    skel(1024, 14, 44, 2, 4, 5);
}
