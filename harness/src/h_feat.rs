//! Whole runs with other cargo features of splr (the build decides which).
use crate::h_e2e::{max_var, to_vecs, verdict};
use crate::{fx::*, sx};
use splr::solver::verif::STAGE_SIZE;
use std::sync::atomic::Ordering::Relaxed;

pub const ENTRIES: &[crate::Entry] = &[
    ("h_feat_any", h_feat_any),
    ("h_feat_b5", h_feat_b5),
    ("h_feat_skel", h_feat_skel),
    ("h_feat_skel8", h_feat_skel8),
    ("h_feat_r20", h_feat_r20),
    ("h_feat_r30", h_feat_r30),
    ("h_feat_incr", h_feat_incr),
    ("h_feat_sls", h_feat_sls),
    ("h_feat_sat", h_feat_sat),
];

fn run(f: &F, n: u64, config: Config, stage: usize) {
    STAGE_SIZE.store(stage, Relaxed);
    let m = model(n);
    let r = match Solver::try_from((config, to_vecs(f).as_ref())) {
        Ok(mut s) => {
            let r = s.solve();
            for (i, k) in [0, 2, 6, 12].iter().enumerate() {
                if s.state.stm.current_stage() > *k {
                    sx::reach(10 + i as u32);
                }
            }
            sx::trace(s.state.stm.current_stage() as u64);
            r
        }
        Err(Ok(c)) => Ok(c),
        Err(Err(SolverError::EmptyClause)) => Ok(Certificate::UNSAT),
        Err(Err(e)) => Err(e),
    };
    verdict(&r, f, n as usize, m);
}
/// Three clauses of 3, 2, 1 literals over any literals.
#[unsafe(no_mangle)]
pub extern "C" fn h_feat_any() {
    let f: F = [3, 2, 1].iter().map(|k| (0..*k).map(|_| code(3)).collect()).collect();
    run(&f, max_var(&f) as u64, Config::default(), 1);
}
/// Binary clauses: many binary learnt clauses.
#[unsafe(no_mangle)]
pub extern "C" fn h_feat_b5() {
    let f: F = [2, 2, 2, 2].iter().map(|k| sorted_clause(3, *k)).collect();
    run(&f, max_var(&f) as u64, Config::default(), 1);
}
/// Skeletons, stages of one or two conflicts.
fn skel(seeds: u64, n: u64, num: usize, lo: usize, hi: usize, free: usize) {
    let mut r = Rnd::pick(seeds);
    let num = num + r.below(num as u64 / 2) as usize;
    let shape = r.shape(num, lo, hi);
    let mut f = r.formula(n, &shape);
    let plain = r.below(2) == 0;
    let stage = 1 + r.below(2) as usize;
    r.vary(&mut f, free);
    let config = if plain { crate::h_mix::plain() } else { Config::default() };
    let nv = max_var(&f) as u64;
    run(&f, nv, config, stage);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_feat_skel() {
    skel(64, 7, 18, 2, 4, 6);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_feat_skel8() {
    skel(128, 9, 26, 2, 4, 5);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_feat_r20() {
    let seed = sx::conc(sx::below(8));
    let config = if seed & 1 == 0 { crate::h_mix::plain() } else { Config::default() };
    run(&crate::h_mix::random(20, 90, 3, 60 + seed), 20, config, 1 + (seed as usize >> 1 & 1));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_feat_r30() {
    let seed = sx::conc(sx::below(8));
    run(&crate::h_mix::random(30, 128, 2, 80 + seed), 30, crate::h_mix::plain(), 1);
}
/// Clauses and assumptions added one after another.
#[unsafe(no_mangle)]
pub extern "C" fn h_feat_incr() {
    STAGE_SIZE.store(1, Relaxed);
    let n = 7;
    let mut r = Rnd::pick(64);
    let shape = r.shape(16, 2, 4);
    let mut f = r.formula(n, &shape);
    r.vary(&mut f, 5);
    let m = model(n);
    let mut s = empty_solver_cfg(n, crate::h_mix::plain());
    for (i, c) in f.iter().enumerate() {
        if i == 8 && s.add_assignment(to_i32(f[0][0])).is_err() {
            let mut g: F = f[..8].to_vec();
            g.push(vec![f[0][0]]);
            sx::check(f_tv(&g, m) == 0, 20);
            return;
        }
        let v: Vec<i32> = c.iter().map(|l| to_i32(*l)).collect();
        if s.add_clause(v).is_err() {
            let mut g: F = f[..i + 1].to_vec();
            if i >= 8 {
                g.push(vec![f[0][0]]);
            }
            sx::check(f_tv(&g, m) == 0, 21);
            return;
        }
    }
    f.push(vec![f[0][0]]);
    let r = s.solve();
    verdict(&r, &f, n as usize, m);
}

/// Local search steps on any state of the solver: it counts rightly and does nothing else.
#[unsafe(no_mangle)]
pub extern "C" fn h_feat_sls() {
    use splr::cdb::StochasticLocalSearchIF;
    let n = 6;
    let mut r = Rnd::pick(16);
    let shape = r.shape(10, 2, 4);
    let mut f = r.formula(n, &shape);
    r.vary(&mut f, 6);
    let mut s = empty_solver(n);
    for c in &f {
        if !add(&mut s, c) {
            return;
        }
    }
    let m = model(n);
    let before = cdb_tv(&s.cdb, m) & root_tv(&s.asg, n, m);
    let mut a = s.asg.best_phases_ref(Some(false));
    let bits = |a: &std::collections::HashMap<usize, bool>| {
        let mut b = 0u64;
        for v in 1..=n {
            b |= (a[&(v as usize)] as u64) << v;
        }
        b
    };
    let falsified = |s: &Solver, b: u64| s.cdb.iter().skip(1).filter(|c| !c.is_dead() && clause_tv(&clause_of(c), b) == 0).count();
    let b0 = bits(&a);
    let limit = 1 + sx::conc(sx::below(4)) as usize;
    let (x, y) = s.cdb.stochastic_local_search(&s.asg, &mut a, limit);
    let b1 = bits(&a);
    sx::check(x == falsified(&s, b0), 30);
    sx::check(y == falsified(&s, b1), 31);
    sx::check(((b0 ^ b1).count_ones() as usize) < limit, 32);
    sx::check(before == cdb_tv(&s.cdb, m) & root_tv(&s.asg, n, m), 33);
    s.asg.override_rephasing_target(&a);
    s.asg.select_rephasing_target();
    sx::reach(1);
    if y == 0 {
        sx::reach(2);
    }
    let r = s.solve();
    verdict(&r, &f, n as usize, m);
}
/// Satisfiable formulas that need a search of several segments.
#[unsafe(no_mangle)]
pub extern "C" fn h_feat_sat() {
    let n = 24;
    let seed = sx::conc(sx::below(12));
    let mut r = Rnd::new(700 + seed);
    let hidden = r.next();
    let mut f: F = vec![];
    while f.len() < 108 {
        let mut c = r.clause(n, 3);
        if c.iter().all(|l| (hidden >> (l >> 1)) & 1 != l & 1) {
            c[0] ^= 1;
        }
        f.push(c);
    }
    for i in 0..3 {
        let k = f.len() - 1 - 7 * i;
        let c = &mut f[k];
        let p = c.iter().position(|l| (hidden >> (*l >> 1)) & 1 == *l & 1).unwrap();
        let q = (p + 1) % 3;
        c[q] = (c[q] & !1) | sx::any(1);
    }
    run(&f, n, crate::h_mix::plain(), 1);
}
