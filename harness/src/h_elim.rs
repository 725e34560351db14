//! Variable elimination and the reconstruction of models.
use crate::{fx::*, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_elim_2222", h_elim_2222),
    ("h_elim_233", h_elim_233),
    ("h_elim_one", h_elim_one),
    ("h_elim_unit", h_elim_unit),
    ("h_elim_learnt", h_elim_learnt),
    ("h_elim_limits", h_elim_limits),
    ("h_elim_twice", h_elim_twice),
    ("h_elim_333", h_elim_333),
    ("h_elim_skel", h_elim_skel),
    ("h_elim_skel_x", h_elim_skel_x),
    ("h_elim_skel4", h_elim_skel4),
];

/// What remains, read from the solver: clauses that must stay, and facts.
pub fn rest_tv(s: &Solver, n: u64, m: u64) -> u64 {
    let mut r = root_tv(&s.asg, n, m);
    for c in s.cdb.iter().skip(1) {
        if keeps(c) {
            r &= clause_tv(&clause_of(c), m);
        }
    }
    r
}
/// A clause that reduction never deletes.
pub fn keeps(c: &Clause) -> bool {
    !c.is_dead() && (!c.is(FlagClause::LEARNT) || c.len() == 2)
}
pub fn eliminated(s: &Solver, v: u64) -> bool {
    s.asg.var(v as usize).is(FlagVar::ELIMINATED)
}
/// Run the eliminator once; false if it refuted the formula.
pub fn simplify(s: &mut Solver, f: &F, m: u64, force: bool, prepared: bool) -> bool {
    let mut e = Eliminator::instantiate(&s.state.config, &s.state.cnf);
    if prepared {
        e.prepare(&mut s.asg, &mut s.cdb, true);
    }
    let r = e.simplify(&mut s.asg, &mut s.cdb, &mut s.state, force);
    s.asg.eliminated.append(e.eliminated_lits());
    if r.is_err() {
        sx::reach(1);
        sx::check(f_tv(f, m) == 0, 1);
        return false;
    }
    true
}
/// Nothing but consequences remains, and no remaining clause mentions an eliminated variable.
pub fn sound(s: &Solver, f: &F, n: u64, m: u64) {
    sx::check(imp(f_tv(f, m), cdb_tv(&s.cdb, m) & root_tv(&s.asg, n, m)), 2);
    let mut ok = true;
    let mut num = 0;
    for v in 1..=n {
        if eliminated(s, v) {
            num += 1;
            ok &= s.asg.assign(v as usize).is_none();
        }
    }
    for c in s.cdb.iter().skip(1) {
        if !c.is_dead() {
            ok &= c.len() >= 2;
            for l in c.iter() {
                ok &= !eliminated(s, l.vi() as u64);
            }
        }
    }
    sx::check(ok && s.asg.num_eliminated_vars == num, 3);
    if num > 0 {
        sx::reach(2);
    }
}
/// Any assignment of what remains extends to a model of everything.
pub fn extends(s: &mut Solver, f: &F, n: u64) {
    sx::check(s.asg.decision_level() == s.asg.root_level(), 4);
    let mut bits = 0u64;
    for v in 1..=n {
        if eliminated(s, v) {
            continue;
        }
        let b = match s.asg.assign(v as usize) {
            Some(b) => b as u64,
            None => {
                let b = sx::any(1);
                s.asg.assign_by_decision(to_lit(2 * v + b));
                b
            }
        };
        bits |= b << v;
    }
    let mut r = 1;
    for c in s.cdb.iter().skip(1) {
        if keeps(c) {
            r &= clause_tv(&clause_of(c), bits);
        }
    }
    sx::assume(r == 1);
    sx::reach(3);
    let model = s.asg.extend_model(&mut s.cdb);
    let mut full = 0u64;
    let mut kept = true;
    for v in 1..=n {
        match model[v as usize] {
            Some(b) => {
                full |= (b as u64) << v;
                kept &= eliminated(s, v) || (bits >> v) & 1 == b as u64;
            }
            None => sx::check(false, 5),
        }
    }
    sx::trace(full);
    sx::check(kept, 6);
    sx::check(f_tv(f, full) == 1, 7);
}
fn run(s: &mut Solver, f: &F, n: u64, force: bool, prepared: bool) {
    let m = model(n);
    if simplify(s, f, m, force, prepared) {
        sound(s, f, n, m);
        extends(s, f, n);
    }
}
fn shaped(n: u64, shape: &[usize], force: bool) {
    let mut s = empty_solver(n);
    let mut f: F = vec![];
    for k in shape {
        let c = sorted_clause(n, *k);
        add_lits(&mut s, &c);
        f.push(c);
    }
    run(&mut s, &f, n, force, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_elim_2222() {
    shaped(3, &[2, 2, 2, 2], false);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_elim_233() {
    shaped(3, &[2, 3, 3], false);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_elim_333() {
    shaped(4, &[3, 3, 3], false);
}
/// One variable with several clauses on both sides.
#[unsafe(no_mangle)]
pub extern "C" fn h_elim_one() {
    const N: u64 = 5;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    for (vs, x) in [([2, 3], 3), ([4, 5], 3), ([2, 4], 2), ([3, 5], 2)] {
        let mut c = vec![x];
        c.extend_from_slice(&signs(&vs));
        add_lits(&mut s, &c);
        f.push(c);
    }
    run(&mut s, &f, N, false, false);
}
/// Facts established before or between.
#[unsafe(no_mangle)]
pub extern "C" fn h_elim_unit() {
    const N: u64 = 4;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    for vs in [&[1, 2, 3][..], &[1, 2, 4], &[1, 3, 4], &[3, 4]] {
        let c = signs(vs);
        add_lits(&mut s, &c);
        f.push(c);
    }
    let u = code(N);
    f.push(vec![u]);
    if s.asg.assign_at_root_level(to_lit(u)).is_ok() {
        run(&mut s, &f, N, false, false);
    }
}
/// Some of the clauses are learnt ones (supersets of given clauses).
#[unsafe(no_mangle)]
pub extern "C" fn h_elim_learnt() {
    const N: u64 = 4;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    let mut dup = vec![];
    for vs in [&[1, 2][..], &[1, 3], &[2, 3, 4]] {
        let c = signs(vs);
        add_lits(&mut s, &c);
        dup.push(c.clone());
        f.push(c);
    }
    for (i, v) in [(0, 3), (0, 4), (1, 4)] {
        let mut c: Vec<Lit> = dup[i].iter().map(|c| to_lit(*c)).collect();
        c.push(to_lit(2 * v + sx::any(1)));
        s.cdb.new_clause(&mut s.asg, &mut c, true);
    }
    run(&mut s, &f, N, false, false);
}
/// Limits of the preprocessor.
#[unsafe(no_mangle)]
pub extern "C" fn h_elim_limits() {
    const N: u64 = 4;
    let mut config = Config::default();
    config.elm_var_occ = sx::conc(sx::below(4)) as usize;
    config.elm_cls_lim = [0, 2, 3, 64][sx::conc(sx::below(4)) as usize];
    let mut s = empty_solver_cfg(N, config);
    let mut f: F = vec![];
    for vs in [&[1, 2][..], &[1, 3], &[1, 4], &[2, 3], &[1, 2, 3]] {
        let c = signs(vs);
        add_lits(&mut s, &c);
        f.push(c);
    }
    let force = sx::flag();
    let prepared = force && sx::flag();
    run(&mut s, &f, N, force, prepared);
}
/// Two rounds, as in a long search.
#[unsafe(no_mangle)]
pub extern "C" fn h_elim_twice() {
    const N: u64 = 5;
    let mut s = empty_solver(N);
    let mut f: F = vec![];
    for vs in [&[1, 2, 3][..], &[1, 2, 4], &[3, 4, 5], &[2, 4, 5]] {
        let c = signs(vs);
        add_lits(&mut s, &c);
        f.push(c);
    }
    let m = model(N);
    if simplify(&mut s, &f, m, true, true) && s.asg.clear_asserted_literals(&mut s.cdb).is_ok() && simplify(&mut s, &f, m, false, false) {
        sound(&s, &f, N, m);
        extends(&mut s, &f, N);
    }
}
/// Larger formulas: skeletons with some signs free.
fn skel(seeds: u64, n: u64, num: usize, lo: usize, hi: usize, free: usize) {
    let mut r = Rnd::pick(seeds);
    let mut s = empty_solver(n);
    let shape = r.shape(num, lo, hi);
    let mut f = r.formula(n, &shape);
    r.vary(&mut f, free);
    for c in &f {
        add_lits(&mut s, c);
    }
    run(&mut s, &f, n, sx::flag(), sx::flag());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_elim_skel() {
    skel(64, 6, 9, 2, 4, 5);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_elim_skel4() {
    skel(64, 7, 10, 3, 5, 5);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_elim_skel_x() {
    skel(512, 8, 13, 2, 5, 6);
}
