//! The counters against the things counted.
use crate::h_mix::{self, At};
use crate::{fx::*, h_e2e::to_vecs, sx};
use splr::assign::property::Tusize as A;
use splr::cdb::property::Tusize as C;
use splr::solver::verif::STAGE_SIZE;
use splr::state::LogUsizeId;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_stat_steps", h_stat_steps),
    ("h_stat_dense", h_stat_dense),
    ("h_stat_deep", h_stat_deep),
    ("h_stat_skel", h_stat_skel),
    ("h_stat_skel12", h_stat_skel12),
    ("h_stat_subsume", h_stat_subsume),
    ("h_stat_facts", h_stat_facts),
    ("h_stat_elim", h_stat_elim),
    ("h_stat_load", h_stat_load),
    ("h_stat_grow", h_stat_grow),
    ("h_stat_run", h_stat_run),
    ("h_stat_run20", h_stat_run20),
];

struct Real {
    vars: usize,
    fixed: usize,
    gone: usize,
    live: usize,
    two: usize,
    learnt: usize,
}
fn real(s: &Solver) -> Real {
    let n = s.asg.var_iter().count() - 1;
    let mut r = Real { vars: n, fixed: 0, gone: 0, live: 0, two: 0, learnt: 0 };
    for v in 1..=n {
        if s.asg.var(v).is(FlagVar::ELIMINATED) {
            r.gone += 1;
        } else if s.asg.assign(v).is_some() && s.asg.level(v) == s.asg.root_level() {
            r.fixed += 1;
        }
    }
    for c in s.cdb.iter().skip(1).filter(|c| !c.is_dead()) {
        r.live += 1;
        r.two += (c.len() == 2) as usize;
        r.learnt += c.is(FlagClause::LEARNT) as usize;
    }
    r
}
fn clauses(s: &Solver, r: &Real) {
    let c = |k| s.cdb.derefer(k);
    sx::check(c(C::NumClause) == r.live, 3);
    sx::check(c(C::NumBiClause) == r.two, 4);
    sx::check(c(C::NumLearnt) == r.learnt, 5);
}
/// What is counted now. `settled`: root-level literals have been moved off the trail.
pub fn judge(s: &mut Solver, settled: bool) {
    let r = real(s);
    let a = |k| s.asg.derefer(k);
    sx::check(a(A::NumVar) == r.vars, 1);
    sx::check(a(A::NumEliminatedVar) == r.gone, 2);
    clauses(s, &r);
    let set = (1..=r.vars).filter(|v| s.asg.assign(*v).is_some() && !s.asg.var(*v).is(FlagVar::ELIMINATED)).count();
    sx::check(a(A::NumUnassignedVar) == r.vars - r.gone - set, 6);
    if settled {
        sx::check(a(A::NumAssertedVar) == r.fixed, 7);
        sx::check(a(A::NumUnassertedVar) == r.vars - r.gone - r.fixed, 8);
    } else {
        sx::check(a(A::NumAssertedVar) <= r.fixed, 9);
    }
    // the report, with and without the table on the screen
    s.state.config.splr_interface = true;
    for quiet in [true, false] {
        s.state.config.quiet_mode = quiet;
        s.state.progress(&s.asg, &s.cdb);
        let q = |k: LogUsizeId| s.state[k];
        sx::check(q(LogUsizeId::RemovableClause) == r.learnt, 10);
        sx::check(q(LogUsizeId::PermanentClause) == r.live - r.learnt, 11);
        sx::check(q(LogUsizeId::BiClause) == r.two, 12);
        sx::check(q(LogUsizeId::EliminatedVar) == r.gone, 13);
        sx::check(q(LogUsizeId::AssertedVar) == a(A::NumAssertedVar), 14);
        sx::check(q(LogUsizeId::RemainingVar) == a(A::NumUnassertedVar), 15);
        sx::check(q(LogUsizeId::NumConflict) == a(A::NumConflict), 16);
        sx::check(q(LogUsizeId::NumDecision) == a(A::NumDecision), 17);
        sx::check(q(LogUsizeId::NumPropagate) == a(A::NumPropagation), 18);
    }
    s.state.config.quiet_mode = true;
    if r.gone > 0 {
        sx::reach(20);
    }
    if r.learnt > 0 {
        sx::reach(21);
    }
    if r.fixed > 0 {
        sx::reach(22);
    }
}
fn judge_now(s: &mut Solver) {
    let settled = s.asg.stack_is_empty();
    judge(s, settled);
}
static WAS: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
fn watch(s: &mut Solver, at: At) {
    let now = [s.asg.derefer(A::NumConflict), s.asg.derefer(A::NumDecision)];
    let passed = |c: usize, d: usize| {
        sx::check(now == [WAS[0].load(Relaxed) + c, WAS[1].load(Relaxed) + d], 19);
    };
    match at {
        At::Step => judge(s, false),
        At::StageEnd => judge_now(s),
        At::Decide | At::Propagate => {
            WAS[0].store(now[0], Relaxed);
            WAS[1].store(now[1], Relaxed);
        }
        At::Decided => passed(0, 1),
        At::Propagated => passed(0, 0),
        At::Conflict => passed(1, 0),
    }
}
fn on() {
    let _ = h_mix::WATCH.set(watch);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_steps() {
    on();
    let (mut s, f) = h_mix::with(4, &[], &[&[1, 2, 3], &[2, 3, 4], &[1, 4]]);
    h_mix::steps(&mut s, &f, 4, 1, (0, 2), &[0, 1, 2, 4, 6]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_dense() {
    on();
    let (mut s, f) = h_mix::with(
        5,
        &[&[3, 5, 7], &[2, 4, 9], &[6, 9, 11], &[3, 6, 8], &[2, 8, 10]],
        &[&[1, 4, 5], &[2, 3, 5]],
    );
    h_mix::steps(&mut s, &f, 5, 2, (0, 2), &[0, 2, 4, 6]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_deep() {
    on();
    h_mix::deep(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_skel() {
    on();
    h_mix::skel(96, 8, 20, 2, 4, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_skel12() {
    on();
    h_mix::skel(64, 12, 36, 2, 5, 3);
}
/// Learnt clauses among the given ones; a fact found by elimination shortens them.
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_subsume() {
    const N: u64 = 6;
    let mut s = empty_solver(N);
    let l = |v: u64| 2 * v + 1;
    let neg = |v: u64| 2 * v;
    let x = 2 * 3 + sx::any(1);
    let kinds = sx::conc(sx::below(8));
    for (i, c) in [
        vec![l(1), l(2), x, l(5)],
        vec![l(1), l(2), l(3), l(4)],
        vec![l(1), l(2), l(3), l(4), l(5)],
        vec![neg(1), neg(2), 2 * 4 + sx::any(1)],
        vec![neg(3), neg(4), 2 + sx::any(1)],
        vec![l(6), neg(5)],
        vec![neg(6), neg(5)],
    ]
    .iter()
    .enumerate()
    {
        let mut v: Vec<Lit> = c.iter().map(|l| to_lit(*l)).collect();
        s.cdb.new_clause(&mut s.asg, &mut v, i < 3 && kinds >> i & 1 == 1);
    }
    judge(&mut s, true);
    let mut elim = Eliminator::instantiate(&s.state.config, &s.state.cnf);
    if elim.simplify(&mut s.asg, &mut s.cdb, &mut s.state, false).is_ok() {
        if elim.num_subsumed > 0 {
            sx::reach(25);
        }
        judge_now(&mut s);
        s.cdb.reduce(&mut s.asg, splr::cdb::ReductionType::LBDonALL(0, 0.0));
        judge_now(&mut s);
    }
}
/// Elimination, vivification and a fact, in either order.
/// Given and learnt clauses, shortened or satisfied by facts that come one or two at a time.
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_facts() {
    const N: u64 = 6;
    let mut s = empty_solver(N);
    let kinds = sx::conc(sx::below(16));
    for (i, vs) in [&[1u64, 2, 3][..], &[1, 2, 3, 4], &[2, 3, 4, 5], &[1, 3, 5, 6, 2], &[1, 2], &[3, 6]].iter().enumerate() {
        let mut v: Vec<Lit> = vs.iter().map(|v| to_lit(2 * v + 1)).collect();
        s.cdb.new_clause(&mut s.asg, &mut v, (kinds >> i) & 1 == 1 && i < 4);
    }
    judge(&mut s, true);
    let mut pairs = [1, 4, 2, 5, 3, 6];
    pairs.rotate_left(sx::conc(sx::below(6)) as usize);
    for vs in pairs.chunks(2) {
        let two = sx::conc(sx::below(2)) == 1;
        for v in &vs[..1 + two as usize] {
            if s.asg.assign(*v as usize).is_none() && s.asg.assign_at_root_level(to_lit(2 * v + sx::any(1))).is_err() {
                return;
            }
        }
        if s.asg.clear_asserted_literals(&mut s.cdb).is_err() {
            return;
        }
        sx::reach(1);
        judge(&mut s, true);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_elim() {
    const N: u64 = 4;
    let mut s = empty_solver(N);
    for vs in [&[1u64, 2, 3][..], &[1, 2, 4], &[1, 3, 4], &[3, 4]] {
        add_lits(&mut s, &signs(vs));
    }
    judge(&mut s, true);
    let first = sx::flag();
    for i in 0..3 {
        let r = match (i + first as usize) % 3 {
            0 => {
                let u = to_lit(code(N));
                if s.asg.assigned(u).is_some() || s.asg.var(u.vi()).is(FlagVar::ELIMINATED) {
                    continue;
                }
                s.asg.assign_at_root_level(u).and_then(|_| s.asg.clear_asserted_literals(&mut s.cdb))
            }
            1 => {
                let mut elim = Eliminator::instantiate(&s.state.config, &s.state.cnf);
                elim.simplify(&mut s.asg, &mut s.cdb, &mut s.state, i == 0)
            }
            _ => s.cdb.vivify(&mut s.asg, &mut s.state),
        };
        if r.is_err() {
            return;
        }
        judge_now(&mut s);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_load() {
    let f: F = vec![sorted_clause(3, 3), vec![code(3), code(3)], vec![code(3)]];
    if let Ok(mut s) = Solver::try_from((Config::default(), to_vecs(&f).as_ref())) {
        judge(&mut s, false);
        if s.asg.clear_asserted_literals(&mut s.cdb).is_ok() {
            judge(&mut s, true);
        }
    }
}
/// Clauses, facts and variables come in any order.
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_grow() {
    let mut s = empty_solver(3);
    let mut n = 3;
    for _ in 0..3 {
        match sx::conc(sx::below(4)) {
            0 => {
                n += 1;
                sx::check(s.add_var() == n, 30);
            }
            1 => {
                if s.add_assignment(to_i32(code(3))).is_err() {
                    return;
                }
            }
            k => {
                let mut c = signs(&[1, n as u64]);
                if k == 3 {
                    c.push(code(2));
                }
                if !add(&mut s, &c) {
                    return;
                }
            }
        }
        judge(&mut s, false);
    }
}
fn run(f: &F, config: Config, stage: usize) {
    STAGE_SIZE.store(stage, Relaxed);
    if let Ok(mut s) = Solver::try_from((config, to_vecs(f).as_ref())) {
        let r = s.solve();
        // a model ends the eliminations, but what is reported then are those of the run
        let over = matches!(r, Ok(Certificate::SAT(_)));
        if over {
            clauses(&s, &real(&s));
        } else {
            judge(&mut s, false);
        }
        if s.state.stm.current_stage() > 1 {
            sx::reach(23);
        }
        if over {
            sx::reach(24);
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_run() {
    let mut r = Rnd::pick(64);
    let num = 36 + r.below(20) as usize;
    let shape = r.shape(num, 2, 4);
    let mut f = r.formula(10, &shape);
    let config = if r.below(2) == 0 { h_mix::plain() } else { Config::default() };
    r.vary(&mut f, 3);
    run(&f, config, 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_stat_run20() {
    let seed = sx::conc(sx::below(16));
    run(&h_mix::random(20, 88, 3, 200 + seed), h_mix::plain(), 1);
}
