//! The time limit of a run.
use crate::{fx::*, h_e2e, sx};
use splr::solver::verif::STAGE_SIZE;
use std::sync::atomic::Ordering::Relaxed;

pub const ENTRIES: &[crate::Entry] = &[
    ("h_time_still", h_time_still),
    ("h_time_jump", h_time_jump),
    ("h_time_query", h_time_query),
];
pub const LIMITS: [f64; 8] = [0.0, 0.25, 0.5, 1.0, 1.75, 2.0, 2.5, 3.25];
/// The same in quarters.
pub const QUARTERS: [u64; 8] = [0, 1, 2, 4, 7, 8, 10, 13];
const START: u64 = 1000;
pub fn at(quarters: u64) -> (u64, u64) {
    (START + quarters / 4, (quarters % 4) * 250_000_000)
}
/// A formula that takes some conflicts.
pub fn formula(seeds: u64, n: u64, num: usize, free: usize) -> F {
    let mut r = Rnd::pick(seeds);
    let mut f = r.formula(n, &vec![3; num]);
    r.vary(&mut f, free);
    f
}
fn run(f: F, n: u64, jump: bool) {
    let m = model(n);
    let k = sx::conc(sx::below(LIMITS.len() as u64)) as usize;
    let t = sx::conc(sx::below(16));
    let config = Config { c_timeout: LIMITS[k], enable_eliminator: false, ..Config::default() };
    sx::clock(START, 0);
    STAGE_SIZE.store(1, Relaxed);
    let Ok(mut s) = Solver::try_from((config, h_e2e::to_vecs(&f).as_ref())) else { return };
    let (secs, nanos) = at(t);
    let when = if jump { 1 + sx::conc(sx::below(12)) } else { 0 };
    sx::clock_at(when, secs, nanos);
    let r = s.solve();
    sx::trace(matches!(r, Err(_)) as u64);
    match &r {
        Err(SolverError::TimeOut) => {
            sx::reach(3);
            sx::check(t >= QUARTERS[k], 11);
        }
        r => {
            h_e2e::verdict(r, &f, n as usize, m);
            if !jump && t >= QUARTERS[k] && t > 0 {
                // it came within the first stage
                sx::reach(4);
                sx::check(s.state.stm.current_stage() == 0, 12);
            }
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_time_still() {
    run(formula(8, 20, 88, 1), 20, false);
}
/// The clock jumps in the middle of the run.
#[unsafe(no_mangle)]
pub extern "C" fn h_time_jump() {
    run(formula(4, 20, 88, 1), 20, true);
}
/// The state's own answers.
#[unsafe(no_mangle)]
pub extern "C" fn h_time_query() {
    let k = sx::conc(sx::below(LIMITS.len() as u64)) as usize;
    let t = sx::conc(sx::below(64));
    sx::clock(START, 0);
    let config = Config { c_timeout: LIMITS[k], ..Config::default() };
    let s = splr::state::State::instantiate(&config, &CNFDescription::default());
    let (secs, nanos) = at(t);
    sx::clock(secs, nanos);
    sx::reach(1);
    use splr::state::StateIF;
    sx::check(s.is_timeout() == (t > QUARTERS[k]), 1);
    if k > 0 {
        sx::check(s.elapsed() == Some(t as f64 / QUARTERS[k] as f64), 2);
    }
}
