//! S19: the same verdict under every configuration.
use crate::h_mix::random;
use crate::{fx::*, h_e2e::{to_vecs, verdict}, sx};
use splr::solver::verif::STAGE_SIZE;
use std::sync::atomic::Ordering::Relaxed;

pub const ENTRIES: &[crate::Entry] = &[
    ("h_cfg_elim", h_cfg_elim),
    ("h_cfg_elim4", h_cfg_elim4),
    ("h_cfg_facts", h_cfg_facts),
    ("h_cfg_limit", h_cfg_limit),
    ("h_cfg_stages", h_cfg_stages),
    ("h_cfg_restart", h_cfg_restart),
    ("h_cfg_reduce", h_cfg_reduce),
    ("h_cfg_rates", h_cfg_rates),
    ("h_cfg_show", h_cfg_show),
    ("h_cfg_all", h_cfg_all),
];

fn pick<A: Copy>(of: &[A]) -> A {
    of[sx::conc(sx::below(of.len() as u64)) as usize]
}
fn elimination() -> Config {
    Config {
        enable_eliminator: pick(&[false, true]),
        elm_cls_lim: pick(&[0, 1, 2, 64]),
        elm_grw_lim: pick(&[0, 3]),
        elm_var_occ: pick(&[0, 1, 2, 20000]),
        ..Config::default()
    }
}
/// Solve; with a limit on clauses the run may give up.
fn run(f: &F, n: u64, config: Config, stage: usize) {
    STAGE_SIZE.store(stage, Relaxed);
    let m = model(n);
    let limit = config.c_cls_lim;
    let r = match Solver::try_from((config, to_vecs(f).as_ref())) {
        Ok(mut s) => {
            let r = s.solve();
            if s.state.stm.current_stage() > 1 {
                sx::reach(3);
            }
            r
        }
        // refuted while loading
        Err(Ok(c)) => Ok(c),
        Err(Err(SolverError::EmptyClause)) => Ok(Certificate::UNSAT),
        Err(Err(e)) => Err(e),
    };
    if limit != 0 && matches!(r, Err(SolverError::OutOfMemory)) {
        return sx::reach(4);
    }
    verdict(&r, f, n as usize, m);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cfg_elim() {
    let c = elimination();
    run(&vec![signs(&[1, 2]), signs(&[1, 3]), signs(&[2, 3]), signs(&[1, 2, 3]), vec![2, 5, 7]], 3, c, 32);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cfg_elim4() {
    let c = elimination();
    run(&vec![signs(&[1, 2, 3]), signs(&[2, 3, 4]), vec![3, 6, 9], signs(&[1, 4]), vec![4, 8]], 4, c, 32);
}
/// Facts among the clauses.
#[unsafe(no_mangle)]
pub extern "C" fn h_cfg_facts() {
    let c = elimination();
    run(&vec![vec![code(4)], signs(&[1, 2]), signs(&[2, 3, 4]), vec![3, 6, 9], vec![2 + sx::below(4)]], 4, c, 32);
}
/// A limit on the number of clauses: it may give up, but not answer wrongly.
#[unsafe(no_mangle)]
pub extern "C" fn h_cfg_limit() {
    let c_cls_lim = sx::conc(sx::below(10)) as usize;
    let c = Config { enable_eliminator: pick(&[false, true]), c_cls_lim, ..Config::default() };
    run(&vec![signs(&[1, 2]), signs(&[1, 3]), signs(&[2, 3]), vec![3, 5, 7], signs(&[1, 2, 3])], 3, c, 32);
}
fn search(config: Config, stages: &[usize]) {
    let seed = sx::conc(sx::below(2));
    let stage = pick(stages);
    run(&random(20, 92, 1, 60 + seed, ), 20, config, stage);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cfg_stages() {
    let c = Config {
        enable_eliminator: pick(&[false, true]),
        elm_cls_lim: pick(&[0, 64]),
        elm_var_occ: pick(&[0, 4, 20000]),
        ..Config::default()
    };
    search(c, &[1, 3]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cfg_restart() {
    let c = Config { rst_lbd_thr: pick(&[0.0, 0.5, 1.0, 2.0, 1e9]), elm_var_occ: pick(&[0, 20000]), ..Config::default() };
    search(c, &[1, 32]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cfg_reduce() {
    let c = Config {
        cls_rdc_lbd: pick(&[0, 1, 5, 65535]),
        cls_rdc_rm1: pick(&[0.0, 0.2, 1.0]),
        cls_rdc_rm2: pick(&[0.0, 0.05, 1.0]),
        elm_var_occ: 0,
        ..Config::default()
    };
    search(c, &[1]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cfg_rates() {
    let c = Config {
        crw_dcy_rat: pick(&[0.0, 0.5, 0.95, 1.0]),
        vrw_dcy_rat: pick(&[0.0, 0.5, 0.96, 1.0]),
        vrw_dcy_stp: pick(&[0.0, 0.0001, 0.1]),
        elm_var_occ: 0,
        ..Config::default()
    };
    search(c, &[2]);
}
/// What is printed does not matter.
#[unsafe(no_mangle)]
pub extern "C" fn h_cfg_show() {
    let c = Config {
        splr_interface: pick(&[false, true]),
        quiet_mode: pick(&[false, true]),
        show_journal: pick(&[false, true]),
        no_color: pick(&[false, true]),
        show_cdb_heatmap: pick(&[false, true]),
        ..Config::default()
    };
    if sx::conc(sx::below(2)) == 0 {
        search(c, &[1]);
    } else {
        run(&vec![signs(&[1, 2]), signs(&[1, 3]), signs(&[2, 3])], 3, c, 32);
    }
}
/// Several unusual values at once.
#[unsafe(no_mangle)]
pub extern "C" fn h_cfg_all() {
    let c = Config {
        c_cbt_thr: pick(&[0, 100]),
        enable_eliminator: pick(&[false, true]),
        elm_cls_lim: pick(&[0, 3]),
        elm_var_occ: pick(&[0, 4]),
        cls_rdc_lbd: pick(&[0, 5]),
        cls_rdc_rm1: pick(&[0.0, 1.0]),
        rst_lbd_thr: pick(&[0.0, 2.0]),
        vrw_dcy_rat: pick(&[0.5, 0.96]),
        crw_dcy_rat: pick(&[0.5, 0.95]),
        ..Config::default()
    };
    search(c, &[1]);
}
