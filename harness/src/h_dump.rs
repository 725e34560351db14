//! A solver's state written as a CNF file.
use crate::{fx::*, h_dimacs::reference, h_e2e, sx};
use splr::solver::verif::STAGE_SIZE;
use std::path::Path;
use std::sync::atomic::Ordering::Relaxed;

pub const ENTRIES: &[crate::Entry] = &[
    ("h_dump_load", h_dump_load),
    ("h_dump_skel", h_dump_skel),
    ("h_dump_incr", h_dump_incr),
    ("h_dump_solved", h_dump_solved),
    ("h_dump_solved20", h_dump_solved20),
    ("h_dump_late", h_dump_late),
    ("h_dump_elim", h_dump_elim),
    ("h_dump_elim_fact", h_dump_elim_fact),
];

/// The file has the meaning of f.
fn judge(s: &Solver, n: u64, f: &F, m: u64) {
    let g = dump(s, n);
    let (a, b) = (f_tv(f, m), f_tv(&g, m));
    sx::check(imp(a, b), 4);
    sx::check(imp(b, a), 5);
    sx::trace(g.len() as u64);
}
fn dump(s: &Solver, n: u64) -> F {
    sx::file_sel(5);
    s.dump_cnf(Path::new(&sx::path(5)));
    let t: Vec<u8> = (0..sx::out_len()).map(|i| sx::out_byte(i) as u8).collect();
    let mut open = false;
    let r = reference(&t, &mut open);
    sx::check(r.is_some() && !open, 1);
    let (nv, g) = r.unwrap();
    sx::check(nv == n, 2);
    // as many clauses as the header says
    let head = String::from_utf8_lossy(&t).lines().next().unwrap_or("").to_string();
    let num = head.split_whitespace().nth(3).and_then(|x| x.parse::<usize>().ok());
    sx::check(num == Some(g.len()), 3);
    g
}
fn load(n: u64, shape: &[usize], f: F) {
    let _ = shape;
    let m = model(n);
    let mut s = empty_solver(n);
    for c in &f {
        if !add(&mut s, c) {
            sx::reach(2);
            return;
        }
    }
    sx::reach(1);
    judge(&s, n, &f, m);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_dump_load() {
    let shape = [2, 1, 2];
    load(3, &shape, shape.iter().map(|k| (0..*k).map(|_| code(3)).collect()).collect());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_dump_skel() {
    let mut r = Rnd::pick(64);
    let shape = r.shape(7, 1, 4);
    let mut f = r.formula(6, &shape);
    r.vary(&mut f, 3);
    load(6, &shape, f);
}
/// Variables and clauses that come later.
#[unsafe(no_mangle)]
pub extern "C" fn h_dump_incr() {
    let m = model(5);
    let mut s = empty_solver(3);
    let mut f: F = vec![vec![2 + sx::any(1), 4 + sx::any(1)]];
    let mut n = 3;
    if !add(&mut s, &f[0].clone()) {
        return;
    }
    for _ in 0..2 {
        if sx::conc(sx::below(2)) == 1 {
            n = s.add_var() as u64;
        }
        let c = match sx::conc(sx::below(3)) {
            0 => vec![code(n)],
            1 => vec![2 * n + sx::any(1), code(n)],
            _ => vec![2 * n + sx::any(1)],
        };
        let ok = add(&mut s, &c);
        f.push(c);
        if !ok {
            return;
        }
        sx::reach(1);
        judge(&s, n, &f, m);
    }
}
fn after(n: u64, f: F, config: Config) {
    let m = model(n);
    STAGE_SIZE.store(1, Relaxed);
    let Ok(mut s) = Solver::try_from((Config { enable_eliminator: false, ..config }, h_e2e::to_vecs(&f).as_ref())) else { return };
    match s.solve() {
        Ok(Certificate::SAT(_)) => sx::reach(1),
        Err(SolverError::TimeOut) => sx::reach(2),
        _ => return,
    }
    judge(&s, n, &f, m);
}
/// What is left after a run that found a model.
#[unsafe(no_mangle)]
pub extern "C" fn h_dump_solved() {
    let mut r = Rnd::pick(64);
    let shape = r.shape(14, 1, 3);
    let mut f = r.formula(7, &shape);
    f.push(vec![15]);
    r.vary(&mut f, 2);
    after(7, f, Config::default());
}
/// A longer run: learnt clauses of all kinds remain.
#[unsafe(no_mangle)]
pub extern "C" fn h_dump_solved20() {
    let f = crate::h_time::formula(24, 20, 80, 2);
    after(20, f, Config::default());
}
/// What is left when the time is over.
#[unsafe(no_mangle)]
pub extern "C" fn h_dump_late() {
    let f = crate::h_time::formula(12, 20, 88, 1);
    sx::clock(1000, 0);
    sx::clock_at(1 + 2 * sx::conc(sx::below(5)), 1010, 0);
    after(20, f, Config { c_timeout: 5.0, ..Config::default() });
}
/// Variables were eliminated: the rest is dumped, with the same meaning for the other variables.
fn elim(seeds: u64, n: u64, num: usize, hi: usize, late: bool) {
    let mut r = Rnd::pick(seeds);
    let shape = r.shape(num, if late { 2 } else { 1 }, hi);
    let mut f = r.formula(n, &shape);
    r.vary(&mut f, 3);
    let m = model(n);
    let mut s = empty_solver(n);
    for c in &f {
        if !add(&mut s, c) {
            return;
        }
    }
    let mut e = Eliminator::instantiate(&s.state.config, &s.state.cnf);
    if sx::flag() {
        e.prepare(&mut s.asg, &mut s.cdb, true);
    }
    if e.simplify(&mut s.asg, &mut s.cdb, &mut s.state, false).is_err() {
        return;
    }
    s.asg.eliminated.append(e.eliminated_lits());
    let gone: Vec<u64> = (1..=n).filter(|v| s.asg.var(*v as usize).is(FlagVar::ELIMINATED)).collect();
    if gone.is_empty() {
        sx::reach(1);
        judge(&s, n, &f, m);
        return;
    }
    if late {
        // facts come later
        let free: Vec<u64> = (1..=n).filter(|v| !gone.contains(v) && s.asg.assign(*v as usize).is_none()).collect();
        if free.is_empty() {
            return;
        }
        let l = 2 * free[r.below(free.len() as u64) as usize] + sx::any(1);
        if s.asg.assign_at_root_level(to_lit(l)).is_err() || s.asg.clear_asserted_literals(&mut s.cdb).is_err() {
            return;
        }
        f.push(vec![l]);
    }
    sx::reach(2);
    let g = dump(&s, n);
    sx::check(g.iter().all(|c| c.iter().all(|l| !gone.contains(&(l >> 1)))), 6);
    let b = f_tv(&g, m);
    sx::check(imp(f_tv(&f, m), b), 7);
    let mut some = 0;
    for k in 0..1u64 << gone.len() {
        let mut x = m;
        for (i, v) in gone.iter().enumerate() {
            x = (x & !(1 << v)) | (k >> i & 1) << v;
        }
        some |= f_tv(&f, x);
    }
    sx::check(imp(b, some), 8);
    sx::trace(g.len() as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_dump_elim() {
    elim(128, 7, 14, 3, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_dump_elim_fact() {
    elim(256, 8, 22, 4, true);
}
