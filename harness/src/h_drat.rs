//! The proof file of a run, checked clause by clause.
use crate::{
    fx::*,
    h_e2e::to_vecs,
    h_mix::{plain, random},
    sx,
};
use splr::solver::verif::STAGE_SIZE;
use std::sync::atomic::Ordering::Relaxed;

pub const ENTRIES: &[crate::Entry] = &[
    ("h_drat_b", h_drat_b),
    ("h_drat_t3", h_drat_t3),
    ("h_drat_t4", h_drat_t4),
    ("h_drat_units", h_drat_units),
    ("h_drat_r10", h_drat_r10),
    ("h_drat_r20", h_drat_r20),
    ("h_drat_r20e", h_drat_r20e),
    ("h_drat_r30", h_drat_r30),
    ("h_drat_long", h_drat_long),
    ("h_drat_learnt", h_drat_learnt),
    ("h_drat_chain", h_drat_chain),
    ("h_drat_skel", h_drat_skel),
    ("h_drat_skel_x", h_drat_skel_x),
    ("h_drat_skel5", h_drat_skel5),
];

/// A forward proof checker: reverse unit propagation, or resolution asymmetric
/// tautology on the first literal.
pub struct Checker {
    clauses: Vec<Vec<L>>,
    /// literals that follow by propagation from the present clauses
    top: Vec<bool>,
    refuted: bool,
}
impl Checker {
    pub fn new(n: u64, f: &F) -> Checker {
        let mut c = Checker { clauses: vec![], top: vec![false; 2 * n as usize + 2], refuted: false };
        for x in f {
            c.insert(x);
        }
        c
    }
    pub fn refuted(&self) -> bool {
        self.refuted
    }
    fn norm(c: &[L]) -> Vec<L> {
        let mut c = c.to_vec();
        c.sort();
        c.dedup();
        c
    }
    fn insert(&mut self, c: &[L]) {
        let c = Self::norm(c);
        // tautologies of the input play no part
        if c.windows(2).any(|w| w[0] ^ 1 == w[1]) {
            return;
        }
        self.clauses.push(c);
        let mut t = std::mem::take(&mut self.top);
        self.refuted |= self.propagate(&mut t);
        self.top = t;
    }
    /// true on conflict
    fn propagate(&self, val: &mut [bool]) -> bool {
        loop {
            let mut changed = false;
            for c in &self.clauses {
                let mut unit = 0;
                let mut free = 0;
                for l in c {
                    let l = *l as usize;
                    if val[l] {
                        free = 2;
                        break;
                    }
                    if !val[l ^ 1] {
                        free += 1;
                        unit = l;
                        if free > 1 {
                            break;
                        }
                    }
                }
                if free == 0 {
                    return true;
                }
                if free == 1 {
                    val[unit] = true;
                    changed = true;
                }
            }
            if !changed {
                return false;
            }
        }
    }
    fn rup(&self, c: &[L]) -> bool {
        if self.refuted {
            return true;
        }
        let mut val = self.top.clone();
        for l in c {
            if val[*l as usize] {
                return true;
            }
            val[*l as usize ^ 1] = true;
        }
        self.propagate(&mut val)
    }
    fn rat(&self, c: &[L]) -> bool {
        let Some(p) = c.first() else { return false };
        for d in &self.clauses {
            if d.contains(&(p ^ 1)) {
                let mut r = c.to_vec();
                r.extend(d.iter().filter(|l| **l != (p ^ 1)));
                if r.iter().any(|l| r.contains(&(l ^ 1))) {
                    continue;
                }
                if !self.rup(&r) {
                    return false;
                }
            }
        }
        true
    }
    pub fn add(&mut self, c: &[L]) -> bool {
        if !self.rup(c) && !self.rat(c) {
            return false;
        }
        self.insert(c);
        true
    }
    /// As usual, facts are never retracted: the deletion of a unit clause is ignored.
    pub fn delete(&mut self, c: &[L]) -> bool {
        let c = Self::norm(c);
        match self.clauses.iter().position(|x| *x == c) {
            Some(i) => {
                if c.len() > 1 {
                    self.clauses.swap_remove(i);
                }
                true
            }
            None => false,
        }
    }
}
pub enum Step {
    Add(Vec<L>),
    Delete(Vec<L>),
}
/// Read the proof; None if it is not well-formed.
pub fn read(n: u64) -> Option<Vec<Step>> {
    let t: Vec<u8> = (0..sx::out_len()).map(|i| sx::out_byte(i) as u8).collect();
    parse(n, &t)
}
pub fn parse(n: u64, t: &[u8]) -> Option<Vec<Step>> {
    let mut steps = vec![];
    let mut lits = vec![];
    let mut del = false;
    let (mut num, mut neg, mut tok) = (0u64, false, false);
    for b in t {
        let b = *b;
        match b {
            b'd' if !tok && lits.is_empty() && !del => del = true,
            b'-' if !tok => {
                neg = true;
                tok = true;
            }
            b'0'..=b'9' => {
                num = num * 10 + (b - b'0') as u64;
                tok = true;
            }
            b' ' | b'\n' => {
                if tok {
                    if num == 0 {
                        let c = std::mem::take(&mut lits);
                        steps.push(if del { Step::Delete(c) } else { Step::Add(c) });
                        del = false;
                    } else if num > n {
                        return None;
                    } else {
                        lits.push(2 * num + 1 - neg as u64);
                    }
                    (num, neg, tok) = (0, false, false);
                }
            }
            _ => return None,
        }
    }
    (lits.is_empty() && !tok && !del).then_some(steps)
}
fn run(f: &F, n: u64, config: Config, stage: usize) {
    STAGE_SIZE.store(stage, Relaxed);
    let f: F = f.iter().map(|c| c.iter().map(|l| sx::conc(*l)).collect()).collect();
    sx::out_clear();
    let config = Config { use_certification: true, io_odir: "/".into(), io_pfile: sx::out_path().into(), ..config };
    let unsat = match Solver::try_from((config, to_vecs(&f).as_ref())) {
        Ok(mut s) => {
            let r = s.solve();
            s.save_certification();
            matches!(r, Ok(Certificate::UNSAT))
        }
        // refuted while it was loaded
        Err(_) => {
            sx::reach(3);
            true
        }
    };
    let steps = read(n);
    sx::check(steps.is_some(), 1);
    let mut steps = steps.unwrap();
    // the last line claims the refutation
    let closed = matches!(steps.pop(), Some(Step::Add(c)) if c.is_empty());
    sx::check(closed, 2);
    let mut p = Checker::new(n, &f);
    let (mut adds, mut dels) = (true, true);
    for s in &steps {
        match s {
            Step::Add(c) => adds &= p.add(c),
            Step::Delete(c) => {
                sx::reach(4);
                dels &= p.delete(c)
            }
        }
    }
    sx::check(adds, 3);
    sx::check(dels, 4);
    if unsat {
        sx::reach(2);
        sx::check(p.refuted, 5);
    } else {
        sx::reach(1);
        sx::check(!p.refuted, 6);
    }
    sx::trace(steps.len() as u64);
}
/// Four binary clauses over any three variables and a fact.
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_b() {
    let f: F = [2, 2, 2, 2].iter().map(|k| sorted_clause(3, *k)).collect();
    run(&f, 3, Config::default(), 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_t3() {
    let mut f: F = (0..5u64).map(|i| vec![2 + (i & 1), 4 + ((i >> 1) & 1), 6 + (i >> 2)]).collect();
    for _ in 0..3 {
        f.push(signs(&[1, 2, 3]));
    }
    run(&f, 3, Config::default(), 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_t4() {
    let mut f: F = (0..8u64).map(|i| vec![2 + (i & 1), 4 + ((i >> 1) & 1), [6, 7, 8, 9][(i & 3) as usize] ^ (i >> 2)]).collect();
    for vs in [&[1, 3, 4][..], &[2, 3, 4], &[3, 4], &[1, 2]] {
        f.push(signs(vs));
    }
    run(&f, 4, Config::default(), 1);
}
/// Clauses with repeated, true and false literals at load.
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_units() {
    let f: F = vec![vec![3], vec![code(3), code(3), 5], vec![code(3), code(3)], vec![6, 4]];
    run(&f, 3, Config::default(), 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_r10() {
    let seed = sx::conc(sx::below(64));
    run(&random(10, 46, 2, 60 + seed), 10, plain(), 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_r20() {
    let seed = sx::conc(sx::below(16));
    run(&random(20, 92, 2, 70 + seed), 20, plain(), 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_r20e() {
    let seed = sx::conc(sx::below(16));
    run(&random(20, 90, 2, 80 + seed), 20, Config::default(), 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_r30() {
    let seed = sx::conc(sx::below(16));
    run(&random(30, 132, 1, 90 + seed), 30, Config::default(), 1);
}
/// A proof longer than the buffer: written in parts, nothing lost or repeated.
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_long() {
    const N: u64 = 4;
    sx::out_clear();
    let config =
        Config { use_certification: true, io_odir: "/".into(), io_pfile: sx::out_path().into(), ..Config::default() };
    let mut s = empty_solver_cfg(N, config);
    let k = 32760 + sx::conc(sx::below(16));
    let c: Vec<L> = signs(&[1, 2, 3]).iter().map(|l| sx::conc(*l)).collect();
    for i in 0..k {
        s.cdb.certificate_add_assertion(to_lit(8 + (i & 1)));
    }
    let RefClause::Clause(id) = add_lits(&mut s, &c) else { return sx::check(false, 10) };
    s.cdb.certificate_add_assertion(to_lit(9));
    s.cdb.remove_clause(id);
    s.save_certification();
    drop(s);
    let steps = read(N);
    sx::check(steps.is_some(), 11);
    let steps = steps.unwrap();
    let k = k as usize;
    sx::check(steps.len() == k + 4, 12);
    let mut ok = true;
    for (i, s) in steps.iter().enumerate() {
        ok &= match s {
            Step::Add(x) if i < k => x.len() == 1 && x[0] == 8 + (i as u64 & 1),
            Step::Add(x) if i == k => Checker::norm(x) == Checker::norm(&c),
            Step::Add(x) if i == k + 1 => *x == [9],
            Step::Delete(x) if i == k + 2 => Checker::norm(x) == Checker::norm(&c),
            Step::Add(x) if i == k + 3 => x.is_empty(),
            _ => false,
        };
    }
    sx::check(ok, 13);
}
/// A learnt clause rests on another one, which is gone: it alone justifies what it is shortened to,
/// by facts, by strengthening, by vivification, time and again.
fn learnt(outer: u64, rounds: usize, last: u64) {
    let n = outer + 2;
    let (x, y) = (2 * n - 2, 2 * n);
    sx::out_clear();
    let config =
        Config { use_certification: true, io_odir: "/".into(), io_pfile: sx::out_path().into(), ..Config::default() };
    let mut s = empty_solver_cfg(n, config);
    let mut f: F = vec![];
    let a: Vec<L> = (1..=outer).map(|v| 2 * v + sx::conc(sx::any(1))).collect();
    for i in 0..4 {
        let mut c = a.clone();
        c.extend([x ^ (i & 1), y ^ (i >> 1)]);
        add_lits(&mut s, &c);
        f.push(c);
    }
    let lits = |c: &[L]| c.iter().map(|l| to_lit(*l)).collect::<Vec<Lit>>();
    let mut b = a.clone();
    b.push(x);
    let RefClause::Clause(l1) = s.cdb.new_clause(&mut s.asg, &mut lits(&b), true) else {
        return sx::check(false, 20);
    };
    s.cdb.new_clause(&mut s.asg, &mut lits(&a), true);
    s.cdb.remove_clause(l1);
    let mut dead = false;
    for _ in 0..rounds {
        let v = sx::conc(sx::below(outer)) as usize;
        match sx::conc(sx::below(last)) {
            0 => {
                // a fact shortens it
                f.push(vec![a[v] ^ 1]);
                dead = s.add_clause(vec![to_i32(a[v] ^ 1)]).is_err()
                    || s.asg.clear_asserted_literals(&mut s.cdb).is_err();
            }
            1 => {
                // a given clause strengthens it
                let mut c: Vec<L> = a.clone();
                c.remove((v + 1) % outer as usize);
                let k = v % c.len();
                c[k] ^= 1;
                if s.asg.assigned(to_lit(c[k])).is_some() {
                    return;
                }
                f.push(c.clone());
                let c: Vec<i32> = c.iter().map(|l| to_i32(*l)).collect();
                let r = s.add_clause(c).is_err();
                let mut e = Eliminator::instantiate(&s.state.config, &s.state.cnf);
                dead = r || e.simplify(&mut s.asg, &mut s.cdb, &mut s.state, true).is_err();
            }
            _ => {
                let w = vec![a[v] ^ 1, a[(v + 1) % outer as usize]];
                f.push(w.clone());
                let w: Vec<i32> = w.iter().map(|l| to_i32(*l)).collect();
                dead = s.add_clause(w).is_err() || s.cdb.vivify(&mut s.asg, &mut s.state).is_err();
            }
        }
        if dead {
            sx::reach(2);
            break;
        }
    }
    verify(s, &f, n);
}
/// The proof so far holds.
fn verify(mut s: Solver, f: &F, n: u64) {
    s.save_certification();
    drop(s);
    let steps = read(n);
    sx::check(steps.is_some(), 21);
    let mut steps = steps.unwrap();
    let closed = matches!(steps.pop(), Some(Step::Add(c)) if c.is_empty());
    sx::check(closed, 22);
    let mut p = Checker::new(n, f);
    let (mut adds, mut dels) = (true, true);
    for s in &steps {
        match s {
            Step::Add(c) => adds &= p.add(c),
            Step::Delete(c) => dels &= p.delete(c),
        }
    }
    sx::check(adds, 23);
    sx::check(dels, 24);
    sx::reach(1);
    sx::trace(steps.len() as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_learnt() {
    learnt(4, 2, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_chain() {
    learnt(5, 3, 3);
}
/// Learnt clauses whose premises are gone in part, under any in-processing.
fn skel(seeds: u64, n: u64, num: usize, lo: usize, hi: usize, steps: usize) {
    let mut r = Rnd::pick(seeds);
    let num = num + r.below(6) as usize;
    let shape = r.shape(num, lo, hi);
    let mut f = r.formula(n, &shape);
    let learnt = r.derive(n, &mut f, 5, 2);
    let f: F = f.iter().map(|c| c.iter().map(|l| sx::conc(*l)).collect()).collect();
    let learnt: F = learnt.iter().map(|c| c.iter().map(|l| sx::conc(*l)).collect()).collect();
    sx::out_clear();
    let config =
        Config { use_certification: true, io_odir: "/".into(), io_pfile: sx::out_path().into(), ..Config::default() };
    let mut s = empty_solver_cfg(n, config);
    for c in &f {
        add_lits(&mut s, c);
    }
    let mut ids = vec![];
    for c in &learnt {
        if let RefClause::Clause(i) = learn(&mut s, c) {
            if c.len() > 2 {
                ids.push(i);
            }
        }
    }
    // derived from the learnt ones
    for a in &learnt {
        for b in &learnt {
            let common: Vec<L> = a.iter().filter(|l| b.iter().any(|x| x >> 1 == **l >> 1)).copied().collect();
            if common.len() == 1 && b.contains(&(common[0] ^ 1)) && a.len() + b.len() > 4 {
                let mut c: Vec<L> = a.iter().chain(b.iter()).filter(|x| **x >> 1 != common[0] >> 1).copied().collect();
                c.sort();
                learn(&mut s, &c);
            }
        }
    }
    let mut g = f.clone();
    for _ in 0..steps {
        let dead = match sx::conc(sx::below(4)) {
            0 => {
                if let Some(i) = ids.pop() {
                    if !s.cdb[i].is_dead() {
                        s.cdb.remove_clause(i);
                    }
                }
                false
            }
            1 => {
                let u = 2 + r.below(2 * n);
                match s.asg.assigned(to_lit(u)) {
                    None if !s.asg.var((u >> 1) as usize).is(FlagVar::ELIMINATED) => {
                        g.push(vec![u]);
                        s.add_clause(vec![to_i32(u)]).is_err() || s.asg.clear_asserted_literals(&mut s.cdb).is_err()
                    }
                    _ => false,
                }
            }
            2 => {
                ids.clear();
                let mut e = Eliminator::instantiate(&s.state.config, &s.state.cnf);
                e.simplify(&mut s.asg, &mut s.cdb, &mut s.state, true).is_err()
            }
            _ => {
                ids.clear();
                s.cdb.vivify(&mut s.asg, &mut s.state).is_err()
            }
        };
        if dead {
            sx::reach(2);
            break;
        }
    }
    verify(s, &g, n);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_skel() {
    skel(64, 7, 12, 2, 4, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_skel5() {
    skel(64, 9, 16, 3, 5, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_drat_skel_x() {
    skel(256, 8, 14, 2, 5, 4);
}
