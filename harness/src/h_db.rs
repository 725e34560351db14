//! The clause store under sequences of edits.
use crate::{fx::*, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_db_ops2", h_db_ops2),
    ("h_db_ops3", h_db_ops3),
    ("h_db_shrink", h_db_shrink),
    ("h_db_fact", h_db_fact),
    ("h_db_reuse", h_db_reuse),
    ("h_db_sandbox", h_db_sandbox),
    ("h_db_walk", h_db_walk),
    ("h_db_walk_x", h_db_walk_x),
    ("h_db_walk7", h_db_walk7),
];

/// What the operations say is stored: (id, literals, learnt).
struct Shadow(Vec<(ClauseId, Vec<L>, bool)>);

fn sorted(mut v: Vec<L>) -> Vec<L> {
    v.sort();
    v
}
impl Shadow {
    fn find2(&self, c: &[L]) -> Option<ClauseId> {
        if c.len() != 2 {
            return None;
        }
        let c = sorted(c.to_vec());
        self.0.iter().find(|x| x.1.len() == 2 && sorted(x.1.clone()) == c).map(|x| x.0)
    }
    fn add(&mut self, s: &mut Solver, c: &[L], learnt: bool) {
        let dup = self.find2(c);
        let mut v: Vec<Lit> = c.iter().map(|c| to_lit(*c)).collect();
        match s.cdb.new_clause(&mut s.asg, &mut v, learnt) {
            RefClause::Clause(id) => {
                sx::check(dup.is_none() && self.0.iter().all(|x| x.0 != id), 1);
                self.0.push((id, c.to_vec(), learnt && c.len() > 2));
            }
            RefClause::RegisteredClause(id) => {
                sx::reach(1);
                sx::check(dup == Some(id), 2);
            }
            _ => sx::check(false, 3),
        }
    }
    fn remove(&mut self, s: &mut Solver, i: usize) {
        let (id, _, _) = self.0.remove(i);
        s.cdb.remove_clause(id);
    }
    /// Remove literal j of clause i (as strengthening does).
    fn shrink(&mut self, s: &mut Solver, i: usize, j: usize) {
        let (id, c, learnt) = self.0[i].clone();
        let l = c[j];
        let rest: Vec<L> = c.iter().filter(|x| **x != l).copied().collect();
        let dup = self.find2(&rest);
        match s.cdb.transform_by_elimination(id, to_lit(l)) {
            RefClause::Clause(d) => {
                sx::check(d == id && dup.is_none() && rest.len() >= 2, 4);
                self.0[i] = (id, rest, learnt);
            }
            RefClause::RegisteredClause(d) => {
                sx::reach(2);
                sx::check(dup == Some(d), 5);
                self.remove(s, i);
            }
            RefClause::UnitClause(u) => {
                sx::check(rest == vec![of(u)], 6);
                self.remove(s, i);
            }
            _ => sx::check(false, 7),
        }
    }
    /// The store says the same.
    fn judge(&self, s: &Solver) {
        let mut ok = true;
        let (mut live, mut two, mut learnt) = (0, 0, 0);
        for (i, c) in s.cdb.iter().enumerate().skip(1) {
            if c.is_dead() {
                continue;
            }
            live += 1;
            let id = ClauseId::from(i);
            match self.0.iter().find(|x| x.0 == id) {
                Some((_, lits, l)) => {
                    ok &= sorted(clause_of(c)) == sorted(lits.clone());
                    ok &= *l == c.is(FlagClause::LEARNT);
                    two += (lits.len() == 2) as usize;
                    learnt += *l as usize;
                }
                None => ok = false,
            }
        }
        ok &= live == self.0.len();
        sx::check(ok, 8);
        use splr::cdb::property::Tusize::*;
        sx::check(s.cdb.derefer(NumClause) == live, 9);
        sx::check(s.cdb.derefer(NumBiClause) == two, 10);
        sx::check(s.cdb.derefer(NumLearnt) == learnt, 11);
    }
    /// Every clause is found from its literals, and nothing else is.
    fn propagates(&self, s: &mut Solver, n: u64) {
        let f: F = self.0.iter().map(|x| x.1.clone()).collect();
        let m = model(n);
        let fm = f_tv(&f, m);
        let mut d = root_tv(&s.asg, n, m);
        for v in 1..=n {
            if s.asg.assign(v as usize).is_some() {
                continue;
            }
            let l = 2 * v + sx::any(1);
            s.asg.assign_by_decision(to_lit(l));
            d &= tv(l, m);
            match s.asg.propagate(&mut s.cdb) {
                Ok(()) => sx::check(crate::h_conflict::closed(&s.asg, &f), 12),
                Err(_) => {
                    sx::reach(3);
                    sx::check(fm & d == 0, 13);
                    break;
                }
            }
            let mut t = 1;
            for x in s.asg.stack_iter() {
                t &= tv(of(*x), m);
            }
            sx::check(fm & d & (t ^ 1) == 0, 14);
        }
        for l in s.asg.stack_iter() {
            sx::trace(of(*l));
        }
    }
    fn op(&mut self, s: &mut Solver, n: u64, lens: u64) {
        let k = sx::conc(sx::below(3));
        if k == 0 || self.0.is_empty() {
            let len = 2 + if lens > 1 { sx::conc(sx::below(lens)) as usize } else { 0 };
            let c = sorted_clause(n, len);
            let l = sx::flag();
            self.add(s, &c, l);
        } else {
            let i = sx::conc(sx::below(self.0.len() as u64)) as usize;
            if k == 1 {
                self.remove(s, i);
            } else {
                let j = sx::conc(sx::below(self.0[i].1.len() as u64)) as usize;
                self.shrink(s, i, j);
            }
        }
        self.judge(s);
    }
}
/// Clauses with fixed variables, then arbitrary operations.
fn ops(n: u64, start: &[&[u64]], k: usize, lens: u64) {
    let mut s = empty_solver(n);
    let mut h = Shadow(vec![]);
    for vs in start {
        let c = signs(vs);
        h.add(&mut s, &c, false);
    }
    h.judge(&s);
    for _ in 0..k {
        h.op(&mut s, n, lens);
    }
    h.propagates(&mut s, n);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_db_ops2() {
    ops(3, &[&[1, 2, 3], &[1, 2]], 2, 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_db_ops3() {
    ops(3, &[&[1, 2, 3]], 3, 1);
}
/// Shrinking a long clause literal by literal while others come and go.
#[unsafe(no_mangle)]
pub extern "C" fn h_db_shrink() {
    const N: u64 = 5;
    let mut s = empty_solver(N);
    let mut h = Shadow(vec![]);
    h.add(&mut s, &[3, 5, 7, 9, 11], sx::flag());
    let a = signs(&[1, 2]);
    h.add(&mut s, &a, false);
    for _ in 0..3 {
        if h.0[0].1.len() == 2 {
            break;
        }
        let j = sx::conc(sx::below(h.0[0].1.len() as u64)) as usize;
        let (id, lits, learnt) = h.0[0].clone();
        h.shrink(&mut s, 0, j);
        if h.0[0].0 != id {
            break;
        }
        if lits.len() == 3 {
            // a binary clause now
            sx::check(s.cdb[id].len() == 2, 15);
            h.0[0].2 = learnt && s.cdb[id].is(FlagClause::LEARNT);
        }
        h.judge(&s);
    }
    h.propagates(&mut s, N);
}
/// Simplification of single clauses under facts.
#[unsafe(no_mangle)]
pub extern "C" fn h_db_fact() {
    const N: u64 = 4;
    let mut s = empty_solver(N);
    let mut h = Shadow(vec![]);
    let len = 3 + sx::conc(sx::below(2));
    let c = signs(&(1..=len).collect::<Vec<_>>());
    h.add(&mut s, &c, len == 3);
    let a = signs(&[2, 3]);
    h.add(&mut s, &a, false);
    let d = signs(&[2, 3, 4]);
    h.add(&mut s, &d, len == 4);
    let mut units: Vec<L> = vec![];
    for _ in 0..2 {
        let u = code(N);
        if s.asg.assigned(to_lit(u)).is_none() && s.asg.assign_at_root_level(to_lit(u)).is_ok() {
            units.push(u);
        }
    }
    // watches of a clause must not be false: propagate first
    if s.asg.propagate_sandbox(&mut s.cdb).is_err() {
        return;
    }
    let all: Vec<ClauseId> = h.0.iter().map(|x| x.0).collect();
    for id in all {
        let i = h.0.iter().position(|x| x.0 == id).unwrap();
        let (_, c, learnt) = h.0[i].clone();
        let sat = c.iter().any(|l| asg_code(&s.asg, *l) == Some(true));
        let rest: Vec<L> = c.iter().filter(|l| asg_code(&s.asg, **l).is_none()).copied().collect();
        let dup = if rest.len() < c.len() { h.find2(&rest) } else { None };
        match s.cdb.transform_by_simplification(&mut s.asg, id) {
            RefClause::Dead => {
                sx::reach(4);
                sx::check(sat, 16);
                h.0.remove(i);
            }
            RefClause::Clause(x) => {
                sx::check(!sat && x == id && dup.is_none() && rest.len() >= 2, 17);
                h.0[i] = (id, rest.clone(), learnt && rest.len() > 2);
            }
            RefClause::RegisteredClause(x) => {
                sx::reach(5);
                sx::check(!sat && dup == Some(x), 18);
                h.0.remove(i);
            }
            RefClause::UnitClause(u) => sx::check(!sat && rest == vec![of(u)], 19),
            RefClause::EmptyClause => sx::check(!sat && rest.is_empty(), 20),
        }
        h.judge(&s);
    }
    h.propagates(&mut s, N);
}
/// A slot is freed and used again with another shape.
#[unsafe(no_mangle)]
pub extern "C" fn h_db_reuse() {
    const N: u64 = 4;
    let mut s = empty_solver(N);
    let mut h = Shadow(vec![]);
    for vs in [&[1, 2, 3, 4][..], &[1, 2, 3], &[1, 2]] {
        let c = signs(vs);
        h.add(&mut s, &c, vs.len() == 3);
    }
    for k in 0..2 {
        if k == 1 && !sx::flag() {
            break;
        }
        let i = sx::conc(sx::below(h.0.len() as u64)) as usize;
        h.remove(&mut s, i);
        h.judge(&s);
    }
    let len = 2 + sx::conc(sx::below(3));
    let c = signs(&(5 - len..=4).collect::<Vec<_>>());
    h.add(&mut s, &c, len == 4);
    h.judge(&s);
    let c = vec![7, 9];
    h.add(&mut s, &c, false);
    h.judge(&s);
    h.propagates(&mut s, N);
}
/// Temporary clauses leave no trace.
#[unsafe(no_mangle)]
pub extern "C" fn h_db_sandbox() {
    const N: u64 = 3;
    let mut s = empty_solver(N);
    let mut h = Shadow(vec![]);
    for vs in [&[1, 2, 3][..], &[2, 3]] {
        let c = signs(vs);
        h.add(&mut s, &c, false);
    }
    if sx::flag() {
        h.remove(&mut s, 0);
    }
    let len = 2 + sx::conc(sx::below(2)) as usize;
    let c = sorted_clause(N, len);
    let dup = h.find2(&c);
    let mut v: Vec<Lit> = c.iter().map(|c| to_lit(*c)).collect();
    match s.cdb.new_clause_sandbox(&mut s.asg, &mut v) {
        RefClause::Clause(id) => {
            sx::check(dup.is_none() && h.0.iter().all(|x| x.0 != id), 21);
            sx::check(sorted(clause_of(&s.cdb[id])) == sorted(c), 22);
            s.cdb.remove_clause_sandbox(id);
        }
        RefClause::RegisteredClause(id) => sx::check(dup == Some(id), 23),
        _ => sx::check(false, 24),
    }
    h.judge(&s);
    h.op(&mut s, N, 1);
    h.propagates(&mut s, N);
}
/// Long sequences of edits, some signs free.
fn walk(seeds: u64, n: u64, start: usize, hi: usize, steps: usize, free: usize) {
    let mut r = Rnd::pick(seeds);
    let mut s = empty_solver(n);
    let mut h = Shadow(vec![]);
    let mut left = free;
    let mut fresh = |r: &mut Rnd| {
        let k = 2 + r.below(hi as u64 - 1).min(r.below(hi as u64 - 1)) as usize;
        let mut c = r.clause(n, k);
        if left > 0 && r.below(3) == 0 {
            left -= 1;
            let i = r.below(k as u64) as usize;
            c[i] ^= sx::any(1);
        }
        c
    };
    for _ in 0..start {
        let c = fresh(&mut r);
        let l = r.below(2) == 0;
        h.add(&mut s, &c, l);
    }
    for _ in 0..steps {
        let k = if h.0.is_empty() { 0 } else { r.below(5) };
        if k < 2 {
            let c = fresh(&mut r);
            let l = r.below(2) == 0;
            h.add(&mut s, &c, l);
        } else {
            let i = r.below(h.0.len() as u64) as usize;
            if k == 2 {
                h.remove(&mut s, i);
            } else {
                let j = r.below(h.0[i].1.len() as u64) as usize;
                let before = h.0.len();
                h.shrink(&mut s, i, j);
                if h.0.len() == before && h.0[i].1.len() == 2 {
                    h.0[i].2 = s.cdb[h.0[i].0].is(FlagClause::LEARNT);
                }
            }
        }
        h.judge(&s);
    }
    h.propagates(&mut s, n);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_db_walk() {
    walk(128, 5, 5, 4, 14, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_db_walk7() {
    walk(96, 7, 8, 7, 20, 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_db_walk_x() {
    walk(1024, 6, 6, 6, 24, 4);
}
