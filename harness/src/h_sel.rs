//! S17: the decision order.
use crate::{fx::*, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_sel_order", h_sel_order),
    ("h_sel_order6", h_sel_order6),
    ("h_sel_order7", h_sel_order7),
    ("h_sel_big", h_sel_big),
    ("h_sel_ops", h_sel_ops),
    ("h_sel_ops4", h_sel_ops4),
    ("h_sel_trail", h_sel_trail),
    ("h_sel_trail5", h_sel_trail5),
    ("h_sel_twice", h_sel_twice),
    ("h_sel_root", h_sel_root),
    ("h_sel_newvar", h_sel_newvar),
    ("h_sel_sls", h_sel_sls),
    ("h_sel_walk", h_sel_walk),
    ("h_sel_walk_x", h_sel_walk_x),
    ("h_sel_walk12", h_sel_walk12),
];

/// One of 2^bits numbers: 0 and powers of two of growing size; only comparisons matter.
fn number(bits: u32) -> f64 {
    f64::from_bits(sx::any(bits) << (62 - bits))
}
struct T {
    s: Solver,
    n: usize,
    gone: Vec<bool>,
    /// the order is a matter of the inputs only
    fixed: bool,
}
impl T {
    fn new(n: usize, f: &[Vec<i32>]) -> T {
        let mut s = empty_solver(n as u64);
        for c in f {
            s.add_clause(c).unwrap();
        }
        T { s, n, gone: vec![false; n + 1], fixed: true }
    }
    fn free(&self, v: usize) -> bool {
        !self.gone[v] && self.s.asg.assign(v).is_none()
    }
    fn left(&self) -> usize {
        (1..=self.n).filter(|v| self.free(*v)).count()
    }
    fn activities(&mut self, bits: u32) {
        for v in 1..=self.n {
            self.s.asg.set_activity(v, number(bits));
        }
    }
    /// The next decision; the variable is free.
    fn select(&mut self) -> Lit {
        let l = self.s.asg.select_decision_literal();
        sx::check(1 <= l.vi() && l.vi() <= self.n, 1);
        sx::check(self.free(l.vi()), 2);
        sx::check(l.as_bool() == self.s.asg.var(l.vi()).is(FlagVar::PHASE), 3);
        if self.fixed {
            sx::trace(l.vi() as u64);
        }
        l
    }
    /// Decide all the others; false if there was a conflict.
    fn decide_all(&mut self, ordered: bool) -> bool {
        let mut last = f64::INFINITY;
        while 0 < self.left() {
            let l = self.select();
            let a = self.s.asg.activity(l.vi());
            if ordered {
                sx::check(a <= last, 4);
                // nobody better is left
                for v in 1..=self.n {
                    sx::check(!self.free(v) || self.s.asg.activity(v) <= a, 5);
                }
                last = a;
            }
            self.s.asg.assign_by_decision(l);
            if self.s.asg.propagate(&mut self.s.cdb).is_err() {
                sx::reach(2);
                return false;
            }
        }
        sx::reach(1);
        true
    }
}
fn order(n: usize) {
    let mut t = T::new(n, &[]);
    t.activities(3);
    t.s.asg.rebuild_order();
    t.decide_all(true);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_order() {
    order(5);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_order6() {
    order(6);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_order7() {
    order(7);
}
/// A deeper order with any activities of three variables.
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_big() {
    const N: usize = 17;
    let mut t = T::new(N, &[]);
    for v in 1..=N {
        t.s.asg.set_activity(v, f64::from_bits(((v as u64 * 7 % 18) * 2 + 1) << 50));
    }
    let k = sx::conc(sx::below(6)) as usize;
    for v in [[1, 9, 17], [2, 5, 16], [4, 8, 15], [3, 11, 12], [7, 14, 10], [13, 6, 17]][k] {
        t.s.asg.set_activity(v, f64::from_bits(sx::below(37) << 50));
    }
    t.s.asg.rebuild_order();
    t.decide_all(true);
}
/// Any sequence of operations on the order.
fn ops(n: usize, k: usize) {
    let mut t = T::new(n, &[]);
    t.activities(1);
    t.s.asg.rebuild_order();
    let mut fresh = true; // activities agree with the order
    for _ in 0..k {
        match sx::conc(sx::below(5)) {
            0 if 0 < t.left() => {
                let l = t.select();
                t.s.asg.assign_by_decision(l);
            }
            1 if 0 < t.s.asg.decision_level() => {
                let lv = sx::conc(sx::below(t.s.asg.decision_level() as u64)) as u32;
                t.s.asg.cancel_until(lv);
                fresh = false; // activities have been updated
            }
            2 => {
                let v = 1 + sx::conc(sx::below(n as u64)) as usize;
                t.s.asg.set_activity(v, number(2));
                t.s.asg.update_order(v);
                fresh = false;
            }
            3 => {
                t.s.asg.rebuild_order();
                fresh = true;
            }
            4 if t.s.asg.decision_level() == 0 => {
                let v = 1 + sx::conc(sx::below(n as u64)) as usize;
                if t.free(v) {
                    if sx::flag() {
                        t.s.asg.make_var_eliminated(v);
                        t.gone[v] = true;
                    } else {
                        let l = Lit::from((v, sx::flag()));
                        sx::check(t.s.asg.assign_at_root_level(l).is_ok(), 6);
                        t.s.asg.make_var_asserted(v);
                    }
                    fresh = false;
                }
            }
            _ => return,
        }
    }
    t.decide_all(fresh);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_ops() {
    ops(3, 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_ops4() {
    ops(4, 4);
}
/// Decisions, propagation, backjumps to any level (the trail is saved), decisions again.
fn trail(n: usize, f: &[Vec<i32>]) {
    let mut t = T::new(n, f);
    for v in 1..=n {
        let b = sx::flag();
        t.s.asg.var_mut(v).set(FlagVar::PHASE, b);
    }
    t.s.asg.rebuild_order();
    for _ in 0..2 {
        t.decide_all(false);
        let d = t.s.asg.decision_level();
        if d == 0 {
            return;
        }
        let lv = sx::conc(sx::below(d as u64)) as u32;
        t.s.asg.cancel_until(lv);
        sx::check(t.s.asg.decision_level() == lv, 7);
        let v = 1 + sx::conc(sx::below(n as u64)) as usize;
        let b = sx::flag();
        t.s.asg.var_mut(v).set(FlagVar::PHASE, b);
        if sx::conc(sx::any(1)) == 1 {
            t.s.asg.clear_saved_trail();
        }
    }
    t.decide_all(false);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_trail() {
    trail(4, &[vec![-1, 2], vec![-2, 3, 4]]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_trail5() {
    trail(5, &[vec![-1, 2], vec![-2, 3, 4], vec![1, -5, -3]]);
}
/// Backjumps one after another, before the saved trail has been used up: variables of low activity
/// are kept out of the order as long as they are in the saved trail, and only as long.
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_twice() {
    const N: usize = 5;
    let mut t = T::new(N, &[vec![-1, 2], vec![-2, -3, 4]]);
    for v in 1..=N {
        t.s.asg.set_activity(v, number(1));
    }
    t.s.asg.rebuild_order();
    for _ in 0..2 {
        let k = 1 + sx::conc(sx::below(4));
        for _ in 0..k {
            if t.left() == 0 {
                break;
            }
            let l = t.select();
            t.s.asg.assign_by_decision(l);
            if t.s.asg.propagate(&mut t.s.cdb).is_err() {
                sx::reach(2);
                break;
            }
        }
        let d = t.s.asg.decision_level();
        if d == 0 {
            return;
        }
        t.s.asg.cancel_until(sx::conc(sx::below(d as u64)) as u32);
        let v = 1 + sx::conc(sx::below(N as u64)) as usize;
        let b = sx::flag();
        t.s.asg.var_mut(v).set(FlagVar::PHASE, b);
    }
    t.fixed = false;
    match sx::conc(sx::below(3)) {
        0 => t.s.asg.clear_saved_trail(),
        1 => t.s.asg.handle(SolverEvent::Stage(1)),
        _ => (),
    }
    t.decide_all(false);
}
/// Variables that are established or eliminated between searches never come up.
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_root() {
    const N: usize = 5;
    let mut t = T::new(N, &[]);
    t.activities(1);
    t.s.asg.rebuild_order();
    let l = t.select();
    t.s.asg.assign_by_decision(l);
    t.s.asg.cancel_until(0);
    for _ in 0..2 {
        let v = 1 + sx::conc(sx::below(N as u64)) as usize;
        if !t.free(v) {
            continue;
        }
        if sx::flag() {
            t.s.asg.make_var_eliminated(v);
            t.gone[v] = true;
        } else {
            sx::check(t.s.asg.assign_at_root_level(Lit::from((v, sx::flag()))).is_ok(), 6);
            t.s.asg.make_var_asserted(v);
        }
    }
    t.decide_all(false);
    if sx::conc(sx::any(1)) == 1 && 0 < t.s.asg.decision_level() {
        t.s.asg.cancel_until(0);
        t.s.asg.rebuild_order();
        t.decide_all(true);
    }
}
/// Variables added later.
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_newvar() {
    let k = sx::conc(sx::below(3)) as usize;
    let mut t = T::new(2, &[]);
    for _ in 0..=k {
        let v = t.s.add_var();
        t.n += 1;
        t.gone.push(false);
        sx::check(v == t.n, 8);
    }
    t.activities(1);
    t.s.asg.rebuild_order();
    t.decide_all(true);
}
/// Phases and rewards from outside.
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_sls() {
    const N: usize = 4;
    let mut t = T::new(N, &[vec![-1, 2, 3]]);
    t.s.asg.rebuild_order();
    let l = t.select();
    t.s.asg.assign_by_decision(l);
    let _ = t.s.asg.propagate(&mut t.s.cdb);
    t.s.asg.cancel_until(0);
    t.fixed = false; // hash maps
    let m = t.s.asg.best_phases_ref(Some(false));
    sx::check((1..=N).all(|v| m.contains_key(&v)), 9);
    let mut m: Vec<(usize, bool)> = (1..=N).map(|v| (v, sx::conc(sx::any(1)) == 1)).collect();
    m.truncate(1 + sx::conc(sx::below(4)) as usize);
    let m: std::collections::HashMap<usize, bool> = m.into_iter().collect();
    match sx::conc(sx::below(3)) {
        0 => {
            t.s.asg.reward_by_sls(&m);
            for (v, b) in &m {
                sx::check(t.s.asg.var(*v).is(FlagVar::PHASE) == *b, 10);
            }
        }
        1 => {
            t.s.asg.override_rephasing_target(&m);
        }
        _ => {
            t.s.asg.override_rephasing_target(&m);
            t.s.asg.select_rephasing_target();
        }
    }
    t.decide_all(false);
}
/// Long histories over larger formulas.
fn walk(seeds: u64, n: usize, clauses: usize, steps: usize) {
    let mut r = Rnd::pick(seeds);
    let shape = r.shape(clauses, 2, 4);
    let f: Vec<Vec<i32>> = r.formula(n as u64, &shape).iter().map(|c| c.iter().map(|l| to_i32(*l)).collect()).collect();
    let mut t = T::new(n, &f);
    for v in 1..=n {
        let a = f64::from_bits((r.below(8) + 1) << 59);
        t.s.asg.set_activity(v, a);
    }
    for _ in 0..2 {
        let v = 1 + r.below(n as u64) as usize;
        t.s.asg.set_activity(v, number(2));
    }
    t.s.asg.rebuild_order();
    t.fixed = false;
    for _ in 0..steps {
        let d = t.s.asg.decision_level();
        match r.below(12) {
            0..7 if 0 < t.left() => {
                let l = t.select();
                t.s.asg.assign_by_decision(l);
                if t.s.asg.propagate(&mut t.s.cdb).is_err() {
                    t.s.asg.cancel_until(r.below(t.s.asg.decision_level() as u64) as u32);
                }
            }
            7 | 8 if 0 < d => t.s.asg.cancel_until(r.below(d as u64) as u32),
            9 => {
                let v = 1 + r.below(n as u64) as usize;
                let a = f64::from_bits((r.below(8) + 1) << 59);
                t.s.asg.set_activity(v, a);
                t.s.asg.update_order(v);
            }
            10 => {
                let v = 1 + r.below(n as u64) as usize;
                let b = sx::flag();
                t.s.asg.var_mut(v).set(FlagVar::PHASE, b);
            }
            11 => match r.below(4) {
                0 => t.s.asg.clear_saved_trail(),
                1 => {
                    // a stage ends
                    t.s.asg.cancel_until(t.s.asg.root_level());
                    t.s.asg.select_rephasing_target();
                    t.s.asg.handle(SolverEvent::Stage(1));
                }
                2 => {
                    t.s.asg.cancel_until(t.s.asg.root_level());
                    t.s.asg.clear_saved_trail();
                    t.s.asg.rebuild_order();
                }
                _ => {
                    t.s.asg.cancel_until(t.s.asg.root_level());
                    let v = 1 + r.below(n as u64) as usize;
                    if t.free(v) && t.s.asg.assign_at_root_level(Lit::from((v, r.below(2) == 0))).is_ok() {
                        if t.s.asg.clear_asserted_literals(&mut t.s.cdb).is_err() {
                            return sx::reach(2);
                        }
                    }
                }
            },
            _ => (),
        }
    }
    while !t.decide_all(false) {
        let d = t.s.asg.decision_level();
        if d < 2 {
            return;
        }
        // some other way
        t.s.asg.cancel_until(d - 1);
        let l = t.s.asg.stack_iter().last().copied();
        if l.is_none() || r.below(4) == 0 {
            return;
        }
    }
    // in the right order in the end
    t.s.asg.cancel_until(t.s.asg.root_level());
    t.s.asg.clear_saved_trail();
    t.s.asg.rebuild_order();
    let l = t.s.asg.select_decision_literal();
    let a = t.s.asg.activity(l.vi());
    sx::check(t.free(l.vi()), 11);
    for v in 1..=n {
        sx::check(!t.free(v) || t.s.asg.activity(v) <= a, 12);
    }
    sx::reach(3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_walk() {
    walk(128, 7, 5, 24);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_walk12() {
    walk(96, 12, 14, 40);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sel_walk_x() {
    walk(1024, 9, 8, 36);
}
