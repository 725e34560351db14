//! Fixtures and semantic oracles shared by the harnesses.
use crate::sx;
pub use splr::assign::{AssignIF, AssignStack, PropagateIF, VarManipulateIF, VarSelectIF};
#[cfg(not(any(feature = "fb", feature = "fc")))]
#[allow(unused_imports)]
pub use splr::assign::TrailSavingIF;
pub use splr::cdb::{ClauseDB, ClauseDBIF, VivifyIF};
pub use splr::processor::{EliminateIF, Eliminator};
pub use splr::solver::{SatSolverIF, SolveIF, Solver, SolverEvent, ValidateIF};
pub use splr::state::{State, StateIF};
pub use splr::types::*;
pub use splr::{Certificate, Config};

/// A literal as its code: 2v (negative) or 2v+1 (positive).
pub type L = u64;
pub type F = Vec<Vec<L>>;

/// A symbolic literal over variables 1..=n.
pub fn code(n: u64) -> L {
    2 + sx::below(2 * n)
}
pub fn to_i32(c: L) -> i32 {
    let v = (c >> 1) as i32;
    let neg = (c & 1) as i32 - 1;
    (v ^ neg) - neg
}
pub fn to_lit(c: L) -> Lit {
    Lit::from(c as usize)
}
pub fn of(l: Lit) -> L {
    usize::from(l) as u64
}
/// Truth value (0/1) of a literal under the total assignment whose bit v is variable v.
pub fn tv(c: L, m: u64) -> u64 {
    ((m >> (c >> 1)) ^ c ^ 1) & 1
}
pub fn clause_tv(c: &[L], m: u64) -> u64 {
    let mut r = 0;
    for l in c {
        r |= tv(*l, m);
    }
    r
}
pub fn f_tv(f: &[Vec<L>], m: u64) -> u64 {
    let mut r = 1;
    for c in f {
        r &= clause_tv(c, m);
    }
    r
}
/// A symbolic total assignment of n variables (bit 0 unused).
pub fn model(n: u64) -> u64 {
    sx::any(n as u32) << 1
}
pub fn imp(a: u64, b: u64) -> bool {
    (a & !b) & 1 == 0
}
/// A clause of k literals in strictly increasing code order over n variables, no complementary pair.
pub fn sorted_clause(n: u64, k: usize) -> Vec<L> {
    let mut v: Vec<L> = vec![];
    let mut ok = true;
    for i in 0..k {
        let c = code(n);
        if i > 0 {
            ok &= (v[i - 1] >> 1) < (c >> 1);
        }
        v.push(c);
    }
    sx::assume(ok);
    v
}
/// Clause over the given variables with symbolic signs.
pub fn signs(vars: &[u64]) -> Vec<L> {
    vars.iter().map(|v| v * 2 + sx::any(1)).collect()
}
pub fn empty_solver(n: u64) -> Solver {
    empty_solver_cfg(n, Config::default())
}
pub fn empty_solver_cfg(n: u64, config: Config) -> Solver {
    let cnf = CNFDescription { num_of_variables: n as usize, ..CNFDescription::default() };
    Solver::instantiate(&config, &cnf)
}
pub fn add(s: &mut Solver, c: &[L]) -> bool {
    let v: Vec<i32> = c.iter().map(|c| to_i32(*c)).collect();
    s.add_clause(v).is_ok()
}
pub fn clause_of(c: &Clause) -> Vec<L> {
    c.iter().map(|l| of(*l)).collect()
}
/// Conjunction of the live clauses of the database.
pub fn cdb_tv(cdb: &ClauseDB, m: u64) -> u64 {
    let mut r = 1;
    for c in cdb.iter().skip(1) {
        if !c.is_dead() {
            r &= clause_tv(&clause_of(c), m);
        }
    }
    r
}
/// Conjunction of the root-level assignments.
pub fn root_tv(asg: &AssignStack, n: u64, m: u64) -> u64 {
    let mut r = 1;
    for vi in 1..=n {
        if let Some(b) = asg.assign(vi as usize) {
            if asg.level(vi as usize) == asg.root_level() {
                r &= tv(2 * vi + b as u64, m);
            }
        }
    }
    r
}
pub fn asg_code(asg: &AssignStack, c: L) -> Option<bool> {
    asg.assigned(to_lit(c))
}
/// Register a clause (two or more distinct literals, no complementary pair) directly.
pub fn add_lits(s: &mut Solver, c: &[L]) -> RefClause {
    let mut v: Vec<Lit> = c.iter().map(|c| to_lit(*c)).collect();
    s.cdb.new_clause(&mut s.asg, &mut v, false)
}

/// A fixed pseudo-random sequence, from which the skeletons of larger formulas are taken. The
/// number of the skeleton is an input; so are some of the signs.
pub struct Rnd(u64);
impl Rnd {
    pub fn new(k: u64) -> Rnd {
        let mut r = Rnd((k + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
        for _ in 0..4 {
            r.next();
        }
        r
    }
    /// One of k skeletons, as an input.
    pub fn pick(k: u64) -> Rnd {
        Rnd::new(sx::conc(sx::below(k)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0 >> 11
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    /// A clause of k different variables of 1..=n, in their order.
    pub fn clause(&mut self, n: u64, k: usize) -> Vec<L> {
        let mut v: Vec<L> = vec![];
        while v.len() < k {
            let x = 2 + self.below(2 * n);
            if v.iter().all(|l| l >> 1 != x >> 1) {
                v.push(x);
            }
        }
        v.sort();
        v
    }
    pub fn formula(&mut self, n: u64, shape: &[usize]) -> F {
        shape.iter().map(|k| self.clause(n, *k)).collect()
    }
    /// Lengths from lo to hi.
    pub fn shape(&mut self, num: usize, lo: usize, hi: usize) -> Vec<usize> {
        (0..num).map(|_| lo + self.below((hi - lo + 1) as u64) as usize).collect()
    }
    /// Make k signs of the formula inputs.
    pub fn vary(&mut self, f: &mut F, k: usize) {
        let mut done: Vec<(usize, usize)> = vec![];
        while done.len() < k {
            let i = self.below(f.len() as u64) as usize;
            let j = self.below(f[i].len() as u64) as usize;
            if !done.contains(&(i, j)) {
                done.push((i, j));
                f[i][j] ^= sx::any(1);
            }
        }
    }
    /// Clauses that follow from the formula (resolvents of two clauses, perhaps with a literal
    /// more), after k signs elsewhere have been made inputs.
    pub fn derive(&mut self, n: u64, f: &mut F, num: usize, k: usize) -> F {
        let mut pairs: Vec<(usize, usize, L)> = vec![];
        for _ in 0..400 {
            if pairs.len() == num {
                break;
            }
            let (i, j) = (self.below(f.len() as u64) as usize, self.below(f.len() as u64) as usize);
            let common: Vec<L> = f[i].iter().filter(|l| f[j].iter().any(|x| x >> 1 == **l >> 1)).copied().collect();
            if i != j && common.len() == 1 && f[j].contains(&(common[0] ^ 1)) && f[i].len() + f[j].len() > 4 {
                pairs.push((i, j, common[0]));
            }
        }
        let fixed: Vec<(usize, L)> = pairs.iter().flat_map(|(i, j, l)| [(*i, *l), (*j, *l ^ 1)]).collect();
        let mut left = k;
        for _ in 0..1000 {
            if left == 0 {
                break;
            }
            let i = self.below(f.len() as u64) as usize;
            let j = self.below(f[i].len() as u64) as usize;
            let l = f[i][j];
            // twice the same place does no harm
            if !fixed.iter().any(|(a, x)| *a == i && *x >> 1 == l >> 1) {
                f[i][j] ^= sx::any(1);
                left -= 1;
            }
        }
        pairs
            .iter()
            .map(|(i, j, l)| {
                let mut c: Vec<L> = f[*i].iter().filter(|x| **x >> 1 != *l >> 1).copied().collect();
                c.extend(f[*j].iter().filter(|x| **x >> 1 != *l >> 1));
                let x = 2 + self.below(2 * n);
                if self.below(3) == 0 && c.iter().all(|y| y >> 1 != x >> 1) {
                    c.push(x);
                }
                c
            })
            .collect()
    }
}
pub fn learn(s: &mut Solver, c: &[L]) -> RefClause {
    let mut v: Vec<Lit> = c.iter().map(|c| to_lit(*c)).collect();
    s.cdb.new_clause(&mut s.asg, &mut v, true)
}
