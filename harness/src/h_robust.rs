//! S21: hostile arguments to the public calls.
use crate::{fx::*, sx};
use std::path::Path;

pub const ENTRIES: &[crate::Entry] = &[
    ("h_robust_calls1", h_robust_calls1),
    ("h_robust_calls2", h_robust_calls2),
    ("h_robust_calls3", h_robust_calls3),
    ("h_robust_vec", h_robust_vec),
    ("h_robust_vec2", h_robust_vec2),
    ("h_robust_counts", h_robust_counts),
    ("h_robust_repeat", h_robust_repeat),
    ("h_robust_queries", h_robust_queries),
];

fn word() -> i32 {
    sx::any(32) as u32 as i32
}
/// Runs calls with any integers; `f` gathers what was accepted. None after a contradiction.
fn call(s: &mut Solver, f: &mut F, n: &mut u64) -> Option<()> {
    let ok = |x: i32, n: u64| x != 0 && x.unsigned_abs() as u64 <= n;
    let lit = |x: i32| 2 * x.unsigned_abs() as u64 + (x > 0) as u64;
    let stop = |r: Result<(), SolverError>, valid: bool| match r {
        Ok(()) => {
            sx::check(valid, 1);
            Some(true)
        }
        Err(SolverError::InvalidLiteral) => {
            sx::check(!valid, 2);
            sx::reach(2);
            Some(false)
        }
        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {
            sx::check(valid, 3);
            sx::reach(3);
            None
        }
        Err(_) => {
            sx::check(false, 4);
            None
        }
    };
    match sx::conc(sx::below(6)) {
        0 => {
            let x = word();
            if stop(s.add_clause([x]).map(|_| ()), ok(x, *n))? {
                f.push(vec![lit(x)]);
            }
        }
        1 => {
            let (x, y) = (word(), word());
            if stop(s.add_clause([x, y]).map(|_| ()), ok(x, *n) && ok(y, *n))? {
                f.push(vec![lit(x), lit(y)]);
            }
        }
        2 => {
            let x = word();
            if stop(s.add_assignment(x).map(|_| ()), ok(x, *n))? {
                f.push(vec![lit(x)]);
            }
        }
        3 => {
            sx::check(matches!(s.add_clause([]), Err(SolverError::EmptyClause)), 5);
        }
        4 => {
            *n += 1;
            sx::check(s.add_var() as u64 == *n, 6);
        }
        _ => {
            let (x, y) = (word(), word());
            let valid = ok(x, *n) && ok(y, *n);
            // a candidate model: the solver is for its validation only from now on
            let r = s.inject_assignment(&[x, y]);
            match r {
                Ok(()) => sx::check(valid, 7),
                Err(SolverError::InvalidLiteral) => sx::check(!valid, 8),
                Err(_) => sx::check(valid, 9),
            }
            let _ = s.validate();
            sx::reach(4);
            return None;
        }
    }
    Some(())
}
fn calls(k: usize) {
    let mut n = 2;
    let m = model(n + k as u64);
    let mut s = empty_solver(n);
    let mut f: F = vec![vec![3, 5]];
    add(&mut s, &f[0]);
    let mut live = true;
    for _ in 0..k {
        if call(&mut s, &mut f, &mut n).is_none() {
            // whatever it was: no crash
            live = false;
            break;
        }
    }
    if !live {
        let x = word();
        let _ = s.add_clause([x]).map(|_| ());
        let _ = s.validate();
        return sx::reach(5);
    }
    let r = s.solve();
    crate::h_e2e::verdict(&r, &f, n as usize, m);
    drop(s);
    sx::reach(6);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_robust_calls1() {
    calls(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_robust_calls2() {
    calls(2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_robust_calls3() {
    calls(3);
}
/// A formula of any integers; a variable between 4 and the largest possible one would be allocated.
fn vector(shape: &[usize]) {
    let f: Vec<Vec<i32>> = shape.iter().map(|k| (0..*k).map(|_| word()).collect()).collect();
    let (mut valid, mut small) = (true, true);
    for x in f.iter().flatten() {
        let a = x.unsigned_abs();
        small &= (a <= 3) | (a > 0x3fff_ffff);
        valid &= (a != 0) & (a <= 3);
    }
    sx::assume(small);
    let r = Certificate::try_from(f.clone());
    match r {
        Err(SolverError::InvalidLiteral) => {
            sx::reach(1);
            sx::check(!valid, 11);
        }
        Ok(Certificate::UNSAT) if shape.contains(&0) => sx::reach(2), // the empty clause came first
        r => {
            sx::reach(2);
            sx::check(valid, 12);
            let g: F = f.iter().map(|c| c.iter().map(|x| 2 * x.unsigned_abs() as u64 + (*x > 0) as u64).collect()).collect();
            let nv = crate::h_e2e::max_var(&g);
            let m = model(3);
            crate::h_e2e::verdict(&r, &g, nv, m);
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_robust_vec() {
    match sx::conc(sx::below(4)) {
        0 => vector(&[1]),
        1 => vector(&[2]),
        2 => vector(&[0, 1]),
        _ => vector(&[1, 1]),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_robust_vec2() {
    vector(&[2, 1]);
}
/// Headers that declare too much or too little.
#[unsafe(no_mangle)]
pub extern "C" fn h_robust_counts() {
    let v = ["0", "1", "2", "3", "1073741824", "4294967295", "4294967298", "9223372036854775807", "18446744073709551615", "18446744073709551616"]
        [sx::conc(sx::below(10)) as usize];
    let c = ["0", "1", "2", "1000", "140737488355328", "1152921504606846975", "9223372036854775807", "18446744073709551615", "18446744073709551616"]
        [sx::conc(sx::below(9)) as usize];
    let l = signs(&[1, 2]);
    let text = format!("p cnf {v} {c}\n{} {} 0\n", to_i32(l[0]), to_i32(l[1]));
    for b in text.bytes() {
        sx::file_byte(b as u64);
    }
    sx::file_len(text.len() as u64);
    let path = sx::in_path();
    match Solver::try_from(Path::new(&path)) {
        Ok(mut s) => {
            sx::reach(1);
            sx::check(v == "2" || v == "3", 21);
            let m = model(3);
            let r = s.solve();
            crate::h_e2e::verdict(&r, &vec![l], v.parse().unwrap(), m);
        }
        Err(e) => {
            sx::reach(2);
            sx::check((v != "2" && v != "3") || c.len() > 19, 22);
            sx::check(matches!(e, SolverError::InvalidLiteral | SolverError::IOError | SolverError::OutOfMemory), 23);
        }
    }
}
/// The same literal many times over, in one clause and in many.
#[unsafe(no_mangle)]
pub extern "C" fn h_robust_repeat() {
    let x = 1 + sx::conc(sx::below(2)) as i32;
    let x = if sx::flag() { -x } else { x };
    let (k, j) = (sx::conc(sx::below(40)) as usize, sx::conc(sx::below(3)));
    let mut s = empty_solver(2);
    let long: Vec<i32> = (0..k).map(|_| x).chain([1, 2].into_iter().take(j as usize)).collect();
    let mut ok = !long.is_empty();
    for _ in 0..3 {
        ok &= s.add_clause(&long).is_ok();
    }
    sx::check(ok == !long.is_empty(), 31);
    let r = s.solve();
    sx::check(matches!(r, Ok(Certificate::SAT(_))), 32);
    sx::reach(1);
}
/// Questions about a solver at any time.
#[unsafe(no_mangle)]
pub extern "C" fn h_robust_queries() {
    let n = sx::conc(sx::below(3));
    let mut s = empty_solver(n);
    if n > 0 {
        let l = signs(&[1]);
        if sx::flag() {
            add(&mut s, &l);
        }
    }
    let t: Vec<i32> = (0..sx::conc(sx::below(4))).map(|_| word()).collect();
    let r = s.inject_assignment(&t);
    let mut valid = true;
    for x in &t {
        valid &= (*x != 0) & (x.unsigned_abs() as u64 <= n);
    }
    sx::check(matches!(r, Err(SolverError::InvalidLiteral)) == !valid, 41);
    let _ = s.validate();
    let _ = format!("{}", s.state);
    let _ = format!("{:?}", r);
    sx::reach(1);
}
