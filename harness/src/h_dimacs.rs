//! Reading DIMACS files.
use crate::{fx::*, sx};
use std::path::Path;

pub const ENTRIES: &[crate::Entry] = &[
    ("h_dimacs_layout", h_dimacs_layout),
    ("h_dimacs_layout2", h_dimacs_layout2),
    ("h_dimacs_body", h_dimacs_body),
    ("h_dimacs_body4", h_dimacs_body4),
    ("h_dimacs_tail", h_dimacs_tail),
    ("h_dimacs_header", h_dimacs_header),
    ("h_dimacs_numbers", h_dimacs_numbers),
    ("h_dimacs_start", h_dimacs_start),
    ("h_dimacs_none", h_dimacs_none),
];

fn space(b: u8) -> bool {
    b == b' ' || (9..=13).contains(&b)
}
/// [+-]?[0-9]+ within the limits
fn number(t: &[u8], min: i64, max: i64) -> Option<i64> {
    let (neg, d) = match t.first() {
        Some(b'-') => (true, &t[1..]),
        Some(b'+') => (false, &t[1..]),
        _ => (false, t),
    };
    if d.is_empty() || d.len() > 12 {
        return None;
    }
    let mut v = 0i64;
    for b in d {
        if !b.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (b - b'0') as i64;
    }
    let v = if neg { -v } else { v };
    (min <= v && v <= max).then_some(v)
}
fn tokens(l: &[u8]) -> Vec<&[u8]> {
    l.split(|b| space(*b)).filter(|t| !t.is_empty()).collect()
}
/// What the file says: the number of variables and the clauses; None if it is malformed.
/// `open` is set when bytes beyond ASCII leave the question open.
pub fn reference(text: &[u8], open: &mut bool) -> Option<(u64, F)> {
    if text.iter().any(|b| *b >= 0x80) {
        *open = true;
        return None;
    }
    let mut lines = text.split(|b| *b == b'\n');
    let nv = loop {
        let t = tokens(lines.next()?);
        if t.len() >= 4 && t[0] == b"p" && t[1] == b"cnf" {
            let nv = number(t[2], 0, i64::MAX)?;
            if t[2][0] == b'-' {
                return None; // -0
            }
            number(t[3], 0, i64::MAX)?;
            if t[3][0] == b'-' {
                return None;
            }
            break nv as u64;
        }
    };
    let mut f: F = vec![];
    let mut c: Vec<L> = vec![];
    for l in lines {
        if l.first() == Some(&b'c') {
            continue;
        }
        let t = tokens(l);
        if t.len() == 1 && t[0] == b"%" {
            break;
        }
        for x in t {
            let x = number(x, i32::MIN as i64, i32::MAX as i64)?;
            if x == 0 {
                f.push(std::mem::take(&mut c));
            } else {
                if x.unsigned_abs() > nv {
                    return None;
                }
                c.push(2 * x.unsigned_abs() + (x > 0) as u64);
            }
        }
    }
    if !c.is_empty() {
        f.push(c);
    }
    Some((nv, f))
}
fn load(text: &[u8]) -> Result<Solver, SolverError> {
    for b in text {
        sx::file_byte(*b as u64);
    }
    sx::file_len(text.len() as u64);
    let path = sx::in_path();
    Solver::try_from(Path::new(&path))
}
fn judge(text: &[u8]) {
    let r = load(text);
    let mut open = false;
    let want = reference(text, &mut open);
    if open {
        sx::reach(4);
        return;
    }
    match (r, want) {
        (Ok(s), Some((nv, f))) => {
            sx::reach(1);
            sx::check(s.asg.num_vars as u64 == nv && s.state.target.num_of_variables as u64 == nv, 1);
            let m = model(nv);
            let fm = f_tv(&f, m);
            let got = cdb_tv(&s.cdb, m) & root_tv(&s.asg, nv, m);
            sx::check(imp(fm, got), 2);
            sx::check(imp(got, fm), 3);
            for c in s.cdb.iter().skip(1) {
                sx::trace(c.len() as u64);
            }
        }
        (Ok(_), None) => sx::check(false, 4),
        (Err(e), Some((nv, f))) => {
            sx::reach(2);
            sx::check(matches!(e, SolverError::EmptyClause | SolverError::RootLevelConflict(_)), 5);
            let m = model(nv);
            sx::check(f_tv(&f, m) == 0, 6);
        }
        (Err(_), None) => sx::reach(3),
    }
}
fn put(t: &mut Vec<u8>, s: &str) {
    t.extend_from_slice(s.as_bytes());
}
/// Well-formed files in any layout: the k-th separator is unusual.
fn layout(n: u64, shape: &[usize], odd: usize) {
    let mut t: Vec<u8> = vec![];
    let mut f: F = vec![];
    let places = shape.iter().map(|k| k + 1).sum::<usize>() as u64;
    let odds: Vec<(u64, u64)> =
        (0..odd).map(|_| (sx::conc(sx::below(places)), sx::conc(sx::below(7)))).collect();
    if sx::flag() {
        put(&mut t, "c p cnf 9 9\nc\n");
    }
    put(&mut t, if sx::flag() { "p cnf " } else { "p  cnf\t" });
    t.push(b'0' + n as u8);
    put(&mut t, " 3\n");
    let mut k = 0;
    for len in shape {
        let mut c = vec![];
        for i in 0..=*len {
            if i == *len {
                t.push(b'0');
            } else {
                let v = 1 + sx::below(n);
                let s = sx::flag();
                if !s {
                    t.push(b'-');
                }
                t.push(b'0' + v as u8);
                c.push(2 * v + s as u64);
            }
            let mut sep = if i == *len { "\n" } else { " " };
            for (p, w) in &odds {
                if *p == k {
                    sep = [" ", "\n", " \t ", "\n\n", "\nc 1 0 c\n", "\r\n", "\n "][*w as usize];
                }
            }
            put(&mut t, sep);
            k += 1;
        }
        f.push(c);
    }
    if sx::flag() {
        if t.last() != Some(&b'\n') {
            t.push(b'\n');
        }
        put(&mut t, "%\n0\n");
    }
    let r = load(&t);
    let m = model(n);
    match r {
        Ok(s) => {
            sx::reach(1);
            sx::check(s.asg.num_vars as u64 == n, 1);
            let fm = f_tv(&f, m);
            let got = cdb_tv(&s.cdb, m) & root_tv(&s.asg, n, m);
            sx::check(imp(fm, got), 2);
            sx::check(imp(got, fm), 3);
        }
        Err(e) => {
            sx::reach(2);
            sx::check(matches!(e, SolverError::EmptyClause | SolverError::RootLevelConflict(_)), 5);
            sx::check(f_tv(&f, m) == 0, 6);
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_dimacs_layout() {
    layout(2, &[2, 1, 1], 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_dimacs_layout2() {
    layout(2, &[2, 1], 2);
}
/// `?` in the template is any byte.
fn template(t: &str) {
    let text: Vec<u8> = t.bytes().map(|b| if b == b'?' { sx::any(8) as u8 } else { b }).collect();
    judge(&text);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_dimacs_body() {
    let k = sx::conc(sx::below(6)) as usize;
    template(
        [
            "p cnf 3 2\n1 ?? 0\n-2 3 0\n",
            "p cnf 3 2\n1 2 0??3 0\n",
            "p cnf 3 2\n??1 2 0\n-3 1 0\n",
            "p cnf 3 2\n1 2?\n?3 0\n-1 0\n",
            "p cnf 3 2\n1 0\n?\n?2 0\n",
            "p cnf 3 2\n2 -?3 0 ?1 0",
        ][k],
    );
}
#[unsafe(no_mangle)]
pub extern "C" fn h_dimacs_body4() {
    let k = sx::conc(sx::below(2)) as usize;
    template(["p cnf 3 2\n1 ???? 0\n-2 3 0\n", "p cnf 12 2\n????2 0\n"][k]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_dimacs_tail() {
    let k = sx::conc(sx::below(3)) as usize;
    template(["p cnf 3 2\n1 2 0\n-1 3??", "p cnf 3 1\n???", "p cnf 2 1\n1 2 0\n%??0"][k]);
}
/// One byte of the header is anything.
#[unsafe(no_mangle)]
pub extern "C" fn h_dimacs_header() {
    let base = b"p cnf 2 3\n1 -2 0\n";
    let mut t = base.to_vec();
    let i = sx::conc(sx::below(10)) as usize;
    t[i] = sx::any(8) as u8;
    if sx::flag() {
        t.truncate(i + 1);
    }
    judge(&t);
}
/// Numbers of all kinds.
#[unsafe(no_mangle)]
pub extern "C" fn h_dimacs_numbers() {
    let x = [
        "2147483647", "-2147483648", "2147483648", "4294967297", "-4294967295", "18446744073709551617", "-4", "4", "0001",
        "+2", "-0", "1-", "--1", "1.0", "0x1", "-", "+", "1e0", "3", "-3", "00", "p", "cnf", "%", "c",
    ][sx::conc(sx::below(25)) as usize];
    let mut t = vec![];
    if sx::flag() {
        put(&mut t, "p cnf 3 2\n1 ");
        put(&mut t, x);
        put(&mut t, " 0\n-1 2 0\n");
    } else {
        let x = match number(x.as_bytes(), 10, i64::MAX) {
            // too large to be allocated
            Some(_) => "-9",
            None => x,
        };
        put(&mut t, "p cnf ");
        put(&mut t, x);
        put(&mut t, " 1\n1 0\n");
    }
    judge(&t);
}
/// The first bytes of a file are anything.
#[unsafe(no_mangle)]
pub extern "C" fn h_dimacs_start() {
    let k = sx::conc(sx::below(3)) as usize;
    template(["???", "??p cnf 1 1\n1 0\n", "c?\n?p cnf 1 1\n1 0\n"][k]);
}
/// There is no such file.
#[unsafe(no_mangle)]
pub extern "C" fn h_dimacs_none() {
    let r = Solver::try_from(Path::new("/sx/missing.cnf"));
    sx::check(matches!(r, Err(SolverError::IOError)), 7);
}
