//! S15: the CNF type - building, dumping, saving and loading.
use crate::sx;
use splr::cnf::{CNF, CNFOperationError, CnfIf};
use std::path::Path;

type C = Vec<i32>;
pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_cnf_build", h_cnf_build),
    ("h_cnf_mixed", h_cnf_mixed),
    ("h_cnf_wide", h_cnf_wide),
    ("h_cnf_extreme", h_cnf_extreme),
    ("h_cnf_body", h_cnf_body),
    ("h_cnf_body4", h_cnf_body4),
    ("h_cnf_tail", h_cnf_tail),
    ("h_cnf_header", h_cnf_header),
    ("h_cnf_layout", h_cnf_layout),
    ("h_cnf_over", h_cnf_over),
];

fn space(b: u8) -> bool {
    b == b' ' || (9..=13).contains(&b)
}
fn number(t: &[u8], min: i64, max: i64) -> Option<i64> {
    let (neg, d) = match t.first() {
        Some(b'-') => (true, &t[1..]),
        Some(b'+') => (false, &t[1..]),
        _ => (false, t),
    };
    if d.is_empty() || d.len() > 12 {
        return None;
    }
    let mut v = 0i64;
    for b in d {
        if !b.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (b - b'0') as i64;
    }
    let v = if neg { -v } else { v };
    (min <= v && v <= max).then_some(v)
}
fn tokens(l: &[u8]) -> Vec<&[u8]> {
    l.split(|b| space(*b)).filter(|t| !t.is_empty()).collect()
}
/// The declared counts and the clauses of a text, None if malformed.
fn parse(text: &[u8]) -> Option<(u64, u64, Vec<C>)> {
    let mut lines = text.split(|b| *b == b'\n');
    let (nv, nc) = loop {
        let l = lines.next()?;
        if l.first() == Some(&b'c') {
            continue;
        }
        let t = tokens(l);
        if t.len() >= 4 && t[0] == b"p" && t[1] == b"cnf" {
            if t[2][0] == b'-' || t[3][0] == b'-' {
                return None;
            }
            break (number(t[2], 0, u32::MAX as i64)? as u64, number(t[3], 0, i64::MAX)? as u64);
        }
    };
    let mut f = vec![];
    let mut c = vec![];
    for l in lines {
        if l.first() == Some(&b'c') {
            continue;
        }
        let t = tokens(l);
        if t.len() == 1 && t[0] == b"%" {
            break;
        }
        for x in t {
            let x = number(x, i32::MIN as i64, i32::MAX as i64)? as i32;
            if x == 0 {
                f.push(std::mem::take(&mut c));
            } else {
                c.push(x);
            }
        }
    }
    if !c.is_empty() {
        f.push(c);
    }
    Some((nv, nc, f))
}
fn sorted(c: &C) -> C {
    let mut c = c.clone();
    c.sort_unstable();
    c
}
/// The clauses without repetitions, in order.
fn distinct(f: &[C]) -> Vec<C> {
    let mut r: Vec<C> = vec![];
    for c in f {
        if !r.iter().any(|d| sorted(d) == sorted(c)) {
            r.push(c.clone());
        }
    }
    r
}
fn max_var(f: &[C]) -> u64 {
    f.iter().flatten().map(|l| l.unsigned_abs() as u64).max().unwrap_or(0)
}
fn same_set(f: &[C], g: &[C]) -> bool {
    f.iter().all(|c| g.iter().any(|d| sorted(c) == sorted(d))) && g.iter().all(|c| f.iter().any(|d| sorted(c) == sorted(d)))
}
/// The value says what it was built from.
fn says(cnf: &CNF, f: &[C], id: u32) {
    let text = cnf.dump_to_string();
    let Some((nv, nc, g)) = parse(text.as_bytes()) else {
        return sx::check(false, id);
    };
    sx::check(same_set(f, &g), id + 1);
    sx::check(nc == g.len() as u64 && nc == cnf.num_clauses() as u64, id + 2);
    sx::check(nv == cnf.num_vars() as u64 && nv == max_var(f), id + 3);
    sx::check(distinct(f).len() <= g.len() && g.len() <= f.len(), id + 4);
}
fn round_trip(cnf: &CNF, f: &[C]) {
    sx::out_clear();
    let out = sx::out_path();
    sx::check(cnf.save(Path::new(&out)).is_ok(), 30);
    let n = sx::out_len();
    for i in 0..n {
        sx::file_byte(sx::out_byte(i));
    }
    sx::file_len(n);
    let path = sx::in_path();
    match CNF::load(Path::new(&path)) {
        Ok(got) => {
            sx::reach(1);
            says(&got, f, 40);
            sx::check(got.num_vars() == cnf.num_vars(), 32);
            if distinct(f).len() == cnf.num_clauses() {
                sx::check(got.num_clauses() == cnf.num_clauses(), 33);
                sx::check(got.dump_to_string() == cnf.dump_to_string(), 34);
            }
        }
        Err(_) => sx::check(false, 31),
    }
}
/// `first` clauses through the constructor, the others one by one.
fn build(first: &[C], rest: &[C]) {
    let mut f: Vec<C> = first.to_vec();
    let empty = f.iter().position(|c| c.is_empty());
    let clash = (0..f.len()).find(|i| f[*i].len() == 1 && f[..*i].iter().any(|d| d.len() == 1 && d[0] as i64 == -(f[*i][0] as i64)));
    let mut cnf = match CNF::from_vec_i32(first) {
        Ok(c) => {
            sx::check(empty.is_none() && clash.is_none(), 1);
            c
        }
        Err(CNFOperationError::AddingEmptyClause) => {
            sx::reach(2);
            return sx::check(empty.is_some(), 2);
        }
        Err(CNFOperationError::AddignConflictingAssingment) => {
            sx::reach(3);
            return sx::check(clash.is_some(), 3);
        }
        Err(_) => return sx::check(false, 4),
    };
    says(&cnf, &f, 10);
    for c in rest {
        let before = cnf.dump_to_string();
        let known = f.iter().any(|d| sorted(d) == sorted(c));
        match cnf.add_clause(c) {
            Ok(_) => {
                sx::check(!known && !c.is_empty(), 5);
                f.push(c.clone());
            }
            Err(CNFOperationError::AddingClauseExists) => {
                sx::reach(4);
                sx::check(known, 6);
                sx::check(cnf.dump_to_string() == before, 8);
            }
            Err(CNFOperationError::AddingEmptyClause) => {
                sx::reach(5);
                sx::check(c.is_empty(), 7);
                sx::check(cnf.dump_to_string() == before, 8);
            }
            Err(_) => sx::check(false, 9),
        }
        sx::trace(cnf.num_clauses() as u64);
    }
    says(&cnf, &f, 20);
    round_trip(&cnf, &f);
}
fn lit(n: u64) -> i32 {
    let v = (1 + sx::conc(sx::below(n))) as i32;
    if sx::conc(sx::any(1)) == 0 { v } else { -v }
}
fn clause(min: u64, max: u64, n: u64) -> C {
    let k = min + sx::conc(sx::below(max - min + 1));
    (0..k).map(|_| lit(n)).collect()
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cnf_build() {
    let f = [clause(0, 2, 2), clause(0, 2, 2), clause(1, 1, 2)];
    let k = sx::conc(sx::below(4)) as usize;
    build(&f[..k], &f[k..]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cnf_mixed() {
    let f = [vec![1, -2, 3], clause(3, 3, 3), vec![-2], clause(1, 1, 3), vec![3, 1, -2, 5]];
    let k = sx::conc(sx::below(6)) as usize;
    build(&f[..k], &f[k..]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cnf_wide() {
    let n = 1 + sx::conc(sx::below(12)) as i32;
    let c: C = (1..=n).map(|v| if sx::conc(sx::any(1)) == 0 { v } else { -v * 1000 }).collect();
    let mut d = c.clone();
    d.reverse();
    build(&[c], &[d]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cnf_extreme() {
    let x = [1, -1, i32::MAX, -i32::MAX, i32::MIN, 1 << 30, -(1 << 30), 99_999, -100_000];
    let mut pick = || x[sx::conc(sx::below(x.len() as u64)) as usize];
    let f = [vec![pick()], vec![pick(), 7], vec![pick()]];
    let k = sx::conc(sx::below(4)) as usize;
    build(&f[..k], &f[k..]);
}
/// A file with these bytes.
fn judge(text: &[u8]) {
    for b in text {
        sx::file_byte(*b as u64);
    }
    sx::file_len(text.len() as u64);
    let path = sx::in_path();
    let r = CNF::load(Path::new(&path));
    if text.iter().any(|b| *b >= 0x80) {
        return sx::reach(6);
    }
    let want = parse(text).filter(|(_, nc, f)| {
        let d = distinct(f).len();
        f.iter().all(|c| !c.is_empty()) && (d < f.len() || d as u64 == *nc)
    });
    match (r, want) {
        (Ok(c), Some((_, _, f))) => {
            sx::reach(7);
            sx::check(c.num_clauses() == distinct(&f).len(), 60);
            says(&c, &f, 61);
        }
        (Err(_), None) => sx::reach(8),
        (Ok(_), None) => sx::check(false, 70),
        (Err(_), Some(_)) => sx::check(false, 71),
    }
}
fn template(t: &str) {
    // digits one by one: the clauses are hashed
    let any = || {
        let b = sx::any(8);
        (if (b as u8).is_ascii_digit() { sx::conc(b) } else { b }) as u8
    };
    let text: Vec<u8> = t
        .bytes()
        .map(|b| match b {
            b'?' => any(),
            b'_' => {
                let b = any();
                sx::assume(b < 0x80);
                b
            }
            b => b,
        })
        .collect();
    judge(&text);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cnf_body() {
    let k = sx::conc(sx::below(5)) as usize;
    template(
        [
            "p cnf 3 2\n1 ?? 0\n-2 3 0\n",
            "p cnf 3 2\n1 2 0??3 0\n",
            "p cnf 3 2\n??1 2 0\n-3 1 0\n",
            "p cnf 3 2\n1 2?\n?3 0\n-1 0\n",
            "p cnf 3 2\n1 0\n?\n?2 0\n",
        ][k],
    );
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cnf_body4() {
    template("p cnf 3 2\n1 ?0??2 0\n");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cnf_tail() {
    let k = sx::conc(sx::below(3)) as usize;
    template(["p cnf 2 2\n1 0\n-2 0?__", "p cnf 2 1\n1 0?__", "p cnf 2 1?__"][k]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cnf_header() {
    let k = sx::conc(sx::below(5)) as usize;
    template(["? cnf 2 1\n1 -2 0\n", "p cnf ?? 1\n1 -2 0\n", "p cnf 2 ??\n1 -2 0\n", "??p cnf 2 1\n1 -2 0\n", "c?\np cnf 2? 1\n-1 0\n"][k]);
}
/// Any separator at two places.
#[unsafe(no_mangle)]
pub extern "C" fn h_cnf_layout() {
    let odd: Vec<(u64, u64)> = (0..2).map(|_| (sx::conc(sx::below(7)), sx::conc(sx::below(7)))).collect();
    let mut t: Vec<u8> = b"c p cnf 9 9\np cnf 3 3\n".to_vec();
    for (k, w) in ["1", "-2", "0", "3", "0", "-3", "0"].iter().enumerate() {
        t.extend_from_slice(w.as_bytes());
        let mut sep = if *w == "0" { "\n" } else { " " };
        for (p, o) in &odd {
            if *p == k as u64 {
                sep = [" ", "\n", " \t ", "\n \n", "\nc 1 0 c\n", "\r\n", "\n "][*o as usize];
            }
        }
        t.extend_from_slice(sep.as_bytes());
    }
    judge(&t);
}
/// Saved where there is something already: a longer or shorter value, or anything.
#[unsafe(no_mangle)]
pub extern "C" fn h_cnf_over() {
    sx::file_sel(1);
    if sx::conc(sx::any(1)) == 1 {
        let k = sx::conc(sx::below(40));
        for i in 0..k {
            sx::file_byte(if i == 0 { sx::any(8) } else { b"1 -2 0\n"[i as usize % 7] as u64 });
        }
        sx::file_len(k);
    } else {
        let old = CNF::from_vec_i32(&[clause(1, 2, 3), vec![1, 2, 3, 4]]).unwrap();
        sx::check(old.save(Path::new(&sx::path(1))).is_ok(), 80);
    }
    let f = [clause(1, 2, 2), clause(1, 1, 3)];
    if f[0].len() == 1 && f[1].len() == 1 && f[0][0] == -f[1][0] {
        return;
    }
    let cnf = CNF::from_vec_i32(&f).unwrap();
    sx::check(cnf.save(Path::new(&sx::path(1))).is_ok(), 81);
    let text: Vec<u8> = (0..sx::out_len()).map(|i| sx::out_byte(i) as u8).collect();
    sx::check(text == cnf.dump_to_string().as_bytes(), 82);
    sx::reach(1);
    sx::trace(text.len() as u64);
}
