//! The programs `splr` and `dmcr`, from their arguments and files to what they print, write and
//! exit with.
use crate::{
    fx::*,
    h_drat::{Checker, Step, parse},
    sx,
};
#[allow(unused, clippy::all)]
mod splr_main {
    include!(concat!(env!("OUT_DIR"), "/splr.rs"));
}
#[allow(unused, clippy::all)]
mod dmcr_main {
    include!(concat!(env!("OUT_DIR"), "/dmcr.rs"));
}
use std::{cell::RefCell, process::ExitCode};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_cli_any", h_cli_any),
    ("h_cli_units", h_cli_units),
    ("h_cli_skel", h_cli_skel),
    ("h_cli_skel5", h_cli_skel5),
    ("h_cli_pipe", h_cli_pipe),
    ("h_cli_time", h_cli_time),
    ("h_cli_name", h_cli_name),
    ("h_cli_bad", h_cli_bad),
    ("h_cli_none", h_cli_none),
    ("h_cli_dmcr", h_cli_dmcr),
    ("h_cli_dmcr_skel", h_cli_dmcr_skel),
    ("h_cli_dmcr_text", h_cli_dmcr_text),
];

fn status(e: ExitCode) -> i32 {
    (0..=255u8).find(|k| ExitCode::from(*k) == e).map_or(-1, |k| k as i32)
}
fn start(main: fn() -> ExitCode, args: &[&str], then: fn(i32)) {
    sx::on_exit(Some(then));
    sx::args(&args.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    sx::file_sel(1000);
    sx::out_clear();
    sx::capture(true);
    let code = status(main());
    sx::on_exit(None);
    then(code);
}
fn text(k: u64) -> Vec<u8> {
    sx::file_sel(k);
    (0..sx::out_len()).map(|i| sx::out_byte(i) as u8).collect()
}
/// An old result, longer than any new one.
fn old() -> Vec<u8> {
    let mut t = b"c old\n".repeat(1200);
    t.extend_from_slice(b"s SATISFIABLE\nv 1 2 3 0\ns UNSATISFIABLE\n");
    t
}
fn put(k: u64, t: &[u8]) {
    sx::file_sel(k);
    sx::out_clear();
    for b in t {
        sx::file_byte(*b as u64);
    }
    sx::file_len(t.len() as u64);
}
fn lit_text(t: &mut Vec<u8>, l: L) {
    // a space or a sign, and a digit
    t.push(32 + 13 * (1 - (l & 1)) as u8);
    let v = sx::conc(l >> 1);
    if v >= 10 {
        t.push(b'0' + (v / 10) as u8);
    }
    t.push(b'0' + (v % 10) as u8);
    t.push(b' ');
}
fn put_cnf(n: u64, f: &F) {
    put_cnf_in(1, n, f);
}
fn put_cnf_in(k: u64, n: u64, f: &F) {
    let mut t = format!("c a comment\np cnf {n} {}\n", f.len()).into_bytes();
    for c in f {
        for l in c {
            lit_text(&mut t, *l);
        }
        t.extend_from_slice(b"0\n");
    }
    put(k, &t);
}
fn has(t: &[u8], p: &[u8]) -> bool {
    t.windows(p.len()).any(|w| w == p)
}
struct Job {
    f: F,
    n: u64,
    m: u64,
    source: u64,
    result: u64,
    proof: Option<u64>,
    pipe: bool,
    /// the formula's file
    text: Vec<u8>,
    /// the time limit is over
    late: bool,
    /// no progress messages, no colours
    quiet: bool,
    plain: bool,
}
thread_local! {
    static JOB: RefCell<Option<Job>> = const { RefCell::new(None) };
}
/// The verdict lines and the model in a result file.
fn verdicts(t: &[u8]) -> (bool, bool, Vec<Vec<i32>>) {
    let (mut sat, mut unsat, mut v) = (false, false, vec![]);
    for l in t.split(|b| *b == b'\n') {
        sat |= l == b"s SATISFIABLE";
        unsat |= l == b"s UNSATISFIABLE";
        if l.starts_with(b"v ") {
            let l = String::from_utf8_lossy(&l[2..]).to_string();
            let mut x: Vec<i32> = l.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
            // the end mark
            sx::check(x.pop() == Some(0) && !x.contains(&0), 20);
            v.push(x);
        }
    }
    (sat, unsat, v)
}
/// Is there a sequence `ESC [ numbers m`?
fn coloured(t: &[u8]) -> bool {
    (0..t.len()).any(|i| {
        t[i] == 27 && t.get(i + 1) == Some(&b'[') && {
            let rest = &t[i + 2..];
            let k = rest.iter().take_while(|b| b.is_ascii_digit() || **b == b';').count();
            rest.get(k) == Some(&b'm')
        }
    })
}
fn judge(code: i32) {
    let j = JOB.with(|j| j.borrow_mut().take()).unwrap();
    sx::capture(false);
    let out = text(1000);
    let (s, u) = (has(&out, b"s SATISFIABLE"), has(&out, b"s UNSATISFIABLE"));
    sx::check(has(&out, b"s UNKNOWN") == (code == 0), 1);
    sx::check(text(j.source) == j.text, 14);
    if j.quiet && j.result != 1000 {
        // nothing but the verdict (and where the proof is)
        sx::reach(5);
        let mut t = &out[..];
        for p in [&b" Certificate|file: "[..], b"\x1b[1G\x1b[K"] {
            if t.starts_with(p) && (p.len() < 10 || j.proof.is_some()) {
                t = &t[t.iter().position(|b| *b == if p.len() < 10 { b'K' } else { b'\n' }).unwrap_or(0) + 1..];
            }
        }
        sx::check(t.ends_with(b"\n") && t.iter().filter(|b| **b == b'\n').count() == 1, 17);
        sx::check(coloured(t) != j.plain && (t.starts_with(b"s ") || !j.plain && t.starts_with(b"\x1b[")), 18);
    }
    if j.plain {
        sx::reach(6);
        sx::check(!coloured(&out), 19);
    }
    let res = text(j.result);
    let (rs, ru, rv) = verdicts(&res);
    sx::trace(code as u64);
    match code {
        10 => {
            sx::reach(1);
            sx::check(s && !u, 2);
            sx::check(rs && !ru && rv.len() == 1, 3);
            let v = &rv[0];
            sx::check(v.len() as u64 == j.n && v.iter().enumerate().all(|(i, x)| x.unsigned_abs() as usize == i + 1), 4);
            let mut bits = 0u64;
            for x in v {
                sx::trace(*x as u64 & 0xff);
                bits |= ((*x > 0) as u64) << x.unsigned_abs();
            }
            sx::check(f_tv(&j.f, bits) == 1, 5);
            if j.pipe {
                start(dmcr_main::verif_run, &["dmcr", "-a", &sx::path(j.result), &sx::path(1)], |_| ());
                sx::capture(false);
                sx::check(has(&text(1000), b"A valid assignment set for"), 12);
            }
        }
        20 => {
            sx::reach(2);
            sx::check(u && !s, 6);
            sx::check(f_tv(&j.f, j.m) == 0, 7);
            sx::check(ru && !rs && rv.is_empty(), 8);
            if let Some(k) = j.proof {
                sx::reach(3);
                let steps = parse(j.n, &text(k));
                sx::check(steps.is_some(), 9);
                let mut steps = steps.unwrap();
                let closed = matches!(steps.pop(), Some(Step::Add(c)) if c.is_empty());
                sx::check(closed, 10);
                let f: F = j.f.iter().map(|c| c.iter().map(|l| sx::conc(*l)).collect()).collect();
                let mut p = Checker::new(j.n, &f);
                let ok = steps.iter().all(|s| match s {
                    Step::Add(c) => p.add(c),
                    Step::Delete(c) => p.delete(c),
                });
                sx::check(ok && p.refuted(), 11);
            }
        }
        0 => {
            sx::reach(4);
            sx::check(j.late && !s && !u, 15);
            sx::check(!rs && !ru && rv.is_empty() && has(&res, b"\ns UNKNOWN\n"), 16);
        }
        _ => sx::check(false, 13),
    }
}
/// The file has a name of any length, with letters outside ASCII, in any way to show it.
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_name() {
    let k = 2000 + sx::conc(sx::below(120));
    let how = sx::conc(sx::below(3));
    let (a, b) = (sx::below(2), sx::below(2));
    let f: F = vec![vec![2 + a, 4], vec![2, 5], vec![3, 5], vec![2 + b, 4]];
    put_cnf_in(k, 2, &f);
    let m = model(2);
    let p = sx::path(k);
    let n = sx::name(k);
    let text = text(k);
    JOB.with(|j| *j.borrow_mut() = Some(Job { f, n: 2, m, source: k, result: 1000 + k, proof: None, pipe: false, text, late: false, quiet: how == 2, plain: how == 0 }));
    start(splr_main::verif_run, &[&["splr", "-C", &n][..], &["splr", &p], &["splr", "-q", &p]][how as usize], judge);
}
/// A run that does not end in time says so.
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_time() {
    use crate::h_time::{LIMITS, QUARTERS, at, formula};
    let n = 20;
    let f = formula(4, n, 88, 1);
    let m = model(n);
    put_cnf(n, &f);
    let k = 1 + sx::conc(sx::below(LIMITS.len() as u64 - 1)) as usize;
    let t = sx::conc(sx::below(4)) * 4 + 1;
    let (secs, nanos) = at(0);
    sx::clock(secs, nanos);
    let (secs, nanos) = at(t);
    sx::clock_at(1 + sx::conc(sx::below(3)), secs, nanos);
    splr::solver::verif::STAGE_SIZE.store(1, std::sync::atomic::Ordering::Relaxed);
    let limit = LIMITS[k].to_string();
    // (at a stage end, too)
    let how = sx::conc(sx::below(3));
    let (long, quiet) = (how != 1, how == 2);
    put(101, &old());
    JOB.with(|j| *j.borrow_mut() = Some(Job { f, n, m, source: 1, result: 101, proof: None, pipe: false, text: text(1), late: t >= QUARTERS[k], quiet, plain: quiet }));
    let mut a = vec!["splr", if long { "--timeout" } else { "-t" }, &limit, "f1.cnf"];
    if quiet {
        a.splice(1..1, ["-q", "-C"]);
    }
    start(splr_main::verif_run, &a, judge);
}
/// Run `splr` for formula f with one of the ways to call it.
fn solve(n: u64, f: F, how: u64, pipe: bool) {
    let m = model(n);
    // left by an earlier run
    match how {
        3 => (),
        2 | 6 => put(2, &old()),
        _ => put(101, &old()),
    }
    put_cnf(n, &f);
    let p1 = sx::path(1);
    let dir = sx::dir();
    let p3 = sx::path(3);
    let (args, result, proof): (Vec<&str>, u64, Option<u64>) = match how {
        0 => (vec!["f1.cnf"], 101, None),
        1 => (vec!["-q", "-C", &p1], 101, None),
        2 => (vec!["-r", "f2.cnf", &p1], 2, None),
        3 => (vec!["--no-color", "-r", "-", "f1.cnf"], 1000, None),
        4 => (vec!["-c", &p1], 101, Some(200)),
        5 => (vec!["-c", "-p", &p3, "-o", &dir, "--quiet", "f1.cnf"], 101, Some(3)),
        _ => (vec!["--certify", "--proof", "f3.cnf", "--result", "f2.cnf", "--dir", &dir, &p1], 2, Some(3)),
    };
    let (quiet, plain) = (args.contains(&"-q") || args.contains(&"--quiet"), args.contains(&"-C") || args.contains(&"--no-color"));
    JOB.with(|j| *j.borrow_mut() = Some(Job { f, n, m, source: 1, result, proof, pipe, text: text(1), late: false, quiet, plain }));
    let mut a = vec!["splr"];
    a.extend(args);
    start(splr_main::verif_run, &a, judge);
}
/// Any three clauses over two variables.
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_any() {
    let how = sx::conc(sx::below(2)) * 4;
    let f: F = [2, 2, 2].iter().map(|k| (0..*k).map(|_| code(2)).collect()).collect();
    solve(2, f, how, false);
}
/// Facts and short clauses, contradictory or not, in every way to call it.
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_units() {
    let how = sx::conc(sx::below(7));
    let shape: &[usize] = [&[1, 1][..], &[1, 2, 1], &[0], &[1, 2, 2, 2]][sx::conc(sx::below(4)) as usize];
    let f: F = shape.iter().map(|k| signs(&[1, 2][..*k])).collect();
    solve(2, f, how, false);
}
fn skel(seeds: u64, n: u64, num: usize, free: usize, pipe: bool) {
    let k = sx::conc(sx::below(seeds));
    let mut r = Rnd::new(k);
    let shape = r.shape(num, 2, 3);
    let mut f = r.formula(n, &shape);
    r.vary(&mut f, free);
    // (not from the standard output into the other program)
    let how = k % 7;
    solve(n, f, if pipe && how == 3 { 6 } else { how }, pipe);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_skel() {
    skel(70, 4, 16, 2, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_skel5() {
    skel(140, 6, 20, 2, false);
}
/// The result of the one program in the hands of the other.
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_pipe() {
    skel(70, 6, 12, 2, true);
}
/// What is not a formula gets no verdict.
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_bad() {
    sx::panic_ok(true);
    let mut t = b"p cnf 2 2\n1 2 0\n-1 2 0\n".to_vec();
    let what = sx::conc(sx::below(6));
    match what {
        0 => t[13] = sx::any(8) as u8, // instead of a space
        1 => t[12] = sx::any(8) as u8, // instead of a literal
        2 => t[6] = sx::any(8) as u8,  // in the header
        3 => t[0] = sx::any(8) as u8,
        4 => t.truncate(sx::conc(sx::below(12)) as usize),
        _ => (), // no file at all
    }
    if what < 5 {
        let mut open = false;
        let want = crate::h_dimacs::reference(&t, &mut open);
        put(1, &t);
        sx::assume(want.is_none() && !open);
    }
    start(splr_main::verif_run, &["splr", "f1.cnf"], |code| {
        sx::reach(1);
        sx::check(code != 10 && code != 20, 1);
        let out = text(1000);
        sx::check(!has(&out, b"s SATISFIABLE") && !has(&out, b"s UNSATISFIABLE"), 2);
    });
}
/// No formula to solve: nothing is solved, and the file after an option is not taken for one.
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_none() {
    put(1, b"p cnf 1 2\n1 0\n-1 0\n");
    const OPTS: [&str; 12] = ["-r", "-o", "-p", "--result", "--dir", "--proof", "-q", "-c", "--quiet", "-h", "-V", "--help"];
    let k = sx::conc(sx::below(OPTS.len() as u64 + 1)) as usize;
    let mut a = vec!["splr"];
    if k < OPTS.len() {
        a.push(OPTS[k]);
    }
    if k < 6 {
        a.push("f1.cnf");
    }
    start(splr_main::verif_run, &a, |code| {
        sx::capture(false);
        sx::reach(1);
        sx::check(code == 0, 1);
        let out = text(1000);
        sx::check(!has(&out, b"s SATISFIABLE") && !has(&out, b"s UNSATISFIABLE"), 2);
        sx::check(text(1) == b"p cnf 1 2\n1 0\n-1 0\n", 3);
    });
}
/// `dmcr` for formula f and a list of literals.
fn dmcr(n: u64, f: F, v: Vec<L>, how: u64) {
    let m = model(n);
    put_cnf(n, &f);
    let mut t = b"c a comment\ns SATISFIABLE\nv ".to_vec();
    for l in &v {
        lit_text(&mut t, *l);
    }
    t.extend_from_slice(b"0\n");
    sx::panic_ok(true);
    let p1 = sx::path(1);
    let p2 = sx::path(2);
    let args = match how {
        0 => {
            put(101, &t);
            vec!["dmcr", "f1.cnf"]
        }
        1 => {
            put(2, &t);
            vec!["dmcr", "-C", "-a", "f2.cnf", &p1]
        }
        _ => {
            put(2, &t);
            vec!["dmcr", "--no-color", "--assign", &p2, "f1.cnf"]
        }
    };
    sx::on_exit(Some(|_| sx::check(false, 3)));
    sx::args(&args.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    sx::file_sel(1000);
    sx::out_clear();
    sx::capture(true);
    dmcr_main::verif_run();
    sx::capture(false);
    sx::on_exit(None);
    let out = text(1000);
    let valid = has(&out, b"A valid assignment set for");
    sx::trace(valid as u64);
    let f: F = f.iter().map(|c| c.iter().map(|l| sx::conc(*l)).collect()).collect();
    let v: Vec<L> = v.iter().map(|l| sx::conc(*l)).collect();
    let has = |v: &[L], l: L| v.contains(&l);
    let contra = v.iter().any(|x| has(&v, x ^ 1));
    let total = (1..=n).all(|i| v.iter().any(|x| x >> 1 == i));
    if valid {
        sx::reach(1);
        // whatever agrees with the list, and with the facts of the formula, is a model
        let mut facts: Vec<L> = vec![];
        loop {
            let open = |c: &Vec<L>| -> Vec<L> { c.iter().filter(|l| !has(&facts, **l ^ 1)).copied().collect() };
            let Some(l) = f.iter().map(open).find(|c| c.len() == 1 && !has(&facts, c[0])).map(|c| c[0]) else { break };
            facts.push(l);
            if facts.len() > 2 * n as usize {
                break;
            }
        }
        sx::check(!contra && v.iter().all(|l| !has(&facts, l ^ 1)), 1);
        let all = v.iter().chain(&facts).fold(1, |a, l| a & tv(*l, m));
        sx::check(imp(all, f_tv(&f, m)), 2);
    } else {
        sx::reach(2);
        let sat = f.iter().all(|c| c.iter().any(|l| has(&v, *l)));
        sx::check(!(sat && total && !contra), 4);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_dmcr() {
    let how = sx::conc(sx::below(3));
    let f: F = vec![signs(&[1, 2]), signs(&[2]), signs(&[1, 2, 3])];
    let k = sx::conc(sx::below(4)) as usize;
    let v: Vec<L> = (0..k).map(|i| if i == 2 { code(3) } else { 2 * (i as u64 + 1) + sx::any(1) }).collect();
    dmcr(3, f, v, how);
}
/// A total assignment with any signs for a larger formula.
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_dmcr_skel() {
    const N: u64 = 5;
    let mut r = Rnd::pick(24);
    let shape = r.shape(8, 1, 4);
    let mut f = r.formula(N, &shape);
    r.vary(&mut f, 1);
    let v: Vec<L> = (1..=N).map(|i| 2 * i + sx::any(1)).collect();
    dmcr(N, f, v, 0);
}
/// A corrupted assignment file: nothing but the literals of its `v` line counts.
#[unsafe(no_mangle)]
pub extern "C" fn h_cli_dmcr_text() {
    sx::panic_ok(true);
    put(1, b"p cnf 2 2\n1 2 0\n-1 -2 0\n");
    let mut t = b"c x\ns SATISFIABLE\nv 1 -2 0\n".to_vec();
    let at = sx::conc(sx::below(t.len() as u64)) as usize;
    t[at] = sx::any(8) as u8;
    put(101, &t);
    start(dmcr_main::verif_run, &["dmcr", "f1.cnf"], |_| ());
    sx::capture(false);
    if has(&text(1000), b"A valid assignment set for") {
        sx::reach(1);
        // the words of the line that starts with v
        let lits: Vec<i32> = t
            .split(|b| *b == b'\n')
            .find_map(|l| l.strip_prefix(b"v "))
            .map(|l| String::from_utf8_lossy(l).split_whitespace().map(|x| x.parse::<i32>().unwrap_or(0)).take_while(|x| *x != 0).collect())
            .unwrap_or_default();
        let ok = (lits.contains(&1) && lits.contains(&-2)) || (lits.contains(&2) && lits.contains(&-1));
        sx::check(ok, 1);
    } else {
        sx::reach(2);
    }
}
