//! The command-line options: each sets what it documents, and nothing else.
use crate::{fx::*, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_opt_pair", h_opt_pair),
    ("h_opt_triple", h_opt_triple),
    ("h_opt_three", h_opt_three),
    ("h_opt_int", h_opt_int),
    ("h_opt_real", h_opt_real),
    ("h_opt_int_any", h_opt_int_any),
    ("h_opt_real_any", h_opt_real_any),
    ("h_opt_long_name", h_opt_long_name),
    ("h_opt_short_name", h_opt_short_name),
    ("h_opt_order", h_opt_order),
];

type Set = fn(&mut Config);
const FLAGS: &[(&str, Set)] = &[
    ("-C", |c| c.no_color = true),
    ("--no-color", |c| c.no_color = true),
    ("-q", |c| c.quiet_mode = true),
    ("--quiet", |c| c.quiet_mode = true),
    ("-c", |c| c.use_certification = true),
    ("--certify", |c| c.use_certification = true),
    ("-H", |c| c.show_cdb_heatmap = true),
    ("--heatmap", |c| c.show_cdb_heatmap = true),
    ("-j", |c| c.show_journal = true),
    ("--journal", |c| c.show_journal = true),
];
/// With a value: here a file name that is a number, too.
type SetTo = fn(&mut Config, u16);
const VALUED: &[(&str, SetTo)] = &[
    ("-o", |c, v| c.io_odir = v.to_string().into()),
    ("--dir", |c, v| c.io_odir = v.to_string().into()),
    ("-p", |c, v| c.io_pfile = v.to_string().into()),
    ("--proof", |c, v| c.io_pfile = v.to_string().into()),
    ("-r", |c, v| c.io_rfile = v.to_string().into()),
    ("--result", |c, v| c.io_rfile = v.to_string().into()),
    ("-t", |c, v| c.c_timeout = v as f64),
    ("--timeout", |c, v| c.c_timeout = v as f64),
    ("--cl", |c, v| c.c_cls_lim = v as usize),
    ("--crl", |c, v| c.cls_rdc_lbd = v),
    ("--ecl", |c, v| c.elm_cls_lim = v as usize),
    ("--evl", |c, v| c.elm_grw_lim = v as usize),
    ("--evo", |c, v| c.elm_var_occ = v as usize),
    ("--cdr", |c, v| c.crw_dcy_rat = v as f64),
    ("--cr1", |c, v| c.cls_rdc_rm1 = v as f64),
    ("--cr2", |c, v| c.cls_rdc_rm2 = v as f64),
    ("--rlt", |c, v| c.rst_lbd_thr = v as f64),
    ("--vdr", |c, v| c.vrw_dcy_rat = v as f64),
    ("--vds", |c, v| c.vrw_dcy_stp = v as f64),
];
fn target() -> String {
    sx::file_sel(1);
    for b in b"p cnf 0 0\n" {
        sx::file_byte(*b as u64);
    }
    sx::file_len(10);
    sx::path(1)
}
fn take(mut a: Vec<String>) -> Config {
    a.insert(0, "splr".into());
    sx::args(&a);
    let mut c = Config::default();
    sx::on_exit_default(|_| sx::check(false, 5));
    c.inject_from_args();
    sx::on_exit(None);
    c
}
fn same(a: &Config, b: &Config) -> bool {
    format!("{a:?}") == format!("{b:?}")
}
fn option(k: usize, v: u16, args: &mut Vec<String>, want: &mut Config) {
    if k < FLAGS.len() {
        args.push(FLAGS[k].0.into());
        FLAGS[k].1(want);
    } else {
        let (n, f) = VALUED[k - FLAGS.len()];
        args.push(n.into());
        args.push(v.to_string());
        f(want, v);
    }
}
fn several(num: usize) {
    let p = target();
    let mut args = vec![];
    let mut want = Config { cnf_file: p.clone().into(), ..Config::default() };
    let first = sx::conc(sx::below(2)) as usize;
    for i in 0..num {
        let k = sx::conc(sx::below((FLAGS.len() + VALUED.len()) as u64)) as usize;
        option(k, [4, 7000, 65, 0][(2 * first + i) % 4], &mut args, &mut want);
    }
    args.push(p);
    let got = take(args);
    sx::reach(1);
    sx::check(same(&got, &want), 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_pair() {
    several(2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_triple() {
    several(3);
}
/// Four of the options, in an order of their own.
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_three() {
    let p = target();
    let mut r = Rnd::pick(256);
    let mut args = vec![];
    let mut want = Config { cnf_file: p.clone().into(), ..Config::default() };
    for _ in 0..4 {
        let k = r.below((FLAGS.len() + VALUED.len()) as u64) as usize;
        let digits = 4 * (1 + r.below(4));
        option(k, r.below(1 << digits) as u16, &mut args, &mut want);
    }
    args.push(p);
    let got = take(args);
    sx::reach(1);
    sx::check(same(&got, &want), 1);
}
const INTS: &[&str] = &["--cl", "--crl", "--ecl", "--evl", "--evo"];
/// The value that an option set, and the rest as it was.
fn int(k: usize, c: &mut Config) -> u64 {
    let d = Config::default();
    match k {
        0 => std::mem::replace(&mut c.c_cls_lim, d.c_cls_lim) as u64,
        1 => std::mem::replace(&mut c.cls_rdc_lbd, d.cls_rdc_lbd) as u64,
        2 => std::mem::replace(&mut c.elm_cls_lim, d.elm_cls_lim) as u64,
        3 => std::mem::replace(&mut c.elm_grw_lim, d.elm_grw_lim) as u64,
        _ => std::mem::replace(&mut c.elm_var_occ, d.elm_var_occ) as u64,
    }
}
const REALS: &[&str] = &["-t", "--timeout", "--cdr", "--cr1", "--cr2", "--rlt", "--vdr", "--vds"];
fn real(k: usize, c: &mut Config) -> f64 {
    let d = Config::default();
    match k {
        0 | 1 => std::mem::replace(&mut c.c_timeout, d.c_timeout),
        2 => std::mem::replace(&mut c.crw_dcy_rat, d.crw_dcy_rat),
        3 => std::mem::replace(&mut c.cls_rdc_rm1, d.cls_rdc_rm1),
        4 => std::mem::replace(&mut c.cls_rdc_rm2, d.cls_rdc_rm2),
        5 => std::mem::replace(&mut c.rst_lbd_thr, d.rst_lbd_thr),
        6 => std::mem::replace(&mut c.vrw_dcy_rat, d.vrw_dcy_rat),
        _ => std::mem::replace(&mut c.vrw_dcy_stp, d.vrw_dcy_stp),
    }
}
fn text(b: &[u8]) -> String {
    // ASCII (as a byte of an argument is, or part of a longer sequence)
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
/// One to five digits: accepted, and the value is theirs.
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_int() {
    let p = target();
    let k = sx::conc(sx::below(INTS.len() as u64)) as usize;
    let n = 1 + sx::conc(sx::below(5)) as usize;
    let d: Vec<u64> = (0..n).map(|_| sx::below(10)).collect();
    let v = d.iter().fold(0, |a, x| a * 10 + x);
    let b: Vec<u8> = d.iter().map(|x| b'0' + *x as u8).collect();
    // the threshold is a 16-bit number
    sx::assume(k != 1 || v < 65536);
    let mut c = take(vec![INTS[k].into(), text(&b), p.clone()]);
    sx::reach(1);
    sx::check(int(k, &mut c) == v, 1);
    sx::check(same(&c, &Config { cnf_file: p.into(), ..Config::default() }), 2);
}
/// Any bytes: refused unless they are a number, which is the value then.
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_int_any() {
    sx::panic_ok(true);
    let p = target();
    let k = sx::conc(sx::below(INTS.len() as u64)) as usize;
    let n = 1 + sx::conc(sx::below(5)) as usize;
    let b: Vec<u8> = (0..n).map(|_| sx::any(7) as u8).collect();
    sx::assume(b.iter().all(|x| *x != 0));
    let mut c = take(vec![INTS[k].into(), text(&b), p.clone()]);
    sx::reach(1);
    let d = if b[0] == b'+' { &b[1..] } else { &b[..] };
    sx::check(!d.is_empty() && d.iter().all(|x| x.is_ascii_digit()), 1);
    let v = d.iter().fold(0, |a, x| a * 10 + (*x - b'0') as u64);
    sx::check(int(k, &mut c) == v, 2);
}
/// Digits with a point somewhere.
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_real() {
    let p = target();
    let k = sx::conc(sx::below(REALS.len() as u64)) as usize;
    let n = 1 + sx::conc(sx::below(2)) as usize;
    let at = sx::conc(sx::below(3)) as usize;
    sx::assume(at <= n);
    let d: Vec<u64> = (0..n).map(|_| sx::conc(sx::below(10))).collect();
    let v = d.iter().fold(0, |a, x| a * 10 + x);
    let mut b: Vec<u8> = d.iter().map(|x| b'0' + *x as u8).collect();
    b.insert(at, b'.');
    let scale = [1.0, 10.0, 100.0][n - at];
    let mut c = take(vec![REALS[k].into(), text(&b), p.clone()]);
    sx::reach(1);
    sx::check(real(k, &mut c) == v as f64 / scale, 1);
    sx::check(same(&c, &Config { cnf_file: p.into(), ..Config::default() }), 2);
}
/// What is not a number is refused.
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_real_any() {
    sx::panic_ok(true);
    let p = target();
    let k = sx::conc(sx::below(REALS.len() as u64)) as usize;
    // the odd byte comes first, in the middle or last
    let at = sx::conc(sx::below(3)) as usize;
    let mut b = vec![b'1', b'2'];
    b.insert(at, sx::any(7) as u8);
    sx::assume(b[at] != 0);
    let mut c = take(vec![REALS[k].into(), text(&b), p.clone()]);
    sx::reach(1);
    let v = match (b[at], at) {
        (x @ b'0'..=b'9', _) => [12.0, 102.0, 120.0][at] + [100.0, 10.0, 1.0][at] * (x - b'0') as f64,
        (b'.', _) => [0.12, 1.2, 12.0][at],
        (b'e' | b'E', 1) => 100.0,
        (b'+', 0) => 12.0,
        (b'-', 0) => -12.0,
        _ => {
            sx::check(false, 1);
            0.0
        }
    };
    sx::check(real(k, &mut c) == v, 2);
}
fn known(n: &str) -> Option<(bool, Box<dyn Fn(&mut Config)>)> {
    if let Some((_, f)) = FLAGS.iter().find(|x| x.0 == n) {
        return Some((false, Box::new(|c| f(c))));
    }
    let (_, f) = VALUED.iter().find(|x| x.0 == n)?;
    Some((true, Box::new(|c| f(c, 7))))
}
/// An option of any name, then a number: refused unless it is one of the above.
fn name(b: Vec<u8>) {
    sx::panic_ok(true);
    let p = target();
    let n = text(&b);
    let valued = sx::flag();
    let valued = sx::conc(valued as u64) != 0;
    let mut a = vec![n.clone()];
    if valued {
        a.push("7".into());
    }
    a.push(p.clone());
    // the file's name became the value of the option: nothing to solve
    sx::on_exit(Some(|code| {
        sx::reach(2);
        sx::check(code == 0, 4);
    }));
    let got = take(a);
    sx::on_exit(None);
    let b: Vec<u8> = b.iter().map(|x| sx::conc(*x as u64) as u8).collect();
    let want = known(&text(&b));
    sx::check(want.is_some(), 1);
    sx::reach(1);
    let (v, f) = want.unwrap();
    sx::check(v == valued, 2);
    let mut c = Config { cnf_file: p.into(), ..Config::default() };
    f(&mut c);
    sx::check(same(&got, &c), 3);
}
/// An option's name with a byte or two replaced.
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_long_name() {
    let all = ["--quiet", "--dir", "--proof", "--result", "--timeout", "--cl", "--crl", "--cr1", "--ecl", "--evl", "--vdr", "--stat", "--x"];
    let mut b = all[sx::conc(sx::below(all.len() as u64)) as usize].as_bytes().to_vec();
    let i = sx::conc(sx::below(b.len() as u64 - 2)) as usize;
    b[2 + i] = sx::any(7) as u8;
    if b.len() > 3 {
        let k = b.len() - 1;
        b[k] = sx::any(7) as u8;
    }
    // a name, and neither -h nor -V's long form
    sx::assume(b.iter().all(|x| *x != 0));
    name(b);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_short_name() {
    let mut b = vec![b'-', sx::any(7) as u8];
    sx::assume(b[1] != 0 && b[1] != b'h' && b[1] != b'V' && b[1] != b'-');
    if sx::conc(sx::below(2)) == 1 {
        b.push(sx::any(7) as u8);
        sx::assume(b[2] != 0);
    }
    name(b);
}
/// The later one counts.
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_order() {
    let p = target();
    let (x, y) = (sx::below(10), sx::below(10));
    let k = sx::conc(sx::below(INTS.len() as u64)) as usize;
    let d = |x: u64| text(&[b'0' + x as u8]);
    let mut c = take(vec![INTS[k].into(), d(x), "-q".into(), INTS[k].into(), d(y), p.clone()]);
    sx::reach(1);
    sx::check(int(k, &mut c) == y, 1);
    sx::check(same(&c, &Config { cnf_file: p.into(), quiet_mode: true, ..Config::default() }), 2);
}
