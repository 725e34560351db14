//! S16: encodings of literals and clause identifiers, flags.
use crate::{fx::*, sx};

pub const ENTRIES: &[crate::Entry] = &[
    ("h_lit_int", h_lit_int),
    ("h_lit_two", h_lit_two),
    ("h_lit_cid", h_lit_cid),
    ("h_lit_index", h_lit_index),
    ("h_lit_flags", h_lit_flags),
    ("h_lit_text", h_lit_text),
    ("h_lit_clause", h_lit_clause),
    ("h_lit_desc", h_lit_desc),
];
const LIM: i64 = (1 << 30) - 1;

fn any_int() -> i32 {
    let x = sx::any(32) as u32 as i32;
    let w = x as i64;
    sx::assume(w != 0 && -LIM <= w && w <= LIM);
    x
}
#[unsafe(no_mangle)]
pub extern "C" fn h_lit_int() {
    let x = any_int();
    let l = Lit::from(x);
    let neg = (x as i64) < 0;
    let abs = if neg { -(x as i64) } else { x as i64 } as usize;
    sx::trace(usize::from(l) as u64);
    sx::check(i32::from(l) == x, 1);
    sx::check(i32::from(&l) == x, 2);
    sx::check(i32s(&[l, !l]) == [x, -x], 3);
    sx::check(l.vi() == abs, 4);
    sx::check(l.as_bool() == !neg && bool::from(l) == !neg, 5);
    sx::check(Lit::from((abs, !neg)) == l, 6);
    let n = !l;
    sx::check(i32::from(n) == -x, 7);
    sx::check(n.vi() == abs && n.as_bool() == neg && n != l, 8);
    sx::check(!n == l, 9);
    sx::check(Lit::from(usize::from(l)) == l, 10);
    sx::check(Lit::from(usize::from(l) as u32) == l, 11);
    sx::check(usize::from(l) ^ usize::from(n) == 1 && usize::from(l) >> 1 == abs, 12);
    let c = ClauseId::from(l);
    sx::check(c.is_lifted_lit(), 13);
    sx::check(Lit::from(c) == l, 14);
    sx::check(c != ClauseId::default(), 15);
    sx::check(ClauseId::from(n) != c, 16);
    sx::reach(if neg { 1 } else { 2 });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_lit_two() {
    let (x, y) = (any_int(), any_int());
    let (a, b) = (Lit::from(x), Lit::from(y));
    sx::check((a == b) == (x == y), 20);
    sx::check((usize::from(a) == usize::from(b)) == (x == y), 21);
    sx::check((a < b) == (usize::from(a) < usize::from(b)), 22);
    sx::check((a < b) as u8 + (b < a) as u8 + (a == b) as u8 == 1, 23);
    // a clause sorted by literals has the literals of a variable side by side
    sx::check(a.vi() >= b.vi() || a < b, 24);
    sx::check((a.vi() == b.vi()) == (a == b || a == !b), 25);
    sx::check((ClauseId::from(a) == ClauseId::from(b)) == (x == y), 26);
    // clause numbers and lifted literals are kept apart
    let u = sx::any(31) as usize;
    sx::assume(0 < u && u < 0x7FFF_FFFF);
    sx::check(ClauseId::from(u) != ClauseId::from(a), 27);
    sx::check(AssignReason::BinaryLink(a) != AssignReason::BinaryLink(b) || x == y, 28);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_lit_cid() {
    let (u, v) = (sx::any(31) as usize, sx::any(31) as usize);
    sx::assume(0 < u && u < 0x7FFF_FFFF && 0 < v && v < 0x7FFF_FFFF);
    let (c, d) = (ClauseId::from(u), ClauseId::from(v));
    sx::check(usize::from(c) == u, 30);
    sx::check(!c.is_lifted_lit(), 31);
    sx::check(c != ClauseId::default(), 32);
    sx::check((c == d) == (u == v) && (c < d) == (u < v), 33);
    sx::check(!ClauseId::default().is_lifted_lit(), 34);
    sx::trace(u as u64);
}
/// Boolean tables indexed by literals.
#[unsafe(no_mangle)]
pub extern "C" fn h_lit_index() {
    let (a, b) = (code(7), code(7));
    let mut v = vec![false; 16];
    v[to_lit(a)] = true;
    sx::check(v[to_lit(b)] == (a == b), 40);
    let s: &mut [bool] = &mut v;
    sx::check(s[to_lit(a)], 41);
    s[to_lit(b)] = true;
    s[to_lit(a)] = false;
    sx::check(s[to_lit(b)] == (a != b), 42);
    let k = v.iter().filter(|x| **x).count();
    sx::check(k as u64 == (a != b) as u64, 43);
}
/// Setting a flag changes nothing else.
#[unsafe(no_mangle)]
pub extern "C" fn h_lit_flags() {
    let all = [FlagVar::PHASE, FlagVar::USED, FlagVar::ELIMINATED, FlagVar::ENQUEUED, FlagVar::CA_SEEN];
    let mut v = Var::default();
    let mut want = [false; 5];
    for (i, f) in all.iter().enumerate() {
        want[i] = sx::flag();
        v.set(f.clone(), want[i]);
    }
    for _ in 0..2 {
        let k = sx::conc(sx::below(5)) as usize;
        match sx::conc(sx::below(4)) {
            0 => {
                v.turn_on(all[k].clone());
                want[k] = true;
            }
            1 => {
                v.turn_off(all[k].clone());
                want[k] = false;
            }
            2 => {
                v.toggle(all[k].clone());
                want[k] = !want[k];
            }
            _ => {
                let b = sx::flag();
                v.set(all[k].clone(), b);
                want[k] = b;
            }
        }
        for (i, f) in all.iter().enumerate() {
            sx::check(v.is(f.clone()) == want[i], 50);
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_lit_text() {
    let k = sx::conc(sx::below(32)) as u32;
    let x = match k {
        0..30 => (1i32 << k) - (k & 1) as i32 * (k > 1) as i32,
        30 => LIM as i32,
        _ => 1_000_000_007,
    };
    let x = if sx::conc(sx::any(1)) == 0 { x } else { -x };
    let l = Lit::from(x);
    sx::check(format!("{l}") == format!("{x}L"), 60);
    sx::check(format!("{l:?}") == format!("{x}L"), 61);
    sx::check(format!("{}", ClauseId::from(x.unsigned_abs() as usize)) == format!("{}C", x.unsigned_abs()), 62);
}
/// A stored clause reads as the integers it was made from.
#[unsafe(no_mangle)]
pub extern "C" fn h_lit_clause() {
    let mut s = empty_solver(5);
    let f = vec![sorted_clause(5, 3)];
    add(&mut s, &f[0]);
    let c = s.cdb.iter().nth(1).unwrap();
    let v: Vec<i32> = Vec::from(c);
    sx::check(v.len() == 3 && c.len() == 3 && c.iter().count() == 3, 70);
    let mut w: Vec<L> = v.iter().map(|x| 2 * x.unsigned_abs() as u64 + (*x > 0) as u64).collect();
    w.sort_unstable();
    sx::check(w == f[0], 71);
    let l = code(5);
    sx::check(c.contains(to_lit(l)) == f[0].contains(&l), 72);
    sx::check((c.lit0() == c[0]) & (c.lit1() == c[1]) & (c[1..].len() == 2) & (c[0..1][0] == c[0]), 73);
}
/// The description of a formula counts the largest variable.
#[unsafe(no_mangle)]
pub extern "C" fn h_lit_desc() {
    let any = || sx::any(32) as u32 as i32;
    let v: Vec<Vec<i32>> = vec![vec![any(), any()], vec![any()], vec![]];
    let d = CNFDescription::from(&v[..]);
    sx::check(d.num_of_clauses == 3, 80);
    let n = d.num_of_variables as i64;
    sx::check(v.iter().flatten().all(|x| -n <= *x as i64 && *x as i64 <= n), 81);
    sx::check(v.iter().flatten().any(|x| n == *x as i64 || -n == *x as i64), 82);
    sx::trace(n as u64);
}
