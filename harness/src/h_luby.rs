//! S18: the Luby series and the stages built on it.
use crate::{fx::*, sx};
use splr::solver::StageManager;

pub const ENTRIES: &[crate::Entry] = &[
    ("h_luby_walk", h_luby_walk),
    ("h_luby_jump", h_luby_jump),
    ("h_luby_jump2", h_luby_jump2),
    ("h_luby_stages", h_luby_stages),
    ("h_luby_stages2", h_luby_stages2),
    ("h_luby_again", h_luby_again),
];

/// The i-th (from 1) member of 1, 1, 2, 1, 1, 2, 4, ..., for i < 2^k.
fn luby(i: u64, k: u32) -> u64 {
    // branch free: i is symbolic
    let (mut i, mut v) = (i, 0u64);
    for k in (1..=k).rev() {
        let p = (1u64 << k) - 1;
        i -= p & ((i > p) as u64).wrapping_neg();
        v |= ((i == p) as u64 & (v == 0) as u64) << (k - 1);
    }
    v
}
/// The first values; the series of the code starts at the second member.
#[unsafe(no_mangle)]
pub extern "C" fn h_luby_walk() {
    let mut a = LubySeries::default();
    let mut b = LubySeries::default();
    let mut max = 1;
    let n = sx::conc(sx::below(5)) * 256 + 4;
    for i in 0..n {
        let w = luby(i + 2, 12);
        max = max.max(w);
        let x = a.next_unchecked() as u64;
        sx::check(x == w, 1);
        sx::check(b.next().map(|v| v.get() as u64) == Some(w), 2);
        sx::check(a.max_value() as u64 == max && b.max_value() as u64 == max, 3);
    }
    a.reset();
    sx::check(a.next_unchecked() == 1 && a.next_unchecked() == 2, 4);
    sx::reach(1);
}
/// A series that has arrived at any index below 2^bits: its words are found by what they hold after 20 steps.
fn jump(bits: u32) {
    const N: usize = std::mem::size_of::<LubySeries>() / 8;
    let mut a = LubySeries::default();
    for _ in 0..20 {
        a.next_unchecked();
    }
    let p = &mut a as *mut LubySeries as *mut u64;
    let w = |i: usize| unsafe { *p.add(i) };
    let find = |v: u64| (0..N).find(|i| w(*i) == v);
    let found = (find(20), find(15), find(3));
    let (Some(at_index), Some(at_size), Some(at_seq)) = found else {
        return sx::reach(2); // another representation: h_luby_walk alone decides
    };
    // the words must hold this at every step
    a.reset();
    for i in 1u64..130 {
        a.next_unchecked();
        let k = 63 - (i + 1).leading_zeros() as u64;
        let w = |i: usize| unsafe { *p.add(i) };
        if i > 1 && (w(at_index), w(at_size), w(at_seq)) != (i, (1 << k) - 1, k - 1) {
            return sx::reach(2);
        }
    }
    let i = sx::any(bits);
    let k = 1 + sx::conc(sx::below(bits as u64));
    // after i steps the largest 2^k - 1 <= i
    sx::assume((1 << k) - 1 <= i && i < (1 << (k + 1)) - 1);
    unsafe {
        *p.add(at_index) = i;
        *p.add(at_size) = (1 << k) - 1;
        *p.add(at_seq) = k - 1;
    }
    for j in 1..=3 {
        let v = a.next_unchecked() as u64;
        sx::check(v == luby(i + j + 1, bits + 1), 10);
        sx::trace(v);
    }
    sx::reach(2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_luby_jump() {
    jump(8);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_luby_jump2() {
    jump(11);
}
/// Any unit and any number of conflicts at each stage end.
fn stages(n: u64) {
    let unit = 1 + sx::any(16);
    let mut s = match sx::conc(sx::below(2)) {
        0 => StageManager::new(7),
        _ => StageManager::instantiate(&Config::default(), &CNFDescription { num_of_variables: 49, ..CNFDescription::default() }),
    };
    s.initialize(unit as usize);
    let d = sx::any(20);
    sx::check(s.stage_ended(d as usize) == (d == unit), 20);
    sx::check(s.current_stage() == 0 && s.current_cycle() == 0 && s.current_segment() == 0 && s.current_scale() == 1, 21);
    let (mut cycle, mut segment, mut top) = (0u64, 0u64, 1u64);
    let (mut cs, mut ss, mut sc) = (0, 0, 0);
    let mut full = true; // the next cycle is a new segment
    // the checks of each stage hold for all values of these
    let (now, d) = (sx::any(24), sx::any(28));
    for i in 1..=n {
        let scale = luby(i + 1, 12);
        let got = s.prepare_new_stage(now as usize);
        let mut want = None;
        if scale == 1 {
            cycle += 1;
            cs = i;
            want = Some(full);
            if full {
                segment += 1;
                top *= 2;
                (ss, sc) = (i, cycle);
                full = false;
            }
        }
        if scale == top {
            full = true;
        }
        sx::check(got == want, 22);
        sx::check(s.current_stage() as u64 == i && s.current_cycle() as u64 == cycle && s.current_segment() as u64 == segment, 23);
        sx::check(s.current_scale() as u64 == scale && s.max_scale() as u64 == top, 24);
        sx::check(s.cycle_starting_stage() as u64 == cs, 25);
        sx::check(s.segment_starting_stage() as u64 == ss && s.segment_starting_cycle() as u64 == sc, 26);
        let span = s.current_span() as u64;
        sx::check(span == cycle * unit && 0 < span, 27);
        // it ends exactly when that many conflicts have passed
        sx::check(s.stage_ended((now + d) as usize) == (d == span), 28);
        sx::trace(scale);
    }
    sx::reach(3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_luby_stages() {
    stages(70);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_luby_stages2() {
    stages(520);
}
/// num_reducible keeps within the span.
#[unsafe(no_mangle)]
pub extern "C" fn h_luby_again() {
    let unit = [1, 2, 32, 1000][sx::conc(sx::below(4)) as usize];
    let f = [0.0, 0.25, 0.5, 1.0][sx::conc(sx::below(4)) as usize];
    let mut s = StageManager::new(unit);
    s.initialize(unit);
    let n = sx::conc(sx::below(20));
    let mut now = unit;
    for _ in 0..=n {
        s.prepare_new_stage(now);
        now += s.current_span();
    }
    let (r, span) = (s.num_reducible(f), s.current_span());
    sx::check(r <= span, 40);
    let keep = span - r;
    sx::check(if f == 0.0 { r == 0 } else { f < 1.0 || keep == 1 }, 41);
    // keep = floor(span^(1-f))
    if f == 0.5 {
        sx::check(keep * keep <= span && span < (keep + 1) * (keep + 1), 42);
    }
    sx::reach(4);
}
