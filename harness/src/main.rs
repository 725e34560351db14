//! Harnesses: each `h_*` function states one property over symbolic inputs.
#![allow(dead_code, unused_imports, clippy::all)]
mod fx;
mod sx;

#[cfg(feature = "cfg")]
mod h_cfg;
#[cfg(feature = "cli")]
mod h_cli;
#[cfg(feature = "cnf")]
mod h_cnf;
#[cfg(any(feature = "cfg", feature = "cli", feature = "conflict", feature = "db", feature = "drat", feature = "feat", feature = "mix", feature = "reduce", feature = "simp", feature = "stat", feature = "viv"))]
mod h_conflict;
#[cfg(feature = "db")]
mod h_db;
#[cfg(any(feature = "cli", feature = "dimacs", feature = "dump"))]
mod h_dimacs;
#[cfg(any(feature = "cli", feature = "drat"))]
mod h_drat;
#[cfg(feature = "dump")]
mod h_dump;
#[cfg(any(feature = "cfg", feature = "cli", feature = "drat", feature = "dump", feature = "e2e", feature = "feat", feature = "incr", feature = "mix", feature = "robust", feature = "stat", feature = "time"))]
mod h_e2e;
#[cfg(any(feature = "elim", feature = "simp", feature = "viv"))]
mod h_elim;
#[cfg(feature = "feat")]
mod h_feat;
#[cfg(feature = "incr")]
mod h_incr;
#[cfg(feature = "lit")]
mod h_lit;
#[cfg(feature = "load")]
mod h_load;
#[cfg(feature = "luby")]
mod h_luby;
#[cfg(any(feature = "cfg", feature = "cli", feature = "drat", feature = "feat", feature = "mix", feature = "stat"))]
mod h_mix;
#[cfg(feature = "opt")]
mod h_opt;
#[cfg(any(feature = "bt", feature = "cfg", feature = "cli", feature = "conflict", feature = "db", feature = "drat", feature = "feat", feature = "mix", feature = "prop", feature = "reduce", feature = "simp", feature = "stat", feature = "viv"))]
mod h_prop;
#[cfg(feature = "reduce")]
mod h_reduce;
#[cfg(feature = "robust")]
mod h_robust;
#[cfg(feature = "sel")]
mod h_sel;
#[cfg(feature = "simp")]
mod h_simp;
#[cfg(feature = "stat")]
mod h_stat;
#[cfg(any(feature = "cli", feature = "dump", feature = "time"))]
mod h_time;
#[cfg(feature = "valid")]
mod h_valid;
#[cfg(feature = "viv")]
mod h_viv;

type Entry = (&'static str, extern "C" fn());
pub fn entries() -> Vec<Entry> {
    #[allow(unused_mut)]
    let mut v: Vec<Entry> = vec![];
    #[cfg(feature = "cfg")]
    v.extend_from_slice(h_cfg::ENTRIES);
    #[cfg(feature = "cli")]
    v.extend_from_slice(h_cli::ENTRIES);
    #[cfg(feature = "cnf")]
    v.extend_from_slice(h_cnf::ENTRIES);
    #[cfg(feature = "conflict")]
    v.extend_from_slice(h_conflict::ENTRIES);
    #[cfg(feature = "db")]
    v.extend_from_slice(h_db::ENTRIES);
    #[cfg(feature = "dimacs")]
    v.extend_from_slice(h_dimacs::ENTRIES);
    #[cfg(feature = "drat")]
    v.extend_from_slice(h_drat::ENTRIES);
    #[cfg(feature = "dump")]
    v.extend_from_slice(h_dump::ENTRIES);
    #[cfg(feature = "e2e")]
    v.extend_from_slice(h_e2e::ENTRIES);
    #[cfg(feature = "elim")]
    v.extend_from_slice(h_elim::ENTRIES);
    #[cfg(feature = "feat")]
    v.extend_from_slice(h_feat::ENTRIES);
    #[cfg(feature = "incr")]
    v.extend_from_slice(h_incr::ENTRIES);
    #[cfg(feature = "lit")]
    v.extend_from_slice(h_lit::ENTRIES);
    #[cfg(feature = "load")]
    v.extend_from_slice(h_load::ENTRIES);
    #[cfg(feature = "luby")]
    v.extend_from_slice(h_luby::ENTRIES);
    #[cfg(feature = "mix")]
    v.extend_from_slice(h_mix::ENTRIES);
    #[cfg(feature = "opt")]
    v.extend_from_slice(h_opt::ENTRIES);
    #[cfg(any(feature = "bt", feature = "prop"))]
    v.extend_from_slice(h_prop::ENTRIES);
    #[cfg(feature = "reduce")]
    v.extend_from_slice(h_reduce::ENTRIES);
    #[cfg(feature = "robust")]
    v.extend_from_slice(h_robust::ENTRIES);
    #[cfg(feature = "sel")]
    v.extend_from_slice(h_sel::ENTRIES);
    #[cfg(feature = "simp")]
    v.extend_from_slice(h_simp::ENTRIES);
    #[cfg(feature = "stat")]
    v.extend_from_slice(h_stat::ENTRIES);
    #[cfg(feature = "time")]
    v.extend_from_slice(h_time::ENTRIES);
    #[cfg(feature = "valid")]
    v.extend_from_slice(h_valid::ENTRIES);
    #[cfg(feature = "viv")]
    v.extend_from_slice(h_viv::ENTRIES);
    v
}

#[cfg(not(feature = "native"))]
fn main() {
    let a = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in entries() {
        if n == a {
            f()
        }
    }
}

/// Replay: `hx ENTRY v0,v1,...`
#[cfg(feature = "native")]
#[allow(static_mut_refs)]
fn main() {
    let mut a = std::env::args().skip(1);
    let name = a.next().expect("entry");
    let vals = a.next().unwrap_or_default();
    unsafe {
        sx::ffi::IN = vals.split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<u64>().unwrap()).collect();
    }
    let (_, f) = entries().into_iter().find(|e| e.0 == name).expect("no such entry");
    std::panic::set_hook(Box::new(|i| {
        unsafe { sx::ffi::sym_capture(false) };
        println!("SX PANIC {}", i.to_string().replace('\n', " "));
        unsafe { sx::ffi::leave(if sx::ffi::OKP { 0 } else { 76 }) };
    }));
    f();
    println!("SX OK {:x}", unsafe { sx::ffi::HASH });
}
