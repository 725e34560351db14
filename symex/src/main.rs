mod exec;
mod expr;
mod ll;
mod z3;
use exec::*;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(ex: &Ex) -> String {
    let s = &ex.st;
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"wid\":{},\"paths\":{},\"killed\":{},\"instrs\":{},\"forks\":{},\"checks\":{},\"checks_sym\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.4},\"cache_hits\":{},\"max_forks\":{},\"unfinished\":{}",
        ex.wid, s.paths, s.killed, s.instrs, s.forks, s.checks, s.checks_sym, ex.z3.queries, ex.z3.sat, ex.z3.unsat, ex.z3.unknown,
        ex.z3.time.as_secs_f64(), s.cache_hits, s.max_forks, s.unfinished
    );
    let _ = write!(o, ",\"reach\":{{");
    for (i, (k, v)) in s.reach.iter().enumerate() {
        let _ = write!(o, "{}\"{}\":{}", if i > 0 { "," } else { "" }, k, v);
    }
    o.push_str("},\"aborts\":[");
    for (i, a) in s.aborts.iter().take(5).enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, js(a));
    }
    let _ = write!(o, "],\"n_aborts\":{},\"viols\":[", s.aborts.len());
    for (i, v) in s.viols.iter().enumerate() {
        let _ = write!(
            o,
            "{}{{\"kind\":{},\"msg\":{},\"inputs\":{:?},\"stack\":[{}]}}",
            if i > 0 { "," } else { "" },
            js(&v.kind),
            js(&v.msg),
            v.inputs,
            v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
        );
    }
    o.push_str("],\"samples\":[");
    for (i, (v, h)) in s.samples.iter().enumerate() {
        let _ = write!(o, "{}[{:?},\"{:x}\"]", if i > 0 { "," } else { "" }, v, h);
    }
    o.push_str("],\"funcs\":[");
    let mut first = true;
    for f in ex.funcs.iter().flatten() {
        if f.name.contains("4splr") {
            let _ = write!(o, "{}{}", if first { "" } else { "," }, js(&demangle(&f.name)));
            first = false;
        }
    }
    o.push_str("]}\n");
    o
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut file = String::new();
    let mut entry = String::new();
    let mut jobs = 1;
    let mut max_steps = 50_000_000u64;
    let mut time = 600.0f64;
    let mut max_viols = 1;
    let mut samples = 8;
    let mut outdir = String::from("/tmp/symex-out");
    let mut merge = true;
    let mut jump = 0;
    let mut seed = 1;
    let mut max_mb = 3300;
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap();
        match a.as_str() {
            "--entry" => entry = v(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--max-viols" => max_viols = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--out" => outdir = v(),
            "--no-merge" => merge = false,
            "--jump" => jump = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--max-mb" => max_mb = v().parse().unwrap(),
            _ => file = a,
        }
    }
    std::fs::create_dir_all(&outdir).unwrap();
    let t0 = std::time::Instant::now();
    let src: &'static str = Box::leak(std::fs::read_to_string(&file).expect("read .ll").into_boxed_str());
    let m: &'static ll::Module = Box::leak(Box::new(ll::Module::parse(src)));
    let shp = unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
        mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicI64
    };
    let cfg = Cfg {
        jobs,
        max_steps,
        deadline: t0 + std::time::Duration::from_secs_f64(time),
        max_viols,
        samples,
        outdir: outdir.clone(),
        merge_loads: merge,
        jump,
        seed,
        max_mb,
    };
    let mut ex = Ex::new(m, cfg, Shared { live: shp });
    ex.shared(0).store(1, SeqCst);
    let init = ex.start(&entry);
    ex.explore(init);
    let r = report(&ex);
    std::fs::write(format!("{}/{}.w{}.json", outdir, entry, ex.wid), r).unwrap();
    ex.shared(0).fetch_sub(1, SeqCst);
    if ex.is_child {
        exit_now(0);
    }
    // wait for all descendants
    let mut bad = 0;
    loop {
        let mut st = 0i32;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p <= 0 {
            break;
        }
        if st != 0 {
            bad += 1;
        }
    }
    println!(
        "{{\"entry\":{},\"workers\":{},\"bad_workers\":{},\"stopped\":{},\"timeout\":{},\"memout\":{},\"wall_s\":{:.3}}}",
        js(&entry),
        ex.shared(2).load(SeqCst) + 1,
        bad,
        ex.shared(1).load(SeqCst),
        ex.shared(3).load(SeqCst),
        ex.shared(4).load(SeqCst),
        t0.elapsed().as_secs_f64()
    );
    exit_now(0);
}
