//! Interface to the symbolic executor (feature "native" off) or to a concrete replay (on).

#[cfg(not(feature = "native"))]
mod ffi {
    unsafe extern "C" {
        pub fn sym_any(w: u32) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_trace(v: u64);
        pub fn sym_conc(v: u64) -> u64;
        pub fn sym_panic_ok(b: bool);
        pub fn sym_file_byte(b: u64);
        pub fn sym_file_len(n: u64);
        pub fn sym_out_len() -> u64;
        pub fn sym_out_byte(i: u64) -> u64;
        pub fn sym_out_clear();
        pub fn sym_file_sel(k: u64);
        pub fn sym_capture(b: bool);
        pub fn sym_clock(secs: u64, nanos: u64);
        pub fn sym_clock_at(n: u64, secs: u64, nanos: u64);
        pub fn sym_done();
        pub fn sym_args(argc: i32, argv: *const *const u8, envp: *const *const u8);
    }
}
#[cfg(feature = "native")]
#[allow(static_mut_refs)]
pub mod ffi {
    pub static mut IN: Vec<u64> = Vec::new();
    pub static mut POS: usize = 0;
    pub static mut HASH: u64 = 0xcbf29ce484222325;
    pub static mut FILE: Vec<u8> = Vec::new();
    pub static mut OKP: bool = false;
    pub unsafe fn sym_any(w: u32) -> u64 {
        unsafe {
            let v = IN.get(POS).copied().unwrap_or(0);
            POS += 1;
            if w >= 64 { v } else { v & ((1 << w) - 1) }
        }
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            unsafe { sym_capture(false) };
            println!("SX ASSUME");
            unsafe { leave(78) };
        }
    }
    pub unsafe fn sym_check(c: bool, id: u32) {
        if !c {
            unsafe { sym_capture(false) };
            println!("SX CHECK {id}");
            unsafe { leave(77) };
        }
    }
    pub unsafe fn sym_reach(_: u32) {}
    pub unsafe fn sym_trace(v: u64) {
        unsafe { HASH = (HASH ^ v).wrapping_mul(0x100000001b3).rotate_left(23) }
    }
    pub unsafe fn sym_conc(v: u64) -> u64 {
        v
    }
    pub unsafe fn sym_panic_ok(b: bool) {
        unsafe { OKP = b }
    }
    pub unsafe fn sym_file_byte(b: u64) {
        unsafe { FILE.push(b as u8) }
    }
    pub static mut SEL: u64 = 0;
    pub static mut CLOCK: Option<(u64, u64)> = None;
    pub unsafe fn sym_file_len(n: u64) {
        unsafe {
            FILE.truncate(n as usize);
            let p = if SEL == 0 { super::in_path() } else { super::path(SEL) };
            std::fs::write(p, &FILE).unwrap();
        }
    }
    fn out_name() -> String {
        unsafe { if SEL == 0 { super::out_path() } else { super::path(SEL) } }
    }
    fn out() -> Vec<u8> {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::fs::read(out_name()).unwrap_or_default()
    }
    pub unsafe fn sym_file_sel(k: u64) {
        unsafe {
            SEL = k;
            FILE.clear();
        }
    }
    unsafe extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(fd: i32, to: i32) -> i32;
        fn syscall(n: i64, ...) -> i64;
    }
    static mut REAL: i32 = -1;
    pub unsafe fn sym_capture(b: bool) {
        use std::io::Write;
        use std::os::fd::AsRawFd;
        let _ = std::io::stdout().flush();
        unsafe {
            if REAL < 0 {
                REAL = dup(1);
            }
            if b {
                let f = std::fs::File::create(super::path(1000)).unwrap();
                dup2(f.as_raw_fd(), 1);
            } else {
                dup2(REAL, 1);
            }
        }
    }
    pub unsafe fn sym_clock(secs: u64, nanos: u64) {
        unsafe {
            CLOCK = Some((secs, nanos));
            NEXT = None;
        }
    }
    pub static mut NEXT: Option<(u64, u64, u64)> = None;
    pub unsafe fn sym_clock_at(n: u64, secs: u64, nanos: u64) {
        unsafe { NEXT = Some((n, secs, nanos)) }
    }
    /// Shadows libc's: the clock is as the harness says.
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut u64) -> i32 {
        unsafe {
            match NEXT {
                Some((0, s, n)) => {
                    CLOCK = Some((s, n));
                    NEXT = None;
                }
                Some((k, s, n)) => NEXT = Some((k - 1, s, n)),
                None => (),
            }
            match CLOCK {
                Some((s, n)) => {
                    *ts = s;
                    *ts.add(1) = n;
                    0
                }
                None => syscall(228, clk, ts) as i32,
            }
        }
    }
    pub unsafe fn leave(code: i32) -> ! {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            syscall(231, code);
        }
        std::process::abort()
    }
    pub unsafe fn sym_done() {
        unsafe {
            sym_capture(false);
            println!("SX OK {:x}", HASH);
            std::io::Write::flush(&mut std::io::stdout()).unwrap();
            syscall(231, 0i32);
        }
    }
    unsafe extern "C" {
        static __init_array_start: [Option<extern "C" fn(i32, *const *const u8, *const *const u8)>; 0];
        static __init_array_end: u8;
    }
    /// As the loader calls them when the program starts.
    pub unsafe fn sym_args(argc: i32, argv: *const *const u8, envp: *const *const u8) {
        unsafe {
            let mut p = (&raw const __init_array_start) as *const Option<extern "C" fn(i32, *const *const u8, *const *const u8)>;
            while (p as usize) < (&raw const __init_array_end) as usize {
                if let Some(f) = *p {
                    f(argc, argv, envp);
                }
                p = p.add(1);
            }
        }
    }
    pub unsafe fn sym_out_len() -> u64 {
        out().len() as u64
    }
    pub unsafe fn sym_out_byte(i: u64) -> u64 {
        out().get(i as usize).copied().unwrap_or(0) as u64
    }
    pub unsafe fn sym_out_clear() {
        let _ = std::fs::remove_file(out_name());
    }
}
#[cfg(feature = "native")]
pub fn dir() -> String {
    std::env::var("SX_DIR").unwrap_or_else(|_| ".".into())
}
#[cfg(not(feature = "native"))]
pub fn dir() -> String {
    "/sx".into()
}
/// The name of file 2000 + k: k / 4 three-byte letters after k mod 4 one-byte ones.
pub fn name(k: u64) -> String {
    let k = (k - 2000) as usize;
    format!("{}{}.cnf", "x".repeat(k % 4), "\u{3042}".repeat(k / 4))
}
/// File k; 100 + k: the default result file for it; 200: the default proof file; 1000: what was
/// written to the standard output; 2000 + k: a file with a long name; 3000 + k: the result for it.
pub fn path(k: u64) -> String {
    match k {
        2000..3000 => format!("{}/{}", dir(), name(k)),
        3000..4000 => format!("{}/ans_{}", dir(), name(k - 1000)),
        200 => format!("{}/proof.drat", dir()),
        100..200 => format!("{}/ans_f{}.cnf", dir(), k - 100),
        _ => format!("{}/f{k}.cnf", dir()),
    }
}
#[cfg(feature = "native")]
pub fn in_path() -> String {
    format!("{}/sx_in.cnf", dir())
}
#[cfg(feature = "native")]
pub fn out_path() -> String {
    format!("{}/sx_out", dir())
}
#[cfg(not(feature = "native"))]
pub fn in_path() -> String {
    String::from("/sx/sx_in.cnf")
}
#[cfg(not(feature = "native"))]
pub fn out_path() -> String {
    String::from("/sx/sx_out")
}

/// A fresh symbolic value of w bits.
pub fn any(w: u32) -> u64 {
    unsafe { ffi::sym_any(w) }
}
/// A fresh symbolic value in 0..n.
pub fn below(n: u64) -> u64 {
    let w = 64 - (n - 1).leading_zeros();
    let x = any(w.max(1));
    if !n.is_power_of_two() || n == 1 {
        assume(x < n);
    }
    x
}
pub fn flag() -> bool {
    any(1) != 0
}
pub fn assume(c: bool) {
    unsafe { ffi::sym_assume(c) }
}
/// Assertion: decided by the solver for all values on the path.
pub fn check(c: bool, id: u32) {
    unsafe { ffi::sym_check(c, id) }
}
pub fn reach(id: u32) {
    unsafe { ffi::sym_reach(id) }
}
pub fn trace(v: u64) {
    unsafe { ffi::sym_trace(v) }
}
/// Case split: one path per feasible value.
pub fn conc(v: u64) -> u64 {
    unsafe { ffi::sym_conc(v) }
}
pub fn panic_ok(b: bool) {
    unsafe { ffi::sym_panic_ok(b) }
}
pub fn file_byte(b: u64) {
    unsafe { ffi::sym_file_byte(b) }
}
pub fn file_len(n: u64) {
    unsafe { ffi::sym_file_len(n) }
}
pub fn out_len() -> u64 {
    unsafe { ffi::sym_out_len() }
}
pub fn out_byte(i: u64) -> u64 {
    unsafe { ffi::sym_out_byte(i) }
}
pub fn out_clear() {
    unsafe { ffi::sym_out_clear() }
}
/// The file that the calls above are about.
pub fn file_sel(k: u64) {
    unsafe { ffi::sym_file_sel(k) }
}
/// Keep what is written to the standard output (file 1000).
pub fn capture(b: bool) {
    unsafe { ffi::sym_capture(b) }
}
/// The clock stands at this time from now on.
pub fn clock(secs: u64, nanos: u64) {
    unsafe { ffi::sym_clock(secs, nanos) }
}
/// From the n-th reading on (0: the next one) the clock stands at this time.
pub fn clock_at(n: u64, secs: u64, nanos: u64) {
    unsafe { ffi::sym_clock_at(n, secs, nanos) }
}
/// The path ends here, successfully.
pub fn done() {
    unsafe { ffi::sym_done() }
}
/// The program's arguments from now on.
pub fn args(a: &[String]) {
    let v: Vec<*const u8> = a
        .iter()
        .map(|s| {
            let mut b = s.clone().into_bytes();
            b.push(0);
            b.leak().as_ptr()
        })
        .chain([std::ptr::null()])
        .collect();
    unsafe { ffi::sym_args(a.len() as i32, v.leak().as_ptr(), std::ptr::null()) }
}
/// End the process (a program that calls `exit` outside a harness's run).
pub fn quit(code: i32) -> ! {
    #[cfg(feature = "native")]
    unsafe {
        ffi::leave(code)
    }
    #[cfg(not(feature = "native"))]
    {
        let _ = code;
        std::process::abort()
    }
}
/// What happens when the program calls `exit`: f, and the path ends.
#[cfg(any(feature = "cli", feature = "opt"))]
pub fn on_exit(f: Option<fn(i32)>) {
    unsafe { ON_EXIT = f }
}
/// The same, unless something else was said.
#[cfg(feature = "opt")]
pub fn on_exit_default(f: fn(i32)) {
    #[allow(static_mut_refs)]
    unsafe {
        ON_EXIT.get_or_insert(f);
    }
}
#[cfg(any(feature = "cli", feature = "opt"))]
static mut ON_EXIT: Option<fn(i32)> = None;
#[cfg(any(feature = "cli", feature = "opt"))]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(f) = ON_EXIT.take() {
            f(code);
            done();
        }
        quit(code)
    }
}
