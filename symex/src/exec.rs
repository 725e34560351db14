//! Forking symbolic executor over decoded LLVM IR.
use crate::expr::*;
use crate::ll::{self, *};
use crate::z3::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    C(u128),
    S(E),
}
use Val::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Global,
    Stack,
    Heap,
    Freed,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<BTreeMap<u32, (E, u8)>>>,
    pub kind: Kind,
    pub constant: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub base: u32,
    pub allocas: Vec<u32>,
    pub ret: u32,
    /// edge to follow after return (invoke): index of the call instruction in the caller
    pub inv: bool,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub gmod: BTreeMap<u32, Rc<Obj>>,
    pub free_stack: Vec<u32>,
    pub pc: Vec<E>,
    pub model: Vec<u128>,
    pub symw: Vec<u16>,
    pub det: u128,
    pub trace: Vec<Val>,
    pub steps: u64,
    pub forks: u32,
    pub reach: BTreeMap<u32, u32>,
    pub checks: u64,
    pub files: Vec<(String, Rc<Vec<Val>>)>, // the file system of the path
    pub fds: Vec<(usize, usize)>,           // from 10 on: file, position
    pub fsel: usize,                        // file the sym_file_* and sym_out_* calls are about
    pub capture: bool,                      // keep what goes to stdout
    pub clock: Option<(Val, Val)>,          // seconds and nanoseconds of the clock
    pub clock_next: Option<(u64, Val, Val)>, // after so many readings
    pub panic_ok: bool,
    pub errno: u64,
    /// expressions with a known value on this path
    pub pins: BTreeMap<E, u128>,
}

pub enum End {
    Done,
    Killed,
    Violation(String, String),
    Abort(String),
}

#[derive(Clone)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u128>,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub cache_hits: u64,
    pub max_forks: u32,
    pub reach: BTreeMap<u32, u64>,
    pub aborts: Vec<String>,
    pub viols: Vec<Viol>,
    pub samples: Vec<(Vec<u128>, u64)>, // inputs, trace hash
    pub fcov: BTreeMap<String, u64>,
    pub unfinished: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None,
    SymAny,
    SymAssume,
    SymCheck,
    SymReach,
    SymTrace,
    SymConc,
    SymKill,
    SymFileLen,
    SymFileByte,
    SymOutLen,
    SymOutByte,
    SymOutClear,
    SymPanicOk,
    SymFileSel,
    SymCapture,
    SymClock,
    SymClockAt,
    SymDone,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Nop,
    Malloc,
    Calloc,
    PosixMemalign,
    CRealloc,
    Free,
    Bcmp,
    Memcpy,
    Memset,
    Strlen,
    Panic,
    PanicFmt,
    ClockGettime,
    Write,
    Writev,
    Ret0,
    RetM1,
    Errno,
    Getrandom,
    Syscall,
    Open,
    Read,
    Close,
    Lseek,
    Fstat,
    Stat,
    Statx,
    Abort,
    Gettid,
    Getenv,
    Unknown,
}

fn classify(n: &str, declared: bool) -> Ext {
    use Ext::*;
    if n.contains("___rustc") {
        if n.ends_with("12___rust_alloc") {
            return Alloc;
        }
        if n.ends_with("19___rust_alloc_zeroed") {
            return AllocZ;
        }
        if n.ends_with("14___rust_dealloc") {
            return Dealloc;
        }
        if n.ends_with("14___rust_realloc") {
            return Realloc;
        }
        if n.contains("shim_is_unstable") {
            return Nop;
        }
    }
    if n.contains("4core9panicking") && (n.ends_with("9panic_fmt") || n.ends_with("18panic_nounwind_fmt")) {
        return PanicFmt;
    }
    if n.contains("17rust_begin_unwind") || n.contains("alloc_error_handler") || n.ends_with("18handle_alloc_error") || n.contains("10rust_panic") {
        return Panic;
    }
    match n {
        "sym_any" => SymAny,
        "sym_assume" => SymAssume,
        "sym_check" => SymCheck,
        "sym_reach" => SymReach,
        "sym_trace" => SymTrace,
        "sym_conc" => SymConc,
        "sym_kill" => SymKill,
        "sym_file_len" => SymFileLen,
        "sym_file_byte" => SymFileByte,
        "sym_out_len" => SymOutLen,
        "sym_out_byte" => SymOutByte,
        "sym_out_clear" => SymOutClear,
        "sym_panic_ok" => SymPanicOk,
        "sym_file_sel" => SymFileSel,
        "sym_capture" => SymCapture,
        "sym_clock" => SymClock,
        "sym_clock_at" => SymClockAt,
        "sym_done" => SymDone,
        _ if !declared => None,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "posix_memalign" => PosixMemalign,
        "realloc" => CRealloc,
        "free" => Free,
        "bcmp" | "memcmp" => Bcmp,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "strlen" => Strlen,
        "clock_gettime" => ClockGettime,
        "write" => Write,
        "writev" => Writev,
        "getrandom" => Getrandom,
        "syscall" => Syscall,
        "open64" => Open,
        "read" => Read,
        "close" => Close,
        "lseek64" => Lseek,
        "fstat64" => Fstat,
        "stat64" => Stat,
        "statx" => Statx,
        "__errno_location" => Errno,
        "abort" => Abort,
        "gettid" => Gettid,
        "getenv" => Getenv,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "poll" | "signal" | "sigaction"
        | "munmap" | "fcntl" | "isatty" => Ret0,
        _ => Unknown,
    }
}

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
}

pub struct Shared {
    pub live: *mut std::sync::atomic::AtomicI64, // live, stop, paths
}

pub struct Cfg {
    pub jobs: i64,
    pub max_steps: u64,
    pub deadline: std::time::Instant,
    pub max_viols: usize,
    pub samples: usize,
    pub outdir: String,
    pub merge_loads: bool,
    pub jump: u64,
    pub seed: u64,
    pub max_mb: u64,
}

pub struct Ex {
    pub m: &'static Module,
    pub ar: Arena,
    pub z3: Z3,
    pub ext: Vec<Ext>,
    pub args: (u32, u32), // a call of sym_args is one of std's function that takes the arguments
    pub funcs: Vec<Option<&'static Func>>,
    pub globals: Vec<Rc<Obj>>,
    pub gbase: u32,
    pub hbase: u32,
    pub pending: Vec<State>,
    pub st: Stats,
    pub cfg: Cfg,
    pub cache: HashMap<Box<[E]>, Option<Option<Vec<(u32, u128)>>>>,
    pub sh: Shared,
    pub last_fork: std::time::Instant,
    pub tmp: Vec<Val>,
    pub is_child: bool,
    pub wid: u32,
    pub rng: u64,
}

type R<T> = Result<T, End>;

macro_rules! abort {
    ($($a:tt)*) => { return Err(End::Abort(format!($($a)*))) };
}
macro_rules! viol {
    ($k:expr, $($a:tt)*) => { return Err(End::Violation($k.to_string(), format!($($a)*))) };
}

impl Ex {
    pub fn new(m: &'static Module, cfg: Cfg, sh: Shared) -> Ex {
        let ext = m.fnames.iter().zip(&m.fbody).map(|(n, b)| classify(n, b.is_none())).collect();
        let globals = (0..m.globals.len())
            .map(|i| Rc::new(Obj { data: m.global_bytes(i), sym: None, kind: Kind::Global, constant: m.globals[i].constant }))
            .collect();
        let find = |p: &dyn Fn(&str) -> bool| m.fnames.iter().position(|n| p(n)).map_or(u32::MAX, |i| i as u32);
        let args = (find(&|n| n == "sym_args"), find(&|n| n.ends_with("ARGV_INIT_ARRAY12init_wrapper") || n.contains("15ARGV_INIT_ARRAY12init_wrapper")));
        Ex {
            m,
            args,
            ar: Arena::default(),
            z3: Z3::new(30000),
            ext,
            funcs: vec![None; m.fnames.len()],
            globals,
            gbase: FBASE + m.fnames.len() as u32,
            hbase: m.first_heap(),
            pending: vec![],
            st: Stats::default(),
            cfg,
            cache: HashMap::new(),
            sh,
            last_fork: std::time::Instant::now(),
            tmp: vec![],
            is_child: false,
            wid: 0,
            rng: 0,
        }
    }
    fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize] {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(ll::decode(self.m, id)));
        self.funcs[id as usize] = Some(f);
        f
    }
    pub fn start(&mut self, entry: &str) -> State {
        let id = *self.m.fmap.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let f = self.func(id);
        State {
            frames: vec![Frame { f, pc: 0, base: 0, allocas: vec![], ret: u32::MAX, inv: false }],
            regs: vec![C(0); f.nregs as usize],
            objs: vec![],
            gmod: BTreeMap::new(),
            free_stack: vec![],
            pc: vec![],
            model: vec![],
            symw: vec![],
            det: 0,
            trace: vec![],
            steps: 0,
            forks: 0,
            reach: BTreeMap::new(),
            checks: 0,
            files: vec![],
            fds: vec![],
            fsel: 0,
            capture: false,
            clock: None,
            clock_next: None,
            panic_ok: false,
            errno: 0,
            pins: BTreeMap::new(),
        }
    }

    // ---------- solver ----------
    /// pc /\ extra satisfiable?  None = no; Some(model)
    fn query(&mut self, st: &State, extra: E) -> R<Option<Vec<u128>>> {
        if let Some(k) = self.ar.as_const(extra) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        let extra = self.ar.subst(extra, st.det, &st.model);
        if let Some(k) = self.ar.as_const(extra) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        // independent slice
        let mut vars = self.ar.vars[extra as usize] & !st.det;
        let mut taken = vec![false; st.pc.len()];
        let mut slice: Vec<E> = vec![];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if !taken[i] {
                    let v = self.ar.vars[*c as usize] & !st.det;
                    if v & vars != 0 {
                        taken[i] = true;
                        slice.push(*c);
                        if v & !vars != 0 {
                            vars |= v;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        for c in slice.iter_mut() {
            *c = self.ar.subst(*c, st.det, &st.model);
        }
        slice.retain(|c| self.ar.as_const(*c) != Some(1));
        slice.sort_unstable();
        slice.dedup();
        slice.push(extra);
        let key: Box<[E]> = slice.into_boxed_slice();
        let hit = self.cache.get(&key).cloned();
        let ans = match hit {
            Some(a) => {
                self.st.cache_hits += 1;
                a
            }
            None => {
                let mut syms = vec![];
                let mut v = vars;
                while v != 0 {
                    let i = v.trailing_zeros();
                    v &= v - 1;
                    let e = self.ar.sym(st.symw[i as usize], i);
                    syms.push((i, e));
                }
                let a = match self.z3.check(&self.ar, &key, &syms) {
                    Ans::Sat(m) => Some(Some(m)),
                    Ans::Unsat => Some(None),
                    Ans::Unknown => None,
                };
                self.cache.insert(key, a.clone());
                a
            }
        };
        match ans {
            None => Err(End::Abort("solver returned unknown".into())),
            Some(None) => Ok(None),
            Some(Some(m)) => {
                let mut r = st.model.clone();
                for (i, v) in m {
                    r[i as usize] = v;
                }
                Ok(Some(r))
            }
        }
    }
    fn update_det(&mut self, st: &mut State, e: E) -> R<()> {
        let mut v = self.ar.vars[e as usize] & !st.det;
        if v.count_ones() > 4 {
            return Ok(());
        }
        let n = self.ar.n[e as usize];
        if n.op == Op::Eq && self.ar.n[n.a as usize].op == Op::Sym && self.ar.as_const(n.b).is_some() {
            st.det |= 1 << self.ar.n[n.a as usize].k;
            return Ok(());
        }
        while v != 0 {
            let i = v.trailing_zeros();
            v &= v - 1;
            let w = st.symw[i as usize];
            let s = self.ar.sym(w, i);
            let k = self.ar.k(w, st.model[i as usize]);
            let eq = self.ar.bin(Op::Eq, s, k);
            let ne = self.ar.not(eq);
            if self.query(st, ne)?.is_none() {
                st.det |= 1 << i;
            }
        }
        Ok(())
    }
    fn eval(&mut self, st: &State, e: E) -> u128 {
        self.ar.eval(e, &st.model)
    }
    fn is_det(&self, st: &State, e: E) -> bool {
        self.ar.vars[e as usize] & !st.det == 0 || st.pins.contains_key(&e)
    }
    /// Record that e has value k on this path, and what follows for its parts.
    fn pin(&self, st: &mut State, e: E, k: u128) {
        if self.ar.as_const(e).is_some() || st.pins.len() > 4096 {
            return;
        }
        st.pins.insert(e, k);
        let n = self.ar.n[e as usize];
        match n.op {
            Op::ZExt => self.pin(st, n.a, k & mask(self.ar.w(n.a))),
            Op::SExt => self.pin(st, n.a, k & mask(self.ar.w(n.a))),
            Op::Concat => {
                let lw = self.ar.w(n.b);
                self.pin(st, n.b, k & mask(lw));
                self.pin(st, n.a, k >> lw);
            }
            Op::Xor => {
                if let Some(c) = self.ar.as_const(n.b) {
                    self.pin(st, n.a, k ^ c)
                } else if let Some(c) = self.ar.as_const(n.a) {
                    self.pin(st, n.b, k ^ c)
                }
            }
            Op::Add => {
                if let Some(c) = self.ar.as_const(n.b) {
                    self.pin(st, n.a, k.wrapping_sub(c) & mask(n.w))
                } else if let Some(c) = self.ar.as_const(n.a) {
                    self.pin(st, n.b, k.wrapping_sub(c) & mask(n.w))
                }
            }
            _ => {}
        }
    }
    #[inline]
    fn norm(&self, st: &State, v: Val) -> Val {
        match v {
            S(e) if !st.pins.is_empty() => match st.pins.get(&e) {
                Some(k) => C(*k),
                None => v,
            },
            _ => v,
        }
    }
    /// Decide a Boolean: returns the branch to follow in `st`; forks the other side (re-executing the
    /// current instruction).
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        let c = self.ar.subst(c, st.det, &st.model);
        if let Some(k) = self.ar.as_const(c) {
            return Ok(k == 1);
        }
        let v = self.eval(st, c) == 1;
        if self.is_det(st, c) {
            return Ok(v);
        }
        let nc = self.ar.not(c);
        let (taken, other) = if v { (c, nc) } else { (nc, c) };
        if st.pc.contains(&taken) {
            return Ok(v);
        }
        if let Some(m) = self.query(st, other)? {
            self.fork_state(st, other, m)?;
            st.pc.push(taken);
            self.update_det(st, taken)?;
        }
        Ok(v)
    }
    fn fork_state(&mut self, st: &mut State, c: E, m: Vec<u128>) -> R<()> {
        self.st.forks += 1;
        st.forks += 1;
        let mut o = st.clone();
        o.pc.push(c);
        o.model = m;
        self.update_det(&mut o, c)?;
        self.pending.push(o);
        Ok(())
    }
    /// Concrete value of e; forks the states in which it differs.
    fn conc(&mut self, st: &mut State, v: Val) -> R<u128> {
        let e = match v {
            C(k) => return Ok(k),
            S(e) => e,
        };
        let k = self.eval(st, e);
        if self.is_det(st, e) {
            return Ok(k);
        }
        let e0 = e;
        let e = self.ar.subst(e, st.det, &st.model);
        if self.ar.as_const(e).is_some() {
            return Ok(k);
        }
        let kk = self.ar.k(self.ar.w(e), k);
        let eq = self.ar.bin(Op::Eq, e, kk);
        if self.ar.as_const(eq) == Some(1) || st.pc.contains(&eq) {
            return Ok(k);
        }
        let ne = self.ar.not(eq);
        if let Some(m) = self.query(st, ne)? {
            self.fork_state(st, ne, m)?;
            st.pc.push(eq);
            self.update_det(st, eq)?;
        }
        self.pin(st, e, k);
        self.pin(st, e0, k);
        Ok(k)
    }
    fn to_e(&mut self, v: Val, w: u16) -> E {
        match v {
            C(k) => self.ar.k(w, k),
            S(e) => e,
        }
    }
    fn from_e(&self, e: E) -> Val {
        match self.ar.as_const(e) {
            Some(k) => C(k),
            None => S(e),
        }
    }

    // ---------- memory ----------
    fn obj<'a>(&'a self, st: &'a State, id: u32) -> Option<&'a Rc<Obj>> {
        if id >= self.hbase {
            st.objs.get((id - self.hbase) as usize).and_then(|o| o.as_ref())
        } else if id >= self.gbase {
            st.gmod.get(&id).or_else(|| self.globals.get((id - self.gbase) as usize))
        } else {
            None
        }
    }
    fn access(&self, st: &State, addr: u64, n: u64, write: bool) -> R<u32> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        match self.obj(st, id) {
            None => viol!("memory", "{} of {} bytes at invalid address {:#x}", if write { "write" } else { "read" }, n, addr),
            Some(o) => {
                if o.kind == Kind::Freed {
                    viol!("memory", "use of freed memory ({} bytes at offset {})", n, off);
                }
                if off + n > o.data.len() as u64 {
                    viol!(
                        "memory",
                        "out-of-bounds {} of {} bytes at offset {} of a {}-byte object",
                        if write { "write" } else { "read" },
                        n,
                        off,
                        o.data.len()
                    );
                }
                if write && o.constant {
                    viol!("memory", "write to constant memory");
                }
                Ok(id)
            }
        }
    }
    fn obj_mut<'a>(&'a self, st: &'a mut State, id: u32) -> &'a mut Obj {
        if id >= self.hbase {
            Rc::make_mut(st.objs[(id - self.hbase) as usize].as_mut().unwrap())
        } else {
            let g = st.gmod.entry(id).or_insert_with(|| self.globals[(id - self.gbase) as usize].clone());
            Rc::make_mut(g)
        }
    }
    fn load_at(&mut self, st: &State, addr: u64, w: u16) -> R<Val> {
        let n = (w as u64).div_ceil(8);
        let id = self.access(st, addr, n, false)?;
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj(st, id).unwrap().clone();
        if let Some(s) = &o.sym {
            if s.range(off as u32..off as u32 + n as u32).next().is_some() {
                return Ok(self.load_sym(&o, off as u32, n as u32, w));
            }
        }
        let mut b = [0u8; 16];
        b[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
        Ok(C(u128::from_le_bytes(b) & mask(w)))
    }
    fn load_sym(&mut self, o: &Obj, off: u32, n: u32, w: u16) -> Val {
        let s = o.sym.as_ref().unwrap();
        if let Some((e, 0)) = s.get(&off) {
            if self.ar.w(*e) as u32 == n * 8 && (1..n).all(|i| s.get(&(off + i)) == Some(&(*e, i as u8))) {
                let r = self.ar.extract(*e, 0, w);
                return self.from_e(r);
            }
        }
        let mut r: Option<E> = None;
        for i in 0..n {
            let b = match s.get(&(off + i)) {
                Some((e, k)) => self.ar.extract(*e, *k as u16 * 8, 8),
                None => self.ar.k(8, o.data[(off + i) as usize] as u128),
            };
            r = Some(match r {
                None => b,
                Some(lo) => self.ar.concat(b, lo),
            });
        }
        let r = self.ar.extract(r.unwrap(), 0, w);
        self.from_e(r)
    }
    fn store_at(&mut self, st: &mut State, addr: u64, v: Val, w: u16) -> R<()> {
        let n = (w as u64).div_ceil(8);
        let id = self.access(st, addr, n, true)?;
        let off = (addr & 0xffff_ffff) as usize;
        let e = match v {
            S(e) => Some(self.ar.zext(e, (n * 8) as u16)),
            _ => None,
        };
        let o = self.obj_mut(st, id);
        match (v, e) {
            (C(k), _) => {
                o.data[off..off + n as usize].copy_from_slice(&k.to_le_bytes()[..n as usize]);
                if let Some(s) = &mut o.sym {
                    for i in 0..n as u32 {
                        s.remove(&(off as u32 + i));
                    }
                    if s.is_empty() {
                        o.sym = None;
                    }
                }
            }
            (_, Some(e)) => {
                let s = o.sym.get_or_insert_with(Default::default);
                for i in 0..n as u32 {
                    s.insert(off as u32 + i, (e, i as u8));
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, a: Val, w: u16) -> R<Val> {
        let e = match a {
            C(k) => return self.load_at(st, k as u64, w),
            S(e) => e,
        };
        if self.is_det(st, e) {
            let k = self.eval(st, e);
            return self.load_at(st, k as u64, w);
        }
        if self.cfg.merge_loads && w <= 32 {
            // candidate addresses
            let mut vals = vec![self.eval(st, e)];
            let mut conds = vec![];
            let mut acc = self.ar.k(1, 1);
            loop {
                let kk = self.ar.k(64, *vals.last().unwrap());
                let eq = self.ar.bin(Op::Eq, e, kk);
                conds.push(eq);
                let ne = self.ar.not(eq);
                acc = self.ar.bin(Op::And, acc, ne);
                if vals.len() > 16 {
                    break;
                }
                match self.query(st, acc)? {
                    None => break,
                    Some(m) => {
                        let v = self.ar.eval(e, &m);
                        vals.push(v);
                    }
                }
            }
            let id = vals[0] as u64 >> 32;
            let n = (w as u64).div_ceil(8);
            if vals.len() <= 16 && vals.iter().all(|v| *v as u64 >> 32 == id && self.access(st, *v as u64, n, false).is_ok()) {
                // deterministic order, independent of the model
                let mut ord: Vec<usize> = (0..vals.len()).collect();
                ord.sort_by_key(|i| vals[*i]);
                let mut r: Option<E> = None;
                for i in ord.into_iter().rev() {
                    let x = self.load_at(st, vals[i] as u64, w)?;
                    let x = self.to_e(x, w);
                    r = Some(match r {
                        None => x,
                        Some(y) => self.ar.ite(conds[i], x, y),
                    });
                }
                return Ok(self.from_e(r.unwrap()));
            }
        }
        let k = self.conc(st, a)?;
        self.load_at(st, k as u64, w)
    }
    fn new_obj(&mut self, st: &mut State, n: u64, kind: Kind) -> R<u64> {
        if n > 1 << 46 {
            return Ok(0); // more than the address space of a process
        }
        if n > 1 << 30 {
            viol!("memory", "allocation of {} bytes", n);
        }
        let o = Some(Rc::new(Obj { data: vec![0; n as usize], sym: None, kind, constant: false }));
        if let Some(i) = st.free_stack.pop() {
            st.objs[(i - self.hbase) as usize] = o;
            return Ok((i as u64) << 32);
        }
        st.objs.push(o);
        let id = self.hbase + st.objs.len() as u32 - 1;
        Ok((id as u64) << 32)
    }
    fn free(&mut self, st: &mut State, addr: u64) -> R<()> {
        let id = (addr >> 32) as u32;
        match self.obj(st, id) {
            Some(o) if o.kind == Kind::Heap && addr & 0xffff_ffff == 0 => {}
            Some(o) if o.kind == Kind::Freed => viol!("memory", "double free"),
            _ => viol!("memory", "free of invalid pointer {:#x}", addr),
        }
        // keep a small tombstone
        st.objs[(id - self.hbase) as usize] = Some(Rc::new(Obj { data: vec![], sym: None, kind: Kind::Freed, constant: true }));
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let si = self.access(st, s, n, false)?;
        let di = self.access(st, d, n, true)?;
        let so = (s & 0xffff_ffff) as usize;
        let dof = (d & 0xffff_ffff) as usize;
        let n = n as usize;
        let src = self.obj(st, si).unwrap().clone();
        let syms: Option<Vec<(u32, (E, u8))>> = src.sym.as_ref().map(|m| m.range(so as u32..(so + n) as u32).map(|(k, v)| (*k, *v)).collect());
        if si == di {
            let buf = src.data[so..so + n].to_vec();
            drop(src);
            let o = self.obj_mut(st, di);
            o.data[dof..dof + n].copy_from_slice(&buf);
            Self::copy_syms(o, syms, so, dof, n);
        } else {
            let o = self.obj_mut(st, di);
            o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
            Self::copy_syms(o, syms, so, dof, n);
        }
        Ok(())
    }
    fn copy_syms(o: &mut Obj, syms: Option<Vec<(u32, (E, u8))>>, so: usize, dof: usize, n: usize) {
        if let Some(m) = &mut o.sym {
            let ks: Vec<u32> = m.range(dof as u32..(dof + n) as u32).map(|x| *x.0).collect();
            for k in ks {
                m.remove(&k);
            }
        }
        if let Some(v) = syms {
            if !v.is_empty() {
                let m = o.sym.get_or_insert_with(Default::default);
                for (k, x) in v {
                    m.insert(k - so as u32 + dof as u32, x);
                }
            }
        }
        if o.sym.as_ref().is_some_and(|m| m.is_empty()) {
            o.sym = None;
        }
    }
    fn memset(&mut self, st: &mut State, d: u64, v: Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        match v {
            C(k) => {
                let di = self.access(st, d, n, true)?;
                let off = (d & 0xffff_ffff) as usize;
                let o = self.obj_mut(st, di);
                o.data[off..off + n as usize].fill(k as u8);
                Self::copy_syms(o, None, 0, off, n as usize);
            }
            S(_) => {
                for i in 0..n {
                    self.store_at(st, d + i, v, 8)?;
                }
            }
        }
        Ok(())
    }
    fn bytes(&self, st: &State, a: u64, n: u64) -> Vec<u8> {
        match self.access(st, a, n, false) {
            Ok(id) => {
                let o = self.obj(st, id).unwrap();
                let off = (a & 0xffff_ffff) as usize;
                o.data[off..off + n as usize].to_vec()
            }
            Err(_) => vec![],
        }
    }
    fn u64_at(&self, st: &State, a: u64) -> u64 {
        let b = self.bytes(st, a, 8);
        if b.len() == 8 {
            u64::from_le_bytes(b.try_into().unwrap())
        } else {
            0
        }
    }

    // ---------- operators ----------
    fn binop(&mut self, st: &mut State, op: Op, w: u16, a: Val, b: Val) -> R<Val> {
        let (a, b) = (self.norm(st, a), self.norm(st, b));
        if let (C(x), C(y)) = (a, b) {
            return match bin(op, w, x, y) {
                Some(v) => Ok(C(v)),
                None => match op {
                    Op::Shl | Op::LShr | Op::AShr => Ok(C(0)),
                    _ => viol!("ub", "division by zero"),
                },
            };
        }
        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && !matches!(b, C(k) if k != 0) {
            let y = self.conc(st, b)?;
            if y == 0 {
                viol!("ub", "division by zero");
            }
            return self.binop(st, op, w, a, C(y));
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let r = self.ar.bin(op, x, y);
        Ok(self.from_e(r))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: Val, b: Val) -> Val {
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (C(x), C(y)) = (a, b) {
            let r = bin(op, w, x, y).unwrap();
            return C(r ^ neg as u128);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let mut r = self.ar.bin(op, x, y);
        if neg {
            r = self.ar.not(r);
        }
        self.from_e(r)
    }
    /// IEEE comparison of symbolic bit patterns
    fn fcmp(&mut self, st: &mut State, p: &str, w: u16, x: Val, y: Val) -> R<Val> {
        let one = |b: bool| C(b as u128);
        match p {
            "false" | "true" => return Ok(one(p == "true")),
            _ => (),
        }
        let inf = if w == 64 { 0x7ff0_0000_0000_0000u128 } else { 0x7f80_0000 };
        let m = C(mask(w) >> 1);
        let (ax, ay) = (self.binop(st, Op::And, w, x, m)?, self.binop(st, Op::And, w, y, m)?);
        let nx = self.icmp(Pred::Ugt, w, ax, C(inf));
        let ny = self.icmp(Pred::Ugt, w, ay, C(inf));
        let uno = self.binop(st, Op::Or, 1, nx, ny)?;
        let ord = self.binop(st, Op::Xor, 1, uno, C(1))?;
        let z = self.binop(st, Op::Or, w, ax, ay)?;
        let zero = self.icmp(Pred::Eq, w, z, C(0));
        let same = self.icmp(Pred::Eq, w, x, y);
        let eq = self.binop(st, Op::Or, 1, zero, same)?;
        let (x, y) = if matches!(&p[1..], "gt" | "ge") { (y, x) } else { (x, y) };
        // x < y for numbers that are not both zero
        let sx = self.icmp(Pred::Slt, w, x, C(0));
        let sy = self.icmp(Pred::Slt, w, y, C(0));
        let up = self.icmp(Pred::Ult, w, x, y);
        let down = self.icmp(Pred::Ult, w, y, x);
        let neg = self.select(1, sy, down, C(1));
        let pos = self.select(1, sy, C(0), up);
        let lt = self.select(1, sx, neg, pos);
        let nz = self.binop(st, Op::Xor, 1, zero, C(1))?;
        let lt = self.binop(st, Op::And, 1, lt, nz)?;
        let c = match &p[1..] {
            "rd" => return Ok(ord),
            "no" => return Ok(uno),
            "eq" => eq,
            "ne" => self.binop(st, Op::Xor, 1, eq, C(1))?,
            "gt" | "lt" => lt,
            "ge" | "le" => self.binop(st, Op::Or, 1, lt, eq)?,
            _ => unreachable!(),
        };
        if p.starts_with('u') { self.binop(st, Op::Or, 1, c, uno) } else { self.binop(st, Op::And, 1, c, ord) }
    }
    fn select(&mut self, w: u16, c: Val, a: Val, b: Val) -> Val {
        match c {
            C(1) => a,
            C(_) => b,
            S(e) => {
                let (x, y) = (self.to_e(a, w), self.to_e(b, w));
                let r = self.ar.ite(e, x, y);
                self.from_e(r)
            }
        }
    }

    // ---------- main loop ----------
    pub fn report_viol(&mut self, st: &State, kind: String, msg: String) {
        let v = Viol { kind, msg, inputs: st.model.clone(), stack: self.stack(st) };
        self.st.viols.push(v);
        if self.st.viols.len() >= self.cfg.max_viols {
            self.shared(1).store(1, std::sync::atomic::Ordering::SeqCst);
        }
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&f.f.name)).collect()
    }
    pub fn shared(&self, i: usize) -> &std::sync::atomic::AtomicI64 {
        unsafe { &*self.sh.live.add(i) }
    }
    fn maybe_share(&mut self) {
        use std::sync::atomic::Ordering::SeqCst;
        if self.cfg.jobs <= 1 || self.pending.len() < 2 || self.last_fork.elapsed().as_millis() < 40 {
            return;
        }
        let l = self.shared(0);
        let n = l.load(SeqCst);
        if n >= self.cfg.jobs || l.compare_exchange(n, n + 1, SeqCst, SeqCst).is_err() {
            return;
        }
        let wid = self.shared(2).fetch_add(1, SeqCst) as u32 + 1;
        self.last_fork = std::time::Instant::now();
        let pid = unsafe { fork() };
        if pid == 0 {
            self.is_child = true;
            self.wid = wid;
            let mut i = 0;
            self.pending.retain(|_| {
                i += 1;
                i % 2 == 1
            });
            self.st = Stats::default();
            self.z3.queries = 0;
            self.z3.sat = 0;
            self.z3.unsat = 0;
            self.z3.unknown = 0;
            self.z3.time = Default::default();
            self.last_fork = std::time::Instant::now();
        } else {
            if pid < 0 {
                self.shared(0).fetch_sub(1, SeqCst);
                return;
            }
            let mut i = 0;
            self.pending.retain(|_| {
                i += 1;
                i % 2 == 0
            });
        }
    }
    /// Explore everything pending (may fork worker processes).
    pub fn explore(&mut self, init: State) {
        use std::sync::atomic::Ordering::SeqCst;
        self.rng = self.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        self.pending.push(init);
        let mut turn = 0u64;
        loop {
            turn += 1;
            if turn % 1024 == 0 && self.rss_mb() > self.cfg.max_mb {
                self.st.unfinished += self.pending.len() as u64;
                self.pending.clear();
                self.shared(4).store(1, SeqCst);
                break;
            }
            self.maybe_share();
            if self.cfg.jump > 0 && self.pending.len() > 1 && self.pending.len() < 50_000 {
                // diversify: continue from a random pending state
                let mut x = self.rng ^ ((self.wid as u64 + 1) << 40);
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                self.rng = x;
                if (x >> 33) % 1000 < self.cfg.jump {
                    let (i, n) = (((x >> 13) as usize) % self.pending.len(), self.pending.len());
                    self.pending.swap(i, n - 1);
                }
            }
            let Some(mut st) = self.pending.pop() else { break };
            // a child created by maybe_share drops its parent's current state
            let end = self.run(&mut st);
            if self.shared(1).load(SeqCst) != 0 {
                // stop requested
                if let Err(End::Violation(k, m)) = end {
                    if !(k == "panic" && st.panic_ok) {
                        self.finish_viol(&st, k, m);
                    }
                }
                self.st.unfinished += self.pending.len() as u64;
                self.pending.clear();
                break;
            }
            self.st.instrs += 0;
            match end {
                Ok(()) | Err(End::Done) => {
                    self.st.paths += 1;
                    self.st.checks += st.checks;
                    self.st.max_forks = self.st.max_forks.max(st.forks);
                    for (k, v) in &st.reach {
                        *self.st.reach.entry(*k).or_default() += *v as u64;
                    }
                    self.sample(&st);
                }
                Err(End::Killed) => self.st.killed += 1,
                Err(End::Violation(k, m)) => {
                    if k == "panic" && st.panic_ok {
                        self.st.paths += 1;
                    } else {
                        self.finish_viol(&st, k, m);
                    }
                }
                Err(End::Abort(m)) => {
                    let s = self.stack(&st);
                    if self.st.aborts.len() < 5 {
                        self.st.aborts.push(format!("{m} inputs={:?} at {:?}", st.model, s));
                    } else {
                        self.st.aborts.push(m);
                    }
                }
            }
            if std::time::Instant::now() > self.cfg.deadline {
                self.st.unfinished += self.pending.len() as u64;
                self.pending.clear();
                self.shared(3).store(1, SeqCst);
                break;
            }
        }
    }
    fn rss_mb(&self) -> u64 {
        let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
        s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) / 256
    }
    fn finish_viol(&mut self, st: &State, k: String, m: String) {
        self.report_viol(st, k, m);
    }
    fn sample(&mut self, st: &State) {
        // reservoir of (inputs, hash of the trace): validated natively
        let n = self.st.paths;
        let cap = self.cfg.samples;
        let mut h: u64 = 0xcbf29ce484222325;
        let idx = if self.st.samples.len() < cap {
            self.st.samples.len()
        } else {
            let x = n.wrapping_mul(0x9E3779B97F4A7C15) >> 20;
            let k = (x % n.max(1)) as usize;
            if k >= cap {
                return;
            }
            k
        };
        for v in &st.trace {
            let x = match v {
                C(k) => *k,
                S(e) => self.ar.eval(*e, &st.model),
            };
            h = (h ^ x as u64).wrapping_mul(0x100000001b3).rotate_left(23);
        }
        let s = (st.model.clone(), h);
        if idx < self.st.samples.len() {
            self.st.samples[idx] = s;
        } else {
            self.st.samples.push(s);
        }
    }

    #[inline(always)]
    fn get(st: &State, base: u32, o: &O) -> Val {
        match o {
            O::R(r) => st.regs[(base + r) as usize],
            O::K(k) => C(*k),
        }
    }
    fn follow(&mut self, st: &mut State, base: u32, e: &Edge) -> u32 {
        let n = e.copies.len();
        if n == 1 {
            let v = Self::get(st, base, &e.copies[0].1);
            st.regs[(base + e.copies[0].0) as usize] = v;
        } else if n > 1 {
            self.tmp.clear();
            for (_, v) in &e.copies {
                self.tmp.push(Self::get(st, base, v));
            }
            for (i, (d, _)) in e.copies.iter().enumerate() {
                st.regs[(base + d) as usize] = self.tmp[i];
            }
        }
        e.target
    }

    fn run(&mut self, st: &mut State) -> R<()> {
        let mut count: u64 = 0;
        'frame: loop {
            let fr = st.frames.last().unwrap();
            let f = fr.f;
            let base = fr.base;
            let mut pc = fr.pc as usize;
            loop {
                count += 1;
                if count & 0x3fff == 0 {
                    self.st.instrs += 0x4000;
                    st.steps += 0x4000;
                    if st.steps > self.cfg.max_steps {
                        viol!("hang", "instruction limit {} exceeded", self.cfg.max_steps);
                    }
                    if self.shared(1).load(std::sync::atomic::Ordering::Relaxed) != 0 {
                        return Err(End::Killed);
                    }
                    if std::time::Instant::now() > self.cfg.deadline {
                        self.st.unfinished += 1;
                        return Err(End::Killed);
                    }
                    st.frames.last_mut().unwrap().pc = pc as u32;
                    let was = self.is_child;
                    let w0 = self.wid;
                    self.maybe_share();
                    if self.wid != w0 {
                        let _ = was;
                        // the child leaves the current state to its parent
                        return Err(End::Killed);
                    }
                }
                macro_rules! g {
                    ($o:expr) => {
                        Self::get(st, base, $o)
                    };
                }
                macro_rules! set {
                    ($d:expr, $v:expr) => {{
                        let v = $v;
                        st.regs[(base + $d) as usize] = v;
                    }};
                }
                macro_rules! sync {
                    () => {
                        st.frames.last_mut().unwrap().pc = pc as u32
                    };
                }
                match &f.code[pc] {
                    I::Bin(op, w, d, a, b) => {
                        let (x, y) = (g!(a), g!(b));
                        if let (C(x), C(y)) = (x, y) {
                            if let Some(v) = bin(*op, *w, x, y) {
                                set!(*d, C(v));
                                pc += 1;
                                continue;
                            }
                        }
                        sync!();
                        let v = self.binop(st, *op, *w, x, y)?;
                        set!(*d, v);
                        pc += 1;
                    }
                    I::Icmp(p, w, d, a, b) => {
                        let (x, y) = (self.norm(st, g!(a)), self.norm(st, g!(b)));
                        let v = self.icmp(*p, *w, x, y);
                        set!(*d, v);
                        pc += 1;
                    }
                    I::Copy(d, a) => {
                        set!(*d, g!(a));
                        pc += 1;
                    }
                    I::Select(w, d, c, a, b) => {
                        let v = self.select(*w, g!(c), g!(a), g!(b));
                        set!(*d, v);
                        pc += 1;
                    }
                    I::Cast(c, w1, w2, d, a) => {
                        let x = self.norm(st, g!(a));
                        let v = match (c, x) {
                            (Cast::Copy, x) => x,
                            (Cast::Trunc, C(k)) => C(k & mask(*w2)),
                            (Cast::ZExt, C(k)) => C(k),
                            (Cast::SExt, C(k)) => C(sext(k, *w1) as u128 & mask(*w2)),
                            (Cast::Trunc, S(e)) => {
                                let r = self.ar.extract(e, 0, *w2);
                                self.from_e(r)
                            }
                            (Cast::ZExt, S(e)) => {
                                let r = self.ar.zext(e, *w2);
                                self.from_e(r)
                            }
                            (Cast::SExt, S(e)) => {
                                let r = self.ar.sext(e, *w2);
                                self.from_e(r)
                            }
                            (c, x) => {
                                sync!();
                                let k = self.conc(st, x)?;
                                C(fcast(*c, *w1, *w2, k))
                            }
                        };
                        set!(*d, v);
                        pc += 1;
                    }
                    I::Gep(d, b, off, idx) => {
                        let bv = g!(b);
                        let mut acc = match bv {
                            C(k) => Ok((k as u64).wrapping_add(*off as u64)),
                            S(_) => Err(()),
                        };
                        for ix in idx {
                            acc = match (acc, g!(&ix.v)) {
                                (Ok(a), C(k)) => Ok(a.wrapping_add((sext(k, ix.w) as i64).wrapping_mul(ix.scale) as u64)),
                                _ => Err(()),
                            };
                        }
                        let v = match acc {
                            Ok(a) => C(a as u128),
                            Err(()) => {
                                let mut e = self.to_e(bv, 64);
                                let o = self.ar.k(64, *off as u128);
                                e = self.ar.bin(Op::Add, e, o);
                                for ix in idx {
                                    let v = g!(&ix.v);
                                    let v = self.to_e(v, ix.w);
                                    let v = self.ar.sext(v, 64);
                                    let s = self.ar.k(64, ix.scale as u128);
                                    let p = self.ar.bin(Op::Mul, v, s);
                                    e = self.ar.bin(Op::Add, e, p);
                                }
                                self.from_e(e)
                            }
                        };
                        set!(*d, v);
                        pc += 1;
                    }
                    I::Load(d, a, w) => {
                        sync!();
                        let a = self.norm(st, g!(a));
                        let v = match a {
                            C(k) => self.load_at(st, k as u64, *w)?,
                            _ => self.load(st, a, *w)?,
                        };
                        set!(*d, v);
                        pc += 1;
                    }
                    I::Store(v, a, w) => {
                        sync!();
                        let (v, a) = (g!(v), g!(a));
                        let k = self.conc(st, a)?;
                        self.store_at(st, k as u64, v, *w)?;
                        pc += 1;
                    }
                    I::Alloca(d, size, n) => {
                        sync!();
                        let n = self.conc(st, g!(n))?;
                        let a = self.new_obj(st, size * n as u64, Kind::Stack)?;
                        st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                        set!(*d, C(a as u128));
                        pc += 1;
                    }
                    I::Jmp(e) => pc = self.follow(st, base, e) as usize,
                    I::Br(c, a, b) => {
                        let t = match g!(c) {
                            C(k) => k == 1,
                            S(e) => {
                                sync!();
                                self.decide(st, e)?
                            }
                        };
                        pc = self.follow(st, base, if t { a } else { b }) as usize;
                    }
                    I::Switch(w, v, de, cases) => {
                        let e = match g!(v) {
                            C(k) => {
                                let e = cases.iter().find(|c| c.0 == k).map(|c| &c.1).unwrap_or(de);
                                pc = self.follow(st, base, e) as usize;
                                continue;
                            }
                            S(e) => e,
                        };
                        sync!();
                        let k = self.eval(st, e);
                        let hit = cases.iter().find(|c| c.0 == k);
                        let cond = match hit {
                            Some(c) => {
                                // all cases with the same target share the edge
                                let mut acc = self.ar.k(1, 0);
                                for x in cases {
                                    if x.1.target == c.1.target && x.1.copies.is_empty() && c.1.copies.is_empty() || x.0 == c.0 {
                                        let kk = self.ar.k(*w, x.0);
                                        let q = self.ar.bin(Op::Eq, e, kk);
                                        acc = self.ar.bin(Op::Or, acc, q);
                                    }
                                }
                                acc
                            }
                            None => {
                                let mut acc = self.ar.k(1, 1);
                                for x in cases {
                                    let kk = self.ar.k(*w, x.0);
                                    let q = self.ar.bin(Op::Eq, e, kk);
                                    let q = self.ar.not(q);
                                    acc = self.ar.bin(Op::And, acc, q);
                                }
                                acc
                            }
                        };
                        let t = self.decide(st, cond)?;
                        debug_assert!(t);
                        let ed = hit.map(|c| &c.1).unwrap_or(de);
                        pc = self.follow(st, base, ed) as usize;
                    }
                    I::Ret(v) => {
                        self.tmp.clear();
                        for x in v {
                            self.tmp.push(g!(x));
                        }
                        let fr = st.frames.pop().unwrap();
                        for a in fr.allocas {
                            st.objs[(a - self.hbase) as usize] = None;
                            st.free_stack.push(a);
                        }
                        if st.frames.is_empty() {
                            self.st.instrs += count & 0x3fff;
                            return Err(End::Done);
                        }
                        st.regs.truncate(base as usize);
                        let cb = st.frames.last().unwrap().base;
                        if fr.ret != u32::MAX {
                            for i in 0..v.len() {
                                st.regs[(cb + fr.ret) as usize + i] = self.tmp[i];
                            }
                        }
                        self.after_call(st);
                        continue 'frame;
                    }
                    I::Call { callee, args, dst, .. } => {
                        sync!();
                        let fid = match callee {
                            Callee::Direct(id) => *id,
                            Callee::Ind(o) => {
                                let a = self.conc(st, g!(o))? as u64;
                                let id = (a >> 32) as u32;
                                if id < FBASE || id >= self.gbase || a & 0xffff_ffff != 0 {
                                    viol!("memory", "indirect call to {:#x}", a);
                                }
                                id - FBASE
                            }
                            Callee::Intr(n) => {
                                let av: Vec<Val> = args.iter().map(|a| g!(a)).collect();
                                self.intrinsic(st, n, &f.code[pc], &av, base)?;
                                self.after_call(st);
                                pc = st.frames.last().unwrap().pc as usize;
                                continue;
                            }
                        };
                        let fid = if fid == self.args.0 { self.args.1 } else { fid };
                        if fid == u32::MAX {
                            abort!("no function that takes the arguments of the program");
                        }
                        let x = self.ext[fid as usize];
                        if x != Ext::None {
                            let av: Vec<Val> = args.iter().map(|a| g!(a)).collect();
                            let r = self.external(st, x, fid, &av)?;
                            if *dst != u32::MAX {
                                if let Some(r) = r {
                                    set!(*dst, r);
                                }
                            }
                            self.after_call(st);
                            pc = st.frames.last().unwrap().pc as usize;
                            continue;
                        }
                        let nf = self.func(fid);
                        if st.frames.len() > 20000 {
                            viol!("hang", "stack overflow");
                        }
                        let nb = st.regs.len() as u32;
                        st.regs.resize(nb as usize + nf.nregs as usize, C(0));
                        if args.len() != nf.params.len() {
                            abort!("arity of {}", nf.name);
                        }
                        for (i, a) in args.iter().enumerate() {
                            let v = g!(a);
                            st.regs[(nb + nf.params[i]) as usize] = v;
                        }
                        st.frames.push(Frame { f: nf, pc: 0, base: nb, allocas: vec![], ret: *dst, inv: false });
                        continue 'frame;
                    }
                    I::Unreachable => {
                        sync!();
                        viol!("ub", "unreachable code reached");
                    }
                    I::Nop => pc += 1,
                    I::Pack(w, d, v) => {
                        let vals: Vec<Val> = v.iter().map(|x| g!(x)).collect();
                        if vals.iter().all(|x| matches!(x, C(_))) {
                            let mut r = 0u128;
                            for (i, x) in vals.iter().enumerate() {
                                if let C(k) = x {
                                    r |= k << (*w as usize * i);
                                }
                            }
                            set!(*d, C(r));
                        } else {
                            let mut r = self.to_e(vals[0], *w);
                            for x in &vals[1..] {
                                let h = self.to_e(*x, *w);
                                r = self.ar.concat(h, r);
                            }
                            set!(*d, self.from_e(r));
                        }
                        pc += 1;
                    }
                    I::Unpack(w, d, n, a) => {
                        let x = g!(a);
                        for i in 0..*n {
                            let v = match x {
                                C(k) => C((k >> (*w as u32 * i)) & mask(*w)),
                                S(e) => {
                                    let r = self.ar.extract(e, *w * i as u16, *w);
                                    self.from_e(r)
                                }
                            };
                            set!(*d + i, v);
                        }
                        pc += 1;
                    }
                    I::FBin(op, w, d, a, b) => {
                        sync!();
                        let x = self.conc(st, g!(a))?;
                        let y = self.conc(st, g!(b))?;
                        let r = if *w == 64 {
                            let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                            (match op {
                                FOp::Add => x + y,
                                FOp::Sub => x - y,
                                FOp::Mul => x * y,
                                FOp::Div => x / y,
                                FOp::Rem => x % y,
                            })
                            .to_bits() as u128
                        } else {
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                FOp::Add => x + y,
                                FOp::Sub => x - y,
                                FOp::Mul => x * y,
                                FOp::Div => x / y,
                                FOp::Rem => x % y,
                            })
                            .to_bits() as u128
                        };
                        set!(*d, C(r));
                        pc += 1;
                    }
                    I::FNeg(w, d, a) => {
                        sync!();
                        let x = self.conc(st, g!(a))?;
                        set!(*d, C(x ^ (1u128 << (*w - 1))));
                        pc += 1;
                    }
                    I::FCmp(p, w, d, a, b) => {
                        sync!();
                        let (x, y) = (g!(a), g!(b));
                        let (x, y) = (self.norm(st, x), self.norm(st, y));
                        let (C(x), C(y)) = (x, y) else {
                            let r = self.fcmp(st, p, *w, x, y)?;
                            set!(*d, r);
                            pc += 1;
                            continue;
                        };
                        let (x, y) = if *w == 64 {
                            (f64::from_bits(x as u64), f64::from_bits(y as u64))
                        } else {
                            (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                        };
                        let uno = x.is_nan() || y.is_nan();
                        let r = match *p {
                            "false" => false,
                            "true" => true,
                            "ord" => !uno,
                            "uno" => uno,
                            p => {
                                let c = match &p[1..] {
                                    "eq" => x == y,
                                    "gt" => x > y,
                                    "ge" => x >= y,
                                    "lt" => x < y,
                                    "le" => x <= y,
                                    "ne" => x != y && !uno,
                                    _ => unreachable!(),
                                };
                                if p.starts_with('u') {
                                    c || uno
                                } else {
                                    c
                                }
                            }
                        };
                        set!(*d, C(r as u128));
                        pc += 1;
                    }
                    I::Rmw(op, w, d, a, v) => {
                        sync!();
                        let k = self.conc(st, g!(a))? as u64;
                        let old = self.load_at(st, k, *w)?;
                        let x = g!(v);
                        let n = match op.as_str() {
                            "xchg" => x,
                            "add" => self.binop(st, Op::Add, *w, old, x)?,
                            "sub" => self.binop(st, Op::Sub, *w, old, x)?,
                            "and" => self.binop(st, Op::And, *w, old, x)?,
                            "or" => self.binop(st, Op::Or, *w, old, x)?,
                            "xor" => self.binop(st, Op::Xor, *w, old, x)?,
                            "umax" => {
                                let c = self.icmp(Pred::Ugt, *w, old, x);
                                self.select(*w, c, old, x)
                            }
                            _ => abort!("atomicrmw {op}"),
                        };
                        self.store_at(st, k, n, *w)?;
                        set!(*d, old);
                        pc += 1;
                    }
                    I::CmpXchg(w, d, a, c, n) => {
                        sync!();
                        let k = self.conc(st, g!(a))? as u64;
                        let old = self.load_at(st, k, *w)?;
                        let o = self.conc(st, old)?;
                        let c = self.conc(st, g!(c))?;
                        if o == c {
                            self.store_at(st, k, g!(n), *w)?;
                        }
                        set!(*d, old);
                        set!(*d + 1, C((o == c) as u128));
                        pc += 1;
                    }
                }
            }
        }
    }
    /// advance past the call instruction of the top frame
    fn after_call(&mut self, st: &mut State) {
        let fr = st.frames.last().unwrap();
        let f = fr.f;
        let base = fr.base;
        let pc = fr.pc as usize;
        let n = match &f.code[pc] {
            I::Call { next: Some(e), .. } => self.follow(st, base, e),
            _ => pc as u32 + 1,
        };
        st.frames.last_mut().unwrap().pc = n;
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, ins: &I, a: &[Val], base: u32) -> R<()> {
        let (dst, retw, argw) = match ins {
            I::Call { dst, retw, argw, .. } => (*dst, retw, argw),
            _ => unreachable!(),
        };
        let name = &n[if n.starts_with("llvm.") { 5 } else { 0 }..];
        let stem_end = name.rfind(".i").or(name.rfind(".f")).or(name.rfind(".p")).unwrap_or(name.len());
        let stem = &name[..stem_end];
        let w = argw.first().copied().unwrap_or(0);
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                if dst != u32::MAX {
                    st.regs[(base + dst) as usize] = v;
                }
                return Ok(());
            }};
        }
        if name.starts_with("memcpy") || name.starts_with("memmove") {
            let d = self.conc(st, a[0])? as u64;
            let s = self.conc(st, a[1])? as u64;
            let l = self.conc(st, a[2])? as u64;
            return self.memcpy(st, d, s, l);
        }
        if name.starts_with("memset") {
            let d = self.conc(st, a[0])? as u64;
            let l = self.conc(st, a[2])? as u64;
            return self.memset(st, d, a[1], l);
        }
        if name.starts_with("threadlocal.address") {
            ret!(a[0]);
        }
        if name.starts_with("is.constant") {
            ret!(C(0));
        }
        if name.starts_with("expect") {
            ret!(a[0]);
        }
        if name.starts_with("x86.sse2.pause") || name == "donothing" {
            return Ok(());
        }
        if name == "trap" {
            viol!("panic", "llvm.trap");
        }
        let lanes = retw.len();
        let pick = |op: Pred| (op, ());
        match stem {
            "ucmp.i8" | "scmp.i8" => {
                let lt = self.icmp(if stem == "ucmp.i8" { Pred::Ult } else { Pred::Slt }, w, a[0], a[1]);
                let eq = self.icmp(Pred::Eq, w, a[0], a[1]);
                let r = self.select(8, eq, C(0), C(1));
                ret!(self.select(8, lt, C(0xff), r))
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = pick(match stem {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                })
                .0;
                for i in 0..lanes {
                    let c = self.icmp(p, w, a[i], a[lanes + i]);
                    let v = self.select(w, c, a[i], a[lanes + i]);
                    st.regs[(base + dst) as usize + i] = v;
                }
                return Ok(());
            }
            "abs" => {
                let c = self.icmp(Pred::Slt, w, a[0], C(0));
                let neg = self.binop(st, Op::Sub, w, C(0), a[0])?;
                ret!(self.select(w, c, neg, a[0]));
            }
            "uadd.with.overflow" | "sadd.with.overflow" | "usub.with.overflow" | "ssub.with.overflow" | "umul.with.overflow"
            | "smul.with.overflow" => {
                let op = match &stem[1..4] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let signed = stem.starts_with('s');
                let r = self.binop(st, op, w, a[0], a[1])?;
                let o = if let (C(x), C(y)) = (a[0], a[1]) {
                    let ov = if signed {
                        let (x, y) = (sext(x, w), sext(y, w));
                        let t = match op {
                            Op::Add => x.checked_add(y),
                            Op::Sub => x.checked_sub(y),
                            _ => x.checked_mul(y),
                        };
                        t.is_none_or(|t| sext(t as u128 & mask(w), w) != t)
                    } else {
                        let t = match op {
                            Op::Add => x.checked_add(y),
                            Op::Sub => x.checked_sub(y),
                            _ => x.checked_mul(y),
                        };
                        t.is_none_or(|t| t > mask(w))
                    };
                    C(ov as u128)
                } else {
                    // widen
                    let ww = if op == Op::Mul { w * 2 } else { w + 1 };
                    if ww > 128 {
                        let x = self.conc(st, a[0])?;
                        let y = self.conc(st, a[1])?;
                        return self.intrinsic(st, n, ins, &[C(x), C(y)], base);
                    }
                    let (x, y) = (self.to_e(a[0], w), self.to_e(a[1], w));
                    let (x, y) = if signed { (self.ar.sext(x, ww), self.ar.sext(y, ww)) } else { (self.ar.zext(x, ww), self.ar.zext(y, ww)) };
                    let t = self.ar.bin(op, x, y);
                    let rr = self.to_e(r, w);
                    let back = if signed { self.ar.sext(rr, ww) } else { self.ar.zext(rr, ww) };
                    let eq = self.ar.bin(Op::Eq, t, back);
                    let ne = self.ar.not(eq);
                    self.from_e(ne)
                };
                st.regs[(base + dst) as usize] = r;
                st.regs[(base + dst) as usize + 1] = o;
                return Ok(());
            }
            "uadd.sat" => {
                let r = self.binop(st, Op::Add, w, a[0], a[1])?;
                let c = self.icmp(Pred::Ult, w, r, a[0]);
                ret!(self.select(w, c, C(mask(w)), r));
            }
            "usub.sat" => {
                let r = self.binop(st, Op::Sub, w, a[0], a[1])?;
                let c = self.icmp(Pred::Ult, w, a[0], a[1]);
                ret!(self.select(w, c, C(0), r));
            }
            "ucmp" | "scmp" => {
                let rw = retw[0];
                let (p, q) = if stem == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.icmp(p, w, a[0], a[1]);
                let gt = self.icmp(q, w, a[0], a[1]);
                let g = self.select(rw, gt, C(1), C(0));
                ret!(self.select(rw, lt, C(mask(rw)), g));
            }
            "bswap" => {
                if let C(k) = a[0] {
                    let mut r = 0u128;
                    for i in 0..(w / 8) {
                        r |= ((k >> (8 * i)) & 0xff) << (w - 8 * (i + 1));
                    }
                    ret!(C(r));
                }
                let e = self.to_e(a[0], w);
                let mut r = self.ar.extract(e, 0, 8);
                for i in 1..(w / 8) {
                    let b = self.ar.extract(e, 8 * i, 8);
                    r = self.ar.concat(r, b);
                }
                ret!(self.from_e(r));
            }
            "fshl" | "fshr" => {
                let s = self.conc(st, a[2])? % w as u128;
                let (mut x, mut y) = (a[0], a[1]);
                if w == 64 {
                    // 64-bit rotations are hash computations: fix the hashed key here
                    x = C(self.conc(st, x)?);
                    y = C(self.conc(st, y)?);
                }
                // fshl: high part of (x:y) << s ; fshr: low part of (x:y) >> s
                let (l, r) = if stem == "fshl" { (s, w as u128 - s) } else { (w as u128 - s, s) };
                if s == 0 {
                    ret!(if stem == "fshl" { x } else { y });
                }
                let p = self.binop(st, Op::Shl, w, x, C(l))?;
                let q = self.binop(st, Op::LShr, w, y, C(r))?;
                ret!(self.binop(st, Op::Or, w, p, q)?);
            }
            "ctpop" => {
                if let S(e) = a[0] {
                    let mut acc = self.ar.k(w, 0);
                    for i in 0..w {
                        let b = self.ar.extract(e, i, 1);
                        let b = self.ar.zext(b, w);
                        acc = self.ar.bin(Op::Add, acc, b);
                    }
                    ret!(self.from_e(acc));
                }
            }
            _ => {}
        }
        // the rest is evaluated on concrete values
        let mut k = vec![];
        for x in a {
            k.push(self.conc(st, *x)?);
        }
        let f = |i: usize| f64::from_bits(k[i] as u64);
        let fr = |x: f64| C(x.to_bits() as u128);
        let r = match stem {
            "ctlz" => {
                let l = (k[0] << (128 - w as u32)).leading_zeros().min(w as u32);
                C(if k[0] == 0 { w as u128 } else { l as u128 })
            }
            "cttz" => C(if k[0] == 0 { w as u128 } else { k[0].trailing_zeros() as u128 }),
            "ctpop" => C(k[0].count_ones() as u128),
            "bitreverse" => C(k[0].reverse_bits() >> (128 - w as u32)),
            "fabs" => {
                if w == 64 {
                    fr(f(0).abs())
                } else {
                    C(k[0] & !(1 << 31))
                }
            }
            "sqrt" => fr(f(0).sqrt()),
            "log" => fr(f(0).ln()),
            "log2" => fr(f(0).log2()),
            "log10" => fr(f(0).log10()),
            "exp" => fr(f(0).exp()),
            "exp2" => fr(f(0).exp2()),
            "pow" => fr(f(0).powf(f(1))),
            "powi.f64" | "powi" => fr(f(0).powi(k[1] as u32 as i32)),
            "floor" => fr(f(0).floor()),
            "ceil" => fr(f(0).ceil()),
            "round" => fr(f(0).round()),
            "rint" | "nearbyint" | "roundeven" => fr(f(0).round_ties_even()),
            "trunc" => fr(f(0).trunc()),
            "fma" | "fmuladd" => fr(f(0).mul_add(f(1), f(2))),
            "copysign" => fr(f(0).copysign(f(1))),
            "minnum" | "minimumnum" => fr(f(0).min(f(1))),
            "maxnum" | "maximumnum" => fr(f(0).max(f(1))),
            "ssub.sat" | "sadd.sat" => {
                let (x, y) = (sext(k[0], w), sext(k[1], w));
                let t = if stem == "ssub.sat" { x - y } else { x + y };
                let hi = (mask(w) >> 1) as i128;
                C(t.clamp(-hi - 1, hi) as u128 & mask(w))
            }
            _ if name.starts_with("fptoui.sat") => {
                let rw = retw[0];
                let x = if w == 64 { f(0) } else { f32::from_bits(k[0] as u32) as f64 };
                C((x as u128).min(mask(rw)))
            }
            _ if name.starts_with("fptosi.sat") => {
                let rw = retw[0];
                let x = if w == 64 { f(0) } else { f32::from_bits(k[0] as u32) as f64 };
                let hi = (mask(rw) >> 1) as i128;
                C((x as i128).clamp(-hi - 1, hi) as u128 & mask(rw))
            }
            _ => abort!("intrinsic {n}"),
        };
        ret!(r)
    }

    fn external(&mut self, st: &mut State, x: Ext, fid: u32, a: &[Val]) -> R<Option<Val>> {
        Ok(match x {
            Ext::SymAny => {
                let w = self.conc(st, a[0])? as u16;
                let id = st.model.len() as u32;
                if id >= 127 {
                    abort!("too many symbolic inputs");
                }
                st.model.push(0);
                st.symw.push(w);
                let e = self.ar.sym(w, id);
                let e = self.ar.zext(e, 64);
                Some(S(e))
            }
            Ext::SymAssume => {
                let e = match a[0] {
                    C(1) => return Ok(None),
                    C(_) => return Err(End::Killed),
                    S(e) => e,
                };
                let e = self.ar.subst(e, st.det, &st.model);
                if self.eval(st, e) != 1 {
                    match self.query(st, e)? {
                        None => return Err(End::Killed),
                        Some(m) => st.model = m,
                    }
                }
                if !self.is_det(st, e) {
                    st.pc.push(e);
                    self.update_det(st, e)?;
                }
                None
            }
            Ext::SymCheck => {
                st.checks += 1;
                let id = self.conc(st, a[1])?;
                *st.reach.entry(1_000_000 + id as u32).or_default() += 1;
                match a[0] {
                    C(1) => {}
                    C(_) => viol!("check", "assertion {} fails", id),
                    S(e) => {
                        self.st.checks_sym += 1;
                        let ne = self.ar.not(e);
                        if let Some(m) = self.query(st, ne)? {
                            st.model = m;
                            viol!("check", "assertion {} fails", id);
                        }
                    }
                }
                None
            }
            Ext::SymReach => {
                let id = self.conc(st, a[0])?;
                *st.reach.entry(id as u32).or_default() += 1;
                None
            }
            Ext::SymTrace => {
                st.trace.push(a[0]);
                None
            }
            Ext::SymConc => Some(C(self.conc(st, a[0])?)),
            Ext::SymKill => return Err(End::Killed),
            Ext::SymPanicOk => {
                st.panic_ok = self.conc(st, a[0])? != 0;
                None
            }
            Ext::SymFileByte => {
                let b = match a[0] {
                    C(k) => C(k & 0xff),
                    S(e) => {
                        let e = self.ar.extract(e, 0, 8);
                        self.from_e(e)
                    }
                };
                let k = self.sel(st, true);
                Rc::make_mut(&mut st.files[k].1).push(b);
                None
            }
            Ext::SymFileLen => {
                let n = self.conc(st, a[0])? as usize;
                let k = self.sel(st, true);
                Rc::make_mut(&mut st.files[k].1).truncate(n);
                None
            }
            Ext::SymOutLen => {
                let k = self.sel(st, false);
                Some(C(st.files[k].1.len() as u128))
            }
            Ext::SymOutByte => {
                let i = self.conc(st, a[0])? as usize;
                let k = self.sel(st, false);
                let v = st.files[k].1.get(i).copied().unwrap_or(C(0));
                Some(match v {
                    C(k) => C(k),
                    S(e) => {
                        let e = self.ar.zext(e, 64);
                        self.from_e(e)
                    }
                })
            }
            Ext::SymOutClear => {
                let k = self.sel(st, false);
                st.files[k].1 = Rc::new(vec![]);
                None
            }
            Ext::SymFileSel => {
                st.fsel = self.conc(st, a[0])? as usize;
                None
            }
            Ext::SymCapture => {
                st.capture = self.conc(st, a[0])? != 0;
                None
            }
            Ext::SymClock => {
                st.clock = Some((a[0], a[1]));
                st.clock_next = None;
                None
            }
            Ext::SymClockAt => {
                let n = self.conc(st, a[0])? as u64;
                st.clock_next = Some((n, a[1], a[2]));
                None
            }
            Ext::SymDone => return Err(End::Done),
            Ext::Nop => None,
            Ext::Alloc | Ext::AllocZ | Ext::Malloc => {
                let n = self.conc(st, a[0])? as u64;
                Some(C(self.new_heap(st, n)? as u128))
            }
            Ext::Calloc => {
                let n = self.conc(st, a[0])? as u64;
                let m = self.conc(st, a[1])? as u64;
                Some(C(self.new_heap(st, n * m)? as u128))
            }
            Ext::PosixMemalign => {
                let p = self.conc(st, a[0])? as u64;
                let n = self.conc(st, a[2])? as u64;
                let o = self.new_heap(st, n)?;
                self.store_at(st, p, C(o as u128), 64)?;
                Some(C(0))
            }
            Ext::Dealloc | Ext::Free => {
                let p = self.conc(st, a[0])? as u64;
                if p != 0 {
                    self.free(st, p)?;
                }
                None
            }
            Ext::Realloc | Ext::CRealloc => {
                let p = self.conc(st, a[0])? as u64;
                let n = self.conc(st, a[if x == Ext::Realloc { 3 } else { 1 }])? as u64;
                let q = self.new_heap(st, n)?;
                if p != 0 {
                    let ol = match self.obj(st, (p >> 32) as u32) {
                        Some(o) if o.kind == Kind::Heap => o.data.len() as u64,
                        _ => viol!("memory", "realloc of invalid pointer"),
                    };
                    self.memcpy(st, q, p, ol.min(n))?;
                    self.free(st, p)?;
                }
                Some(C(q as u128))
            }
            Ext::Bcmp => {
                let p = self.conc(st, a[0])? as u64;
                let q = self.conc(st, a[1])? as u64;
                let n = self.conc(st, a[2])? as u64;
                let bcmp = self.m.fnames[fid as usize] == "bcmp";
                let mut acc = C(1);
                for i in 0..n {
                    let x = self.load_at(st, p + i, 8)?;
                    let y = self.load_at(st, q + i, 8)?;
                    if bcmp {
                        let c = self.icmp(Pred::Eq, 8, x, y);
                        acc = self.binop(st, Op::And, 1, acc, c)?;
                        if acc == C(0) {
                            break;
                        }
                    } else {
                        let x = self.conc(st, x)?;
                        let y = self.conc(st, y)?;
                        if x != y {
                            return Ok(Some(C(if x < y { 0xffff_ffff } else { 1 })));
                        }
                    }
                }
                let r = self.select(32, acc, C(0), C(1));
                Some(r)
            }
            Ext::Memcpy => {
                let d = self.conc(st, a[0])? as u64;
                let s = self.conc(st, a[1])? as u64;
                let l = self.conc(st, a[2])? as u64;
                self.memcpy(st, d, s, l)?;
                Some(C(d as u128))
            }
            Ext::Memset => {
                let d = self.conc(st, a[0])? as u64;
                let l = self.conc(st, a[2])? as u64;
                self.memset(st, d, a[1], l)?;
                Some(C(d as u128))
            }
            Ext::Strlen => {
                let p = self.conc(st, a[0])? as u64;
                let mut i = 0;
                loop {
                    let v = self.load_at(st, p + i, 8)?;
                    let end = self.icmp(Pred::Eq, 8, v, C(0));
                    if self.conc(st, end)? != 0 {
                        break;
                    }
                    i += 1;
                }
                Some(C(i as u128))
            }
            Ext::PanicFmt => {
                let m = self.panic_msg(st, a);
                viol!("panic", "{}", m);
            }
            Ext::Panic => viol!("panic", "{}", self.m.fnames[fid as usize]),
            Ext::Abort => viol!("panic", "abort()"),
            Ext::ClockGettime => {
                let p = self.conc(st, a[1])? as u64;
                match st.clock_next {
                    Some((0, s, n)) => {
                        st.clock = Some((s, n));
                        st.clock_next = None;
                    }
                    Some((k, s, n)) => st.clock_next = Some((k - 1, s, n)),
                    None => (),
                }
                let (s, n) = st.clock.unwrap_or((C(1000), C(0)));
                self.store_at(st, p, s, 64)?;
                self.store_at(st, p + 8, n, 64)?;
                Some(C(0))
            }
            Ext::Write => {
                let fd = self.conc(st, a[0])?;
                let p = self.conc(st, a[1])? as u64;
                let n = self.conc(st, a[2])? as u64;
                self.write_fd(st, fd as usize, p, n)?;
                Some(C(n as u128))
            }
            Ext::Writev => {
                let fd = self.conc(st, a[0])? as usize;
                let p = self.conc(st, a[1])? as u64;
                let n = self.conc(st, a[2])? as u64;
                let mut t = 0u64;
                for i in 0..n {
                    let l = self.u64_at(st, p + i * 16 + 8);
                    let b = self.u64_at(st, p + i * 16);
                    self.write_fd(st, fd, b, l)?;
                    t += l;
                }
                Some(C(t as u128))
            }
            Ext::Errno => {
                self.errno(st)?;
                Some(C(st.errno as u128))
            }
            Ext::Getrandom => {
                let p = self.conc(st, a[0])? as u64;
                let n = self.conc(st, a[1])? as u64;
                self.memset(st, p, C(0x5a), n)?;
                Some(C(n as u128))
            }
            Ext::Syscall => {
                let nr = self.conc(st, a[0])?;
                if nr == 318 {
                    let p = self.conc(st, a[1])? as u64;
                    let n = self.conc(st, a[2])? as u64;
                    self.memset(st, p, C(0x5a), n)?;
                    Some(C(n as u128))
                } else {
                    abort!("syscall {nr}")
                }
            }
            Ext::Open => {
                let p = self.conc(st, a[0])? as u64;
                let flags = self.conc(st, a[1])?;
                let name = self.cstr(st, p)?;
                let k = match st.files.iter().position(|f| f.0 == name) {
                    Some(_) if flags & 0o300 == 0o300 => return self.fail(st, 17),
                    Some(k) => k,
                    None if flags & 0o100 == 0 => return self.fail(st, 2),
                    None => {
                        st.files.push((name, Rc::new(vec![])));
                        st.files.len() - 1
                    }
                };
                if flags & 0o1000 != 0 {
                    st.files[k].1 = Rc::new(vec![]);
                }
                let pos = if flags & 0o2000 != 0 { usize::MAX } else { 0 };
                st.fds.push((k, pos));
                Some(C(9 + st.fds.len() as u128))
            }
            Ext::Close => Some(C(0)),
            Ext::Read => {
                let fd = self.conc(st, a[0])? as usize;
                let p = self.conc(st, a[1])? as u64;
                let n = self.conc(st, a[2])? as usize;
                if fd == 0 {
                    return Ok(Some(C(0))); // nothing on stdin
                }
                let Some((f, pos)) = fd.checked_sub(10).and_then(|k| st.fds.get(k).copied()) else { abort!("read from fd {fd}") };
                let d = st.files[f].1.clone();
                let k = n.min(d.len().saturating_sub(pos));
                for i in 0..k {
                    self.store_at(st, p + i as u64, d[pos + i], 8)?;
                }
                st.fds[fd - 10].1 += k;
                Some(C(k as u128))
            }
            Ext::Lseek => {
                let fd = self.conc(st, a[0])? as usize;
                let off = self.conc(st, a[1])? as u64 as i64;
                let whence = self.conc(st, a[2])?;
                let Some((f, pos)) = fd.checked_sub(10).and_then(|k| st.fds.get(k).copied()) else { abort!("lseek in fd {fd}") };
                let base = match whence {
                    0 => 0,
                    1 => pos,
                    _ => st.files[f].1.len(),
                };
                let to = (base as i64 + off) as usize;
                st.fds[fd - 10].1 = to;
                Some(C(to as u128))
            }
            Ext::Statx => {
                let dir = self.conc(st, a[0])?;
                let path = self.conc(st, a[1])? as u64;
                let p = self.conc(st, a[4])? as u64;
                if path == 0 {
                    return self.fail(st, 14); // std probes for the system call
                }
                let name = self.cstr(st, path)?;
                let Some(len) = self.file_size(st, if name.is_empty() { Err(dir as u32 as usize) } else { Ok(name) }) else { return self.fail(st, 2) };
                // struct statx: mode at 28 (u16), size at 40, mask at 0
                self.store_at(st, p, C(0x7ff), 32)?;
                self.store_at(st, p + 28, C(0o100644), 16)?;
                self.store_at(st, p + 40, C(len as u128), 64)?;
                Some(C(0))
            }
            Ext::Fstat | Ext::Stat => {
                let k = if matches!(self.ext[fid as usize], Ext::Fstat) {
                    Err(self.conc(st, a[0])? as u32 as usize)
                } else {
                    let path = self.conc(st, a[0])? as u64;
                    Ok(self.cstr(st, path)?)
                };
                let p = self.conc(st, a[1])? as u64;
                let Some(len) = self.file_size(st, k) else { return self.fail(st, 2) };
                self.store_at(st, p + 24, C(0o100644), 32)?;
                self.store_at(st, p + 48, C(len as u128), 64)?;
                Some(C(0))
            }
            Ext::Ret0 => Some(C(0)),
            Ext::RetM1 => Some(C(mask(64))),
            Ext::Gettid => Some(C(4242)),
            Ext::Getenv => Some(C(0)),
            Ext::Unknown | Ext::None => abort!("external function {}", self.m.fnames[fid as usize]),
        })
    }
    /// The file the sym_file_* (input) and sym_out_* calls are about.
    fn sel(&mut self, st: &mut State, input: bool) -> usize {
        let name = match st.fsel {
            0 if input => "/sx/sx_in.cnf".to_string(),
            0 => "/sx/sx_out".to_string(),
            1000 => "<stdout>".to_string(),
            200 => "/sx/proof.drat".to_string(),
            k @ 100..200 => format!("/sx/ans_f{}.cnf", k - 100),
            k @ 2000..4000 => {
                let n = k as usize % 1000;
                let pre = if k < 3000 { "" } else { "ans_" };
                format!("/sx/{pre}{}{}.cnf", "x".repeat(n % 4), "\u{3042}".repeat(n / 4))
            }
            k => format!("/sx/f{k}.cnf"),
        };
        if let Some(k) = st.files.iter().position(|f| f.0 == name) {
            return k;
        }
        st.files.push((name, Rc::new(vec![])));
        st.files.len() - 1
    }
    fn errno(&mut self, st: &mut State) -> R<()> {
        if st.errno == 0 {
            st.errno = self.new_heap(st, 8)?;
        }
        Ok(())
    }
    fn fail(&mut self, st: &mut State, e: u32) -> R<Option<Val>> {
        self.errno(st)?;
        let p = st.errno;
        self.store_at(st, p, C(e as u128), 32)?;
        Ok(Some(C(mask(32))))
    }
    fn cstr(&mut self, st: &mut State, p: u64) -> R<String> {
        let mut s = vec![];
        loop {
            let v = self.load_at(st, p + s.len() as u64, 8)?;
            match self.conc(st, v)? as u8 {
                0 => break,
                b => s.push(b),
            }
        }
        // the current directory is /sx
        let s = String::from_utf8_lossy(&s).to_string();
        Ok(if s.is_empty() || s.starts_with('/') { s } else { format!("/sx/{}", s.trim_start_matches("./")) })
    }
    fn file_size(&self, st: &State, f: Result<String, usize>) -> Option<usize> {
        let k = match f {
            Ok(name) => st.files.iter().position(|f| f.0 == name)?,
            Err(fd) => st.fds.get(fd.checked_sub(10)?)?.0,
        };
        Some(st.files[k].1.len())
    }
    fn write_fd(&mut self, st: &mut State, fd: usize, p: u64, n: u64) -> R<()> {
        let (f, pos) = if fd == 1 && st.capture {
            let old = std::mem::replace(&mut st.fsel, 1000);
            let k = self.sel(st, false);
            st.fsel = old;
            (k, usize::MAX)
        } else if fd < 3 {
            return Ok(());
        } else {
            match fd.checked_sub(10).and_then(|k| st.fds.get(k).copied()) {
                Some(x) => x,
                None => abort!("write to fd {fd}"),
            }
        };
        let mut buf = vec![];
        for i in 0..n {
            let mut v = self.load_at(st, p + i, 8)?;
            if fd != 1 {
                v = C(self.conc(st, v)? & 0xff);
            }
            buf.push(v);
        }
        let d = Rc::make_mut(&mut st.files[f].1);
        let mut at = pos.min(d.len());
        for v in buf {
            if at < d.len() {
                d[at] = v;
            } else {
                d.push(v);
            }
            at += 1;
        }
        if fd != 1 && pos != usize::MAX {
            st.fds[fd - 10].1 = at;
        }
        Ok(())
    }
    fn new_heap(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > 1 << 46 {
            return Ok(0); // more than the address space of a process
        }
        if n > 1 << 30 {
            viol!("memory", "allocation of {} bytes", n);
        }
        // heap ids are never recycled, so that dangling pointers are noticed
        st.objs.push(Some(Rc::new(Obj { data: vec![0; n as usize], sym: None, kind: Kind::Heap, constant: false })));
        Ok(((self.hbase + st.objs.len() as u32 - 1) as u64) << 32)
    }
    fn panic_msg(&mut self, st: &State, a: &[Val]) -> String {
        let k: Vec<u64> = a
            .iter()
            .map(|v| match v {
                C(k) => *k as u64,
                S(e) => self.ar.eval(*e, &st.model) as u64,
            })
            .collect();
        let mut s = String::new();
        if k.len() >= 3 {
            let b = if k[1] & 1 == 1 {
                self.bytes(st, k[0], k[1] >> 1)
            } else {
                match self.obj(st, (k[0] >> 32) as u32) {
                    Some(o) => o.data[(k[0] & 0xffff_ffff) as usize..].to_vec(),
                    None => vec![],
                }
            };
            for c in b {
                if (32..127).contains(&c) {
                    s.push(c as char);
                } else if !s.ends_with('~') {
                    s.push('~');
                }
            }
            let loc = k[k.len() - 1];
            let fp = self.u64_at(st, loc);
            let fl = self.u64_at(st, loc + 8);
            let lc = self.u64_at(st, loc + 16);
            let f = String::from_utf8_lossy(&self.bytes(st, fp, fl)).to_string();
            s = format!("{s} at {f}:{}", lc & 0xffff_ffff);
        }
        s
    }
}

fn fcast(c: Cast, w1: u16, w2: u16, k: u128) -> u128 {
    let fin = || if w1 == 64 { f64::from_bits(k as u64) } else { f32::from_bits(k as u32) as f64 };
    match c {
        Cast::UiToFp => {
            if w2 == 64 {
                (k as f64).to_bits() as u128
            } else {
                (k as f32).to_bits() as u128
            }
        }
        Cast::SiToFp => {
            let s = sext(k, w1);
            if w2 == 64 {
                (s as f64).to_bits() as u128
            } else {
                (s as f32).to_bits() as u128
            }
        }
        Cast::FpToUi => (fin() as u128) & mask(w2),
        Cast::FpToSi => (fin() as i128) as u128 & mask(w2),
        Cast::FpTrunc => (f64::from_bits(k as u64) as f32).to_bits() as u128,
        Cast::FpExt => (f32::from_bits(k as u32) as f64).to_bits() as u128,
        _ => unreachable!(),
    }
}

/// Crude v0 demangling: the identifiers in order.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' || b[i] == b'C' {
            // crate disambiguator: skip "s..._"
            if b[i] == b's' {
                if let Some(j) = n[i..].find('_') {
                    if n[i + 1..i + j].bytes().all(|c| c.is_ascii_alphanumeric()) && j < 16 {
                        i += j + 1;
                        continue;
                    }
                }
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + l <= b.len() && l > 0 {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

pub fn exit_now(c: i32) -> ! {
    unsafe { _exit(c) }
}
