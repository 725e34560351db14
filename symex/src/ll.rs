//! Textual LLVM IR -> decoded functions. Aggregates and vectors are flattened into scalar registers.
use crate::expr::{mask, Op};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F64,
    F32,
    Ptr,
    Struct(Vec<Ty>, bool),
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Meta,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => match (*w as u64).div_ceil(8) {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                n => n.div_ceil(16) * 16,
            },
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Struct(v, packed) => {
                let mut o = 0u64;
                for t in v {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = o.next_multiple_of(self.align());
                }
                o
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => n * t.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Struct(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().min(16),
            _ => self.size().clamp(1, 16),
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(v, packed) => {
                let mut o = 0u64;
                for (k, t) in v.iter().enumerate() {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i, (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    /// bit widths of the scalar leaves
    pub fn leaves(&self) -> Vec<u16> {
        match self {
            Ty::Void | Ty::Meta => vec![],
            Ty::Int(w) => vec![*w],
            Ty::F64 | Ty::Ptr => vec![64],
            Ty::F32 => vec![32],
            Ty::Struct(v, _) => v.iter().flat_map(|t| t.leaves()).collect(),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let l = t.leaves();
                (0..*n).flat_map(|_| l.clone()).collect()
            }
        }
    }
    fn leaf_range(&self, path: &[u64]) -> (usize, Ty) {
        let mut off = 0;
        let mut t = self.clone();
        for p in path {
            let nt = match &t {
                Ty::Struct(v, _) => {
                    for x in v.iter().take(*p as usize) {
                        off += x.leaves().len();
                    }
                    v[*p as usize].clone()
                }
                Ty::Arr(_, x) | Ty::Vec(_, x) => {
                    off += x.leaves().len() * *p as usize;
                    (**x).clone()
                }
                _ => panic!("leaf_range"),
            };
            t = nt;
        }
        (off, t)
    }
}

#[derive(Clone, Copy, Debug)]
pub enum O {
    R(u32),
    K(u128),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Copy,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Debug)]
pub struct Edge {
    pub target: u32, // block index, later code index
    pub copies: Vec<(u32, O)>,
}

#[derive(Debug)]
pub struct GepIdx {
    pub v: O,
    pub w: u16,
    pub scale: i64,
}

#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Ind(O),
    Intr(String),
}

#[derive(Debug)]
pub enum I {
    Bin(Op, u16, u32, O, O),
    Icmp(Pred, u16, u32, O, O),
    Cast(Cast, u16, u16, u32, O),
    FBin(FOp, u16, u32, O, O),
    FNeg(u16, u32, O),
    FCmp(&'static str, u16, u32, O, O),
    Select(u16, u32, O, O, O),
    Copy(u32, O),
    /// pack leaves (element width w) into one integer
    Pack(u16, u32, Vec<O>),
    Unpack(u16, u32, u32, O),
    Gep(u32, O, i64, Vec<GepIdx>),
    /// dst, addr, bit width
    Load(u32, O, u16),
    Store(O, O, u16),
    Alloca(u32, u64, O),
    Call { callee: Callee, args: Vec<O>, argw: Vec<u16>, dst: u32, retw: Vec<u16>, next: Option<Edge> },
    Jmp(Edge),
    Br(O, Edge, Edge),
    Switch(u16, O, Edge, Vec<(u128, Edge)>),
    Ret(Vec<O>),
    Unreachable,
    Rmw(String, u16, u32, O, O),
    CmpXchg(u16, u32, O, O, O),
    Nop,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>, // flattened
    pub code: Vec<I>,
}

pub struct Global {
    pub name: &'static str,
    pub constant: bool,
    pub external: bool,
    pub ty_init: usize, // position in source of the type
}

pub struct Module {
    pub src: &'static str,
    pub fnames: Vec<&'static str>,
    pub fbody: Vec<Option<usize>>, // position of "define"
    pub fmap: HashMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<&'static str, u32>,
    pub alias: HashMap<&'static str, &'static str>,
}

pub const FBASE: u32 = 16;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(&'static str),
    Loc(&'static str),
    Glob(&'static str),
    Num(&'static str),
    Str(&'static str), // raw, with escapes
    CStr(&'static str),
    P(char),
    Meta,
    Eof,
}

pub struct Lx {
    pub s: &'static str,
    pub p: usize,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'-' | b'$')
}

impl Lx {
    pub fn peekb(&self) -> u8 {
        *self.s.as_bytes().get(self.p).unwrap_or(&0)
    }
    pub fn ws(&mut self) {
        loop {
            match self.peekb() {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => self.eol(),
                _ => return,
            }
        }
    }
    pub fn eol(&mut self) {
        while self.peekb() != b'\n' && self.p < self.s.len() {
            self.p += 1;
        }
    }
    fn quoted(&mut self) -> &'static str {
        // at opening quote
        let st = self.p + 1;
        self.p = st;
        while self.peekb() != b'"' {
            self.p += 1;
        }
        let r = &self.s[st..self.p];
        self.p += 1;
        r
    }
    pub fn peek(&mut self) -> T {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    pub fn next(&mut self) -> T {
        self.ws();
        let b = self.peekb();
        match b {
            0 => T::Eof,
            b'%' | b'@' => {
                self.p += 1;
                let n = if self.peekb() == b'"' {
                    self.quoted()
                } else {
                    let st = self.p;
                    while idch(self.peekb()) {
                        self.p += 1;
                    }
                    &self.s[st..self.p]
                };
                if b == b'%' {
                    T::Loc(n)
                } else {
                    T::Glob(n)
                }
            }
            b'"' => T::Str(self.quoted()),
            b'!' => {
                self.p += 1;
                while idch(self.peekb()) {
                    self.p += 1;
                }
                T::Meta
            }
            b'#' => {
                self.p += 1;
                while idch(self.peekb()) {
                    self.p += 1;
                }
                T::Meta
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = self.p;
                self.p += 1;
                while idch(self.peekb()) || self.peekb() == b'+' {
                    self.p += 1;
                }
                T::Num(&self.s[st..self.p])
            }
            _ if b.is_ascii_alphabetic() || b == b'_' || b == b'.' || b == b'$' => {
                let st = self.p;
                while idch(self.peekb()) {
                    self.p += 1;
                }
                let id = &self.s[st..self.p];
                if id == "c" && self.peekb() == b'"' {
                    return T::CStr(self.quoted());
                }
                T::Id(id)
            }
            _ => {
                self.p += 1;
                T::P(b as char)
            }
        }
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) {
        let p = self.p;
        let t = self.next();
        if t != T::P(c) {
            panic!("expected {:?}, got {:?} near {}", c, t, self.ctx(p));
        }
    }
    pub fn ctx(&self, p: usize) -> &str {
        let st = p.saturating_sub(60);
        let en = (p + 160).min(self.s.len());
        self.s.get(st..en).unwrap_or("?")
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.peek() == T::Id(leak_cmp(s)) {
            self.next();
            true
        } else {
            false
        }
    }
    fn balanced(&mut self) {
        // at '('
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                T::Eof => panic!("eof"),
                _ => {}
            }
        }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            T::Id(s) => {
                matches!(s, "void" | "ptr" | "double" | "float" | "metadata" | "label" | "half" | "token" | "x86_fp80" | "fp128")
                    || (s.len() > 1 && s.as_bytes()[0] == b'i' && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P('{') | T::P('<') | T::P('[') => true,
            _ => false,
        }
    }
    /// skip attributes up to a type
    fn attrs(&mut self) {
        loop {
            if self.is_type_start() {
                return;
            }
            match self.next() {
                T::Id(s) => {
                    if self.peek() == T::P('(') {
                        self.balanced();
                    } else if s == "align" {
                        if let T::Num(_) = self.peek() {
                            self.next();
                        }
                    }
                }
                T::Str(_) => {
                    if self.eat('=') {
                        self.next();
                    }
                }
                T::Meta => {}
                t => panic!("attrs: {:?} near {}", t, self.ctx(self.p)),
            }
        }
    }
    /// skip parameter attributes up to a value
    fn pattrs(&mut self) {
        loop {
            match self.peek() {
                T::Id(s) => {
                    if s.starts_with("f0x") {
                        return;
                    }
                    if matches!(
                        s,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr"
                            | "ptrtoint" | "trunc" | "sub" | "add" | "splat" | "select" | "icmp" | "bitcast" | "asm" | "ptrtoaddr" | "xor"
                    ) {
                        return;
                    }
                    self.next();
                    if self.peek() == T::P('(') {
                        self.balanced();
                    } else if s == "align" {
                        if let T::Num(_) = self.peek() {
                            self.next();
                        }
                    }
                }
                T::Str(_) => {
                    self.next();
                    if self.eat('=') {
                        self.next();
                    }
                }
                _ => return,
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let p = self.p;
        match self.next() {
            T::Id("void") => Ty::Void,
            T::Id("ptr") => {
                if self.peek() == T::Id("addrspace") {
                    self.next();
                    self.balanced();
                }
                Ty::Ptr
            }
            T::Id("double") => Ty::F64,
            T::Id("float") => Ty::F32,
            T::Id("metadata") | T::Id("label") | T::Id("token") => Ty::Meta,
            T::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {s}"))),
            T::P('{') => {
                let mut v = vec![];
                if !self.eat('}') {
                    loop {
                        v.push(self.ty());
                        if self.eat('}') {
                            break;
                        }
                        self.expect(',');
                    }
                }
                Ty::Struct(v, false)
            }
            T::P('[') => {
                let n = self.num();
                assert_eq!(self.next(), T::Id("x"));
                let t = self.ty();
                self.expect(']');
                Ty::Arr(n, Box::new(t))
            }
            T::P('<') => {
                if self.eat('{') {
                    let mut v = vec![];
                    if !self.eat('}') {
                        loop {
                            v.push(self.ty());
                            if self.eat('}') {
                                break;
                            }
                            self.expect(',');
                        }
                    }
                    self.expect('>');
                    Ty::Struct(v, true)
                } else {
                    let n = self.num();
                    assert_eq!(self.next(), T::Id("x"));
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            t => panic!("type? {:?} near {}", t, self.ctx(p)),
        }
    }
    fn num(&mut self) -> u64 {
        match self.next() {
            T::Num(s) => s.parse().unwrap(),
            t => panic!("num? {:?}", t),
        }
    }
}

fn leak_cmp(s: &str) -> &'static str {
    // only compared, never stored
    unsafe { std::mem::transmute::<&str, &'static str>(s) }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

impl Module {
    pub fn parse(src: &'static str) -> Module {
        let mut m = Module {
            src,
            fnames: vec![],
            fbody: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            alias: HashMap::new(),
        };
        let mut pos = 0;
        while pos < src.len() {
            let nl = src[pos..].find('\n').map(|x| pos + x + 1).unwrap_or(src.len());
            let line = &src[pos..nl];
            if line.starts_with("define") || line.starts_with("declare") {
                // the first '@' outside of quotes
                let at = line.find('@').unwrap();
                let mut lx = Lx { s: src, p: pos + at };
                if let T::Glob(n) = lx.next() {
                    let id = m.fnames.len() as u32;
                    m.fnames.push(n);
                    m.fbody.push(if line.starts_with("define") { Some(pos) } else { None });
                    m.fmap.insert(n, id);
                }
                if line.starts_with("define") {
                    // skip body
                    let e = src[nl..].find("\n}").map(|x| nl + x + 3).unwrap();
                    pos = e.min(src.len());
                    continue;
                }
            } else if line.starts_with('@') {
                let mut lx = Lx { s: src, p: pos };
                let n = match lx.next() {
                    T::Glob(n) => n,
                    _ => unreachable!(),
                };
                lx.expect('=');
                let mut constant = false;
                let mut external = false;
                loop {
                    match lx.next() {
                        T::Id("global") => break,
                        T::Id("constant") => {
                            constant = true;
                            break;
                        }
                        T::Id("external") | T::Id("extern_weak") => external = true,
                        T::Id("alias") => {
                            let at = line.rfind('@').unwrap();
                            let mut l2 = Lx { s: src, p: pos + at };
                            if let T::Glob(t) = l2.next() {
                                m.alias.insert(n, t);
                            }
                            external = true;
                            constant = true;
                            break;
                        }
                        T::Id(_) => {
                            if lx.peek() == T::P('(') {
                                lx.balanced();
                            }
                        }
                        T::Eof => panic!(),
                        _ => {}
                    }
                }
                let id = m.globals.len() as u32;
                m.globals.push(Global { name: n, constant, external, ty_init: lx.p });
                m.gmap.insert(n, id);
            }
            pos = nl;
        }
        m
    }
    pub fn fobj(&self, id: u32) -> u64 {
        ((FBASE + id) as u64) << 32
    }
    pub fn gobj(&self, id: u32) -> u64 {
        ((FBASE + self.fnames.len() as u32 + id) as u64) << 32
    }
    pub fn first_heap(&self) -> u32 {
        FBASE + (self.fnames.len() + self.globals.len()) as u32
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        let n = self.alias.get(n).copied().unwrap_or(n);
        if let Some(f) = self.fmap.get(n) {
            return self.fobj(*f);
        }
        if let Some(g) = self.gmap.get(n) {
            return self.gobj(*g);
        }
        panic!("unknown symbol {n}")
    }
    /// constant leaves of a value of type ty
    pub fn konst(&self, lx: &mut Lx, ty: &Ty) -> Vec<u128> {
        let p = lx.p;
        match lx.next() {
            T::Id("true") => vec![1],
            T::Id("false") => vec![0],
            T::Id("null") => vec![0],
            T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") | T::Id("none") => ty.leaves().iter().map(|_| 0).collect(),
            T::Num(s) if s.len() > 1 && s.as_bytes()[1].is_ascii_alphabetic() && !s.starts_with("0x") => {
                // +inf, -qnan, +nan(0x1), ...
                let w = ty.leaves()[0];
                let (inf, quiet) = if w == 64 { (0x7ffu128 << 52, 1u128 << 51) } else { (0xffu128 << 23, 1u128 << 22) };
                let mut v = if s.starts_with('-') { 1u128 << (w - 1) } else { 0 } | inf;
                match &s[1..] {
                    "inf" => (),
                    "qnan" => v |= quiet,
                    "nan" | "snan" => {
                        lx.expect('(');
                        let T::Num(h) = lx.next() else { panic!("nan payload") };
                        v |= u128::from_str_radix(h.trim_start_matches("0x"), 16).unwrap();
                        if &s[1..] == "nan" {
                            v |= quiet;
                        }
                        lx.expect(')');
                    }
                    _ => panic!("number {s}"),
                }
                vec![v]
            }
            T::Num(s) => match ty {
                Ty::F64 => vec![parse_f64(s).to_bits() as u128],
                Ty::F32 => vec![(parse_f64(s) as f32).to_bits() as u128],
                Ty::Int(w) => {
                    let v = if let Some(h) = s.strip_prefix("0x") {
                        u128::from_str_radix(h, 16).unwrap()
                    } else if s.starts_with('-') {
                        s.parse::<i128>().unwrap() as u128
                    } else {
                        s.parse::<u128>().unwrap()
                    };
                    vec![v & mask(*w)]
                }
                _ => panic!("number of type {:?}", ty),
            },
            T::Id(s) if s.starts_with("f0x") => {
                let b = u64::from_str_radix(&s[3..], 16).unwrap() as u128;
                vec![b]
            }
            T::Glob(g) => vec![self.sym_addr(g) as u128],
            T::CStr(s) => unescape(s).into_iter().map(|b| b as u128).collect(),
            T::P('{') => {
                let mut v = vec![];
                if lx.eat('}') {
                    return v;
                }
                loop {
                    let t = lx.ty();
                    v.extend(self.konst(lx, &t));
                    if lx.eat('}') {
                        break;
                    }
                    lx.expect(',');
                }
                v
            }
            T::P('[') => {
                let mut v = vec![];
                if lx.eat(']') {
                    return v;
                }
                loop {
                    let t = lx.ty();
                    v.extend(self.konst(lx, &t));
                    if lx.eat(']') {
                        break;
                    }
                    lx.expect(',');
                }
                v
            }
            T::P('<') => {
                let packed = lx.eat('{');
                let mut v = vec![];
                let close = if packed { '}' } else { '>' };
                if !lx.eat(close) {
                    loop {
                        let t = lx.ty();
                        v.extend(self.konst(lx, &t));
                        if lx.eat(close) {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                if packed {
                    lx.expect('>');
                }
                v
            }
            T::Id("splat") => {
                lx.expect('(');
                let t = lx.ty();
                let k = self.konst(lx, &t);
                lx.expect(')');
                let n = ty.leaves().len();
                (0..n).map(|_| k[0]).collect()
            }
            T::Id("getelementptr") => {
                while lx.peek() != T::P('(') {
                    lx.next();
                }
                lx.expect('(');
                let t = lx.ty();
                lx.expect(',');
                let pt = lx.ty();
                let base = self.konst(lx, &pt)[0];
                let mut cur = t;
                let mut off = 0i128;
                let mut first = true;
                while lx.eat(',') {
                    let it = lx.ty();
                    let iv = self.konst(lx, &it)[0];
                    let w = it.leaves()[0];
                    let iv = crate::expr::sext(iv, w);
                    if first {
                        off += iv * cur.size() as i128;
                        first = false;
                    } else {
                        let (o, nt) = cur.field_off(iv as u64);
                        off += o as i128;
                        cur = nt;
                    }
                }
                lx.expect(')');
                vec![(base as i128 + off) as u128 & mask(64)]
            }
            T::Id("inttoptr") | T::Id("ptrtoint") | T::Id("bitcast") | T::Id("ptrtoaddr") | T::Id("trunc") | T::Id("zext") => {
                lx.expect('(');
                let t = lx.ty();
                let k = self.konst(lx, &t);
                assert_eq!(lx.next(), T::Id("to"));
                let t2 = lx.ty();
                lx.expect(')');
                vec![k[0] & mask(t2.leaves()[0])]
            }
            T::Id(o @ ("sub" | "add" | "xor")) => {
                while lx.peek() != T::P('(') {
                    lx.next();
                }
                lx.expect('(');
                let t = lx.ty();
                let a = self.konst(lx, &t)[0];
                lx.expect(',');
                let t2 = lx.ty();
                let b = self.konst(lx, &t2)[0];
                lx.expect(')');
                let w = t.leaves()[0];
                vec![crate::expr::bin(
                    match o {
                        "sub" => Op::Sub,
                        "add" => Op::Add,
                        _ => Op::Xor,
                    },
                    w,
                    a,
                    b,
                )
                .unwrap()]
            }
            t => panic!("constant? {:?} near {}", t, lx.ctx(p)),
        }
    }
    pub fn flat_bytes(ty: &Ty, leaves: &mut std::slice::Iter<u128>, out: &mut Vec<u8>) {
        match ty {
            Ty::Struct(v, packed) => {
                let st = out.len();
                for t in v {
                    if !packed {
                        let o = (out.len() - st) as u64;
                        let a = o.next_multiple_of(t.align());
                        out.resize(st + a as usize, 0);
                    }
                    Self::flat_bytes(t, leaves, out);
                }
                let e = st + ty.size() as usize;
                out.resize(e, 0);
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for _ in 0..*n {
                    Self::flat_bytes(t, leaves, out);
                }
            }
            _ => {
                let v = *leaves.next().unwrap();
                let n = ty.size() as usize;
                out.extend_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    pub fn global_bytes(&self, gi: usize) -> Vec<u8> {
        let g = &self.globals[gi];
        let mut lx = Lx { s: self.src, p: g.ty_init };
        let t = lx.ty();
        if g.external {
            return vec![0; t.size().max(64) as usize];
        }
        let k = self.konst(&mut lx, &t);
        let mut out = vec![];
        Self::flat_bytes(&t, &mut k.iter(), &mut out);
        assert_eq!(out.len() as u64, t.size(), "{}", g.name);
        out
    }
}

pub fn parse_f64(s: &str) -> f64 {
    let h = s.strip_prefix("f0x").or(s.strip_prefix("0x"));
    if let Some(h) = h {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else {
        s.parse().unwrap()
    }
}

struct Dec<'a> {
    m: &'a Module,
    lx: Lx,
    regs: HashMap<&'static str, (u32, Ty)>,
    nregs: u32,
    blocks: HashMap<&'static str, u32>,
    code: Vec<I>,
    bstart: Vec<u32>,
    bname: Vec<&'static str>,
    // phis[block] = (dst, n, [(pred name, leaves)])
    phis: Vec<Vec<(u32, Vec<(&'static str, Vec<O>)>)>>,
}

impl<'a> Dec<'a> {
    fn reg(&mut self, name: &'static str, ty: &Ty) -> u32 {
        if let Some((r, t)) = self.regs.get(name) {
            debug_assert!(t.leaves().len() == ty.leaves().len(), "{name}");
            return *r;
        }
        let n = ty.leaves().len() as u32;
        let r = self.nregs;
        self.nregs += n;
        self.regs.insert(name, (r, ty.clone()));
        r
    }
    fn val(&mut self, ty: &Ty) -> Vec<O> {
        if let T::Loc(n) = self.lx.peek() {
            self.lx.next();
            let r = self.reg(n, ty);
            return (0..ty.leaves().len() as u32).map(|i| O::R(r + i)).collect();
        }
        let mut lx = Lx { s: self.lx.s, p: self.lx.p };
        let k = self.m.konst(&mut lx, ty);
        self.lx.p = lx.p;
        k.into_iter().map(O::K).collect()
    }
    fn tval(&mut self) -> (Ty, Vec<O>) {
        let t = self.lx.ty();
        let v = self.val(&t);
        (t, v)
    }
    fn block(&mut self, n: &'static str) -> u32 {
        if let Some(b) = self.blocks.get(n) {
            return *b;
        }
        let b = self.blocks.len() as u32;
        self.blocks.insert(n, b);
        self.bstart.push(u32::MAX);
        self.bname.push(n);
        self.phis.push(vec![]);
        b
    }
    fn label(&mut self) -> u32 {
        let t = self.lx.ty();
        assert_eq!(t, Ty::Meta);
        match self.lx.next() {
            T::Loc(n) => self.block(n),
            t => panic!("label? {:?}", t),
        }
    }
    fn edge(&mut self) -> Edge {
        Edge { target: self.label(), copies: vec![] }
    }
}

pub fn decode(m: &Module, id: u32) -> Func {
    let pos = m.fbody[id as usize].expect("decode of a declaration");
    let mut d = Dec {
        m,
        lx: Lx { s: m.src, p: pos },
        regs: HashMap::new(),
        nregs: 0,
        blocks: HashMap::new(),
        code: vec![],
        bstart: vec![],
        bname: vec![],
        phis: vec![],
    };
    // header
    d.lx.next(); // define
    d.lx.attrs();
    let _ret = d.lx.ty();
    loop {
        if let T::Glob(_) = d.lx.next() {
            break;
        }
    }
    d.lx.expect('(');
    let mut params = vec![];
    let mut unnamed = 0u32;
    if !d.lx.eat(')') {
        loop {
            let t = d.lx.ty();
            d.lx.pattrs();
            let name = match d.lx.peek() {
                T::Loc(n) => {
                    d.lx.next();
                    n
                }
                _ => Box::leak(unnamed.to_string().into_boxed_str()),
            };
            if name.bytes().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
            let r = d.reg(name, &t);
            for i in 0..t.leaves().len() as u32 {
                params.push(r + i);
            }
            if d.lx.eat(')') {
                break;
            }
            d.lx.expect(',');
        }
    }
    loop {
        match d.lx.next() {
            T::P('{') => break,
            T::P('(') => {
                d.lx.p -= 1;
                d.lx.balanced()
            }
            T::Eof => panic!(),
            _ => {}
        }
    }
    let entry_name: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
    let mut cur: Option<u32> = None;
    loop {
        d.lx.ws();
        if d.lx.peekb() == b'}' {
            break;
        }
        // label?
        let save = d.lx.p;
        let t = d.lx.next();
        if let T::Id(s) | T::Num(s) | T::Str(s) = t {
            if d.lx.peekb() == b':' {
                d.lx.p += 1;
                let b = d.block(s);
                d.bstart[b as usize] = d.code.len() as u32;
                cur = Some(b);
                continue;
            }
        }
        d.lx.p = save;
        if cur.is_none() {
            let b = d.block(entry_name);
            d.bstart[b as usize] = d.code.len() as u32;
            cur = Some(b);
        }
        inst(&mut d, cur.unwrap());
    }
    // resolve edges
    let Dec { mut code, bstart, bname, phis, nregs, .. } = d;
    // block of each instruction
    let mut order: Vec<(u32, u32)> = bstart.iter().enumerate().map(|(i, s)| (*s, i as u32)).collect();
    order.sort();
    let mut k = 0;
    for (pc, ins) in code.iter_mut().enumerate() {
        while k + 1 < order.len() && order[k + 1].0 <= pc as u32 {
            k += 1;
        }
        let me = bname[order[k].1 as usize];
        let fix = |e: &mut Edge| {
            let tb = e.target as usize;
            for (dst, inc) in &phis[tb] {
                let (_, vals) = inc.iter().find(|(n, _)| *n == me).unwrap_or_else(|| panic!("phi without predecessor {me}"));
                for (i, v) in vals.iter().enumerate() {
                    e.copies.push((dst + i as u32, *v));
                }
            }
            e.target = bstart[tb];
            assert!(e.target != u32::MAX, "undefined block {}", bname[tb]);
        };
        match ins {
            I::Jmp(e) => fix(e),
            I::Br(_, a, b) => {
                fix(a);
                fix(b)
            }
            I::Switch(_, _, e, v) => {
                fix(e);
                v.iter_mut().for_each(|x| fix(&mut x.1));
            }
            I::Call { next: Some(e), .. } => fix(e),
            _ => {}
        }
    }
    Func { name: m.fnames[id as usize].to_string(), id, nregs, params, code }
}

fn inst(d: &mut Dec, cur: u32) {
    let start = d.lx.p;
    let mut dst: Option<&'static str> = None;
    let mut t = d.lx.next();
    if let T::Loc(n) = t {
        dst = Some(n);
        d.lx.expect('=');
        t = d.lx.next();
    }
    let op = match t {
        T::Id(s) => s,
        _ => panic!("instruction? {:?} near {}", t, d.lx.ctx(start)),
    };
    match op {
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            let mut inv = op == "invoke";
            if op != "call" && op != "invoke" {
                match d.lx.next() {
                    T::Id("call") => {}
                    T::Id("invoke") => inv = true,
                    t => panic!("{:?}", t),
                }
            }
            d.lx.attrs();
            let ty = d.lx.ty();
            if d.lx.peek() == T::P('(') {
                d.lx.balanced(); // function type
            }
            // callee
            let callee = match d.lx.peek() {
                T::Glob(g) => {
                    d.lx.next();
                    if g.starts_with("llvm.") {
                        if g.starts_with("llvm.lifetime")
                            || g.starts_with("llvm.experimental.noalias")
                            || g.starts_with("llvm.dbg")
                            || g.starts_with("llvm.assume")
                        {
                            d.lx.eol();
                            return;
                        }
                        Callee::Intr(g.to_string())
                    } else {
                        let g = d.m.alias.get(g).copied().unwrap_or(g);
                        Callee::Direct(*d.m.fmap.get(g).unwrap_or_else(|| panic!("unknown function {g}")))
                    }
                }
                T::Loc(_) => Callee::Ind(d.val(&Ty::Ptr)[0]),
                T::Id("asm") => {
                    if !inv && ty == Ty::Void {
                        d.lx.eol();
                        d.code.push(I::Nop);
                        return;
                    }
                    // value-returning asm (black_box): modelled as unknown external
                    d.lx.eol();
                    d.code.push(I::Call {
                        callee: Callee::Intr("asm".into()),
                        args: vec![],
                        argw: vec![],
                        dst: 0,
                        retw: vec![],
                        next: None,
                    });
                    return;
                }
                _ => Callee::Ind(d.val(&Ty::Ptr)[0]),
            };
            d.lx.expect('(');
            let mut args = vec![];
            let mut argw = vec![];
            if !d.lx.eat(')') {
                loop {
                    let t = d.lx.ty();
                    if t == Ty::Meta {
                        d.lx.next();
                    } else {
                        d.lx.pattrs();
                        let v = d.val(&t);
                        args.extend(v);
                        argw.extend(t.leaves());
                    }
                    if d.lx.eat(')') {
                        break;
                    }
                    d.lx.expect(',');
                }
            }
            let r = dst.map(|n| d.reg(n, &ty)).unwrap_or(u32::MAX);
            let next = if inv {
                loop {
                    if d.lx.next() == T::Id("to") {
                        break;
                    }
                }
                let e = d.edge();
                assert_eq!(d.lx.next(), T::Id("unwind"));
                let _u = d.edge();
                Some(e)
            } else {
                None
            };
            d.code.push(I::Call { callee, args, argw, dst: r, retw: ty.leaves(), next });
            d.lx.eol();
        }
        "br" => {
            if d.lx.peek() == T::Id("label") {
                let e = d.edge();
                d.code.push(I::Jmp(e));
            } else {
                let (_, c) = d.tval();
                d.lx.expect(',');
                let a = d.edge();
                d.lx.expect(',');
                let b = d.edge();
                d.code.push(I::Br(c[0], a, b));
            }
            d.lx.eol();
        }
        "switch" => {
            let (t, v) = d.tval();
            d.lx.expect(',');
            let de = d.edge();
            d.lx.expect('[');
            let mut cases = vec![];
            while !d.lx.eat(']') {
                let (_, k) = d.tval();
                d.lx.expect(',');
                let e = d.edge();
                let k = match k[0] {
                    O::K(k) => k,
                    _ => panic!(),
                };
                cases.push((k, e));
            }
            d.code.push(I::Switch(t.leaves()[0], v[0], de, cases));
            d.lx.eol();
        }
        "ret" => {
            let t = d.lx.ty();
            let v = if t == Ty::Void { vec![] } else { d.val(&t) };
            d.code.push(I::Ret(v));
            d.lx.eol();
        }
        "unreachable" => {
            d.code.push(I::Unreachable);
            d.lx.eol();
        }
        "resume" => {
            d.code.push(I::Unreachable);
            d.lx.eol();
        }
        "landingpad" => {
            let ty = d.lx.ty();
            if let Some(n) = dst {
                d.reg(n, &ty);
            }
            d.lx.eol();
        }
        "cleanup" | "catch" | "filter" => d.lx.eol(),
        "fence" => d.lx.eol(),
        "phi" => {
            while !d.lx.is_type_start() {
                d.lx.next();
            }
            let ty = d.lx.ty();
            let r = d.reg(dst.unwrap(), &ty);
            let mut inc = vec![];
            loop {
                d.lx.expect('[');
                let v = d.val(&ty);
                d.lx.expect(',');
                let b = match d.lx.next() {
                    T::Loc(n) => n,
                    t => panic!("{:?}", t),
                };
                d.lx.expect(']');
                inc.push((b, v));
                // a following ", [" continues; ", !dbg" ends
                let save = d.lx.p;
                if d.lx.eat(',') && d.lx.peek() == T::P('[') {
                    continue;
                }
                d.lx.p = save;
                break;
            }
            d.phis[cur as usize].push((r, inc));
            d.lx.eol();
        }
        "alloca" => {
            d.lx.eat_id("inalloca");
            let ty = d.lx.ty();
            let r = d.reg(dst.unwrap(), &Ty::Ptr);
            let mut n = O::K(1);
            let save = d.lx.p;
            if d.lx.eat(',') && d.lx.is_type_start() {
                let (_, v) = d.tval();
                n = v[0];
            } else {
                d.lx.p = save;
            }
            d.code.push(I::Alloca(r, ty.size(), n));
            d.lx.eol();
        }
        "load" => {
            d.lx.eat_id("atomic");
            d.lx.eat_id("volatile");
            let ty = d.lx.ty();
            d.lx.expect(',');
            let (_, a) = d.tval();
            let r = d.reg(dst.unwrap(), &ty);
            if let Some((w, n)) = bit_vector(&ty) {
                let t = d.nregs;
                d.nregs += 1;
                d.code.push(I::Load(t, a[0], w * n));
                d.code.push(I::Unpack(w, r, n as u32, O::R(t)));
                d.lx.eol();
                return;
            }
            let offs = leaf_offsets(&ty);
            for (i, (o, w)) in offs.iter().enumerate() {
                let ad = if *o == 0 {
                    a[0]
                } else {
                    let t = d.nregs;
                    d.nregs += 1;
                    d.code.push(I::Gep(t, a[0], *o as i64, vec![]));
                    O::R(t)
                };
                d.code.push(I::Load(r + i as u32, ad, *w));
            }
            d.lx.eol();
        }
        "store" => {
            d.lx.eat_id("atomic");
            d.lx.eat_id("volatile");
            let (ty, v) = d.tval();
            d.lx.expect(',');
            let (_, a) = d.tval();
            if let Some((w, n)) = bit_vector(&ty) {
                let t = d.nregs;
                d.nregs += 1;
                d.code.push(I::Pack(w, t, v));
                d.code.push(I::Store(O::R(t), a[0], w * n));
                d.lx.eol();
                return;
            }
            for (i, (o, w)) in leaf_offsets(&ty).iter().enumerate() {
                let ad = if *o == 0 {
                    a[0]
                } else {
                    let t = d.nregs;
                    d.nregs += 1;
                    d.code.push(I::Gep(t, a[0], *o as i64, vec![]));
                    O::R(t)
                };
                d.code.push(I::Store(v[i], ad, *w));
            }
            d.lx.eol();
        }
        "getelementptr" => {
            while !d.lx.is_type_start() {
                match d.lx.next() {
                    T::Id(_) => {
                        if d.lx.peek() == T::P('(') {
                            d.lx.balanced();
                        }
                    }
                    t => panic!("{:?}", t),
                }
            }
            let t = d.lx.ty();
            d.lx.expect(',');
            let (bt, base) = d.tval();
            assert_eq!(bt, Ty::Ptr, "vector gep");
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur_t = t;
            let mut first = true;
            loop {
                let save = d.lx.p;
                if !d.lx.eat(',') || !d.lx.is_type_start() {
                    d.lx.p = save;
                    break;
                }
                let (it, v) = d.tval();
                let w = it.leaves()[0];
                let scale = if first {
                    cur_t.size() as i64
                } else {
                    match &cur_t {
                        Ty::Arr(_, e) | Ty::Vec(_, e) => e.size() as i64,
                        _ => 0,
                    }
                };
                match v[0] {
                    O::K(k) => {
                        let k = crate::expr::sext(k, w) as i64;
                        if first {
                            off += k * scale;
                        } else {
                            let (o, nt) = cur_t.field_off(k as u64);
                            off += o as i64;
                            cur_t = nt;
                        }
                    }
                    r => {
                        idx.push(GepIdx { v: r, w, scale });
                        if !first {
                            cur_t = match &cur_t {
                                Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                                _ => panic!("variable struct index"),
                            };
                        }
                    }
                }
                first = false;
            }
            let r = d.reg(dst.unwrap(), &Ty::Ptr);
            d.code.push(I::Gep(r, base[0], off, idx));
            d.lx.eol();
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            while !d.lx.is_type_start() {
                d.lx.next();
            }
            let (t, a) = d.tval();
            d.lx.expect(',');
            let b = d.val(&t);
            let r = d.reg(dst.unwrap(), &t);
            let o = match op {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "sdiv" => Op::SDiv,
                "urem" => Op::URem,
                "srem" => Op::SRem,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                "ashr" => Op::AShr,
                "and" => Op::And,
                "or" => Op::Or,
                _ => Op::Xor,
            };
            for (i, w) in t.leaves().iter().enumerate() {
                d.code.push(I::Bin(o, *w, r + i as u32, a[i], b[i]));
            }
            d.lx.eol();
        }
        "icmp" => {
            d.lx.eat_id("samesign");
            let p = match d.lx.next() {
                T::Id("eq") => Pred::Eq,
                T::Id("ne") => Pred::Ne,
                T::Id("ugt") => Pred::Ugt,
                T::Id("uge") => Pred::Uge,
                T::Id("ult") => Pred::Ult,
                T::Id("ule") => Pred::Ule,
                T::Id("sgt") => Pred::Sgt,
                T::Id("sge") => Pred::Sge,
                T::Id("slt") => Pred::Slt,
                T::Id("sle") => Pred::Sle,
                t => panic!("icmp {:?}", t),
            };
            let (t, a) = d.tval();
            d.lx.expect(',');
            let b = d.val(&t);
            let rt = match &t {
                Ty::Vec(n, _) => Ty::Vec(*n, Box::new(Ty::Int(1))),
                _ => Ty::Int(1),
            };
            let r = d.reg(dst.unwrap(), &rt);
            for (i, w) in t.leaves().iter().enumerate() {
                d.code.push(I::Icmp(p, *w, r + i as u32, a[i], b[i]));
            }
            d.lx.eol();
        }
        "fcmp" => {
            const PREDS: [&str; 16] =
                ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"];
            let p = loop {
                if let T::Id(s) = d.lx.next() {
                    if let Some(p) = PREDS.iter().find(|x| **x == s) {
                        break *p;
                    }
                }
            };
            let (t, a) = d.tval();
            d.lx.expect(',');
            let b = d.val(&t);
            let rt = match &t {
                Ty::Vec(n, _) => Ty::Vec(*n, Box::new(Ty::Int(1))),
                _ => Ty::Int(1),
            };
            let r = d.reg(dst.unwrap(), &rt);
            for (i, w) in t.leaves().iter().enumerate() {
                d.code.push(I::FCmp(p, *w, r + i as u32, a[i], b[i]));
            }
            d.lx.eol();
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            while !d.lx.is_type_start() {
                d.lx.next();
            }
            let (t, a) = d.tval();
            d.lx.expect(',');
            let b = d.val(&t);
            let r = d.reg(dst.unwrap(), &t);
            let o = match op {
                "fadd" => FOp::Add,
                "fsub" => FOp::Sub,
                "fmul" => FOp::Mul,
                "fdiv" => FOp::Div,
                _ => FOp::Rem,
            };
            for (i, w) in t.leaves().iter().enumerate() {
                d.code.push(I::FBin(o, *w, r + i as u32, a[i], b[i]));
            }
            d.lx.eol();
        }
        "fneg" => {
            while !d.lx.is_type_start() {
                d.lx.next();
            }
            let (t, a) = d.tval();
            let r = d.reg(dst.unwrap(), &t);
            for (i, w) in t.leaves().iter().enumerate() {
                d.code.push(I::FNeg(*w, r + i as u32, a[i]));
            }
            d.lx.eol();
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext"
        | "freeze" | "ptrtoaddr" | "addrspacecast" => {
            while !d.lx.is_type_start() {
                d.lx.next();
            }
            let (t, a) = d.tval();
            let t2 = if op == "freeze" {
                t.clone()
            } else {
                assert_eq!(d.lx.next(), T::Id("to"));
                d.lx.ty()
            };
            let r = d.reg(dst.unwrap(), &t2);
            let (l1, l2) = (t.leaves(), t2.leaves());
            if op == "bitcast" && l1.len() != l2.len() {
                if l2.len() == 1 {
                    d.code.push(I::Pack(l1[0], r, a));
                } else if l1.len() == 1 {
                    d.code.push(I::Unpack(l2[0], r, l2.len() as u32, a[0]));
                } else {
                    let tot: u16 = l1.iter().sum();
                    assert!(tot <= 128);
                    let tmp = d.nregs;
                    d.nregs += 1;
                    d.code.push(I::Pack(l1[0], tmp, a));
                    d.code.push(I::Unpack(l2[0], r, l2.len() as u32, O::R(tmp)));
                }
            } else {
                let c = |w1: u16, w2: u16| match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "fptrunc" => Cast::FpTrunc,
                    "fpext" => Cast::FpExt,
                    _ => {
                        if w1 == w2 {
                            Cast::Copy
                        } else if w1 > w2 {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                };
                for i in 0..l1.len() {
                    d.code.push(I::Cast(c(l1[i], l2[i]), l1[i], l2[i], r + i as u32, a[i]));
                }
            }
            d.lx.eol();
        }
        "select" => {
            while !d.lx.is_type_start() {
                d.lx.next();
            }
            let (ct, c) = d.tval();
            d.lx.expect(',');
            let (t, a) = d.tval();
            d.lx.expect(',');
            let (_, b) = d.tval();
            let r = d.reg(dst.unwrap(), &t);
            let vc = matches!(ct, Ty::Vec(..));
            for (i, w) in t.leaves().iter().enumerate() {
                d.code.push(I::Select(*w, r + i as u32, if vc { c[i] } else { c[0] }, a[i], b[i]));
            }
            d.lx.eol();
        }
        "extractvalue" => {
            let (t, a) = d.tval();
            let mut path = vec![];
            loop {
                let save = d.lx.p;
                if d.lx.eat(',') {
                    if let T::Num(_) = d.lx.peek() {
                        path.push(d.lx.num());
                        continue;
                    }
                }
                d.lx.p = save;
                break;
            }
            let (o, ft) = t.leaf_range(&path);
            let r = d.reg(dst.unwrap(), &ft);
            for i in 0..ft.leaves().len() {
                d.code.push(I::Copy(r + i as u32, a[o + i]));
            }
            d.lx.eol();
        }
        "insertvalue" => {
            let (t, a) = d.tval();
            d.lx.expect(',');
            let (vt, v) = d.tval();
            let mut path = vec![];
            loop {
                let save = d.lx.p;
                if d.lx.eat(',') {
                    if let T::Num(_) = d.lx.peek() {
                        path.push(d.lx.num());
                        continue;
                    }
                }
                d.lx.p = save;
                break;
            }
            let (o, _) = t.leaf_range(&path);
            let n = vt.leaves().len();
            let r = d.reg(dst.unwrap(), &t);
            for i in 0..t.leaves().len() {
                let x = if i >= o && i < o + n { v[i - o] } else { a[i] };
                d.code.push(I::Copy(r + i as u32, x));
            }
            d.lx.eol();
        }
        "insertelement" => {
            let (t, a) = d.tval();
            d.lx.expect(',');
            let (_, v) = d.tval();
            d.lx.expect(',');
            let (_, ix) = d.tval();
            let k = match ix[0] {
                O::K(k) => k as usize,
                _ => panic!("variable insertelement"),
            };
            let r = d.reg(dst.unwrap(), &t);
            for i in 0..t.leaves().len() {
                d.code.push(I::Copy(r + i as u32, if i == k { v[0] } else { a[i] }));
            }
            d.lx.eol();
        }
        "extractelement" => {
            let (t, a) = d.tval();
            d.lx.expect(',');
            let (_, ix) = d.tval();
            let k = match ix[0] {
                O::K(k) => k as usize,
                _ => panic!("variable extractelement"),
            };
            let et = match &t {
                Ty::Vec(_, e) => (**e).clone(),
                _ => panic!(),
            };
            let r = d.reg(dst.unwrap(), &et);
            d.code.push(I::Copy(r, a[k]));
            d.lx.eol();
        }
        "shufflevector" => {
            let (t, a) = d.tval();
            d.lx.expect(',');
            let (_, b) = d.tval();
            d.lx.expect(',');
            let (mt, mk) = d.tval();
            let n = a.len();
            let et = match &t {
                Ty::Vec(_, e) => (**e).clone(),
                _ => panic!(),
            };
            let rt = Ty::Vec(mt.leaves().len() as u64, Box::new(et));
            let r = d.reg(dst.unwrap(), &rt);
            for (i, k) in mk.iter().enumerate() {
                let k = match k {
                    O::K(k) => *k as usize,
                    _ => panic!(),
                };
                let x = if k < n { a[k] } else { b[k - n] };
                d.code.push(I::Copy(r + i as u32, x));
            }
            d.lx.eol();
        }
        "atomicrmw" => {
            d.lx.eat_id("volatile");
            let o = match d.lx.next() {
                T::Id(s) => s.to_string(),
                _ => panic!(),
            };
            let (_, a) = d.tval();
            d.lx.expect(',');
            let (t, v) = d.tval();
            let r = d.reg(dst.unwrap_or("$rmw"), &t);
            d.code.push(I::Rmw(o, t.leaves()[0], r, a[0], v[0]));
            d.lx.eol();
        }
        "cmpxchg" => {
            d.lx.eat_id("weak");
            d.lx.eat_id("volatile");
            let (_, a) = d.tval();
            d.lx.expect(',');
            let (t, c) = d.tval();
            d.lx.expect(',');
            let (_, n) = d.tval();
            let rt = Ty::Struct(vec![t.clone(), Ty::Int(1)], false);
            let r = d.reg(dst.unwrap_or("$cx"), &rt);
            d.code.push(I::CmpXchg(t.leaves()[0], r, a[0], c[0], n[0]));
            d.lx.eol();
        }
        _ => panic!("instruction {op} near {}", d.lx.ctx(start)),
    }
}

/// Vectors of elements that do not fill bytes are stored packed.
fn bit_vector(ty: &Ty) -> Option<(u16, u16)> {
    match ty {
        Ty::Vec(n, e) => match **e {
            Ty::Int(w) if w % 8 != 0 => {
                assert!(w as u64 * n <= 128);
                Some((w, *n as u16))
            }
            _ => None,
        },
        _ => None,
    }
}
fn leaf_offsets(ty: &Ty) -> Vec<(u64, u16)> {
    fn go(t: &Ty, base: u64, out: &mut Vec<(u64, u16)>) {
        match t {
            Ty::Struct(v, _) => {
                for i in 0..v.len() as u64 {
                    let (o, ft) = t.field_off(i);
                    go(&ft, base + o, out);
                }
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                for i in 0..*n {
                    go(e, base + i * e.size(), out);
                }
            }
            _ => out.push((base, t.leaves()[0])),
        }
    }
    let mut v = vec![];
    go(ty, 0, &mut v);
    v
}
