//! Hash-consed bit-vector expressions (width 1 is Boolean).
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

/// Concrete semantics of a binary operation; None = undefined (division by zero, oversized shift).
pub fn bin(op: Op, w: u16, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => x.checked_div(y)?,
        Op::URem => x.checked_rem(y)?,
        Op::SDiv => (sext(x, w).checked_div(sext(y, w))?) as u128 & m,
        Op::SRem => (sext(x, w).checked_rem(sext(y, w))?) as u128 & m,
        Op::Shl => {
            if y >= w as u128 {
                return None;
            }
            (x << y) & m
        }
        Op::LShr => {
            if y >= w as u128 {
                return None;
            }
            x >> y
        }
        Op::AShr => {
            if y >= w as u128 {
                return None;
            }
            ((sext(x, w) >> y) as u128) & m
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!(),
    })
}

#[derive(Default)]
pub struct Arena {
    pub n: Vec<Node>,
    pub vars: Vec<u128>, // mask of symbolic inputs
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    smemo: Vec<(u32, E)>,
    sepoch: u32,
    skey: (u128, Vec<u128>),
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}

impl Arena {
    fn raw(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.n.len() as E;
        let v = match n.op {
            Op::Const => 0,
            Op::Sym => 1u128 << (n.k.min(127) as u32),
            _ => {
                let mut v = self.vars[n.a as usize];
                v |= self.vars[n.b as usize];
                if n.op == Op::Ite {
                    v |= self.vars[n.c as usize];
                }
                v
            }
        };
        self.n.push(n);
        self.vars.push(v);
        self.memo.push((0, 0));
        self.smemo.push((0, 0));
        self.map.insert(n, e);
        e
    }
    pub fn k(&mut self, w: u16, v: u128) -> E {
        self.raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn sym(&mut self, w: u16, id: u32) -> E {
        assert!(id < 128, "too many symbolic inputs");
        self.raw(Node { op: Op::Sym, w, a: 0, b: 0, c: 0, k: id as u128 })
    }
    pub fn w(&self, e: E) -> u16 {
        self.n[e as usize].w
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn ite_consts(&self, e: E) -> Option<(E, u128, u128)> {
        let n = self.n[e as usize];
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) {
                return Some((n.a, x, y));
            }
        }
        None
    }
    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let m = self.k(w, u128::MAX);
        self.bin(Op::Xor, e, m)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let is_cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if is_cmp { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = bin(op, w, x, y) {
                return self.k(rw, v);
            }
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        // constants pushed into an ite of constants
        if let (Some((c, x, y)), Some(z)) = (self.ite_consts(a), cb) {
            if let (Some(p), Some(q)) = (bin(op, w, x, z), bin(op, w, y, z)) {
                let p = self.k(rw, p);
                let q = self.k(rw, q);
                return self.ite(c, p, q);
            }
        }
        if let (Some((c, x, y)), Some(z)) = (self.ite_consts(b), ca) {
            if let (Some(p), Some(q)) = (bin(op, w, z, x), bin(op, w, z, y)) {
                let p = self.k(rw, p);
                let q = self.k(rw, q);
                return self.ite(c, p, q);
            }
        }
        if let Some(r) = self.narrow(op, w, a, b) {
            return r;
        }
        if matches!(op, Op::And | Op::Or | Op::Xor) && self.n[a as usize].op == Op::ZExt {
            let x = self.n[a as usize].a;
            let iw = self.w(x);
            let nb = self.n[b as usize];
            if nb.op == Op::ZExt && self.w(nb.a) == iw {
                let r = self.bin(op, x, nb.a);
                return self.zext(r, w);
            }
            if let Some(y) = cb {
                if op == Op::And || y <= mask(iw) {
                    let kk = self.k(iw, y);
                    let r = self.bin(op, x, kk);
                    return self.zext(r, w);
                }
            }
        }
        match op {
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y != mask(w) && y != 0 && (y & (y + 1)) == 0 {
                        let x = self.extract(a, 0, y.count_ones() as u16);
                        return self.zext(x, w);
                    }
                    if y == 0 {
                        return b;
                    }
                    if y == mask(w) {
                        return a;
                    }
                }
                if w == 1 && (self.is_not(a) == Some(b) || self.is_not(b) == Some(a)) {
                    return self.k(1, 0);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == mask(w) {
                        return b;
                    }
                }
                if w == 1 && (self.is_not(a) == Some(b) || self.is_not(b) == Some(a)) {
                    return self.k(1, 1);
                }
            }
            Op::Xor => {
                if a == b {
                    return self.k(w, 0);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let na = self.n[a as usize];
                    if na.op == Op::Xor {
                        if let Some(z) = self.as_const(na.b) {
                            let kk = self.k(w, y ^ z);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if w == 1 && y == 1 {
                        // not(x < y) -> y <= x
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Add => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let na = self.n[a as usize];
                    if na.op == Op::Add {
                        if let Some(z) = self.as_const(na.b) {
                            let kk = self.k(w, y.wrapping_add(z));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.k(w, 0);
                }
                if let Some(y) = cb {
                    let kk = self.k(w, (0u128).wrapping_sub(y));
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::Mul => {
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let s = self.k(w, y.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv | Op::SDiv => {
                if cb == Some(1) {
                    return a;
                }
                if op == Op::UDiv {
                    if let Some(y) = cb {
                        if y.is_power_of_two() {
                            let s = self.k(w, y.trailing_zeros() as u128);
                            return self.bin(Op::LShr, a, s);
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.k(w, y - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y < w as u128 {
                        let y = y as u16;
                        let na = self.n[a as usize];
                        if op == Op::LShr {
                            // as zext(extract)
                            let x = self.extract(a, y, w - y);
                            return self.zext(x, w);
                        }
                        if op == Op::Shl && na.op == Op::Shl {
                            if let Some(z) = self.as_const(na.b) {
                                if (z as u16) + y < w {
                                    let kk = self.k(w, z + y as u128);
                                    return self.bin(Op::Shl, na.a, kk);
                                }
                            }
                        }
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.k(1, 1);
                }
                if let Some(y) = cb {
                    let na = self.n[a as usize];
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if y > mask(iw) {
                                return self.k(1, 0);
                            }
                            let kk = self.k(iw, y);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Add | Op::Xor => {
                            if let Some(z) = self.as_const(na.b) {
                                let v = if na.op == Op::Add { y.wrapping_sub(z) } else { y ^ z };
                                let kk = self.k(w, v);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Shl => {
                            if let Some(z) = self.as_const(na.b) {
                                if z < w as u128 {
                                    if y & ((1u128 << z) - 1) != 0 {
                                        return self.k(1, 0);
                                    }
                                    let x = self.extract(na.a, 0, w - z as u16);
                                    let kk = self.k(w - z as u16, y >> z);
                                    return self.bin(Op::Eq, x, kk);
                                }
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let h = self.k(hw, y >> lw);
                            let l = self.k(lw, y);
                            let e1 = self.bin(Op::Eq, na.a, h);
                            let e2 = self.bin(Op::Eq, na.b, l);
                            return self.bin(Op::And, e1, e2);
                        }
                        Op::Ite => {
                            // one constant arm
                            if let Some(z) = self.as_const(na.b) {
                                let r = self.bin(Op::Eq, na.c, b);
                                let nc = self.not(na.a);
                                return if z == y {
                                    self.bin(Op::Or, na.a, r)
                                } else {
                                    self.bin(Op::And, nc, r)
                                };
                            }
                            if let Some(z) = self.as_const(na.c) {
                                let r = self.bin(Op::Eq, na.b, b);
                                let nc = self.not(na.a);
                                return if z == y {
                                    self.bin(Op::Or, nc, r)
                                } else {
                                    self.bin(Op::And, na.a, r)
                                };
                            }
                        }
                        _ => {}
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) || ca == Some(mask(w)) {
                    return self.k(1, 0);
                }
                if cb == Some(1) {
                    let z = self.k(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if let Some(y) = cb {
                    let na = self.n[a as usize];
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if y > mask(iw) {
                            return self.k(1, 1);
                        }
                        let kk = self.k(iw, y);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                }
                if let Some(x) = ca {
                    let nb = self.n[b as usize];
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if x >= mask(iw) {
                            return self.k(1, 0);
                        }
                        let kk = self.k(iw, x);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || cb == Some(mask(w)) {
                    return self.k(1, 1);
                }
                if let Some(y) = cb {
                    let kk = self.k(w, y + 1);
                    return self.bin(Op::Ult, a, kk);
                }
                if let Some(x) = ca {
                    let kk = self.k(w, x - 1);
                    return self.bin(Op::Ult, kk, b);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.k(1, 0);
                }
            }
            Op::Sle => {
                if a == b {
                    return self.k(1, 1);
                }
            }
            _ => {}
        }
        self.raw(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    /// (unsigned) width that certainly holds e
    fn uw(&self, e: E) -> u16 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => (128 - n.k.leading_zeros() as u16).max(1),
            Op::ZExt => self.w(n.a),
            _ => n.w,
        }
    }
    /// e (which fits in w bits) at width w
    fn at(&mut self, e: E, w: u16) -> E {
        let n = self.n[e as usize];
        if n.w == w {
            return e;
        }
        match n.op {
            Op::Const => self.k(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            _ => unreachable!(),
        }
    }
    /// Operations on zero-extended operands, done at the width they need.
    fn narrow(&mut self, op: Op, w: u16, a: E, b: E) -> Option<E> {
        let (x, y) = (self.uw(a), self.uw(b));
        match op {
            Op::And if x.min(y) < w => {
                let m = x.min(y);
                let p = self.extract(a, 0, m);
                let q = self.extract(b, 0, m);
                let r = self.bin(op, p, q);
                Some(self.zext(r, w))
            }
            Op::Or | Op::Xor if x.max(y) < w => {
                let m = x.max(y);
                let (p, q) = (self.at(a, m), self.at(b, m));
                let r = self.bin(op, p, q);
                Some(self.zext(r, w))
            }
            Op::Add if x.max(y) + 1 < w => {
                // tight width when one side is a constant
                let m = match (self.as_const(a), self.as_const(b)) {
                    (_, Some(k)) => 128 - (mask(x) + k).leading_zeros() as u16,
                    (Some(k), _) => 128 - (mask(y) + k).leading_zeros() as u16,
                    _ => x.max(y) + 1,
                };
                if m >= w {
                    return None;
                }
                let (p, q) = (self.at(a, m), self.at(b, m));
                let r = self.bin(op, p, q);
                Some(self.zext(r, w))
            }
            Op::Mul if x + y < w => {
                let m = x + y;
                let (p, q) = (self.at(a, m), self.at(b, m));
                let r = self.bin(op, p, q);
                Some(self.zext(r, w))
            }
            Op::Shl => {
                let k = self.as_const(b)?;
                if k == 0 || k >= w as u128 {
                    return None;
                }
                let k = k as u16;
                let z = self.k(k, 0);
                if x + k < w {
                    let p = self.at(a, x);
                    let r = self.concat(p, z);
                    Some(self.zext(r, w))
                } else {
                    let p = self.extract(a, 0, w - k);
                    Some(self.concat(p, z))
                }
            }
            Op::LShr if self.as_const(b).is_none() && x.max(y) < w && w.is_power_of_two() && y <= w.trailing_zeros() as u16 => {
                let m = x.max(y);
                let (p, q) = (self.at(a, m), self.at(b, m));
                let r = self.bin(op, p, q);
                Some(self.zext(r, w))
            }
            Op::Eq | Op::Ult | Op::Ule if x.max(y) < w => {
                let m = x.max(y);
                let (p, q) = (self.at(a, m), self.at(b, m));
                Some(self.bin(op, p, q))
            }
            Op::Slt | Op::Sle if x.max(y) < w => {
                let m = x.max(y);
                let (p, q) = (self.at(a, m), self.at(b, m));
                Some(self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, p, q))
            }
            _ => None,
        }
    }
    pub fn is_not(&self, e: E) -> Option<E> {
        let n = self.n[e as usize];
        if n.op == Op::Xor && self.as_const(n.b) == Some(mask(n.w)) {
            return Some(n.a);
        }
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(nc) = self.is_not(c) {
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let na = self.n[a as usize];
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n[b as usize];
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.raw(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, e: E, w: u16) -> E {
        let n = self.n[e as usize];
        if n.w == w {
            return e;
        }
        if n.op == Op::Const {
            return self.k(w, n.k);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if let Some((c, x, y)) = self.ite_consts(e) {
            let p = self.k(w, x);
            let q = self.k(w, y);
            return self.ite(c, p, q);
        }
        self.raw(Node { op: Op::ZExt, w, a: e, b: e, c: 0, k: 0 })
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let n = self.n[e as usize];
        if n.w == w {
            return e;
        }
        if n.op == Op::Const {
            return self.k(w, sext(n.k, n.w) as u128);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if let Some((c, x, y)) = self.ite_consts(e) {
            let p = self.k(w, sext(x, n.w) as u128);
            let q = self.k(w, sext(y, n.w) as u128);
            return self.ite(c, p, q);
        }
        self.raw(Node { op: Op::SExt, w, a: e, b: e, c: 0, k: 0 })
    }
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let n = self.n[e as usize];
        if lo == 0 && n.w == w {
            return e;
        }
        match n.op {
            Op::Const => return self.k(w, n.k >> lo),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.k(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Shl => {
                if let Some(z) = self.as_const(n.b) {
                    let z = z as u16;
                    if z < n.w {
                        if lo >= z {
                            return self.extract(n.a, lo - z, w);
                        }
                        if lo + w <= z {
                            return self.k(w, 0);
                        }
                    }
                }
            }
            Op::Ite => {
                if self.ite_consts(e).is_some() || w == 1 || lo == 0 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.raw(Node { op: Op::Extract, w, a: e, b: e, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let nh = self.n[hi as usize];
        let nl = self.n[lo as usize];
        let w = nh.w + nl.w;
        if let (Op::Const, Op::Const) = (nh.op, nl.op) {
            return self.k(w, (nh.k << nl.w) | nl.k);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nl.k as u16 + nl.w == nh.k as u16 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        if nh.op == Op::Extract && nh.a == lo && nh.k as u16 == nl.w {
            return self.extract(nh.a, 0, w);
        }
        self.raw(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn show(&self, e: E) -> String {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Sym => format!("s{}:{}", n.k, n.w),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a), self.show(n.b), self.show(n.c)),
            Op::ZExt => format!("(zext{} {})", n.w, self.show(n.a)),
            Op::SExt => format!("(sext{} {})", n.w, self.show(n.a)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a), n.k, n.w),
            o => format!("({:?} {} {})", o, self.show(n.a), self.show(n.b)),
        }
    }
    /// e with the symbols of `det` replaced by their values.
    pub fn subst(&mut self, e: E, det: u128, model: &[u128]) -> E {
        if self.vars[e as usize] & det == 0 {
            return e;
        }
        let same = self.skey.0 == det && {
            let mut d = det;
            let mut ok = true;
            while d != 0 {
                let i = d.trailing_zeros() as usize;
                d &= d - 1;
                if self.skey.1.get(i) != model.get(i) {
                    ok = false;
                    break;
                }
            }
            ok
        };
        if !same {
            self.sepoch += 1;
            self.skey = (det, model.to_vec());
        }
        self.sub(e, det, model)
    }
    fn sub(&mut self, e: E, det: u128, model: &[u128]) -> E {
        if self.vars[e as usize] & det == 0 {
            return e;
        }
        let (me, mv) = self.smemo[e as usize];
        if me == self.sepoch {
            return mv;
        }
        let n = self.n[e as usize];
        let r = match n.op {
            Op::Const => e,
            Op::Sym => self.k(n.w, model[n.k as usize]),
            Op::Ite => {
                let c = self.sub(n.a, det, model);
                match self.as_const(c) {
                    Some(1) => self.sub(n.b, det, model),
                    Some(_) => self.sub(n.c, det, model),
                    None => {
                        let x = self.sub(n.b, det, model);
                        let y = self.sub(n.c, det, model);
                        self.ite(c, x, y)
                    }
                }
            }
            Op::ZExt => {
                let x = self.sub(n.a, det, model);
                self.zext(x, n.w)
            }
            Op::SExt => {
                let x = self.sub(n.a, det, model);
                self.sext(x, n.w)
            }
            Op::Extract => {
                let x = self.sub(n.a, det, model);
                self.extract(x, n.k as u16, n.w)
            }
            Op::Concat => {
                let x = self.sub(n.a, det, model);
                let y = self.sub(n.b, det, model);
                self.concat(x, y)
            }
            op => {
                let x = self.sub(n.a, det, model);
                let y = self.sub(n.b, det, model);
                self.bin(op, x, y)
            }
        };
        self.smemo[e as usize] = (self.sepoch, r);
        r
    }
    /// Value of e under a model (symbol id -> value).
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        self.epoch += 1;
        let ep = self.epoch;
        self.ev(e, model, ep)
    }
    fn ev(&mut self, e: E, model: &[u128], ep: u32) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Sym => return model.get(n.k as usize).copied().unwrap_or(0),
            _ => {}
        }
        let (me, mv) = self.memo[e as usize];
        if me == ep {
            return mv;
        }
        let v = match n.op {
            Op::Ite => {
                if self.ev(n.a, model, ep) == 1 {
                    self.ev(n.b, model, ep)
                } else {
                    self.ev(n.c, model, ep)
                }
            }
            Op::ZExt => self.ev(n.a, model, ep),
            Op::SExt => {
                let aw = self.w(n.a);
                (sext(self.ev(n.a, model, ep), aw) as u128) & mask(n.w)
            }
            Op::Extract => (self.ev(n.a, model, ep) >> n.k as u32) & mask(n.w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, model, ep) << lw) | self.ev(n.b, model, ep)
            }
            op => {
                let aw = self.w(n.a);
                let x = self.ev(n.a, model, ep);
                let y = self.ev(n.b, model, ep);
                match bin(op, aw, x, y) {
                    Some(v) => v,
                    // SMT-LIB semantics of the undefined cases
                    None => match op {
                        Op::UDiv => mask(aw),
                        Op::SDiv => {
                            if sext(x, aw) < 0 {
                                1
                            } else {
                                mask(aw)
                            }
                        }
                        Op::URem | Op::SRem => x,
                        Op::AShr => {
                            if sext(x, aw) < 0 {
                                mask(aw)
                            } else {
                                0
                            }
                        }
                        _ => 0,
                    },
                }
            }
        };
        self.memo[e as usize] = (ep, v);
        v
    }
}
