//! hash-consed bit-vector terms (width 1..=128; constants wider than 64 bits are
//! concatenations)
use crate::fx::Map;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u32, pub a: T, pub b: T, pub c: T, pub k: u64 }

pub struct Terms {
    pub n: Vec<Node>,
    map: Map<Node, T>,
    pub vars: Vec<(String, u32, T)>, // name, width, term
    memo: Vec<(u32, u128)>,
    gen: u32,
    pub model: Vec<u64>, // per var
}
pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn mask128(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
fn sx(v: u64, w: u32) -> i64 { let s = 64 - w; ((v << s) as i64) >> s }
fn sx128(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }

impl Terms {
    pub fn new() -> Self {
        Terms { n: vec![], map: Default::default(), vars: vec![], memo: vec![], gen: 1, model: vec![] }
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(t) = self.map.get(&n) { return *t }
        let t = self.n.len() as T;
        self.n.push(n);
        self.memo.push((0, 0));
        self.map.insert(n, t);
        t
    }
    pub fn w(&self, t: T) -> u32 { self.n[t as usize].w }
    pub fn k(&mut self, w: u32, v: u64) -> T {
        assert!(w <= 64 && w > 0);
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn k128(&mut self, w: u32, v: u128) -> T {
        if w <= 64 { return self.k(w, v as u64) }
        let lo = self.k(64, v as u64);
        let hi = self.k(w - 64, (v >> 64) as u64);
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn konst(&self, t: T) -> Option<u64> {
        let n = &self.n[t as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn konst128(&self, t: T) -> Option<u128> {
        let n = &self.n[t as usize];
        match n.op {
            Op::Const => Some(n.k as u128),
            Op::Concat => { let (a, b) = (n.a, n.b); let wb = self.w(b); Some((self.konst128(a)? << wb) | self.konst128(b)?) }
            _ => None,
        }
    }
    pub fn var(&mut self, name: &str, w: u32) -> T {
        let id = self.vars.len() as u64;
        let t = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id });
        self.vars.push((name.to_string(), w, t));
        self.model.push(0);
        t
    }
    pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
        // w: width of operands
        let m = mask128(w);
        match op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Sub => a.wrapping_sub(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => if b == 0 { m } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => { let (x, y) = (sx128(a, w), sx128(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
            Op::SRem => { let (x, y) = (sx128(a, w), sx128(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
            Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => { let x = sx128(a, w); ((if b >= w as u128 { if x < 0 { -1 } else { 0 } } else { x >> b }) as u128) & m }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sx128(a, w) < sx128(b, w)) as u128,
            Op::Sle => (sx128(a, w) <= sx128(b, w)) as u128,
            _ => unreachable!(),
        }
    }
    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
        if let (Some(x), Some(y)) = (self.konst128(a), self.konst128(b)) {
            let r = Self::fold(op, w, x, y);
            return self.k128(rw, r);
        }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (self.konst128(a).is_some() || (self.konst128(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b)
        }
        let kb = self.konst128(b);
        let ones = mask128(w);
        match op {
            Op::Add | Op::Sub | Op::Shl | Op::LShr | Op::AShr | Op::Or | Op::Xor if kb == Some(0) => return a,
            Op::And if kb == Some(0) => return b,
            Op::And if kb == Some(ones) => return a,
            Op::Or if kb == Some(ones) => return b,
            Op::Mul if kb == Some(1) => return a,
            Op::Mul if kb == Some(0) => return b,
            Op::And | Op::Or if a == b => return a,
            Op::Xor | Op::Sub if a == b => return self.k128(w, 0),
            Op::Eq | Op::Ule | Op::Sle if a == b => return self.k(1, 1),
            Op::Ult | Op::Slt if a == b => return self.k(1, 0),
            Op::Ult if kb == Some(0) => return self.k(1, 0),
            Op::Eq if w == 1 && kb == Some(1) => return a,
            Op::Eq if w == 1 && kb == Some(0) => return self.not(a),
            _ => {}
        }
        if op == Op::Xor && w == 1 && kb == Some(1) { return self.not(a) }
        if op == Op::Add {
            // (x + k1) + k2
            let n = self.n[a as usize];
            if let (Some(k2), Op::Add) = (kb, n.op) {
                if let Some(k1) = self.konst128(n.b) {
                    let k = self.k128(w, k1.wrapping_add(k2) & ones);
                    return self.bin(Op::Add, n.a, k);
                }
            }
        }
        if op == Op::Sub {
            if let Some(k) = kb { let k = self.k128(w, (0u128.wrapping_sub(k)) & ones); return self.bin(Op::Add, a, k) }
        }
        if let (Op::Eq | Op::Ult, Some(k)) = (op, kb) {
            let n = self.n[a as usize];
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if k > mask128(iw) { return self.k(1, (op == Op::Ult) as u64) }
                    let kk = self.k128(iw, k);
                    return self.bin(op, n.a, kk);
                }
                Op::Ite => {
                    if self.konst128(n.b).is_some() || self.konst128(n.c).is_some() {
                        let x = self.bin(op, n.b, b);
                        let y = self.bin(op, n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::Xor if op == Op::Eq => if let Some(k1) = self.konst128(n.b) { let kk = self.k128(w, k ^ k1); return self.bin(op, n.a, kk) },
                Op::Add if op == Op::Eq => if let Some(k1) = self.konst128(n.b) { let kk = self.k128(w, k.wrapping_sub(k1) & ones); return self.bin(op, n.a, kk) },
                Op::Concat if op == Op::Eq => {
                    let wl = self.w(n.b);
                    let (kh, kl) = (k >> wl, k & mask128(wl));
                    let (wh, wl) = (self.w(n.a), wl);
                    let (kh, kl) = (self.k128(wh, kh), self.k128(wl, kl));
                    let x = self.bin(Op::Eq, n.a, kh);
                    if self.konst(x) == Some(0) { return x }
                    let y = self.bin(Op::Eq, n.b, kl);
                    return self.bin(Op::And, x, y);
                }
                _ => {}
            }
        }
        if let (Op::And, Some(k)) = (op, kb) {
            let n = self.n[a as usize];
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                let kk = self.k128(iw, k & mask128(iw));
                let x = self.bin(Op::And, n.a, kk);
                return self.zext(x, w);
            }
        }
        if let (Op::LShr, Some(k)) = (op, kb) {
            if k < w as u128 && w <= 64 { let e = self.extract(a, w - 1, k as u32); return self.zext(e, w) }
        }
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    pub fn not(&mut self, a: T) -> T {
        debug_assert_eq!(self.w(a), 1);
        if let Some(k) = self.konst(a) { return self.k(1, 1 - k) }
        let n = self.n[a as usize];
        if n.op == Op::Xor && self.konst(n.b) == Some(1) { return n.a }
        let o = self.k(1, 1);
        self.mk(Node { op: Op::Xor, w: 1, a, b: o, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.konst(c) { return if k == 1 { a } else { b } }
        if a == b { return a }
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let x = self.not(c); return self.bin(Op::And, x, b) }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let x = self.not(c); return self.bin(Op::Or, x, a) }
                _ => {}
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w { return a }
        if let Some(k) = self.konst128(a) { return self.k128(w, k) }
        let n = self.n[a as usize];
        if n.op == Op::ZExt { return self.mk(Node { op: Op::ZExt, w, a: n.a, b: 0, c: 0, k: 0 }) }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w { return a }
        if let Some(k) = self.konst128(a) { let v = sx128(k, aw) as u128 & mask128(w); return self.k128(w, v) }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: T, hi: u32, lo: u32) -> T {
        let aw = self.w(a);
        if lo == 0 && hi == aw - 1 { return a }
        let w = hi - lo + 1;
        if let Some(k) = self.konst128(a) { return self.k128(w, (k >> lo) & mask128(w)) }
        let n = self.n[a as usize];
        match n.op {
            Op::Concat => {
                let wl = self.w(n.b);
                if hi < wl { return self.extract(n.b, hi, lo) }
                if lo >= wl { return self.extract(n.a, hi - wl, lo - wl) }
                let h = self.extract(n.a, hi - wl, 0);
                let l = self.extract(n.b, wl - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if hi < iw { return self.extract(n.a, hi, lo) }
                if lo >= iw { return self.k128(w, 0) }
                let e = self.extract(n.a, iw - 1, lo);
                return self.zext(e, w);
            }
            Op::SExt => { let iw = self.w(n.a); if hi < iw { return self.extract(n.a, hi, lo) } }
            Op::Extract => { let l0 = n.k as u32; return self.extract(n.a, hi + l0, lo + l0) }
            Op::And | Op::Or | Op::Xor if self.konst128(n.b).is_some() => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Op::Ite if self.konst128(n.b).is_some() || self.konst128(n.c).is_some() => {
                let x = self.extract(n.b, hi, lo);
                let y = self.extract(n.c, hi, lo);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u64 })
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let w = self.w(h) + self.w(l);
        if let (Some(a), Some(b)) = (self.konst128(h), self.konst128(l)) { let wl = self.w(l); return self.k128(w, (a << wl) | b) }
        if self.konst128(h) == Some(0) { return self.zext(l, w) }
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nl.k as u32 + nl.w == nh.k as u32 {
            return self.extract(nh.a, nh.k as u32 + nh.w - 1, nl.k as u32);
        }
        // extract(x,hi,k) ++ x when x fully below: extract handles full
        if nh.op == Op::Extract && nh.a == l { }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn new_model(&mut self) { self.gen += 1 }
    /// value of `t` under the current model
    pub fn eval(&mut self, t: T) -> u128 {
        let (g, v) = self.memo[t as usize];
        if g == self.gen { return v }
        let mut stack = vec![t];
        while let Some(&t) = stack.last() {
            if self.memo[t as usize].0 == self.gen { stack.pop(); continue }
            let n = self.n[t as usize];
            let v = match n.op {
                Op::Const => n.k as u128,
                Op::Var => self.model[n.k as usize] as u128 & mask128(n.w),
                Op::ZExt | Op::SExt | Op::Extract => {
                    if self.memo[n.a as usize].0 != self.gen { stack.push(n.a); continue }
                    let a = self.memo[n.a as usize].1;
                    match n.op {
                        Op::ZExt => a,
                        Op::SExt => sx128(a, self.w(n.a)) as u128 & mask128(n.w),
                        _ => (a >> n.k) & mask128(n.w),
                    }
                }
                Op::Ite => {
                    if self.memo[n.a as usize].0 != self.gen { stack.push(n.a); continue }
                    let x = if self.memo[n.a as usize].1 == 1 { n.b } else { n.c };
                    if self.memo[x as usize].0 != self.gen { stack.push(x); continue }
                    self.memo[x as usize].1
                }
                _ => {
                    if self.memo[n.a as usize].0 != self.gen { stack.push(n.a); continue }
                    if self.memo[n.b as usize].0 != self.gen { stack.push(n.b); continue }
                    let (a, b) = (self.memo[n.a as usize].1, self.memo[n.b as usize].1);
                    if n.op == Op::Concat { (a << self.w(n.b)) | b } else { Self::fold(n.op, self.w(n.a), a, b) }
                }
            };
            self.memo[t as usize] = (self.gen, v);
            stack.pop();
        }
        self.memo[t as usize].1
    }
}
#[allow(dead_code)]
pub fn sext64(v: u64, w: u32) -> i64 { sx(v, w) }
