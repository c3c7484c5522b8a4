//! Hash-consed bit-vector expressions with local simplification.
use crate::ir::mask;
use crate::fx::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt, App,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub type Model = HashMap<u32, u128>;

pub struct Pool {
    pub n: Vec<Node>,
    pub umax: Vec<u128>,
    map: HashMap<Node, E>,
    xmemo: HashMap<(E, u16, u16), E>,
    vars: HashMap<E, Rc<Vec<u32>>>,
    pub var_names: Vec<(String, u32)>, // (input name, byte index)
    pub apps: Vec<(u32, Vec<E>)>,      // uninterpreted applications: (function id, args)
    pub fn_names: Vec<String>,
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x >= 0 { m } else { 1 } } else { x.wrapping_div(y) as u128 }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = b.min(127) as u32; (sx(a, w) >> s) as u128 }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }) & m
}

impl Pool {
    pub fn new() -> Self {
        Pool { n: vec![], umax: vec![], map: HashMap::default(), xmemo: HashMap::default(), vars: HashMap::default(), var_names: vec![], apps: vec![], fn_names: vec![] }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let nd = Node { op, w: w as u16, a, b, c, k };
        if let Some(e) = self.map.get(&nd) { return *e; }
        let e = self.n.len() as E;
        let m = mask(w);
        let um = match op {
            Op::Const => k,
            Op::ZExt => self.umax[a as usize],
            Op::Extract => if k == 0 { self.umax[a as usize].min(m) } else { (self.umax[a as usize] >> (k as u32).min(127)).min(m) },
            Op::And => self.umax[a as usize].min(self.umax[b as usize]),
            Op::Or | Op::Xor => {
                let x = self.umax[a as usize] | self.umax[b as usize];
                if x == 0 { 0 } else { (u128::MAX >> x.leading_zeros()).min(m) }
            }
            Op::Add => {
                let (x, o) = self.umax[a as usize].overflowing_add(self.umax[b as usize]);
                if o || x > m { m } else { x }
            }
            Op::Mul => {
                let (x, o) = self.umax[a as usize].overflowing_mul(self.umax[b as usize]);
                if o || x > m { m } else { x }
            }
            Op::LShr => if self.isc(b) { let s = self.k(b); if s >= 128 { 0 } else { self.umax[a as usize] >> s } } else { self.umax[a as usize] },
            Op::Shl => if self.isc(b) && self.k(b) < 128 {
                let s = self.k(b) as u32;
                let x = self.umax[a as usize];
                if x.leading_zeros() >= s && (x << s) <= m { x << s } else { m }
            } else { m },
            Op::UDiv => if self.isc(b) && self.k(b) != 0 { self.umax[a as usize] / self.k(b) } else { m },
            Op::URem => if self.isc(b) && self.k(b) != 0 { self.umax[a as usize].min(self.k(b) - 1) } else { m },
            Op::Ite => self.umax[b as usize].max(self.umax[c as usize]),
            Op::Concat => { let wb = self.n[b as usize].w as u32; if wb >= 128 { m } else { (self.umax[a as usize] << wb) | self.umax[b as usize] } }
            _ => m,
        };
        self.n.push(nd);
        self.umax.push(um);
        self.map.insert(nd, e);
        e
    }
    pub fn w(&self, e: E) -> u32 { self.n[e as usize].w as u32 }
    pub fn op(&self, e: E) -> Op { self.n[e as usize].op }
    pub fn isc(&self, e: E) -> bool { self.n[e as usize].op == Op::Const }
    pub fn k(&self, e: E) -> u128 { self.n[e as usize].k }
    pub fn cv(&self, e: E) -> Option<u128> { if self.isc(e) { Some(self.k(e)) } else { None } }
    pub fn konst(&mut self, v: u128, w: u32) -> E { self.mk(Op::Const, w, 0, 0, 0, v & mask(w)) }
    pub fn var(&mut self, name: &str, idx: u32, w: u32) -> E {
        let id = self.var_names.len();
        self.var_names.push((name.to_string(), idx));
        self.mk(Op::Var, w, 0, 0, 0, id as u128)
    }
    /// Re-use the variable with a given id (so every path sees the same inputs).
    pub fn var_id(&mut self, id: u32, w: u32) -> E { self.mk(Op::Var, w, 0, 0, 0, id as u128) }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let o = self.konst(mask(w), w);
        self.bin(Op::Xor, a, o)
    }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Op::Eq, a, b) }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }
    pub fn is_true(&self, e: E) -> bool { self.w(e) == 1 && self.cv(e) == Some(1) }

    /// `e` as `x * c` for a constant `c`, when that product cannot wrap.
    fn scaled(&self, e: E) -> Option<(E, u128)> {
        let n = self.n[e as usize];
        if n.op != Op::Mul { return None; }
        let c = self.cv(n.b)?;
        if c == 0 { return None; }
        match self.umax[n.a as usize].checked_mul(c) { Some(v) if v <= mask(n.w as u32) => Some((n.a, c)), _ => None }
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let wi = self.w(a);
        debug_assert_eq!(wi, self.w(b), "{:?}", op);
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => wi };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let v = match op {
                Op::Eq => (x == y) as u128,
                Op::Ult => (x < y) as u128,
                Op::Ule => (x <= y) as u128,
                Op::Slt => (sx(x, wi) < sx(y, wi)) as u128,
                Op::Sle => (sx(x, wi) <= sx(y, wi)) as u128,
                _ => fold(op, wi, x, y),
            };
            return self.konst(v, rw);
        }
        // commutative: constant to the right
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if self.isc(a) || (!self.isc(b) && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let m = mask(wi);
        let ka = self.cv(a);
        let kb = self.cv(b);
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    let na = self.n[a as usize];
                    if na.op == Op::Add { if let Some(k2) = self.cv(na.b) { let s = self.konst(k.wrapping_add(k2), wi); return self.bin(Op::Add, na.a, s); } }
                }
            }
            Op::Sub => {
                if kb == Some(0) { return a; }
                if a == b { return self.konst(0, wi); }
                if let Some(k) = kb { let nk = self.konst(0u128.wrapping_sub(k), wi); return self.bin(Op::Add, a, nk); }
            }
            Op::Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
                if let Some(k) = kb { if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, wi); return self.bin(Op::Shl, a, s); } }
            }
            Op::And => {
                if kb == Some(0) { return b; }
                if kb == Some(m) { return a; }
                if a == b { return a; }
                if let Some(k) = kb {
                    // low mask covering everything
                    if (k & (k.wrapping_add(1))) == 0 && self.umax[a as usize] <= k { return a; }
                    if (k & (k.wrapping_add(1))) == 0 && k != 0 {
                        let nb = 128 - k.leading_zeros();
                        if nb < wi { let x = self.extract(a, 0, nb); return self.zext(x, wi); }
                    }
                    let na = self.n[a as usize];
                    if na.op == Op::And { if let Some(k2) = self.cv(na.b) { let s = self.konst(k & k2, wi); return self.bin(Op::And, na.a, s); } }
                }
            }
            Op::Or => {
                if kb == Some(0) { return a; }
                if kb == Some(m) { return b; }
                if a == b { return a; }
                // or of disjoint zext/shl -> concat (byte assembly)
                if let Some(r) = self.or_concat(a, b) { return r; }
                if let Some(r) = self.or_concat(b, a) { return r; }
            }
            Op::Xor => {
                if kb == Some(0) { return a; }
                if a == b { return self.konst(0, wi); }
                if let Some(k) = kb {
                    let na = self.n[a as usize];
                    if na.op == Op::Xor { if let Some(k2) = self.cv(na.b) { let s = self.konst(k ^ k2, wi); return self.bin(Op::Xor, na.a, s); } }
                    if wi == 1 && k == 1 {
                        // negate comparisons
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl | Op::LShr => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if k >= wi as u128 { return self.konst(0, wi); }
                    let k = k as u32;
                    if op == Op::LShr {
                        let x = self.extract(a, k, wi - k);
                        return self.zext(x, wi);
                    } else {
                        let x = self.extract(a, 0, wi - k);
                        let z = self.konst(0, k);
                        return self.concat(x, z);
                    }
                }
                if ka == Some(0) { return a; }
            }
            Op::AShr => { if kb == Some(0) { return a; } }
            Op::UDiv => { if kb == Some(1) { return a; }
                if let Some(k) = kb { if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, wi); return self.bin(Op::LShr, a, s); } } }
            Op::URem => {
                if kb == Some(1) { return self.konst(0, wi); }
                if let Some(k) = kb { if k.is_power_of_two() { let s = self.konst(k - 1, wi); return self.bin(Op::And, a, s); }
                    if self.umax[a as usize] < k { return a; } }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if let Some(k) = kb {
                    if k > self.umax[a as usize] { return self.konst(0, 1); }
                    if wi == 1 { return if k == 1 { a } else { self.not(a) }; }
                    let na = self.n[a as usize];
                    if k == 0 && na.op == Op::Extract && na.k as u32 + wi == self.w(na.a) {
                        // the high part of a product that does not wrap: x * c < 2^lo
                        if let Some((x, c)) = self.scaled(na.a) {
                            let kk = self.konst((1u128 << na.k).div_ceil(c), self.w(x));
                            return self.bin(Op::Ult, x, kk);
                        }
                    }
                    match na.op {
                        Op::ZExt => {
                            let wa = self.w(na.a);
                            if k > mask(wa) { return self.konst(0, 1); }
                            let kk = self.konst(k, wa);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let wa = self.w(na.a);
                            let t = k & mask(wa);
                            if (sx(t, wa) as u128) & m != k { return self.konst(0, 1); }
                            let kk = self.konst(t, wa);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Concat => {
                            let wl = self.w(na.b);
                            let wh = self.w(na.a);
                            let kh = self.konst(k >> wl, wh);
                            let kl = self.konst(k & mask(wl), wl);
                            let e1 = self.bin(Op::Eq, na.a, kh);
                            if self.cv(e1) == Some(0) { return e1; }
                            let e2 = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, e1, e2);
                        }
                        Op::Add => { if let Some(k2) = self.cv(na.b) { let kk = self.konst(k.wrapping_sub(k2), wi); return self.bin(Op::Eq, na.a, kk); } }
                        Op::Xor => { if let Some(k2) = self.cv(na.b) { let kk = self.konst(k ^ k2, wi); return self.bin(Op::Eq, na.a, kk); } }
                        Op::Ite => {
                            if let (Some(x), Some(y)) = (self.cv(na.b), self.cv(na.c)) {
                                return match (x == k, y == k) {
                                    (true, true) => self.konst(1, 1),
                                    (true, false) => na.a,
                                    (false, true) => self.not(na.a),
                                    (false, false) => self.konst(0, 1),
                                };
                            }
                            if self.cv(na.b).is_some() || self.cv(na.c).is_some() {
                                let kk = self.konst(k, wi);
                                let x = self.bin(Op::Eq, na.b, kk);
                                let y = self.bin(Op::Eq, na.c, kk);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                }
                let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                    let e1 = self.bin(Op::Eq, na.a, nb.a);
                    if self.cv(e1) == Some(0) { return e1; }
                    let e2 = self.bin(Op::Eq, na.b, nb.b);
                    return self.bin(Op::And, e1, e2);
                }
            }
            Op::Ult => {
                if a == b { return self.konst(0, 1); }
                let na = self.n[a as usize];
                if na.op == Op::Add && (na.a == b || na.b == b) && self.umax[na.a as usize].checked_add(self.umax[na.b as usize]).is_some_and(|v| v <= m) { return self.konst(0, 1); }
                if let Some(k) = kb {
                    if k == 0 { return self.konst(0, 1); }
                    if self.umax[a as usize] < k { return self.konst(1, 1); }
                    if k == 1 { let z = self.konst(0, wi); return self.bin(Op::Eq, a, z); }
                    let na = self.n[a as usize];
                    if na.op == Op::ZExt { let wa = self.w(na.a); if k <= mask(wa) { let kk = self.konst(k, wa); return self.bin(Op::Ult, na.a, kk); } }
                    if let Some((x, c)) = self.scaled(a) { let kk = self.konst(k.div_ceil(c), wi); return self.bin(Op::Ult, x, kk); }
                }
                if let Some(k) = ka {
                    if k >= self.umax[b as usize] { return self.konst(0, 1); }
                    let nb = self.n[b as usize];
                    if nb.op == Op::ZExt { let wb = self.w(nb.a); if k <= mask(wb) { let kk = self.konst(k, wb); return self.bin(Op::Ult, kk, nb.a); } }
                    if let Some((x, c)) = self.scaled(b) { let kk = self.konst(k / c, wi); return self.bin(Op::Ult, kk, x); }
                    if k == 0 { let z = self.konst(0, wi); let e = self.bin(Op::Eq, b, z); return self.not(e); }
                }
            }
            Op::Ule => {
                if a == b { return self.konst(1, 1); }
                if let Some(k) = kb {
                    if self.umax[a as usize] <= k { return self.konst(1, 1); }
                    let k1 = self.konst(k + 1, wi);
                    return self.bin(Op::Ult, a, k1);
                }
                if let Some(k) = ka {
                    if k == 0 { return self.konst(1, 1); }
                    let k1 = self.konst(k - 1, wi);
                    return self.bin(Op::Ult, k1, b);
                }
            }
            Op::Slt => {
                if a == b { return self.konst(0, 1); }
                let half = 1u128 << (wi - 1);
                if self.umax[a as usize] < half && self.umax[b as usize] < half { return self.bin(Op::Ult, a, b); }
            }
            Op::Sle => {
                if a == b { return self.konst(1, 1); }
                let half = 1u128 << (wi - 1);
                if self.umax[a as usize] < half && self.umax[b as usize] < half { return self.bin(Op::Ule, a, b); }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0, 0)
    }
    // a = zext(x) (or fits in the low s bits), b = concat(y, 0_s)  ->  concat(y, extract(a,0,s))
    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        let nb = self.n[b as usize];
        if nb.op == Op::Concat && self.cv(nb.b) == Some(0) {
            let s = self.w(nb.b);
            if self.umax[a as usize] <= mask(s) {
                let lo = self.extract(a, 0, s);
                return Some(self.concat(nb.a, lo));
            }
        }
        if nb.op == Op::ZExt {
            // zext(concat(y,0_s)) | a(small)
            let ni = self.n[nb.a as usize];
            if ni.op == Op::Concat && self.cv(ni.b) == Some(0) {
                let s = self.w(ni.b);
                if self.umax[a as usize] <= mask(s) {
                    let lo = self.extract(a, 0, s);
                    let w = self.w(b);
                    let c = self.concat(ni.a, lo);
                    return Some(self.zext(c, w));
                }
            }
        }
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cv(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => { let n = self.not(c); return self.and(n, b); }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        if w > 1 && self.cv(a) == Some(1) && self.cv(b) == Some(0) { return self.zext(c, w); }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        if matches!(self.n[e as usize].op, Op::Const | Op::Var) { return self.extract1(e, lo, w); }
        let k = (e, lo as u16, w as u16);
        if let Some(r) = self.xmemo.get(&k) { return *r; }
        let r = self.extract1(e, lo, w);
        self.xmemo.insert(k, r);
        r
    }
    fn extract1(&mut self, e: E, lo: u32, w: u32) -> E {
        let we = self.w(e);
        debug_assert!(lo + w <= we);
        if lo == 0 && w == we { return e; }
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl { return self.extract(n.b, lo, w); }
                if lo >= wl { return self.extract(n.a, lo - wl, w); }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi { return self.konst(0, w); }
                if lo + w <= wi { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi { return self.extract(n.a, lo, w); }
            }
            Op::And | Op::Or | Op::Xor => {
                // push through bitwise ops when one side is constant
                if self.isc(n.b) || lo == 0 && w <= 8 {
                    let a = self.extract(n.a, lo, w);
                    let b = self.extract(n.b, lo, w);
                    return self.bin(n.op, a, b);
                }
            }
            Op::Ite => {
                if self.isc(n.b) || self.isc(n.c) {
                    let a = self.extract(n.b, lo, w);
                    let b = self.extract(n.c, lo, w);
                    return self.ite(n.a, a, b);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w % 8 == 0 && [n.a, n.b].iter().any(|x| matches!(self.n[*x as usize].op, Op::Const | Op::ZExt | Op::SExt | Op::Concat)) => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                return self.bin(n.op, a, b);
            }
            _ => {}
        }
        if lo < 128 && self.umax[e as usize] >> lo == 0 { return self.konst(0, w); }
        self.mk(Op::Extract, w, e, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) { return self.konst((a << wl) | b, wh + wl); }
        if self.cv(h) == Some(0) { return self.zext(l, wh + wl); }
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
            return self.extract(nh.a, nl.k as u32, wh + wl);
        }
        if nh.op == Op::Extract && nh.a == l && nh.k == wl as u128 {
            return self.extract(nh.a, 0, wh + wl);
        }
        // the low part may have been rewritten on extraction
        if nh.op == Op::Extract && nh.k >= wl as u128 && nl.op != Op::Concat && matches!(self.n[nh.a as usize].op, Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Ite) {
            let lo = nh.k as u32 - wl;
            if self.extract(nh.a, lo, wl) == l { return self.extract(nh.a, lo, wh + wl); }
        }
        // canonical right-nested: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if nh.op == Op::Concat {
            let x = self.concat(nh.b, l);
            return self.concat(nh.a, x);
        }
        // merge concat(ext1, concat(ext2, r))
        if nl.op == Op::Concat && nh.op == Op::Extract {
            let n2 = self.n[nl.a as usize];
            let w2 = self.w(nl.a);
            if n2.op == Op::Extract && n2.a == nh.a && nh.k == n2.k + w2 as u128 {
                let x = self.extract(nh.a, n2.k as u32, wh + w2);
                return self.concat(x, nl.b);
            }
        }
        if nl.op == Op::Concat {
            if let (Some(a), Some(b)) = (self.cv(h), self.cv(nl.a)) {
                let w2 = self.w(nl.a);
                let x = self.konst((a << w2) | b, wh + w2);
                return self.concat(x, nl.b);
            }
        }
        self.mk(Op::Concat, wh + wl, h, l, 0, 0)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w { return e; }
        if let Some(k) = self.cv(e) { return self.konst(k, w); }
        let n = self.n[e as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::Add && self.n[n.a as usize].op == Op::ZExt && self.n[n.b as usize].op == Op::ZExt
            && self.umax[n.a as usize].checked_add(self.umax[n.b as usize]).is_some_and(|v| v <= mask(we)) {
            // a sum that does not wrap: one form whatever width it was made in
            let (x, y) = (self.zext(n.a, w), self.zext(n.b, w));
            return self.bin(Op::Add, x, y);
        }
        self.mk(Op::ZExt, w, e, 0, 0, 0)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w { return e; }
        if let Some(k) = self.cv(e) { return self.konst(sx(k, we) as u128, w); }
        if self.umax[e as usize] < (1u128 << (we - 1)) { return self.zext(e, w); }
        self.mk(Op::SExt, w, e, 0, 0, 0)
    }
    pub fn app(&mut self, f: &str, args: Vec<E>, w: u32) -> E {
        let fid = match self.fn_names.iter().position(|x| x == f) {
            Some(i) => i,
            None => { self.fn_names.push(f.to_string()); self.fn_names.len() - 1 }
        } as u32;
        let id = match self.apps.iter().position(|(g, a)| *g == fid && *a == args) {
            Some(i) => i,
            None => { self.apps.push((fid, args)); self.apps.len() - 1 }
        };
        self.mk(Op::App, w, 0, 0, 0, id as u128)
    }

    pub fn vars(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars.get(&e) { return v.clone(); }
        // iterative over shared dag
        let mut seen = std::collections::HashSet::new();
        let mut out = std::collections::BTreeSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            if x != e { if let Some(v) = self.vars.get(&x) { out.extend(v.iter().copied()); continue; } }
            let n = self.n[x as usize];
            match n.op {
                Op::Const => {}
                Op::Var => { out.insert(n.k as u32); }
                Op::App => { out.insert(0x8000_0000); for a in &self.apps[n.k as usize].1 { st.push(*a); } }
                Op::Ite => { st.push(n.a); st.push(n.b); st.push(n.c); }
                Op::Extract | Op::ZExt | Op::SExt => st.push(n.a),
                _ => { st.push(n.a); st.push(n.b); }
            }
        }
        let r = Rc::new(out.into_iter().collect::<Vec<_>>());
        self.vars.insert(e, r.clone());
        r
    }

    /// Evaluate under a model (missing vars are 0). Apps are looked up by 0x4000_0000|id (default 0).
    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
        if let Some(k) = self.cv(e) { return k; }
        if let Some(v) = memo.get(&e) { return *v; }
        let mut st: Vec<(E, bool)> = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if memo.contains_key(&x) { continue; }
            let n = self.n[x as usize];
            let g = |memo: &HashMap<E, u128>, y: E| if self.n[y as usize].op == Op::Const { self.n[y as usize].k } else { memo[&y] };
            let w = n.w as u32;
            match n.op {
                Op::Const => { memo.insert(x, n.k); }
                Op::Var => { memo.insert(x, *m.get(&(n.k as u32)).unwrap_or(&0)); }
                Op::App => { memo.insert(x, *m.get(&(0x4000_0000 | n.k as u32)).unwrap_or(&0)); }
                _ => {
                    if !done {
                        st.push((x, true));
                        match n.op {
                            Op::Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)); }
                            Op::Extract | Op::ZExt | Op::SExt => st.push((n.a, false)),
                            _ => { st.push((n.a, false)); st.push((n.b, false)); }
                        }
                    } else {
                        let a = g(memo, n.a);
                        let v = match n.op {
                            Op::Ite => if a == 1 { g(memo, n.b) } else { g(memo, n.c) },
                            Op::Extract => (a >> n.k) & mask(w),
                            Op::ZExt => a,
                            Op::SExt => (sx(a, self.w(n.a)) as u128) & mask(w),
                            Op::Concat => (a << self.w(n.b)) | g(memo, n.b),
                            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => fold_cmp(n.op, self.w(n.a), a, g(memo, n.b)),
                            op => fold(op, w, a, g(memo, n.b)),
                        };
                        memo.insert(x, v);
                    }
                }
            }
        }
        memo[&e]
    }
}

pub fn fold_cmp(op: Op, w: u32, a: u128, b: u128) -> u128 {
    (match op {
        Op::Eq => a == b,
        Op::Ult => a < b,
        Op::Ule => a <= b,
        Op::Slt => sx(a, w) < sx(b, w),
        Op::Sle => sx(a, w) <= sx(b, w),
        _ => unreachable!(),
    }) as u128
}
