//! Hash-consed bit-vector expressions with an on-construction simplifier.
//! Every rewrite is width preserving and valid for all values (two's complement bit-vectors).

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(u128),
    Var(u32),
    /// Uninterpreted array application (array id, index).
    Sel(u32, E),
    Not(E),
    Add(E, E),
    Sub(E, E),
    Mul(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Concat(E, E),
    /// Extract starting at the given bit; the width is the node's.
    Ext(E, u32),
    ZExt(E),
    SExt(E),
    Ite(E, E, E),
}

pub struct Ctx {
    pub n: Vec<N>,
    pub w: Vec<u32>,
    kz: Vec<u128>,
    ko: Vec<u128>,
    map: FxMap<(N, u32), E>,
    /// (name, width) of each variable.
    pub vars: Vec<(String, u32)>,
    varmap: HashMap<String, E>,
    ite_cache: FxMap<(u8, E, E, u32), E>,
    support: FxMap<E, std::rc::Rc<Vec<u32>>>,
}

#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vars: FxMap<u32, u128>,
    pub arr: FxMap<(u32, u128), u128>,
}

impl Model {
    /// Variables without a value get an arbitrary but fixed one.
    pub fn var(&self, i: u32, w: u32) -> u128 {
        match self.vars.get(&i) { Some(&v) => v, None => ((i as u128 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835) >> 61) & mask(w) }
    }
}

impl Ctx {
    pub fn new() -> Self {
        Ctx { n: vec![], w: vec![], kz: vec![], ko: vec![], map: Default::default(), vars: vec![], varmap: Default::default(),
              ite_cache: Default::default(), support: Default::default() }
    }

    fn intern(&mut self, n: N, w: u32) -> E {
        if let Some(&e) = self.map.get(&(n, w)) { return e }
        let (kz, ko) = self.known(n, w);
        debug_assert_eq!(kz & ko, 0);
        if !matches!(n, N::C(_)) && (kz | ko) & mask(w) == mask(w) {
            let e = self.c(ko & mask(w), w);
            self.map.insert((n, w), e);
            return e;
        }
        let e = self.n.len() as E;
        self.n.push(n);
        self.w.push(w);
        self.kz.push(kz & mask(w));
        self.ko.push(ko & mask(w));
        self.map.insert((n, w), e);
        e
    }

    fn known(&self, n: N, w: u32) -> (u128, u128) {
        let m = mask(w);
        let k = |e: E| (self.kz[e as usize], self.ko[e as usize]);
        match n {
            N::C(v) => (!v & m, v & m),
            N::Not(a) => { let (z, o) = k(a); (o, z) }
            N::And(a, b) => { let (z, o) = k(a); let (z2, o2) = k(b); (z | z2, o & o2) }
            N::Or(a, b) => { let (z, o) = k(a); let (z2, o2) = k(b); (z & z2, o | o2) }
            N::Xor(a, b) => { let (z, o) = k(a); let (z2, o2) = k(b); ((z & z2) | (o & o2), (z & o2) | (o & z2)) }
            N::Concat(a, b) => { let wb = self.w[b as usize]; let (z, o) = k(a); let (z2, o2) = k(b); (z << wb | z2, o << wb | o2) }
            N::Ext(a, lo) => { let (z, o) = k(a); ((z >> lo) & m, (o >> lo) & m) }
            N::ZExt(a) => { let (z, o) = k(a); (z | (m & !mask(self.w[a as usize])), o) }
            N::SExt(a) => {
                let wa = self.w[a as usize]; let (z, o) = k(a);
                let hi = m & !mask(wa);
                let s = 1u128 << (wa - 1);
                (if z & s != 0 { z | hi } else { z }, if o & s != 0 { o | hi } else { o })
            }
            N::Ite(_, a, b) => { let (z, o) = k(a); let (z2, o2) = k(b); (z & z2, o & o2) }
            N::Add(a, b) => {
                let (z, o) = k(a); let (z2, o2) = k(b);
                // Low bits fully known in both operands.
                let both = (z | o) & (z2 | o2);
                let t = (!both).trailing_zeros().min(w);
                let lowm = mask(t);
                let s = (o & lowm).wrapping_add(o2 & lowm) & lowm;
                let (mut rz, ro) = (lowm & !s, s);
                // Upper bound.
                let ma = !z & m; let mb = !z2 & m;
                if let Some(sum) = ma.checked_add(mb) { if sum <= m { let lz = 128 - sum.leading_zeros(); rz |= m & !mask(lz); } }
                (rz, ro & !rz)
            }
            N::Mul(a, b) => {
                let (z, _) = k(a); let (z2, _) = k(b);
                let tz = ((!z & m).trailing_zeros().min(w) + (!z2 & m).trailing_zeros().min(w)).min(w);
                let la = 128 - (!z & m).leading_zeros(); let lb = 128 - (!z2 & m).leading_zeros();
                let mut rz = mask(tz);
                if la + lb < w { rz |= m & !mask(la + lb); }
                (rz & m, 0)
            }
            N::UDiv(a, _) => { let (z, _) = k(a); let la = 128 - (!z & m).leading_zeros(); (m & !mask(la), 0) }
            N::URem(a, b) => {
                let (z, _) = k(a); let (z2, o2) = k(b);
                let la = 128 - (!z & m).leading_zeros(); let lb = 128 - (!z2 & m).leading_zeros();
                if o2 != 0 { (m & !mask(la.min(lb)), 0) } else { (m & !mask(la), 0) }
            }
            N::LShr(a, b) => {
                let (z, _) = k(a); let (_, o2) = k(b);
                let la = 128 - (!z & m).leading_zeros();
                let s = (o2.min(w as u128)) as u32;
                (m & !mask(la.saturating_sub(s)), 0)
            }
            _ => (0, 0),
        }
    }

    pub fn kz(&self, e: E) -> u128 { self.kz[e as usize] }
    pub fn ko(&self, e: E) -> u128 { self.ko[e as usize] }
    pub fn umax(&self, e: E) -> u128 { !self.kz[e as usize] & mask(self.w[e as usize]) }
    pub fn umin(&self, e: E) -> u128 { self.ko[e as usize] }
    #[inline]
    pub fn width(&self, e: E) -> u32 { self.w[e as usize] }
    #[inline]
    pub fn node(&self, e: E) -> N { self.n[e as usize] }
    #[inline]
    pub fn cst(&self, e: E) -> Option<u128> { if let N::C(v) = self.n[e as usize] { Some(v) } else { None } }

    pub fn c(&mut self, v: u128, w: u32) -> E { self.intern(N::C(v & mask(w)), w) }
    pub fn b(&mut self, v: bool) -> E { self.c(v as u128, 1) }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        if let Some(&e) = self.varmap.get(name) { assert_eq!(self.w[e as usize], w); return e }
        let id = self.vars.len() as u32;
        self.vars.push((name.to_string(), w));
        let e = self.intern(N::Var(id), w);
        self.varmap.insert(name.to_string(), e);
        e
    }
    pub fn sel(&mut self, arr: u32, idx: E, w: u32) -> E { self.intern(N::Sel(arr, idx), w) }

    pub fn not(&mut self, a: E) -> E {
        let w = self.width(a);
        match self.node(a) {
            N::C(v) => self.c(!v, w),
            N::Not(x) => x,
            N::Ite(c, x, y) if self.cst(x).is_some() || self.cst(y).is_some() => { let x = self.not(x); let y = self.not(y); self.ite(c, x, y) }
            _ => self.intern(N::Not(a), w),
        }
    }

    fn is_ite_const(&self, e: E) -> bool {
        if let N::Ite(_, a, b) = self.node(e) {
            (self.cst(a).is_some() || self.is_ite_const(a)) && (self.cst(b).is_some() || self.is_ite_const(b))
        } else { false }
    }

    /// Pushes a binary operation with constant `b` into an ite tree with constant leaves.
    fn push2(&mut self, tag: u8, a: E, b: E, f: fn(&mut Ctx, E, E) -> E) -> E {
        if let Some(&r) = self.ite_cache.get(&(tag, a, b, 0)) { return r }
        let r = if let N::Ite(c, x, y) = self.node(a) {
            let x2 = self.push2(tag, x, b, f);
            let y2 = self.push2(tag, y, b, f);
            self.ite(c, x2, y2)
        } else { f(self, a, b) };
        self.ite_cache.insert((tag, a, b, 0), r);
        r
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if w == 1 { return self.xor(a, b) }
        let (mut a, mut b) = (a, b);
        if self.cst(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) { return self.c(x.wrapping_add(y), w) }
        if let Some(y) = self.cst(b) {
            if y == 0 { return a }
            match self.node(a) {
                N::Add(x, c) if self.cst(c).is_some() => { let c2 = self.c(self.cst(c).unwrap().wrapping_add(y), w); return self.add(x, c2) }
                N::Sub(c, x) if self.cst(c).is_some() => { let c2 = self.c(self.cst(c).unwrap().wrapping_add(y), w); return self.sub(c2, x) }
                _ => {}
            }
            if self.is_ite_const(a) { return self.push2(1, a, b, |s, x, y| s.add(x, y)) }
        } else {
            // (x + c) + y => (x + y) + c
            if let N::Add(x, c) = self.node(a) { if self.cst(c).is_some() { let s = self.add(x, b); return self.add(s, c) } }
            if let N::Add(x, c) = self.node(b) { if self.cst(c).is_some() { let s = self.add(a, x); return self.add(s, c) } }
            if let N::Sub(x, y) = self.node(a) { if y == b { return x } }
            if let N::Sub(x, y) = self.node(b) { if y == a { return x } }
        }
        // Disjoint bits => or => concat.
        if (self.kz(a) | self.kz(b)) & mask(w) == mask(w) { return self.or(a, b) }
        if self.cst(b).is_none() && a > b { std::mem::swap(&mut a, &mut b) }
        self.intern(N::Add(a, b), w)
    }

    pub fn neg(&mut self, a: E) -> E { let z = self.c(0, self.width(a)); self.sub(z, a) }

    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if w == 1 { return self.xor(a, b) }
        if a == b { return self.c(0, w) }
        if let Some(y) = self.cst(b) { let n = self.c(y.wrapping_neg(), w); return self.add(a, n) }
        // (x + c) - y => (x - y) + c ; x - (y + c) => (x - y) - c
        if let N::Add(x, c) = self.node(a) {
            if self.cst(c).is_some() { let s = self.sub(x, b); return self.add(s, c) }
            if x == b { return c }
            if c == b { return x }
        }
        if let N::Add(x, c) = self.node(b) { if let Some(cv) = self.cst(c) { let s = self.sub(a, x); let n = self.c(cv.wrapping_neg(), w); return self.add(s, n) } }
        if let N::Sub(x, y) = self.node(b) { if x == a { return y } if self.cst(a) == Some(0) { return self.sub(y, x) } }
        self.intern(N::Sub(a, b), w)
    }

    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        let (mut a, mut b) = (a, b);
        if self.cst(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cst(b) {
            if let Some(x) = self.cst(a) { return self.c(x.wrapping_mul(y), w) }
            if y == 0 { return b }
            if y == 1 { return a }
            if y.is_power_of_two() { let s = self.c(y.trailing_zeros() as u128, w); return self.shl(a, s) }
        } else if a > b { std::mem::swap(&mut a, &mut b) }
        if let Some(r) = self.mul_of_quotient(a, b, w).or_else(|| self.mul_of_quotient(b, a, w)) { return r }
        self.intern(N::Mul(a, b), w)
    }

    fn strip_zext(&self, mut a: E) -> E { while let N::ZExt(x) = self.node(a) { a = x } a }
    fn strip_sext(&self, mut a: E) -> E { while let N::SExt(x) = self.node(a) { a = x } a }

    /// (n / d) * d is n - n % d, for every n and d in the semantics of SMT-LIB; the product of the operands
    /// extended to a larger width does not wrap, the minimum divided by -1 aside.
    fn mul_of_quotient(&mut self, p: E, q: E, w: u32) -> Option<E> {
        if let N::UDiv(n, d) = self.node(self.strip_zext(p)) {
            if self.strip_zext(q) == self.strip_zext(d) {
                let r = self.urem(n, d);
                let s = self.sub(n, r);
                return Some(self.zext(s, w));
            }
        }
        if let N::SDiv(n, d) = self.node(self.strip_sext(p)) {
            let wn = self.width(n);
            if self.strip_sext(q) == self.strip_sext(d) {
                let r = self.srem(n, d);
                let s = self.sub(n, r);
                if wn == w { return Some(s) }
                let x = self.sext(s, w);
                let min = self.c(1 << (wn - 1), wn); let m1 = self.c(!0, wn); let big = self.c(1 << (wn - 1), w);
                let i = self.eq(n, min); let j = self.eq(d, m1); let o = self.and(i, j);
                return Some(self.ite(o, big, x));
            }
        }
        None
    }

    /// The absolute value of a signed value, as an unsigned one.
    pub fn magnitude(&mut self, a: E) -> E {
        let w = self.width(a);
        if self.kz(a) >> (w - 1) & 1 != 0 { return a }
        if let N::SExt(x) = self.node(a) { let m = self.magnitude(x); return self.zext(m, w) }
        let c = self.ext(a, w - 1, 1);
        let n = self.neg(a);
        self.ite(c, n, a)
    }

    /// An upper bound, which is that of a magnitude if it is one.
    pub fn most(&mut self, a: E) -> u128 {
        let w = self.width(a);
        if let N::Ite(c, n, x) = self.node(a) {
            if matches!(self.node(n), N::Sub(z, y) if y == x && self.cst(z) == Some(0)) && self.ext(x, w - 1, 1) == c { return 1 << (w - 1) }
        }
        self.umax(a)
    }

    /// The remainder of a division of a by anything, which is never more than a.
    fn is_remainder_of(&mut self, y: E, a: E) -> bool {
        let N::URem(n, _) = self.node(self.strip_zext(y)) else { return false };
        let (wa, wn) = (self.width(a), self.width(n));
        n == a || wn < wa && self.umax(a) <= mask(wn) && self.ext(a, 0, wn) == n
    }

    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if let Some(y) = self.cst(b) {
            if y == 1 { return a }
            if y != 0 { if let Some(x) = self.cst(a) { return self.c(x / y, w) } }
            if y.is_power_of_two() { let s = self.c(y.trailing_zeros() as u128, w); return self.lshr(a, s) }
            if y != 0 && self.umax(a) < y { return self.c(0, w) }
        }
        // (a - a % b) / b is a / b.
        if let N::Sub(x, y) = self.node(a) { if self.node(y) == N::URem(x, b) { return self.udiv(x, b) } }
        // Shrink the width when both operands have known high zeros.
        let need = (128 - self.umax(a).leading_zeros()).max(128 - self.umax(b).leading_zeros()).max(1);
        if need < w && self.umin(b) > 0 { let x = self.ext(a, 0, need); let y = self.ext(b, 0, need); let r = self.udiv(x, y); return self.zext(r, w) }
        self.intern(N::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if let Some(y) = self.cst(b) {
            if y != 0 { if let Some(x) = self.cst(a) { return self.c(x % y, w) } }
            if y.is_power_of_two() { let m = self.c(y - 1, w); return self.and(a, m) }
            if y != 0 && self.umax(a) < y { return a }
        }
        let need = (128 - self.umax(a).leading_zeros()).max(128 - self.umax(b).leading_zeros()).max(1);
        if need < w && self.umin(b) > 0 { let x = self.ext(a, 0, need); let y = self.ext(b, 0, need); let r = self.urem(x, y); return self.zext(r, w) }
        self.intern(N::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) { if y != 0 { return self.c(sx(x, w).wrapping_div(sx(y, w)) as u128, w) } }
        let s = 1u128 << (w - 1);
        if self.kz(a) & s != 0 && self.kz(b) & s != 0 { return self.udiv(a, b) }
        self.intern(N::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) { if y != 0 { return self.c(sx(x, w).wrapping_rem(sx(y, w)) as u128, w) } }
        let s = 1u128 << (w - 1);
        if self.kz(a) & s != 0 && self.kz(b) & s != 0 { return self.urem(a, b) }
        self.intern(N::SRem(a, b), w)
    }

    /// Splits the mask constant into runs of equal bits, most significant first: (bit value, width, low bit).
    fn runs(v: u128, w: u32, max: usize) -> Option<Vec<(bool, u32, u32)>> {
        let mut r = vec![];
        let mut i = w;
        while i > 0 {
            let bit = (v >> (i - 1)) & 1 != 0;
            let mut j = i - 1;
            while j > 0 && ((v >> (j - 1)) & 1 != 0) == bit { j -= 1 }
            r.push((bit, i - j, j));
            if r.len() > max { return None }
            i = j;
        }
        Some(r)
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (mut a, mut b) = (a, b);
        if a == b { return a }
        if self.cst(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cst(b) {
            if let Some(x) = self.cst(a) { return self.c(x & y, w) }
            if y == 0 { return b }
            if y == mask(w) { return a }
            // Bits of a that can be one.
            if !self.kz(a) & !y & mask(w) == 0 { return a }
            if let N::And(x, c) = self.node(a) { if let Some(cv) = self.cst(c) { let m = self.c(cv & y, w); return self.and(x, m) } }
            if self.is_ite_const(a) { return self.push2(2, a, b, |s, x, y| s.and(x, y)) }
            if let Some(rs) = Self::runs(y, w, 8) {
                let mut acc: Option<E> = None;
                for (bit, len, lo) in rs {
                    let p = if bit { self.ext(a, lo, len) } else { self.c(0, len) };
                    acc = Some(match acc { None => p, Some(h) => self.concat(h, p) });
                }
                return acc.unwrap();
            }
        } else {
            if self.node(a) == N::Not(b) || self.node(b) == N::Not(a) { return self.c(0, w) }
            if w == 1 {
                // absorb: a & (a & c), a & (a | c)
                if let N::And(x, y) = self.node(a) { if x == b || y == b { return a } }
                if let N::And(x, y) = self.node(b) { if x == a || y == a { return b } }
                if let N::Or(x, y) = self.node(a) { if x == b || y == b { return b } }
                if let N::Or(x, y) = self.node(b) { if x == a || y == a { return a } }
            }
            if a > b { std::mem::swap(&mut a, &mut b) }
            if let Some(r) = self.split_bits(a, b, 0) { return r }
        }
        self.intern(N::And(a, b), w)
    }

    /// For and(0)/or(1)/xor(2): when known bits make segments trivial, build a concat of pieces.
    fn split_bits(&mut self, a: E, b: E, op: u8) -> Option<E> {
        let w = self.width(a);
        if w == 1 { return None }
        // class per bit: 0 = must compute, 1 = take a, 2 = take b, 3 = const 0, 4 = const 1
        let (az, ao, bz, bo) = (self.kz(a), self.ko(a), self.kz(b), self.ko(b));
        let (ta, tb, c0, c1) = match op {
            0 => (bo, ao, az | bz, ao & bo),
            1 => (bz, az, az & bz, ao | bo),
            _ => (bz, az, (az & bz) | (ao & bo), (az & bo) | (ao & bz)),
        };
        if (ta | tb | c0 | c1) & mask(w) == 0 { return None }
        let class = |i: u32| -> u8 {
            let m = 1u128 << i;
            if c0 & m != 0 { 3 } else if c1 & m != 0 { 4 } else if ta & m != 0 { 1 } else if tb & m != 0 { 2 } else { 0 }
        };
        let mut segs: Vec<(u8, u32, u32)> = vec![];
        let mut i = w;
        while i > 0 {
            let c = class(i - 1);
            let mut j = i - 1;
            while j > 0 && class(j - 1) == c { j -= 1 }
            segs.push((c, i - j, j));
            if segs.len() > 20 { return None }
            i = j;
        }
        if segs.len() == 1 && segs[0].0 == 0 { return None }
        let mut acc: Option<E> = None;
        for (c, len, lo) in segs {
            let p = match c {
                3 => self.c(0, len),
                4 => self.c(mask(len), len),
                1 => self.ext(a, lo, len),
                2 => self.ext(b, lo, len),
                _ => {
                    let x = self.ext(a, lo, len); let y = self.ext(b, lo, len);
                    match op { 0 => self.and(x, y), 1 => self.or(x, y), _ => self.xor(x, y) }
                }
            };
            acc = Some(match acc { None => p, Some(h) => self.concat(h, p) });
        }
        acc
    }

    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (mut a, mut b) = (a, b);
        if a == b { return a }
        if self.cst(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cst(b) {
            if let Some(x) = self.cst(a) { return self.c(x | y, w) }
            if y == 0 { return a }
            if y == mask(w) { return b }
            if self.is_ite_const(a) { return self.push2(3, a, b, |s, x, y| s.or(x, y)) }
        } else {
            if self.node(a) == N::Not(b) || self.node(b) == N::Not(a) { return self.c(mask(w), w) }
            if w == 1 {
                if let N::Or(x, y) = self.node(a) { if x == b || y == b { return a } }
                if let N::Or(x, y) = self.node(b) { if x == a || y == a { return b } }
                if let N::And(x, y) = self.node(a) { if x == b || y == b { return b } }
                if let N::And(x, y) = self.node(b) { if x == a || y == a { return a } }
            }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        if let Some(r) = self.split_bits(a, b, 1) { return r }
        self.intern(N::Or(a, b), w)
    }

    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (mut a, mut b) = (a, b);
        if a == b { return self.c(0, w) }
        if self.cst(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cst(b) {
            if let Some(x) = self.cst(a) { return self.c(x ^ y, w) }
            if y == 0 { return a }
            if y == mask(w) { return self.not(a) }
            if let N::Xor(x, c) = self.node(a) { if let Some(cv) = self.cst(c) { let m = self.c(cv ^ y, w); return self.xor(x, m) } }
            if self.is_ite_const(a) { return self.push2(4, a, b, |s, x, y| s.xor(x, y)) }
        } else {
            // Pull nots out.
            if let N::Not(x) = self.node(a) { let r = self.xor(x, b); return self.not(r) }
            if let N::Not(y) = self.node(b) { let r = self.xor(a, y); return self.not(r) }
            if let N::Xor(x, y) = self.node(a) { if x == b { return y } if y == b { return x } }
            if let N::Xor(x, y) = self.node(b) { if x == a { return y } if y == a { return x } }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        if let Some(r) = self.split_bits(a, b, 2) { return r }
        self.intern(N::Xor(a, b), w)
    }

    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if let Some(s) = self.cst(b) {
            if s >= w as u128 { return self.c(0, w) }
            let s = s as u32;
            if s == 0 { return a }
            let hi = self.ext(a, 0, w - s);
            let z = self.c(0, s);
            return self.concat(hi, z);
        }
        if self.cst(a) == Some(0) { return a }
        self.intern(N::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if let Some(s) = self.cst(b) {
            if s >= w as u128 { return self.c(0, w) }
            let s = s as u32;
            if s == 0 { return a }
            let x = self.ext(a, s, w - s);
            return self.zext(x, w);
        }
        if self.cst(a) == Some(0) { return a }
        self.intern(N::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if let Some(s) = self.cst(b) {
            let s = s.min(w as u128 - 1) as u32;
            if s == 0 { return a }
            let x = self.ext(a, s, w - s);
            return self.sext(x, w);
        }
        if self.kz(a) >> (w - 1) & 1 != 0 { return self.lshr(a, b) }
        self.intern(N::AShr(a, b), w)
    }

    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.width(a), self.width(b));
        let w = wa + wb;
        assert!(w <= 128, "concat width");
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) { return self.c(x << wb | y, w) }
        if self.cst(a) == Some(0) { return self.zext(b, w) }
        if let N::ZExt(x) = self.node(a) { let i = self.concat(x, b); return self.zext(i, w) }
        // Adjacent extracts of the same value.
        let pa = if let N::Ext(x, lo) = self.node(a) { Some((x, lo)) } else { None };
        let pb = if let N::Ext(y, lo) = self.node(b) { (y, lo) } else { (b, 0) };
        if let Some((x, lo)) = pa {
            if x == pb.0 && lo == pb.1 + wb { return self.ext(x, pb.1, w) }
            // a : (b1 : b2) with a,b1 adjacent
            if let N::Concat(b1, b2) = self.node(b) {
                let w1 = self.width(b1);
                let p1 = if let N::Ext(y, l) = self.node(b1) { (y, l) } else { (b1, 0) };
                if p1.0 == x && lo == p1.1 + w1 { let h = self.ext(x, p1.1, wa + w1); return self.concat(h, b2) }
            }
        }
        // (a1 : a2) : b with a2,b adjacent / both const
        if let N::Concat(a1, a2) = self.node(a) {
            // Right-associate.
            let r = self.concat(a2, b);
            return self.concat(a1, r);
        }
        if let N::Concat(b1, b2) = self.node(b) {
            if let (Some(x), Some(y)) = (self.cst(a), self.cst(b1)) { let w1 = self.width(b1); let h = self.c(x << w1 | y, wa + w1); return self.concat(h, b2) }
        }
        // const : zext  => (const:0) : x
        if let (Some(x), N::ZExt(y)) = (self.cst(a), self.node(b)) {
            let wy = self.width(y);
            let h = self.c(x << (wb - wy), wa + wb - wy);
            return self.concat(h, y);
        }
        if let N::ZExt(y) = self.node(b) {
            let wy = self.width(y);
            let z = self.c(0, wb - wy);
            let r = self.intern_concat(z, y);
            return self.intern_concat(a, r);
        }
        if let (N::Ite(c, x, y), N::Ite(c2, x2, y2)) = (self.node(a), self.node(b)) {
            if c == c2 { let p = self.concat(x, x2); let q = self.concat(y, y2); return self.ite(c, p, q) }
        }
        if let N::Ite(c, x, y) = self.node(a) { if let N::Concat(b1, b2) = self.node(b) { if let N::Ite(c2, x2, y2) = self.node(b1) { if c == c2 {
            let p = self.concat(x, x2); let q = self.concat(y, y2); let h = self.ite(c, p, q); return self.concat(h, b2)
        } } } }
        if let N::SExt(y) = self.node(b) {
            // replicate(sign) : sext(y) => sext
            let wy = self.width(y);
            let s = self.ext(y, wy - 1, 1);
            let rep = if wa == 1 { s } else { self.sext(s, wa) };
            if rep == a { return self.sext(y, w) }
        }
        if wb > 1 || wa >= 1 {
            // sign replication: a == replicate of b's sign bit.
            if let N::SExt(s) = self.node(a) { if self.width(s) == 1 {
                let sb = self.ext(b, wb - 1, 1);
                if sb == s { return self.sext(b, w) }
            } }
        }
        self.intern(N::Concat(a, b), w)
    }

    fn intern_concat(&mut self, a: E, b: E) -> E {
        let w = self.width(a) + self.width(b);
        self.intern(N::Concat(a, b), w)
    }

    pub fn ext(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.width(a);
        debug_assert!(lo + w <= wa, "ext {lo}+{w} of {wa}");
        if lo == 0 && w == wa { return a }
        let m = mask(w);
        let (z, o) = ((self.kz(a) >> lo) & m, (self.ko(a) >> lo) & m);
        if z | o == m { return self.c(o, w) }
        match self.node(a) {
            N::Ext(x, l) => self.ext(x, l + lo, w),
            N::Concat(x, y) => {
                let wy = self.width(y);
                if lo + w <= wy { self.ext(y, lo, w) }
                else if lo >= wy { self.ext(x, lo - wy, w) }
                else {
                    let h = self.ext(x, 0, lo + w - wy);
                    let l = self.ext(y, lo, wy - lo);
                    self.concat(h, l)
                }
            }
            N::ZExt(x) => {
                let wx = self.width(x);
                if lo + w <= wx { self.ext(x, lo, w) }
                else if lo >= wx { self.c(0, w) }
                else { let p = self.ext(x, lo, wx - lo); self.zext(p, w) }
            }
            N::SExt(x) => {
                let wx = self.width(x);
                if lo + w <= wx { self.ext(x, lo, w) }
                else if lo >= wx { let s = self.ext(x, wx - 1, 1); self.sext(s, w) }
                else { let p = self.ext(x, lo, wx - lo); self.sext(p, w) }
            }
            N::Not(x) => { let p = self.ext(x, lo, w); self.not(p) }
            N::And(x, y) => { let p = self.ext(x, lo, w); let q = self.ext(y, lo, w); self.and(p, q) }
            N::Or(x, y) => { let p = self.ext(x, lo, w); let q = self.ext(y, lo, w); self.or(p, q) }
            N::Xor(x, y) => { let p = self.ext(x, lo, w); let q = self.ext(y, lo, w); self.xor(p, q) }
            N::Add(x, y) if lo == 0 => { let p = self.ext(x, 0, w); let q = self.ext(y, 0, w); self.add(p, q) }
            N::Add(x, y) if self.cst(y).map_or(false, |v| v & mask(lo) == 0) => {
                let n = wa - lo;
                let p = self.ext(x, lo, n); let q = self.ext(y, lo, n);
                let s = self.add(p, q);
                self.ext(s, 0, w)
            }
            N::Sub(x, y) if lo == 0 => { let p = self.ext(x, 0, w); let q = self.ext(y, 0, w); self.sub(p, q) }
            // Products stay whole up to 32 bits, so that their parts are those of one term.
            N::Mul(..) if lo == 0 && w < 32 && wa > 32 => { let p = self.ext(a, 0, 32); self.ext(p, 0, w) }
            N::Mul(x, y) if lo == 0 && w >= 32 => { let p = self.ext(x, 0, w); let q = self.ext(y, 0, w); self.mul(p, q) }
            N::Ite(c, x, y) => {
                let p = self.ext(x, lo, w); let q = self.ext(y, lo, w);
                if p == q { return p }
                if (self.cst(p).is_some() && self.cst(q).is_some()) || self.is_ite_const(a) || self.cst(x).is_some() || self.cst(y).is_some() { return self.ite(c, p, q) }
                // Keep a canonical form: extract of ite.
                self.intern(N::Ext(a, lo), w)
            }
            _ => self.intern(N::Ext(a, lo), w),
        }
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.width(a);
        if wa == w { return a }
        debug_assert!(w > wa);
        match self.node(a) {
            N::C(v) => self.c(v, w),
            N::ZExt(x) => self.zext(x, w),
            N::Ite(c, x, y) if self.cst(x).is_some() && self.cst(y).is_some() || self.is_ite_const(a) => {
                let p = self.zext(x, w); let q = self.zext(y, w); self.ite(c, p, q)
            }
            _ => self.intern(N::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.width(a);
        if wa == w { return a }
        debug_assert!(w > wa);
        if self.kz(a) >> (wa - 1) & 1 != 0 { return self.zext(a, w) }
        match self.node(a) {
            N::C(v) => self.c(sx(v, wa) as u128, w),
            N::SExt(x) => self.sext(x, w),
            N::Ite(c, x, y) if self.cst(x).is_some() && self.cst(y).is_some() || self.is_ite_const(a) => {
                let p = self.sext(x, w); let q = self.sext(y, w); self.ite(c, p, q)
            }
            _ => self.intern(N::SExt(a), w),
        }
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (mut a, mut b) = (a, b);
        if a == b { return self.b(true) }
        if (self.kz(a) & self.ko(b)) | (self.ko(a) & self.kz(b)) != 0 { return self.b(false) }
        if self.cst(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if w == 1 {
            if let Some(v) = self.cst(b) { return if v == 1 { a } else { self.not(a) } }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if let Some(v) = self.cst(b) {
            match self.node(a) {
                N::ZExt(x) => { let wx = self.width(x); let c = self.c(v, wx); return self.eq(x, c) }
                N::SExt(x) => {
                    let wx = self.width(x);
                    if sx(v, w) as u128 != sx(v & mask(wx), wx) as u128 { return self.b(false) }
                    let c = self.c(v, wx); return self.eq(x, c)
                }
                N::Concat(x, y) => {
                    let wy = self.width(y); let wx = self.width(x);
                    let ch = self.c(v >> wy, wx); let cl = self.c(v, wy);
                    let p = self.eq(x, ch); let q = self.eq(y, cl);
                    return self.and(p, q)
                }
                N::Add(x, c) if self.cst(c).is_some() => { let k = self.c(v.wrapping_sub(self.cst(c).unwrap()), w); return self.eq(x, k) }
                N::Sub(x, y) if v == 0 => return self.eq(x, y),
                N::Sub(c, x) if self.cst(c).is_some() => { let k = self.c(self.cst(c).unwrap().wrapping_sub(v), w); return self.eq(x, k) }
                N::Xor(x, y) if v == 0 => return self.eq(x, y),
                N::Xor(x, c) if self.cst(c).is_some() => { let k = self.c(v ^ self.cst(c).unwrap(), w); return self.eq(x, k) }
                N::Not(x) => { let k = self.c(!v, w); return self.eq(x, k) }
                N::Or(x, y) if v == 0 => { let z = self.c(0, w); let p = self.eq(x, z); let q = self.eq(y, z); return self.and(p, q) }
                N::Ite(c, x, y) => {
                    if self.is_ite_const(a) { return self.push2(5, a, b, |s, x, y| s.eq(x, y)) }
                    if self.cst(x).is_some() || self.cst(y).is_some() {
                        let p = self.eq(x, b); let q = self.eq(y, b);
                        return self.ite(c, p, q)
                    }
                }
                _ => {}
            }
        } else {
            match (self.node(a), self.node(b)) {
                (N::ZExt(x), N::ZExt(y)) if self.width(x) == self.width(y) => return self.eq(x, y),
                (N::SExt(x), N::SExt(y)) if self.width(x) == self.width(y) => return self.eq(x, y),
                (N::Add(x, c), N::Add(y, d)) if self.cst(c).is_some() && self.cst(d).is_some() => {
                    if x == y { let r = self.cst(c) == self.cst(d); return self.b(r) }
                    let k = self.c(self.cst(c).unwrap().wrapping_sub(self.cst(d).unwrap()), w);
                    let l = self.add(x, k);
                    return self.eq(l, y);
                }
                (N::Add(x, c), _) if x == b && self.cst(c).is_some() => return self.b(false),
                (_, N::Add(y, c)) if y == a && self.cst(c).is_some() => return self.b(false),
                (N::Not(x), N::Not(y)) => return self.eq(x, y),
                (N::Concat(x, y), N::Concat(x2, y2)) if self.width(x) == self.width(x2) => {
                    let p = self.eq(x, x2); let q = self.eq(y, y2); return self.and(p, q)
                }
                (N::Ite(c, x, y), N::Ite(c2, x2, y2)) if c == c2 && (x == x2 || y == y2) => {
                    let p = self.eq(x, x2); let q = self.eq(y, y2); return self.ite(c, p, q)
                }
                _ => {}
            }
            // Adding the same term on both sides.
            if let N::Add(x, y) = self.node(a) { if x == b { let z = self.c(0, w); return self.eq(y, z) } if y == b { let z = self.c(0, w); return self.eq(x, z) } }
            if let N::Add(x, y) = self.node(b) { if x == a { let z = self.c(0, w); return self.eq(y, z) } if y == a { let z = self.c(0, w); return self.eq(x, z) } }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        self.intern(N::Eq(a, b), 1)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if a == b { return self.b(false) }
        if self.umax(a) < self.umin(b) { return self.b(true) }
        if self.umin(a) >= self.umax(b) { return self.b(false) }
        if let N::Sub(x, y) = self.node(b) { if x == a && self.is_remainder_of(y, a) { return self.b(false) } }
        if w == 1 { let n = self.not(a); return self.and(n, b) }
        if let Some(v) = self.cst(b) {
            if v == 1 { let z = self.c(0, w); return self.eq(a, z) }
            if v == mask(w) { let r = self.eq(a, b); return self.not(r) }
            if v.is_power_of_two() {
                let k = v.trailing_zeros();
                let h = self.ext(a, k, w - k); let z = self.c(0, w - k);
                return self.eq(h, z);
            }
            if let N::ZExt(x) = self.node(a) { let wx = self.width(x); if v <= mask(wx) { let c = self.c(v, wx); return self.ult(x, c) } }
            if self.is_ite_const(a) { return self.push2(6, a, b, |s, x, y| s.ult(x, y)) }
        }
        if let Some(v) = self.cst(a) {
            if v == 0 { let z = self.c(0, w); let r = self.eq(b, z); return self.not(r) }
            if v.wrapping_add(1).is_power_of_two() {
                let k = v.wrapping_add(1).trailing_zeros();
                if k < w {
                    let h = self.ext(b, k, w - k); let z = self.c(0, w - k);
                    let r = self.eq(h, z);
                    return self.not(r);
                }
            }
            if let N::ZExt(x) = self.node(b) { let wx = self.width(x); if v <= mask(wx) { let c = self.c(v, wx); return self.ult(c, x) } }
            if self.is_ite_const(b) { return self.push2(7, b, a, |s, x, y| s.ult(y, x)) }
        }
        if let (N::ZExt(x), N::ZExt(y)) = (self.node(a), self.node(b)) { if self.width(x) == self.width(y) { return self.ult(x, y) } }
        if let (N::SExt(x), N::SExt(y)) = (self.node(a), self.node(b)) { if self.width(x) == self.width(y) { return self.ult(x, y) } }
        self.intern(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E { let r = self.ult(b, a); self.not(r) }

    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if a == b { return self.b(false) }
        if w == 1 { let n = self.not(b); return self.and(a, n) }
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) { return self.b(sx(x, w) < sx(y, w)) }
        let s = 1u128 << (w - 1);
        if self.cst(b) == Some(0) { return self.ext(a, w - 1, 1) }
        if self.cst(a) == Some(mask(w)) { let r = self.ext(b, w - 1, 1); return self.not(r) }
        if (self.kz(a) & s != 0) && (self.kz(b) & s != 0) || (self.ko(a) & s != 0) && (self.ko(b) & s != 0) { return self.ult(a, b) }
        if self.ko(a) & s != 0 && self.kz(b) & s != 0 { return self.b(true) }
        if self.kz(a) & s != 0 && self.ko(b) & s != 0 { return self.b(false) }
        if let (N::SExt(x), N::SExt(y)) = (self.node(a), self.node(b)) { if self.width(x) == self.width(y) { return self.slt(x, y) } }
        // Signed ranges.
        let (amin, amax) = self.srange(a); let (bmin, bmax) = self.srange(b);
        if amax < bmin { return self.b(true) }
        if amin >= bmax { return self.b(false) }
        if let (N::SExt(x), Some(v)) = (self.node(a), self.cst(b)) {
            let wx = self.width(x);
            let sv = sx(v, w);
            if sx(sv as u128 & mask(wx), wx) == sv { let c = self.c(v, wx); return self.slt(x, c) }
        }
        if let (Some(v), N::SExt(x)) = (self.cst(a), self.node(b)) {
            let wx = self.width(x);
            let sv = sx(v, w);
            if sx(sv as u128 & mask(wx), wx) == sv { let c = self.c(v, wx); return self.slt(c, x) }
        }
        if self.cst(b).is_some() && self.is_ite_const(a) { return self.push2(8, a, b, |s, x, y| s.slt(x, y)) }
        if self.cst(a).is_some() && self.is_ite_const(b) { return self.push2(9, b, a, |s, x, y| s.slt(y, x)) }
        self.intern(N::Slt(a, b), 1)
    }
    fn srange(&self, a: E) -> (i128, i128) {
        let w = self.width(a);
        if let N::SExt(x) = self.node(a) { return self.srange(x) }
        let s = 1u128 << (w - 1);
        let (z, o) = (self.kz(a), self.ko(a));
        let mut min = o; if z & s == 0 { min |= s }
        let mut max = !z & mask(w); if o & s == 0 { max &= !s }
        (sx(min, w), sx(max, w))
    }
    pub fn sle(&mut self, a: E, b: E) -> E { let r = self.slt(b, a); self.not(r) }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        debug_assert_eq!(self.width(c), 1);
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if a == b { return a }
        if let Some(v) = self.cst(c) { return if v == 1 { a } else { b } }
        if let N::Not(x) = self.node(c) { return self.ite(x, b, a) }
        // The absolute value of a sign-extended value is that of the value.
        if let N::SExt(y) = self.node(b) {
            let wy = self.width(y);
            if wy > 1 && matches!(self.node(a), N::Sub(z, x) if x == b && self.cst(z) == Some(0)) && self.ext(y, wy - 1, 1) == c {
                let n = self.neg(y);
                let m = self.ite(c, n, y);
                return self.zext(m, w);
            }
        }
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b) }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a) }
                _ => {}
            }
            if a == c { return self.or(c, b) }
            if b == c { return self.and(c, a) }
        }
        if let N::Ite(c2, x, _) = self.node(a) { if c2 == c { return self.ite(c, x, b) } }
        if let N::Ite(c2, _, y) = self.node(b) { if c2 == c { return self.ite(c, a, y) } }
        if let N::Ite(c2, x, y) = self.node(b) { if x == a { let o = self.or(c, c2); return self.ite(o, a, y) } }
        // ite(c, 1.., 0..) as extensions of the condition.
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            if x == 1 && y == 0 { return self.zext(c, w) }
            if x == 0 && y == 1 { let n = self.not(c); return self.zext(n, w) }
        }
        match (self.node(a), self.node(b)) {
            (N::ZExt(x), N::ZExt(y)) if self.width(x) == self.width(y) => { let i = self.ite(c, x, y); return self.zext(i, w) }
            (N::ZExt(x), N::C(v)) if v <= mask(self.width(x)) => { let k = self.c(v, self.width(x)); let i = self.ite(c, x, k); return self.zext(i, w) }
            (N::C(v), N::ZExt(x)) if v <= mask(self.width(x)) => { let k = self.c(v, self.width(x)); let i = self.ite(c, k, x); return self.zext(i, w) }
            (N::Concat(x, y), N::Concat(x2, y2)) if self.width(x) == self.width(x2) && (x == x2 || y == y2) => {
                let p = self.ite(c, x, x2); let q = self.ite(c, y, y2);
                return self.concat(p, q)
            }
            (N::Add(x, y), N::Add(x2, y2)) if x == x2 && self.cst(y).is_some() && self.cst(y2).is_some() => { let k = self.ite(c, y, y2); return self.add(x, k) }
            (N::Add(x, y), _) if x == b && self.cst(y).is_some() => { let z = self.c(0, w); let k = self.ite(c, y, z); return self.add(x, k) }
            (_, N::Add(x, y)) if x == a && self.cst(y).is_some() => { let z = self.c(0, w); let k = self.ite(c, z, y); return self.add(x, k) }
            _ => {}
        }
        self.intern(N::Ite(c, a, b), w)
    }

    pub fn children(&self, e: E) -> [Option<E>; 3] {
        match self.node(e) {
            N::C(_) | N::Var(_) => [None, None, None],
            N::Sel(_, a) | N::Not(a) | N::Ext(a, _) | N::ZExt(a) | N::SExt(a) => [Some(a), None, None],
            N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b)
            | N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b)
            | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Concat(a, b) => [Some(a), Some(b), None],
            N::Ite(a, b, c) => [Some(a), Some(b), Some(c)],
        }
    }

    /// The variables (even numbers) and arrays (odd numbers) that the expression depends on, sorted.
    pub fn support(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(s) = self.support.get(&e) { return s.clone() }
        // Iterative DFS without caching the inner nodes (roots are cached).
        let mut seen: FxSet<E> = Default::default();
        let mut out: Vec<u32> = vec![];
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue }
            match self.node(x) {
                N::Var(v) => out.push(v * 2),
                N::Sel(a, _) => out.push(a * 2 + 1),
                _ => {}
            }
            for c in self.children(x).into_iter().flatten() { if self.cst(c).is_none() { st.push(c) } }
        }
        out.sort_unstable();
        out.dedup();
        let r = std::rc::Rc::new(out);
        self.support.insert(e, r.clone());
        r
    }

    pub fn eval(&self, e: E, m: &Model, memo: &mut FxMap<E, u128>) -> u128 {
        if let N::C(v) = self.node(e) { return v }
        if let Some(&v) = memo.get(&e) { return v }
        let w = self.width(e);
        let mk = mask(w);
        macro_rules! ev { ($x:expr) => { self.eval($x, m, memo) } }
        let v = match self.node(e) {
            N::C(v) => v,
            N::Var(i) => m.var(i, w),
            N::Sel(a, i) => { let iv = ev!(i); *m.arr.get(&(a, iv)).unwrap_or(&0) }
            N::Not(a) => !ev!(a),
            N::Add(a, b) => ev!(a).wrapping_add(ev!(b)),
            N::Sub(a, b) => ev!(a).wrapping_sub(ev!(b)),
            N::Mul(a, b) => ev!(a).wrapping_mul(ev!(b)),
            N::UDiv(a, b) => { let (x, y) = (ev!(a), ev!(b)); if y == 0 { !0 } else { x / y } }
            N::URem(a, b) => { let (x, y) = (ev!(a), ev!(b)); if y == 0 { x } else { x % y } }
            N::SDiv(a, b) => { let (x, y) = (sx(ev!(a), w), sx(ev!(b), w)); if y == 0 { if x < 0 { 1 } else { !0 } } else { x.wrapping_div(y) as u128 } }
            N::SRem(a, b) => { let (x, y) = (sx(ev!(a), w), sx(ev!(b), w)); if y == 0 { x as u128 } else { x.wrapping_rem(y) as u128 } }
            N::And(a, b) => ev!(a) & ev!(b),
            N::Or(a, b) => ev!(a) | ev!(b),
            N::Xor(a, b) => ev!(a) ^ ev!(b),
            N::Shl(a, b) => { let (x, y) = (ev!(a), ev!(b)); if y >= w as u128 { 0 } else { x << y } }
            N::LShr(a, b) => { let (x, y) = (ev!(a), ev!(b)); if y >= w as u128 { 0 } else { x >> y } }
            N::AShr(a, b) => { let (x, y) = (sx(ev!(a), w), ev!(b)); (x >> y.min(w as u128 - 1)) as u128 }
            N::Eq(a, b) => (ev!(a) == ev!(b)) as u128,
            N::Ult(a, b) => (ev!(a) < ev!(b)) as u128,
            N::Slt(a, b) => { let wa = self.width(a); (sx(ev!(a), wa) < sx(ev!(b), wa)) as u128 }
            N::Concat(a, b) => { let wb = self.width(b); ev!(a) << wb | ev!(b) }
            N::Ext(a, lo) => ev!(a) >> lo,
            N::ZExt(a) => ev!(a),
            N::SExt(a) => { let wa = self.width(a); sx(ev!(a), wa) as u128 }
            N::Ite(c, a, b) => if ev!(c) != 0 { ev!(a) } else { ev!(b) },
        } & mk;
        memo.insert(e, v);
        v
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 { return format!("e{e}") }
        let s = |x: E| self.show(x, depth - 1);
        match self.node(e) {
            N::C(v) => format!("{v:#x}:{}", self.width(e)),
            N::Var(i) => self.vars[i as usize].0.clone(),
            n => {
                let name = format!("{n:?}");
                let name = name.split('(').next().unwrap().to_string();
                let ch: Vec<String> = self.children(e).into_iter().flatten().map(s).collect();
                let extra = match n { N::Ext(_, lo) => format!("@{lo}"), N::Sel(a, _) => format!("#{a}"), _ => String::new() };
                format!("{name}{extra}:{}({})", self.width(e), ch.join(","))
            }
        }
    }
}
