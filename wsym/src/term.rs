//! Hash-consed bit-vector / floating-point term DAG with a canonicalising
//! simplifier, a concrete evaluator and an SMT-LIB printer.
//!
//! Width-1 terms are Booleans.  Zero extension is `Concat(0, x)`.
use std::collections::HashMap;

pub type T = u32; // 0 = "no term"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u64),
    Var(u32),
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Not,
    Shl, LShr, AShr, Rotl,
    Clz, Ctz, Popcnt,
    Eq, Ult, Slt,
    Ite,
    Concat,
    Extract(u8), // low bit
    SExt,
    FAdd, FSub, FMul, FDiv, FSqrt, FMin, FMax,
    FCeil, FFloor, FTrunc, FNearest,
    FEq, FLt, FLe,
    FPromote, FDemote,
    /// int -> float (signed / unsigned)
    CvtS, CvtU,
    /// float -> int, round toward zero; only meaningful where in range
    TruncS, TruncU,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: T,
    pub b: T,
    pub c: T,
}

pub struct Cx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T, FxB>,
    pub vars: Vec<VarInfo>,
    ranges: Vec<(u64, u64)>,
    range_known: Vec<bool>,
    pub tt: T,
    pub ff: T,
    /// values of the variables in a concrete re-execution
    pub pin: Option<std::collections::BTreeMap<String, u64>>,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u8,
    pub t: T,
}

#[derive(Clone, Default)]
pub struct FxB;
impl std::hash::BuildHasher for FxB {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH { FxH(0) }
}
pub struct FxH(u64);
impl FxH {
    #[inline]
    fn add(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
}
impl std::hash::Hasher for FxH {
    fn write(&mut self, b: &[u8]) { for &x in b { self.add(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.add(x as u64) }
    fn write_u16(&mut self, x: u16) { self.add(x as u64) }
    fn write_u32(&mut self, x: u32) { self.add(x as u64) }
    fn write_u64(&mut self, x: u64) { self.add(x) }
    fn write_usize(&mut self, x: usize) { self.add(x as u64) }
    fn write_isize(&mut self, x: isize) { self.add(x as u64) }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
}

#[inline]
pub fn mask(w: u8) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
#[inline]
pub fn sx(v: u64, w: u8) -> i64 { let s = 64 - w as u32; ((v << s) as i64) >> s }

pub const CNAN32: u32 = 0x7fc0_0000;
pub const CNAN64: u64 = 0x7ff8_0000_0000_0000;

fn c32(x: f32) -> u64 { if x.is_nan() { CNAN32 as u64 } else { x.to_bits() as u64 } }
fn c64(x: f64) -> u64 { if x.is_nan() { CNAN64 } else { x.to_bits() } }

/// Concrete semantics of one operator (shared by constant folding and model evaluation).
pub fn ev(op: Op, w: u8, wa: u8, a: u64, wb: u8, b: u64, c: u64) -> u64 {
    let m = mask(w);
    let f32a = || f32::from_bits(a as u32);
    let f32b = || f32::from_bits(b as u32);
    let f64a = || f64::from_bits(a);
    let f64b = || f64::from_bits(b);
    macro_rules! fbin { ($x:ident,$y:ident,$e32:expr,$e64:expr) => {
        if w == 32 { let ($x,$y)=(f32a(),f32b()); c32($e32) } else { let ($x,$y)=(f64a(),f64b()); c64($e64) } } }
    macro_rules! fun { ($x:ident,$e32:expr,$e64:expr) => {
        if w == 32 { let $x=f32a(); c32($e32) } else { let $x=f64a(); c64($e64) } } }
    macro_rules! fcmp { ($x:ident,$y:ident,$e:expr) => {
        if wa == 32 { let ($x,$y)=(f32a(),f32b()); ($e) as u64 } else { let ($x,$y)=(f64a(),f64b()); ($e) as u64 } } }
    match op {
        Op::Const(v) => v,
        Op::Var(_) => unreachable!(),
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u64) & m }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u64) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Not => !a & m,
        Op::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u64 { 0 } else { a >> b },
        Op::AShr => { let x = sx(a, w); let s = b.min(63) as u32; ((x >> s) as u64) & m }
        Op::Rotl => { let s = (b % w as u64) as u32; if s == 0 { a } else { ((a << s) | (a >> (w as u32 - s))) & m } }
        Op::Clz => (a.leading_zeros() as u64) - (64 - w as u64),
        Op::Ctz => if a == 0 { w as u64 } else { a.trailing_zeros() as u64 },
        Op::Popcnt => a.count_ones() as u64,
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as u64,
        Op::Ite => if a != 0 { b } else { c },
        Op::Concat => ((a << wb) | b) & m,
        Op::Extract(lo) => (a >> lo) & m,
        Op::SExt => (sx(a, wa) as u64) & m,
        Op::FAdd => fbin!(x, y, x + y, x + y),
        Op::FSub => fbin!(x, y, x - y, x - y),
        Op::FMul => fbin!(x, y, x * y, x * y),
        Op::FDiv => fbin!(x, y, x / y, x / y),
        Op::FSqrt => fun!(x, x.sqrt(), x.sqrt()),
        Op::FMin => fbin!(x, y,
            if x.is_nan() || y.is_nan() { f32::NAN } else if x == 0.0 && y == 0.0 { f32::from_bits(x.to_bits() | y.to_bits()) } else if x < y { x } else { y },
            if x.is_nan() || y.is_nan() { f64::NAN } else if x == 0.0 && y == 0.0 { f64::from_bits(x.to_bits() | y.to_bits()) } else if x < y { x } else { y }),
        Op::FMax => fbin!(x, y,
            if x.is_nan() || y.is_nan() { f32::NAN } else if x == 0.0 && y == 0.0 { f32::from_bits(x.to_bits() & y.to_bits()) } else if x > y { x } else { y },
            if x.is_nan() || y.is_nan() { f64::NAN } else if x == 0.0 && y == 0.0 { f64::from_bits(x.to_bits() & y.to_bits()) } else if x > y { x } else { y }),
        Op::FCeil => fun!(x, x.ceil(), x.ceil()),
        Op::FFloor => fun!(x, x.floor(), x.floor()),
        Op::FTrunc => fun!(x, x.trunc(), x.trunc()),
        Op::FNearest => fun!(x, x.round_ties_even(), x.round_ties_even()),
        Op::FEq => fcmp!(x, y, x == y),
        Op::FLt => fcmp!(x, y, x < y),
        Op::FLe => fcmp!(x, y, x <= y),
        Op::FPromote => c64(f32a() as f64),
        Op::FDemote => c32(f64a() as f32),
        Op::CvtS => { let v = sx(a, wa); if w == 32 { c32(v as f32) } else { c64(v as f64) } }
        Op::CvtU => { if w == 32 { c32(a as f32) } else { c64(a as f64) } }
        Op::TruncS => {
            let v = if wa == 32 { f32a() as f64 } else { f64a() };
            // f32 -> f64 is exact, so one path suffices
            if w == 32 { (v as i32) as u32 as u64 } else { (v as i64) as u64 }
        }
        Op::TruncU => {
            let v = if wa == 32 { f32a() as f64 } else { f64a() };
            if w == 32 { (v as u32) as u64 } else { v as u64 }
        }
    }
}

impl Cx {
    pub fn new() -> Cx {
        let mut c = Cx {
            nodes: Vec::new(), map: HashMap::default(), vars: Vec::new(),
            ranges: Vec::new(), range_known: Vec::new(), tt: 0, ff: 0, pin: None,
        };
        c.nodes.push(Node { op: Op::Const(0), w: 0, a: 0, b: 0, c: 0 });
        c.ranges.push((0, 0));
        c.range_known.push(true);
        c.tt = c.k(1, 1);
        c.ff = c.k(0, 1);
        c
    }
    #[inline]
    pub fn w(&self, t: T) -> u8 { self.nodes[t as usize].w }
    #[inline]
    pub fn n(&self, t: T) -> Node { self.nodes[t as usize] }
    #[inline]
    pub fn cv(&self, t: T) -> Option<u64> {
        if let Op::Const(v) = self.nodes[t as usize].op { Some(v) } else { None }
    }
    fn mk(&mut self, op: Op, w: u8, a: T, b: T, c: T) -> T {
        let n = Node { op, w, a, b, c };
        if let Some(&t) = self.map.get(&n) { return t; }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.ranges.push((0, 0));
        self.range_known.push(false);
        self.map.insert(n, t);
        t
    }
    pub fn k(&mut self, v: u64, w: u8) -> T {
        debug_assert!(w >= 1 && w <= 64);
        self.mk(Op::Const(v & mask(w)), w, 0, 0, 0)
    }
    pub fn var(&mut self, name: &str, w: u8) -> T {
        if let Some(p) = &self.pin { let v = p.get(name).copied().unwrap_or(0); return self.k(v, w); }
        if let Some(v) = self.vars.iter().find(|v| v.name == name) {
            assert_eq!(v.w, w, "variable {} redeclared", name);
            return v.t;
        }
        let id = self.vars.len() as u32;
        let t = self.mk(Op::Var(id), w, 0, 0, 0);
        self.vars.push(VarInfo { name: name.to_string(), w, t });
        t
    }

    // ---- segments -------------------------------------------------------
    fn segs(&self, t: T, out: &mut Vec<T>) {
        let n = self.n(t);
        if n.op == Op::Concat { self.segs(n.a, out); self.segs(n.b, out); } else { out.push(t) }
    }
    fn has_const_seg(&self, t: T) -> bool {
        let n = self.n(t);
        match n.op {
            Op::Concat => self.has_const_seg(n.a) || self.has_const_seg(n.b),
            Op::Const(_) => true,
            _ => false,
        }
    }
    /// Splits both terms into aligned pieces (high to low).
    fn aligned(&mut self, a: T, b: T) -> Vec<(T, T)> {
        let (mut sa, mut sb) = (Vec::new(), Vec::new());
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        sa.reverse();
        sb.reverse();
        // now index 0 = lowest segment
        let mut out = Vec::new();
        let (mut i, mut j) = (0, 0);
        let (mut offa, mut offb) = (0u8, 0u8);
        while i < sa.len() && j < sb.len() {
            let ra = self.w(sa[i]) - offa;
            let rb = self.w(sb[j]) - offb;
            let l = ra.min(rb);
            let pa = self.extract(sa[i], offa, l);
            let pb = self.extract(sb[j], offb, l);
            out.push((pa, pb));
            offa += l;
            offb += l;
            if offa == self.w(sa[i]) { i += 1; offa = 0; }
            if offb == self.w(sb[j]) { j += 1; offb = 0; }
        }
        out.reverse();
        out
    }

    // ---- constructors ---------------------------------------------------
    pub fn concat(&mut self, a: T, b: T) -> T {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        debug_assert!(w <= 64);
        if na.op == Op::Concat {
            let t = self.concat(na.b, b);
            return self.concat(na.a, t);
        }
        // merge a with the top piece of b
        let (h, rest) = if nb.op == Op::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
        let nh = self.n(h);
        let merged = match (na.op, nh.op) {
            (Op::Const(x), Op::Const(y)) => Some(self.k((x << nh.w) | y, na.w + nh.w)),
            (Op::Extract(l1), Op::Extract(l2)) if na.a == nh.a && l1 == l2 + nh.w => {
                Some(self.extract(na.a, l2, na.w + nh.w))
            }
            (Op::Ite, Op::Ite) if na.a == nh.a && self.is_leafy(na.b) && self.is_leafy(nh.b) && self.is_leafy(na.c) && self.is_leafy(nh.c) => {
                let x = self.concat(na.b, nh.b);
                let y = self.concat(na.c, nh.c);
                Some(self.ite(na.a, x, y))
            }
            // sign replication of an adjacent sext: concat(sext(sign(x)), x)
            _ => None,
        };
        if let Some(m) = merged {
            return match rest { Some(r) => self.concat(m, r), None => m };
        }
        self.mk(Op::Concat, w, a, b, 0)
    }
    fn is_leafy(&self, t: T) -> bool { matches!(self.n(t).op, Op::Const(_)) }
    pub fn zext(&mut self, a: T, w: u8) -> T {
        let wa = self.w(a);
        if wa == w { return a; }
        let z = self.k(0, w - wa);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: T, w: u8) -> T {
        let n = self.n(a);
        if n.w == w { return a; }
        match n.op {
            Op::Const(v) => self.k(sx(v, n.w) as u64, w),
            Op::SExt => self.sext(n.a, w),
            Op::Concat if self.cv(n.a).map_or(false, |v| v >> (self.w(n.a) - 1) == 0) => self.zext(a, w),
            _ => self.mk(Op::SExt, w, a, 0, 0),
        }
    }
    pub fn extract(&mut self, a: T, lo: u8, w: u8) -> T {
        let n = self.n(a);
        debug_assert!(lo + w <= n.w);
        if w == n.w { return a; }
        match n.op {
            Op::Const(v) => self.k(v >> lo, w),
            Op::Extract(l) => self.extract(n.a, l + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb { self.extract(n.a, lo - wb, w) }
                else if lo + w <= wb { self.extract(n.b, lo, w) }
                else {
                    let h = self.extract(n.a, 0, lo + w - wb);
                    let l = self.extract(n.b, lo, wb - lo);
                    self.concat(h, l)
                }
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi { self.extract(n.a, lo, w) }
                else if lo >= wi - 1 { let s = self.extract(n.a, wi - 1, 1); self.sext(s, w) }
                else { let i = self.extract(n.a, lo, wi - lo); self.sext(i, w) }
            }
            Op::Not => { let x = self.extract(n.a, lo, w); self.not(x) }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                match n.op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) }
            }
            Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w >= 8 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                match n.op { Op::Add => self.add(x, y), Op::Sub => self.sub(x, y), _ => self.mul(x, y) }
            }
            _ => self.mk(Op::Extract(lo), w, a, 0, 0),
        }
    }
    fn fold2(&mut self, op: Op, w: u8, a: T, b: T) -> Option<T> {
        let (na, nb) = (self.n(a), self.n(b));
        if let (Op::Const(x), Op::Const(y)) = (na.op, nb.op) {
            let v = ev(op, w, na.w, x, nb.w, y, 0);
            return Some(self.k(v, w));
        }
        None
    }
    pub fn not(&mut self, a: T) -> T {
        let n = self.n(a);
        match n.op {
            Op::Const(v) => self.k(!v, n.w),
            Op::Not => n.a,
            Op::Concat => { let x = self.not(n.a); let y = self.not(n.b); self.concat(x, y) }
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let x = self.not(n.b); let y = self.not(n.c); self.ite(n.a, x, y)
            }
            _ => self.mk(Op::Not, n.w, a, 0, 0),
        }
    }
    pub fn add(&mut self, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::Add, w, a, b) { return t; }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        // b may be constant
        if let Some(k) = self.cv(b) {
            if k == 0 { return a; }
            let n = self.n(a);
            if n.op == Op::Add {
                if let Some(k2) = self.cv(n.b) {
                    let kk = self.k(k.wrapping_add(k2), w);
                    return self.add(n.a, kk);
                }
            }
            if n.op == Op::Ite && (self.cv(n.b).is_some() && self.cv(n.c).is_some()) {
                let x = self.add(n.b, b);
                let y = self.add(n.c, b);
                return self.ite(n.a, x, y);
            }
            // disjoint constant low bits: or-like
            if w > 1 && self.disjoint(a, b) { return self.or(a, b); }
            if w == 1 { return self.xor(a, b); }
            return self.mk(Op::Add, w, a, b, 0);
        }
        // pull constants out
        let na = self.n(a);
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        let nb = self.n(b);
        if nb.op == Op::Add && self.cv(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        if w > 1 && (self.has_const_seg(a) || self.has_const_seg(b)) && self.disjoint(a, b) { return self.or(a, b); }
        if na.op == Op::Sub && na.b == b { return na.a; }
        if nb.op == Op::Sub && nb.b == a { return nb.a; }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Add, w, a, b, 0)
    }
    /// structurally disjoint bit supports
    fn disjoint(&mut self, a: T, b: T) -> bool {
        for (x, y) in self.aligned(a, b) {
            if self.cv(x) != Some(0) && self.cv(y) != Some(0) { return false; }
        }
        true
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::Sub, w, a, b) { return t; }
        if a == b { return self.k(0, w); }
        if let Some(k) = self.cv(b) {
            let nk = self.k(k.wrapping_neg(), w);
            return self.add(a, nk);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Add {
            if na.b == b { return na.a; }
            if na.a == b { return na.b; }
            if self.cv(na.b).is_some() {
                let s = self.sub(na.a, b);
                return self.add(s, na.b);
            }
        }
        if nb.op == Op::Add {
            if let Some(k) = self.cv(nb.b) {
                let s = self.sub(a, nb.a);
                let nk = self.k(k.wrapping_neg(), w);
                return self.add(s, nk);
            }
        }
        self.mk(Op::Sub, w, a, b, 0)
    }
    pub fn mul(&mut self, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::Mul, w, a, b) { return t; }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(k) = self.cv(b) {
            if k == 0 { return b; }
            if k == 1 { return a; }
            if k.is_power_of_two() {
                let s = self.k(k.trailing_zeros() as u64, w);
                return self.shl(a, s);
            }
            return self.mk(Op::Mul, w, a, b, 0);
        }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Mul, w, a, b, 0)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::UDiv, w, a, b) { return t; }
        if let Some(k) = self.cv(b) {
            if k.is_power_of_two() {
                let s = self.k(k.trailing_zeros() as u64, w);
                return self.lshr(a, s);
            }
        }
        self.mk(Op::UDiv, w, a, b, 0)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::URem, w, a, b) { return t; }
        if let Some(k) = self.cv(b) {
            if k.is_power_of_two() { let m = self.k(k - 1, w); return self.and(a, m); }
        }
        self.mk(Op::URem, w, a, b, 0)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::SDiv, w, a, b) { return t; }
        if self.cv(b) == Some(1) { return a; }
        self.mk(Op::SDiv, w, a, b, 0)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::SRem, w, a, b) { return t; }
        self.mk(Op::SRem, w, a, b, 0)
    }
    fn kmask_apply(&mut self, a: T, k: u64, op: Op) -> Option<T> {
        // and/or with a constant mask having at most 4 runs -> concat of pieces
        let w = self.w(a);
        let mut runs = Vec::new(); // (lo, len, bit)
        let mut i = 0u8;
        while i < w {
            let bit = (k >> i) & 1;
            let s = i;
            while i < w && (k >> i) & 1 == bit { i += 1; }
            runs.push((s, i - s, bit));
        }
        if runs.len() > 6 { return None; }
        let mut acc: Option<T> = None;
        for (lo, len, bit) in runs {
            let piece = match (op, bit) {
                (Op::And, 0) => self.k(0, len),
                (Op::Or, 1) => self.k(mask(len), len),
                _ => self.extract(a, lo, len),
            };
            acc = Some(match acc { None => piece, Some(l) => self.concat(piece, l) });
        }
        acc
    }
    pub fn and(&mut self, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::And, w, a, b) { return t; }
        if a == b { return a; }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(k) = self.cv(b) {
            if k == 0 { return b; }
            if k == mask(w) { return a; }
            if self.n(a).op == Op::Ite && self.cv(self.n(a).b).is_some() && self.cv(self.n(a).c).is_some() {
                let n = self.n(a);
                let x = self.and(n.b, b); let y = self.and(n.c, b);
                return self.ite(n.a, x, y);
            }
            if let Some(t) = self.kmask_apply(a, k, Op::And) { return t; }
        } else if self.n(a).op == Op::Not && self.n(a).a == b || self.n(b).op == Op::Not && self.n(b).a == a {
            return self.k(0, w);
        } else if w > 1 && (self.has_const_seg(a) || self.has_const_seg(b)) {
            return self.segwise(a, b, Op::And);
        }
        if w == 1 {
            // absorption helpers: (x & y) & x
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::And && (na.a == b || na.b == b) { return a; }
            if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
        }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::And, w, a, b, 0)
    }
    fn segwise(&mut self, a: T, b: T, op: Op) -> T {
        let v = self.aligned(a, b);
        let mut acc: Option<T> = None;
        for &(x, y) in v.iter().rev() {
            let p = if v.len() == 1 {
                let (mut x, mut y) = (x, y);
                if x > y { std::mem::swap(&mut x, &mut y); }
                let w = self.w(x);
                self.mk(op, w, x, y, 0)
            } else {
                match op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) }
            };
            acc = Some(match acc { None => p, Some(l) => self.concat(p, l) });
        }
        acc.unwrap()
    }
    pub fn or(&mut self, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::Or, w, a, b) { return t; }
        if a == b { return a; }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(k) = self.cv(b) {
            if k == 0 { return a; }
            if k == mask(w) { return b; }
            if let Some(t) = self.kmask_apply(a, k, Op::Or) { return t; }
        } else if self.n(a).op == Op::Not && self.n(a).a == b || self.n(b).op == Op::Not && self.n(b).a == a {
            return self.k(mask(w), w);
        } else if w > 1 && (self.has_const_seg(a) || self.has_const_seg(b)) {
            return self.segwise(a, b, Op::Or);
        }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Or, w, a, b, 0)
    }
    pub fn xor(&mut self, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::Xor, w, a, b) { return t; }
        if a == b { return self.k(0, w); }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(k) = self.cv(b) {
            if k == 0 { return a; }
            if k == mask(w) { return self.not(a); }
            // split by runs so that sign-bit flips become Not(extract)
            let mut runs = Vec::new();
            let mut i = 0u8;
            while i < w {
                let bit = (k >> i) & 1;
                let s = i;
                while i < w && (k >> i) & 1 == bit { i += 1; }
                runs.push((s, i - s, bit));
            }
            if runs.len() <= 4 {
                let mut acc: Option<T> = None;
                for (lo, len, bit) in runs {
                    let e = self.extract(a, lo, len);
                    let p = if bit == 1 { self.not(e) } else { e };
                    acc = Some(match acc { None => p, Some(l) => self.concat(p, l) });
                }
                return acc.unwrap();
            }
        } else if w > 1 && (self.has_const_seg(a) || self.has_const_seg(b)) {
            return self.segwise(a, b, Op::Xor);
        }
        if self.n(a).op == Op::Not && self.n(b).op == Op::Not { let (x, y) = (self.n(a).a, self.n(b).a); return self.xor(x, y); }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Xor, w, a, b, 0)
    }
    pub fn shl(&mut self, a: T, s: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::Shl, w, a, s) { return t; }
        if let Some(k) = self.cv(s) {
            if k == 0 { return a; }
            if k >= w as u64 { return self.k(0, w); }
            let x = self.extract(a, 0, w - k as u8);
            let z = self.k(0, k as u8);
            return self.concat(x, z);
        }
        self.mk(Op::Shl, w, a, s, 0)
    }
    pub fn lshr(&mut self, a: T, s: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::LShr, w, a, s) { return t; }
        if let Some(k) = self.cv(s) {
            if k == 0 { return a; }
            if k >= w as u64 { return self.k(0, w); }
            let x = self.extract(a, k as u8, w - k as u8);
            return self.zext(x, w);
        }
        self.mk(Op::LShr, w, a, s, 0)
    }
    pub fn ashr(&mut self, a: T, s: T) -> T {
        let w = self.w(a);
        if let Some(t) = self.fold2(Op::AShr, w, a, s) { return t; }
        if let Some(k) = self.cv(s) {
            if k == 0 { return a; }
            let k = k.min(w as u64 - 1) as u8;
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.mk(Op::AShr, w, a, s, 0)
    }
    /// rotate left; shift amount reduced modulo the width
    pub fn rotl(&mut self, a: T, s: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cv(s) {
            let k = (k % w as u64) as u8;
            if k == 0 { return a; }
            let h = self.extract(a, 0, w - k);
            let l = self.extract(a, w - k, k);
            return self.concat(h, l);
        }
        let m = self.k(w as u64 - 1, w);
        let s = self.and(s, m);
        if self.cv(s).is_some() { return self.rotl(a, s); }
        self.mk(Op::Rotl, w, a, s, 0)
    }
    pub fn rotr(&mut self, a: T, s: T) -> T {
        let w = self.w(a);
        let z = self.k(0, w);
        let n = self.sub(z, s);
        self.rotl(a, n)
    }
    pub fn un(&mut self, op: Op, w: u8, a: T) -> T {
        let n = self.n(a);
        if let Op::Const(v) = n.op {
            let r = ev(op, w, n.w, v, 0, 0, 0);
            return self.k(r, w);
        }
        if self.leaves(a, 4) > 1 { let (x, y) = (self.un(op, w, n.b), self.un(op, w, n.c)); return self.ite(n.a, x, y); }
        self.mk(op, w, a, 0, 0)
    }
    /// number of leaves of a choice between constants (0: anything else)
    fn leaves(&self, t: T, max: usize) -> usize {
        let n = self.n(t);
        match n.op {
            Op::Const(_) => 1,
            Op::Ite if max > 1 => { let x = self.leaves(n.b, max - 1); if x == 0 { return 0; } let y = self.leaves(n.c, max - x); if y == 0 || x + y > max { 0 } else { x + y } }
            _ => 0,
        }
    }
    pub fn bin(&mut self, op: Op, w: u8, a: T, b: T) -> T {
        if let Some(t) = self.fold2(op, w, a, b) { return t; }
        if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FMin | Op::FMax | Op::FEq | Op::FLt | Op::FLe) {
            if a == b && self.leaves(a, 4) > 1 { let n = self.n(a); let (x, y) = (self.bin(op, w, n.b, n.b), self.bin(op, w, n.c, n.c)); return self.ite(n.a, x, y); }
            if self.cv(b).is_some() && self.leaves(a, 4) > 1 { let n = self.n(a); let (x, y) = (self.bin(op, w, n.b, b), self.bin(op, w, n.c, b)); return self.ite(n.a, x, y); }
            if self.cv(a).is_some() && self.leaves(b, 4) > 1 { let n = self.n(b); let (x, y) = (self.bin(op, w, a, n.b), self.bin(op, w, a, n.c)); return self.ite(n.a, x, y); }
        }
        // a converted integer is no NaN: times one, over one
        if matches!(op, Op::FMul | Op::FDiv) {
            let one = if w == 32 { 1f32.to_bits() as u64 } else { 1f64.to_bits() };
            let cvt = |s: &Self, t: T| matches!(s.n(t).op, Op::CvtS | Op::CvtU);
            if self.cv(b) == Some(one) && cvt(self, a) { return a; }
            if op == Op::FMul && self.cv(a) == Some(one) && cvt(self, b) { return b; }
        }
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::FAdd | Op::FMul | Op::FMin | Op::FMax | Op::FEq) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(op, w, a, b, 0)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return self.tt; }
        let (mut a, mut b) = (a, b);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(t) = self.fold2(Op::Eq, 1, a, b) { return t; }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if w == 1 {
            if let Some(k) = self.cv(b) { return if k == 1 { a } else { self.not(a) }; }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(k) = self.cv(b) {
            match na.op {
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.k(k >> wl, w - wl);
                    let kl = self.k(k, wl);
                    let x = self.eq(na.a, kh);
                    if x == self.ff { return x; }
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                Op::Add => if let Some(k2) = self.cv(na.b) {
                    let kk = self.k(k.wrapping_sub(k2), w);
                    return self.eq(na.a, kk);
                },
                Op::Sub if k == 0 => return self.eq(na.a, na.b),
                Op::Xor if k == 0 => return self.eq(na.a, na.b),
                Op::Not => { let kk = self.k(!k, w); return self.eq(na.a, kk); }
                Op::Ite => {
                    let (x, y) = (self.cv(na.b), self.cv(na.c));
                    if x.is_some() || y.is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    let kl = k & mask(wi);
                    if (sx(kl, wi) as u64) & mask(w) != k { return self.ff; }
                    let kk = self.k(kl, wi);
                    return self.eq(na.a, kk);
                }
                _ => {}
            }
            let (lo, hi) = self.range(a);
            if k < lo || k > hi { return self.ff; }
        } else {
            // common additive part
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.eq(na.a, nb.a); }
            if na.op == Op::Concat && nb.op == Op::Concat {
                let v = self.aligned(a, b);
                let mut acc = self.tt;
                for (x, y) in v {
                    let e = self.eq(x, y);
                    if e == self.ff { return e; }
                    acc = self.and(acc, e);
                }
                return acc;
            }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
        }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Eq, 1, a, b, 0)
    }
    pub fn ne(&mut self, a: T, b: T) -> T { let e = self.eq(a, b); self.not(e) }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b { return self.ff; }
        if let Some(t) = self.fold2(Op::Ult, 1, a, b) { return t; }
        let (la, ha) = self.range(a);
        let (lb, hb) = self.range(b);
        if ha < lb { return self.tt; }
        if la >= hb { return self.ff; }
        let w = self.w(a);
        if self.cv(b) == Some(1) { let z = self.k(0, w); return self.eq(a, z); }
        if self.cv(a) == Some(0) { let z = self.k(0, w); return self.ne(b, z); }
        // strip common zero prefixes
        let (na, nb) = (self.n(a), self.n(b));
        let za = if na.op == Op::Concat && self.cv(na.a) == Some(0) { self.w(na.a) } else if let Some(v) = self.cv(a) { (v.leading_zeros() as u8) - (64 - w) } else { 0 };
        let zb = if nb.op == Op::Concat && self.cv(nb.a) == Some(0) { self.w(nb.a) } else if let Some(v) = self.cv(b) { (v.leading_zeros() as u8) - (64 - w) } else { 0 };
        let z = za.min(zb);
        if z > 0 && z < w {
            let x = self.extract(a, 0, w - z);
            let y = self.extract(b, 0, w - z);
            return self.ult(x, y);
        }
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: T, b: T) -> T { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b { return self.ff; }
        if let Some(t) = self.fold2(Op::Slt, 1, a, b) { return t; }
        let w = self.w(a);
        if self.cv(b) == Some(0) { return self.extract(a, w - 1, 1); }
        if self.cv(a) == Some(mask(w)) { let s = self.extract(b, w - 1, 1); return self.not(s); }
        let (_, ha) = self.range(a);
        let (_, hb) = self.range(b);
        let half = 1u64 << (w - 1);
        if ha < half && hb < half { return self.ult(a, b); }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.slt(na.a, nb.a); }
        if na.op == Op::SExt {
            if let Some(k) = self.cv(b) {
                let wi = self.w(na.a);
                let kl = k & mask(wi);
                if (sx(kl, wi) as u64) & mask(w) == k { let kk = self.k(kl, wi); return self.slt(na.a, kk); }
            }
        }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn sle(&mut self, a: T, b: T) -> T { let x = self.slt(b, a); self.not(x) }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.cv(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let nc = self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => { let n = self.not(c); return self.and(n, b); }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
            if a == c { return self.or(c, b); }
            if b == c { return self.and(c, a); }
        } else if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            // ite(c, 1, 0) -> zext c
            if x == 1 && y == 0 { return self.zext(c, w); }
            if x == 0 && y == 1 { let n = self.not(c); return self.zext(n, w); }
            if x == mask(w) && y == 0 { return self.sext(c, w); }
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        self.mk(Op::Ite, w, c, a, b)
    }

    // ---- unsigned range ---------------------------------------------------
    pub fn range(&mut self, t: T) -> (u64, u64) {
        if self.range_known[t as usize] { return self.ranges[t as usize]; }
        let n = self.n(t);
        let m = mask(n.w);
        let full = (0, m);
        let r = match n.op {
            Op::Const(v) => (v, v),
            Op::Concat => {
                let wb = self.w(n.b);
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                ((la << wb) | lb, (ha << wb) | hb)
            }
            Op::Add => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                match ha.checked_add(hb) {
                    Some(h) if h <= m => (la + lb, h),
                    // both ends wrap (e.g. x + negative constant)
                    _ => {
                        let lo = la as u128 + lb as u128;
                        let hi = ha as u128 + hb as u128;
                        let md = m as u128 + 1;
                        if lo >= md { ((lo - md) as u64, (hi - md) as u64) } else { full }
                    }
                }
            }
            Op::Sub => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                if la >= hb { (la - hb, ha - lb) } else { full }
            }
            Op::And => { let (_, ha) = self.range(n.a); let (_, hb) = self.range(n.b); (0, ha.min(hb)) }
            Op::Or => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                let bits = 64 - (ha | hb).leading_zeros();
                (la.max(lb), if bits == 0 { 0 } else { mask(bits as u8) })
            }
            Op::Ite => {
                let (la, ha) = self.range(n.b);
                let (lb, hb) = self.range(n.c);
                (la.min(lb), ha.max(hb))
            }
            Op::URem => {
                let (lb, hb) = self.range(n.b);
                if lb > 0 { (0, hb - 1) } else { full }
            }
            Op::UDiv => {
                let (lb, _) = self.range(n.b);
                let (_, ha) = self.range(n.a);
                if lb > 0 { (0, ha / lb) } else { full }
            }
            Op::LShr => { let (_, ha) = self.range(n.a); (0, ha) }
            Op::Mul => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                match ha.checked_mul(hb) { Some(h) if h <= m => (la * lb, h), _ => full }
            }
            Op::Clz | Op::Ctz | Op::Popcnt => (0, n.w as u64),
            _ => full,
        };
        self.ranges[t as usize] = r;
        self.range_known[t as usize] = true;
        r
    }

    // ---- floating point helpers --------------------------------------------
    pub fn fis_nan(&mut self, a: T) -> T {
        let e = self.bin(Op::FEq, 1, a, a);
        self.not(e)
    }
    pub fn fabs(&mut self, a: T) -> T {
        let w = self.w(a);
        let x = self.extract(a, 0, w - 1);
        self.zext(x, w)
    }
    pub fn fneg(&mut self, a: T) -> T {
        let w = self.w(a);
        let x = self.extract(a, 0, w - 1);
        let s = self.extract(a, w - 1, 1);
        let s = self.not(s);
        self.concat(s, x)
    }
    pub fn fcopysign(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let x = self.extract(a, 0, w - 1);
        let s = self.extract(b, w - 1, 1);
        self.concat(s, x)
    }

    /// All terms reachable from `roots`, ascending ids (children first).
    pub fn reach(&self, roots: &[T]) -> Vec<T> {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<T> = roots.to_vec();
        while let Some(t) = st.pop() {
            if t == 0 || !seen.insert(t) { continue; }
            let n = self.n(t);
            for x in [n.a, n.b, n.c] { if x != 0 { st.push(x) } }
        }
        let mut v: Vec<T> = seen.into_iter().collect();
        v.sort();
        v
    }

    /// Human-readable rendering down to some depth (debugging aid).
    pub fn show(&self, t: T, d: u32) -> String {
        let n = self.n(t);
        match n.op {
            Op::Const(k) => format!("{:#x}", k),
            Op::Var(i) => self.vars[i as usize].name.clone(),
            _ if d == 0 => format!("#{}", t),
            op => {
                let mut s = format!("({:?}.{}", op, n.w);
                for x in [n.a, n.b, n.c] { if x != 0 { s.push(' '); s.push_str(&self.show(x, d - 1)); } }
                s.push(')');
                s
            }
        }
    }
    /// Rebuilds a term under the facts `f` (terms with a known value).
    pub fn subst(&mut self, root: T, f: &dyn Fn(T) -> Option<u64>) -> T {
        let mut m: HashMap<T, T, FxB> = HashMap::default();
        m.insert(0, 0);
        for t in self.reach(&[root]) {
            let n = self.n(t);
            let r = if let Op::Const(_) = n.op { t }
                else if let Some(k) = f(t) { self.k(k, n.w) }
                else {
                    let g = |x: T| *m.get(&x).unwrap_or(&x);
                    let (a, b, c) = (g(n.a), g(n.b), g(n.c));
                    if a == n.a && b == n.b && c == n.c { t } else {
                        match n.op {
                            Op::Const(_) | Op::Var(_) => t,
                            Op::Add => self.add(a, b), Op::Sub => self.sub(a, b), Op::Mul => self.mul(a, b),
                            Op::UDiv => self.udiv(a, b), Op::SDiv => self.sdiv(a, b), Op::URem => self.urem(a, b), Op::SRem => self.srem(a, b),
                            Op::And => self.and(a, b), Op::Or => self.or(a, b), Op::Xor => self.xor(a, b), Op::Not => self.not(a),
                            Op::Shl => self.shl(a, b), Op::LShr => self.lshr(a, b), Op::AShr => self.ashr(a, b), Op::Rotl => self.rotl(a, b),
                            Op::Eq => self.eq(a, b), Op::Ult => self.ult(a, b), Op::Slt => self.slt(a, b),
                            Op::Ite => self.ite(a, b, c),
                            Op::Concat => self.concat(a, b),
                            Op::Extract(lo) => self.extract(a, lo, n.w),
                            Op::SExt => self.sext(a, n.w),
                            op => if b != 0 { self.bin(op, n.w, a, b) } else { self.un(op, n.w, a) },
                        }
                    }
                };
            m.insert(t, r);
        }
        m[&root]
    }

    // ---- SMT printing -------------------------------------------------------
    pub fn smt_sort(&self, t: T) -> String {
        let w = self.w(t);
        if w == 1 { "Bool".into() } else { format!("(_ BitVec {})", w) }
    }
    fn smt_const(v: u64, w: u8) -> String {
        if w == 1 { return if v == 1 { "true".into() } else { "false".into() }; }
        if w % 4 == 0 { format!("#x{:0width$x}", v, width = (w / 4) as usize) }
        else { format!("#b{:0width$b}", v, width = w as usize) }
    }
    pub fn smt_ref(&self, t: T) -> String {
        let n = self.n(t);
        match n.op {
            Op::Const(v) => Self::smt_const(v, n.w),
            Op::Var(i) => format!("v{}", i),
            _ => format!("t{}", t),
        }
    }
    /// Reference as a bit-vector even when Boolean.
    fn bvref(&self, t: T) -> String {
        if self.w(t) == 1 {
            match self.cv(t) { Some(1) => "#b1".into(), Some(_) => "#b0".into(),
                None => format!("(ite {} #b1 #b0)", self.smt_ref(t)) }
        } else { self.smt_ref(t) }
    }
    fn fsort(w: u8) -> &'static str { if w == 32 { "8 24" } else { "11 53" } }
    fn fp(&self, t: T) -> String {
        format!("((_ to_fp {}) {})", Self::fsort(self.w(t)), self.smt_ref(t))
    }
    /// Body of the definition of a non-leaf term.
    pub fn smt_body(&self, t: T) -> String {
        let n = self.n(t);
        let r = |x: T| self.smt_ref(x);
        let w = n.w;
        let b2 = |o: &str| format!("({} {} {})", o, r(n.a), r(n.b));
        let fres = |e: String| -> String {
            let cn = if w == 32 { Self::smt_const(CNAN32 as u64, 32) } else { Self::smt_const(CNAN64, 64) };
            format!("(let ((e {})) (ite (fp.isNaN e) {} (fp.to_ieee_bv e)))", e, cn)
        };
        match n.op {
            Op::Const(_) | Op::Var(_) => r(t),
            Op::Add => b2("bvadd"), Op::Sub => b2("bvsub"), Op::Mul => b2("bvmul"),
            Op::UDiv => b2("bvudiv"), Op::SDiv => b2("bvsdiv"), Op::URem => b2("bvurem"), Op::SRem => b2("bvsrem"),
            Op::And => if w == 1 { b2("and") } else { b2("bvand") },
            Op::Or => if w == 1 { b2("or") } else { b2("bvor") },
            Op::Xor => if w == 1 { b2("xor") } else { b2("bvxor") },
            Op::Not => if w == 1 { format!("(not {})", r(n.a)) } else { format!("(bvnot {})", r(n.a)) },
            Op::Shl => b2("bvshl"), Op::LShr => b2("bvlshr"), Op::AShr => b2("bvashr"),
            Op::Rotl => {
                let wc = Self::smt_const(w as u64, w);
                format!("(bvor (bvshl {a} {s}) (bvlshr {a} (bvsub {wc} {s})))", a = r(n.a), s = r(n.b), wc = wc)
            }
            Op::Clz => {
                let mut s = Self::smt_const(w as u64, w);
                for i in 0..w { // lowest priority first
                    s = format!("(ite (= ((_ extract {i} {i}) {}) #b1) {} {})", r(n.a), Self::smt_const((w - 1 - i) as u64, w), s, i = i);
                }
                s
            }
            Op::Ctz => {
                let mut s = Self::smt_const(w as u64, w);
                for i in (0..w).rev() {
                    s = format!("(ite (= ((_ extract {i} {i}) {}) #b1) {} {})", r(n.a), Self::smt_const(i as u64, w), s, i = i);
                }
                s
            }
            Op::Popcnt => {
                let mut s = String::from("(bvadd");
                for i in 0..w { s += &format!(" ((_ zero_extend {}) ((_ extract {i} {i}) {}))", w - 1, r(n.a), i = i); }
                s + ")"
            }
            Op::Eq => format!("(= {} {})", r(n.a), r(n.b)),
            Op::Ult => b2("bvult"), Op::Slt => b2("bvslt"),
            Op::Ite => format!("(ite {} {} {})", r(n.a), r(n.b), r(n.c)),
            Op::Concat => format!("(concat {} {})", self.bvref(n.a), self.bvref(n.b)),
            Op::Extract(lo) => {
                let e = format!("((_ extract {} {}) {})", lo + w - 1, lo, self.bvref(n.a));
                if w == 1 { format!("(= {} #b1)", e) } else { e }
            }
            Op::SExt => {
                let wa = self.w(n.a);
                format!("((_ sign_extend {}) {})", w - wa, self.bvref(n.a))
            }
            Op::FAdd => fres(format!("(fp.add RNE {} {})", self.fp(n.a), self.fp(n.b))),
            Op::FSub => fres(format!("(fp.sub RNE {} {})", self.fp(n.a), self.fp(n.b))),
            Op::FMul => fres(format!("(fp.mul RNE {} {})", self.fp(n.a), self.fp(n.b))),
            Op::FDiv => fres(format!("(fp.div RNE {} {})", self.fp(n.a), self.fp(n.b))),
            Op::FSqrt => fres(format!("(fp.sqrt RNE {})", self.fp(n.a))),
            Op::FCeil => fres(format!("(fp.roundToIntegral RTP {})", self.fp(n.a))),
            Op::FFloor => fres(format!("(fp.roundToIntegral RTN {})", self.fp(n.a))),
            Op::FTrunc => fres(format!("(fp.roundToIntegral RTZ {})", self.fp(n.a))),
            Op::FNearest => fres(format!("(fp.roundToIntegral RNE {})", self.fp(n.a))),
            Op::FMin | Op::FMax => {
                let cn = if w == 32 { Self::smt_const(CNAN32 as u64, 32) } else { Self::smt_const(CNAN64, 64) };
                let (a, b) = (r(n.a), r(n.b));
                let (fa, fb) = (self.fp(n.a), self.fp(n.b));
                let (zz, cmp) = if n.op == Op::FMin { ("bvor", "fp.lt") } else { ("bvand", "fp.gt") };
                format!("(ite (or (fp.isNaN {fa}) (fp.isNaN {fb})) {cn} (ite (and (fp.isZero {fa}) (fp.isZero {fb})) ({zz} {a} {b}) (ite ({cmp} {fa} {fb}) {a} {b})))")
            }
            Op::FEq => format!("(fp.eq {} {})", self.fp(n.a), self.fp(n.b)),
            Op::FLt => format!("(fp.lt {} {})", self.fp(n.a), self.fp(n.b)),
            Op::FLe => format!("(fp.leq {} {})", self.fp(n.a), self.fp(n.b)),
            Op::FPromote => fres(format!("((_ to_fp 11 53) RNE {})", self.fp(n.a))),
            Op::FDemote => fres(format!("((_ to_fp 8 24) RNE {})", self.fp(n.a))),
            Op::CvtS => fres(format!("((_ to_fp {}) RNE {})", Self::fsort(w), r(n.a))),
            Op::CvtU => fres(format!("((_ to_fp_unsigned {}) RNE {})", Self::fsort(w), r(n.a))),
            Op::TruncS => format!("((_ fp.to_sbv {}) RTZ {})", w, self.fp(n.a)),
            Op::TruncU => format!("((_ fp.to_ubv {}) RTZ {})", w, self.fp(n.a)),
        }
    }
}

/// A model (assignment to variables) with memoised evaluation.
pub struct Model {
    pub vals: Vec<u64>,
    memo: std::cell::RefCell<HashMap<T, u64, FxB>>,
}

impl Model {
    pub fn new(vals: Vec<u64>) -> Model { Model { vals, memo: Default::default() } }
    pub fn eval(&self, cx: &Cx, t: T) -> u64 {
        if let Some(v) = cx.cv(t) { return v; }
        let mut memo = self.memo.borrow_mut();
        if let Some(&v) = memo.get(&t) { return v; }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) { st.pop(); continue; }
            let n = cx.n(x);
            match n.op {
                Op::Const(v) => { memo.insert(x, v); st.pop(); continue; }
                Op::Var(i) => { memo.insert(x, self.vals.get(i as usize).copied().unwrap_or(0) & mask(n.w)); st.pop(); continue; }
                _ => {}
            }
            let mut ready = true;
            // lazily evaluate ite branches
            if n.op == Op::Ite {
                match memo.get(&n.a) {
                    None => { st.push(n.a); continue; }
                    Some(&c) => {
                        let br = if c != 0 { n.b } else { n.c };
                        match memo.get(&br) {
                            None => { st.push(br); continue; }
                            Some(&v) => { memo.insert(x, v); st.pop(); continue; }
                        }
                    }
                }
            }
            for y in [n.a, n.b, n.c] {
                if y != 0 && !memo.contains_key(&y) { st.push(y); ready = false; }
            }
            if !ready { continue; }
            let g = |y: T| if y == 0 { 0 } else { memo[&y] };
            let (a, b, c) = (g(n.a), g(n.b), g(n.c));
            let wb = if n.b != 0 { cx.w(n.b) } else { 0 };
            let wa = if n.a != 0 { cx.w(n.a) } else { 0 };
            let v = ev(n.op, n.w, wa, a, wb, b, c);
            memo.insert(x, v);
            st.pop();
        }
        memo[&t]
    }
}
