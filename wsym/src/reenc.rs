//! Rewrites a module binary into another valid encoding of the same module.
use crate::diff::{leb_min_s, leb_min_u, leb_s, leb_u};

/// What to write differently.
#[derive(Clone, Debug, Default)]
pub struct Enc {
    /// over-long numbers: 0 none, 1 all to full length, 2 a random mix
    pub pad: u8,
    pub seed: u64,
    /// custom sections (name, contents) before, between and behind all sections
    pub custom: Vec<(String, String)>,
    /// locals: 0 as they are, 1 one entry per local, 2 with empty entries between, 3 both
    pub locals: u8,
    /// data segments with explicit memory index
    pub data2: bool,
    /// element segments: 0 as they are, 1 explicit table and kind, 2 expressions, 3 expressions with explicit table and type
    pub elems: u8,
    /// data count section: 0 as it is, 1 always, 2 only when needed
    pub count: u8,
    /// block types by type index, every function type twice (call_indirect uses the second)
    pub types: bool,
    /// alignment hints dropped
    pub align: bool,
}

struct Rd<'a> { b: &'a [u8], p: usize }
impl<'a> Rd<'a> {
    fn done(&self) -> bool { self.p >= self.b.len() }
    fn u8(&mut self) -> u8 { self.p += 1; self.b[self.p - 1] }
    fn u(&mut self) -> u64 { let (mut r, mut s) = (0u64, 0); loop { let b = self.u8(); r |= ((b & 127) as u64) << s; s += 7; if b & 128 == 0 { return r; } } }
    fn s(&mut self) -> i64 { let (mut r, mut s) = (0i64, 0u32); loop { let b = self.u8(); if s < 64 { r |= ((b & 127) as i64) << s; } s += 7; if b & 128 == 0 { if s < 64 && b & 64 != 0 { r |= -1i64 << s; } return r; } } }
    fn take(&mut self, n: usize) -> &'a [u8] { self.p += n; &self.b[self.p - n..self.p] }
    fn sub(&mut self) -> Rd<'a> { let n = self.u() as usize; Rd { b: self.take(n), p: 0 } }
}

pub struct Tr { e: Enc, ntypes: u64, nfun: u64, used: Vec<u8>, rnd: u64, wants_count: bool, ndata: Option<u64> }
impl Tr {
    fn r(&mut self) -> u64 { self.rnd ^= self.rnd << 13; self.rnd ^= self.rnd >> 7; self.rnd ^= self.rnd << 17; self.rnd >> 11 }
    fn len(&mut self, min: usize, max: usize) -> usize { match self.e.pad { 0 => min, 1 => max, _ => min + (self.r() as usize) % (max - min + 1) } }
    fn u(&mut self, o: &mut Vec<u8>, x: u64) { let m = leb_min_u(x).len(); let n = self.len(m, 5.max(m)); o.extend(leb_u(x, n)); }
    fn s(&mut self, o: &mut Vec<u8>, x: i64, max: usize) { let m = leb_min_s(x).len(); let n = self.len(m, max); o.extend(leb_s(x, n)); }
    fn cu(&mut self, i: &mut Rd, o: &mut Vec<u8>) -> u64 { let x = i.u(); self.u(o, x); x }
    fn name(&mut self, i: &mut Rd, o: &mut Vec<u8>) { let n = self.cu(i, o) as usize; o.extend_from_slice(i.take(n)); }
    fn limits(&mut self, i: &mut Rd, o: &mut Vec<u8>) { let f = i.u8(); o.push(f); self.cu(i, o); if f & 1 != 0 { self.cu(i, o); } }
    fn sized(&mut self, o: &mut Vec<u8>, b: Vec<u8>) { self.u(o, b.len() as u64); o.extend(b); }
    /// instructions up to and including the matching end
    fn expr(&mut self, i: &mut Rd, o: &mut Vec<u8>) {
        let mut depth = 0;
        loop {
            let op = i.u8();
            o.push(op);
            match op {
                0x02 | 0x03 | 0x04 => {
                    depth += 1;
                    let b = i.b[i.p];
                    if b == 0x40 || (0x6f..=0x7f).contains(&b) {
                        i.u8();
                        if !self.e.types { o.push(b) } else {
                            let k = match self.used.iter().position(|&x| x == b) { Some(k) => k, None => { self.used.push(b); self.used.len() - 1 } } as u64;
                            let t = 2 * self.ntypes + k;
                            self.s(o, t as i64, 5);
                        }
                    } else { let x = i.s(); self.s(o, x, 5); }
                }
                0x05 => {}
                0x0b => { if depth == 0 { return; } depth -= 1; }
                0x0c | 0x0d | 0x10 | 0x20..=0x26 | 0xd2 => { self.cu(i, o); }
                0x0e => { let n = self.cu(i, o); for _ in 0..=n { self.cu(i, o); } }
                0x11 => { let mut t = i.u(); if self.e.types { t += self.ntypes; } self.u(o, t); self.cu(i, o); }
                0x1c => { let n = self.cu(i, o); o.extend_from_slice(i.take(n as usize)); }
                0x28..=0x3e => {
                    let mut a = i.u();
                    let mi = if a & 64 != 0 { Some(i.u()) } else { None };
                    if self.e.align { a &= 64; }
                    self.u(o, a);
                    if let Some(m) = mi { self.u(o, m); }
                    self.cu(i, o);
                }
                0x3f | 0x40 | 0xd0 => o.push(i.u8()),
                0x41 => { let x = i.s(); self.s(o, x, 5); }
                0x42 => { let x = i.s(); self.s(o, x, 10); }
                0x43 => o.extend_from_slice(i.take(4)),
                0x44 => o.extend_from_slice(i.take(8)),
                0xfc => {
                    let k = self.cu(i, o);
                    match k {
                        0..=7 => {}
                        8 => { self.wants_count = true; self.cu(i, o); o.push(i.u8()); }
                        9 => { self.wants_count = true; self.cu(i, o); }
                        10 => { o.push(i.u8()); o.push(i.u8()); }
                        11 => o.push(i.u8()),
                        12 | 14 => { self.cu(i, o); self.cu(i, o); }
                        _ => { self.cu(i, o); }
                    }
                }
                _ => {}
            }
        }
    }
    fn elem(&mut self, i: &mut Rd, o: &mut Vec<u8>) {
        let f = i.u();
        // (passive or declared, explicit table/declared, expressions)
        let (pas, exp, ex) = (f & 1 != 0, f & 2 != 0, f & 4 != 0);
        let table = if !pas && exp { i.u() } else { 0 };
        let mut off = vec![];
        if !pas { self.expr(i, &mut off); }
        let kind = if pas || exp { i.u8() } else if ex { 0x70 } else { 0 };
        let ty = if ex { kind } else { 0x70 };
        let n = i.u();
        let mut fs: Vec<u64> = vec![];
        let mut es: Vec<Vec<u8>> = vec![];
        for _ in 0..n {
            if ex { let mut x = vec![]; self.expr(i, &mut x); es.push(x); } else { fs.push(i.u()); }
        }
        let to_ex = ex || self.e.elems >= 2;
        let to_exp = if pas { exp } else { table != 0 || ty != 0x70 || self.e.elems == 1 || self.e.elems == 3 };
        let g = pas as u64 | (to_exp as u64) << 1 | (to_ex as u64) << 2;
        self.u(o, g);
        if !pas && to_exp { self.u(o, table); }
        o.extend(off);
        if pas || to_exp { o.push(if to_ex { ty } else { 0 }); }
        self.u(o, n);
        for f in fs {
            if to_ex { o.push(0xd2); self.u(o, f); o.push(0x0b); } else { self.u(o, f); }
        }
        for e in es { o.extend(e); }
    }
    fn section(&mut self, id: u8, mut i: Rd) -> Vec<u8> {
        let mut o = vec![];
        let i = &mut i;
        match id {
            2 => { let n = self.cu(i, &mut o); for _ in 0..n {
                self.name(i, &mut o); self.name(i, &mut o);
                let k = i.u8(); o.push(k);
                match k {
                    0 => { let mut t = i.u(); if self.e.types { t += self.ntypes; } self.u(&mut o, t); }
                    1 => { o.push(i.u8()); self.limits(i, &mut o); }
                    2 => self.limits(i, &mut o),
                    _ => { o.push(i.u8()); o.push(i.u8()); }
                }
            } }
            3 => { let n = self.cu(i, &mut o); for _ in 0..n { self.cu(i, &mut o); } }
            4 => { let n = self.cu(i, &mut o); for _ in 0..n { o.push(i.u8()); self.limits(i, &mut o); } }
            5 => { let n = self.cu(i, &mut o); for _ in 0..n { self.limits(i, &mut o); } }
            6 => { let n = self.cu(i, &mut o); for _ in 0..n { o.push(i.u8()); o.push(i.u8()); self.expr(i, &mut o); } }
            7 => { let n = self.cu(i, &mut o); for _ in 0..n { self.name(i, &mut o); o.push(i.u8()); self.cu(i, &mut o); } }
            8 | 12 => { self.cu(i, &mut o); }
            9 => { let n = self.cu(i, &mut o); for _ in 0..n { self.elem(i, &mut o); } }
            10 => { let n = self.cu(i, &mut o); for _ in 0..n {
                let mut body = i.sub();
                let mut b = vec![];
                let k = body.u();
                let mut ls: Vec<(u64, u8)> = (0..k).map(|_| { let c = body.u(); (c, body.u8()) }).collect();
                if self.e.locals & 1 != 0 { ls = ls.iter().flat_map(|&(c, t)| std::iter::repeat((1, t)).take(c as usize)).collect(); }
                if self.e.locals & 2 != 0 { let mut v = vec![(0, 0x7e)]; for l in ls { v.push(l); v.push((0, if l.1 == 0x7f { 0x7c } else { 0x7f })); } ls = v; }
                self.u(&mut b, ls.len() as u64);
                for (c, t) in ls { self.u(&mut b, c); b.push(t); }
                self.expr(&mut body, &mut b);
                self.sized(&mut o, b);
            } }
            11 => { let n = self.cu(i, &mut o); for _ in 0..n {
                let f = i.u();
                if f == 1 { self.u(&mut o, 1); } else {
                    let m = if f == 2 { i.u() } else { 0 };
                    let g = if m != 0 || self.e.data2 { 2 } else { 0 };
                    self.u(&mut o, g);
                    if g == 2 { self.u(&mut o, m); }
                    self.expr(i, &mut o);
                }
                let n = self.cu(i, &mut o) as usize;
                o.extend_from_slice(i.take(n));
            } }
            _ => panic!("section {}", id),
        }
        o
    }
}

pub fn reencode(b: &[u8], e: &Enc) -> Vec<u8> {
    let mut secs: Vec<(u8, &[u8])> = vec![];
    let mut i = Rd { b, p: 8 };
    while !i.done() { let id = i.u8(); let r = i.sub(); if id != 0 { secs.push((id, r.b)); } }
    let mut t = Tr { e: e.clone(), ntypes: 0, nfun: 0, used: vec![], rnd: e.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1, wants_count: false, ndata: None };
    if let Some(s) = secs.iter().find(|s| s.0 == 1) { t.ntypes = Rd { b: s.1, p: 0 }.u(); }
    if let Some(s) = secs.iter().find(|s| s.0 == 11) { t.ndata = Some(Rd { b: s.1, p: 0 }.u()); }
    let _ = t.nfun;
    // the type section is written last: block types may need entries of their own
    let mut out: Vec<(u8, Vec<u8>)> = vec![];
    for (id, s) in &secs { if *id != 1 { let x = t.section(*id, Rd { b: s, p: 0 }); out.push((*id, x)); } }
    if let Some((_, s)) = secs.iter().find(|s| s.0 == 1) {
        let mut i = Rd { b: s, p: 0 };
        let n = i.u();
        let mut ent = vec![];
        for _ in 0..n {
            let mut x = vec![i.u8()];
            for _ in 0..2 { let k = t.cu(&mut i, &mut x) as usize; x.extend_from_slice(i.take(k)); }
            ent.push(x);
        }
        if e.types {
            ent.extend(ent.clone());
            for b in t.used.clone() {
                let mut x = vec![0x60];
                t.u(&mut x, 0);
                t.u(&mut x, (b != 0x40) as u64);
                if b != 0x40 { x.push(b); }
                ent.push(x);
            }
        }
        let mut o = vec![];
        t.u(&mut o, ent.len() as u64);
        for x in ent { o.extend(x); }
        out.insert(0, (1, o));
    }
    // data count stands between the element and the code section
    if e.count != 0 && !(e.count == 2 && t.wants_count) { out.retain(|s| s.0 != 12); }
    if let (1, Some(n)) = (e.count, t.ndata) {
        let mut o = vec![];
        t.u(&mut o, n);
        let at = out.iter().position(|s| s.0 == 10 || s.0 == 11).unwrap_or(out.len());
        out.insert(at, (12, o));
    }
    let mut r = b[..8].to_vec();
    let mut k = 0;
    let mut custom = |t: &mut Tr, r: &mut Vec<u8>| if !e.custom.is_empty() {
        let (n, c) = &e.custom[k % e.custom.len()];
        k += 1;
        let mut o = vec![];
        t.u(&mut o, n.len() as u64);
        o.extend_from_slice(n.as_bytes());
        o.extend_from_slice(c.as_bytes());
        r.push(0);
        t.sized(r, o);
    };
    custom(&mut t, &mut r);
    for (id, s) in out { r.push(id); t.sized(&mut r, s); custom(&mut t, &mut r); }
    r
}
