//! Copy-on-write linear memory whose bytes may be symbolic.
use crate::term::*;
use std::rc::Rc;

pub const PG: usize = 4096;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct V { pub c: u64, pub t: T }
impl V {
    #[inline(always)]
    pub fn k(c: u64) -> V { V { c, t: 0 } }
}

#[derive(Clone)]
pub struct Page { pub d: [u8; PG], pub s: Option<Box<[T; PG]>> }
#[derive(Clone)]
pub struct Mem { pages: Vec<Rc<Page>>, pub max: u32 }

thread_local! { static ZERO: Rc<Page> = Rc::new(Page { d: [0; PG], s: None }); }

impl Mem {
    pub fn new(p64: u32, max: Option<u32>) -> Mem {
        let mut m = Mem { pages: vec![], max: max.unwrap_or(65536) };
        m.set_pages(p64);
        m
    }
    fn set_pages(&mut self, p64: u32) { ZERO.with(|z| self.pages.resize(p64 as usize * 16, z.clone())) }
    pub fn pages64(&self) -> u32 { (self.pages.len() / 16) as u32 }
    #[inline(always)]
    pub fn len(&self) -> u64 { (self.pages.len() * PG) as u64 }
    pub fn grow(&mut self, d: u64) -> Option<u32> {
        let old = self.pages64();
        let n = old as u64 + d;
        if n > self.max as u64 || n > 65536 { return None; }
        self.set_pages(n as u32);
        Some(old)
    }
    #[inline(always)]
    pub fn page(&self, i: usize) -> &Page { &self.pages[i] }
    #[inline(always)]
    fn pm(&mut self, i: usize) -> &mut Page { Rc::make_mut(&mut self.pages[i]) }
    /// Concrete fast path: little-endian n bytes, None if any byte is symbolic. Caller checked bounds.
    #[inline(always)]
    pub fn load_c(&self, a: u64, n: usize) -> Option<u64> {
        let (p, o) = ((a as usize) / PG, (a as usize) % PG);
        if o + n <= PG {
            let pg = &*self.pages[p];
            if let Some(s) = &pg.s { for i in 0..n { if s[o + i] != 0 { return None; } } }
            let d = &pg.d;
            Some(match n {
                1 => d[o] as u64,
                2 => u16::from_le_bytes([d[o], d[o + 1]]) as u64,
                4 => u32::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]]) as u64,
                _ => u64::from_le_bytes(d[o..o + 8].try_into().unwrap()),
            })
        } else {
            let mut r = 0u64;
            for i in 0..n {
                let b = self.byte(a + i as u64);
                if b.t != 0 { return None; }
                r |= b.c << (8 * i);
            }
            Some(r)
        }
    }
    #[inline(always)]
    pub fn byte(&self, a: u64) -> V {
        let pg = &*self.pages[a as usize / PG];
        let o = a as usize % PG;
        if let Some(s) = &pg.s { if s[o] != 0 { return V { c: 0, t: s[o] }; } }
        V { c: pg.d[o] as u64, t: 0 }
    }
    #[inline(always)]
    pub fn store_c(&mut self, a: u64, n: usize, v: u64) {
        let (p, o) = ((a as usize) / PG, (a as usize) % PG);
        if o + n <= PG {
            let pg = self.pm(p);
            if let Some(s) = &mut pg.s { for i in 0..n { s[o + i] = 0; } }
            let b = v.to_le_bytes();
            match n {
                1 => pg.d[o] = b[0],
                4 => pg.d[o..o + 4].copy_from_slice(&b[..4]),
                8 => pg.d[o..o + 8].copy_from_slice(&b),
                _ => pg.d[o..o + n].copy_from_slice(&b[..n]),
            }
        } else {
            for i in 0..n { self.set_byte(a + i as u64, V::k((v >> (8 * i)) & 255)); }
        }
    }
    pub fn set_byte(&mut self, a: u64, v: V) {
        let pg = self.pm(a as usize / PG);
        let o = a as usize % PG;
        if v.t != 0 {
            if pg.s.is_none() { pg.s = Some(Box::new([0; PG])); }
            pg.s.as_mut().unwrap()[o] = v.t;
            pg.d[o] = 0;
        } else {
            if let Some(s) = &mut pg.s { s[o] = 0; }
            pg.d[o] = v.c as u8;
        }
    }
    pub fn load(&self, cx: &mut Cx, a: u64, n: usize) -> V {
        if let Some(c) = self.load_c(a, n) { return V::k(c); }
        let mut acc: T = 0;
        for i in 0..n {
            let b = self.byte(a + i as u64);
            let bt = if b.t != 0 { b.t } else { cx.k(b.c, 8) };
            acc = if acc == 0 { bt } else { cx.concat(bt, acc) };
        }
        tov(cx, acc)
    }
    /// stores the low n bytes of v (v has width >= 8n)
    pub fn store(&mut self, cx: &mut Cx, a: u64, n: usize, v: V) {
        if v.t == 0 { self.store_c(a, n, v.c); return; }
        for i in 0..n {
            let b = cx.extract(v.t, 8 * i as u8, 8);
            let bv = tov(cx, b);
            self.set_byte(a + i as u64, bv);
        }
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            let (p, o) = ((a as usize + i) / PG, (a as usize + i) % PG);
            let n = (PG - o).min(b.len() - i);
            let pg = self.pm(p);
            pg.d[o..o + n].copy_from_slice(&b[i..i + n]);
            if let Some(s) = &mut pg.s { for x in &mut s[o..o + n] { *x = 0 } }
            i += n;
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s { return; }
        if n <= 64 || self.has_sym(s, n) || self.has_sym(d, n) {
            let v: Vec<V> = (0..n).map(|i| self.byte(s + i)).collect();
            for (i, b) in v.into_iter().enumerate() { self.set_byte(d + i as u64, b); }
            return;
        }
        let v = self.bytes_c(s, n);
        self.write_bytes(d, &v);
    }
    pub fn bytes_c(&self, a: u64, n: u64) -> Vec<u8> {
        let mut out = Vec::with_capacity(n as usize);
        let mut i = 0u64;
        while i < n {
            let (p, o) = ((a + i) as usize / PG, (a + i) as usize % PG);
            let k = (PG - o).min((n - i) as usize);
            out.extend_from_slice(&self.pages[p].d[o..o + k]);
            i += k as u64;
        }
        out
    }
    pub fn has_sym(&self, a: u64, n: u64) -> bool {
        if n == 0 { return false; }
        for p in (a as usize / PG)..=((a + n - 1) as usize / PG) { if self.pages[p].s.is_some() { return true; } }
        false
    }
    pub fn fill(&mut self, a: u64, n: u64, v: V) {
        if v.t == 0 {
            let mut i = 0u64;
            while i < n {
                let (p, o) = ((a + i) as usize / PG, (a + i) as usize % PG);
                let k = (PG - o).min((n - i) as usize);
                if k == PG && v.c == 0 {
                    ZERO.with(|z| self.pages[p] = z.clone());
                } else {
                    let pg = self.pm(p);
                    for x in &mut pg.d[o..o + k] { *x = v.c as u8 }
                    if let Some(s) = &mut pg.s { for x in &mut s[o..o + k] { *x = 0 } }
                }
                i += k as u64;
            }
        } else { for i in 0..n { self.set_byte(a + i, v); } }
    }
    /// Addresses at which the two memories differ (page sharing makes this cheap).
    pub fn diff(&self, o: &Mem, out: &mut Vec<u64>) {
        for i in 0..self.pages.len().min(o.pages.len()) {
            if Rc::ptr_eq(&self.pages[i], &o.pages[i]) { continue; }
            for j in 0..PG {
                let a = (i * PG + j) as u64;
                if self.byte(a) != o.byte(a) { out.push(a); }
            }
        }
    }
}

#[inline]
pub fn tov(cx: &Cx, t: T) -> V { match cx.cv(t) { Some(c) => V::k(c), None => V { c: 0, t } } }
