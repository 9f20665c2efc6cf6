//! Symbolic WebAssembly interpreter with path forking.
use crate::host::Host;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use crate::wasm::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// top-level function returned
    Done(Vec<V>),
    Trap(&'static str),
    /// a Rust panic / abort inside the interpreter under test
    Panic(String),
    Exit(V),
    Marker(String),
    Steps,
    /// the engine cannot continue on this path
    Unsup(String),
}

#[derive(Clone, Copy)]
pub struct Frame { f: u32, ip: u32, base: u32, opb: u32 }

#[derive(Clone)]
pub struct State {
    pub m: Rc<Module>,
    /// deepest call nesting since it was last reset
    pub peak: usize,
    pub mem: Mem,
    pub globals: Vec<V>,
    pub tables: Vec<Rc<Vec<V>>>,
    pub tmax: Vec<Option<u32>>,
    pub dropped_data: Vec<bool>,
    pub dropped_elem: Vec<bool>,
    pub stack: Vec<V>,
    pub frames: Vec<Frame>,
    cur: Frame,
    pub pc: Vec<T>,
    known: HashMap<T, bool, FxB>,
    kval: HashMap<T, u64, FxB>,
    bcache: HashMap<T, (u64, u64), FxB>,
    /// interval facts read off the path condition
    lim: HashMap<T, (u64, u64), FxB>,
    pub model: Option<Rc<Model>>,
    pub host: Host,
    pub steps: u64,
    pub max_steps: u64,
    pub forks: u32,
    /// further live instances of the reference module (the current one's slot is empty)
    pub insts: Vec<Option<Snap>>,
    pub inst: usize,
}
#[derive(Clone)]
pub struct Snap { mem: Mem, globals: Vec<V>, tables: Vec<Rc<Vec<V>>>, tmax: Vec<Option<u32>>, dropped_data: Vec<bool>, dropped_elem: Vec<bool> }
impl State {
    fn snap(&self) -> Snap { Snap { mem: self.mem.clone(), globals: self.globals.clone(), tables: self.tables.clone(), tmax: self.tmax.clone(), dropped_data: self.dropped_data.clone(), dropped_elem: self.dropped_elem.clone() } }
    fn unsnap(&mut self, s: Snap) { self.mem = s.mem; self.globals = s.globals; self.tables = s.tables; self.tmax = s.tmax; self.dropped_data = s.dropped_data; self.dropped_elem = s.dropped_elem; }
    /// makes instance `k` current; `None` creates a new one (segments not yet copied)
    pub fn switch(&mut self, k: Option<usize>) {
        if self.insts.is_empty() { self.insts.push(None); }
        let s = self.snap();
        self.insts[self.inst] = Some(s);
        match k {
            Some(k) => { let s = self.insts[k].take().unwrap(); self.unsnap(s); self.inst = k; }
            None => { let f = State::new(self.m.clone(), Host::default()); self.unsnap(f.snap()); self.inst = self.insts.len(); self.insts.push(None); }
        }
    }
}

pub struct Eng {
    pub cx: Cx,
    pub sol: Solver,
    pub work: Vec<State>,
    pub total_steps: u64,
    pub paths: u64,
    pub trace: bool,
    /// per-function executed instruction counters (functions encoded)
    pub touched: Vec<bool>,
}

pub enum Dec { Val(bool) }

impl Eng {
    pub fn new() -> Eng { Eng { cx: Cx::new(), sol: Solver::new(), work: vec![], total_steps: 0, paths: 0, trace: std::env::var_os("WSYM_FORKS").is_some(), touched: vec![] } }

    pub fn term(&mut self, v: V, w: u8) -> T {
        if v.t == 0 { return self.cx.k(v.c, w); }
        v.t
    }
    pub fn bool_v(&mut self, c: T) -> V { let t = self.cx.zext(c, 32); tov(&self.cx, t) }

    /// Decides a Boolean on this path.  If both outcomes are feasible the other one is queued as a copy
    /// of `st` (which must be in a re-executable configuration).
    pub fn decide(&mut self, st: &mut State, c: T) -> bool {
        if let Some(k) = self.cx.cv(c) { return k != 0; }
        let n = self.cx.n(c);
        if n.op == Op::Not { return !self.decide(st, n.a); }
        if let Some(&k) = st.known.get(&c) { return k; }
        let nc = self.cx.not(c);
        let (side, have) = match &st.model { Some(m) => (m.eval(&self.cx, c) != 0, true), None => (true, false) };
        if have {
            let other = if side { nc } else { c };
            self.sol.stats.branch_queries += 1;
            match self.sol.check(&self.cx, &st.pc, &[other]) {
                Res::Unsat => { st.known.insert(c, side); return side; }
                Res::Sat(m) => self.queue(st, c, !side, Some(m)),
                Res::Unknown => self.queue(st, c, !side, None),
            }
            self.assume(st, c, side);
            side
        } else {
            self.sol.stats.branch_queries += 2;
            let a = self.sol.check(&self.cx, &st.pc, &[c]);
            let b = self.sol.check(&self.cx, &st.pc, &[nc]);
            let (fa, ma) = match a { Res::Sat(m) => (true, Some(m)), Res::Unsat => (false, None), Res::Unknown => (true, None) };
            let (fb, mb) = match b { Res::Sat(m) => (true, Some(m)), Res::Unsat => (false, None), Res::Unknown => (true, None) };
            match (fa, fb) {
                (true, true) => { self.queue(st, c, false, mb); self.assume(st, c, true); st.model = ma; true }
                (true, false) => { st.known.insert(c, true); if ma.is_some() { st.model = ma } true }
                (false, true) => { st.known.insert(c, false); if mb.is_some() { st.model = mb } false }
                (false, false) => { st.known.insert(c, true); true } // infeasible path
            }
        }
    }
    fn queue(&mut self, st: &State, c: T, v: bool, m: Option<Rc<Model>>) {
        if self.trace { eprintln!("fork on {} at {}", self.cx.show(c, 6), st.backtrace()); }
        let mut o = st.clone();
        o.model = m;
        o.forks += 1;
        self.assume(&mut o, c, v);
        self.work.push(o);
    }
    pub fn assume(&mut self, st: &mut State, c: T, v: bool) {
        let mut stk = vec![(c, v)];
        let top = if v { c } else { self.cx.not(c) };
        st.pc.push(top);
        while let Some((c, v)) = stk.pop() {
            let n = self.cx.n(c);
            if n.op == Op::Not { stk.push((n.a, !v)); continue; }
            st.known.insert(c, v);
            match (n.op, v) {
                (Op::Eq, true) => {
                    if let Some(k) = self.cx.cv(n.b) { st.kval.insert(n.a, k); }
                    else if let Some(k) = self.cx.cv(n.a) { st.kval.insert(n.b, k); }
                }
                (Op::Ult, v) => {
                    // interval facts: x < k, x >= k, k < x, k >= x
                    let (x, lo, hi) = match (self.cx.cv(n.a), self.cx.cv(n.b), v) {
                        (None, Some(k), true) => (n.a, 0, k.wrapping_sub(1)),
                        (None, Some(k), false) => (n.a, k, u64::MAX),
                        (Some(k), None, true) => (n.b, k.wrapping_add(1), u64::MAX),
                        (Some(k), None, false) => (n.b, 0, k),
                        _ => (0, 0, 0),
                    };
                    if x != 0 { let e = st.lim.entry(x).or_insert((0, u64::MAX)); e.0 = e.0.max(lo); e.1 = e.1.min(hi); }
                }
                (Op::And, true) | (Op::Or, false) => { stk.push((n.a, v)); stk.push((n.b, v)); }
                _ => {}
            }
        }
    }
    pub fn known_bool(&self, st: &State, c: T) -> Option<bool> {
        let n = self.cx.n(c);
        match n.op {
            Op::Const(k) => Some(k != 0),
            Op::Not => self.known_bool(st, n.a).map(|x| !x),
            _ => st.known.get(&c).copied(),
        }
    }
    /// Simplifies a term by the facts of a path.
    pub fn settle(&mut self, st: &State, t: T) -> T {
        self.cx.subst(t, &|x| st.kval.get(&x).copied().or_else(|| st.known.get(&x).map(|b| *b as u64)))
    }
    pub fn known_val(&self, st: &State, v: V) -> Option<u64> {
        if v.t == 0 { return Some(v.c); }
        if let Some(&k) = st.kval.get(&v.t) { return Some(k); }
        if self.cx.w(v.t) == 1 { if let Some(&b) = st.known.get(&v.t) { return Some(b as u64); } }
        // zero-extended forms
        let n = self.cx.n(v.t);
        match n.op {
            Op::Concat => {
                let h = self.known_val(st, V { c: 0, t: n.a }).or(self.cx.cv(n.a));
                let l = self.known_val(st, V { c: 0, t: n.b }).or(self.cx.cv(n.b));
                if let (Some(h), Some(l)) = (h, l) { return Some((h << self.cx.w(n.b)) | l); }
                None
            }
            Op::Const(k) => Some(k),
            Op::Add | Op::Extract(_) | Op::Sub => {
                let a = self.known_val(st, V { c: 0, t: n.a })?;
                let b = if n.b != 0 { self.known_val(st, V { c: 0, t: n.b })? } else { 0 };
                Some(ev(n.op, n.w, self.cx.w(n.a), a, if n.b != 0 { self.cx.w(n.b) } else { 0 }, b, 0))
            }
            Op::Ite => {
                let c = *st.known.get(&n.a)?;
                self.known_val(st, V { c: 0, t: if c { n.b } else { n.c } })
            }
            Op::Mul | Op::Shl | Op::LShr | Op::And | Op::Or | Op::Xor => {
                let a = self.known_val(st, V { c: 0, t: n.a })?;
                let b = self.known_val(st, V { c: 0, t: n.b })?;
                Some(ev(n.op, n.w, self.cx.w(n.a), a, self.cx.w(n.b), b, 0))
            }
            _ => None,
        }
    }
    /// Fixes a value on this path, forking over the other feasible values.
    pub fn concretize(&mut self, st: &mut State, v: V) -> u64 {
        loop {
            if let Some(k) = self.known_val(st, v) { return k; }
            let w = self.cx.w(v.t);
            let k = match &st.model {
                Some(m) => m.eval(&self.cx, v.t),
                None => {
                    match self.sol.check(&self.cx, &st.pc, &[]) {
                        Res::Sat(m) => { let k = m.eval(&self.cx, v.t); st.model = Some(m); k }
                        _ => { return self.cx.range(v.t).0; } // infeasible or unknown path; any value is as good
                    }
                }
            };
            let kt = self.cx.k(k, w);
            let c = self.cx.eq(v.t, kt);
            if self.decide(st, c) { st.kval.insert(v.t, k); return k; }
        }
    }
    /// Unsigned bounds of a term under the path condition (solver binary search when the static range is wide).
    pub fn bounds(&mut self, st: &mut State, t: T, wide: u64) -> (u64, u64) {
        let (mut lo, mut hi) = self.cx.range(t);
        if let Some(&(l, h)) = st.lim.get(&t) { if l.max(lo) <= h.min(hi) { lo = lo.max(l); hi = hi.min(h); } }
        if hi - lo <= wide { return (lo, hi); }
        let w = self.cx.w(t);
        // bounds under an earlier (weaker) path condition stay valid
        if let Some(&b) = st.bcache.get(&t) { return b; }
        let n = self.cx.n(t);
        match n.op {
            Op::Add => {
                let (x, k) = match (self.cx.cv(n.a), self.cx.cv(n.b)) { (None, Some(k)) => (n.a, k), (Some(k), None) => (n.b, k), _ => (0, 0) };
                if x != 0 {
                    let (l, h) = self.bounds(st, x, wide);
                    if h - l <= wide {
                        let (l2, h2) = (l as u128 + k as u128, h as u128 + k as u128);
                        let m = mask(w) as u128;
                        if h2 <= m { return (l2 as u64, h2 as u64); }
                        if l2 > m { return ((l2 & m) as u64, (h2 & m) as u64); }
                    }
                }
            }
            Op::Concat if self.cx.cv(n.a) == Some(0) => { return self.bounds(st, n.b, wide); }
            _ => {}
        }
        let v0 = match &st.model { Some(m) => m.eval(&self.cx, t), None => return (lo, hi) };
        // quick rejection: is there a value further than `wide` away?
        let far_lo = v0.saturating_sub(wide);
        let far_hi = v0.saturating_add(wide).min(mask(w));
        let fl = self.cx.k(far_lo, w);
        let fh = self.cx.k(far_hi, w);
        let a = self.cx.ult(t, fl);
        let b = self.cx.ult(fh, t);
        let far = self.cx.or(a, b);
        self.sol.stats.branch_queries += 1;
        if !matches!(self.sol.check(&self.cx, &st.pc, &[far]), Res::Unsat) { return (lo, hi); }
        // binary search both ends
        let (mut l, mut h) = (far_lo.max(lo), v0);
        while l < h {
            let mid = l + (h - l) / 2;
            let mt = self.cx.k(mid, w);
            let c = self.cx.ule(t, mt);
            self.sol.stats.branch_queries += 1;
            if matches!(self.sol.check(&self.cx, &st.pc, &[c]), Res::Unsat) { l = mid + 1 } else { h = mid }
        }
        let min = l;
        let (mut l, mut h) = (v0, far_hi.min(hi));
        while l < h {
            let mid = l + (h - l + 1) / 2;
            let mt = self.cx.k(mid, w);
            let c = self.cx.ule(mt, t);
            self.sol.stats.branch_queries += 1;
            if matches!(self.sol.check(&self.cx, &st.pc, &[c]), Res::Unsat) { h = mid - 1 } else { l = mid }
        }
        st.bcache.insert(t, (min, l));
        (min, l)
    }
}

impl State {
    pub fn new(m: Rc<Module>, host: Host) -> State {
        let mem = match m.mems.first() { Some(&(a, b)) => Mem::new(a, b), None => Mem::new(0, Some(0)) };
        let mut st = State {
            mem, globals: vec![], tables: m.tables.iter().map(|t| Rc::new(vec![V::k(0); t.0 as usize])).collect(),
            tmax: m.tables.iter().map(|t| t.1).collect(),
            dropped_data: vec![false; m.datas.len()], dropped_elem: vec![false; m.elems.len()],
            stack: Vec::with_capacity(1 << 12), frames: vec![], cur: Frame { f: 0, ip: 0, base: 0, opb: 0 },
            pc: vec![], known: HashMap::default(), kval: HashMap::default(), bcache: HashMap::default(), lim: HashMap::default(), model: Some(Rc::new(Model::new(vec![]))), host, steps: 0, max_steps: u64::MAX, insts: vec![], inst: 0, forks: 0, peak: 0, m: m.clone(),
        };
        for (_, _, i) in &m.globals { let v = st.init_val(i); st.globals.push(v); }
        st
    }
    pub fn init_val(&self, i: &Init) -> V {
        match i {
            Init::Const(c) => V::k(*c),
            Init::Sym(t) => V { c: 0, t: *t },
            Init::Global(g) => self.globals[*g as usize],
            Init::RefNull => V::k(0),
            Init::RefFunc(f) => V::k(*f as u64 + 1),
        }
    }
    /// Sets up a call to function `f` from the embedder.
    pub fn enter(&mut self, f: u32, args: &[V]) {
        self.stack.clear();
        self.frames.clear();
        self.stack.extend_from_slice(args);
        self.push_frame_raw(f);
        // sentinel: returning from depth 0 ends the run
    }
    fn push_frame_raw(&mut self, f: u32) {
        let fu = &self.m.funcs[f as usize];
        let base = self.stack.len() as u32 - fu.nparams;
        let nl = fu.nlocals as usize;
        let n = self.stack.len();
        self.stack.resize(n + nl, V::k(0));
        self.cur = Frame { f, ip: 0, base, opb: base + fu.nparams + nl as u32 };
    }
    pub fn adopt_known(&mut self, o: &State) { self.known = o.known.clone(); self.kval = o.kval.clone(); self.bcache = o.bcache.clone(); self.lim = o.lim.clone(); }
    pub fn depth(&self) -> usize { self.frames.len() }
    pub fn backtrace(&self) -> String {
        let mut s = vec![self.m.name(self.cur.f)];
        for f in self.frames.iter().rev().take(12) { s.push(self.m.name(f.f)); }
        s.join(" < ")
    }
    pub fn cur_func(&self) -> u32 { self.cur.f }
}

/// Active segments; Err(trap) when one does not fit.
pub fn init_segments(eng: &mut Eng, st: &mut State) -> Result<(), &'static str> {
    let m = st.m.clone();
    for (i, e) in m.elems.iter().enumerate() {
        if e.mode == 0 {
            let off = st.init_val(&e.off);
            let off = eng.concretize(st, off);
            let t = e.table as usize;
            if off + e.items.len() as u64 > st.tables[t].len() as u64 { return Err("out of bounds table access"); }
            let vals: Vec<V> = e.items.iter().map(|x| st.init_val(x)).collect();
            Rc::make_mut(&mut st.tables[t])[off as usize..off as usize + vals.len()].copy_from_slice(&vals);
            st.dropped_elem[i] = true;
        } else if e.mode == 2 { st.dropped_elem[i] = true; }
    }
    for (i, d) in m.datas.iter().enumerate() {
        if let Some((_, o)) = &d.active {
            let off = st.init_val(o);
            let off = eng.concretize(st, off);
            if off + d.bytes.len() as u64 > st.mem.len() { return Err("out of bounds memory access"); }
            for (j, &b) in d.bytes.iter().enumerate() {
                let t = d.sym.get(j).copied().unwrap_or(0);
                st.mem.set_byte(off + j as u64, V { c: if t != 0 { 0 } else { b as u64 }, t });
            }
            st.dropped_data[i] = true;
        }
    }
    Ok(())
}

const MUX: u64 = 256;

impl Eng {
    /// Candidate concrete addresses of a symbolic address that lie within a small window.
    fn mux_addrs(&mut self, st: &mut State, ea: T) -> Option<Vec<(u64, T)>> {
        let (lo, hi) = self.bounds(st, ea, MUX);
        if hi - lo > MUX { return None; }
        let w = self.cx.w(ea);
        let mut v = vec![];
        for k in lo..=hi {
            let kt = self.cx.k(k, w);
            let c = self.cx.eq(ea, kt);
            if c == self.cx.ff { continue; }
            if st.known.get(&c) == Some(&false) { continue; }
            v.push((k, c));
        }
        Some(v)
    }
    /// effective address as a 64-bit term or constant
    fn ea(&mut self, st: &mut State, a: V, off: V) -> V {
        if a.t == 0 && off.t == 0 { return V::k(a.c + off.c); }
        let x = self.term(a, 32);
        let y = self.term(off, 32);
        if off.t != 0 {
            // symbolic offset: when the 32-bit sum cannot wrap, use it (the form compiled code computes)
            let t = self.cx.add(x, y);
            let wrap = self.cx.ult(t, y);
            if !self.decide(st, wrap) { let t = self.cx.zext(t, 64); return tov(&self.cx, t); }
        }
        let x = self.cx.zext(x, 64);
        let y = self.cx.zext(y, 64);
        let t = self.cx.add(x, y);
        tov(&self.cx, t)
    }
    /// Resolves the bounds check; Some(address) in bounds, None = trap.
    fn in_bounds(&mut self, st: &mut State, ea: V, n: u64) -> bool {
        let len = st.mem.len();
        if ea.t == 0 { return ea.c + n <= len; }
        if len < n { return false; }
        let l = self.cx.k(len - n, 64);
        let c = self.cx.ule(ea.t, l);
        self.decide(st, c)
    }
    fn do_load(&mut self, st: &mut State, ea: V, n: usize) -> V {
        let ea = match self.known_val(st, ea) { Some(k) => V::k(k), None => ea };
        if ea.t == 0 { return st.mem.load(&mut self.cx, ea.c, n); }
        match self.mux_addrs(st, ea.t) {
            Some(cs) if !cs.is_empty() => {
                let w = (n * 8) as u8;
                let mut acc: T = 0;
                for &(k, c) in cs.iter().rev() {
                    if k + n as u64 > st.mem.len() { continue; }
                    let v = st.mem.load(&mut self.cx, k, n);
                    let t = self.term(v, w);
                    acc = if acc == 0 { t } else { self.cx.ite(c, t, acc) };
                }
                tov(&self.cx, acc)
            }
            _ => { let k = self.concretize(st, ea); st.mem.load(&mut self.cx, k, n) }
        }
    }
    fn do_store(&mut self, st: &mut State, ea: V, n: usize, v: V) {
        let ea = match self.known_val(st, ea) { Some(k) => V::k(k), None => ea };
        if ea.t == 0 { st.mem.store(&mut self.cx, ea.c, n, v); return; }
        match self.mux_addrs(st, ea.t) {
            Some(cs) if !cs.is_empty() => {
                let bytes: Vec<T> = (0..n).map(|i| if v.t != 0 { self.cx.extract(v.t, 8 * i as u8, 8) } else { self.cx.k(v.c >> (8 * i), 8) }).collect();
                self.mux_store(st, &cs, &bytes);
            }
            _ => { let k = self.concretize(st, ea); st.mem.store(&mut self.cx, k, n, v) }
        }
    }
    fn mux_store(&mut self, st: &mut State, cs: &[(u64, T)], bytes: &[T]) {
        // new[a] = ite(addr == a - i, byte_i, old[a]); conditions for distinct addresses are disjoint
        let mut upd: std::collections::BTreeMap<u64, T> = Default::default();
        for &(k, c) in cs {
            for (i, &b) in bytes.iter().enumerate() {
                let a = k + i as u64;
                if a >= st.mem.len() { continue; }
                let old = match upd.get(&a) { Some(&t) => t, None => { let o = st.mem.byte(a); self.term(o, 8) } };
                let t = self.cx.ite(c, b, old);
                upd.insert(a, t);
            }
        }
        for (a, t) in upd { let v = tov(&self.cx, t); st.mem.set_byte(a, v); }
    }

    /// Runs until this path ends; other feasible branches are pushed on `self.work`.
    pub fn run_path(&mut self, st: &mut State) -> Out {
        let m = st.m.clone();
        let s0 = st.steps;
        let r = self.exec(&m, st);
        self.total_steps += st.steps - s0;
        r
    }

    fn exec(&mut self, m: &Rc<Module>, st: &mut State) -> Out {
        let mut code: &[I] = &m.funcs[st.cur.f as usize].code;
        let mut ip = st.cur.ip as usize;
        if self.touched.len() < m.funcs.len() { self.touched.resize(m.funcs.len(), false); }
        macro_rules! sync { () => { st.cur.ip = (ip - 1) as u32; } }
        macro_rules! pop { () => { st.stack.pop().unwrap() } }
        macro_rules! peek { ($n:expr) => { st.stack[st.stack.len() - 1 - $n] } }
        macro_rules! trap { ($s:expr) => {{ sync!(); return Out::Trap($s) }} }
        macro_rules! branch { ($b:expr) => {{
            let b = $b;
            let keep = b.keep as usize;
            let n = st.stack.len();
            let dst = (st.cur.opb + b.h) as usize;
            if dst + keep != n {
                for i in 0..keep { st.stack[dst + i] = st.stack[n - keep + i]; }
                st.stack.truncate(dst + keep);
            }
            ip = b.pc as usize;
        }} }
        // call function $f; $tail: replace the frame
        macro_rules! call { ($f:expr, $tail:expr) => {{
            let f: u32 = $f;
            let fu = &m.funcs[f as usize];
            if fu.is_panic { sync!(); return Out::Panic(m.name(f)); }
            if let Some(imp) = fu.import {
                sync!();
                match self.host_call(st, imp as usize) {
                    Ok(()) => {
                        if $tail {
                            // behave like `return`
                            st.cur.ip = u32::MAX;
                            let nres = m.funcs[st.cur.f as usize].nresults as usize;
                            let n = st.stack.len();
                            let dst = st.cur.base as usize;
                            for i in 0..nres { st.stack[dst + i] = st.stack[n - nres + i]; }
                            st.stack.truncate(dst + nres);
                            match st.frames.pop() {
                                None => { return Out::Done(st.stack[dst..].to_vec()); }
                                Some(fr) => { st.cur = fr; code = &m.funcs[fr.f as usize].code; ip = fr.ip as usize; }
                            }
                        }
                    }
                    Err(o) => {
                        // markers resume after the call
                        if let Out::Marker(_) = o { st.cur.ip = ip as u32; }
                        return o;
                    }
                }
            } else {
                self.touched[f as usize] = true;
                if $tail {
                    let np = fu.nparams as usize;
                    let n = st.stack.len();
                    let dst = st.cur.base as usize;
                    for i in 0..np { st.stack[dst + i] = st.stack[n - np + i]; }
                    st.stack.truncate(dst + np);
                } else {
                    st.cur.ip = ip as u32;
                    if st.frames.len() > 20000 { return Out::Trap("call stack exhausted"); }
                    st.frames.push(st.cur);
                    if st.frames.len() > st.peak { st.peak = st.frames.len(); }
                }
                st.push_frame_raw(f);
                code = &fu.code;
                ip = 0;
            }
        }} }
        macro_rules! call_ind { ($ty:expr, $table:expr, $tail:expr) => {{
            let iv = peek!(0);
            let tl = st.tables[$table as usize].len() as u64;
            let idx = if iv.t != 0 {
                sync!();
                let l = self.cx.k(tl, 32);
                let c = self.cx.ult(iv.t, l);
                if !self.decide(st, c) { trap!("undefined element"); }
                self.concretize(st, iv)
            } else { iv.c };
            if idx >= tl { trap!("undefined element"); }
            let r = st.tables[$table as usize][idx as usize];
            let r = if r.t != 0 { sync!(); self.concretize(st, r) } else { r.c };
            if r == 0 { trap!("uninitialized element"); }
            let f = (r - 1) as u32;
            let fu = &m.funcs[f as usize];
            if fu.ty != $ty && m.types[fu.ty as usize] != m.types[$ty as usize] { trap!("indirect call type mismatch"); }
            pop!();
            call!(f, $tail);
        }} }
        loop {
            let i = code[ip];
            ip += 1;
            st.steps += 1;
            match i {
                I::LGet(n) => { let v = st.stack[st.cur.base as usize + n as usize]; st.stack.push(v); }
                I::LSet(n) => { let v = pop!(); st.stack[st.cur.base as usize + n as usize] = v; }
                I::LTee(n) => { let v = peek!(0); st.stack[st.cur.base as usize + n as usize] = v; }
                I::Const(c) => st.stack.push(V::k(c)),
                I::Load { op, off } => {
                    let a = peek!(0);
                    let n = LN[(op - 0x28) as usize] as usize;
                    let raw = if a.t == 0 {
                        let ea = a.c + off as u64;
                        if ea + n as u64 > st.mem.len() { trap!("out of bounds memory access"); }
                        match st.mem.load_c(ea, n) { Some(c) => V::k(c), None => st.mem.load(&mut self.cx, ea, n) }
                    } else {
                        sync!();
                        let ea = self.ea(st, a, V::k(off as u64));
                        if !self.in_bounds(st, ea, n as u64) { trap!("out of bounds memory access"); }
                        self.do_load(st, ea, n)
                    };
                    let v = self.load_ext(op, raw);
                    *st.stack.last_mut().unwrap() = v;
                }
                I::Store { op, off } => {
                    let v = peek!(0);
                    let a = peek!(1);
                    let n = SN[(op - 0x36) as usize] as usize;
                    if a.t == 0 {
                        let ea = a.c + off as u64;
                        if ea + n as u64 > st.mem.len() { trap!("out of bounds memory access"); }
                        if v.t == 0 { st.mem.store_c(ea, n, v.c) } else { st.mem.store(&mut self.cx, ea, n, v) }
                    } else {
                        sync!();
                        let ea = self.ea(st, a, V::k(off as u64));
                        if !self.in_bounds(st, ea, n as u64) { trap!("out of bounds memory access"); }
                        self.do_store(st, ea, n, v);
                    }
                    let l = st.stack.len();
                    st.stack.truncate(l - 2);
                }
                I::LoadS { op, off } => {
                    let a = peek!(0);
                    let n = LN[(op - 0x28) as usize] as usize;
                    sync!();
                    let ea = self.ea(st, a, V { c: 0, t: off });
                    if !self.in_bounds(st, ea, n as u64) { trap!("out of bounds memory access"); }
                    let raw = self.do_load(st, ea, n);
                    let v = self.load_ext(op, raw);
                    *st.stack.last_mut().unwrap() = v;
                }
                I::StoreS { op, off } => {
                    let v = peek!(0);
                    let a = peek!(1);
                    let n = SN[(op - 0x36) as usize] as usize;
                    sync!();
                    let ea = self.ea(st, a, V { c: 0, t: off });
                    if !self.in_bounds(st, ea, n as u64) { trap!("out of bounds memory access"); }
                    self.do_store(st, ea, n, v);
                    let l = st.stack.len();
                    st.stack.truncate(l - 2);
                }
                I::Bin(op) => {
                    let b = peek!(0);
                    let a = peek!(1);
                    let r = if a.t == 0 && b.t == 0 {
                        match bin_c(op, a.c, b.c) { Ok(v) => V::k(v), Err(t) => trap!(t) }
                    } else {
                        sync!();
                        match self.bin_s(st, op, a, b) { Ok(v) => v, Err(t) => trap!(t) }
                    };
                    st.stack.pop();
                    *st.stack.last_mut().unwrap() = r;
                }
                I::Un(op) => {
                    let a = peek!(0);
                    let r = if a.t == 0 {
                        match un_c(op, a.c) { Ok(v) => V::k(v), Err(t) => trap!(t) }
                    } else {
                        sync!();
                        match self.un_s(st, op, a) { Ok(v) => v, Err(t) => trap!(t) }
                    };
                    *st.stack.last_mut().unwrap() = r;
                }
                I::Sat(s) => {
                    let a = peek!(0);
                    let wa = if s & 2 == 0 { 32 } else { 64 };
                    let t = self.term(a, wa);
                    let r = self.sat(s, t);
                    *st.stack.last_mut().unwrap() = tov(&self.cx, r);
                }
                I::BrIf(b) => {
                    let c = peek!(0);
                    let take = if c.t == 0 { c.c != 0 } else {
                        sync!();
                        let z = self.cx.k(0, self.cx.w(c.t));
                        let e = self.cx.ne(c.t, z);
                        self.decide(st, e)
                    };
                    pop!();
                    if take { branch!(b); if st.steps >= st.max_steps { st.cur.ip = ip as u32; return Out::Steps; } }
                }
                I::IfZ(pc) => {
                    let c = peek!(0);
                    let nz = if c.t == 0 { c.c != 0 } else {
                        sync!();
                        let z = self.cx.k(0, self.cx.w(c.t));
                        let e = self.cx.ne(c.t, z);
                        self.decide(st, e)
                    };
                    pop!();
                    if !nz { ip = pc as usize; }
                }
                I::Br(b) => { branch!(b); if st.steps >= st.max_steps { st.cur.ip = ip as u32; return Out::Steps; } }
                I::Jmp(p) => ip = p as usize,
                I::BrTable(t) => {
                    let c = peek!(0);
                    let tab = &m.brtabs[t as usize];
                    let dflt = tab.len() as u64 - 1;
                    let k = if c.t == 0 { c.c.min(dflt) } else {
                        sync!();
                        // decide target by target (merging equal targets)
                        let l = self.cx.k(dflt, 32);
                        let inr = self.cx.ult(c.t, l);
                        if self.decide(st, inr) { self.concretize(st, c) } else { dflt }
                    };
                    pop!();
                    branch!(tab[k.min(dflt) as usize]);
                    if st.steps >= st.max_steps { st.cur.ip = ip as u32; return Out::Steps; }
                }
                I::Return => {
                    let fu = &m.funcs[st.cur.f as usize];
                    let nres = fu.nresults as usize;
                    let n = st.stack.len();
                    let dst = st.cur.base as usize;
                    for i in 0..nres { st.stack[dst + i] = st.stack[n - nres + i]; }
                    st.stack.truncate(dst + nres);
                    match st.frames.pop() {
                        None => return Out::Done(st.stack[dst..].to_vec()),
                        Some(fr) => { st.cur = fr; code = &m.funcs[fr.f as usize].code; ip = fr.ip as usize; }
                    }
                }
                I::Call(f) => { if st.steps >= st.max_steps { sync!(); return Out::Steps; } call!(f, false) }
                I::RetCall(f) => { if st.steps >= st.max_steps { sync!(); return Out::Steps; } call!(f, true) }
                I::CallInd { ty, table } => { if st.steps >= st.max_steps { sync!(); return Out::Steps; } call_ind!(ty, table, false) }
                I::RetCallInd { ty, table } => { if st.steps >= st.max_steps { sync!(); return Out::Steps; } call_ind!(ty, table, true) }
                I::Drop => { pop!(); }
                I::Select(w) => {
                    let c = peek!(0);
                    let b = peek!(1);
                    let a = peek!(2);
                    let r = if c.t == 0 { if c.c != 0 { a } else { b } } else if a == b { a } else {
                        let z = self.cx.k(0, 32);
                        let e = self.cx.ne(c.t, z);
                        if let Some(k) = self.known_bool(st, e) { if k { a } else { b } } else {
                            let x = self.term(a, w);
                            let y = self.term(b, w);
                            let t = self.cx.ite(e, x, y);
                            tov(&self.cx, t)
                        }
                    };
                    let l = st.stack.len();
                    st.stack.truncate(l - 2);
                    *st.stack.last_mut().unwrap() = r;
                }
                I::GGet(g) => { let v = st.globals[g as usize]; st.stack.push(v); }
                I::GSet(g) => { let v = pop!(); st.globals[g as usize] = v; }
                I::ConstS(t) => st.stack.push(V { c: 0, t }),
                I::Unreachable => trap!("unreachable"),
                I::MemSize(_) => { let p = st.mem.pages64() as u64; st.stack.push(V::k(p)); }
                I::MemGrow(_) => {
                    let d = peek!(0);
                    let k = if d.t == 0 { d.c } else {
                        sync!();
                        let lim = (st.mem.max.min(65536) - st.mem.pages64()) as u64;
                        let lt = self.cx.k(lim, 32);
                        let ok = self.cx.ule(d.t, lt);
                        if self.decide(st, ok) { self.concretize(st, d) } else { u32::MAX as u64 }
                    };
                    let r = match st.mem.grow(k) { Some(o) => o as u64, None => 0xffff_ffff };
                    *st.stack.last_mut().unwrap() = V::k(r);
                }
                I::MemFill => {
                    let (n, v, d) = (peek!(0), peek!(1), peek!(2));
                    sync!();
                    let n = self.conc(st, n);
                    let ea = self.ea(st, d, V::k(0));
                    if !self.in_bounds(st, ea, n) { trap!("out of bounds memory access"); }
                    let vb = if v.t == 0 { V::k(v.c & 255) } else { let t = self.cx.extract(v.t, 0, 8); tov(&self.cx, t) };
                    self.bulk_write(st, ea, n, &mut |_| vb);
                    let l = st.stack.len();
                    st.stack.truncate(l - 3);
                }
                I::MemCopy => {
                    let (n, s, d) = (peek!(0), peek!(1), peek!(2));
                    sync!();
                    let n = self.conc(st, n);
                    let es = self.ea(st, s, V::k(0));
                    if !self.in_bounds(st, es, n) { trap!("out of bounds memory access"); }
                    let ed = self.ea(st, d, V::k(0));
                    if !self.in_bounds(st, ed, n) { trap!("out of bounds memory access"); }
                    let es = match self.known_val(st, es) { Some(k) => V::k(k), None => es };
                    let ed = match self.known_val(st, ed) { Some(k) => V::k(k), None => ed };
                    if es.t == 0 && ed.t == 0 { st.mem.copy(ed.c, es.c, n); }
                    else if n > 0 {
                        if n > 64 { let (a, b) = (self.conc(st, es), self.conc(st, ed)); st.mem.copy(b, a, n); } else {
                        let mut vals = vec![];
                        for k in 0..n { let a = self.ea64(es, k); let v = self.do_load(st, a, 1); vals.push(v); }
                        self.bulk_write(st, ed, n, &mut |k| vals[k as usize]);
                        }
                    }
                    let l = st.stack.len();
                    st.stack.truncate(l - 3);
                }
                I::MemInit(seg) => {
                    let (n, s, d) = (peek!(0), peek!(1), peek!(2));
                    sync!();
                    let n = self.conc(st, n);
                    let s = self.conc(st, s);
                    let dl = if st.dropped_data[seg as usize] { 0 } else { m.datas[seg as usize].bytes.len() as u64 };
                    if s + n > dl { trap!("out of bounds memory access"); }
                    let ed = self.ea(st, d, V::k(0));
                    if !self.in_bounds(st, ed, n) { trap!("out of bounds memory access"); }
                    let dd = &m.datas[seg as usize];
                    self.bulk_write(st, ed, n, &mut |k| {
                        let ix = (s + k) as usize;
                        let t = dd.sym.get(ix).copied().unwrap_or(0);
                        V { c: if t != 0 { 0 } else { dd.bytes[ix] as u64 }, t }
                    });
                    let l = st.stack.len();
                    st.stack.truncate(l - 3);
                }
                I::DataDrop(s) => st.dropped_data[s as usize] = true,
                I::RefNull => st.stack.push(V::k(0)),
                I::RefFunc(f) => st.stack.push(V::k(f as u64 + 1)),
                I::RefIsNull => {
                    let a = peek!(0);
                    let r = if a.t == 0 { V::k((a.c == 0) as u64) } else {
                        let z = self.cx.k(0, 32);
                        let e = self.cx.eq(a.t, z);
                        self.bool_v(e)
                    };
                    *st.stack.last_mut().unwrap() = r;
                }
                I::TGet(t) => {
                    let iv = peek!(0);
                    sync!();
                    let Some(k) = self.tidx(st, iv, t, 1) else { trap!("out of bounds table access") };
                    let v = st.tables[t as usize][k as usize];
                    *st.stack.last_mut().unwrap() = v;
                }
                I::TSet(t) => {
                    let v = peek!(0);
                    let iv = peek!(1);
                    sync!();
                    let Some(k) = self.tidx(st, iv, t, 1) else { trap!("out of bounds table access") };
                    Rc::make_mut(&mut st.tables[t as usize])[k as usize] = v;
                    let l = st.stack.len();
                    st.stack.truncate(l - 2);
                }
                I::TSize(t) => { let n = st.tables[t as usize].len() as u64; st.stack.push(V::k(n)); }
                I::TGrow(t) => {
                    let d = peek!(0);
                    sync!();
                    let d = self.conc(st, d);
                    let v = peek!(1);
                    let n = st.tables[t as usize].len() as u64;
                    let lim = st.tmax[t as usize].unwrap_or(10_000_000) as u64;
                    pop!();
                    let r = if n + d <= lim { Rc::make_mut(&mut st.tables[t as usize]).resize((n + d) as usize, v); n } else { 0xffff_ffff };
                    *st.stack.last_mut().unwrap() = V::k(r);
                }
                I::TFill(t) => {
                    let (n, v, d) = (peek!(0), peek!(1), peek!(2));
                    sync!();
                    let n = self.conc(st, n);
                    let Some(k) = self.tidx(st, d, t, n) else { trap!("out of bounds table access") };
                    for x in &mut Rc::make_mut(&mut st.tables[t as usize])[k as usize..(k + n) as usize] { *x = v; }
                    let l = st.stack.len();
                    st.stack.truncate(l - 3);
                }
                I::TCopy(dt, stb) => {
                    let (n, s, d) = (peek!(0), peek!(1), peek!(2));
                    sync!();
                    let n = self.conc(st, n);
                    let (Some(s), Some(d)) = (self.tidx(st, s, stb, n), self.tidx(st, d, dt, n)) else { trap!("out of bounds table access") };
                    let v: Vec<V> = st.tables[stb as usize][s as usize..(s + n) as usize].to_vec();
                    Rc::make_mut(&mut st.tables[dt as usize])[d as usize..(d + n) as usize].copy_from_slice(&v);
                    let l = st.stack.len();
                    st.stack.truncate(l - 3);
                }
                I::TInit(e, t) => {
                    let (n, s, d) = (peek!(0), peek!(1), peek!(2));
                    sync!();
                    let n = self.conc(st, n);
                    let s = self.conc(st, s);
                    let el = if st.dropped_elem[e as usize] { 0 } else { m.elems[e as usize].items.len() as u64 };
                    if s + n > el { trap!("out of bounds table access"); }
                    let Some(d) = self.tidx(st, d, t, n) else { trap!("out of bounds table access") };
                    let v: Vec<V> = m.elems[e as usize].items.iter().skip(s as usize).take(n as usize).map(|x| st.init_val(x)).collect();
                    Rc::make_mut(&mut st.tables[t as usize])[d as usize..(d + n) as usize].copy_from_slice(&v);
                    let l = st.stack.len();
                    st.stack.truncate(l - 3);
                }
                I::ElemDrop(e) => st.dropped_elem[e as usize] = true,
            }
        }
    }
    pub fn conc(&mut self, st: &mut State, v: V) -> u64 { if v.t == 0 { v.c } else { self.concretize(st, v) } }
    fn ea64(&mut self, a: V, k: u64) -> V {
        if a.t == 0 { return V::k(a.c + k); }
        let kt = self.cx.k(k, 64);
        let t = self.cx.add(a.t, kt);
        tov(&self.cx, t)
    }
    fn tidx(&mut self, st: &mut State, iv: V, t: u32, n: u64) -> Option<u64> {
        let l = st.tables[t as usize].len() as u64;
        if iv.t == 0 { return if iv.c + n <= l { Some(iv.c) } else { None }; }
        if n > l { return None; }
        let lt = self.cx.k(l - n, 32);
        let c = self.cx.ule(iv.t, lt);
        if self.decide(st, c) { Some(self.concretize(st, iv)) } else { None }
    }
    fn bulk_write(&mut self, st: &mut State, ed: V, n: u64, f: &mut dyn FnMut(u64) -> V) {
        if n == 0 { return; }
        let ed = match self.known_val(st, ed) { Some(k) => V::k(k), None => ed };
        let base = if ed.t == 0 { Some(ed.c) } else { None };
        if let Some(b) = base {
            let v0 = f(0);
            if n > 256 && (0..8.min(n)).all(|k| f(k) == v0) && (0..n).all(|k| f(k) == v0) { st.mem.fill(b, n, v0); return; }
            for k in 0..n { let v = f(k); st.mem.set_byte(b + k, v); }
            return;
        }
        if n <= 64 {
            if let Some(cs) = self.mux_addrs(st, ed.t) {
                if !cs.is_empty() {
                    let bytes: Vec<T> = (0..n).map(|k| { let v = f(k); self.term(v, 8) }).collect();
                    self.mux_store(st, &cs, &bytes);
                    return;
                }
            }
        }
        let b = self.concretize(st, ed);
        for k in 0..n { let v = f(k); st.mem.set_byte(b + k, v); }
    }
    fn load_ext(&mut self, op: u8, v: V) -> V {
        // (bytes, signed, result width)
        match op {
            0x28 | 0x29 | 0x2a | 0x2b => v,
            _ => {
                let (n, s, w): (u8, bool, u8) = match op {
                    0x2c => (8, true, 32), 0x2d => (8, false, 32), 0x2e => (16, true, 32), 0x2f => (16, false, 32),
                    0x30 => (8, true, 64), 0x31 => (8, false, 64), 0x32 => (16, true, 64), 0x33 => (16, false, 64),
                    0x34 => (32, true, 64), _ => (32, false, 64),
                };
                if v.t == 0 { return if s { V::k(sx(v.c, n) as u64 & mask(w)) } else { v }; }
                let t = if s { self.cx.sext(v.t, w) } else { self.cx.zext(v.t, w) };
                tov(&self.cx, t)
            }
        }
    }

    fn bin_s(&mut self, st: &mut State, op: u8, a: V, b: V) -> Result<V, &'static str> {
        let w: u8 = bin_width(op);
        let x = self.term(a, w);
        let y = self.term(b, w);
        let cx = &mut self.cx;
        macro_rules! bv { ($e:expr) => {{ let t = $e; Ok(tov(&self.cx, t)) }} }
        macro_rules! bl { ($e:expr) => {{ let c = $e; let t = cx.zext(c, 32); Ok(tov(&self.cx, t)) }} }
        match op {
            0x46 | 0x51 => bl!(cx.eq(x, y)),
            0x47 | 0x52 => bl!(cx.ne(x, y)),
            0x48 | 0x53 => bl!(cx.slt(x, y)),
            0x49 | 0x54 => bl!(cx.ult(x, y)),
            0x4a | 0x55 => bl!(cx.slt(y, x)),
            0x4b | 0x56 => bl!(cx.ult(y, x)),
            0x4c | 0x57 => bl!(cx.sle(x, y)),
            0x4d | 0x58 => bl!(cx.ule(x, y)),
            0x4e | 0x59 => bl!(cx.sle(y, x)),
            0x4f | 0x5a => bl!(cx.ule(y, x)),
            0x5b | 0x61 => bl!(cx.bin(Op::FEq, 1, x, y)),
            0x5c | 0x62 => bl!({ let e = cx.bin(Op::FEq, 1, x, y); cx.not(e) }),
            0x5d | 0x63 => bl!(cx.bin(Op::FLt, 1, x, y)),
            0x5e | 0x64 => bl!(cx.bin(Op::FLt, 1, y, x)),
            0x5f | 0x65 => bl!(cx.bin(Op::FLe, 1, x, y)),
            0x60 | 0x66 => bl!(cx.bin(Op::FLe, 1, y, x)),
            0x6a | 0x7c => bv!(cx.add(x, y)),
            0x6b | 0x7d => bv!(cx.sub(x, y)),
            0x6c | 0x7e => bv!(cx.mul(x, y)),
            0x6d | 0x6e | 0x6f | 0x70 | 0x7f | 0x80 | 0x81 | 0x82 => {
                let z = cx.k(0, w);
                let c = cx.eq(y, z);
                if self.decide(st, c) { return Err("integer divide by zero"); }
                if op == 0x6d || op == 0x7f {
                    let min = self.cx.k(1u64 << (w - 1), w);
                    let m1 = self.cx.k(u64::MAX, w);
                    let p = self.cx.eq(x, min);
                    let q = self.cx.eq(y, m1);
                    let c = self.cx.and(p, q);
                    if self.decide(st, c) { return Err("integer overflow"); }
                }
                let cx = &mut self.cx;
                let t = match op { 0x6d | 0x7f => cx.sdiv(x, y), 0x6e | 0x80 => cx.udiv(x, y), 0x6f | 0x81 => cx.srem(x, y), _ => cx.urem(x, y) };
                Ok(tov(&self.cx, t))
            }
            0x71 | 0x83 => bv!(cx.and(x, y)),
            0x72 | 0x84 => bv!(cx.or(x, y)),
            0x73 | 0x85 => bv!(cx.xor(x, y)),
            0x74 | 0x75 | 0x76 | 0x86 | 0x87 | 0x88 => {
                let m = cx.k(w as u64 - 1, w);
                let s = cx.and(y, m);
                let t = match op { 0x74 | 0x86 => cx.shl(x, s), 0x75 | 0x87 => cx.ashr(x, s), _ => cx.lshr(x, s) };
                Ok(tov(&self.cx, t))
            }
            0x77 | 0x89 => bv!(cx.rotl(x, y)),
            0x78 | 0x8a => bv!(cx.rotr(x, y)),
            0x92 | 0xa0 => bv!(cx.bin(Op::FAdd, w, x, y)),
            0x93 | 0xa1 => bv!(cx.bin(Op::FSub, w, x, y)),
            0x94 | 0xa2 => bv!(cx.bin(Op::FMul, w, x, y)),
            0x95 | 0xa3 => bv!(cx.bin(Op::FDiv, w, x, y)),
            0x96 | 0xa4 => bv!(cx.bin(Op::FMin, w, x, y)),
            0x97 | 0xa5 => bv!(cx.bin(Op::FMax, w, x, y)),
            0x98 | 0xa6 => bv!(cx.fcopysign(x, y)),
            _ => unreachable!("binop {:x}", op),
        }
    }

    /// In-range condition of a trapping float->int conversion (opcode byte 0xa8..).
    fn trunc_ok(&mut self, x: T, wf: u8, wi: u8, signed: bool) -> T {
        let lo_excl: f64;
        let hi: f64;
        let lo_incl: bool;
        match (wi, signed) {
            (32, true) => { hi = 2147483648.0; if wf == 32 { lo_excl = -2147483648.0; lo_incl = true } else { lo_excl = -2147483649.0; lo_incl = false } }
            (32, false) => { hi = 4294967296.0; lo_excl = -1.0; lo_incl = false }
            (_, true) => { hi = 9223372036854775808.0; lo_excl = -9223372036854775808.0; lo_incl = true }
            _ => { hi = 18446744073709551616.0; lo_excl = -1.0; lo_incl = false }
        }
        let fk = |v: f64| if wf == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
        let l = self.cx.k(fk(lo_excl), wf);
        let h = self.cx.k(fk(hi), wf);
        let a = if lo_incl { self.cx.bin(Op::FLe, 1, l, x) } else { self.cx.bin(Op::FLt, 1, l, x) };
        let b = self.cx.bin(Op::FLt, 1, x, h);
        self.cx.and(a, b)
    }
    pub fn sat(&mut self, s: u8, x: T) -> T {
        let wi: u8 = if s < 4 { 32 } else { 64 };
        let wf: u8 = if s & 2 == 0 { 32 } else { 64 };
        let signed = s & 1 == 0;
        if let Some(c) = self.cx.cv(x) {
            let f = if wf == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
            let r = match (wi, signed) { (32, true) => (f as i32) as u32 as u64, (32, false) => (f as u32) as u64, (_, true) => (f as i64) as u64, _ => f as u64 };
            return self.cx.k(r, wi);
        }
        let ok = self.trunc_ok(x, wf, wi, signed);
        let t = self.cx.un(if signed { Op::TruncS } else { Op::TruncU }, wi, x);
        let nan = self.cx.fis_nan(x);
        let z = self.cx.k(0, wi);
        let zero = self.cx.k(0, wf);
        let neg = self.cx.bin(Op::FLt, 1, x, zero);
        let (mn, mx) = if signed { (1u64 << (wi - 1), (1u64 << (wi - 1)) - 1) } else { (0, u64::MAX) };
        let mn = self.cx.k(mn, wi);
        let mx = self.cx.k(mx, wi);
        let lim = self.cx.ite(neg, mn, mx);
        let out = self.cx.ite(nan, z, lim);
        self.cx.ite(ok, t, out)
    }

    fn un_s(&mut self, st: &mut State, op: u8, a: V) -> Result<V, &'static str> {
        let x = a.t;
        let cx = &mut self.cx;
        macro_rules! bv { ($e:expr) => {{ let t = $e; Ok(tov(&self.cx, t)) }} }
        match op {
            0x45 | 0x50 => { let w = cx.w(x); let z = cx.k(0, w); let c = cx.eq(x, z); bv!(cx.zext(c, 32)) }
            0x67 | 0x79 => { let w = cx.w(x); bv!(cx.un(Op::Clz, w, x)) }
            0x68 | 0x7a => { let w = cx.w(x); bv!(cx.un(Op::Ctz, w, x)) }
            0x69 | 0x7b => { let w = cx.w(x); bv!(cx.un(Op::Popcnt, w, x)) }
            0x8b | 0x99 => bv!(cx.fabs(x)),
            0x8c | 0x9a => bv!(cx.fneg(x)),
            0x8d | 0x9b => { let w = cx.w(x); bv!(cx.un(Op::FCeil, w, x)) }
            0x8e | 0x9c => { let w = cx.w(x); bv!(cx.un(Op::FFloor, w, x)) }
            0x8f | 0x9d => { let w = cx.w(x); bv!(cx.un(Op::FTrunc, w, x)) }
            0x90 | 0x9e => { let w = cx.w(x); bv!(cx.un(Op::FNearest, w, x)) }
            0x91 | 0x9f => { let w = cx.w(x); bv!(cx.un(Op::FSqrt, w, x)) }
            0xa7 => bv!(cx.extract(x, 0, 32)),
            0xa8..=0xab | 0xae..=0xb1 => {
                let k = if op < 0xac { op - 0xa8 } else { op - 0xae };
                let wi = if op < 0xac { 32 } else { 64 };
                let wf = if k < 2 { 32 } else { 64 };
                let signed = k & 1 == 0;
                let nan = self.cx.fis_nan(x);
                if self.decide(st, nan) { return Err("invalid conversion to integer"); }
                let ok = self.trunc_ok(x, wf, wi, signed);
                if !self.decide(st, ok) { return Err("integer overflow"); }
                let t = self.cx.un(if signed { Op::TruncS } else { Op::TruncU }, wi, x);
                Ok(tov(&self.cx, t))
            }
            0xac => bv!(cx.sext(x, 64)),
            0xad => bv!(cx.zext(x, 64)),
            0xb2 | 0xb4 => bv!(cx.un(Op::CvtS, 32, x)),
            0xb3 | 0xb5 => bv!(cx.un(Op::CvtU, 32, x)),
            0xb7 | 0xb9 => bv!(cx.un(Op::CvtS, 64, x)),
            0xb8 | 0xba => bv!(cx.un(Op::CvtU, 64, x)),
            0xb6 => bv!(cx.un(Op::FDemote, 32, x)),
            0xbb => bv!(cx.un(Op::FPromote, 64, x)),
            0xbc..=0xbf => Ok(a),
            0xc0 => { let e = cx.extract(x, 0, 8); bv!(cx.sext(e, 32)) }
            0xc1 => { let e = cx.extract(x, 0, 16); bv!(cx.sext(e, 32)) }
            0xc2 => { let e = cx.extract(x, 0, 8); bv!(cx.sext(e, 64)) }
            0xc3 => { let e = cx.extract(x, 0, 16); bv!(cx.sext(e, 64)) }
            0xc4 => { let e = cx.extract(x, 0, 32); bv!(cx.sext(e, 64)) }
            _ => unreachable!("unop {:x}", op),
        }
    }
}

const LN: [u8; 14] = [4, 8, 4, 8, 1, 1, 2, 2, 1, 1, 2, 2, 4, 4];
const SN: [u8; 9] = [4, 8, 4, 8, 1, 2, 1, 2, 4];

pub fn bin_width(op: u8) -> u8 {
    match op {
        0x46..=0x4f | 0x5b..=0x60 | 0x6a..=0x78 | 0x92..=0x98 => 32,
        _ => 64,
    }
}

#[inline]
pub fn bin_c(op: u8, a: u64, b: u64) -> Result<u64, &'static str> {
    let (x, y) = (a as u32, b as u32);
    let (xs, ys) = (x as i32, y as i32);
    let (a_s, b_s) = (a as i64, b as i64);
    let f = |v: bool| Ok(v as u64);
    let i = |v: u32| Ok(v as u64);
    macro_rules! fb { ($op:expr, $w:expr) => { Ok(ev($op, $w, $w, a, $w, b, 0)) } }
    match op {
        0x6a => i(x.wrapping_add(y)),
        0x6b => i(x.wrapping_sub(y)),
        0x71 => i(x & y),
        0x46 => f(x == y), 0x47 => f(x != y), 0x48 => f(xs < ys), 0x49 => f(x < y), 0x4a => f(xs > ys), 0x4b => f(x > y),
        0x4c => f(xs <= ys), 0x4d => f(x <= y), 0x4e => f(xs >= ys), 0x4f => f(x >= y),
        0x51 => f(a == b), 0x52 => f(a != b), 0x53 => f(a_s < b_s), 0x54 => f(a < b), 0x55 => f(a_s > b_s), 0x56 => f(a > b),
        0x57 => f(a_s <= b_s), 0x58 => f(a <= b), 0x59 => f(a_s >= b_s), 0x5a => f(a >= b),
        0x6c => i(x.wrapping_mul(y)),
        0x6d => if y == 0 { Err("integer divide by zero") } else if xs == i32::MIN && ys == -1 { Err("integer overflow") } else { i((xs / ys) as u32) },
        0x6e => if y == 0 { Err("integer divide by zero") } else { i(x / y) },
        0x6f => if y == 0 { Err("integer divide by zero") } else { i(xs.wrapping_rem(ys) as u32) },
        0x70 => if y == 0 { Err("integer divide by zero") } else { i(x % y) },
        0x72 => i(x | y), 0x73 => i(x ^ y),
        0x74 => i(x << (y & 31)), 0x75 => i((xs >> (y & 31)) as u32), 0x76 => i(x >> (y & 31)),
        0x77 => i(x.rotate_left(y & 31)), 0x78 => i(x.rotate_right(y & 31)),
        0x7c => Ok(a.wrapping_add(b)), 0x7d => Ok(a.wrapping_sub(b)), 0x7e => Ok(a.wrapping_mul(b)),
        0x7f => if b == 0 { Err("integer divide by zero") } else if a_s == i64::MIN && b_s == -1 { Err("integer overflow") } else { Ok((a_s / b_s) as u64) },
        0x80 => if b == 0 { Err("integer divide by zero") } else { Ok(a / b) },
        0x81 => if b == 0 { Err("integer divide by zero") } else { Ok(a_s.wrapping_rem(b_s) as u64) },
        0x82 => if b == 0 { Err("integer divide by zero") } else { Ok(a % b) },
        0x83 => Ok(a & b), 0x84 => Ok(a | b), 0x85 => Ok(a ^ b),
        0x86 => Ok(a << (b & 63)), 0x87 => Ok((a_s >> (b & 63)) as u64), 0x88 => Ok(a >> (b & 63)),
        0x89 => Ok(a.rotate_left((b & 63) as u32)), 0x8a => Ok(a.rotate_right((b & 63) as u32)),
        0x5b => fb!(Op::FEq, 32), 0x5c => Ok(1 - ev(Op::FEq, 1, 32, a, 32, b, 0)), 0x5d => fb!(Op::FLt, 32), 0x5e => Ok(ev(Op::FLt, 1, 32, b, 32, a, 0)), 0x5f => fb!(Op::FLe, 32), 0x60 => Ok(ev(Op::FLe, 1, 32, b, 32, a, 0)),
        0x61 => fb!(Op::FEq, 64), 0x62 => Ok(1 - ev(Op::FEq, 1, 64, a, 64, b, 0)), 0x63 => fb!(Op::FLt, 64), 0x64 => Ok(ev(Op::FLt, 1, 64, b, 64, a, 0)), 0x65 => fb!(Op::FLe, 64), 0x66 => Ok(ev(Op::FLe, 1, 64, b, 64, a, 0)),
        0x92 => fb!(Op::FAdd, 32), 0x93 => fb!(Op::FSub, 32), 0x94 => fb!(Op::FMul, 32), 0x95 => fb!(Op::FDiv, 32), 0x96 => fb!(Op::FMin, 32), 0x97 => fb!(Op::FMax, 32),
        0x98 => Ok((a & 0x7fff_ffff) | (b & 0x8000_0000)),
        0xa0 => fb!(Op::FAdd, 64), 0xa1 => fb!(Op::FSub, 64), 0xa2 => fb!(Op::FMul, 64), 0xa3 => fb!(Op::FDiv, 64), 0xa4 => fb!(Op::FMin, 64), 0xa5 => fb!(Op::FMax, 64),
        0xa6 => Ok((a & !(1 << 63)) | (b & (1 << 63))),
        _ => unreachable!("binop {:x}", op),
    }
}

#[inline]
pub fn un_c(op: u8, a: u64) -> Result<u64, &'static str> {
    let x = a as u32;
    macro_rules! fu { ($op:expr, $w:expr) => { Ok(ev($op, $w, $w, a, 0, 0, 0)) } }
    let trunc = |v: f64, lo: f64, lo_incl: bool, hi: f64| -> Result<f64, &'static str> {
        if v.is_nan() { return Err("invalid conversion to integer"); }
        if !((if lo_incl { v >= lo } else { v > lo }) && v < hi) { return Err("integer overflow"); }
        Ok(v)
    };
    let f = || f32::from_bits(x) as f64;
    let d = || f64::from_bits(a);
    const P31: f64 = 2147483648.0;
    const P63: f64 = 9223372036854775808.0;
    Ok(match op {
        0x45 => (x == 0) as u64, 0x50 => (a == 0) as u64,
        0x67 => x.leading_zeros() as u64, 0x68 => x.trailing_zeros() as u64, 0x69 => x.count_ones() as u64,
        0x79 => a.leading_zeros() as u64, 0x7a => a.trailing_zeros() as u64, 0x7b => a.count_ones() as u64,
        0x8b => a & 0x7fff_ffff, 0x8c => a ^ 0x8000_0000,
        0x8d => return fu!(Op::FCeil, 32), 0x8e => return fu!(Op::FFloor, 32), 0x8f => return fu!(Op::FTrunc, 32), 0x90 => return fu!(Op::FNearest, 32), 0x91 => return fu!(Op::FSqrt, 32),
        0x99 => a & !(1 << 63), 0x9a => a ^ (1 << 63),
        0x9b => return fu!(Op::FCeil, 64), 0x9c => return fu!(Op::FFloor, 64), 0x9d => return fu!(Op::FTrunc, 64), 0x9e => return fu!(Op::FNearest, 64), 0x9f => return fu!(Op::FSqrt, 64),
        0xa7 => x as u64,
        0xa8 => (trunc(f(), -P31, true, P31)? as i32) as u32 as u64,
        0xa9 => (trunc(f(), -1.0, false, 2.0 * P31)? as u32) as u64,
        0xaa => (trunc(d(), -P31 - 1.0, false, P31)? as i32) as u32 as u64,
        0xab => (trunc(d(), -1.0, false, 2.0 * P31)? as u32) as u64,
        0xac => (x as i32 as i64) as u64, 0xad => x as u64,
        0xae => (trunc(f(), -P63, true, P63)? as i64) as u64,
        0xaf => trunc(f(), -1.0, false, 2.0 * P63)? as u64,
        0xb0 => (trunc(d(), -P63, true, P63)? as i64) as u64,
        0xb1 => trunc(d(), -1.0, false, 2.0 * P63)? as u64,
        0xb2 => ev(Op::CvtS, 32, 32, a, 0, 0, 0), 0xb3 => ev(Op::CvtU, 32, 32, a, 0, 0, 0), 0xb4 => ev(Op::CvtS, 32, 64, a, 0, 0, 0), 0xb5 => ev(Op::CvtU, 32, 64, a, 0, 0, 0),
        0xb6 => ev(Op::FDemote, 32, 64, a, 0, 0, 0),
        0xb7 => ev(Op::CvtS, 64, 32, a, 0, 0, 0), 0xb8 => ev(Op::CvtU, 64, 32, a, 0, 0, 0), 0xb9 => ev(Op::CvtS, 64, 64, a, 0, 0, 0), 0xba => ev(Op::CvtU, 64, 64, a, 0, 0, 0),
        0xbb => ev(Op::FPromote, 64, 32, a, 0, 0, 0),
        0xbc..=0xbf => a,
        0xc0 => (x as i8 as i32) as u32 as u64, 0xc1 => (x as i16 as i32) as u32 as u64,
        0xc2 => (a as i8 as i64) as u64, 0xc3 => (a as i16 as i64) as u64, 0xc4 => (a as i32 as i64) as u64,
        _ => unreachable!("unop {:x}", op),
    })
}
