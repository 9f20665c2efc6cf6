//! Systematic and seeded-random generators of guest functions (control flow,
//! instruction sequences, calls).  The programs are enumerated or drawn; every
//! input of a program is symbolic.
use crate::gen::*;
use crate::wasm::Ty::{self, *};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0xd1b5_4a32_d192_ed03) }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 11 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X { &v[self.below(v.len())] }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.next() % den < num }
}

/// Declarations shared by random guest functions: memory, globals, helpers, table.
pub const RPRE: &str = "(memory 1 2) (data (i32.const 0) \"\\11\\22\\33\\44\\55\\66\\77\\88\\99\\aa\\bb\\cc\\dd\\ee\\ff\\10\\21\\32\\43\\54\\65\\76\\87\\98\")
 (global $gi32 (mut i32) (i32.const 5)) (global $gi64 (mut i64) (i64.const -6)) (global $gf32 (mut f32) (f32.const 1.5)) (global $gf64 (mut f64) (f64.const -2.5))
 (func $hi32 (param i32) (result i32) local.get 0 i32.const 1 i32.add)
 (func $hi64 (param i64) (result i64) local.get 0 i64.const 3 i64.xor)
 (func $hf32 (param f32) (result f32) local.get 0 f32.neg)
 (func $hf64 (param f64) (result f64) local.get 0 f64.neg)
 (func $h2 (param i32 i64) (result i64 i32) local.get 1 local.get 0)
 (func $h4 (param f64 i32 f32 i64) (result i64 f32 i32 f64) (local i32) local.get 3 local.get 2 local.get 1 local.get 4 i32.sub local.get 0)
 (func $hsub (param i32 i32) (result i32) local.get 0 local.get 1 i32.sub)
 (func $hv (param i32) local.get 0 global.get $gi32 i32.xor global.set $gi32)
 (func $hret (param i32) (result i32) (local i32) (block (br_if 0 (local.get 0)) (return (i32.const 9))) local.get 0 i32.const 2 i32.shl)
 (type $ti (func (param i32) (result i32))) (table 4 funcref) (elem (i32.const 0) $hi32 $hret $hi32)";

/// Straight-line instruction pattern: text, operands (bottom first), results.
#[derive(Clone)]
pub struct Op { pub text: String, pub ins: Vec<Ty>, pub outs: Vec<Ty> }
pub fn op(t: &str, i: &[Ty], o: &[Ty]) -> Op { Op { text: t.into(), ins: i.to_vec(), outs: o.to_vec() } }

/// The cheap operators used for building sequences (no operator is expensive for the solver).
pub fn seq_ops(t: Ty) -> Vec<Op> {
    let n = tn(t);
    let mut v = vec![];
    match t {
        I32 | I64 => {
            for o in ["sub", "add", "and", "xor"] { v.push(op(&format!("{}.{}", n, o), &[t, t], &[t])); }
            v.push(op(&format!("{}.eqz", n), &[t], &[I32]));
            v.push(op(&format!("{}.lt_u", n), &[t, t], &[I32]));
            v.push(op(&format!("{}.ge_s", n), &[t, t], &[I32]));
            v.push(op(&format!("{}.extend8_s", n), &[t], &[t]));
        }
        _ => {
            v.push(op(&format!("{}.copysign", n), &[t, t], &[t]));
            v.push(op(&format!("{}.neg", n), &[t], &[t]));
            v.push(op(&format!("{}.abs", n), &[t], &[t]));
            v.push(op(&format!("{}.lt", n), &[t, t], &[I32]));
        }
    }
    v
}
pub fn cheap_convs() -> Vec<Op> {
    vec![op("i32.wrap_i64", &[I64], &[I32]), op("i64.extend_i32_s", &[I32], &[I64]), op("i64.extend_i32_u", &[I32], &[I64]),
        op("i32.reinterpret_f32", &[F32], &[I32]), op("f32.reinterpret_i32", &[I32], &[F32]), op("i64.reinterpret_f64", &[F64], &[I64]), op("f64.reinterpret_i64", &[I64], &[F64])]
}

/// All well-typed sequences of exactly `n` operators from the alphabet over locals of the given types,
/// leaving at most `maxleft` values.  The body returns the leftover stack followed by all locals.
pub fn sequences(alpha: &[Op], n: usize, locals: &[Ty], maxleft: usize, keep: &mut dyn FnMut(usize) -> bool) -> Vec<F> {
    let mut out = vec![];
    let mut count = 0usize;
    let mut cur: Vec<usize> = vec![];
    fn rec(alpha: &[Op], n: usize, locals: &[Ty], maxleft: usize, st: &[Ty], cur: &mut Vec<usize>, out: &mut Vec<F>, count: &mut usize, keep: &mut dyn FnMut(usize) -> bool) {
        if n == 0 {
            if st.len() > maxleft { return; }
            *count += 1;
            if !keep(*count) { return; }
            let mut body: Vec<String> = cur.iter().map(|i| alpha[*i].text.clone()).collect();
            let mut res = st.to_vec();
            for (i, l) in locals.iter().enumerate() { body.push(format!("local.get {}", i)); res.push(*l); }
            out.push(F::new(locals, &res, &body.join(" ")));
            return;
        }
        for (i, o) in alpha.iter().enumerate() {
            let k = o.ins.len();
            if st.len() < k || st[st.len() - k..] != o.ins[..] { continue; }
            let mut s2 = st[..st.len() - k].to_vec();
            s2.extend(&o.outs);
            // every later operator removes at most two values more than it adds
            if s2.len() > maxleft + 2 * (n - 1) { continue; }
            cur.push(i);
            rec(alpha, n - 1, locals, maxleft, &s2, cur, out, count, keep);
            cur.pop();
        }
    }
    rec(alpha, n, locals, maxleft, &[], &mut cur, &mut out, &mut count, keep);
    out
}

/// Alphabet over two locals of type `t`.
pub fn alphabet(t: Ty, rich: bool) -> Vec<Op> {
    let n = tn(t);
    let mut v = vec![];
    for i in 0..2 {
        v.push(op(&format!("local.get {}", i), &[], &[t]));
        v.push(op(&format!("local.set {}", i), &[t], &[]));
        v.push(op(&format!("local.tee {}", i), &[t], &[t]));
    }
    v.push(op(&format!("{}.const 7", n), &[], &[t]));
    v.push(op("drop", &[t], &[]));
    match t {
        I32 | I64 => {
            v.push(op(&format!("{}.sub", n), &[t, t], &[t]));
            v.push(op(&format!("{}.popcnt", n), &[t], &[t]));
            if t == I64 { v.push(op("i64.eqz i64.extend_i32_u", &[t], &[t])); } else { v.push(op("i32.eqz", &[t], &[t])); v.push(op("select", &[t, t, I32], &[t])); }
        }
        _ => { v.push(op(&format!("{}.copysign", n), &[t, t], &[t])); v.push(op(&format!("{}.neg", n), &[t], &[t])); }
    }
    if rich {
        v.push(op(&format!("call $h{}", n), &[t], &[t]));
        v.push(op(&format!("global.get $g{}", n), &[], &[t]));
        v.push(op(&format!("global.set $g{}", n), &[t], &[]));
        if t == I32 {
            v.push(op("call $hsub", &[t, t], &[t]));
            v.push(op("call $hv", &[t], &[]));
            v.push(op("i32.const 15 i32.and i32.load", &[t], &[t]));
            v.push(op("i32.extend8_s", &[t], &[t]));
        }
        v.push(op(&format!("i32.const 4 {}.load", n), &[], &[t]));
        if t == I32 { v.push(op("i32.const 15 i32.and i32.const 77 i32.store", &[t], &[])); }
        v.push(op(&format!("(block (param {}) (result {}))", n, n), &[t], &[t]));
    }
    v
}

/// Random function generator.
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub vars: Vec<Ty>,
    /// label stack (innermost last): operand types a branch carries
    labels: Vec<Vec<Ty>>,
    fuel: usize,
    pub budget: i32,
    /// use control constructs / calls / memory
    pub control: bool,
    pub traps: bool,
    results: Vec<Ty>,
    depth: usize,
    out: String,
    ops: Vec<Op>,
    /// call instructions with their operand and result types (the RPRE helpers when empty)
    callees: Vec<(String, Vec<Ty>, Vec<Ty>)>,
}
impl<'a> Gen<'a> {
    pub fn func(r: &mut Rng, params: &[Ty], results: &[Ty], budget: i32, control: bool, traps: bool) -> F { Gen::func_with(r, params, results, budget, control, traps, vec![], "") }
    pub fn func_with(r: &mut Rng, params: &[Ty], results: &[Ty], budget: i32, control: bool, traps: bool, callees: Vec<(String, Vec<Ty>, Vec<Ty>)>, pre: &str) -> F {
        let mut locals: Vec<Ty> = vec![];
        for _ in 0..r.below(4) { locals.push(*r.pick(&NUM)); }
        if params.is_empty() && locals.is_empty() { locals.push(I64); }
        locals.push(I32); // fuel
        let mut vars = params.to_vec();
        vars.extend(&locals);
        let fuel = vars.len() - 1;
        vars.pop();
        let mut ops = cheap_convs();
        for t in NUM { ops.extend(seq_ops(t)); }
        let mut g = Gen { r, vars, labels: vec![results.to_vec()], fuel, budget, control, traps, results: results.to_vec(), depth: 0, out: pre.to_string(), ops, callees };
        g.out.push_str(&format!("i32.const 4 local.set {} ", fuel));
        let st = g.block(vec![], results.to_vec());
        let _ = st;
        let body = g.out;
        F::new(params, results, &body).locals(&locals)
    }
    fn emit(&mut self, s: &str) { self.out.push_str(s); self.out.push('\n'); }
    fn ty(&mut self) -> Ty { *self.r.pick(&[I32, I32, I32, I64, I64, F32, F64]) }
    fn tys(&mut self, max: usize) -> Vec<Ty> { let n = self.r.below(max + 1); (0..n).map(|_| self.ty()).collect() }
    /// pushes a value of type t
    fn push(&mut self, t: Ty) {
        let c: Vec<usize> = (0..self.vars.len()).filter(|i| self.vars[*i] == t).collect();
        match self.r.below(10) {
            0..=4 if !c.is_empty() => { let v = *self.r.pick(&c); self.emit(&format!("local.get {}", v)); }
            5 => self.emit(&format!("global.get $g{}", tn(t))),
            6 => { let a = self.r.below(3) * 8; self.emit(&format!("i32.const {} {}.load", a, tn(t))); }
            _ => {
                let k = self.r.below(5) as i32 - 1;
                match t { F32 | F64 => self.emit(&format!("{}.const {}.5", tn(t), k)), _ => self.emit(&format!("{}.const {}", tn(t), k * 3)) }
            }
        }
    }
    /// consumes the top value of type t
    fn pop(&mut self, t: Ty) {
        let c: Vec<usize> = (0..self.vars.len()).filter(|i| self.vars[*i] == t).collect();
        match self.r.below(6) {
            0..=2 if !c.is_empty() => { let v = *self.r.pick(&c); self.emit(&format!("local.set {}", v)); }
            3 => self.emit(&format!("global.set $g{}", tn(t))),
            4 if t == I32 => self.emit("call $hv"),
            _ => self.emit("drop"),
        }
    }
    /// brings the stack to end with `want` (keeping whatever is below)
    fn want(&mut self, st: &mut Vec<Ty>, want: &[Ty]) {
        // reuse matching suffix some of the time
        let mut k = want.len().min(st.len());
        while k > 0 && st[st.len() - k..] != want[..k] { k -= 1; }
        if k > 0 && self.r.chance(3, 4) { for t in &want[k..] { self.push(*t); st.push(*t); } }
        else { for t in want { self.push(*t); st.push(*t); } }
    }
    /// exactly `want` on the stack
    fn settle(&mut self, st: &mut Vec<Ty>, want: &[Ty]) {
        let mut k = 0;
        while k < st.len() && k < want.len() && st[k] == want[k] { k += 1; }
        while st.len() > k { let t = st.pop().unwrap(); self.pop(t); }
        for t in &want[k..] { self.push(*t); st.push(*t); }
    }
    /// a fuel test that leaves the function when fuel runs out (before anything that may loop)
    fn tick(&mut self) {
        let f = self.fuel;
        let res = self.results.clone();
        self.out.push_str(&format!("local.get {} i32.const 1 i32.sub local.tee {} i32.const 0 i32.lt_s (if (then ", f, f));
        for t in &res { self.push(*t); }
        self.out.push_str("return))\n");
    }
    /// bodies end with exactly `res`
    fn block(&mut self, params: Vec<Ty>, res: Vec<Ty>) -> Vec<Ty> {
        let mut st = params;
        let steps = 2 + self.r.below(5);
        for _ in 0..steps {
            if self.budget <= 0 { break; }
            self.budget -= 1;
            if self.step(&mut st) {
                // unreachable from here; a little dead code now and then
                return res;
            }
        }
        self.settle(&mut st, &res);
        st
    }
    fn branch_ok(&self) -> bool { !self.labels.is_empty() }
    /// one step; true when the rest of the block is unreachable
    fn step(&mut self, st: &mut Vec<Ty>) -> bool {
        let c = self.r.below(if self.control { 20 } else { 12 });
        match c {
            0..=5 => {
                // an operator, arranging its operands
                let o = self.ops[self.r.below(self.ops.len())].clone();
                self.want(st, &o.ins);
                let k = st.len() - o.ins.len();
                st.truncate(k);
                self.emit(&o.text);
                st.extend(&o.outs);
            }
            6 => { let t = self.ty(); self.push(t); st.push(t); }
            7 => { if let Some(t) = st.pop() { self.pop(t); } }
            8 => {
                let t = self.ty();
                self.want(st, &[t, t]);
                // the condition comes last
                self.push(I32);
                if self.r.chance(1, 3) { self.emit("i32.eqz"); }
                self.emit("select");
                st.pop();
            }
            9 => {
                let v = self.r.below(self.vars.len());
                let t = self.vars[v];
                self.want(st, &[t]);
                self.emit(&format!("local.tee {}", v));
            }
            10 if !self.callees.is_empty() && self.r.chance(4, 5) => {
                let (n, i, o) = self.callees[self.r.below(self.callees.len())].clone();
                self.want(st, &i);
                let k = st.len() - i.len();
                st.truncate(k);
                self.emit(&n);
                st.extend(o);
            }
            10 => {
                let (n, i, o): (&str, &[Ty], &[Ty]) = match self.r.below(8) {
                    0 => ("$hi32", &[I32], &[I32]), 1 => ("$hi64", &[I64], &[I64]), 2 => ("$hf32", &[F32], &[F32]), 3 => ("$hf64", &[F64], &[F64]),
                    4 => ("$h2", &[I32, I64], &[I64, I32]), 5 => ("$h4", &[F64, I32, F32, I64], &[I64, F32, I32, F64]), 6 => ("$hsub", &[I32, I32], &[I32]), _ => ("$hret", &[I32], &[I32]),
                };
                self.want(st, i);
                let k = st.len() - i.len();
                st.truncate(k);
                self.emit(&format!("call {}", n));
                st.extend(o);
            }
            11 => {
                let t = self.ty();
                // store at a constant address
                let a = 32 + 8 * self.r.below(3);
                self.emit(&format!("i32.const {}", a));
                self.push(t);
                self.emit(&format!("{}.store", tn(t)));
            }
            12..=16 if self.depth < 3 => {
                let kind = self.r.below(4);
                let k = self.r.below(st.len().min(2) + 1);
                let params: Vec<Ty> = st[st.len() - k..].to_vec();
                let res = self.tys(2);
                let cond = kind >= 2;
                if cond { self.push(I32); if self.r.chance(1, 3) { self.emit("i32.eqz"); } }
                let n = st.len() - k;
                st.truncate(n);
                let sig = format!("{} {}", crate::gen::tys("param", &params), crate::gen::tys("result", &res));
                self.depth += 1;
                let lab = if kind == 1 { params.clone() } else { res.clone() };
                // inside the construct the outer operands are out of reach
                match kind {
                    0 => { self.emit(&format!("(block {}", sig)); self.labels.push(lab); self.block(params, res.clone()); self.emit(")"); self.labels.pop(); }
                    1 => { self.emit(&format!("(loop {}", sig)); self.labels.push(lab); self.tick(); self.block(params, res.clone()); self.emit(")"); self.labels.pop(); }
                    2 => {
                        self.emit(&format!("if {}", sig));
                        self.labels.push(lab.clone());
                        self.block(params.clone(), res.clone());
                        self.emit("else");
                        self.block(params, res.clone());
                        self.emit("end");
                        self.labels.pop();
                    }
                    _ => {
                        // if without else needs equal parameter and result types
                        let sig = format!("{} {}", crate::gen::tys("param", &params), crate::gen::tys("result", &params));
                        self.emit(&format!("if {}", sig));
                        self.labels.push(params.clone());
                        self.block(params.clone(), params.clone());
                        self.emit("end");
                        self.labels.pop();
                        self.depth -= 1;
                        st.extend(params);
                        return false;
                    }
                }
                self.depth -= 1;
                st.extend(res);
            }
            17 | 18 if self.branch_ok() => {
                let d = self.r.below(self.labels.len());
                let lab = self.labels[self.labels.len() - 1 - d].clone();
                match self.r.below(5) {
                    0..=2 => {
                        self.want(st, &lab);
                        self.push(I32);
                        match self.r.below(3) { 0 => self.emit("i32.const 1 i32.and"), 1 => self.emit("i32.eqz"), _ => {} }
                        self.emit(&format!("br_if {}", d));
                    }
                    3 => {
                        self.want(st, &lab);
                        self.emit(&format!("br {}", d));
                        return true;
                    }
                    _ => {
                        // all targets must carry the same types
                        let same: Vec<usize> = (0..self.labels.len()).filter(|e| self.labels[self.labels.len() - 1 - e] == lab).collect();
                        self.want(st, &lab);
                        self.push(I32);
                        let n = 1 + self.r.below(3);
                        let mut s = "br_table".to_string();
                        for _ in 0..n + 1 { s.push_str(&format!(" {}", self.r.pick(&same))); }
                        self.emit(&s);
                        return true;
                    }
                }
            }
            19 => {
                if self.traps && self.r.chance(1, 3) {
                    match self.r.below(3) {
                        0 => { self.emit("unreachable"); return true; }
                        1 => { self.want(st, &[I32]); self.push(I32); self.emit("i32.const 3 i32.and i32.div_u"); }
                        _ => { self.want(st, &[I32]); self.push(I32); self.emit("i32.const 3 i32.and call_indirect (type $ti)"); st.pop(); st.push(I32); }
                    }
                } else if self.r.chance(1, 2) {
                    let res = self.results.clone();
                    self.want(st, &res);
                    self.emit("return");
                    return true;
                }
            }
            _ => {}
        }
        false
    }
}

/// Systematic control nests: constructs × branch × target × carried operands.
/// Parameters: (x, y, a, b, c, d): two i32 drivers and one value of each type.
pub fn nests(th: bool, r: &mut Rng) -> Vec<(String, F)> {
    let mut out = vec![];
    let blocktypes: [(&[Ty], &[Ty]); 8] = [(&[], &[]), (&[], &[I32]), (&[], &[I64, F32]), (&[I32], &[I32]), (&[F64, I32], &[I64]), (&[I64], &[]), (&[F32, F64], &[F64, F32]), (&[I32, I64], &[I64, I32, F64])];
    let kinds = ["block", "loop", "then", "else"];
    let mut combos: Vec<Vec<usize>> = vec![];
    for a in 0..4 { combos.push(vec![a]); for b in 0..4 { combos.push(vec![a, b]); for c in 0..4 { combos.push(vec![a, b, c]); } } }
    for c in &combos {
        let d = c.len();
        let mut brs: Vec<String> = vec!["return".into(), "none".into()];
        for t in 0..=d { brs.push(format!("br {}", t)); brs.push(format!("br_if {}", t)); }
        for t in 0..=d { brs.push(format!("br_table {}", (0..=t).map(|x| x.to_string()).collect::<Vec<_>>().join(" "))); }
        brs.push(format!("br_table {} 0", d));
        for b in brs {
            let reps = if th { 16 } else { 2 };
            for rep in 0..reps {
                let uniform = b.starts_with("br_table");
                // block types: random, but all labels of a table carry the same types
                let carry: &[Ty] = *r.pick(&[&[] as &[Ty], &[I32], &[I64, F32], &[F64, I32]]);
                let mut bts: Vec<(Vec<Ty>, Vec<Ty>)> = vec![];
                for (i, k) in c.iter().enumerate() {
                    let (p, q) = *r.pick(&blocktypes);
                    let (mut p, mut q) = (p.to_vec(), q.to_vec());
                    if uniform { if kinds[*k] == "loop" { p = carry.to_vec(); if i > 0 || true { q = q.clone(); } } else { q = carry.to_vec(); } }
                    bts.push((p, q));
                }
                let results: Vec<Ty> = if uniform { carry.to_vec() } else { r.pick(&[vec![I32, I64], vec![], vec![F64], vec![I32], vec![F32, I64, F64]]).clone() };
                let params = vec![I32, I32, I32, I64, F32, F64];
                let mut n = NestGen { r, out: String::new(), c: c.clone(), bts, results: results.clone(), br: b.clone() };
                n.go();
                out.push((format!("{}/{}{}", c.iter().map(|k| kinds[*k]).collect::<Vec<_>>().join(">"), b, if rep > 0 { format!("/{}", rep) } else { String::new() }), F::new(&params, &results, &n.out).locals(&[I32, I32, I32, I64, F32, F64])));
            }
        }
    }
    out
}
struct NestGen<'a> { r: &'a mut Rng, out: String, c: Vec<usize>, bts: Vec<(Vec<Ty>, Vec<Ty>)>, results: Vec<Ty>, br: String }
impl<'a> NestGen<'a> {
    // locals: 0 x, 1 y, 2..5 values, 6 trace cursor, 7 fuel, 8.. last i32/i64/f32/f64
    fn val(&mut self, t: Ty, fresh: bool) {
        let l = match t { I32 => 2, I64 => 3, F32 => 4, _ => 5 };
        let s = match (self.r.below(if fresh { 3 } else { 4 }), t) {
            (0, I32) => "local.get 2 i32.const 3 i32.add".to_string(),
            (0, I64) => "local.get 3 i64.const 3 i64.add".into(),
            (0, _) => format!("local.get {} {}.neg", l, tn(t)),
            (1, I32) => "i32.const 41".into(), (1, I64) => "i64.const -43".into(), (1, _) => format!("{}.const 4.25", tn(t)),
            (_, I32) if self.r.chance(1, 3) => "local.get 8".into(),
            _ => format!("local.get {}", l),
        };
        self.out.push_str(&s);
        self.out.push(' ');
    }
    /// appends the values on the stack to the trace in memory
    fn fold(&mut self, tys: &[Ty]) {
        for t in tys.iter().rev() {
            let l = match t { I32 => 8, I64 => 9, F32 => 10, _ => 11 };
            self.out.push_str(&format!("local.set {} local.get 6 local.get {} {}.store local.get 6 i32.const 8 i32.add local.set 6 ", l, l, tn(*t)));
        }
    }
    fn trace(&mut self, k: usize) { self.out.push_str(&format!("local.get 6 i32.const {} i32.store local.get 6 i32.const 4 i32.add local.set 6 ", 1 + 2 * k)); }
    fn finish(&mut self) {
        for t in self.results.clone() { self.out.push_str(match t { I32 => "local.get 8 ", I64 => "local.get 9 ", F32 => "local.get 10 ", _ => "local.get 11 " }); }
    }
    fn go(&mut self) {
        self.out.push_str("i32.const 64 local.set 6 i32.const 3 local.set 7 ");
        // the outermost construct runs between two pending operands
        self.level(0);
        self.trace(60);
        self.finish();
    }
    fn level(&mut self, i: usize) {
        let (p, q) = self.bts[i].clone();
        let kind = self.c[i];
        let junk = self.r.below(3);
        // operands pending below the construct
        if junk == 1 { self.out.push_str("local.get 2 "); } else if junk == 2 { self.out.push_str("i64.const 12 local.get 2 i32.const 1 i32.shl "); }
        for t in &p { self.val(*t, false); }
        let sig = format!("{} {}", tys("param", &p), tys("result", &q));
        match kind {
            0 => { self.out.push_str(&format!("block {} ", sig)); self.body(i); self.out.push_str("end "); }
            1 => {
                self.out.push_str(&format!("loop {} ", sig));
                self.out.push_str("local.get 7 i32.const 1 i32.sub local.tee 7 i32.const 0 i32.lt_s if ");
                self.finish();
                self.out.push_str("return end ");
                self.body(i);
                self.out.push_str("end ");
            }
            2 => {
                self.out.push_str(&format!("local.get 0 i32.const 1 i32.and local.get 0 i32.const 1 i32.shr_u local.set 0 if {} ", sig));
                self.body(i);
                self.out.push_str("else ");
                self.fold(&p);
                self.trace(20 + i);
                for t in &q { self.val(*t, true); }
                self.out.push_str("end ");
            }
            _ => {
                self.out.push_str(&format!("local.get 0 i32.const 1 i32.and local.get 0 i32.const 1 i32.shr_u local.set 0 if {} ", sig));
                self.fold(&p);
                self.trace(20 + i);
                for t in &q { self.val(*t, true); }
                self.out.push_str("else ");
                self.body(i);
                self.out.push_str("end ");
            }
        }
        self.fold(&q);
        if junk == 1 { self.fold(&[I32]); } else if junk == 2 { self.fold(&[I64, I32]); }
    }
    fn body(&mut self, i: usize) {
        let (p, q) = self.bts[i].clone();
        self.trace(i);
        self.fold(&p);
        let d = self.c.len();
        if i + 1 < d { self.level(i + 1); }
        else {
            let br = self.br.clone();
            let parts: Vec<&str> = br.split(' ').collect();
            let lab = |s: &Self, t: usize| -> Vec<Ty> { if t >= d { s.results.clone() } else { let k = d - 1 - t; if s.c[k] == 1 { s.bts[k].0.clone() } else { s.bts[k].1.clone() } } };
            let junk = self.r.below(2);
            if junk == 1 { self.out.push_str("f32.const 8.5 local.get 2 i32.const 9 i32.xor "); }
            match parts[0] {
                "return" => { let l = self.results.clone(); for t in &l { self.val(*t, false); } self.out.push_str("return "); }
                "br" => { let l = lab(self, parts[1].parse().unwrap()); for t in &l { self.val(*t, false); } self.out.push_str(&format!("{} ", br)); }
                "br_if" => {
                    let l = lab(self, parts[1].parse().unwrap());
                    for t in &l { self.val(*t, false); }
                    self.out.push_str(*self.r.pick(&["local.get 0 i32.const 1 i32.and local.get 0 i32.const 1 i32.shr_u local.set 0 ", "local.get 0 i32.const 2 i32.lt_u ", "local.get 1 ", "local.get 1 i32.eqz "]));
                    self.out.push_str(&format!("{} ", br));
                    self.fold(&l);
                    if junk == 1 { self.fold(&[F32, I32]); }
                }
                "br_table" => {
                    let l = lab(self, parts[1].parse().unwrap());
                    for t in &l { self.val(*t, false); }
                    self.out.push_str("local.get 1 local.get 1 i32.const 1 i32.sub local.set 1 ");
                    self.out.push_str(&format!("{} ", br));
                }
                _ => { if junk == 1 { self.fold(&[F32, I32]); } }
            }
            if matches!(parts[0], "return" | "br" | "br_table") {
                // code after an unconditional branch (dead)
                if self.r.chance(1, 2) { for t in &q { self.val(*t, true); } return; }
                if self.r.chance(1, 2) { self.out.push_str("local.get 2 local.set 8 "); }
                else { self.out.push_str("block br 0 end "); }
                for t in &q { self.val(*t, true); }
                return;
            }
        }
        self.trace(40 + i);
        for t in &q { self.val(*t, false); }
    }
}
