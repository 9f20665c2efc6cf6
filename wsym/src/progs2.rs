//! Guest programs of the call, table, global, instantiation, trap and history properties.
use crate::diff::*;
use crate::gen::*;
use crate::progs::*;
use crate::rgen::*;
use crate::wasm::Ty::{self, *};

fn lsrc(t: Ty, l: usize) -> String { let _ = t; format!("local.get {}", l) }

/// Memory growth at the bottom of call chains: every frame keeps using memory afterwards.
pub fn grow_chains(th: bool) -> Vec<Prog> {
    let kinds: [&[Ty]; 4] = [&[], &[I32], &[F64], &[I64, I32]];
    let mut out = vec![];
    let mut n = 0;
    for depth in 1..=3usize {
        let total = 4usize.pow(depth as u32);
        for code in 0..total {
            for ind in [false, true] {
                n += 1;
                if !th && depth == 3 && n % 3 != 0 { continue; }
                let ks: Vec<&[Ty]> = (0..depth).map(|i| kinds[(code / 4usize.pow(i as u32)) % 4]).collect();
                let mut w = format!("(module (memory 1 6) (table 8 funcref) (elem (i32.const 0) $g0 {})", (1..=depth).map(|i| format!("$g{}", i)).collect::<Vec<_>>().join(" "));
                for (i, k) in ks.iter().enumerate() { w.push_str(&format!("(type $t{} (func (param i32 i32) {}))", i, tys("result", k))); }
                // innermost grows by the second parameter
                let vals = |k: &[Ty]| k.iter().map(|t| match t { I32 => "local.get 0 ".to_string(), t => format!("{}.const {} ", tn(*t), 5) }).collect::<String>();
                w.push_str(&format!("(func $g0 (type $t0) i32.const 8 local.get 0 i32.store local.get 1 memory.grow drop i32.const 12 local.get 0 i32.store {})", vals(ks[0])));
                for i in 1..=depth {
                    let res: &[Ty] = if i < depth { ks[i] } else { &[I32] };
                    let hdr = if i < depth { format!("(func $g{} (type $t{}) (local i32 i64 f64)", i, i) } else { format!("(func $g{} (export \"f\") (param i32 i32) (result i32) (local i32 i64 f64)", i) };
                    let a = 16 * i;
                    let call = if ind { format!("local.get 0 i32.const 1 i32.add local.get 1 i32.const {} call_indirect (type $t{})", i - 1, i - 1) } else { format!("local.get 0 i32.const 1 i32.add local.get 1 call $g{}", i - 1) };
                    // a pending address below the call, used for a store after it
                    let sink: String = ks[i - 1].iter().rev().map(|t| match t { I32 => "local.set 2 ".to_string(), I64 => "local.set 3 ".into(), _ => "local.set 4 ".into() }).collect();
                    w.push_str(&format!("{} i32.const {} local.get 0 i32.store i32.const {} {} {} local.get 0 i32.store i32.const {} local.get 0 i32.store8 i32.const {} i32.load drop {})",
                        hdr, a, a + 4, call, sink, a + 8, a, if i < depth { vals(res) } else { format!("i32.const {} i32.load memory.size i32.add", a) }));
                }
                w.push(')');
                for d in if th { 0..=3u64 } else { 3..=3 } {
                    out.push(Prog::new(&format!("chain {} {}{} +{}", depth, code, if ind { " ind" } else { "" }, d), &w).call("f", &[(I32, s("x")), (I32, Arg::K(d))]).mem(0, 80).call("f", &[(I32, s("y")), (I32, Arg::K(1))]).mem(0, 80));
                }
            }
        }
    }
    out
}

/// Random modules of functions with random signatures calling each other.
pub fn callgraph(name: &str, seed: u64, n: usize, budget: i32, traps: bool, indirect: bool) -> Vec<Prog> {
    (0..n).map(|i| {
        let mut r = Rng::new(seed * 7_000_003 + i as u64);
        let nf = 3 + r.below(4);
        let maxp = *r.pick(&[2usize, 4, 8, 12]);
        let maxr = *r.pick(&[1usize, 2, 4, 8]);
        let mut sigs: Vec<(Vec<Ty>, Vec<Ty>)> = vec![];
        for _ in 0..nf {
            let p = (0..r.below(maxp + 1)).map(|_| *r.pick(&NUM)).collect();
            let q = (0..r.below(maxr + 1)).map(|_| *r.pick(&NUM)).collect();
            sigs.push((p, q));
        }
        sigs[0].0 = (0..2 + r.below(4)).map(|k| [I32, I64, I32, F32, F64][k]).collect();
        let mut w = format!("(module {} (global $fuel (mut i32) (i32.const 8))\n", RPRE);
        for (k, (p, q)) in sigs.iter().enumerate() { w.push_str(&format!("(type $s{} (func {} {}))\n", k, tys("param", p), tys("result", q))); }
        w.push_str("(table $ft 8 funcref) (elem (table $ft) (i32.const 0) func ");
        for k in 0..nf { w.push_str(&format!("$c{} ", k)); }
        w.push_str(")\n");
        for k in 0..nf {
            let (p, q) = sigs[k].clone();
            let cs: Vec<(String, Vec<Ty>, Vec<Ty>)> = (0..nf).flat_map(|j| {
                let mut v = vec![(format!("call $c{}", j), sigs[j].0.clone(), sigs[j].1.clone())];
                if indirect { v.push((format!("i32.const {} call_indirect $ft (type $s{})", j, j), sigs[j].0.clone(), sigs[j].1.clone())); }
                v
            }).collect();
            // out of fuel: return at once
            let pre: String = format!("global.get $fuel i32.const 1 i32.sub global.set $fuel global.get $fuel i32.const 0 i32.lt_s (if (then {} return))\n",
                q.iter().map(|t| { let l = p.iter().position(|x| x == t); match l { Some(l) => format!("local.get {} ", l), None => format!("{}.const {} ", tn(*t), k + 1) } }).collect::<String>());
            let f = Gen::func_with(&mut r, &p, &q, budget, true, traps, cs, &pre);
            w.push_str(&format!("(func $c{}{} {}\n", k, if k == 0 { " (export \"f0\")" } else { "" }, f.wat("x").trim_start_matches("(func (export \"x\")")));
        }
        w.push_str("(func (export \"refuel\") i32.const 6 global.set $fuel))");
        let p0 = sigs[0].0.clone();
        Prog::new(&format!("{} {}.{}", name, seed, i), &w).call("f0", &symargs("", &p0)).call("refuel", &[]).call("f0", &symargs("again", &p0)).globals().mem(0, 64)
    }).collect()
}

/// Systematic signatures: rotation of parameters to results, through a chain of callers with pending operands.
pub fn signatures(th: bool) -> Vec<Prog> {
    let mut out = vec![];
    let mut r = Rng::new(8);
    let reps = if th { 40 } else { 8 };
    for np in 0..=8usize {
        for nr in 0..=8usize {
            for rep in 0..reps {
                if !th && rep >= 3 && np > 3 && nr > 3 { continue; }
                let p: Vec<Ty> = (0..np).map(|_| *r.pick(&NUM)).collect();
                let q: Vec<Ty> = (0..nr).map(|_| *r.pick(&NUM)).collect();
                let nl = r.below(5);
                let locals: Vec<Ty> = (0..nl).map(|_| *r.pick(&NUM)).collect();
                let all: Vec<Ty> = p.iter().chain(&locals).cloned().collect();
                let rot = r.below(4);
                let pickv = |t: Ty, from: &[Ty], off: usize, r: &mut Rng| -> String {
                    let c: Vec<usize> = (0..from.len()).filter(|i| from[*i] == t).collect();
                    if c.is_empty() { format!("{}.const {}", tn(t), 3 + off) } else {
                        let l = lsrc(t, c[(off + r.below(2)) % c.len()]);
                        match (r.below(4), t) { (0, I32) | (0, I64) => format!("{} {}.const 1 {}.add", l, tn(t), tn(t)), (0, _) => format!("{} {}.neg", l, tn(t)), _ => l }
                    }
                };
                // the callee also clobbers all of its parameters and locals before a nested call
                let mut callee = String::new();
                for (i, t) in q.iter().enumerate() { callee.push_str(&pickv(*t, &all, i + rot, &mut r)); callee.push(' '); }
                if r.chance(1, 3) { callee.push_str("return "); }
                // caller: parameters are one symbolic value of each type, twice
                let cp = [I32, I64, F32, F64, I32, I64, F32, F64];
                let mut body = String::new();
                let pend = r.below(3);
                if pend > 0 { body.push_str("local.get 4 i32.const 3 i32.xor "); }
                if pend > 1 { body.push_str("local.get 5 f64.const 2.5 local.get 3 f64.copysign "); }
                for (i, t) in p.iter().enumerate() { body.push_str(&pickv(*t, &cp, i, &mut r)); body.push(' '); }
                let call = match r.below(3) { 0 => "call $callee".to_string(), 1 => "call $mid".into(), _ => "i32.const 1 call_indirect (type $t)".into() };
                body.push_str(&call);
                body.push(' ');
                // results: stored to memory from the top, or left where they are
                let keep = r.chance(1, 2);
                let mut res: Vec<Ty> = vec![];
                let mut extra: Vec<Ty> = vec![];
                if keep && q.len() + 2 <= 8 {
                    if pend > 0 { res.push(I32); }
                    if pend > 1 { res.extend([I64, F64]); }
                    if res.len() + q.len() > 8 { body.push_str("(; too many ;)"); }
                    res.extend(&q);
                }
                if res.len() > 8 || !(keep && q.len() + 2 <= 8) {
                    res.clear();
                    let mut l = cp.len();
                    for (i, t) in q.iter().enumerate().rev() { extra.push(*t); body.push_str(&format!("local.set {} i32.const {} local.get {} {}.store ", l, 64 + 8 * i, l, tn(*t))); l += 1; }
                    if pend > 1 { body.push_str("i64.reinterpret_f64 i64.xor "); res.push(I64); if pend > 0 { body.push_str(&format!("local.set {} ", l)); extra.push(I64); res.clear(); body.push_str(&format!("drop i32.const 40 local.get {} i64.store ", l)); } }
                    else if pend > 0 { res.push(I32); }
                }
                let w = format!("(module (memory 1) (table 4 funcref) (elem (i32.const 0) $mid $callee) (type $t (func {} {}))
                    (func $callee (type $t) {} {})
                    (func $mid (type $t) (local i32 f64) i32.const 9 local.set {} {} call $callee)
                    (func (export \"f\") {} {} {} {}))",
                    tys("param", &p), tys("result", &q), tys("local", &locals), callee, p.len(), (0..p.len()).map(|i| format!("local.get {} ", i)).collect::<String>(),
                    tys("param", &cp), tys("result", &res), tys("local", &extra), body);
                out.push(Prog::new(&format!("sig {}>{} #{}", np, nr, rep), &w).call("f", &symargs("", &cp)).mem(32, 112));
            }
        }
    }
    out
}

/// Recursion and locals.
pub fn recursion(_th: bool) -> Vec<Prog> {
    let mut out = vec![];
    let pre = "(memory 1) (global $g (mut i32) (i32.const 0)) (table 4 funcref) (elem (i32.const 0) $ev $od $fac) (type $t1 (func (param i32) (result i32)))
      (func $fac (param i32) (result i32) local.get 0 i32.eqz (if (result i32) (then i32.const 1) (else local.get 0 local.get 0 i32.const 1 i32.sub call $fac i32.mul)))
      (func $sum (param i32 i64) (result i64) (local i64) local.get 1 i64.const 3 i64.add local.set 2 local.get 0 (if (then local.get 0 i32.const 1 i32.sub local.get 2 call $sum local.get 2 i64.xor local.set 2)) local.get 2)
      (func $ev (param i32) (result i32) local.get 0 i32.eqz (if (then i32.const 1 return)) local.get 0 i32.const 1 i32.sub call $od)
      (func $od (param i32) (result i32) local.get 0 i32.eqz (if (then i32.const 0 return)) local.get 0 i32.const 1 i32.sub i32.const 0 call_indirect (type $t1))
      (func $deep (param i32 i32 f64) (result i32 f64) (local i32 f64 i64) (local i32)
         local.get 3 local.get 6 i32.or if unreachable end local.get 5 i64.eqz i32.eqz if unreachable end local.get 4 i64.reinterpret_f64 i64.eqz i32.eqz if unreachable end
         local.get 1 local.set 3 local.get 2 local.set 4 i64.const 77 local.set 5 i32.const 5 local.set 6
         local.get 0 i32.eqz if (result i32 f64) local.get 1 local.get 2 else
           local.get 0 i32.const 1 i32.sub local.get 1 i32.const 7 i32.add local.get 2 f64.neg call $deep local.set 4 local.get 3 i32.sub local.get 4 end)
      (func $fib (param i32) (result i32) local.get 0 i32.const 2 i32.lt_u if (result i32) local.get 0 else local.get 0 i32.const 1 i32.sub call $fib local.get 0 i32.const 2 i32.sub call $fib i32.add end)
      (func $eff (param i32) local.get 0 if local.get 0 i32.const 1 i32.sub call $eff global.get $g i32.const 10 i32.mul local.get 0 i32.add global.set $g end)
      (func $loopcall (param i32 i32) (result i32) (local i32) (loop $l local.get 2 local.get 1 call $id2 i32.add local.set 2 local.get 0 i32.const 1 i32.sub local.tee 0 i32.const 0 i32.gt_s br_if $l) local.get 2)
      (func $id2 (param i32) (result i32) (local i32) local.get 1 i32.const 1 i32.add local.set 1 local.get 0 local.get 1 i32.xor)";
    let mut add = |n: &str, f: F, lim: u64| {
        out.push(batch(n, pre, std::slice::from_ref(&f)).globals().assume(move |cx| { let mut v = win(cx, "i320", 0, lim); v.truncate(2); v }));
    };
    add("fac", F::new(&[I32], &[I32], "local.get 0 call $fac"), 6);
    add("sum", F::new(&[I32, I64], &[I64], "local.get 0 local.get 1 call $sum"), 6);
    add("evenodd", F::new(&[I32], &[I32], "local.get 0 call $ev"), 8);
    add("deep", F::new(&[I32, I32, F64], &[I32, F64, I32], "local.get 0 local.get 1 local.get 2 call $deep local.get 1"), 6);
    add("fib", F::new(&[I32], &[I32], "local.get 0 call $fib"), 6);
    add("eff", F::new(&[I32], &[], "local.get 0 call $eff"), 6);
    add("loopcall", F::new(&[I32, I32], &[I32, I32], "local.get 0 local.get 1 call $loopcall local.get 1"), 6);
    // zeroed locals of every type, many groups, after the same registers and locals were used by a sibling call
    for k in 0..6 {
        let mut r = Rng::new(80 + k);
        let l: Vec<Ty> = (0..5 + r.below(12)).map(|_| *r.pick(&NUM)).collect();
        let zero: String = l.iter().enumerate().map(|(i, t)| match t { I32 => format!("local.get {} i32.or ", i + 1), I64 => format!("local.get {} i64.eqz i32.eqz i32.or ", i + 1), F32 => format!("local.get {} i32.reinterpret_f32 i32.or ", i + 1), _ => format!("local.get {} i64.reinterpret_f64 i64.eqz i32.eqz i32.or ", i + 1) }).collect();
        let set: String = l.iter().enumerate().map(|(i, t)| match t { I32 => format!("local.get 0 local.set {} ", i + 1), I64 => format!("local.get 0 i64.extend_i32_u local.set {} ", i + 1), F32 => format!("f32.const 1.5 local.set {} ", i + 1), _ => format!("f64.const 2.5 local.set {} ", i + 1) }).collect();
        let w = format!("(module (func $c (param i32) (result i32) {} i32.const 0 {} {} ) (func (export \"f\") (param i32) (result i32 i32 i32) local.get 0 call $c local.get 0 call $c local.get 0 i32.const 1 i32.and if (result i32) local.get 0 call $c else i32.const 0 end))", tys("local", &l), zero, set);
        out.push(Prog::new(&format!("zero locals {}", k), &w).call("f", &symargs("", &[I32])));
    }
    // more results than any other program here has
    let w = "(module (func $c (param i32) (result i32 i32 i32 i32 i32 i32 i32 i32 i32) local.get 0 local.get 0 local.get 0 local.get 0 i32.const 1 local.get 0 local.get 0 local.get 0 local.get 0) (func (export \"f\") (param i32) (result i32) local.get 0 call $c drop drop drop drop drop drop drop i32.sub))";
    out.push(Prog::new("nine_results", w).call("f", &symargs("", &[I32])));
    // reference-typed locals start null
    for t in ["funcref", "externref"] {
        let w = format!("(module (table 2 {t}) (func $c (param i32) (result i32) (local {t} i32) local.get 1 ref.is_null local.get 0 i32.add local.set 2 local.get 2) (func (export \"f\") (param i32) (result i32 i32) local.get 0 call $c local.get 0) (func (export \"g\") (param i32) (result i32) (local {t}) local.get 1 ref.is_null local.get 0 i32.add))");
        out.push(Prog::new(&format!("{} locals", t), &w).call("g", &symargs("", &[I32])).call("f", &symargs("", &[I32])));
    }
    out
}
