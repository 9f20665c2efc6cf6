//! Guest programs of the trap, history and encoding properties.
use crate::diff::*;
use crate::gen::*;
use crate::rgen::*;
use crate::wasm::Ty::{self, *};

/// Observable effects: a digit string in a global, memory cells, and bytes written to standard output.
pub const EPRE: &str = "(import \"wasi_snapshot_preview1\" \"fd_write\" (func $fd_write (param i32 i32 i32 i32) (result i32)))
 (memory 1 2) (data (i32.const 0) \"\\10\\00\\00\\00\\01\\00\\00\\00\") (data $p \"PQRSTUVW\")
 (global $g (mut i64) (i64.const 0)) (global $h (mut i32) (i32.const 7))
 (table $t 6 funcref) (elem (table $t) (i32.const 1) func $v $w $v) (table $x 3 externref)
 (type $V (func)) (type $W (func (param i32)))
 (func $v (type $V) global.get $h i32.const 3 i32.add global.set $h) (func $w (type $W) local.get 0 global.set $h)
 (func $id (param i32) (result i32) local.get 0)
 (func $say (param i32) i32.const 16 local.get 0 i32.store8 i32.const 1 i32.const 0 i32.const 1 i32.const 8 call $fd_write drop)
 (func $m (param i32) global.get $g i64.const 10 i64.mul local.get 0 i64.extend_i32_u i64.add global.set $g i32.const 64 local.get 0 i32.add local.get 0 i32.store8)";

const P5: [Ty; 5] = [I32, I32, I64, F32, F64];

/// (name, code leaving an i32)
fn trap_ops() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut a = |n: &str, c: &str| v.push((n.into(), c.into()));
    a("unreachable", "local.get 0 i32.const 3 i32.eq if unreachable end i32.const 4");
    a("unreachable-else", "local.get 0 if (result i32) i32.const 6 else unreachable end");
    a("unreachable-table", "block block local.get 0 br_table 0 1 0 end unreachable end i32.const 4");
    a("unreachable-always", "unreachable");
    for o in ["div_s", "div_u", "rem_s", "rem_u"] {
        // dividend 0 or the smallest value, divisor 0 or -1 (the values themselves are C01's subject)
        a(&format!("i32.{}", o), &format!("local.get 0 i32.const 31 i32.shl local.get 1 i32.const 31 i32.shr_s i32.{}", o));
        a(&format!("i64.{}", o), &format!("local.get 0 i64.extend_i32_s i64.const 63 i64.shl local.get 2 i64.const 63 i64.shr_s i64.{} i32.wrap_i64", o));
        a(&format!("i32.{}-const", o), &format!("local.get 0 i32.const 0 i32.{}", o));
        a(&format!("i64.{}-const", o), &format!("local.get 2 i64.const 0 i64.{} i64.eqz", o));
        a(&format!("i32.{}-minus", o), &format!("local.get 0 i32.const -1 i32.{}", o));
        a(&format!("i64.{}-minus", o), &format!("local.get 2 i64.const 63 i64.shl i64.const -1 i64.{} i32.wrap_i64", o));
    }
    for (o, f, t) in convs() {
        if !o.contains(".trunc_f") { continue; }
        let f = tn(f);
        a(o, &format!("{f}.const -3.7 {f}.const 3.7 {f}.const 1e30 local.get 0 i32.const 1 i32.and select local.get 0 i32.const 2 i32.and select {f}.const nan local.get 0 i32.const 4 i32.and select {} {}", o, if t == I64 { "i32.wrap_i64" } else { "" }));
    }
    a("indirect-V", "local.get 0 call_indirect $t (type $V) i32.const 5");
    a("indirect-W", "local.get 1 local.get 0 call_indirect $t (type $W) i32.const 5");
    a("table.get", "local.get 0 table.get $t ref.is_null");
    a("table.get-x", "local.get 0 table.get $x ref.is_null");
    a("table.set", "local.get 0 ref.null func table.set $t i32.const 1");
    a("table.fill", "local.get 0 i32.const 5 i32.and i32.const 2 i32.add ref.null func local.get 1 i32.const 3 i32.and table.fill $t i32.const 1");
    a("memory.init", "local.get 0 i32.const 1 i32.and i32.const 65534 i32.or i32.const 6 local.get 1 i32.const 3 i32.and memory.init $p i32.const 2");
    v
}

/// (name, template with the trapping code at @, leaving an i32)
fn contexts() -> Vec<(&'static str, &'static str)> {
    vec![
        ("plain", "@"), ("drop", "@ drop i32.const 1"), ("set", "@ local.set 5 local.get 5"), ("tee", "@ local.tee 5"),
        ("block", "(block (result i32) @ br 0)"), ("loop", "(loop (result i32) @)"),
        ("then", "local.get 1 i32.const 1 i32.and if (result i32) i32.const 8 call $m @ else i32.const 9 call $m i32.const 0 end"),
        ("else", "local.get 1 i32.const 1 i32.and if (result i32) i32.const 8 call $m i32.const 0 else i32.const 9 call $m @ end"),
        ("pending", "local.get 1 i64.const 5 local.get 2 i64.xor i32.wrap_i64 i32.const 7 i32.add @ i32.sub i32.xor"),
        ("brif", "(block (result i32) i32.const 77 @ br_if 0 drop i32.const 88)"),
        ("store", "i32.const 40 @ i32.store i32.const 1"), ("addr", "@ i32.const 31 i32.and i32.load8_u"),
        ("global", "@ global.set $h global.get $h"), ("arg", "@ call $id"), ("return", "@ return"), ("select", "i32.const 5 i32.const 6 @ select"),
        ("cond", "@ if (result i32) i32.const 8 call $m i32.const 33 else i32.const 44 end"), ("eqz", "@ i32.eqz"),
        ("third", "(loop local.get 5 i32.const 1 i32.add local.tee 5 call $m local.get 5 i32.const 3 i32.lt_u br_if 0) @"),
    ]
}

/// The trapping code at call depth 0..3, effects before and after it in every frame.
pub fn traps(th: bool) -> Vec<Prog> {
    let mut out = vec![];
    let mut k = 0;
    for (tn_, code) in trap_ops() {
        for (cn, tpl) in contexts() {
            for depth in 0..4 {
                k += 1;
                if !th && depth != (k / 4 + k) % 4 && depth != (k + 2) % 4 { continue; }
                let via = k % 3;
                let sig = format!("{} (result i32)", tys("param", &P5));
                let pass = "local.get 0 local.get 1 local.get 2 local.get 3 local.get 4";
                let mut w = format!("(module {} (type $F (func {})) (table $c 5 funcref) (elem (table $c) (i32.const 0) func $d0 $d1 $d2 $d3)", EPRE, sig);
                w.push_str(&format!("(func $d0 (type $F) (local i32) i32.const 1 call $m {} {} {} i32.const 2 call $m)", if k % 2 == 0 { "i32.const 49 call $say" } else { "" }, tpl.replace('@', &code), if cn == "return" { "" } else { "i32.const 50 call $say" }));
                for d in 1..4 {
                    let call = if via == 0 || (via == 2 && d == 2) { format!("i32.const {} call_indirect $c (type $F)", d - 1) } else { format!("call $d{}", d - 1) };
                    w.push_str(&format!("(func $d{} (type $F) (local i32 f64) i32.const {} call $m local.get 1 i32.const 9 i32.xor {} {} i32.sub local.set 5 i32.const {} call $m {} local.get 5)", d, 2 * d + 1, pass, call, 2 * d + 2, if d == 1 { "i32.const 51 call $say" } else { "" }));
                }
                w.push_str(&format!("(func (export \"f\") (type $F) {} call $d{} i32.const 3 call $m))", pass, depth));
                if cn == "return" { }
                let mut p = Prog::new(&format!("trap {} {} depth {}", tn_, cn, depth), &w).call("f", &symargs("", &P5)).globals().mem(0, 96).call("f", &[(I32, Arg::K(k as u64 % 4)), (I32, Arg::K(k as u64 / 4 % 4)), (I64, Arg::K(u64::MAX)), (F32, Arg::K(0x3fc00000)), (F64, Arg::K(0x7ff8 << 48))]).globals().mem(0, 96);
                p.err_free = true;
                out.push(p);
            }
        }
    }
    out
}

/// One instance's mutable state, exercised by ten small exported functions.
const HPRE: &str = "(memory 1 4) (data (i32.const 0) \"\\01\\02\\03\\04\\05\\06\\07\\08\") (data $p \"PQRSTUVW\")
 (global $a (mut i32) (i32.const 3)) (global $b (mut i64) (i64.const -9)) (global $f (mut f64) (f64.const 0.5))
 (table $t 6 funcref) (elem (table $t) (i32.const 1) func $f1 $f2) (elem $e func $f1)
 (type $i (func (param i32) (result i32)))
 (func $f1 (type $i) local.get 0 i32.const 1 i32.add) (func $f2 (type $i) global.get $a local.get 0 i32.xor global.set $a local.get 0)
 (func $rec (param i32 i64) (result i32) (local i32 i64) local.get 2 local.get 3 i32.wrap_i64 i32.or if i32.const -1 return end local.get 1 local.set 3 local.get 0 local.set 2
   local.get 0 i32.const 2 i32.gt_u if (result i32) unreachable else local.get 0 i32.eqz if (result i32) local.get 1 i32.wrap_i64 else local.get 2 local.get 0 i32.const 1 i32.sub local.get 3 i64.const 1 i64.add call $rec i32.sub end end)";
/// (export, parameters, results, body)
fn hops() -> Vec<(&'static str, Vec<Ty>, Vec<Ty>, &'static str)> {
    vec![
        ("add", vec![I32], vec![I32], "(local i32 i64) global.get $a local.get 0 i32.add global.set $a local.get 1 local.get 2 i32.wrap_i64 i32.or local.get 0 local.set 1 local.get 1 i64.extend_i32_u local.set 2"),
        ("put", vec![I32, I32], vec![], "local.get 0 i32.const 3 i32.and local.get 1 i32.store8"),
        ("get", vec![I32], vec![I32, I64], "local.get 0 i32.const 3 i32.and i32.load8_u global.get $b"),
        ("half", vec![I32, I64], vec![I64], "(local i64) i32.const 9 global.get $a global.set $a local.get 1 global.set $b i32.const 4 local.get 0 i32.store local.get 0 i32.const 1 i32.and if unreachable end drop i32.const 5 i32.const 77 i32.store8 local.get 2 global.get $b i64.sub"),
        ("rec", vec![I32, I64], vec![I32], "local.get 0 i32.const 3 i32.and local.get 1 call $rec"),
        ("grow", vec![I32], vec![I32, I32], "local.get 0 i32.const 1 i32.and memory.grow memory.size"),
        ("tset", vec![I32, I32], vec![], "local.get 0 i32.const 3 i32.and local.get 1 i32.const 1 i32.and i32.const 5 i32.mul table.get $t table.set $t"),
        ("tcall", vec![I32, I32], vec![I32], "local.get 1 local.get 0 i32.const 3 i32.and call_indirect $t (type $i)"),
        ("init", vec![I32], vec![], "i32.const 2 local.get 0 i32.const 3 i32.and i32.const 2 memory.init $p data.drop $p"),
        ("flt", vec![F64], vec![F64, I32], "(local f64) global.get $f local.get 1 f64.copysign local.get 0 global.set $f f64.const 1e30 f64.const -7.5 local.get 0 i64.reinterpret_f64 i64.const 0 i64.lt_s select i32.trunc_f64_s"),
    ]
}
pub fn histories(th: bool) -> Vec<Prog> {
    let mut out = vec![];
    let ops = hops();
    let mut w = format!("(module {}", HPRE);
    for (n, p, q, b) in &ops { w.push_str(&format!("(func (export \"{}\") {} {} {})", n, tys("param", p), tys("result", q), b)); }
    w.push(')');
    let args = |o: &(&str, Vec<Ty>, Vec<Ty>, &str), k: usize| -> Vec<(Ty, Arg)> { symargs(&format!("c{}", k), &o.1) };
    let look = |p: Prog| p.globals().mem(0, 12).table(0);
    let n = ops.len();
    let mut cnt = 0;
    for len in 1..=4usize {
        let total = n.pow(len as u32);
        let step = match (len, th) { (4, false) => 97, (4, true) => 7, (3, false) => 3, _ => 1 };
        for c in (0..total).step_by(step) {
            cnt += 1;
            let mut c2 = c;
            let seq: Vec<usize> = (0..len).map(|_| { let x = c2 % n; c2 /= n; x }).collect();
            let nm: Vec<&str> = seq.iter().map(|i| ops[*i].0).collect();
            let mut p = Prog::new(&format!("history {}", nm.join(" ")), &w);
            for (k, i) in seq.iter().enumerate() { p = p.call(ops[*i].0, &args(&ops[*i], k)); if cnt % 2 == 0 { p = p.globals(); } }
            p = look(p);
            out.push(p);
        }
    }
    // several instances of the module, interleaved
    let mut r = Rng::new(191);
    for i in 0..if th { 4000 } else { 300 } {
        let mut p = Prog::new(&format!("instances {}", i), &w);
        let mut insts = 1;
        let mut calls = 0;
        while calls < 4 {
            if insts < 3 && r.chance(1, 3) { p = p.inst(); insts += 1; continue; }
            if insts > 1 && r.chance(1, 2) { p = p.select(r.below(insts) as u8); }
            let o = &ops[r.below(n)];
            p = p.call(o.0, &args(o, calls));
            calls += 1;
        }
        for k in 0..insts { p = look(p.select(k as u8)); }
        out.push(p);
    }
    // random functions, called in random order
    for i in 0..if th { 4000 } else { 400 } {
        let mut r = Rng::new(192_000_017 + i as u64);
        let sigs: Vec<(Vec<Ty>, Vec<Ty>)> = (0..3).map(|_| (P5[..1 + r.below(4)].to_vec(), (0..r.below(3)).map(|_| *r.pick(&NUM)).collect())).collect();
        let fs: Vec<F> = sigs.iter().map(|(a, b)| Gen::func(&mut r, a, b, 12, true, true)).collect();
        let mut p = batch(&format!("random history {}", i), RPRE, &fs);
        p.steps.clear();
        let mut insts = 1;
        for k in 0..3 + r.below(2) {
            if insts < 2 && r.chance(1, 4) { p = p.inst(); insts += 1; }
            if insts > 1 && r.chance(1, 3) { p = p.select(r.below(2) as u8); }
            let j = r.below(3);
            p = p.call(&format!("f{}", j), &symargs(if k % 2 == 0 { "" } else { "o" }, &sigs[j].0)).globals();
        }
        for k in 0..insts { p = p.select(k as u8).globals().mem(0, 64); }
        out.push(p);
    }
    out
}
