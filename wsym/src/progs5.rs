//! Guest programs of the checkpoint properties.
use crate::ckpt::Ck;
use crate::diff::*;
use crate::gen::*;
use crate::rgen::*;
use crate::wasm::Ty::{self, *};

/// Everything an instance can hold, small: memory, globals, tables, segments, host calls.
const KPRE: &str = "(import \"wasi_snapshot_preview1\" \"fd_write\" (func $fd_write (param i32 i32 i32 i32) (result i32)))
 (import \"wasi_snapshot_preview1\" \"random_get\" (func $random_get (param i32 i32) (result i32)))
 (memory 1 3) (data (i32.const 0) \"\\40\\00\\00\\00\\03\\00\\00\\00abcdefgh\") (data $p \"PQRSTUVW\")
 (global $a (mut i32) (i32.const 3)) (global $b (mut i64) (i64.const -9)) (global $f (mut f64) (f64.const 0.5)) (global $g (mut f32) (f32.const -1)) (global $k i32 (i32.const 17))
 (type $i (func (param i32) (result i32)))
 (table $t 5 funcref) (table $u 3 8 funcref) (elem (table $t) (i32.const 1) func $f1 $f2 $f3) (elem (table $u) (i32.const 0) func $f2)
 (func $f1 (type $i) local.get 0 i32.const 1 i32.add) (func $f2 (type $i) global.get $a local.get 0 i32.xor global.set $a local.get 0) (func $f3 (type $i) (local i32) local.get 0 i32.const 3 i32.rotl local.set 1 local.get 1 call $f1)
 (func $out (param i32) (result i32) i32.const 64 local.get 0 i32.store i32.const 1 i32.const 0 i32.const 1 i32.const 80 call $fd_write)
 (func $two (param i64 f32) (result f32 i64) local.get 1 f32.neg local.get 0 i64.const 1 i64.add)";

pub fn state_progs() -> Vec<Prog> {
    let p4 = [I32, I64, F32, F64];
    let bodies: Vec<(&str, Vec<Ty>, &str)> = vec![
        ("locals", vec![I32, I64, F32, F64], "(local i32 i64 f32 f64) local.get 3 local.set 7 local.get 2 f32.neg local.set 6 local.get 1 i64.const 5 i64.xor local.set 5 local.get 0 i32.const 3 i32.add local.set 4 local.get 4 local.get 5 local.get 6 local.get 7"),
        ("globals", vec![I32, I64, F32, F64], "local.get 0 global.set $a local.get 1 global.set $b local.get 2 global.set $g local.get 3 global.set $f i32.const 1 global.get $a i32.add global.get $b i64.const 1 i64.shl global.get $g f32.abs global.get $f"),
        ("operands", vec![I32, I64, F32, F64], "local.get 0 i32.const 1 i32.shl local.get 1 i64.const 1 i64.rotl local.get 2 f32.neg local.get 3 f64.neg local.get 0 call $f3 drop"),
        ("memory", vec![I32], "i32.const 100 local.get 0 i32.store8 i32.const 101 i32.const 100 i32.load8_u i32.const 7 i32.xor i32.store8 i32.const 100 i32.load16_u i32.const 65532 local.get 0 i32.store i32.const 65532 i32.load i32.add"),
        ("grow", vec![I32], "local.get 0 i32.const 1 i32.and if (result i32) i32.const 1 memory.grow else i32.const 7 memory.grow end memory.size i32.const 1 i32.gt_u if i32.const 66000 i32.const 7 i32.store8 i32.const 65996 local.get 0 i32.store i32.const 65996 i32.load global.set $a end i32.const 1 memory.grow memory.size i32.sub i32.add"),
        ("copy", vec![I32], "i32.const 120 local.get 0 i32.store8 i32.const 96 i32.const 8 i32.const 8 memory.copy i32.const 98 local.get 0 i32.const 3 memory.fill i32.const 97 i32.load"),
        ("init", vec![I32], "i32.const 120 local.get 0 i32.const 7 i32.and i32.const 1 memory.init $p data.drop $p i32.const 121 i32.const 0 local.get 0 i32.const 7 i32.and i32.const 5 i32.gt_u memory.init $p i32.const 120 i32.load8_u"),
        ("table", vec![I32], "i32.const 0 i32.const 3 table.get $t table.set $t local.get 0 i32.const 1 i32.and i32.const 1 i32.add i32.const 0 table.get $u i32.const 2 table.fill $t local.get 0 i32.const 0 call_indirect $t (type $i) local.get 0 i32.const 1 call_indirect $t (type $i) i32.add i32.const 4 ref.null func table.set $t i32.const 2 table.get $t ref.is_null i32.add"),
        ("table2", vec![I32], "i32.const 2 i32.const 1 table.get $t table.set $u i32.const 0 ref.null func table.set $u local.get 0 local.get 0 i32.const 3 i32.and call_indirect $u (type $i)"),
        ("refs", vec![I32], "(local funcref funcref) i32.const 1 table.get $t local.set 1 local.get 1 ref.is_null i32.const 0 local.get 1 local.get 2 local.get 0 select (result funcref) table.set $t i32.const 3 table.get $t local.set 2 i32.const 4 local.get 2 table.set $t local.get 0 i32.const 4 call_indirect $t (type $i) i32.add"),
        ("refcall", vec![I32], "i32.const 3 table.get $t call $keep i32.const 0 i32.const 2 table.get $t local.get 0 call $f1 drop table.set $t local.get 0 i32.const 0 call_indirect $t (type $i)"),
        ("calls", vec![I32, I64, F32], "local.get 0 call $f3 local.get 1 local.get 2 call $two i64.const 3 i64.xor global.set $b global.set $g local.get 0 i32.const 3 i32.and i32.const 1 i32.add call_indirect $t (type $i)"),
        ("host", vec![I32], "local.get 0 call $out local.get 0 i32.const 1 i32.add call $out i32.add i32.const 80 i32.load i32.xor"),
        ("hostloop", vec![I32], "(local i32) (loop $l local.get 1 i32.const 65 i32.add call $out drop i32.const 84 i32.const 2 call $random_get global.set $a local.get 1 i32.const 1 i32.add local.tee 1 local.get 0 i32.const 1 i32.and i32.le_u br_if $l) i32.const 84 i32.load16_u"),
        ("trap", vec![I32], "local.get 0 global.set $a i32.const 100 local.get 0 i32.store local.get 0 i32.const 3 i32.and i32.const 7 i32.const 2 i32.sub local.get 0 i32.const 1 i32.and i32.div_u i32.add"),
        ("loops", vec![I32, I32], "(local i32 i32) local.get 0 i32.const 3 i32.and local.set 2 (block $x (result i32) (loop $l (result i32) local.get 3 local.get 2 i32.eqz br_if $x drop local.get 1 local.get 3 i32.add local.set 3 local.get 2 i32.const 1 i32.sub local.set 2 local.get 1 i32.const 9 i32.eq if local.get 3 br $x end br $l)) local.get 2 i32.sub"),
        ("blocks", vec![I32, I64], "local.get 0 i32.const 1 i32.and local.get 0 i32.const 2 i32.add local.get 1 i64.eqz if (param i32) (result i32) i32.const 5 i32.xor else local.get 0 br_if 0 i32.const 1 i32.sub end block (param i32) (result i32) local.get 0 br_if 0 i32.const 3 i32.shl end i32.sub"),
        ("switch", vec![I32], "block $c block $b block $a local.get 0 br_table $a $b $c end i32.const 11 global.set $a br 1 end i32.const 22 global.set $a local.get 0 return end local.get 0 global.get $a i32.add"),
        ("mixed", vec![I32, I64], "(local f64) local.get 0 i32.const 1 i32.add i32.const 2 call $rec local.get 1 i64.const 7 i64.add local.set 1 global.get $f local.set 2 local.get 1 i32.wrap_i64 i32.sub i32.sub local.get 2 local.set 2 i32.const 1 i32.add"),
    ];
    let keep = "(func $keep (param funcref) (local funcref i32) local.get 0 local.set 1 i32.const 5 local.set 2 local.get 2 call $f1 drop i32.const 0 local.get 1 table.set $t)
      (func $rec (param i32) (result i32) (local i64) local.get 0 i32.const 3 i32.and i32.eqz if (result i32) i32.const 40 else i64.const 3 local.set 1 local.get 0 i32.const 3 i32.and i32.const 1 i32.sub call $rec local.get 1 i32.wrap_i64 i32.xor end)";
    bodies.into_iter().map(|(n, ps, b)| {
        let rs: Vec<Ty> = match n { "locals" | "globals" | "operands" => p4.to_vec(), "memory" | "grow" | "copy" | "init" | "table" | "table2" | "refs" | "refcall" | "calls" | "host" | "hostloop" | "trap" | "loops" | "blocks" | "switch" | "mixed" => vec![I32], _ => vec![] };
        let w = format!("(module {} {} (func (export \"f\") {} {} {}))", KPRE, keep, tys("param", &ps), tys("result", &rs), b);
        let mut p = Prog::new(&format!("state {}", n), &w).call("f", &symargs("", &ps)).globals().table(0).table(1).mem(60, 80);
        if n.starts_with("host") { p.err_free = true; }
        p
    }).collect()
}

/// `n` programs of `v`, evenly spread, of a single instance.
pub fn some(v: Vec<Prog>, n: usize, keep: fn(&str) -> bool) -> Vec<Prog> {
    let v: Vec<Prog> = v.into_iter().filter(|p| keep(&p.name) && !p.steps.iter().any(|s| matches!(s, Step::Inst | Step::Select(_)))).collect();
    let k = v.len();
    if k <= n { return v; }
    (0..n).map(|i| v[(2 * i + 1) * k / (2 * n)].clone()).collect()
}

/// Samples of the other properties' programs, `n` times the base amount.
pub fn samples(seed: u64, n: usize) -> Vec<Prog> {
    let all = |_: &str| true;
    let mut v = vec![];
    v.extend(some(crate::progs2::signatures(false), 4 * n, all));
    v.extend(some(crate::progs2::recursion(false), 4 * n, |n| n != "loopcall" && n != "sum"));
    v.extend(some(crate::progs2::callgraph("ckcalls", seed, 8 * n, 14, false, false), 8 * n, all));
    v.extend(some(crate::progs2::callgraph("ckindirect", seed + 1, 8 * n, 14, true, true), 8 * n, all));
    v.extend(some(crate::progs2::grow_chains(false), 3 * n, |n| !n.contains("44") || n.contains("chain 1")));
    let mut t = crate::progs3::tables("cktab", seed + 2, 6 * n);
    // host references cannot be checkpointed
    for p in t.iter_mut() { for s in p.steps.iter_mut() { if let Step::Call { args, .. } = s { for a in args.iter_mut() { if a.0 == ExternRef { a.1 = Arg::K(0); } } } } }
    v.extend(t);
    v.extend(some(crate::progs3::global_rand("ckglob", seed + 3, 6 * n), 6 * n, all));
    v.extend(some(crate::progs3::global_seqs(false), 2 * n, all));
    v.extend(some(crate::progs4::traps(false), 6 * n, |n| !n.contains("trunc_f") && !n.contains("table.") && !n.contains("indirect") && (n.ends_with("0") || n.ends_with("1"))));
    v.extend(some(crate::progs4::histories(false), 12 * n, |n| n.split(' ').count() <= 3 && !n.contains("grow")));
    v.extend(crate::props::random("ckctl", seed + 4, 12 * n, 16, true, false));
    let mut r = Rng::new(seed);
    let fs = nests(false, &mut r);
    let k = fs.len();
    for i in 0..12 * n { let (nm, f) = &fs[(i * k / (12 * n) + seed as usize) % k]; v.push(batch(&format!("nest {}", nm), RPRE, std::slice::from_ref(f))); }
    v
}

pub fn transparent(th: bool) -> Vec<Ck> {
    let mut out = vec![];
    for p in state_progs() { for m in ["tcod", "legacyd"] { out.push(Ck { prog: p.clone(), chain: vec![m, m], max_polls: 0 }); } }
    for (i, p) in samples(131, if th { 12 } else { 1 }).into_iter().enumerate() {
        for (k, m) in ["tcod", "legacyd"].iter().enumerate() { if th || i % 2 == k { out.push(Ck { prog: p.clone(), chain: vec![m, m], max_polls: 0 }); } }
    }
    out
}

pub fn chains(th: bool) -> Vec<Ck> {
    let mut out = vec![];
    let ch: Vec<Vec<&'static str>> = vec![vec!["tcod", "legacyd"], vec!["legacyd", "tcod"], vec!["tcod", "legacyd", "tcod"], vec!["legacyd", "legacyd", "tcod"], vec!["tcod", "tcod", "tcod"], vec!["legacyd", "tcod", "legacyd"], vec!["tcod", "tcod", "legacyd", "legacyd"]];
    for p in state_progs() {
        let heavy = ["state table", "state mixed", "state grow", "state calls", "state loops", "state hostloop"].contains(&p.name.as_str());
        for (k, c) in ch.iter().enumerate() { if k < 2 || th || (k < 6 && !heavy) { out.push(Ck { prog: p.clone(), chain: c.clone(), max_polls: 0 }); } }
    }
    for (i, p) in samples(141, if th { 6 } else { 1 }).into_iter().enumerate() {
        for (k, c) in ch.iter().enumerate() { if k < 6 && (th || i % 6 == k) { out.push(Ck { prog: p.clone(), chain: c.clone(), max_polls: 2 }); } }
    }
    out
}

/// Guests with far more than 6 x 8192 instructions of work and every kind of call structure.
pub fn long_progs() -> Vec<(String, String)> {
    let tick = "global.get $n i32.const 1 i32.add global.set $n";
    let more = "global.get $n i32.const 20000 i32.lt_u";
    let body = |s: &str| s.replace("TICK", tick).replace("MORE", more);
    let v: Vec<(&str, &str, &str)> = vec![
        ("flat loop", "", "(loop $l TICK MORE br_if $l)"),
        ("flat loop local", "", "(local i32) (loop $l local.get 1 i32.const 1 i32.add local.tee 1 i32.const 40000 i32.lt_u br_if $l)"),
        ("inner loop", "", "(local i32) (loop $l local.get 0 i32.const 3 i32.and local.set 1 (loop $m local.get 1 if local.get 1 i32.const 1 i32.sub local.set 1 br $m end) TICK MORE br_if $l)"),
        ("loop in block", "", "(block $x (loop $l TICK MORE i32.eqz br_if $x br $l))"),
        ("br_table loop", "", "(loop $l (block $b (block $a local.get 0 if i32.const 1 local.set 0 end local.get 0 br_table $a $b $b) TICK MORE br_if $l return) TICK TICK MORE br_if $l)"),
        ("loop parameter", "", "i32.const 0 (loop $l (param i32) (result i32) i32.const 1 i32.add TICK MORE br_if $l) drop"),
        ("short callee", "(func $e TICK)", "(loop $l call $e MORE br_if $l)"),
        ("empty callee", "(func $e)", "(loop $l TICK call $e call $e MORE br_if $l)"),
        ("looping callee", "(func $e (param i32) (local i32) local.get 0 i32.const 3 i32.and local.set 1 (loop $m TICK local.get 1 if local.get 1 i32.const 1 i32.sub local.set 1 br $m end))", "(loop $l local.get 0 call $e MORE br_if $l)"),
        ("call in callee", "(func $d TICK) (func $e call $d call $d)", "(loop $l call $e MORE br_if $l)"),
        ("indirect callee", "(table $t 2 funcref) (elem (table $t) (i32.const 0) func $e $d) (type $v (func)) (func $e (type $v) TICK) (func $d (type $v) TICK TICK)", "(loop $l local.get 0 i32.const 1 i32.and call_indirect $t (type $v) MORE br_if $l)"),
        ("tree", "(func $r (param i32) TICK local.get 0 if local.get 0 i32.const 1 i32.sub call $r local.get 0 i32.const 1 i32.sub call $r end)", "i32.const 12 call $r"),
        ("tree results", "(func $r (param i32) (result i32) local.get 0 i32.eqz if (result i32) i32.const 1 else local.get 0 i32.const 1 i32.sub call $r local.get 0 i32.const 1 i32.sub call $r i32.add end)", "i32.const 12 call $r drop"),
        ("mutual recursion", "(func $a (param i32) TICK local.get 0 if local.get 0 i32.const 1 i32.sub call $b end) (func $b (param i32) TICK local.get 0 if local.get 0 i32.const 1 i32.sub call $a end)", "(loop $l i32.const 40 call $a MORE br_if $l)"),
        ("deep then loop", "(func $r (param i32) local.get 0 if local.get 0 i32.const 1 i32.sub call $r return end (loop $l TICK MORE br_if $l))", "local.get 0 i32.const 3 i32.and call $r"),
        ("deep then many calls", "(func $e TICK) (func $r (param i32) local.get 0 if local.get 0 i32.const 1 i32.sub call $r return end (loop $l call $e MORE br_if $l))", "local.get 0 i32.const 3 i32.and call $r"),
        ("loops on the way out", "(func $e TICK) (func $r (param i32) (local i32) local.get 0 if local.get 0 i32.const 1 i32.sub call $r end (loop $l call $e local.get 1 i32.const 1 i32.add local.tee 1 i32.const 4000 i32.lt_u br_if $l))", "i32.const 4 call $r"),
        ("straight line", "(func $e LINE)", "(loop $l call $e MORE br_if $l)"),
        ("sibling calls", "(func $e TICK) (func $f TICK call $e) (func $h call $f call $e)", "(loop $l call $h call $e call $f MORE br_if $l)"),
    ];
    v.into_iter().map(|(n, f, b)| {
        let line = (0..150).map(|k| format!("global.get $n i32.const {} i32.add i32.const {} i32.sub global.set $n", k + 3, k + 2)).collect::<Vec<_>>().join(" ");
        (n.to_string(), format!("(global $n (mut i32) (i32.const 0)) {} (func (export \"f\") (param i32) {})", body(&f.replace("LINE", &line)), body(b)))
    }).collect()
}

pub fn honoured(th: bool) -> Vec<crate::ckpt::Honour> {
    use crate::ckpt::Honour;
    let mut out = vec![];
    let imp = ["", "(import \"wasi_snapshot_preview1\" \"fd_write\" (func (param i32 i32 i32 i32) (result i32))) (memory 1)", "(memory 1)"];
    let ch: Vec<Vec<&'static str>> = vec![vec!["tco", "legacy", "tco"], vec!["legacy", "tco", "legacy"], vec!["tco", "tco"], vec!["legacy", "legacy"]];
    for (i, (n, b)) in long_progs().into_iter().enumerate() {
        for (k, im) in imp.iter().enumerate() {
            let w = format!("(module {} {})", im, b);
            let name = format!("{}{}", n, ["", " wasi", " memory"][k]);
            let mut p = Prog::new(&name, &w).call("f", &[(I32, s("a"))]);
            p.max_steps = 60_000_000;
            for (j, c) in ch.iter().enumerate() {
                if th || j % 4 == (i + k) % 4 || j % 4 == (i + k + 1) % 4 { out.push(Honour { prog: p.clone(), chain: c.clone(), stop: true, trigger: false, flags: 1, polls: if th { vec![4, 3, 2] } else { vec![3, 2, 1] } }); }
            }
            for (j, m) in ["tco", "legacy"].iter().enumerate() {
                if !th && (i + j + k) % 3 > 0 { continue; }
                // the same guest with less work to do: it runs to its end here
                let small = w.replace("i32.const 20000 ", "i32.const 1200 ").replace("i32.const 40000 ", "i32.const 1200 ").replace("i32.const 4000 ", "i32.const 300 ").replace("i32.const 12 call $r", "i32.const 7 call $r");
                let mut q = Prog::new(&name, &small).call("f", &[(I32, s("a"))]);
                q.max_steps = 60_000_000;
                q.name = format!("{} never", name);
                out.push(Honour { prog: q.clone(), chain: vec![m], stop: false, trigger: false, flags: 1, polls: vec![] });
                q.name = format!("{} off", name);
                out.push(Honour { prog: q, chain: vec![m], stop: false, trigger: true, flags: 0, polls: vec![] });
            }
        }
    }
    out
}

/// The same programs with every instrumentation flag (1 checkpoints, 2 statistics, 8 tracing) and build.
pub fn instrumented(th: bool) -> Vec<Prog> {
    let mut v = state_progs();
    v.extend(samples(181, if th { 7 } else { 5 }));
    v.retain(|p| p.name != "nine_results" && p.name != "deep");
    let mut out = vec![];
    for (i, p) in v.into_iter().enumerate() {
        let cfgs: [(&'static str, u8); 8] = [("tco-instr", 11), ("legacy-instr", 11), ("tco", 1), ("legacy", 1), ("tco-instr", 0), ("legacy-instr", 10), ("tco", 3), ("legacy", 2)];
        for (k, (m, f)) in cfgs.iter().enumerate() {
            if !th && k > 3 && (i + k) % 4 > 0 { continue; }
            let mut q = p.clone();
            q.name = format!("{} flags {}", q.name, f);
            q.modes = vec![*m];
            for s in q.steps.iter_mut() { if let Step::Call { flags, .. } = s { *flags |= f; } }
            out.push(q);
        }
    }
    out
}
