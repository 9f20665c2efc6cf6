//! Host resources: neither the host stack (call nesting of the interpreter) nor
//! its heap may grow with the number of guest instructions executed.
use crate::ckpt::{poll_file, prefix};
use crate::diff::*;
use crate::exec::*;
use crate::gen::*;
use crate::mem::V;
use crate::run::*;
use crate::wasm::Ty::*;
use crate::wasm::*;
use crate::solver::Res;
use std::rc::Rc;

/// The first argument is the amount of work; `heap`: the guest needs no more memory for more work.
#[derive(Clone)]
pub struct Bounded { pub prog: Prog, pub heap: bool, pub warm: u64, pub max: u64, /// amount of work of the replay of an excessive nesting
    pub huge: u32 }

const SLACK_BYTES: u64 = 96;
const SLACK_FRAMES: usize = 2;

pub fn jobs(v: Vec<Bounded>) -> Vec<Job> {
    let mut o: Vec<Job> = vec![];
    for c in v { for m in ["tco", "legacy"] {
        let c = c.clone();
        o.push(Job { name: format!("{} [{}]", c.prog.name, m), run: Box::new(move |w| {
            let vm = w.vm(m);
            let mut touched = std::mem::take(&mut w.touched);
            let mut counts = std::mem::take(&mut w.counts);
            let mut eng = Eng::new();
            let r = check(&mut eng, &vm, m, &c, &mut counts, touched.entry(m.into()).or_default());
            w.stats.add(&eng.sol.stats);
            counts.steps += eng.total_steps;
            w.touched = touched;
            w.counts = counts;
            match r { Ok(v) => v, Err(e) => Verdict::Inconclusive(format!("{} [{}]: {}", c.prog.name, m, e)) }
        }) });
    } }
    o
}

fn script(p: &Prog) -> Vec<u8> {
    let mut o = script_head(&p.argv);
    o.push(10);
    script_steps(&mut o, &p.argv, &p.steps);
    o.push(11);
    o
}

fn judge_heap(v: &Violation, status: i32, out: &[u8], _: &str) -> Result<String, String> {
    let lim: u64 = v.exp[0].parse().unwrap();
    if status != 0 || out.len() < 8 || out[2] != 0 { return Err(format!("the replay ended differently (status {})", status)); }
    let n = u32::from_le_bytes(out[out.len() - 4..].try_into().unwrap()) as u64;
    if n > lim { Ok(format!("the call raised the interpreter's heap use by {} bytes, {} with little work", n, lim)) } else { Err(format!("heap use {} within {}", n, lim)) }
}
fn judge_stack(v: &Violation, status: i32, out: &[u8], _: &str) -> Result<String, String> {
    match status {
        0 if out.len() > 2 && out[2] == 0 => Err("the long run completed".into()),
        s if s < 0 || (124..=127).contains(&s) => Err(format!("the replay could not run (status {})", s)),
        s => Ok(format!("with {} units of work the interpreter ends abnormally (status {})", u32::from_le_bytes(v.args[..4].try_into().unwrap()), s)),
    }
}

fn check(eng: &mut Eng, vm: &Rc<Module>, mode: &str, c: &Bounded, counts: &mut Counts, touched: &mut Vec<bool>) -> Result<Verdict, String> {
    let p = &c.prog;
    let g = p.guest(&mut eng.cx)?;
    counts.programs += 1;
    counts.guest_paths += 1;
    eng.touched = std::mem::take(touched);
    let args = p.args_file(&mut eng.cx);
    let mut n = harness_state(vm, p, &g, script(p));
    n.host.file_v("args.bin", args);
    poll_file(eng, &mut n, None);
    prefix(eng, &mut n, "#ARGS")?;
    let mut base: Option<(u64, usize)> = None;
    for phase in 0..2 {
        let mut st = n.clone();
        let t = eng.cx.var("n", 32);
        let one = eng.cx.k(1, 32);
        let hi = eng.cx.k(if phase == 0 { c.warm } else { c.max }, 32);
        let a = eng.cx.ult(t, one);
        eng.assume(&mut st, a, false);
        let b = eng.cx.ult(hi, t);
        eng.assume(&mut st, b, false);
        st.max_steps = st.steps + p.max_steps;
        let fins = drive(eng, st, 4096, &mut |_, st, m| { if m == "#RUN" { st.peak = st.depth(); } true });
        for (out, st) in fins? {
            counts.vm_paths += 1;
            let o: Vec<V> = st.host.files.get("out.bin").map(|b| b.to_vec()).unwrap_or_default();
            let done = matches!(&out, Out::Marker(m) if m == "#DONE") && o.len() >= 8 && o[2].t == 0 && o[2].c == 0;
            if !done { return Err(format!("the guest does not run to its end: {} at {}", outs(&out), st.backtrace())); }
            if o[o.len() - 4..].iter().any(|v| v.t != 0) { return Err("symbolic heap use".into()); }
            let heap = (0..4).map(|i| o[o.len() - 4 + i].c << (8 * i)).sum::<u64>();
            let depth = st.peak;
            if std::env::var_os("WSYM_DBG").is_some() { eprintln!("{} [{}] phase {} heap {} depth {}", p.name, mode, phase, heap, depth); }
            if phase == 0 {
                let b = base.get_or_insert((0, 0));
                b.0 = b.0.max(heap);
                b.1 = b.1.max(depth);
                continue;
            }
            let b = base.unwrap();
            counts.obligations += 1;
            let (bh, bd) = (c.heap && heap > b.0 + SLACK_BYTES, depth > b.1 + SLACK_FRAMES);
            eng.sol.stats.prop_queries += 1;
            if !bh && !bd { counts.trivial += 1; eng.sol.stats.prop_unsat += 1; continue; }
            match eng.sol.check(&eng.cx, &st.pc, &[]) {
                Res::Unsat => { eng.sol.stats.prop_unsat += 1; }
                Res::Unknown => return Err("solver gave up deciding reachability".into()),
                Res::Sat(md) => {
                    let what = if bd { format!("the interpreter's call nesting grows with the work done: {} frames, {} with little work", depth, b.1) }
                        else { format!("the interpreter's heap use grows with the work done: {} bytes, {} with little work", heap, b.0) };
                    let f = Final { recs: vec![], out, st };
                    let r = Final { recs: vec![], out: Out::Done(vec![]), st: f.st.clone() };
                    let Verdict::Viol(mut v) = viol(eng, p, mode, &g, &r, &f, Some(md), what) else { unreachable!() };
                    v.script = script(p);
                    v.host = false;
                    v.more_files.push(("poll.bin".into(), vec![0xff; 4]));
                    v.expected = "bounded resources".into();
                    v.exp = vec![format!("{}", b.0 + SLACK_BYTES)];
                    v.judge = judge_heap;
                    if bd { v.judge = judge_stack; v.max_stack = 512 << 10; v.args[..4].copy_from_slice(&c.huge.to_le_bytes()); }
                    *touched = std::mem::take(&mut eng.touched);
                    return Ok(Verdict::Viol(v));
                }
            }
        }
    }
    *touched = std::mem::take(&mut eng.touched);
    Ok(Verdict::Pass)
}

fn lc(t: Ty, k: usize) -> String { format!("local.get ${}{}", tn(t), k) }

/// Loop bodies executing every instruction of the interpreter's repertoire.
fn bodies() -> Vec<(String, String, String)> {
    let mut o: Vec<(String, String, String)> = vec![];
    let mut ops = |name: &str, v: Vec<(String, Vec<Ty>, Ty)>| {
        for (k, ch) in v.chunks(14).enumerate() {
            let mut b = String::new();
            for (i, (op, ins, out)) in ch.iter().enumerate() {
                for (j, t) in ins.iter().enumerate() { b += &lc(*t, j); b.push(' '); }
                b += op;
                b += &if i % 3 == 2 { " drop ".to_string() } else { format!(" local.set ${}r ", tn(*out)) };
            }
            o.push((format!("{} {}", name, k), String::new(), b));
        }
    };
    for t in [I32, I64] {
        ops(&format!("{} arithmetic", tn(t)), int_bin(t).into_iter().map(|x| (x, vec![t, t], t)).collect());
        ops(&format!("{} comparisons", tn(t)), int_cmp(t).into_iter().map(|x| (x, vec![t, t], I32)).chain([(format!("{}.eqz", tn(t)), vec![t], I32)]).collect());
        ops(&format!("{} unary", tn(t)), int_un(t).into_iter().filter(|x| !x.ends_with("eqz")).map(|x| (x, vec![t], t)).collect());
    }
    for t in [F32, F64] {
        ops(&format!("{} arithmetic", tn(t)), flt_bin(t).into_iter().map(|x| (x, vec![t, t], t)).collect());
        ops(&format!("{} comparisons", tn(t)), flt_cmp(t).into_iter().map(|x| (x, vec![t, t], I32)).collect());
        ops(&format!("{} unary", tn(t)), flt_un(t).into_iter().map(|x| (x, vec![t], t)).collect());
    }
    ops("conversions", convs().into_iter().map(|(x, a, b)| (x.to_string(), vec![a], b)).collect());
    let mem = "(memory 2)";
    for (k, ch) in loads().chunks(7).enumerate() { o.push((format!("loads {}", k), mem.into(), ch.iter().enumerate().map(|(i, (op, t, _))| format!("i32.const {} {} {}", 64 + 8 * i, op, if i % 2 == 0 { format!("local.set ${}r ", tn(*t)) } else { "drop ".into() })).collect())); }
    o.push(("stores".into(), mem.into(), stores().iter().enumerate().map(|(i, (op, t, _))| format!("i32.const {} {} {} ", 64 + 8 * i, lc(*t, 0), op)).collect()));
    let mut add = |n: &str, p: &str, b: &str| o.push((n.to_string(), p.to_string(), b.to_string()));
    add("constants and selects", "", "i32.const 5 i64.const 6 drop drop f32.const 1.5 f64.const 2.5 drop drop nop local.get $i320 local.get $i321 local.get $x select local.set $i32r local.get $i640 local.get $i641 local.get $x select drop local.get $f320 local.get $f321 local.get $x select drop local.get $f640 local.get $f641 local.get $x select local.tee $f64r drop local.get $r local.get $r local.get $x select (result funcref) local.set $r");
    add("globals", "(global $a (mut i32) (i32.const 1)) (global $b (mut i64) (i64.const 1)) (global $c (mut f32) (f32.const 1)) (global $d (mut f64) (f64.const 1)) (global $e i32 (i32.const 9))", "global.get $a global.set $a global.get $b global.set $b global.get $c global.set $c global.get $d global.set $d global.get $e drop local.get $i320 global.set $a i64.const 4 global.set $b f32.const 1 global.set $c f64.const 7 global.set $d global.get $a i32.const 1 i32.add local.set $i32r");
    add("tables", "(table $t 4 funcref) (elem declare func $k) (func $k)", "i32.const 1 table.get $t local.set $r i32.const 2 local.get $r table.set $t i32.const 0 local.get $r i32.const 3 table.fill $t ref.null func ref.is_null drop local.get $r ref.is_null local.set $i32r ref.null func local.set $r");
    add("memory instructions", "(memory 2) (data $d \"abcdefgh\")", "memory.size drop i32.const 0 memory.grow drop i32.const 8 i32.const 100 i32.const 16 memory.copy i32.const 3 local.get $i320 i32.const 9 memory.fill i32.const 1 i32.const 2 i32.const 3 memory.init $d memory.size local.set $i32r");
    add("data drop", "(memory 2) (data $d \"abcdefgh\")", "data.drop $d i32.const 1 i32.const 0 i32.const 0 memory.init $d");
    add("blocks", "", "block block block end end end loop end block $a local.get $x br_if $a nop end (block $b (block $c local.get $x if br $b else br $c end) nop)");
    add("ifs", "", "local.get $x if nop end local.get $x if nop else nop nop end local.get $x if (result i32) i32.const 1 else i32.const 2 end drop local.get $x if (result i64) local.get $i640 else local.get $x if (result i64) i64.const 1 else i64.const 2 end end drop local.get $x if local.get $x if nop end end");
    add("branch tables", "", "(block $a (block $b (block $c local.get $x br_table $c $b $a) nop) nop) (block $d (result i32) (block $e (result i32) i32.const 4 local.get $x br_table $d $e $d) i32.const 1 i32.add) drop");
    add("value blocks", "", "local.get $i320 (block (param i32) (result i32) i32.const 1 i32.add) drop (block (result i32 i64) i32.const 1 i64.const 2) drop drop (block $a (result f64) local.get $f640 local.get $x br_if $a drop f64.const 2) drop i32.const 1 (loop (param i32) (result i32) i32.const 1 i32.add) drop");
    add("inner loops", "", "i32.const 3 local.set $y (loop $m local.get $y i32.const 1 i32.sub local.tee $y br_if $m) i32.const 2 local.set $y (block $o (loop $m local.get $y i32.eqz br_if $o local.get $y i32.const 1 i32.sub local.set $y (block $q (loop $w br $q)) br $m))");
    add("loop exits", "", "(block $o (loop $m (block $i (loop $n local.get $x br_if $o br $i)) br $o)) (block $o (loop $m (loop $n (block $p (block $q br $o)))))");
    add("loop with continue", "", "(block $o (loop $m local.get $y i32.const 1 i32.add local.tee $y i32.const 3 i32.and (if (then (block (block (br $m))))) br $o))");
    add("calls", "(func $e) (func $a (param i32) (result i32) local.get 0 i32.const 1 i32.add) (func $b (param i64 f32 f64) (result f64) (local i32) local.get 2) (func $d call $e)", "call $e local.get $i320 call $a call $a drop i64.const 1 f32.const 2 f64.const 3 call $b drop call $d");
    add("multi-value calls", "(func $m (param i32) (result i32 i64) local.get 0 i64.const 3) (func $q (result i32 i32 i32) i32.const 1 i32.const 2 i32.const 3 return)", "local.get $x call $m drop drop call $q drop drop drop");
    add("returning calls", "(func $e (param i32) (result i32) (block $a (loop $l local.get 0 br_if $a (block i32.const 4 return))) i32.const 1) (func $f (param i32) (loop $l (block $b local.get 0 br_table $b 2 2) return)) (func $g (param i32) block block block local.get 0 br_if 3 return end end end)", "local.get $x call $e drop local.get $x call $f local.get $x call $g i32.const 0 call $g i32.const 0 call $e drop");
    add("indirect calls", "(table $t 2 funcref) (elem (table $t) (i32.const 0) func $e $d) (type $v (func (param i32) (result i32))) (func $e (type $v) local.get 0) (func $d (type $v) i32.const 7)", "i32.const 1 local.get $x i32.const 1 i32.and call_indirect $t (type $v) drop i32.const 1 i32.const 0 call_indirect $t (type $v) drop");
    add("recursive calls", "(func $r (param i32) local.get 0 if local.get 0 i32.const 1 i32.sub call $r end)", "i32.const 5 call $r local.get $x call $r");
    add("memory in calls", "(memory 1) (func $m (param i32) (result i32) local.get 0 i32.const 1 i32.store offset=8 local.get 0 i32.load8_u offset=8 memory.size i32.add)", "i32.const 4 call $m drop");
    add("host calls", "(import \"wasi_snapshot_preview1\" \"sched_yield\" (func $y (result i32))) (memory 1)", "call $y drop call $y local.set $i32r");
    o
}

pub fn bounded(th: bool) -> Vec<Bounded> {
    let mut out = vec![];
    let max = if th { 160 } else { 48 };
    let n = |t: &str| (I32, s(t));
    for (name, pre, b) in bodies() {
        let w = format!("(module {} (func (export \"f\") (param $n i32) (param $x i32) (local $i i32) (local $y i32) {} (local $r funcref)
            i32.const 2 local.set $i321 i32.const 7 local.set $i320 i64.const 7 local.set $i640 i64.const 2 local.set $i641 f32.const 7.5 local.set $f320 f32.const 2 local.set $f321 f64.const 7.5 local.set $f640 f64.const 2 local.set $f641
            (loop $l {} local.get $i i32.const 1 i32.add local.tee $i local.get $n i32.lt_u br_if $l)))",
            pre, [I32, I64, F32, F64].iter().map(|t| format!("(local ${0}0 {0}) (local ${0}1 {0}) (local ${0}r {0})", tn(*t))).collect::<Vec<_>>().join(" "), b);
        let two = Arg::K(if name.len() % 2 == 0 { 0 } else { 1 });
        let x = if b.contains("$x") { vec![Arg::K(0), Arg::K(1)] } else { vec![two] };
        for (k, x) in x.into_iter().enumerate() {
            let mut p = Prog::new(&format!("{}{}", name, if k > 0 { " taken" } else { "" }), &w).call("f", &[n("n"), (I32, x)]);
            p.max_steps = 80_000_000;
            out.push(Bounded { prog: p, heap: !name.starts_with("host"), warm: 6, max, huge: 3_000_000 });
        }
    }
    for (name, body) in crate::progs5::long_progs() {
        let lim = body.replace("i32.const 20000 ", "global.get $lim ").replace("i32.const 40000 ", "global.get $lim ").replace("i32.const 4000 ", "global.get $lim ").replace("i32.const 12 call $r", "i32.const 3 call $r").replace("i32.const 40 call $a", "i32.const 6 call $a");
        if !lim.contains("$lim") || name == "straight line" { continue; }
        let w = format!("(module (global $lim (mut i32) (i32.const 0)) {} (func (export \"g\") (param i32 i32) local.get 0 global.set $lim local.get 1 call $ff))", lim.replace("(func (export \"f\")", "(func $ff"));
        for x in 0..2 {
            let mut p = Prog::new(&format!("{} {}", name, x), &w).call("g", &[n("n"), (I32, Arg::K(x * 3))]);
            p.max_steps = 80_000_000;
            out.push(Bounded { prog: p, heap: true, warm: 8, max, huge: 3_000_000 });
        }
    }
    // guest recursion lives on the interpreter's heap
    let more = "local.get 0 global.get $lim i32.lt_u";
    let rec = [("recursion", "(func $r (param i32) MORE if local.get 0 i32.const 1 i32.add call $r end)"),
        ("recursion with result", "(func $r (param i32) (result i32) MORE if (result i32) local.get 0 i32.const 1 i32.add call $r i32.const 1 i32.add else i32.const 0 end)"),
        ("mutual recursion", "(func $r (param i32) MORE if local.get 0 i32.const 1 i32.add call $q end) (func $q (param i32) (block (loop MORE i32.eqz br_if 1 local.get 0 i32.const 1 i32.add call $r)))"),
        ("indirect recursion", "(table $t 1 funcref) (elem (table $t) (i32.const 0) func $r) (type $v (func (param i32))) (func $r (type $v) MORE if local.get 0 i32.const 1 i32.add i32.const 0 call_indirect $t (type $v) end)"),
        ("recursion in loops", "(func $r (param i32) (loop $l MORE if (block local.get 0 i32.const 1 i32.add call $r) end))")];
    for (name, f) in rec {
        let w = format!("(module (global $lim (mut i32) (i32.const 0)) {} (func (export \"f\") (param i32) local.get 0 global.set $lim i32.const 0 call $r {}))", f.replace("MORE", more), if f.contains("(param i32) (result i32)") { "drop" } else { "" });
        let mut p = Prog::new(name, &w).call("f", &[n("n")]);
        p.max_steps = 80_000_000;
        out.push(Bounded { prog: p, heap: false, warm: 6, max, huge: 1_000_000 });
    }
    out
}
