//! Damaged checkpoint files and failing host calls on them.
use crate::ckpt::*;
use crate::diff::*;
use crate::exec::*;
use crate::host::Faults;
use crate::mem::*;
use crate::run::*;
use crate::solver::Res;
use crate::wasm::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Truncated, Missing, Write, Read }

/// A program stopped at poll `at`, by build `modes[0]`, restored by build `modes[1]`.
#[derive(Clone)]
pub struct Fault { pub prog: Prog, pub modes: [&'static str; 2], pub at: u64, pub kind: Kind, pub count: u32, /** every count of a short write */ pub every: bool, /** only truncations within this many bytes of the end */ pub from: Option<u64> }

pub fn jobs(v: Vec<Fault>) -> Vec<Job> {
    v.into_iter().map(|c| Job { name: format!("{} {:?} poll {} [{}>{}]", c.prog.name, c.kind, c.at, c.modes[0], c.modes[1]), run: Box::new(move |w| {
        let vms = [w.vm(c.modes[0]), w.vm(c.modes[1])];
        let mut counts = std::mem::take(&mut w.counts);
        let mut eng = Eng::new();
        let r = check(&mut eng, &vms, &c, &mut counts);
        w.stats.add(&eng.sol.stats);
        counts.steps += eng.total_steps;
        w.counts = counts;
        for (i, m) in c.modes.iter().enumerate() {
            let t = w.touched.entry(m.to_string()).or_default();
            let n = vms[i].funcs.len();
            t.resize(n, false);
            if i == 1 || c.modes[0] == c.modes[1] { for (k, &b) in eng.touched.iter().enumerate().take(n) { if b { t[k] = true; } } }
        }
        match r {
            Ok(Verdict::Viol(mut v)) if matches!(c.kind, Kind::Write | Kind::Read) => {
                let mut e2 = Eng::new();
                e2.cx.pin = Some(v.vals.clone());
                match check(&mut e2, &vms, &c, &mut Counts::default()) {
                    Ok(Verdict::Viol(x)) => { v.confirmed = Some(format!("concrete re-execution with the host's answers fixed: {}; {} instead of {}", x.what, x.got, x.expected)); Verdict::Viol(v) }
                    _ => Verdict::Inconclusive(format!("{}: counterexample did not reproduce in a concrete re-execution: {}", c.prog.name, v.what)),
                }
            }
            Ok(v) => v,
            Err(e) => Verdict::Inconclusive(format!("{} {:?} [{}>{}]: {}", c.prog.name, c.kind, c.modes[0], c.modes[1], e)),
        }
    }) }).collect()
}

fn judge_rejected(v: &Violation, status: i32, out: &[u8], _: &str) -> Result<String, String> {
    if status < 0 || (124..=127).contains(&status) { return Err(format!("the replay could not run (status {})", status)); }
    let got = concrete_recs(&v.steps, out);
    let g = format!("{}{}", got.join("; "), if status != 0 { format!(" exit({})", status) } else { String::new() });
    if status == 0 && got.last().map(|x| x.as_str()) == Some("restore failure") { Err(format!("the real build rejects the file: {}", g)) } else { Ok(g) }
}

fn tag(st: &State) -> Option<u64> { st.host.files.get("out.bin").and_then(|o| o.get(2).copied()).filter(|t| t.t == 0).map(|t| t.c) }

fn check(eng: &mut Eng, vms: &[Rc<Module>; 2], c: &Fault, counts: &mut Counts) -> Result<Verdict, String> {
    let mut prog = c.prog.clone();
    for s in prog.steps.iter_mut() { if let Step::Call { flags, .. } = s { *flags |= 1; } }
    let p = &prog;
    let mode = c.modes.join(">");
    let g = p.guest(&mut eng.cx)?;
    counts.programs += 1;
    counts.guest_paths += 1;
    let args = p.args_file(&mut eng.cx);
    let mut base = harness_state(&vms[0], p, &g, p.script());
    base.host.file_v("args.bin", args.clone());
    base.host.file("poll.bin", &(c.at as u32).to_le_bytes());
    prefix(eng, &mut base, "#ARGS")?;
    base.max_steps = base.steps + p.max_steps;
    let run = |eng: &mut Eng, st: State| drive(eng, st, 20000, &mut |_, st, mk| { if mk == "#REQUEST" { st.host.guest = false; } true });
    let done = |o: &Out| matches!(o, Out::Marker(m) if m == "#DONE");
    let mut stops = vec![];
    for (out, st) in run(eng, base.clone())? {
        if let Out::Unsup(m) = &out { return Err(format!("engine: {} at {}", m, st.backtrace())); }
        if done(&out) && tag(&st) == Some(2) && st.host.files.contains_key("checkpoint.bin") { stops.push(st); }
    }
    if stops.is_empty() { return Err(format!("no path reaches poll {}", c.at)); }
    let mut prep = harness_state(&vms[1], p, &g, restore_script(&p.argv, &p.steps, 0));
    prep.host.file_v("args.bin", args[args_before(&p.steps, 0)..].to_vec());
    prep.host.file("poll.bin", &u32::MAX.to_le_bytes());
    prefix(eng, &mut prep, "#RESTORE")?;
    // a feasible path whose outcome is not allowed
    let mut bad = |eng: &mut Eng, counts: &mut Counts, out: Out, st: State, good: bool, expected: &str, what: String| -> Result<Option<Violation>, String> {
        counts.vm_paths += 1;
        counts.obligations += 1;
        eng.sol.stats.prop_queries += 1;
        if good { counts.trivial += 1; eng.sol.stats.prop_unsat += 1; return Ok(None); }
        match eng.sol.check(&eng.cx, &st.pc, &[]) {
            Res::Unsat => { eng.sol.stats.prop_unsat += 1; Ok(None) }
            Res::Unknown => Err("solver gave up deciding reachability".into()),
            Res::Sat(md) => {
                let got = match tag(&st) { Some(0) => "completion", Some(1) => "an error of the execution", Some(2) => "checkpoint stop", Some(4) => "restore failure", _ => "no record" };
                let got = format!("{}{}", got, if done(&out) { String::new() } else { format!(" then {} in {}", outs(&out), st.backtrace()) });
                let f = Final { recs: vec![], out, st };
                let r = Final { recs: vec![], out: Out::Done(vec![]), st: f.st.clone() };
                let Verdict::Viol(mut v) = viol(eng, p, &mode, &g, &r, &f, Some(md), what) else { unreachable!() };
                v.expected = expected.into();
                v.got = got;
                v.host = false;
                Ok(Some(v))
            }
        }
    };
    for stop in stops {
        let file: Rc<Vec<V>> = stop.host.files["checkpoint.bin"].clone();
        let mut n = prep.clone();
        n.adopt(&stop);
        n.host.files.insert("checkpoint.bin".into(), file.clone());
        n.max_steps = n.steps + p.max_steps;
        eng.settle_file(&mut n, "args.bin");
        eng.settle_file(&mut n, "checkpoint.bin");
        match c.kind {
            Kind::Truncated | Kind::Missing => {
                if c.kind == Kind::Missing { n.host.files.remove("checkpoint.bin"); }
                else {
                    let (l, full) = (eng.cx.var("length", 32), eng.cx.k(file.len() as u64, 32));
                    let lo = eng.cx.k(c.from.map_or(0, |k| file.len() as u64 - k), 32);
                    let (a, b) = (eng.cx.ult(l, full), eng.cx.ule(lo, l));
                    let a = eng.cx.and(a, b);
                    eng.constrain(&mut n, a);
                    n.host.trunc = Some(tov(&eng.cx, l));
                }
                for (out, st) in run(eng, n)? {
                    if let Out::Unsup(m) = &out { return Err(format!("engine: {} at {}", m, st.backtrace())); }
                    let good = done(&out) && tag(&st) == Some(4);
                    let what = if c.kind == Kind::Missing { "restoring without a checkpoint file".to_string() } else { format!("restoring a truncated checkpoint ({} bytes when complete)", file.len()) };
                    if let Some(mut v) = bad(eng, counts, out, st, good, "restore failure", what)? {
                        if c.kind == Kind::Truncated {
                            let md = crate::term::Model::new(eng.cx.vars.iter().map(|x| v.vals.get(&x.name).copied().unwrap_or(0)).collect());
                            let k = v.vals["length"] as usize;
                            let b: Vec<u8> = file.iter().take(k).map(|x| if x.t == 0 { x.c as u8 } else { md.eval(&eng.cx, x.t) as u8 }).collect();
                            v.more_files.push(("checkpoint.bin".into(), b));
                        }
                        v.script = restore_script(&p.argv, &p.steps, 0);
                        let skip = args_before(&p.steps, 0);
                        v.args = v.args[skip..].to_vec();
                        v.mode = c.modes[1].into();
                        v.more_files.push(("poll.bin".into(), vec![0xff; 4]));
                        v.judge = judge_rejected;
                        return Ok(Verdict::Viol(v));
                    }
                }
            }
            Kind::Write => {
                let mut st = base.clone();
                st.adopt(&stop);
                eng.settle_file(&mut st, "args.bin");
                st.host.faults = Some(Faults { writes: c.count, opens: 1, every: c.every, ..Default::default() });
                // an older checkpoint is there already
                st.host.file("checkpoint.bin", b"old");
                for (out, st) in run(eng, st)? {
                    if let Out::Unsup(m) = &out { return Err(format!("engine: {} at {}", m, st.backtrace())); }
                    let now = st.host.files.get("checkpoint.bin").cloned().unwrap_or_default();
                    let complete = now.len() == file.len() && now.iter().zip(file.iter()).all(|(a, b)| a == b || same(eng, &st, *a, *b));
                    let t = tag(&st);
                    let good = if t == Some(2) { done(&out) && complete && !st.host.faults.as_ref().unwrap().failed } else { !done(&out) || t == Some(1) };
                    if let Some(v) = bad(eng, counts, out, st, good, "a complete checkpoint file, or an error", format!("a failing write of the checkpoint is reported as success ({} of {} bytes written)", now.len(), file.len()))? { return Ok(Verdict::Viol(v)); }
                }
            }
            Kind::Read => {
                let clean = run(eng, n.clone())?;
                let mut f = n.clone();
                f.host.faults = Some(Faults { reads: c.count, opens: 1, ..Default::default() });
                for (out, st) in run(eng, f)? {
                    if let Out::Unsup(m) = &out { return Err(format!("engine: {} at {}", m, st.backtrace())); }
                    let failed = st.host.faults.as_ref().unwrap().failed;
                    let t = tag(&st);
                    let o = st.host.files.get("out.bin").cloned().unwrap_or_default();
                    let good = if t == Some(4) { done(&out) } else {
                        // the whole file was read: the same output as without faults, on this path
                        !failed && clean.iter().any(|(co, cs)| outs(co) == outs(&out) && { let b = cs.host.files.get("out.bin").cloned().unwrap_or_default(); b.len() == o.len() && b.iter().zip(o.iter()).all(|(a, b)| a == b || same(eng, &st, *a, *b)) })
                    };
                    if let Some(v) = bad(eng, counts, out, st, good, if failed { "restore failure" } else { "the same continuation, or a restore failure" }, "a failing or short read of the checkpoint changes the continuation".into())? { return Ok(Verdict::Viol(v)); }
                }
            }
        }
    }
    Ok(Verdict::Pass)
}

/// Equal on every input of the path.
fn same(eng: &mut Eng, st: &State, a: V, b: V) -> bool {
    let (x, y) = (eng.term(a, 8), eng.term(b, 8));
    let d = eng.cx.ne(x, y);
    matches!(eng.sol.check(&eng.cx, &st.pc, &[d]), Res::Unsat)
}

pub fn faulty(th: bool) -> Vec<Fault> {
    use crate::wasm::Ty::*;
    let mut out = vec![];
    let bare = "(module (global $a (mut i32) (i32.const 3)) (global $b (mut i64) (i64.const 4)) (global $f (mut f64) (f64.const 1.5)) (global $r (mut funcref) (ref.func $e)) (table $t 4 funcref) (elem (table $t) (i32.const 1) func $e $g)
        (func $e (param i32) (result i32) local.get 0 i32.const 1 i32.add) (func $g (param i32) (result i32) (local i64 f32 funcref) i32.const 1 table.get $t local.set 3 local.get 0 call $e i32.const 3 i32.mul local.get 3 ref.is_null i32.add)
        (func (export \"f\") (param i32 i64) (result i32) local.get 0 global.set $a local.get 1 global.set $b local.get 0 (block (param i32) (result i32) (loop (param i32) (result i32) call $g i32.const 5 i32.xor)) local.get 0 call $g i32.sub))";
    let none = "(module (func (export \"f\") (param i32 i64) (result i32) local.get 0 i32.const 1 i32.add local.get 1 i32.wrap_i64 i32.sub))";
    let mem = "(module (memory 1) (data (i32.const 8) \"abc\") (global $a (mut i32) (i32.const 3)) (func (export \"f\") (param i32 i64) (result i32) i32.const 16 local.get 0 i32.store i32.const 9 i32.load8_u i32.const 16 i32.load i32.add global.get $a i32.add))";
    let prog = |n: &str, w: &str| { let mut p = Prog::new(n, w).call("f", &[(I32, s("a")), (I64, s("b"))]).globals(); p.max_steps = 60_000_000; p };
    let ms = [["tcod", "legacyd"], ["legacyd", "tcod"], ["tcod", "tcod"], ["legacyd", "legacyd"]];
    for (n, w, ats) in [("everything", bare, vec![0u64, 4, 9, 16, 22]), ("minimal", none, vec![0, 2]), ("memory", mem, vec![1, 6])] {
        for (i, &at) in ats.iter().enumerate() {
            for (k, m) in ms.iter().enumerate() {
                if !th && i > 0 && (i + k) % 2 > 0 { continue; }
                if n != "memory" { out.push(Fault { prog: prog(n, w), modes: *m, at, kind: Kind::Truncated, count: 0, every: false, from: None }); }
                if i == 0 { out.push(Fault { prog: prog(n, w), modes: *m, at, kind: Kind::Missing, count: 0, every: false, from: None }); }
                if n == "minimal" && (th || i == 0) || n == "everything" && (if th { i % 2 == 0 } else { i == 2 }) {
                    out.push(Fault { prog: prog(n, w), modes: *m, at, kind: Kind::Write, count: 1, every: th, from: None });
                    out.push(Fault { prog: prog(n, w), modes: *m, at, kind: Kind::Read, count: 1, every: th, from: None });
                }
            }
        }
    }
    out
}
