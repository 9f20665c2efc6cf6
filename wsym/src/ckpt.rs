//! Checkpoint and restore: the execution is stopped at a symbolic poll, the
//! checkpoint file is handed to a fresh process (possibly of the other build),
//! and the stitched execution is compared with the uninterrupted reference.
use crate::diff::*;
use crate::exec::*;
use crate::run::*;
use crate::mem::*;
use crate::wasm::*;
use crate::solver::Res;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

/// One execution spread over several processes: builds of the successive processes.
#[derive(Clone)]
pub struct Ck { pub prog: Prog, pub chain: Vec<&'static str>, /// second and later requests appear within this many polls (0: any)
    pub max_polls: u32 }

pub fn jobs(v: Vec<Ck>) -> Vec<Job> {
    v.into_iter().map(|c| Job { name: format!("{} [{}]", c.prog.name, c.chain.join(">")), run: Box::new(move |w| {
        let vms: Vec<Rc<Module>> = c.chain.iter().map(|m| w.vm(m)).collect();
        let mut touched = std::mem::take(&mut w.touched);
        let mut stats = std::mem::take(&mut w.stats);
        let mut counts = std::mem::take(&mut w.counts);
        let mut stops = 0;
        let r = check(&vms, &c, &mut counts, &mut stats, &mut touched, &mut stops);
        w.touched = touched;
        w.stats = stats;
        w.counts = counts;
        w.add("checkpoint_points", stops);
        r
    }) }).collect()
}

fn check(vms: &[Rc<Module>], c: &Ck, counts: &mut Counts, stats: &mut crate::solver::Stats, touched: &mut BTreeMap<String, Vec<bool>>, stops: &mut u64) -> Verdict {
    let mut eng = Eng::new();
    let r = check_in(&mut eng, vms, c, counts, touched, stops);
    stats.add(&eng.sol.stats);
    counts.steps += eng.total_steps;
    match r {
        Ok(Verdict::Viol(mut v)) => {
            v.chain = c.chain.iter().map(|x| x.to_string()).collect();
            if v.host {
                let mut e2 = Eng::new();
                e2.cx.pin = Some(v.vals.clone());
                v.confirmed = match check_in(&mut e2, vms, c, &mut Counts::default(), &mut Default::default(), &mut 0) {
                    Ok(Verdict::Viol(x)) => Some(format!("concrete re-execution with the host's answers fixed: {}; {} instead of {}", x.what, x.got, x.expected)),
                    _ => None,
                };
                if v.confirmed.is_none() { return Verdict::Inconclusive(format!("{}: counterexample did not reproduce in a concrete re-execution: {}", c.prog.name, v.what)); }
            }
            Verdict::Viol(v)
        }
        Ok(v) => v,
        Err(e) => Verdict::Inconclusive(format!("{} [{}]: {}", c.prog.name, c.chain.join(">"), e)),
    }
}

/// Steps of a process that restores the checkpoint taken in step `j` and finishes the history.
pub fn restore_script(argv: &[String], steps: &[Step], j: usize) -> Vec<u8> {
    let mut o = script_head(argv);
    o.push(7);
    o.push(1);
    script_steps(&mut o, argv, &steps[j + 1..]);
    o
}
pub fn args_before(steps: &[Step], j: usize) -> usize { steps[..=j].iter().map(|s| match s { Step::Call { args, .. } => 8 * args.len(), _ => 0 }).sum() }

pub fn poll_file(eng: &mut Eng, st: &mut State, k: Option<usize>) {
    match k {
        None => st.host.file("poll.bin", &u32::MAX.to_le_bytes()),
        Some(i) => {
            let t = eng.cx.var(&format!("request{}", i), 32);
            let v = (0..4u8).map(|b| { let e = eng.cx.extract(t, 8 * b, 8); tov(&eng.cx, e) }).collect();
            st.host.file_v("poll.bin", v);
        }
    }
}

/// Runs a prepared process up to marker `stop`.
pub fn prefix(eng: &mut Eng, st: &mut State, stop: &str) -> Result<(), String> {
    boot(eng, st)?;
    loop {
        let out = eng.run_path(st);
        if !eng.work.is_empty() { eng.work.clear(); return Err("fork in the concrete prefix".into()); }
        match out {
            Out::Marker(m) if m == stop => return Ok(()),
            Out::Marker(m) if m == "#INST" => { st.host.guest = true; }
            Out::Marker(m) if m == "#INSTEND" => { st.host.guest = false; }
            Out::Marker(m) if m == "#DONE" => return Err("the process ended early".into()),
            Out::Marker(_) => {}
            o => return Err(format!("the process ended with {} in {}", outs(&o), st.backtrace())),
        }
    }
}

fn check_in(eng: &mut Eng, vms: &[Rc<Module>], c: &Ck, counts: &mut Counts, touched: &mut BTreeMap<String, Vec<bool>>, stops: &mut u64) -> Result<Verdict, String> {
    let mut prog = c.prog.clone();
    for s in prog.steps.iter_mut() { if let Step::Call { flags, .. } = s { *flags |= 1; } }
    let p = &prog;
    let mode = c.chain.join(">");
    let g = p.guest(&mut eng.cx)?;
    let refs = run_ref(eng, p, &g)?;
    counts.programs += 1;
    counts.guest_paths += refs.len() as u64;
    let args = p.args_file(&mut eng.cx);
    let env = env_of(eng, p);
    let last = c.chain.len() - 1;
    eng.touched = touched.remove(c.chain[0]).unwrap_or_default();
    let mut base = harness_state(&vms[0], p, &g, p.script());
    base.host.env = env.clone();
    base.host.file_v("args.bin", args.clone());
    poll_file(eng, &mut base, if last > 0 { Some(0) } else { None });
    prefix(eng, &mut base, "#ARGS")?;
    touched.insert(c.chain[0].into(), std::mem::take(&mut eng.touched));
    let limit = base.steps + p.max_steps;
    // restored processes, by stage and interrupted step
    let mut prep: BTreeMap<(usize, usize), State> = Default::default();
    for r in &refs {
        let mut st = base.clone();
        st.adopt(&r.st);
        eng.settle_file(&mut st, "args.bin");
        st.max_steps = limit;
        // (stage, first step of the process, output of the earlier processes, state)
        let mut work: Vec<(usize, usize, Vec<V>, State)> = vec![(0, 0, vec![], st)];
        while let Some((stage, _, pre, st)) = work.pop() {
            let m = c.chain[stage];
            eng.touched = touched.remove(m).unwrap_or_default();
            let fins = drive(eng, st, 4096, &mut |_, st, mk| { if mk == "#REQUEST" { st.host.guest = false; } true });
            touched.insert(m.into(), std::mem::take(&mut eng.touched));
            let mut fins: VecDeque<(Out, State)> = fins?.into();
            while let Some((out, mut st)) = fins.pop_front() {
                counts.vm_paths += 1;
                if let Out::Unsup(m) = &out { return Err(format!("engine: {} at {}", m, st.backtrace())); }
                // stitch the outputs of the processes
                if stage > 0 && st.host.files.get("out.bin.done").is_none() {
                    let mut o = pre.clone();
                    o.extend(st.host.files.get("out.bin").map(|b| b.iter().skip(2).cloned().collect::<Vec<_>>()).unwrap_or_default());
                    st.host.file_v("out.bin", o);
                    st.host.file("out.bin.done", &[]);
                }
                let parsed = parse_out(eng, p, &mut st);
                for o in eng.work.drain(..) { fins.push_back((out.clone(), o)); }
                let recs = match parsed { Ok(r) => r, Err(e) => { if e == "eof" { vec![] } else { return Err(format!("output: {}", e)); } } };
                let stopped = matches!(recs.last(), Some(Rec::Ckpt)) && matches!(&out, Out::Marker(m) if m == "#DONE");
                if stopped && stage < last && st.host.files.contains_key("checkpoint.bin") && !st.host.files.contains_key("checkpoint.trigger") {
                    *stops += 1;
                    // index of the interrupted call
                    let j = (0..p.steps.len()).filter(|&i| !matches!(p.steps[i], Step::Select(_))).nth(recs.len() - 1).unwrap();
                    if !prep.contains_key(&(stage + 1, j)) {
                        eng.touched = touched.remove(c.chain[stage + 1]).unwrap_or_default();
                        let mut n = harness_state(&vms[stage + 1], p, &g, restore_script(&p.argv, &p.steps, j));
                        n.host.env = env.clone();
                        n.host.file_v("args.bin", args[args_before(&p.steps, j)..].to_vec());
                        poll_file(eng, &mut n, if stage + 1 < last { Some(stage + 1) } else { None });
                        prefix(eng, &mut n, "#RESTORE").map_err(|e| format!("restoring process: {}", e))?;
                        touched.insert(c.chain[stage + 1].into(), std::mem::take(&mut eng.touched));
                        prep.insert((stage + 1, j), n);
                    }
                    let mut n = prep[&(stage + 1, j)].clone();
                    n.adopt(&st);
                    n.max_steps = n.steps + p.max_steps;
                    n.host.trace = st.host.trace.clone();
                    n.host.files.insert("checkpoint.bin".into(), st.host.files["checkpoint.bin"].clone());
                    if stage + 1 < last && c.max_polls > 0 {
                        let (t, k) = (eng.cx.var(&format!("request{}", stage + 1), 32), eng.cx.k(c.max_polls as u64, 32));
                        let b = eng.cx.ult(t, k);
                        eng.constrain(&mut n, b);
                    }
                    for f in ["args.bin", "poll.bin", "checkpoint.bin"] { eng.settle_file(&mut n, f); }
                    let mut o: Vec<V> = st.host.files["out.bin"].to_vec();
                    o.truncate(o.len() - 2);
                    work.push((stage + 1, j, o, n));
                    continue;
                }
                let f = Final { recs, out, st };
                if let Some(v) = judge(eng, p, &mode, &g, r, &f, counts)? { return Ok(v); }
            }
        }
    }
    Ok(Verdict::Pass)
}

/// A guest with more than `bound` instructions of work left: every process must
/// be stopped by its request (`stop`), or none may (no request, or checkpoints off).
#[derive(Clone)]
pub struct Honour { pub prog: Prog, pub chain: Vec<&'static str>, pub stop: bool, pub trigger: bool, pub flags: u8, pub polls: Vec<u64> }

pub fn honour_jobs(v: Vec<Honour>) -> Vec<Job> {
    v.into_iter().map(|c| Job { name: format!("{} [{}]", c.prog.name, c.chain.join(">")), run: Box::new(move |w| {
        let vms: Vec<Rc<Module>> = c.chain.iter().map(|m| w.vm(m)).collect();
        let mut touched = std::mem::take(&mut w.touched);
        let mut counts = std::mem::take(&mut w.counts);
        let mut eng = Eng::new();
        let mut stops = 0;
        let r = honour(&mut eng, &vms, &c, &mut counts, &mut touched, &mut stops);
        w.stats.add(&eng.sol.stats);
        counts.steps += eng.total_steps;
        w.touched = touched;
        w.counts = counts;
        w.add("checkpoint_points", stops);
        match r { Ok(v) => v, Err(e) => Verdict::Inconclusive(format!("{} [{}]: {}", c.prog.name, c.chain.join(">"), e)) }
    }) }).collect()
}

fn judge_honour(v: &Violation, status: i32, out: &[u8], _o: &str) -> Result<String, String> {
    let got = concrete_recs(&v.steps, out);
    if status < 0 || (125..=127).contains(&status) { return Err(format!("the replay could not run (status {})", status)); }
    let end = match status { 0 => "".to_string(), 124 => "no termination within 30 s".into(), n => format!("exit({})", n) };
    let g = format!("{} {}", got.join("; "), end);
    let stopped = status == 0 && got.last().map(|x| x.as_str()) == Some("checkpoint stop");
    let completed = status == 0 && got.last().map_or(false, |x| x.starts_with("ok"));
    if if v.exp[0] == "checkpoint stop" { stopped } else { completed } { Err(format!("the real build agrees with the expectation: {}", g)) } else { Ok(g) }
}

fn honour(eng: &mut Eng, vms: &[Rc<Module>], c: &Honour, counts: &mut Counts, touched: &mut BTreeMap<String, Vec<bool>>, stops: &mut u64) -> Result<Verdict, String> {
    let mut prog = c.prog.clone();
    for s in prog.steps.iter_mut() { if let Step::Call { flags, .. } = s { *flags |= c.flags; } }
    let p = &prog;
    let g = p.guest(&mut eng.cx)?;
    counts.programs += 1;
    counts.guest_paths += 1;
    let args = p.args_file(&mut eng.cx);
    let env = env_of(eng, p);
    let mut prep: BTreeMap<usize, State> = Default::default();
    let mut work: Vec<(usize, Option<State>)> = vec![(0, None)];
    while let Some((stage, from)) = work.pop() {
        let m = c.chain[stage];
        eng.touched = touched.remove(m).unwrap_or_default();
        if !prep.contains_key(&stage) {
            let mut n = harness_state(&vms[stage], p, &g, if stage == 0 { p.script() } else { restore_script(&p.argv, &p.steps, 0) });
            n.host.env = env.clone();
            n.host.file_v("args.bin", if stage == 0 { args.clone() } else { args[args_before(&p.steps, 0)..].to_vec() });
            poll_file(eng, &mut n, if c.stop { Some(stage) } else { None });
            if c.trigger { n.host.file("checkpoint.trigger", &[]); }
            prefix(eng, &mut n, if stage == 0 { "#ARGS" } else { "#RESTORE" })?;
            prep.insert(stage, n);
        }
        let mut st = prep[&stage].clone();
        if let Some(o) = &from {
            st.adopt(o);
            st.host.files.insert("checkpoint.bin".into(), o.host.files["checkpoint.bin"].clone());
        }
        if c.stop {
            let (t, k) = (eng.cx.var(&format!("request{}", stage), 32), eng.cx.k(c.polls[stage], 32));
            let b = eng.cx.ult(t, k);
            eng.constrain(&mut st, b);
        } else if from.is_none() { for a in (p.assume.clone()).iter() { for t in a(&mut eng.cx) { eng.constrain(&mut st, t); } } }
        for f in ["args.bin", "poll.bin", "checkpoint.bin"] { eng.settle_file(&mut st, f); }
        st.max_steps = st.steps + p.max_steps;
        let fins = drive(eng, st, 4096, &mut |_, st, mk| { if mk == "#REQUEST" { st.host.guest = false; } true });
        touched.insert(m.into(), std::mem::take(&mut eng.touched));
        for (out, st) in fins? {
            counts.vm_paths += 1;
            counts.obligations += 1;
            if let Out::Unsup(m) = &out { return Err(format!("engine: {} at {}", m, st.backtrace())); }
            let o: Vec<V> = st.host.files.get("out.bin").map(|b| b.to_vec()).unwrap_or_default();
            // parse and instantiation flags, then the record of the interrupted call
            let tag = o.get(2).copied();
            if matches!(out, Out::Steps) && !c.stop { return Err("step bound reached".into()); }
            let done = matches!(&out, Out::Marker(m) if m == "#DONE");
            let is = |k: u64| done && tag.map_or(false, |t| t.t == 0 && t.c == k);
            let file = st.host.files.contains_key("checkpoint.bin") && !st.host.files.contains_key("checkpoint.trigger");
            let ok = if c.stop { is(2) && file } else { is(0) && !st.host.files.contains_key("checkpoint.bin") };
            eng.sol.stats.prop_queries += 1;
            if ok {
                if c.stop { *stops += 1; }
                counts.trivial += 1;
                eng.sol.stats.prop_unsat += 1;
                if stage + 1 < c.chain.len() { work.push((stage + 1, Some(st))); }
                continue;
            }
            match eng.sol.check(&eng.cx, &st.pc, &[]) {
                Res::Unsat => { eng.sol.stats.prop_unsat += 1; }
                Res::Unknown => return Err("solver gave up deciding reachability".into()),
                Res::Sat(md) => {
                    let what = if c.stop { format!("process {}: the pending request did not stop the execution within the bound", stage) } else { "the execution was interrupted although no request applies".to_string() };
                    let f = Final { recs: vec![], out, st };
                    let r = Final { recs: vec![], out: Out::Done(vec![]), st: f.st.clone() };
                    let Verdict::Viol(mut v) = viol(eng, p, &c.chain.join(">"), &g, &r, &f, Some(md), what) else { unreachable!() };
                    v.exp = vec![if c.stop { "checkpoint stop" } else { "completion" }.to_string()];
                    v.expected = v.exp[0].clone();
                    v.judge = judge_honour;
                    if c.trigger { v.more_files.push(("checkpoint.trigger".into(), vec![])); }
                    v.chain = c.chain.iter().map(|x| x.to_string()).collect();
                    return Ok(Verdict::Viol(v));
                }
            }
        }
    }
    Ok(Verdict::Pass)
}
