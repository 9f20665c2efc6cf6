//! Check driver: distributes the obligations of one property over worker
//! threads, replays counterexamples on the real build, writes the evidence.
use crate::diff::*;
use crate::solver::Stats;
use crate::wasm::Module;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// Worker-local context.
pub struct W {
    pub build: PathBuf,
    mods: BTreeMap<String, Rc<Module>>,
    pub counts: Counts,
    pub stats: Stats,
    pub touched: BTreeMap<String, Vec<bool>>,
    pub samples: Vec<String>,
    pub extra: BTreeMap<String, u64>,
}
impl W {
    pub fn vm(&mut self, mode: &str) -> Rc<Module> {
        if let Some(m) = self.mods.get(mode) { return m.clone(); }
        let b = std::fs::read(self.build.join(format!("{}.wasm", mode))).unwrap_or_else(|e| panic!("{}.wasm: {}", mode, e));
        let m = Rc::new(Module::decode(&b, &Default::default()).unwrap_or_else(|e| panic!("{}.wasm: {}", mode, e)));
        self.mods.insert(mode.into(), m.clone());
        m
    }
    pub fn add(&mut self, k: &str, n: u64) { *self.extra.entry(k.into()).or_default() += n; }
}

pub struct Job { pub name: String, pub run: Box<dyn Fn(&mut W) -> Verdict + Send> }

/// One property's check.
pub struct Check {
    pub level: &'static str,
    pub jobs: Vec<Job>,
    pub rule: String,
    pub outside: Vec<String>,
    /// how many of the guest functions/programs the enumeration produced
    pub enumerated: u64,
}

pub fn diff_jobs(progs: Vec<Prog>) -> Vec<Job> {
    let mut v = vec![];
    for p in progs {
        for m in p.modes.clone() {
            let p = p.clone();
            v.push(Job { name: format!("{} [{}]", p.name, m), run: Box::new(move |w| {
                let vm = w.vm(m);
                let mut touched = w.touched.remove(m).unwrap_or_default();
                let mut stats = std::mem::take(&mut w.stats);
                let mut counts = std::mem::take(&mut w.counts);
                let r = check_prog(&vm, m, &p, &mut counts, &mut stats, &mut touched);
                w.touched.insert(m.into(), touched);
                w.stats = stats;
                w.counts = counts;
                r
            }) });
        }
    }
    v
}

/// Replays a violation on the compiled program under wasmtime; Some(description) when it reproduces.
pub fn replay(build: &Path, v: &Violation) -> Result<String, String> {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    if let Some(c) = &v.confirmed { return Ok(c.clone()); }
    let d = build.join(format!("replay-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let run_with = |mode: &str, cli: &[String]| -> Result<(i32, String), String> {
        let mut c = std::process::Command::new("timeout");
        c.arg("30").arg("wasmtime").arg("run").arg("-W").arg(format!("tail-call=y,max-wasm-stack={},multi-memory=y", v.max_stack)).arg("--dir").arg(".");
        for e in &v.env { c.arg("--env").arg(e); }
        c.arg(build.join(format!("{}.wasm", mode))).args(cli);
        let o = c.current_dir(&d).stdin(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
        Ok((o.status.code().unwrap_or(-1), o.stdout.iter().map(|&b| b as char).collect()))
    };
    let run = |mode: &str| run_with(mode, &v.cli);
    let go = || -> Result<String, String> {
        for (n, b) in v.files() { std::fs::write(d.join(n), b).map_err(|e| e.to_string())?; }
        if v.mode.starts_with("cli") {
            for b in &v.before {
                std::fs::write(d.join("checkpoint.trigger"), b"").map_err(|e| e.to_string())?;
                run_with(&v.mode, b)?;
                let _ = std::fs::remove_file(d.join("checkpoint.trigger"));
            }
            let (status, stdout) = run(&v.mode)?;
            return (v.judge)(v, status, &[], &stdout);
        }
        if v.chain.is_empty() {
            let (status, stdout) = run(&v.mode)?;
            if !d.join("out.bin").exists() && status == 1 { return Err("the replay could not start".into()); }
            let out = std::fs::read(d.join("out.bin")).unwrap_or_default();
            return (v.judge)(v, status, &out, &stdout);
        }
        // a checkpointed execution: one process after the other
        let mut pre: Vec<u8> = vec![];
        let mut res = (0, String::new());
        for (i, m) in v.chain.iter().enumerate() {
            let k = *v.vals.get(&format!("request{}", i)).unwrap_or(&0xffff_ffff) as u32;
            std::fs::write(d.join("poll.bin"), k.to_le_bytes()).map_err(|e| e.to_string())?;
            let _ = std::fs::remove_file(d.join("out.bin"));
            res = run(m)?;
            let out = std::fs::read(d.join("out.bin")).unwrap_or_default();
            if i == 0 { pre = out; } else { pre.extend(out.iter().skip(2)); }
            let recs = concrete_recs(&v.steps, &pre);
            if i + 1 == v.chain.len() || recs.last().map(|x| x.as_str()) != Some("checkpoint stop") || !d.join("checkpoint.bin").exists() || d.join("checkpoint.trigger").exists() { break; }
            let j = (0..v.steps.len()).filter(|&i| !matches!(v.steps[i], Step::Select(_))).nth(recs.len() - 1).unwrap();
            pre.truncate(pre.len() - 2);
            std::fs::write(d.join("script.bin"), crate::ckpt::restore_script(&v.argv, &v.steps, j)).map_err(|e| e.to_string())?;
            std::fs::write(d.join("args.bin"), &v.args[crate::ckpt::args_before(&v.steps, j)..]).map_err(|e| e.to_string())?;
        }
        (v.judge)(v, res.0, &pre, &res.1)
    };
    let r = go();
    let _ = std::fs::remove_dir_all(&d);
    r
}

fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}

pub fn main(a: &[String]) -> i32 {
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let id = a.get(1).cloned().unwrap_or_default();
    let tier = get("--tier").unwrap_or("quick".into());
    let build = PathBuf::from(get("--build").unwrap_or("/verif/build".into()));
    let build = build.canonicalize().unwrap_or(build);
    let evdir = PathBuf::from(get("--evidence").unwrap_or("/verif/evidence".into()));
    let known = get("--known").unwrap_or("/verif/known_findings.txt".into());
    let only = get("--only");
    let verbose = a.iter().any(|x| x == "-v");
    let keep_going = a.iter().any(|x| x == "--all");
    let nthreads = get("-j").and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let Some(mut chk) = crate::props::check(&id, &tier) else { eprintln!("unknown property {}", id); return 2 };
    if let Some(o) = &only { chk.jobs.retain(|j| j.name.contains(o.as_str())); }
    // known findings of this property: "open: property=ID program=NAME ..."
    let mut open: Vec<(String, String)> = vec![];
    for l in std::fs::read_to_string(&known).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("open: ") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("").to_string();
            let g = it.next().unwrap_or("").strip_prefix("program=").unwrap_or("").to_string();
            if p == id { open.push((g, it.next().unwrap_or("").to_string())); }
        }
    }
    let progress = std::env::var_os("WSYM_JOBS").is_some();
    let njobs = chk.jobs.len();
    // neighbouring jobs are alike: spread them, so that identical queries meet the cache
    let k = 8 * nthreads;
    let mut spread: Vec<Vec<Job>> = (0..k).map(|_| vec![]).collect();
    for (i, j) in chk.jobs.drain(..).enumerate() { spread[i * k / njobs.max(1)].push(j); }
    let mut its: Vec<_> = spread.into_iter().map(|v| v.into_iter()).collect();
    while chk.jobs.len() < njobs { for it in its.iter_mut() { chk.jobs.extend(it.next()); } }
    let q: Arc<Mutex<VecDeque<(Job, bool)>>> = Arc::new(Mutex::new(chk.jobs.into_iter().map(|j| (j, false)).collect()));
    let stop = Arc::new(AtomicBool::new(false));
    let results: Arc<Mutex<Vec<(String, Verdict, f64)>>> = Default::default();
    let mut hs = vec![];
    for _ in 0..nthreads.min(njobs.max(1)) {
        let (q, stop, results, build, open) = (q.clone(), stop.clone(), results.clone(), build.clone(), open.clone());
        hs.push(std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
            let mut w = W { build, mods: Default::default(), counts: Default::default(), stats: Default::default(), touched: Default::default(), samples: vec![], extra: Default::default() };
            loop {
                if stop.load(SeqCst) { break; }
                let Some((j, again)) = q.lock().unwrap().pop_front() else { break };
                if again { crate::solver::PATIENCE.store(2, SeqCst); }
                let t = Instant::now();
                let name = j.name.clone();
                if progress { eprintln!("start {}", name); }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.run)(&mut w)));
                let v = match r { Ok(v) => v, Err(e) => Verdict::Inconclusive(format!("{}: the checker itself panicked: {}", name, e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
                if let Verdict::Viol(x) = &v { if !keep_going && !open.iter().any(|o| o.0 == x.prog) { stop.store(true, SeqCst); } }
                if progress { eprintln!("done {:.1}s {}", t.elapsed().as_secs_f64(), name); }
                if let Verdict::Inconclusive(e) = &v {
                    // undecided in time (a loaded machine): once more, with more patience
                    if !again && e.contains("solver gave up") && t0.elapsed().as_secs() < 300 { q.lock().unwrap().push_back((j, true)); continue; }
                }
                results.lock().unwrap().push((name, v, t.elapsed().as_secs_f64()));
            }
            // Rc's must not leave the thread
            (w.counts, w.stats, w.touched, w.samples, w.extra)
        }).unwrap());
    }
    let mut counts = Counts::default();
    let mut stats = Stats::default();
    let mut touched: BTreeMap<String, Vec<bool>> = Default::default();
    let mut samples: Vec<String> = vec![];
    let mut extra: BTreeMap<String, u64> = Default::default();
    let mut broken = vec![];
    // after a violation, obligations still being solved are abandoned after a grace period
    let mut grace = 0;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(std::time::Duration::from_millis(20));
        if stop.load(SeqCst) { grace += 1; if grace > 500 { break; } }
    }
    for h in hs {
        if !h.is_finished() { continue; }
        match h.join() {
            Ok((c, s, t, sm, ex)) => {
                counts.add(&c);
                stats.add(&s);
                samples.extend(sm);
                for (k, v) in ex { *extra.entry(k).or_default() += v; }
                for (m, v) in t {
                    let e = touched.entry(m).or_default();
                    if e.len() < v.len() { e.resize(v.len(), false); }
                    for (i, x) in v.iter().enumerate() { if *x { e[i] = true; } }
                }
            }
            Err(_) => broken.push("a worker thread died".to_string()),
        }
    }
    let mut results = std::mem::take(&mut *results.lock().unwrap());
    results.sort_by(|a, b| a.0.cmp(&b.0));
    let mut viol = 0;
    let mut code = 0;
    let mut slow: Vec<(f64, String)> = results.iter().map(|r| (r.2, r.0.clone())).collect();
    slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    if verbose { for (t, n) in slow.iter().take(8) { eprintln!("  {:7.2}s {}", t, n); } }
    let mut known_hit: BTreeSet<String> = BTreeSet::new();
    for (name, v, _) in results {
        match v {
            Verdict::Pass => {}
            Verdict::Inconclusive(e) => { eprintln!("INCONCLUSIVE {}: {}", name, e); broken.push(e); }
            Verdict::Viol(x) => {
                let conf = replay(&build, &x);
                let line = format!("{} [{}]: {}\n    inputs: {}\n    expected: {}\n    predicted: {}", x.prog, x.mode, x.what, x.vals.iter().map(|(k, v)| format!("{}={:#x}", k, v)).collect::<Vec<_>>().join(" "), cut(&x.expected), cut(&x.got));
                match conf {
                    Err(e) => { eprintln!("UNCONFIRMED {}\n    replay: {}", line, cut(&e)); broken.push(format!("counterexample did not reproduce: {}", x.prog)); }
                    Ok(c) => {
                        if let Some(o) = open.iter().find(|o| o.0 == x.prog) {
                            if known_hit.insert(o.0.clone()) { println!("KNOWN-FINDING: property={} {} {}", id, o.0, o.1); }
                            if verbose { eprintln!("{}\n    replay: {}", line, cut(&c)); }
                            continue;
                        }
                        viol += 1;
                        code = 1;
                        let rp = build.join("violations").join(&id);
                        let rp = rp.join(x.prog.replace(|c: char| !c.is_ascii_alphanumeric(), "_"));
                        let _ = std::fs::create_dir_all(&rp);
                        for (n, b) in x.files() { let _ = std::fs::write(rp.join(n), b); }
                        let _ = std::fs::write(rp.join("report.txt"), format!("{}\n    replay on the real build: {}\nrun: cd {} && wasmtime run -W tail-call=y --dir . {} {:?}\n", line, c, rp.display(), build.join(format!("{}.wasm", x.mode)).display(), x.cli));
                        if viol == 1 || keep_going { println!("VIOLATION property={} replay={}", id, rp.join("report.txt").display()); }
                        eprintln!("{}\n    replay on the real build: {}", line, cut(&c));
                    }
                }
            }
        }
    }
    if code == 0 { for o in &open { if !known_hit.contains(&o.0) && only.is_none() { eprintln!("note: listed finding {} did not show up", o.0); } } }
    if code == 0 && !broken.is_empty() { code = 2; }
    // evidence
    let mut fns: BTreeSet<String> = BTreeSet::new();
    let mut nfun = 0;
    for (m, t) in &touched {
        let b = std::fs::read(build.join(format!("{}.wasm", m))).unwrap_or_default();
        if let Ok(md) = Module::decode(&b, &Default::default()) {
            for (i, x) in t.iter().enumerate() {
                if *x {
                    nfun += 1;
                    let n = &md.names[i];
                    if n.contains("chiwawa") { fns.insert(demangle(n)); }
                }
            }
        }
    }
    if samples.is_empty() { samples.push(format!("{} jobs, e.g. {}", njobs, slow.first().map(|x| x.1.clone()).unwrap_or_default())); }
    samples.truncate(12);
    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::new();
    let _ = write!(j, "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"wall_s\":{:.2},\"violations\":{},\"coverage\":{{", jesc(&id), jesc(&tier), seed, jesc(chk.level), wall, viol);
    let _ = write!(j, "\"programs\":{},\"disagreements_checked\":{},\"enumerated_guest_functions\":{},\"guest_paths\":{},\"interpreter_paths\":{},\"interpreter_wasm_instructions\":{},", counts.programs, counts.obligations, chk.enumerated.max(counts.programs), counts.guest_paths, counts.vm_paths, counts.steps);
    let _ = write!(j, "\"queries\":{{\"total\":{},\"branch_feasibility\":{},\"obligations\":{},\"obligations_unsat\":{},\"decided_by_rewriting\":{},\"unknown\":{},\"one_shot\":{},\"reused\":{}}},\"solver_s\":{:.2},\"solver_max_s\":{:.2},", stats.queries, stats.branch_queries, stats.prop_queries, stats.prop_unsat, counts.trivial, stats.unknown, stats.oneshot, stats.reused, stats.time_s, stats.max_s);
    let _ = write!(j, "\"evaluations\":{},\"distinct_nontrivial\":{},", counts.vm_paths, counts.vm_paths.saturating_sub(counts.trivial));
    for (k, v) in &extra { let _ = write!(j, "{}:{},", jesc(k), v); }
    let _ = write!(j, "\"functions_encoded\":{},\"chiwawa_functions_encoded\":[{}],", nfun, fns.iter().map(|x| jesc(x)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"rule\":{},\"samples\":[{}]}},", jesc(&chk.rule), samples.iter().map(|x| jesc(x)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"assumptions\":[{}]}}\n", chk.outside.iter().map(|x| jesc(x)).collect::<Vec<_>>().join(","));
    if only.is_none() {
        let _ = std::fs::create_dir_all(&evdir);
        if let Err(e) = std::fs::write(evdir.join(format!("{}.json", id)), j) { eprintln!("evidence: {}", e); code = code.max(2); }
    }
    eprintln!("{} [{}]: {} jobs, {} guest paths, {} interpreter paths, {} obligations ({} by rewriting), {} queries ({:.1}s solver), {} Msteps, {:.1}s wall -> {}",
        id, tier, njobs, counts.guest_paths, counts.vm_paths, counts.obligations, counts.trivial, stats.queries, stats.time_s, counts.steps / 1_000_000, wall,
        match code { 0 => "holds", 1 => "VIOLATED", _ => "INCONCLUSIVE" });
    code
}
pub fn cut(s: &str) -> String { if s.len() > 1500 { let mut n = 1500; while !s.is_char_boundary(n) { n -= 1; } format!("{}…", &s[..n]) } else { s.to_string() } }

fn demangle(n: &str) -> String {
    // legacy mangling: _ZN4core3fmt...17h<hash>E ; v0 names are kept as they are
    if let Some(r) = n.strip_prefix("_ZN") {
        let mut out: Vec<String> = vec![];
        let mut s = r;
        loop {
            let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
            if d.is_empty() { break; }
            let k: usize = d.parse().unwrap();
            let body = &s[d.len()..];
            if body.len() < k { break; }
            let part = &body[..k];
            if !(part.len() == 17 && part.starts_with('h')) { out.push(part.replace("..", "::")); }
            s = &body[k..];
        }
        return out.join("::");
    }
    n.to_string()
}
