//! Incremental SMT solver driver (z3 over a pipe) with a one-shot fallback
//! portfolio (fresh z3, then cvc5) for queries the incremental core gives up on.
use crate::term::*;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub oneshot: u64,
    pub time_s: f64,
    pub max_s: f64,
    /// feasibility (branch) queries versus obligation (property) queries
    pub branch_queries: u64,
    pub prop_queries: u64,
    pub prop_unsat: u64,
    /// answers taken over from an identical query of another program
    pub reused: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries; self.sat += o.sat; self.unsat += o.unsat; self.unknown += o.unknown;
        self.oneshot += o.oneshot; self.time_s += o.time_s; self.max_s = self.max_s.max(o.max_s);
        self.branch_queries += o.branch_queries; self.prop_queries += o.prop_queries; self.prop_unsat += o.prop_unsat; self.reused += o.reused;
    }
}

/// Decisions shared between the worker threads: structural hash of the query -> answer
/// (with the model by variable name).  Only answers of the solver itself are entered.
enum Memo { Sat(Vec<(String, u64)>), Unsat }
static CACHE: std::sync::LazyLock<std::sync::Mutex<std::collections::HashMap<u128, Memo>>> = std::sync::LazyLock::new(Default::default);
fn mix(h: u128, x: u128) -> u128 {
    let y = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835);
    (y ^ (y >> 61)).wrapping_mul(0xC2B2_AE3D_27D4_EB4F_1656_67B1_9E37_79F9).rotate_left(47) ^ y
}
fn mixs(mut h: u128, s: &[u8]) -> u128 { for &b in s { h = mix(h, b as u128 + 1); } mix(h, s.len() as u128) }

/// Factor on the time limits (raised when undecided obligations are tried again).
pub static PATIENCE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);

pub enum Res { Sat(Rc<Model>), Unsat, Unknown }

struct Proc { child: Child, inp: BufWriter<ChildStdin>, out: BufReader<ChildStdout> }

pub struct Solver {
    p: Option<Proc>,
    defined: Vec<bool>,
    vdecl: usize,
    stack: Vec<T>,
    pub inc_timeout_ms: u32,
    pub one_timeout_s: u32,
    cur_timeout: u32,
    pub stats: Stats,
    nq: u64,
    hashes: Vec<u128>,
}

fn z3_bin() -> String { std::env::var("WSYM_Z3").unwrap_or_else(|_| "z3-new".into()) }

impl Drop for Solver { fn drop(&mut self) { self.kill() } }

impl Solver {
    pub fn new() -> Solver {
        Solver { p: None, defined: Vec::new(), vdecl: 0, stack: Vec::new(), inc_timeout_ms: std::env::var("WSYM_INC_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(4000), one_timeout_s: 120, cur_timeout: 0, stats: Stats::default(), nq: 0, hashes: Vec::new() }
    }
    fn kill(&mut self) {
        if let Some(mut p) = self.p.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    /// Forget everything (new term context or new program).
    pub fn reset(&mut self) {
        self.kill();
        self.defined.clear(); self.vdecl = 0; self.stack.clear(); self.cur_timeout = 0; self.hashes.clear();
    }
    fn start(&mut self) {
        let mut child = Command::new(z3_bin()).arg("-in").arg("-smt2")
            .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start z3");
        let inp = BufWriter::new(child.stdin.take().unwrap());
        let out = BufReader::new(child.stdout.take().unwrap());
        self.p = Some(Proc { child, inp, out });
        self.defined.clear(); self.vdecl = 0; self.stack.clear(); self.cur_timeout = 0;
        let p = self.p.as_mut().unwrap();
        p.inp.write_all(b"(set-option :global-declarations true)\n").unwrap();
    }
    fn defs(cx: &Cx, defined: &mut Vec<bool>, vdecl: &mut usize, roots: &[T], out: &mut String) {
        while *vdecl < cx.vars.len() {
            let v = &cx.vars[*vdecl];
            out.push_str(&format!("(declare-const v{} {})\n", *vdecl, cx.smt_sort(v.t)));
            *vdecl += 1;
        }
        if defined.len() < cx.nodes.len() { defined.resize(cx.nodes.len(), false); }
        // iterative post-order over undefined nodes
        let mut st: Vec<T> = roots.to_vec();
        while let Some(&t) = st.last() {
            if t == 0 || defined[t as usize] { st.pop(); continue; }
            let n = cx.n(t);
            if matches!(n.op, Op::Const(_) | Op::Var(_)) { defined[t as usize] = true; st.pop(); continue; }
            let mut ready = true;
            for x in [n.a, n.b, n.c] { if x != 0 && !defined[x as usize] { st.push(x); ready = false; } }
            if !ready { continue; }
            out.push_str(&format!("(define-fun t{} () {} {})\n", t, cx.smt_sort(t), cx.smt_body(t)));
            defined[t as usize] = true;
            st.pop();
        }
    }
    fn read_line(&mut self) -> Option<String> {
        let mut s = String::new();
        match self.p.as_mut().unwrap().out.read_line(&mut s) { Ok(n) if n > 0 => Some(s.trim().to_string()), _ => None }
    }
    fn read_sexp(&mut self) -> Option<String> {
        let mut s = String::new();
        let mut depth = 0i32;
        loop {
            let l = self.read_line()?;
            for ch in l.chars() { if ch == '(' { depth += 1 } else if ch == ')' { depth -= 1 } }
            s.push_str(&l); s.push(' ');
            if depth <= 0 { return Some(s); }
        }
    }
    /// Satisfiability of the conjunction of `pc` and `extra`.
    pub fn check(&mut self, cx: &Cx, pc: &[T], extra: &[T]) -> Res {
        let t0 = Instant::now();
        self.stats.queries += 1;
        for &t in pc.iter().chain(extra) {
            if cx.cv(t) == Some(0) { self.stats.unsat += 1; return Res::Unsat; }
        }
        let key = self.key(cx, pc, extra);
        if let Some(m) = CACHE.lock().unwrap().get(&key) {
            self.stats.reused += 1;
            return match m {
                Memo::Unsat => { self.stats.unsat += 1; Res::Unsat }
                Memo::Sat(v) => { self.stats.sat += 1; Res::Sat(Rc::new(Model::new(cx.vars.iter().map(|x| v.iter().find(|y| y.0 == x.name).map_or(0, |y| y.1)).collect()))) }
            };
        }
        let mut r = self.check_inc(cx, pc, extra);
        if let Res::Unknown = r {
            self.stats.oneshot += 1;
            let mut all: Vec<T> = pc.to_vec();
            all.extend_from_slice(extra);
            r = oneshot(cx, &all, self.one_timeout_s * PATIENCE.load(std::sync::atomic::Ordering::Relaxed));
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time_s += dt;
        if dt > self.stats.max_s { self.stats.max_s = dt; }
        if dt > 0.02 {
            match &r {
                Res::Unsat => { CACHE.lock().unwrap().insert(key, Memo::Unsat); }
                Res::Sat(m) => { CACHE.lock().unwrap().insert(key, Memo::Sat(cx.vars.iter().enumerate().map(|(i, v)| (v.name.clone(), m.vals.get(i).copied().unwrap_or(0))).collect())); }
                Res::Unknown => {}
            }
        }
        match &r { Res::Sat(_) => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        if std::env::var("WSYM_SLOW").is_ok() && dt > 1.0 {
            eprintln!("slow query {:.2}s pc={} extra={:?}", dt, pc.len(), extra);
        }
        r
    }
    fn key(&mut self, cx: &Cx, pc: &[T], extra: &[T]) -> u128 {
        for i in self.hashes.len()..cx.nodes.len() {
            let n = &cx.nodes[i];
            let mut h = match n.op {
                Op::Var(k) => mixs(1, cx.vars[k as usize].name.as_bytes()),
                op => {
                    use std::hash::{Hash, Hasher};
                    let mut s = std::collections::hash_map::DefaultHasher::new();
                    op.hash(&mut s);
                    mix(2, s.finish() as u128)
                }
            };
            h = mix(h, n.w as u128 + 7);
            for x in [n.a, n.b, n.c] { h = mix(h, if x == 0 { 3 } else { self.hashes[x as usize] }); }
            self.hashes.push(h);
        }
        let mut v: Vec<u128> = pc.iter().chain(extra).map(|t| self.hashes[*t as usize]).collect();
        v.sort_unstable();
        v.dedup();
        v.iter().fold(5, |h, x| mix(h, *x))
    }
    fn check_inc(&mut self, cx: &Cx, pc: &[T], extra: &[T]) -> Res {
        self.nq += 1;
        if self.p.is_none() || self.nq % 4000 == 0 { self.kill(); self.start(); }
        let mut s = String::new();
        let mut common = 0;
        while common < self.stack.len() && common < pc.len() && self.stack[common] == pc[common] { common += 1; }
        if self.stack.len() > common { s.push_str(&format!("(pop {})\n", self.stack.len() - common)); self.stack.truncate(common); }
        if self.cur_timeout != self.inc_timeout_ms {
            s.push_str(&format!("(set-option :timeout {})\n", self.inc_timeout_ms));
            self.cur_timeout = self.inc_timeout_ms;
        }
        let mut roots: Vec<T> = pc[common..].to_vec();
        roots.extend_from_slice(extra);
        Self::defs(cx, &mut self.defined, &mut self.vdecl, &roots, &mut s);
        for &t in &pc[common..] {
            s.push_str(&format!("(push 1)\n(assert {})\n", cx.smt_ref(t)));
            self.stack.push(t);
        }
        s.push_str("(push 1)\n");
        for &t in extra { s.push_str(&format!("(assert {})\n", cx.smt_ref(t))); }
        s.push_str("(check-sat)\n");
        let p = self.p.as_mut().unwrap();
        if p.inp.write_all(s.as_bytes()).is_err() || p.inp.flush().is_err() { self.kill(); return Res::Unknown; }
        let line = match self.read_line() { Some(l) => l, None => { self.kill(); return Res::Unknown; } };
        let r = match line.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                if cx.vars.is_empty() { Res::Sat(Rc::new(Model::new(vec![]))) } else {
                    let mut q = String::from("(get-value (");
                    for i in 0..cx.vars.len() { q.push_str(&format!("v{} ", i)); }
                    q.push_str("))\n");
                    let p = self.p.as_mut().unwrap();
                    let _ = p.inp.write_all(q.as_bytes());
                    let _ = p.inp.flush();
                    match self.read_sexp() {
                        Some(m) => Res::Sat(Rc::new(Model::new(parse_values(&m, cx.vars.len())))),
                        None => { self.kill(); return Res::Unknown; }
                    }
                }
            }
            "unknown" | "timeout" => Res::Unknown,
            other => {
                eprintln!("solver said: {}", other);
                self.kill();
                return Res::Unknown;
            }
        };
        let p = self.p.as_mut().unwrap();
        let _ = p.inp.write_all(b"(pop 1)\n");
        r
    }
}

fn parse_values(s: &str, n: usize) -> Vec<u64> {
    let mut vals = vec![0u64; n];
    let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if toks[i].starts_with('v') {
            if let Ok(id) = toks[i][1..].parse::<usize>() {
                let v = toks[i + 1];
                let val = if v == "true" { Some(1) } else if v == "false" { Some(0) }
                    else if let Some(h) = v.strip_prefix("#x") { u64::from_str_radix(h, 16).ok() }
                    else if let Some(b) = v.strip_prefix("#b") { u64::from_str_radix(b, 2).ok() } else { None };
                if let (Some(val), true) = (val, id < n) { vals[id] = val; }
                i += 2;
                continue;
            }
        }
        i += 1;
    }
    vals
}

/// Script for a stand-alone query.
pub fn script(cx: &Cx, asserts: &[T], model: bool) -> String {
    let mut s = String::from("(set-logic QF_BVFP)\n");
    if model { s = format!("(set-option :produce-models true)\n{}", s); }
    let mut defined = Vec::new();
    let mut vd = 0;
    Solver::defs(cx, &mut defined, &mut vd, asserts, &mut s);
    for &t in asserts { s.push_str(&format!("(assert {})\n", cx.smt_ref(t))); }
    s.push_str("(check-sat)\n");
    if model && !cx.vars.is_empty() {
        s.push_str("(get-value (");
        for i in 0..cx.vars.len() { s.push_str(&format!("v{} ", i)); }
        s.push_str("))\n");
    }
    s
}

fn oneshot(cx: &Cx, asserts: &[T], timeout_s: u32) -> Res {
    let sc = script(cx, asserts, true);
    // cvc5 has no fp.to_ieee_bv, so it joins only when no FP result is converted back
    let fp_free = !sc.contains("fp.to_ieee_bv");
    let z3 = vec!["-in".into(), "-smt2".into(), format!("-T:{}", timeout_s)];
    // the same strategy as in the incremental process, and the one for stand-alone queries:
    // either may be the only one to finish
    let inc: String = sc.lines().filter(|l| !l.starts_with("(set-logic")).map(|l| format!("{}\n", l)).collect::<String>().replacen("(declare", "(push 1)\n(declare", 1);
    let mut cmds: Vec<(String, Vec<String>, &str)> = vec![(z3_bin(), z3.clone(), &inc), (z3_bin(), z3, &sc)];
    if fp_free {
        cmds.push(("cvc5".into(), vec!["--lang=smt2".into(), format!("--tlimit={}", timeout_s as u64 * 1000), "-".into()], &sc));
    }
    let mut kids = Vec::new();
    let (tx, rx) = std::sync::mpsc::channel();
    for (c, a, sc) in cmds {
        let Ok(mut ch) = Command::new(&c).args(&a).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { continue };
        let mut inp = ch.stdin.take().unwrap();
        let sc2 = sc.to_string();
        std::thread::spawn(move || { let _ = inp.write_all(sc2.as_bytes()); });
        let mut out = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut out, &mut s); let _ = tx.send(s); });
        kids.push(ch);
    }
    drop(tx);
    let mut res = Res::Unknown;
    for s in rx.iter() {
        let first = s.lines().next().unwrap_or("").trim().to_string();
        if first == "unsat" { res = Res::Unsat; break; }
        if first == "sat" {
            let rest: String = s.lines().skip(1).collect::<Vec<_>>().join(" ");
            res = Res::Sat(Rc::new(Model::new(parse_values(&rest, cx.vars.len()))));
            break;
        }
    }
    for mut k in kids { let _ = k.kill(); let _ = k.wait(); }
    res
}
