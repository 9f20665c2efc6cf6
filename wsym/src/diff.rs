//! Differential obligations: the guest module executed directly by the symbolic
//! interpreter (WebAssembly semantics) against the same guest executed by the
//! compiled interpreter under test, over the same symbolic inputs.
use crate::exec::*;
use crate::host::*;
use crate::mem::*;
use crate::solver::Res;
use crate::term::*;
use crate::wasm::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Arg { Sym(String), K(u64) }
pub fn s(n: &str) -> Arg { Arg::Sym(n.to_string()) }

#[derive(Clone, Debug)]
pub enum Step {
    Call { name: String, args: Vec<(Ty, Arg)>, flags: u8 },
    Mem { start: u32, len: u32 },
    Globals,
    Table(u8),
    /// creates another instance of the module and makes it current
    Inst,
    /// makes instance k current
    Select(u8),
}

/// Symbolic immediate: a marker constant in the guest binary.
#[derive(Clone, Debug)]
pub enum Mark {
    /// i32.const marker written as 5-byte signed LEB
    I32(i32, String),
    I64(i64, String),
    F32(u32, String),
    F64(u64, String),
    /// memarg offset, 5-byte unsigned LEB
    Off(u32, String),
    /// number `x` behind the bytes `pre`, kept at its encoded length: (pre, x, signed, width, name)
    Leb(Vec<u8>, i64, bool, u8, String),
    /// raw data bytes: ASCII pattern, one 8-bit variable per byte
    Bytes(String, String),
}

pub type Assume = std::sync::Arc<dyn Fn(&mut Cx) -> Vec<T> + Send + Sync>;

#[derive(Clone)]
pub struct Prog {
    pub name: String,
    pub wat: String,
    /// raw module bytes instead of `wat`
    pub bytes: Option<Vec<u8>>,
    /// another encoding of the module handed to the interpreter (the reference takes the plain one)
    pub enc: Option<crate::reenc::Enc>,
    /// marks of the re-encoded module only
    pub enc_marks: Vec<Mark>,
    pub marks: Vec<Mark>,
    pub steps: Vec<Step>,
    pub argv: Vec<String>,
    pub env: Vec<(String, usize)>,
    pub assume: Option<Assume>,
    pub max_steps: u64,
    pub err_free: bool,
    /// which host calls must agree
    pub filter: fn(&Req) -> bool,
    pub modes: Vec<&'static str>,
}
impl Prog {
    pub fn new(name: &str, wat: &str) -> Prog {
        Prog { name: name.into(), wat: wat.into(), bytes: None, enc: None, enc_marks: vec![], marks: vec![], steps: vec![], argv: vec!["guest.wasm".into()], env: vec![], assume: None, max_steps: 60_000_000, err_free: false, filter: |_| true, modes: vec!["tco", "legacy"] }
    }
    pub fn call(mut self, n: &str, args: &[(Ty, Arg)]) -> Prog { self.steps.push(Step::Call { name: n.into(), args: args.to_vec(), flags: 0 }); self }
    pub fn callf(mut self, n: &str, args: &[(Ty, Arg)], flags: u8) -> Prog { self.steps.push(Step::Call { name: n.into(), args: args.to_vec(), flags }); self }
    pub fn mem(mut self, start: u32, len: u32) -> Prog { self.steps.push(Step::Mem { start, len }); self }
    pub fn globals(mut self) -> Prog { self.steps.push(Step::Globals); self }
    pub fn table(mut self, t: u8) -> Prog { self.steps.push(Step::Table(t)); self }
    pub fn inst(mut self) -> Prog { self.steps.push(Step::Inst); self }
    pub fn select(mut self, k: u8) -> Prog { self.steps.push(Step::Select(k)); self }
    pub fn mark(mut self, m: Mark) -> Prog { self.marks.push(m); self }
    pub fn assume(mut self, f: impl Fn(&mut Cx) -> Vec<T> + Send + Sync + 'static) -> Prog { self.assume = Some(std::sync::Arc::new(f)); self }
    pub fn args(mut self, a: &[&str]) -> Prog { self.argv = std::iter::once("guest.wasm".to_string()).chain(a.iter().map(|x| x.to_string())).collect(); self }
}

#[derive(Clone, Debug)]
pub enum Rec {
    /// instantiation failed
    NoInst,
    Ok(Vec<(u8, V)>),
    /// kind, host calls made so far
    Trap(String, usize),
    Ckpt,
    Mem { pages: u64, bytes: Vec<V> },
    Globals(Vec<(u8, V)>),
    Table(Vec<V>),
    NoExport,
    LoadFail,
    Inst,
}

/// Final configuration of one path.
pub struct Final { pub recs: Vec<Rec>, pub out: Out, pub st: State }

#[derive(Default, Clone, Debug)]
pub struct Counts {
    pub programs: u64,
    pub guest_paths: u64,
    pub vm_paths: u64,
    pub steps: u64,
    pub obligations: u64,
    pub trivial: u64,
}
impl Counts {
    pub fn add(&mut self, o: &Counts) {
        self.programs += o.programs; self.guest_paths += o.guest_paths; self.vm_paths += o.vm_paths;
        self.steps += o.steps; self.obligations += o.obligations; self.trivial += o.trivial;
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub prog: String,
    pub mode: String,
    pub what: String,
    pub vals: BTreeMap<String, u64>,
    pub wasm: Vec<u8>,
    pub args: Vec<u8>,
    pub script: Vec<u8>,
    pub steps: Vec<Step>,
    pub env: Vec<String>,
    pub cli: Vec<String>,
    /// concrete records expected / predicted for these inputs
    pub exp: Vec<String>,
    pub obs: Vec<String>,
    pub expected: String,
    pub got: String,
    /// decides from (violation, exit status, out.bin, stdout) whether the run shows the violation
    pub judge: fn(&Violation, i32, &[u8], &str) -> Result<String, String>,
    pub more_files: Vec<(String, Vec<u8>)>,
    pub confirmed: Option<String>,
    /// successive processes of a checkpointed execution: builds
    pub chain: Vec<String>,
    pub argv: Vec<String>,
    /// the guest made host calls, whose answers are part of the counterexample
    pub host: bool,
    /// host stack of the replay, in bytes
    pub max_stack: u32,
    /// arguments of the processes before the last (checkpointed command lines)
    pub before: Vec<Vec<String>>,
}
impl Violation {
    pub fn files(&self) -> Vec<(String, Vec<u8>)> {
        let mut v = vec![("guest.wasm".to_string(), self.wasm.clone()), ("args.bin".into(), self.args.clone()), ("script.bin".into(), self.script.clone())];
        v.extend(self.more_files.iter().cloned());
        v
    }
}

fn vtag(t: u8, x: u64) -> String {
    let n = ["i32", "i64", "f32", "f64", "ref", "ref"].get(t as usize).copied().unwrap_or("?");
    if t == 2 && x & 0x7fffffff > 0x7f800000 || t == 3 && x & (u64::MAX >> 1) > 0x7ff0 << 48 { return format!("{}:nan", n); }
    format!("{}:{:#x}", n, x)
}

/// Concrete reading of out.bin, in the vocabulary of `rec_str`.
pub fn concrete_recs(steps: &[Step], b: &[u8]) -> Vec<String> {
    let mut o = vec![];
    let le = |i: usize, n: usize| -> u64 { let mut r = 0; for j in 0..n { r |= (*b.get(i + j).unwrap_or(&0) as u64) << (8 * j); } r };
    if b.is_empty() { return o; }
    if b[0] == 0 || b.get(1) == Some(&0) { o.push("instantiation failure".into()); return o; }
    let mut i = 2;
    for s in steps {
        if i >= b.len() { break; }
        match s {
            Step::Call { .. } => {
                let (tag, n) = (b[i], le(i + 1, 1) as usize);
                i += 2;
                if tag == 0 {
                    let v: Vec<String> = (0..n).map(|k| { let p = i + 9 * k; let t = le(p, 1) as u8; vtag(t, if matches!(t, 1 | 3) { le(p + 1, 8) } else { le(p + 1, 4) }) }).collect();
                    i += 9 * n;
                    o.push(format!("ok({})", v.join(" ")));
                } else { o.push(["", "trap", "checkpoint stop", "missing export", "restore failure"][tag.min(4) as usize].into()); }
            }
            Step::Mem { len, .. } => {
                let l = *len as usize;
                o.push(format!("mem({} pages: {})", le(i, 4), (0..l).map(|k| format!("{:02x}", le(i + 4 + k, 1))).collect::<String>()));
                i += 4 + l;
            }
            Step::Globals => {
                let n = b[i] as usize;
                i += 1;
                let v: Vec<String> = (0..n).map(|k| { let p = i + 9 * k; let t = le(p, 1) as u8; vtag(t, if matches!(t, 1 | 3) { le(p + 1, 8) } else { le(p + 1, 4) }) }).collect();
                i += 9 * n;
                o.push(format!("globals({})", v.join(" ")));
            }
            Step::Table(_) => {
                let n = le(i, 4) as usize;
                o.push(format!("table({})", (0..n).map(|k| format!("{}", le(i + 4 + 4 * k, 4))).collect::<Vec<_>>().join(" ")));
                i += 4 + 4 * n;
            }
            Step::Inst => { o.push(if b[i] == 1 { "instance" } else { "instantiation failure" }.into()); i += 1; }
            Step::Select(_) => {}
        }
    }
    o
}

/// Does a concrete run show a disagreement with the expected records?
pub fn judge_recs(v: &Violation, status: i32, out: &[u8], _stdout: &str) -> Result<String, String> {
    let mut got = concrete_recs(&v.steps, out);
    if status < 0 || (125..=127).contains(&status) { return Err(format!("the replay could not run (status {})", status)); }
    let end = match status { 0 => "".to_string(), 124 => "no termination within 30 s".into(), 134 => "abort".into(), n => format!("exit({})", n) };
    if !end.is_empty() { got.push(end.clone()); }
    let g = got.join("; ");
    for (i, e) in v.exp.iter().enumerate() {
        match got.get(i) {
            None => return Ok(format!("{} (expected {} next)", g, e)),
            Some(x) if x == e => {}
            Some(x) if x == "abort" && (e == "trap" || e == "instantiation failure") => return Err(format!("the real build agrees with the expectation: {}", g)),
            Some(_) => return Ok(g),
        }
    }
    if got.len() > v.exp.len() && v.exp.last().map_or(true, |x| x != "instantiation failure") { return Ok(g); }
    Err(format!("the real build agrees with the expectation: {}", g))
}

pub enum Verdict { Pass, Viol(Violation), Inconclusive(String) }

/// Guest binary with symbolic substitutions.
pub struct Guest { pub bytes: Vec<u8>, pub v: Vec<V>, pub syms: Syms }

pub fn leb_u(mut x: u64, n: usize) -> Vec<u8> { let mut o = vec![]; for i in 0..n { let b = (x & 127) as u8; x >>= 7; o.push(if i + 1 < n { b | 128 } else { b }); } o }
pub fn leb_s(x: i64, n: usize) -> Vec<u8> { let mut o = vec![]; let mut y = x; for i in 0..n { let b = (y & 127) as u8; y >>= 7; o.push(if i + 1 < n { b | 128 } else { b & 127 }); } o }
pub fn leb_min_s(x: i64) -> Vec<u8> { let mut n = 1; loop { let v = leb_s(x, n); let bits = 7 * n as u32; if bits >= 64 || (x << (64 - bits)) >> (64 - bits) == x { return v; } n += 1; } }
pub fn leb_min_u(x: u64) -> Vec<u8> { let mut n = 1; while x >> (7 * n) != 0 { n += 1; } leb_u(x, n) }

impl Prog {
    pub fn guest(&self, cx: &mut Cx) -> Result<Guest, String> {
        let bytes = match &self.bytes { Some(b) => b.clone(), None => wat::parse_str(&self.wat).map_err(|e| format!("{}: {}", self.name, e))? };
        let Some(e) = &self.enc else { return self.guest_of(cx, bytes, &self.marks) };
        let other = crate::reenc::reencode(&bytes, e);
        if let Err(e) = wasmparser::Validator::new_with_features(wasmparser::WasmFeatures::all()).validate_all(&other) { return Err(format!("{}: the other encoding is not valid: {}", self.name, e)); }
        let plain = self.guest_of(cx, bytes, &self.marks)?;
        let mut m = self.marks.clone();
        m.extend(self.enc_marks.iter().cloned());
        let o = self.guest_of(cx, other, &m)?;
        Ok(Guest { bytes: plain.bytes, v: o.v, syms: plain.syms })
    }
    fn guest_of(&self, cx: &mut Cx, mut bytes: Vec<u8>, marks: &[Mark]) -> Result<Guest, String> {
        let mut syms = Syms::default();
        let mut pos: Vec<(usize, T)> = vec![];
        for m in marks {
            match m {
                Mark::I32(..) | Mark::I64(..) | Mark::Off(..) => {
                    let (op, cur, wide, w, name): (Option<u8>, Vec<u8>, Vec<u8>, u8, &str) = match m {
                        Mark::I32(x, n) => (Some(0x41), leb_min_s(*x as i64), leb_s(*x as i64, 5), 32, n),
                        Mark::I64(x, n) => (Some(0x42), leb_min_s(*x), leb_s(*x, 10), 64, n),
                        Mark::Off(x, n) => (None, leb_min_u(*x as u64), leb_u(*x as u64, 5), 32, n),
                        _ => unreachable!(),
                    };
                    // markers are chosen so that their minimal encoding already has full length
                    if cur.len() != wide.len() { return Err(format!("marker for {} is not full length", name)); }
                    let mut pat = vec![];
                    if let Some(o) = op { pat.push(o); }
                    pat.extend_from_slice(&cur);
                    let hits: Vec<usize> = (0..bytes.len().saturating_sub(pat.len() - 1)).filter(|&i| bytes[i..i + pat.len()] == pat[..]).collect();
                    if hits.is_empty() { return Err(format!("marker {} not found", name)); }
                    let t = cx.var(name, w);
                    let key = match m { Mark::I32(x, _) => *x as u32 as u64, Mark::I64(x, _) => *x as u64, Mark::Off(x, _) => *x as u64, _ => 0 };
                    syms.consts.insert(key, t);
                    for h in hits {
                        let at = h + if op.is_some() { 1 } else { 0 };
                        let n = wide.len();
                        for i in 0..n {
                            let lo = 7 * i as u8;
                            let k = (w - lo).min(7);
                            let mut e = cx.extract(t, lo, k);
                            if k < 7 { e = if matches!(m, Mark::Off(..)) { cx.zext(e, 7) } else { cx.sext(e, 7) }; }
                            let c = cx.k((i + 1 < n) as u64, 1);
                            let b = cx.concat(c, e);
                            pos.push((at + i, b));
                        }
                    }
                }
                Mark::F32(x, name) => {
                    let mut pat = vec![0x43];
                    pat.extend_from_slice(&x.to_le_bytes());
                    let t = cx.var(name, 32);
                    syms.consts.insert(*x as u64, t);
                    let mut found = false;
                    for h in 0..bytes.len() - 4 { if bytes[h..h + 5] == pat[..] { found = true; for i in 0..4 { let b = cx.extract(t, 8 * i as u8, 8); pos.push((h + 1 + i, b)); } } }
                    if !found { return Err(format!("marker {} not found", name)); }
                }
                Mark::F64(x, name) => {
                    let mut pat = vec![0x44];
                    pat.extend_from_slice(&x.to_le_bytes());
                    let t = cx.var(name, 64);
                    syms.consts.insert(*x, t);
                    let mut found = false;
                    for h in 0..bytes.len() - 8 { if bytes[h..h + 9] == pat[..] { found = true; for i in 0..8 { let b = cx.extract(t, 8 * i as u8, 8); pos.push((h + 1 + i, b)); } } }
                    if !found { return Err(format!("marker {} not found", name)); }
                }
                Mark::Leb(pre, x, signed, w, name) => {
                    let e = if *signed { leb_min_s(*x) } else { leb_min_u(*x as u64) };
                    let n = e.len();
                    let mut pat = pre.clone();
                    pat.extend_from_slice(&e);
                    let t = cx.var(name, 7 * n as u8);
                    let full = if *signed { cx.sext(t, *w) } else { cx.zext(t, *w) };
                    syms.consts.insert(if *w == 32 { *x as u32 as u64 } else { *x as u64 }, full);
                    let hits: Vec<usize> = (0..bytes.len().saturating_sub(pat.len() - 1)).filter(|&i| bytes[i..i + pat.len()] == pat[..]).collect();
                    if hits.is_empty() { return Err(format!("marker {} not found", name)); }
                    for h in hits { for i in 0..n {
                        let e = cx.extract(t, 7 * i as u8, 7);
                        let c = cx.k((i + 1 < n) as u64, 1);
                        let b = cx.concat(c, e);
                        pos.push((h + pre.len() + i, b));
                    } }
                }
                Mark::Bytes(p, name) => {
                    let pat = p.as_bytes();
                    let h = (0..bytes.len() - pat.len() + 1).find(|&i| &bytes[i..i + pat.len()] == pat).ok_or(format!("marker {} not found", name))?;
                    for i in 0..pat.len() { let t = cx.var(&format!("{}{}", name, i), 8); pos.push((h + i, t)); }
                }
            }
        }
        let mut v: Vec<V> = bytes.iter().map(|&b| V::k(b as u64)).collect();
        if cx.pin.is_some() { syms = Syms::default(); }
        for (p, t) in pos { v[p] = tov(cx, t); if cx.pin.is_some() { bytes[p] = v[p].c as u8; } else { syms.bytes.insert(p, t); } }
        Ok(Guest { bytes, v, syms })
    }
    pub fn script(&self) -> Vec<u8> {
        let mut o = script_head(&self.argv);
        script_steps(&mut o, &self.argv, &self.steps);
        o
    }
    pub fn arg_v(cx: &mut Cx, t: Ty, a: &Arg) -> V {
        match a { Arg::K(k) => V::k(*k), Arg::Sym(n) => { let t = cx.var(n, t.width()); tov(cx, t) } }
    }
    pub fn args_file(&self, cx: &mut Cx) -> Vec<V> {
        let mut o = vec![];
        for st in &self.steps {
            if let Step::Call { args, .. } = st {
                for (t, a) in args {
                    let v = Self::arg_v(cx, *t, a);
                    for i in 0..8u8 {
                        o.push(if v.t == 0 { V::k((v.c >> (8 * i)) & 255) }
                            else if 8 * i < t.width() { let e = cx.extract(v.t, 8 * i, 8); tov(cx, e) } else { V::k(0) });
                    }
                }
            }
        }
        o
    }
}

pub fn script_head(argv: &[String]) -> Vec<u8> {
    let mut o = vec![1u8, 2, argv.len() as u8];
    for a in argv { o.push(a.len() as u8); o.extend_from_slice(a.as_bytes()); }
    o
}
pub fn script_steps(o: &mut Vec<u8>, argv: &[String], steps: &[Step]) {
    for st in steps {
        match st {
            Step::Call { name, args, flags } => {
                o.push(3);
                o.push(name.len() as u8);
                o.extend_from_slice(name.as_bytes());
                o.push(*flags);
                o.push(args.len() as u8);
                for (t, _) in args { o.push(t.tag()); }
            }
            Step::Mem { start, len } => { o.push(4); o.push(0); o.extend_from_slice(&start.to_le_bytes()); o.extend_from_slice(&len.to_le_bytes()); }
            Step::Globals => o.push(5),
            Step::Table(t) => { o.push(6); o.push(*t); }
            Step::Inst => { o.push(2); o.push(argv.len() as u8); for a in argv { o.push(a.len() as u8); o.extend_from_slice(a.as_bytes()); } }
            Step::Select(k) => { o.push(9); o.push(*k); }
        }
    }
}

/// All reference paths of a program.
pub fn run_ref(eng: &mut Eng, p: &Prog, g: &Guest) -> Result<Vec<Final>, String> {
    let m = Rc::new(Module::decode(&g.bytes, &g.syms).map_err(|e| format!("{}: reference decode: {}", p.name, e))?);
    let mut host = Host::default();
    host.argv = p.argv.iter().map(|a| crate::cli::lit(a)).collect();
    host.guest = true;
    host.err_free = p.err_free;
    host.env = env_of(eng, p);
    let mut base = State::new(m.clone(), host);
    let cons = match &p.assume { Some(f) => f(&mut eng.cx), None => vec![] };
    // make sure argument variables exist
    let _ = p.args_file(&mut eng.cx);
    for c in cons { eng.constrain(&mut base, c); }
    if !base.pc.is_empty() {
        match eng.sol.check(&eng.cx, &base.pc, &[]) { Res::Sat(m) => base.model = Some(m), Res::Unsat => return Err(format!("{}: contradictory assumptions", p.name)), Res::Unknown => base.model = None }
    }
    base.max_steps = 50_000;
    let mut finals = vec![];
    // worklist of (state, next step, records, started?)
    let mut work: Vec<(State, usize, Vec<Rec>, u8)> = vec![(base, 0, vec![], 0)];
    // phase: 0 instantiate, 1 start function running, 2 between steps, 3 in a call
    while let Some((mut st, mut step, mut recs, mut phase)) = work.pop() {
        if finals.len() > 4096 { return Err(format!("{}: too many guest paths", p.name)); }
        loop {
            match phase {
                0 => {
                    let mark = eng.work.len();
                    let r = init_segments(eng, &mut st);
                    for o in eng.work.split_off(mark) {
                        // a fork inside segment initialisation: redo from a clean state with the extra constraint
                        let mut c = State::new(m.clone(), st.host.clone());
                        c.adopt(&o);
                        c.max_steps = 50_000;
                        work.push((c, 0, vec![], 0));
                    }
                    if r.is_err() { recs.push(Rec::NoInst); finals.push(Final { recs, out: Out::Done(vec![]), st }); break; }
                    match m.start {
                        Some(f) => { st.steps = 0; st.enter(f, &[]); phase = 1; }
                        None => phase = 2,
                    }
                }
                1 | 3 => {
                    let mark = eng.work.len();
                    let out = eng.run_path(&mut st);
                    for o in eng.work.split_off(mark) { work.push((o, step, recs.clone(), phase)); }
                    match out {
                        Out::Done(vals) => {
                            if phase == 3 {
                                if let Step::Call { name, .. } = &p.steps[step] {
                                    let f = m.exports[name].1;
                                    let tys = &m.types[m.funcs[f as usize].ty as usize].results;
                                    recs.push(Rec::Ok(tys.iter().zip(vals).map(|(t, v)| (t.tag(), v)).collect()));
                                }
                                step += 1;
                            }
                            phase = 2;
                        }
                        Out::Trap(t) => {
                            if phase == 1 { recs.push(Rec::NoInst); finals.push(Final { recs, out: Out::Done(vec![]), st }); break; }
                            recs.push(Rec::Trap(t.to_string(), st.host.trace.len()));
                            step += 1;
                            phase = 2;
                        }
                        Out::Exit(c) => { finals.push(Final { recs, out: Out::Exit(c), st }); break; }
                        Out::Steps => return Err(format!("{}: the guest itself does not terminate within the bound", p.name)),
                        o => return Err(format!("{}: reference: {:?}", p.name, o)),
                    }
                }
                _ => {
                    if step >= p.steps.len() { finals.push(Final { recs, out: Out::Done(vec![]), st }); break; }
                    match &p.steps[step] {
                        Step::Call { name, args, .. } => match m.exports.get(name) {
                            Some(&(0, f)) => {
                                let a: Vec<V> = args.iter().map(|(t, a)| Prog::arg_v(&mut eng.cx, *t, a)).collect();
                                st.steps = 0;
                                st.enter(f, &a);
                                if let Some(_) = m.funcs[f as usize].import { return Err(format!("{}: exported import", p.name)); }
                                phase = 3;
                            }
                            _ => { recs.push(Rec::NoExport); step += 1; }
                        },
                        Step::Mem { start, len } => {
                            recs.push(mem_rec(&st, *start, *len));
                            step += 1;
                        }
                        Step::Globals => { recs.push(Rec::Globals(m.globals.iter().zip(&st.globals).map(|(g, v)| (g.0.tag(), *v)).collect())); step += 1; }
                        Step::Table(t) => { recs.push(Rec::Table(st.tables[*t as usize].to_vec())); step += 1; }
                        Step::Inst => {
                            st.switch(None);
                            let n = eng.work.len();
                            if init_segments(eng, &mut st).is_err() || eng.work.len() != n || m.start.is_some() { return Err("second instance: unsupported".into()); }
                            recs.push(Rec::Inst);
                            step += 1;
                        }
                        Step::Select(k) => { st.switch(Some(*k as usize)); step += 1; }
                    }
                }
            }
        }
    }
    Ok(finals)
}

fn mem_rec(st: &State, start: u32, len: u32) -> Rec {
    let bytes = if start as u64 + len as u64 <= st.mem.len() { (0..len).map(|i| st.mem.byte((start + i) as u64)).collect() } else { vec![V::k(0xEE); len as usize] };
    Rec::Mem { pages: st.mem.pages64() as u64, bytes }
}
pub fn env_of(eng: &mut Eng, p: &Prog) -> Vec<Vec<V>> {
    p.env.iter().enumerate().map(|(i, (k, n))| {
        let mut v: Vec<V> = k.bytes().map(|b| V::k(b as u64)).collect();
        v.push(V::k(b'=' as u64));
        for j in 0..*n { let t = eng.cx.var(&format!("env{}_{}", i, j), 8); let one = eng.cx.k(1, 8); let t = eng.cx.or(t, one); let x = tov(&eng.cx, t); v.push(x); }
        v
    }).collect()
}

pub fn harness_state(vm: &Rc<Module>, p: &Prog, g: &Guest, script: Vec<u8>) -> State {
    let mut host = Host::default();
    host.argv = vec![crate::cli::lit("harness")];
    host.file("script.bin", &script);
    host.file_v("guest.wasm", g.v.clone());
    host.err_free = p.err_free;
    let mut st = State::new(vm.clone(), host);
    st.max_steps = p.max_steps;
    st
}

/// Starts the harness and runs its concrete prefix up to `stop` (a marker); errors out on forks.
pub fn boot(eng: &mut Eng, st: &mut State) -> Result<(), String> {
    let m = st.m.clone();
    init_segments(eng, st).map_err(|e| e.to_string())?;
    let Some(&(0, f)) = m.exports.get("_start") else { return Err("no _start".into()) };
    st.enter(f, &[]);
    Ok(())
}

pub fn parse_out(eng: &mut Eng, p: &Prog, st: &mut State) -> Result<Vec<Rec>, String> {
    let b = st.host.files.get("out.bin").cloned().unwrap_or_default();
    let mut i = 0usize;
    let mut recs = vec![];
    // symbolic tags and lengths split the path (the siblings end up in the engine's work list)
    let mut ck = |i: usize| -> Result<u64, String> { match b.get(i) { Some(v) => Ok(eng.conc(st, *v)), None => Err("eof".into()) } };
    if b.is_empty() { return Ok(recs); }
    if ck(0)? == 0 { recs.push(Rec::NoInst); return Ok(recs); } // parse failure counts as refusing the module
    if b.len() < 2 { return Ok(recs); }
    if ck(1)? == 0 { recs.push(Rec::NoInst); return Ok(recs); }
    i += 2;
    let u32v = |ck: &mut dyn FnMut(usize) -> Result<u64, String>, i: usize| -> Result<u64, String> { let mut r = 0; for j in 0..4 { r |= ck(i + j)? << (8 * j); } Ok(r) };
    for s in &p.steps {
        if i >= b.len() { break; }
        match s {
            Step::Call { .. } => {
                let tag = ck(i)?;
                let n = ck(i + 1)? as usize;
                i += 2;
                match tag {
                    0 => {
                        let mut v = vec![];
                        for _ in 0..n { v.push((ck(i)? as u8, V { c: i as u64 + 1, t: u32::MAX })); i += 9; }
                        recs.push(Rec::Ok(v));
                    }
                    1 => recs.push(Rec::Trap("error".into(), 0)),
                    2 => recs.push(Rec::Ckpt),
                    3 => recs.push(Rec::NoExport),
                    _ => recs.push(Rec::LoadFail),
                }
            }
            Step::Mem { len, .. } => {
                let pages = u32v(&mut ck, i)?;
                i += 4;
                let bytes = b[i..i + *len as usize].to_vec();
                i += *len as usize;
                recs.push(Rec::Mem { pages, bytes });
            }
            Step::Globals => {
                let n = ck(i)?;
                i += 1;
                let mut v = vec![];
                for _ in 0..n { v.push((ck(i)? as u8, V { c: i as u64 + 1, t: u32::MAX })); i += 9; }
                recs.push(Rec::Globals(v));
            }
            Step::Table(_) => {
                let n = u32v(&mut ck, i)?;
                i += 4;
                let mut v = vec![];
                for _ in 0..n { v.push(V { c: i as u64, t: u32::MAX }); i += 4; }
                recs.push(Rec::Table(v));
            }
            Step::Inst => { let n = ck(i)?; i += 1; recs.push(if n == 1 { Rec::Inst } else { Rec::NoInst }); }
            Step::Select(_) => {}
        }
    }
    Ok(recs)
}

/// Resolves the byte positions left by `parse_out` into values.
fn resolve(eng: &mut Eng, st: &State, v: V, w: u8) -> V {
    if v.t != u32::MAX { return v; }
    let b = st.host.files.get("out.bin").unwrap().clone();
    let mut acc: T = 0;
    for i in 0..(w / 8) as usize {
        let x = b[v.c as usize + i];
        let xt = eng.term(x, 8);
        acc = if acc == 0 { xt } else { eng.cx.concat(xt, acc) };
    }
    tov(&eng.cx, acc)
}

fn tagw(t: u8) -> u8 { match t { 1 | 3 => 64, _ => 32 } }

/// Obligations that the two finals agree; Err = structural disagreement.
pub fn compare(eng: &mut Eng, r: &Final, c: &Final, obls: &mut Vec<(String, T)>, filter: fn(&Req) -> bool) -> Result<(), String> {
    let abort = matches!(c.out, Out::Panic(_) | Out::Trap(_));
    for (i, rr) in r.recs.iter().enumerate() {
        let Some(cr) = c.recs.get(i) else {
            if abort && matches!(rr, Rec::Trap(..) | Rec::NoInst) {
                let n = match rr { Rec::Trap(_, n) => *n, _ => r.st.host.trace.len() };
                return compare_trace(eng, &r.st.host.trace[..n], &c.st.host.trace, obls, filter);
            }
            return Err(format!("step {}: expected {} but the interpreter ended with {}", i, short(rr), outs(&c.out)));
        };
        match (rr, cr) {
            (Rec::NoInst, Rec::NoInst) | (Rec::Trap(..), Rec::Trap(..)) | (Rec::NoExport, Rec::NoExport) | (Rec::Ckpt, Rec::Ckpt) | (Rec::Inst, Rec::Inst) => {}
            (Rec::Ok(a), Rec::Ok(b)) | (Rec::Globals(a), Rec::Globals(b)) => {
                if a.len() != b.len() { return Err(format!("step {}: {} values expected, {} returned", i, a.len(), b.len())); }
                for (j, ((ta, va), (tb, vb))) in a.iter().zip(b).enumerate() {
                    let same = ta == tb || (*ta >= 4 && *tb >= 4);
                    if !same { return Err(format!("step {}: value {} has type tag {} instead of {}", i, j, tb, ta)); }
                    let w = tagw(*ta);
                    let vb = resolve(eng, &c.st, *vb, w);
                    obls.push((format!("step {} value {}", i, j), eqv(eng, *va, vb, w)));
                }
            }
            (Rec::Mem { pages: pa, bytes: ba }, Rec::Mem { pages: pb, bytes: bb }) => {
                if pa != pb { return Err(format!("step {}: memory has {} pages instead of {}", i, pb, pa)); }
                for (j, (a, b)) in ba.iter().zip(bb).enumerate() {
                    if a == b { continue; }
                    obls.push((format!("step {} memory byte +{}", i, j), eqv(eng, *a, *b, 8)));
                }
            }
            (Rec::Table(a), Rec::Table(b)) => {
                if a.len() != b.len() { return Err(format!("step {}: table has {} entries instead of {}", i, b.len(), a.len())); }
                for (j, (a, b)) in a.iter().zip(b).enumerate() {
                    let b = resolve(eng, &c.st, *b, 32);
                    obls.push((format!("step {} table entry {}", i, j), eqv(eng, *a, b, 32)));
                }
            }
            (a, b) => return Err(format!("step {}: expected {}, got {}", i, short(a), short(b))),
        }
    }
    compare_trace(eng, &r.st.host.trace, &c.st.host.trace, obls, filter)?;
    match (&r.out, &c.out) {
        (Out::Exit(a), Out::Exit(b)) => { obls.push(("exit code".into(), eqv(eng, *a, *b, 32))); }
        (Out::Exit(_), o) => return Err(format!("expected proc_exit, got {}", outs(o))),
        (_, Out::Exit(_)) => return Err("unexpected proc_exit".into()),
        (_, Out::Marker(m)) if m == "#DONE" => {}
        (_, Out::Done(_)) => {}
        (_, o) => {
            if matches!(r.recs.last(), Some(Rec::NoInst)) { return Ok(()); }
            return Err(format!("the interpreter ended with {}", outs(o)));
        }
    }
    Ok(())
}
/// Host interaction: the same calls with the same arguments and data, in the same order.
fn compare_trace(eng: &mut Eng, r: &[Req], c: &[Req], obls: &mut Vec<(String, T)>, filter: fn(&Req) -> bool) -> Result<(), String> {
    let tr: Vec<&Req> = r.iter().filter(|q| filter(q)).collect();
    let tc: Vec<&Req> = c.iter().filter(|q| filter(q)).collect();
    for (i, a) in tr.iter().enumerate() {
        let Some(b) = tc.get(i) else { return Err(format!("host call {} ({}) was not made", i, a.name)) };
        if a.name != b.name { return Err(format!("host call {} is {} instead of {}", i, b.name, a.name)); }
        for (j, (x, y)) in a.args.iter().zip(&b.args).enumerate() {
            obls.push((format!("host call {} {} argument {}", i, a.name, j), eqv(eng, x.0, y.0, x.1)));
        }
        for (j, (x, y)) in a.data.iter().zip(&b.data).enumerate() {
            if x.len() != y.len() { return Err(format!("host call {} {}: buffer {} has {} bytes instead of {}", i, a.name, j, y.len(), x.len())); }
            for (k, (p, q)) in x.iter().zip(y).enumerate() { if p != q { obls.push((format!("host call {} {} buffer {} byte {}", i, a.name, j, k), eqv(eng, *p, *q, 8))); } }
        }
    }
    if tc.len() > tr.len() { return Err(format!("unexpected host call {}", tc[tr.len()].name)); }
    Ok(())
}
fn eqv(eng: &mut Eng, a: V, b: V, w: u8) -> T {
    if a == b { return eng.cx.tt; }
    let x = eng.term(a, w);
    let y = eng.term(b, w);
    eng.cx.eq(x, y)
}
pub fn short(r: &Rec) -> String {
    match r {
        Rec::NoInst => "instantiation failure".into(),
        Rec::Ok(v) => format!("{} results", v.len()),
        Rec::Trap(t, _) => format!("trap ({})", t),
        Rec::Ckpt => "checkpoint stop".into(),
        Rec::Mem { .. } => "memory".into(), Rec::Globals(_) => "globals".into(), Rec::Table(_) => "table".into(),
        Rec::Inst => "instance".into(), Rec::NoExport => "missing export".into(), Rec::LoadFail => "restore failure".into(),
    }
}
pub fn outs(o: &Out) -> String {
    match o { Out::Panic(n) => format!("an abort in {}", n), Out::Steps => "the step bound (no termination)".into(), o => format!("{:?}", o) }
}

/// Runs harness paths to completion from a prepared state.
pub fn drive(eng: &mut Eng, st: State, limit: usize, on_marker: &mut dyn FnMut(&mut Eng, &mut State, &str) -> bool) -> Result<Vec<(Out, State)>, String> {
    let mut work = vec![st];
    let mut fin = vec![];
    while let Some(mut st) = work.pop() {
        loop {
            let mark = eng.work.len();
            let out = eng.run_path(&mut st);
            work.extend(eng.work.split_off(mark));
            match out {
                Out::Marker(m) => {
                    if m == "#RUN" || m == "#INST" { st.host.guest = true; }
                    else if m == "#END" || m == "#INSTEND" { st.host.guest = false; }
                    if !on_marker(eng, &mut st, &m) || m == "#DONE" { fin.push((Out::Marker(m), st)); break; }
                }
                o => { fin.push((o, st)); break; }
            }
            if fin.len() + work.len() > limit { return Err("too many interpreter paths".into()); }
        }
    }
    Ok(fin)
}

pub fn check_prog(vm: &Rc<Module>, mode: &str, p: &Prog, counts: &mut Counts, stats: &mut crate::solver::Stats, touched: &mut Vec<bool>) -> Verdict {
    let mut eng = Eng::new();
    let r = check_prog_in(&mut eng, vm, mode, p, counts, touched);
    stats.add(&eng.sol.stats);
    counts.steps += eng.total_steps;
    match r {
        Ok(Verdict::Viol(mut v)) => { if v.host { v.confirmed = pinned(vm, mode, p, &v); if v.confirmed.is_none() { return Verdict::Inconclusive(format!("{} [{}]: counterexample did not reproduce in a concrete re-execution: {}", p.name, mode, v.what)); } } Verdict::Viol(v) }
        Ok(v) => v,
        Err(e) => Verdict::Inconclusive(format!("{} [{}]: {}", p.name, mode, e)),
    }
}

/// Concrete re-execution of guest and interpreter with the counterexample's values, for programs whose
/// host answers come from the counterexample (wasmtime cannot be told to give them).
fn pinned(vm: &Rc<Module>, mode: &str, p: &Prog, v: &Violation) -> Option<String> {
    let mut eng = Eng::new();
    eng.cx.pin = Some(v.vals.clone());
    match check_prog_in(&mut eng, vm, mode, p, &mut Counts::default(), &mut vec![]) {
        Ok(Verdict::Viol(x)) => Some(format!("concrete re-execution with the host's answers fixed: {}; {} instead of {}", x.what, x.got, x.expected)),
        Ok(_) => None,
        Err(e) => { eprintln!("re-execution: {}", e); None }
    }
}

fn check_prog_in(eng: &mut Eng, vm: &Rc<Module>, mode: &str, p: &Prog, counts: &mut Counts, touched: &mut Vec<bool>) -> Result<Verdict, String> {
    let g = p.guest(&mut eng.cx)?;
    let refs = run_ref(eng, p, &g)?;
    counts.programs += 1;
    counts.guest_paths += refs.len() as u64;
    let args = p.args_file(&mut eng.cx);
    let env = env_of(eng, p);
    eng.touched.clear();
    // concrete prefix: parsing and instantiation (symbolic immediates are handled per guest path)
    let filter = p.filter;
    let mut base = harness_state(vm, p, &g, p.script());
    base.host.env = env;
    base.host.file_v("args.bin", args);
    boot(eng, &mut base)?;
    let shared = p.marks.is_empty() && p.enc_marks.is_empty();
    if shared {
        loop {
            let out = eng.run_path(&mut base);
            if !eng.work.is_empty() { return Err("fork in the concrete prefix".into()); }
            match out {
                Out::Marker(m) if m == "#ARGS" => break,
                Out::Marker(m) if m == "#INST" => { base.host.guest = true; }
                Out::Marker(m) if m == "#INSTEND" => { base.host.guest = false; }
                Out::Marker(m) if m == "#DONE" => break,
                Out::Marker(_) => {}
                o => {
                    // the module was refused (or the interpreter died) before the first call
                    let recs = parse_out(eng, p, &mut base)?;
                    let f = Final { recs, out: o, st: base };
                    let mut obls = vec![];
                    return Ok(match compare(eng, &refs[0], &f, &mut obls, filter) { Ok(()) => Verdict::Pass, Err(e) => viol(eng, p, mode, &g, &refs[0], &f, None, e) });
                }
            }
        }
    }
    let limit = base.steps + p.max_steps;
    for r in &refs {
        let mut st = base.clone();
        st.adopt(&r.st);
        for f in ["args.bin", "guest.wasm"] { eng.settle_file(&mut st, f); }
        st.max_steps = limit;
        let fins = drive(eng, st, 4096, &mut |_, _, _| true)?;
        let mut fins: std::collections::VecDeque<(Out, State)> = fins.into();
        while let Some((out, mut st)) = fins.pop_front() {
            counts.vm_paths += 1;
            if let Out::Unsup(m) = &out { return Err(format!("engine: {} at {}", m, st.backtrace())); }
            let parsed = parse_out(eng, p, &mut st);
            for o in eng.work.drain(..) { fins.push_back((out.clone(), o)); }
            let recs = match parsed { Ok(r) => r, Err(e) => { if e == "eof" { vec![] } else { return Err(format!("output: {}", e)); } } };
            let f = Final { recs, out, st };
            if let Some(v) = judge(eng, p, mode, &g, r, &f, counts)? { return Ok(v); }
        }
    }
    if touched.len() < eng.touched.len() { touched.resize(eng.touched.len(), false); }
    for (i, &t) in eng.touched.iter().enumerate() { if t { touched[i] = true; } }
    Ok(Verdict::Pass)
}

/// Decides whether a final interpreter configuration agrees with the reference on every input of its path.
pub fn judge(eng: &mut Eng, p: &Prog, mode: &str, g: &Guest, r: &Final, f: &Final, counts: &mut Counts) -> Result<Option<Verdict>, String> {
    let mut obls = vec![];
    let cmp = compare(eng, r, f, &mut obls, p.filter);
    counts.obligations += 1;
    match cmp {
        Err(e) => {
            // reachable?
            eng.sol.stats.prop_queries += 1;
            match eng.sol.check(&eng.cx, &f.st.pc, &[]) {
                Res::Unsat => { eng.sol.stats.prop_unsat += 1; }
                Res::Sat(m) => return Ok(Some(viol(eng, p, mode, g, r, f, Some(m), e))),
                Res::Unknown => return Err(format!("solver gave up deciding reachability of: {}", e)),
            }
        }
        Ok(()) => {
            let mut all = eng.cx.tt;
            for (_, o) in &obls { all = eng.cx.and(all, *o); }
            let all = eng.settle(&f.st, all);
            let bad = eng.cx.not(all);
            if bad == eng.cx.ff { counts.trivial += 1; }
            else if std::env::var_os("WSYM_DBG").is_some() {
                for (n, o) in &obls { let o = eng.settle(&f.st, *o); if o != eng.cx.tt { eprintln!("{}: {}", n, eng.cx.show(o, 12)); } }
            }
            eng.sol.stats.prop_queries += 1;
            match eng.sol.check(&eng.cx, &f.st.pc, &[bad]) {
                Res::Unsat => { eng.sol.stats.prop_unsat += 1; }
                Res::Sat(m) => {
                    let what: Vec<String> = obls.iter().filter(|(_, t)| m.eval(&eng.cx, *t) == 0).map(|x| x.0.clone()).take(4).collect();
                    let e = format!("wrong {}", what.join(", "));
                    return Ok(Some(viol(eng, p, mode, g, r, f, Some(m), e)));
                }
                Res::Unknown => return Err(format!("solver gave up on {} obligations", obls.len())),
            }
        }
    }
    Ok(None)
}

impl Eng {
    /// Replaces symbolic bytes that are fixed on this path by their value.
    pub fn settle_file(&mut self, st: &mut State, f: &str) {
        let Some(b) = st.host.files.get(f).cloned() else { return };
        if b.iter().all(|v| v.t == 0) { return; }
        let n = b.iter().map(|v| match self.known_val(st, *v) { Some(k) => V::k(k), None => *v }).collect();
        st.host.file_v(f, n);
    }
}

impl State {
    /// Takes over path condition, decisions and model of another run over the same symbols.
    pub fn adopt(&mut self, o: &State) {
        self.pc = o.pc.clone();
        self.adopt_known(o);
        self.model = o.model.clone();
    }
}

fn vstr(eng: &Eng, m: &Model, v: V) -> u64 { if v.t == 0 { v.c } else { m.eval(&eng.cx, v.t) } }

pub fn rec_str(eng: &mut Eng, st: &State, m: &Model, r: &Rec) -> String {
    let mut one = |v: &[(u8, V)]| -> String {
        v.iter().map(|(t, x)| { let y = resolve(eng, st, *x, tagw(*t)); vtag(*t, vstr(eng, m, y)) }).collect::<Vec<_>>().join(" ")
    };
    match r {
        Rec::Ok(v) => format!("ok({})", one(v)),
        Rec::Globals(v) => format!("globals({})", one(v)),
        Rec::Mem { pages, bytes } => format!("mem({} pages: {})", pages, bytes.iter().map(|b| format!("{:02x}", vstr(eng, m, *b))).collect::<String>()),
        Rec::Table(t) => { let v: Vec<String> = t.iter().map(|x| { let y = resolve(eng, st, *x, 32); format!("{}", vstr(eng, m, y)) }).collect(); format!("table({})", v.join(" ")) }
        Rec::Trap(..) => "trap".into(),
        r => short(r),
    }
}

pub fn viol(eng: &mut Eng, p: &Prog, mode: &str, g: &Guest, r: &Final, c: &Final, m: Option<Rc<Model>>, what: String) -> Verdict {
    let m = m.or_else(|| c.st.model.clone()).unwrap_or_else(|| Rc::new(Model::new(vec![])));
    let vals: BTreeMap<String, u64> = eng.cx.vars.iter().enumerate().map(|(i, v)| (v.name.clone(), m.vals.get(i).copied().unwrap_or(0))).collect();
    let wasm: Vec<u8> = g.v.iter().map(|v| vstr(eng, &m, *v) as u8).collect();
    let argsf = p.args_file(&mut eng.cx);
    let args: Vec<u8> = argsf.iter().map(|v| vstr(eng, &m, *v) as u8).collect();
    let mut e: Vec<String> = r.recs.iter().map(|x| rec_str(eng, &r.st, &m, x)).collect();
    if let Out::Exit(v) = r.out { e.push(format!("exit({})", vstr(eng, &m, v))); }
    let mut gs: Vec<String> = c.recs.iter().map(|x| rec_str(eng, &c.st, &m, x)).collect();
    match &c.out { Out::Marker(x) if x == "#DONE" => {} Out::Done(_) => {} Out::Exit(v) => gs.push(format!("exit({})", vstr(eng, &m, *v))), o => gs.push(format!("{} in {}", outs(o), c.st.backtrace())) }
    Verdict::Viol(Violation { prog: p.name.clone(), mode: mode.into(), what, vals, wasm, args, script: p.script(), steps: p.steps.clone(), env: vec![], cli: vec![], max_stack: 64 << 20, expected: e.join("; "), got: gs.join("; "), exp: e, obs: gs, judge: judge_recs, more_files: vec![], confirmed: None, chain: vec![], argv: p.argv.clone(), host: !r.st.host.trace.is_empty() || !c.st.host.trace.is_empty(), before: vec![] })
}
