//! The command-line program: symbolic argument bytes, the compiled program's output.
use crate::diff::*;
use crate::exec::*;
use crate::host::*;
use crate::mem::*;
use crate::run::*;
use crate::solver::Res;
use crate::term::*;
use crate::wasm::*;
use std::rc::Rc;
use std::sync::Arc;

/// Text of an argument: fixed text and symbolic characters of a class.
#[derive(Clone, Debug)]
pub enum Pc { K(String), /// variable, admitted byte ranges
    S(String, Vec<(u8, u8)>) }
pub fn k(s: &str) -> Pc { Pc::K(s.into()) }
pub fn digit(n: &str) -> Pc { Pc::S(n.into(), vec![(b'0', b'9')]) }

pub type Expect = Arc<dyn Fn(&mut Cx) -> Vec<V> + Send + Sync>;
pub type Damage = Arc<dyn Fn(&mut Cx, &[u8], &mut Vec<T>) -> Vec<V> + Send + Sync>;
pub type Admit = Arc<dyn Fn(&mut Cx) -> T + Send + Sync>;

#[derive(Clone)]
pub struct Cli {
    pub name: String,
    pub wat: String,
    /// arguments of the successive processes (the checkpoint request is present during all but the last)
    pub runs: Vec<Vec<Vec<Pc>>>,
    pub files: Vec<(String, Vec<u8>)>,
    /// exact standard output of the last process
    pub out: Expect,
    /// whether the last process reports success
    pub ok: bool,
    /// the output only has to end with the expectation
    pub tail: bool,
    pub admit: Option<Admit>,
    /// what becomes of the encoded module
    pub damage: Option<Damage>,
    pub modes: Vec<&'static str>,
}

fn guest_bytes(wat: &str) -> Result<Vec<u8>, String> { wat::parse_str(wat).map_err(|e| format!("{}: {}", wat, e)) }

fn judge(v: &Violation, status: i32, _out: &[u8], stdout: &str) -> Result<String, String> {
    if status < 0 || (124..=127).contains(&status) { return Err(format!("the replay could not run (status {})", status)); }
    let got = format!("{} {}", if status == 0 { "success" } else { "failure" }, stdout.escape_debug());
    let e = &v.exp[0];
    let o = stdout.escape_debug().to_string();
    let agree = if e == "failure" { status != 0 && !o.contains("Result:") } else if let Some(t) = e.strip_prefix("success ... ") { status == 0 && o.ends_with(t) } else { got == *e };
    if agree { Err(format!("the real build agrees with the expectation: {}", got)) } else { Ok(got) }
}

pub fn jobs(v: Vec<Cli>) -> Vec<Job> {
    let mut o: Vec<Job> = vec![];
    for c in v { for m in c.modes.clone() {
        let c = c.clone();
        o.push(Job { name: format!("{} [{}]", c.name, m), run: Box::new(move |w| {
            let vm = w.vm(m);
            let mut touched = std::mem::take(&mut w.touched);
            let mut counts = std::mem::take(&mut w.counts);
            let mut eng = Eng::new();
            let r = check(&mut eng, &vm, m, &c, &mut counts, touched.entry(m.into()).or_default());
            w.stats.add(&eng.sol.stats);
            counts.steps += eng.total_steps;
            w.touched = touched;
            w.counts = counts;
            match r { Ok(v) => v, Err(e) => Verdict::Inconclusive(format!("{} [{}]: {}", c.name, m, e)) }
        }) });
    } }
    o
}

fn text(cx: &mut Cx, a: &[Pc], cond: &mut Vec<T>) -> Vec<V> {
    let mut o = vec![];
    for p in a {
        match p {
            Pc::K(s) => o.extend(s.bytes().map(|b| V::k(b as u64))),
            Pc::S(n, r) => {
                let t = cx.var(n, 8);
                let mut any = cx.ff;
                for &(l, h) in r {
                    let (l, h) = (cx.k(l as u64, 8), cx.k(h as u64, 8));
                    let (a, b) = (cx.ule(l, t), cx.ule(t, h));
                    let c = cx.and(a, b);
                    any = cx.or(any, c);
                }
                cond.push(any);
                o.push(V { c: 0, t });
            }
        }
    }
    o
}

fn check(eng: &mut Eng, vm: &Rc<Module>, mode: &str, c: &Cli, counts: &mut Counts, touched: &mut Vec<bool>) -> Result<Verdict, String> {
    let guest = guest_bytes(&c.wat)?;
    counts.programs += 1;
    counts.guest_paths += 1;
    eng.touched = std::mem::take(touched);
    let mut cond = vec![];
    let runs: Vec<Vec<Vec<V>>> = c.runs.iter().map(|r| r.iter().map(|a| text(&mut eng.cx, a, &mut cond)).collect()).collect();
    if let Some(a) = &c.admit { let t = a(&mut eng.cx); cond.push(t); }
    let exp = (c.out)(&mut eng.cx);
    let mut host = Host::default();
    let guest: Vec<V> = match &c.damage { Some(d) => d(&mut eng.cx, &guest, &mut cond), None => guest.iter().map(|b| V::k(*b as u64)).collect() };
    host.file_v("guest.wasm", guest.clone());
    for (n, b) in &c.files { host.file(n, b); }
    let mut work: Vec<(Host, Option<State>)> = vec![(host, None)];
    for (i, r) in runs.iter().enumerate() {
        let last = i + 1 == runs.len();
        let mut next = vec![];
        for (mut host, prev) in work {
            host.argv = std::iter::once("chiwawa.wasm".bytes().map(|b| V::k(b as u64)).collect()).chain(r.iter().cloned()).collect();
            if !last { host.file("checkpoint.trigger", b""); }
            let mut st = State::new(vm.clone(), host);
            if let Some(p) = &prev { st.adopt(p); } else {
                for t in &cond { eng.assume(&mut st, *t, true); }
                st.model = match eng.sol.check(&eng.cx, &st.pc, &[]) { Res::Sat(m) => Some(m), _ => return Err("the assumptions contradict each other".into()) };
            }
            st.max_steps = 400_000_000;
            boot(eng, &mut st)?;
            for (out, st) in drive(eng, st, 4096, &mut |_, _, _| true)? {
                counts.vm_paths += 1;
                if let Out::Unsup(m) = &out { return Err(format!("engine: {} at {}", m, st.backtrace())); }
                if last {
                    if let Some(v) = decide(eng, c, mode, &guest, &runs, &exp, out, st, counts)? { return Ok(v); }
                } else {
                    let (h, mut s) = (st.host.clone(), st);
                    if !h.files.contains_key("checkpoint.bin") { return Err(format!("no checkpoint was written: {}", show(eng, &s, &s.host.stdout.clone()))); }
                    s.host = Host::default();
                    let mut n = Host::default();
                    n.files = h.files.clone();
                    n.files.remove("checkpoint.trigger");
                    next.push((n, Some(s)));
                }
            }
        }
        work = next;
    }
    *touched = std::mem::take(&mut eng.touched);
    Ok(Verdict::Pass)
}

fn show(eng: &Eng, st: &State, b: &[V]) -> String {
    let m = st.model.clone().unwrap_or_else(|| Rc::new(Model::new(vec![])));
    text_of(eng, &m, b)
}
fn text_of(eng: &Eng, m: &Model, b: &[V]) -> String { b.iter().map(|v| (if v.t == 0 { v.c } else { m.eval(&eng.cx, v.t) }) as u8 as char).collect::<String>().escape_debug().to_string() }

fn word(eng: &mut Eng, b: &[V]) -> T {
    let mut r = eng.term(b[0], 8);
    for v in &b[1..] { let t = eng.term(*v, 8); r = eng.cx.concat(t, r); }
    r
}
fn arith(eng: &Eng, t: T, d: usize) -> bool {
    if t == 0 || d == 0 { return d == 0; }
    let n = eng.cx.n(t);
    match n.op { Op::Const(_) | Op::Var(_) => false, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => true, _ => [n.a, n.b, n.c].iter().any(|&x| x != 0 && arith(eng, x, d - 1)) }
}
/// Equality of two terms; operands of equal floating-point operations are compared first.
fn same(eng: &mut Eng, st: &State, x: T, y: T) -> T {
    let q = eng.cx.eq(x, y);
    if q == eng.cx.tt || q == eng.cx.ff { return q; }
    let (a, b) = (eng.cx.n(x), eng.cx.n(y));
    for (n, l) in [(&a, true), (&b, false)] {
        if n.op == Op::Ite {
            let f = eng.cx.not(n.a);
            let keep = if let Res::Unsat = eng.sol.check(&eng.cx, &st.pc, &[n.a]) { n.c } else if let Res::Unsat = eng.sol.check(&eng.cx, &st.pc, &[f]) { n.b } else { continue };
            return if l { same(eng, st, keep, y) } else { same(eng, st, x, keep) };
        }
    }
    if a.op == b.op && a.w == b.w && matches!(a.op, Op::FMul | Op::FAdd) && (eng.cx.cv(a.a).is_some() != eng.cx.cv(b.a).is_some()) {
        let (p, r) = (same(eng, st, a.a, b.b), same(eng, st, a.b, b.a));
        return if eng.cx.and(p, r) == eng.cx.tt { eng.cx.tt } else { q };
    }
    if a.op == b.op && a.w == b.w && matches!(a.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FPromote | Op::FDemote | Op::CvtS | Op::CvtU | Op::Concat | Op::Xor | Op::Not | Op::Extract(_)) && eng.cx.w(a.a) == eng.cx.w(b.a) && (a.b == 0) == (b.b == 0) && (a.b == 0 || eng.cx.w(a.b) == eng.cx.w(b.b)) {
        let mut all = same(eng, st, a.a, b.a);
        if a.b != 0 { let r = same(eng, st, a.b, b.b); all = eng.cx.and(all, r); }
        if all == eng.cx.tt { return all; }
        return q;
    }
    let n = eng.cx.not(q);
    if arith(eng, x, 20) || arith(eng, y, 20) { return q; }
    if let Res::Unsat = eng.sol.check(&eng.cx, &st.pc, &[n]) { return eng.cx.tt; }
    q
}

fn decide(eng: &mut Eng, c: &Cli, mode: &str, guest: &[V], runs: &[Vec<Vec<V>>], exp: &[V], out: Out, st: State, counts: &mut Counts) -> Result<Option<Verdict>, String> {
    counts.obligations += 1;
    let ok = match &out { Out::Done(_) => true, Out::Exit(v) => v.t == 0 && v.c == 0, _ => false };
    let got = st.host.stdout.clone();
    let full = got.len();
    let cut = if c.tail && full > exp.len() { full - exp.len() } else { 0 };
    let shown = got.clone();
    let got = got[cut..].to_vec();
    let (bad, what) = if ok != c.ok { (eng.cx.tt, format!("the program ends with {}", outs(&out))) }
        // what a failing run prints is not specified, unless it claims a result
        else if !c.ok { (if text_of(eng, &st.model.clone().unwrap_or_else(|| Rc::new(Model::new(vec![]))), &got).contains("Result:") { eng.cx.tt } else { eng.cx.ff }, "a result is printed".to_string()) }
        else if got.len() != exp.len() { (eng.cx.tt, format!("{} bytes of output, {} expected", got.len(), exp.len())) }
        else {
            let mut all = eng.cx.tt;
            for (a, b) in got.chunks(8).zip(exp.chunks(8)) {
                let (x, y) = (word(eng, a), word(eng, b));
                let (x, y) = (eng.settle(&st, x), eng.settle(&st, y));
                let q = same(eng, &st, x, y);
                if q != eng.cx.tt && std::env::var("WSYM_DBG").is_ok() { eprintln!("differing: {} / {}", eng.cx.show(x, 9), eng.cx.show(y, 9)); }
                all = eng.cx.and(all, q);
            }
            let all = eng.settle(&st, all);
            (eng.cx.not(all), "wrong output".to_string())
        };
    if bad == eng.cx.ff { counts.trivial += 1; }
    eng.sol.stats.prop_queries += 1;
    match eng.sol.check(&eng.cx, &st.pc, &[bad]) {
        Res::Unsat => { eng.sol.stats.prop_unsat += 1; Ok(None) }
        Res::Unknown => Err("solver gave up on the output".into()),
        Res::Sat(m) => {
            let cv = |b: &V| (if b.t == 0 { b.c } else { m.eval(&eng.cx, b.t) }) as u8;
            let vals = eng.cx.vars.iter().enumerate().map(|(i, v)| (v.name.clone(), m.vals.get(i).copied().unwrap_or(0))).collect();
            let e = if c.ok { format!("success {}{}", if c.tail { "... " } else { "" }, text_of(eng, &m, exp)) } else { "failure".into() };
            let g = format!("{} {}{}", if ok { "success" } else { "failure" }, text_of(eng, &m, &shown), if ok { String::new() } else { format!(" in {}", st.backtrace()) });
            let cl: Vec<Vec<String>> = runs.iter().map(|r| r.iter().map(|a| String::from_utf8_lossy(&a.iter().map(cv).collect::<Vec<u8>>()).to_string()).collect()).collect();
            Ok(Some(Verdict::Viol(Violation { prog: c.name.clone(), mode: mode.into(), what: format!("{}; arguments {:?}", what, cl), vals, wasm: guest.iter().map(cv).collect(), args: vec![], script: vec![], steps: vec![], env: vec![], cli: cl.last().unwrap().clone(), max_stack: 64 << 20, expected: e.clone(), got: g.clone(), exp: vec![e], obs: vec![g], judge, more_files: c.files.clone(), confirmed: None, chain: vec![], argv: vec![], host: false, before: cl[..cl.len() - 1].to_vec() })))
        }
    }
}

/// Writes its parameters' bits to standard output.
fn echo(params: &[Ty]) -> String {
    let tn = crate::gen::tn;
    let mut b = String::new();
    for (i, t) in params.iter().enumerate() { b.push_str(&format!(" i32.const {} local.get {} {}.store", 100 + 8 * i, i, tn(*t))); }
    format!("(module (import \"wasi_snapshot_preview1\" \"fd_write\" (func $w (param i32 i32 i32 i32) (result i32))) (memory (export \"memory\") 1) (data (i32.const 0) \"\\64\\00\\00\\00\\{:02x}\")
      (func (export \"_start\") i32.const 100 i64.const 0x2164656b6e69 i64.store i32.const 4 i32.const 6 i32.store i32.const 1 i32.const 0 i32.const 1 i32.const 8 call $w drop)
      (func (export \"f\") {} {} i32.const 1 i32.const 0 i32.const 1 i32.const 8 call $w drop))", 8 * params.len(), crate::gen::tys("param", params), b)
}
const ARGS: &str = "(module (import \"wasi_snapshot_preview1\" \"fd_write\" (func $w (param i32 i32 i32 i32) (result i32)))
 (import \"wasi_snapshot_preview1\" \"args_sizes_get\" (func $s (param i32 i32) (result i32))) (import \"wasi_snapshot_preview1\" \"args_get\" (func $a (param i32 i32) (result i32))) (memory (export \"memory\") 1)
 (func (export \"_start\") i32.const 0 i32.const 4 call $s drop i32.const 1024 i32.const 2048 call $a drop
   i32.const 8 i32.const 0 i32.store i32.const 12 i32.const 4 i32.store i32.const 16 i32.const 2048 i32.store i32.const 20 i32.const 4 i32.load i32.store
   i32.const 1 i32.const 8 i32.const 2 i32.const 32 call $w drop))";

/// Value of a decimal number's characters.
fn number(cx: &mut Cx, neg: bool, ds: &[Pc], w: u8) -> T {
    let mut c = vec![];
    let v = text(cx, ds, &mut c);
    let ten = cx.k(10, w);
    let mut r = cx.k(0, w);
    for d in v {
        let t = if d.t == 0 { cx.k(d.c, 8) } else { d.t };
        let z = cx.k(48, 8);
        let t = cx.sub(t, z);
        let t = cx.zext(t, w);
        r = cx.mul(r, ten);
        r = cx.add(r, t);
    }
    if neg { let z = cx.k(0, w); r = cx.sub(z, r); }
    r
}
fn le(cx: &mut Cx, t: T, w: u8, o: &mut Vec<V>) { for i in 0..8 { o.push(if 8 * i < w { let e = cx.extract(t, 8 * i, 8); tov(cx, e) } else { V::k(0) }); } }
pub fn lit(s: &str) -> Vec<V> { s.bytes().map(|b| V::k(b as u64)).collect() }

/// One parameter: type, its text, its value's bits.
#[derive(Clone)]
pub struct P { ty: Ty, txt: Vec<Pc>, val: Arc<dyn Fn(&mut Cx) -> T + Send + Sync>, admit: Option<Admit> }
fn wrap(t: Ty, v: Vec<Pc>) -> Vec<Pc> { let mut o = vec![k(&format!("{}(", crate::gen::tn(t).to_uppercase()))]; o.extend(v); o.push(k(")")); o }
/// Integer with the given sign text and digits ('d' symbolic, otherwise fixed).
fn int(t: Ty, tag: &str, sign: &str, pat: &str) -> P {
    let ds: Vec<Pc> = pat.chars().enumerate().map(|(i, ch)| if ch == 'd' { digit(&format!("{}{}", tag, i)) } else { k(&ch.to_string()) }).collect();
    let w = t.width();
    let neg = sign == "-";
    let (d1, d2) = (ds.clone(), ds.clone());
    let mut txt = vec![];
    if !sign.is_empty() { txt.push(k(sign)); }
    txt.extend(ds.clone());
    let n = pat.len();
    // the number fits its type
    let admit: Option<Admit> = if n < if w == 32 { 10 } else { 19 } { None } else { Some(Arc::new(move |cx| {
        let c = |cx: &mut Cx, s: &str| -> T {
            // lexicographic comparison of the digits with the bound
            let mut cond = vec![];
            let v = text(cx, &d2, &mut cond);
            let mut le = cx.tt;
            for (x, b) in v.iter().zip(s.bytes()).rev() {
                let x = if x.t == 0 { cx.k(x.c, 8) } else { x.t };
                let b = cx.k(b as u64, 8);
                let (lt, eq) = (cx.ult(x, b), cx.eq(x, b));
                let e = cx.and(eq, le);
                le = cx.or(lt, e);
            }
            le
        };
        c(cx, match (w, neg) { (32, false) => "2147483647", (32, true) => "2147483648", (_, false) => "9223372036854775807", _ => "9223372036854775808" })
    })) };
    P { ty: t, txt: wrap(t, txt), val: Arc::new(move |cx| number(cx, neg, &d1, w)), admit }
}
/// Float with symbolic digits: int part, fraction, exponent; correctly rounded as quotient or product of exact numbers.
fn float(t: Ty, tag: &str, sign: &str, ip: usize, fp: usize, exp: i32) -> P {
    let ds: Vec<Pc> = (0..ip + fp).map(|i| digit(&format!("{}{}", tag, i))).collect();
    let mut txt = vec![];
    if !sign.is_empty() { txt.push(k(sign)); }
    txt.extend(ds[..ip].iter().cloned());
    if fp > 0 { txt.push(k(".")); txt.extend(ds[ip..].iter().cloned()); }
    if exp != 0 { txt.push(k(&format!("e{}", exp))); }
    let neg = sign == "-";
    let w = t.width();
    P { ty: t, txt: wrap(t, txt), val: Arc::new(move |cx| {
        let m = number(cx, false, &ds, 64);
        let f = cx.un(Op::CvtU, w, m);
        let e = exp - fp as i32;
        let p = 10f64.powi(e.abs());
        let pb = if w == 32 { cx.k((p as f32).to_bits() as u64, 32) } else { cx.k(p.to_bits(), 64) };
        let r = if e < 0 { cx.bin(Op::FDiv, w, f, pb) } else if e > 0 { cx.bin(Op::FMul, w, f, pb) } else { f };
        if neg { let s = cx.k(1u64 << (w - 1), w); cx.xor(r, s) } else { r }
    }), admit: None }
}
/// Fixed text; the value is the host's reading of it.
fn fixed(t: Ty, s: &str) -> P {
    let v = match t { I32 => s.parse::<i32>().unwrap() as u32 as u64, I64 => s.parse::<i64>().unwrap() as u64, F32 => s.parse::<f32>().unwrap().to_bits() as u64, _ => s.parse::<f64>().unwrap().to_bits() };
    P { ty: t, txt: wrap(t, vec![k(s)]), val: Arc::new(move |cx| cx.k(v, t.width())), admit: None }
}
use crate::wasm::Ty::{self, *};

fn params(name: &str, ps: Vec<P>, style: usize) -> Cli {
    let tys: Vec<Ty> = ps.iter().map(|p| p.ty).collect();
    let mut args = vec![vec![k("guest.wasm")], vec![k("--invoke")], vec![k("f")]];
    if style == 3 { args = vec![vec![k("-if")], vec![k("guest.wasm")]]; }
    match style {
        0 | 3 => { args.push(vec![k(if style == 0 { "--params" } else { "-p" })]); args.push(join(&ps, ",")); }
        1 => { args.push(vec![k("--params")]); for p in &ps { args.push(p.txt.clone()); } }
        _ => { args[0..0].iter().for_each(drop); let mut a = vec![k("--params=")]; a.extend(join(&ps, ",")); args.insert(0, a); }
    }
    let adm: Vec<Admit> = ps.iter().filter_map(|p| p.admit.clone()).collect();
    let vals: Vec<_> = ps.iter().map(|p| (p.val.clone(), p.ty)).collect();
    Cli { name: name.into(), wat: echo(&tys), runs: vec![args], files: vec![], damage: None, out: Arc::new(move |cx| { let mut o = vec![]; for (v, t) in &vals { let x = v(cx); le(cx, x, t.width(), &mut o); } o }), ok: true, tail: false,
        admit: Some(Arc::new(move |cx| { let mut r = cx.tt; for a in &adm { let t = a(cx); r = cx.and(r, t); } r })), modes: vec!["cli-tco", "cli-legacy"] }
}
fn join(ps: &[P], sep: &str) -> Vec<Pc> { let mut o = vec![]; for (i, p) in ps.iter().enumerate() { if i > 0 { o.push(k(sep)); } o.extend(p.txt.iter().cloned()); } o }

fn plain(name: &str, wat: &str, args: &[&str], out: Option<&str>) -> Cli {
    let o = out.unwrap_or("").to_string();
    Cli { name: name.into(), wat: wat.into(), runs: vec![args.iter().map(|a| vec![k(a)]).collect()], files: vec![], damage: None, out: Arc::new(move |_| lit(&o)), ok: out.is_some(), tail: false, admit: None, modes: vec!["cli-tco", "cli-legacy"] }
}

/// Program arguments: every string over {quote, space, other character} of the given length, the others symbolic.
/// With four classes the last is a two-byte character with both bytes symbolic.
fn app_args(n: usize, style: usize, classes: usize, modes: &[&'static str]) -> Vec<Cli> {
    let mut v = vec![];
    for code in 0..classes.pow(n as u32) {
        let cls: Vec<usize> = (0..n).map(|i| code / classes.pow(i as u32) % classes).collect();
        if classes == 4 && !cls.contains(&3) { continue; }
        let other = vec![(1u8, 31u8), (33, 33), (35, 127)];
        let txt: Vec<Pc> = cls.iter().enumerate().flat_map(|(i, c)| match c { 0 => vec![Pc::S(format!("c{}", i), other.clone())], 1 => vec![k(" ")], 2 => vec![k("\"")], _ => vec![Pc::S(format!("c{}", i), vec![(0xc2, 0xdf)]), Pc::S(format!("e{}", i), vec![(0x80, 0xbf)])] }).collect();
        let c2 = cls.clone();
        let mut c = Cli { name: format!("app args {}", cls.iter().map(|c| ['x', '_', '"', 'é'][*c]).collect::<String>()), wat: ARGS.into(), runs: vec![], files: vec![], damage: None, ok: true, tail: false, admit: None, modes: modes.to_vec(),
            out: Arc::new(move |cx| {
                let mut list: Vec<Vec<V>> = vec![lit("guest.wasm")];
                let (mut cur, mut q): (Vec<V>, bool) = (vec![], false);
                for (i, c) in c2.iter().enumerate() {
                    match c {
                        0 => { let t = cx.var(&format!("c{}", i), 8); cur.push(V { c: 0, t }); }
                        3 => { for n in ["c", "e"] { let t = cx.var(&format!("{}{}", n, i), 8); cur.push(V { c: 0, t }); } }
                        1 if q => cur.push(V::k(32)),
                        1 => { if !cur.is_empty() { list.push(std::mem::take(&mut cur)); } }
                        _ => q = !q,
                    }
                }
                if !cur.is_empty() { list.push(cur); }
                let mut o: Vec<V> = (list.len() as u32).to_le_bytes().iter().map(|b| V::k(*b as u64)).collect();
                for l in list { o.extend(l); o.push(V::k(0)); }
                o
            }) };
        c.runs = vec![match style {
            0 => vec![vec![k("guest.wasm")], vec![k("--app-args")], txt],
            _ => { let mut a = vec![k("--app-args=")]; a.extend(txt); vec![a, vec![k("guest.wasm")]] }
        }];
        v.push(c);
    }
    v
}

/// Offsets at which a section ends (the header included).
fn section_ends(g: &[u8]) -> Vec<usize> {
    let mut o = vec![8];
    for p in wasmparser::Parser::new(0).parse_all(g) {
        let p = p.unwrap();
        if let Some((_, r)) = p.as_section() { o.push(r.end); }
        if let wasmparser::Payload::CodeSectionStart { range, .. } = &p { o.push(range.end); }
    }
    o.sort(); o.dedup(); o
}

pub fn command_line(th: bool) -> Vec<Cli> {
    let mut v = vec![];
    for (t, tag) in [(I32, "a"), (I64, "b")] {
        let top = if t == I32 { 10 } else { 19 };
        for s in ["", "-", "+"] {
            for n in 1..=if !th { 4 } else if t == I32 { 6 } else { 5 } { v.push(params(&format!("{:?} {}{} digits", t, s, n), vec![int(t, tag, s, &"d".repeat(n))], n % 4)); }
            // the largest lengths: leading, trailing digits symbolic
            let m = if t == I32 { "2147483647" } else { "9223372036854775807" };
            for j in 1..=if !th { 3 } else if t == I32 { 5 } else { 4 } {
                let p = format!("{}{}", &m[..top - j], "d".repeat(j));
                v.push(params(&format!("{:?} {}{}", t, s, p), vec![int(t, tag, s, &p)], j % 4));
                let p = format!("{}{}", "d".repeat(j), &"000000000000000000000"[..top - j]);
                v.push(params(&format!("{:?} {}{}", t, s, p), vec![int(t, tag, s, &p)], (j + 1) % 4));
            }
            v.push(params(&format!("{:?} {}0..dd", t, s), vec![int(t, tag, s, "0000000000000000000000dd")], 0));
        }
    }
    for (t, tag) in [(F32, "c"), (F64, "d")] {
        for (i, (s, a, b, e)) in [("", 1, 0, 0), ("-", 1, 1, 0), ("", 2, 1, 0), ("+", 1, 2, 0), ("", 0, 2, 0), ("-", 2, 0, 3), ("", 1, 1, -3), ("-", 1, 0, -5), ("", 3, 0, 0), ("", 1, 0, 8)].into_iter().enumerate() {
            v.push(params(&format!("{:?} {}{}.{}e{}", t, s, a, b, e), vec![float(t, tag, s, a, b, e)], i % 4));
        }
        for (i, s) in ["inf", "-inf", "-0", "1e400", "1e-400", "0.1", "3.4028235e38", "1.17549435e-38", "1e-45", "16777217", "9007199254740993", "5e-324", "123456789.123456789", "1.7976931348623157e308", "-2.2250738585072014e-308", "1E5", ".5", "5.", "infinity"].into_iter().enumerate() { v.push(params(&format!("{:?} {}", t, s), vec![fixed(t, s)], i % 4)); }
    }
    // several parameters keep their order and types
    let mk = |i: usize, j: usize| -> P { match i { 0 => int(I32, &format!("p{}", j), if j % 2 == 0 { "" } else { "-" }, "dd"), 1 => int(I64, &format!("q{}", j), "-", "d"), 2 => float(F32, &format!("r{}", j), "", 1, 0, 0), _ => float(F64, &format!("s{}", j), "-", 1, 1, 0) } };
    for a in 0..4 { for b in 0..4 {
        v.push(params(&format!("two {}{}", a, b), vec![mk(a, 0), mk(b, 1)], (a + b) % 4));
        for c in 0..4 { if th || (a + 2 * b + 3 * c) % 5 == 0 { v.push(params(&format!("three {}{}{}", a, b, c), vec![mk(a, 0), mk(b, 1), mk(c, 2)], (a + b + c) % 4)); } }
    } }
    // twelve: a symbolic digit in every fourth, fixed text in the others
    for s in 0..4 {
        let many: Vec<P> = (0..12).map(|j| if j % 4 == s { mk(j % 4, j) } else { fixed([I32, I64, F32, F64][j % 4], &format!("{}{}", j * 7, if j % 4 > 1 { ".25" } else { "" })) }).collect();
        v.push(params(&format!("twelve {}", s), many, s));
    }
    // program arguments
    for n in 0..=if th { 5 } else { 3 } { v.extend(app_args(n, 0, 3, if th { &["cli-tco", "cli-legacy"] } else { &["cli-tco"] })); }
    v.extend(app_args(2, 1, 3, &["cli-legacy"]));
    v.extend(app_args(if th { 3 } else { 2 }, 0, 4, &["cli-tco"]));
    if th { v.extend(app_args(3, 1, 3, &["cli-legacy"])); v.extend(app_args(2, 1, 4, &["cli-legacy"])); }
    let args_out = |l: &[&str]| { let mut s = String::from_utf8((l.len() as u32).to_le_bytes().to_vec()).unwrap(); for a in l { s.push_str(a); s.push('\0'); } s };
    for (i, (a, l)) in [("--db test.db --iterations 1000", vec!["guest.wasm", "--db", "test.db", "--iterations", "1000"]), ("héllo \"wö rld\" 日本", vec!["guest.wasm", "héllo", "wö rld", "日本"]), ("a\tb c\\ d 'e f'", vec!["guest.wasm", "a\tb", "c\\", "d", "'e", "f'"]), ("a,b,c d=e", vec!["guest.wasm", "a,b,c", "d=e"]), ("k=\"v w\"x y", vec!["guest.wasm", "k=v wx", "y"]), ("--invoke g", vec!["guest.wasm", "--invoke", "g"])].into_iter().enumerate() {
        v.push(plain(&format!("app args text {}", i), ARGS, &["guest.wasm", "--app-args", a], Some(&args_out(&l))));
    }
    v.push(plain("no app args", ARGS, &["guest.wasm"], Some(&args_out(&["guest.wasm"]))));
    // results: the digits come back
    for (t, top) in [(I32, 10), (I64, 19)] {
        let tn = crate::gen::tn(t);
        let wat = format!("(module (func (export \"f\") (param {0}) (result {0}) local.get 0) (func (export \"_start\") (result {0}) {0}.const 42))", tn);
        for neg in [false, true] {
            for n in 1..=if th && t == I32 { 4 } else { 3 } {
                for full in [false, true] {
                    if full && n == 3 && t == I64 && !th { continue; }
                    let pat = if full { format!("{}{}", &"1234567890123456789"[..top - n], "d".repeat(n)) } else { "d".repeat(n) };
                    let p = int(t, "x", if neg { "-" } else { "" }, &pat);
                    let (txt, adm, p2) = (p.txt.clone(), p.admit.clone(), pat.clone());
                    let up = tn.to_uppercase();
                    v.push(Cli { name: format!("result {} {}{}", tn, if neg { "-" } else { "" }, pat), wat: wat.clone(), runs: vec![vec![vec![k("guest.wasm")], vec![k("-i")], vec![k("f")], vec![k("-p")], txt]], files: vec![], damage: None, ok: true, tail: false, modes: vec!["cli-tco", "cli-legacy"],
                        out: Arc::new(move |cx| { let mut o = lit(&format!("Result: Num({}({}", up, if neg { "-" } else { "" })); for (i, ch) in p2.chars().enumerate() { o.push(if ch == 'd' { let t = cx.var(&format!("x{}", i), 8); V { c: 0, t } } else { V::k(ch as u64) }); } o.extend(lit("))\n")); o }),
                        // canonical digits: no leading zero
                        admit: Some(Arc::new(move |cx| { let mut r = match &adm { Some(a) => a(cx), None => cx.tt }; if !full { let t = cx.var("x0", 8); let z = cx.k(48, 8); let e = cx.eq(t, z); let e = cx.not(e); r = cx.and(r, e); } r })) });
                }
            }
        }
        v.push(plain(&format!("result of _start {}", tn), &wat, &["guest.wasm"], Some(&format!("Result: Num({}(42))\n", tn.to_uppercase()))));
    }
    for (t, s, d) in [("f32", "0.1", "0.1"), ("f64", "0.1", "0.1"), ("f64", "-0", "-0.0"), ("f32", "inf", "inf"), ("f64", "1e300", "1e300"), ("f32", "-1.5", "-1.5"), ("f32", "16777216", "16777216.0")] {
        v.push(plain(&format!("result {} {}", t, s), &format!("(module (func (export \"f\") (param {0}) (result {0}) local.get 0))", t), &["guest.wasm", "--invoke", "f", "--params", &format!("{}({})", t.to_uppercase(), s)], Some(&format!("Result: Num({}({}))\n", t.to_uppercase(), d))));
    }
    // which function runs
    let two = "(module (func (export \"f\") (result i32) i32.const 1) (func (export \"g\") (result i32) i32.const 2) (func (export \"ff\") (result i32) i32.const 3) (func (export \"none\")) (func (export \"trap\") (result i32) unreachable) (func (export \"two words\") (result i32) i32.const 4))";
    for (a, r) in [("f", Some("Result: Num(I32(1))\n")), ("g", Some("Result: Num(I32(2))\n")), ("ff", Some("Result: Num(I32(3))\n")), ("none", Some("")), ("two words", Some("Result: Num(I32(4))\n")), ("h", None), ("", None), ("F", None)] {
        v.push(plain(&format!("invoke {:?}", a), two, &["guest.wasm", "--invoke", a], r));
    }
    // any other name of one character
    let mut c = plain("invoke another name", two, &["guest.wasm", "--invoke", "?"], None);
    c.runs[0][2] = vec![Pc::S("n".into(), vec![(b'!', b','), (b'.', b'e'), (b'h', b'~')])];
    v.push(c);
    let mut c = plain("invoke f or g", two, &["guest.wasm", "--invoke", "?"], Some("Result: Num(I32(1))\n"));
    c.runs[0][2] = vec![Pc::S("n".into(), vec![(b'f', b'g')])];
    c.out = Arc::new(|cx| { let mut o = lit("Result: Num(I32(1))\n"); let n = cx.var("n", 8); let d = cx.k((b'f' - b'1') as u64, 8); let t = cx.sub(n, d); o[16] = V { c: 0, t }; o });
    v.push(c);
    v.push(plain("no _start", two, &["guest.wasm"], None));
    v.push(plain("no file", two, &["other.wasm", "--invoke", "f"], None));
    // checkpoint and restore through the command line
    let ck = "(module (memory 1) (global $g (mut i32) (i32.const 5)) (func $e (param i32) (result i32) local.get 0 i32.const 3 i32.mul global.get $g i32.add) (func (export \"f\") (param i32) (result i32) (local i32) i32.const 7 global.set $g (loop $l local.get 1 i32.const 1 i32.add local.tee 1 i32.const 9000 i32.lt_u br_if $l) local.get 0 call $e local.get 1 i32.add))";
    for (m1, m2) in [("cli-tco", "cli-tco"), ("cli-legacy", "cli-legacy")] { let _ = m2;
        v.push(Cli { name: "checkpoint and restore".into(), wat: ck.into(), runs: vec![vec![vec![k("guest.wasm")], vec![k("--invoke")], vec![k("f")], vec![k("--cr")], vec![k("--params")], int(I32, "a", "", "d").txt], vec![vec![k("guest.wasm")], vec![k("--restore")], vec![k("checkpoint.bin")], vec![k("--cr")]]], files: vec![], damage: None, ok: true, tail: true, admit: None, modes: vec![m1],
            out: Arc::new(|cx| {
                // 3a + 7 + 9000
                let a = number(cx, false, &[digit("a0")], 32);
                let three = cx.k(3, 32); let a = cx.mul(a, three);
                let c = cx.k(7, 32); let a = cx.add(a, c);
                let mut o = lit("\nResult: Num(I32(90");
                let ten = cx.k(10, 32);
                let (q, r) = (cx.udiv(a, ten), cx.urem(a, ten));
                for d in [q, r] { let d = cx.extract(d, 0, 8); let z = cx.k(48, 8); let d = cx.add(d, z); o.push(tov(cx, d)); }
                o.extend(lit("))\n"));
                o
            }) });
    }
    // modules that cannot be decoded are not run
    let out = |f: &str| format!("(module (import \"wasi_snapshot_preview1\" \"fd_write\" (func $w (param i32 i32 i32 i32) (result i32))) (type (func)) (memory 1) (global i32 (i32.const 1)) (data (i32.const 0) \"\\10\\00\\00\\00\\02\\00\\00\\00hi\") (func (export \"_start\") i32.const 1 i32.const 0 i32.const 1 i32.const 8 call $w drop) {} (func (result i32) i32.const 7))", f);
    let m = out("");
    let len = guest_bytes(&m).unwrap().len();
    let bad = |name: String, d: Damage| { let mut c = plain(&name, &m, &["guest.wasm"], None); c.damage = Some(d); c };
    for i in 0..8 {
        v.push(bad(format!("damaged header byte {}", i), Arc::new(move |cx, g, cond| {
            let mut o: Vec<V> = g.iter().map(|b| V::k(*b as u64)).collect();
            let (x, y) = (cx.var("x", 8), cx.k(g[i] as u64, 8));
            let e = cx.eq(x, y);
            cond.push(cx.not(e));
            // versions of the component encoding are another format
            o[i] = V { c: 0, t: x };
            o
        })));
    }
    let ends = section_ends(&guest_bytes(&m).unwrap());
    for cut in 0..len { if !ends.contains(&cut) && (th || cut < 8 || cut % 5 == 0 || cut + 12 > len) { v.push(bad(format!("cut after {} bytes", cut), Arc::new(move |_, g, _| g[..cut].iter().map(|b| V::k(*b as u64)).collect()))); } }
    for (i, e) in ends.iter().enumerate() {
        let e = *e;
        // a section that claims more bytes than there are
        v.push(bad(format!("surplus section after {}", i), Arc::new(move |cx, g, cond| {
            let mut o: Vec<V> = g[..e].iter().map(|b| V::k(*b as u64)).collect();
            let (x, n) = (cx.var("id", 8), cx.var("n", 8)); // known section kinds
            let (k13, k1, k127) = (cx.k(13, 8), cx.k(1, 8), cx.k(127, 8));
            let a = cx.ule(x, k13); let b = cx.ule(k1, n); let c = cx.ule(n, k127);
            cond.extend([a, b, c]);
            o.extend([V { c: 0, t: x }, V { c: 0, t: n }]);
            o
        })));
    }
    v.push(plain("restore from nothing", ck, &["guest.wasm", "--restore", "checkpoint.bin"], None));
    v
}
