//! Guest programs of C20: the same module in different encodings.
use crate::diff::*;
use crate::gen::*;
use crate::progs5::{samples, some, state_progs};
use crate::reenc::Enc;
use crate::wasm::Ty::{self, *};

/// Modules with more than 127 (and more than 255) of everything that is counted or indexed.
pub fn wide() -> Vec<Prog> {
    let mut v = vec![];
    let ts = [I32, I64, F32, F64];
    let n = 300usize;
    let p4: Vec<(Ty, Arg)> = symargs("", &ts);
    // globals
    let mut w = String::from("(module ");
    for i in 0..n { let t = ts[i % 4]; w.push_str(&format!("(global (mut {}) ({}.const {}))", tn(t), tn(t), i)); }
    w.push_str("(func (export \"f\") (param i32 i64 f32 f64) (result i32 i64 f32 f64)");
    for i in [0, 5, 126, 127, 128, 131, 254, 255, 256, 299] { w.push_str(&format!(" local.get {} global.set {}", i % 4, i)); }
    w.push_str(" global.get 128 global.get 0 i32.add global.get 124 i32.sub global.get 129 global.get 297 i64.xor global.get 254 global.get 255))");
    v.push(Prog::new("wide globals", &w).call("f", &p4));
    // locals
    let mut w = String::from("(module (func (export \"f\") (param i32 i64 f32 f64) (result i32 i64 f32 f64) (local");
    for i in 0..n { w.push_str(&format!(" {}", tn(ts[(i * i + i / 3) % 4]))); }
    w.push_str(")");
    for i in 0..n { let t = (i * i + i / 3) % 4; if i % 7 == 0 { w.push_str(&format!(" local.get {} local.set {}", t, i + 4)); } }
    let last = |t: usize, k: usize| (0..n).rev().filter(|i| (i * i + i / 3) % 4 == t).nth(k).map(|i| i + 4).unwrap_or(t);
    w.push_str(&format!(" local.get {} local.get {} i32.add local.get {} local.get {} local.get {}))", last(0, 0), last(0, 20), last(1, 0), last(2, 3), last(3, 0)));
    v.push(Prog::new("wide locals", &w).call("f", &p4));
    // nesting and br_table
    let d = 140;
    let mut w = String::from("(module (func (export \"f\") (param i32) (result i32)");
    for _ in 0..d { w.push_str(" block"); }
    w.push_str(" local.get 0 br_table");
    for i in 0..d { w.push_str(&format!(" {}", (i * 53) % d)); }
    w.push_str(" 7");
    for i in 0..d { w.push_str(&format!(" end i32.const {} local.get 0 i32.xor return", 1000 + i)); }
    w.push_str(" unreachable))");
    v.push(Prog::new("wide br_table", &w).call("f", &[(I32, s("x"))]));
    let d = 300;
    let mut w = String::from("(module (func (export \"f\") (param i32 i32) (result i32)");
    for _ in 0..d { w.push_str(" block (result i32)"); }
    w.push_str(&format!(" i32.const 11 local.get 0 br_if {} local.get 1 br_if {}", d - 1, 200));
    for i in 0..d { w.push_str(&format!(" end i32.const {} i32.add", i)); }
    w.push_str("))");
    v.push(Prog::new("wide nesting", &w).call("f", &[(I32, s("x")), (I32, s("y"))]));
    // functions, types, exports, table entries
    let tyn = |i: usize| -> (Vec<Ty>, Vec<Ty>) { let mut p = vec![]; let mut k = i + 1; while k > 0 { p.push(ts[k % 4]); k /= 4; } (p, vec![I32]) };
    let mut w = String::from("(module (global $last (mut i32) (i32.const 0)) (table 300 funcref)");
    for i in 0..n { let (p, r) = tyn(i); w.push_str(&format!("(type $t{} (func {} {}))", i, tys("param", &p), tys("result", &r))); }
    for i in 0..n { w.push_str(&format!("(func $f{} (export \"e{}\") (type $t{}) i32.const {} global.set $last i32.const {})", i, i, i, i, i * 3)); }
    w.push_str("(elem (i32.const 0) func");
    for i in 0..n { w.push_str(&format!(" $f{}", i)); }
    w.push_str(") (func (export \"f\") (param i32) (result i32) (local i64 f32 f64) ");
    let push = |p: &[Ty]| p.iter().map(|t| format!("local.get {}", match t { I32 => 0, I64 => 1, F32 => 2, _ => 3 })).collect::<Vec<_>>().join(" ");
    for i in [3, 127, 128, 255, 256, 299] { w.push_str(&format!(" {} call $f{} global.get $last i32.add", push(&tyn(i).0), i)); }
    w.push_str(" i32.add i32.add i32.add i32.add i32.add");
    for i in [2, 128, 260, 299] { w.push_str(&format!(" {} i32.const {} call_indirect (type $t{}) i32.add", push(&tyn(i).0), i, i)); }
    w.push_str(&format!(" {} local.get 0 call_indirect (type $t200) i32.add))", push(&tyn(200).0)));
    let mut p = Prog::new("wide functions", &w).call("f", &[(I32, s("x"))]);
    for i in [0, 127, 128, 299] { p = p.call(&format!("e{}", i), &symargs("", &tyn(i).0)); }
    v.push(p.globals());
    // segments
    let mut w = String::from("(module (memory 1) (table 200 funcref) (func $g)");
    for i in 0..200 { w.push_str(&format!("(data \"{:04}\")", i)); }
    for i in 0..150 { w.push_str(&format!("(data (i32.const {}) \"{:04}\")", 1000 + 3 * i, i)); }
    for i in 0..150 { w.push_str(&format!("(elem (i32.const {}) $g)", i)); }
    w.push_str("(func (export \"f\") (param i32)");
    for i in [1, 127, 128, 199] { w.push_str(&format!(" i32.const {} local.get 0 i32.const 3 i32.and i32.const 1 memory.init {} ", 8 * i, i)); }
    w.push_str(" data.drop 150 i32.const 0 i32.const 0 i32.const 1 memory.init 150))");
    v.push(Prog::new("wide segments", &w).call("f", &[(I32, s("x"))]).mem(0, 2000).table(0));
    // parameters, long names
    let ps: Vec<Ty> = (0..200).map(|i| ts[(i / 3) % 4]).collect();
    let name = "n".repeat(200);
    let mut w = format!("(module (func $g {} (result i32 i64) local.get 0 local.get 199 i32.wrap_i64 i32.add local.get 197 local.get 3 i64.add) (func (export \"{}\") (param i32 i64 f32 f64) (result i32 i64)", tys("param", &ps), name);
    w = w.replace("local.get 199 i32.wrap_i64", &format!("local.get {}", (0..200).rev().find(|&i| ps[i] == I32).unwrap())).replace("local.get 197", &format!("local.get {}", (0..200).rev().find(|&i| ps[i] == I64).unwrap()));
    for t in &ps { w.push_str(&format!(" local.get {}", match t { I32 => 0, I64 => 1, F32 => 2, _ => 3 })); }
    w.push_str(" call $g))");
    v.push(Prog::new("wide params", &w).call(&name, &p4));
    // as many locals as engines accept
    let mut w = String::from("(module (func (export \"f\") (param i32 i64 f32 f64) (result i32 i64 f32 f64) (local");
    for _ in 0..24000 { w.push_str(" i32 i64"); }
    w.push_str(" f32 f64) local.get 0 local.set 48002 local.get 1 local.set 48003 local.get 48002 i32.const 1 i32.add local.get 48003 local.get 0 i64.extend_i32_u i64.add local.get 2 local.tee 48004 f32.neg local.get 3 local.set 48005 local.get 48005))");
    let mut p = Prog::new("wide most locals", &w).call("f", &p4);
    p.max_steps = 1_000_000_000;
    v.push(p);
    // select with type, br_table with few targets, many of one instruction
    let mut w = String::from("(module (func (export \"f\") (param i32 i64) (result i64) local.get 1");
    for i in 0..200 { w.push_str(&format!(" i64.const {} local.get 0 select (result i64)", i * 1000)); }
    w.push_str("))");
    v.push(Prog::new("long body", &w).call("f", &[(I32, s("x")), (I64, s("y"))]));
    v
}

/// Constants and offsets of every encoded length, their bytes symbolic.
pub fn lengths() -> Vec<Prog> {
    let mut v = vec![];
    for n in 1..=4i64 {
        let x = (1i64 << (7 * n - 2)) | 0x15;
        let w = format!("(module (memory 1) (global $g (mut i32) (i32.const {x})) (func (export \"f\") (param i32) (result i32 i32 i32 i32 i32) (local i32)
            i32.const {x} local.get 0 i32.const {x} i32.add global.get $g i32.const {x} local.get 0 i32.sub i32.const 512 i32.const {x} i32.store i32.const 512 i32.load)
            (func (export \"g\") (param i32) (result i32) (local i32) i32.const {x} local.set 1 local.get 0 i32.const {x} i32.eq if (result i32) i32.const {x} else local.get 1 i32.const {x} i32.shl end))");
        v.push(Prog::new(&format!("i32 constant of {} bytes", n), &w).mark(Mark::Leb(vec![0x41], x, true, 32, "k".into())).call("f", &[(I32, s("x"))]).call("g", &[(I32, s("x"))]).globals());
        let y = (1i64 << (7 * n - 1)) | 0x15;
        for (nm, op, code, pre) in [("load", 0x28u8, format!("local.get 0 i32.load offset={}", y), 0), ("load8", 0x2d, format!("local.get 0 i32.load8_u offset={}", y), 0), ("store", 0x36, format!("local.get 0 local.get 1 i32.store offset={} i32.const 512 i32.load", y), 0), ("store8", 0x3a, format!("local.get 0 local.get 1 i32.store8 offset={} i32.const 512 i32.load", y), 0), ("load64", 0x29, format!("local.get 0 i64.load offset={} i32.wrap_i64", y), 0)] {
            let al = match op { 0x28 | 0x36 => 2, 0x29 => 3, _ => 0 } + pre;
            let w = format!("(module (memory 1) (data (i32.const 500) \"0123456789abcdefghijklmnopqrstuvwxyz\") (func (export \"f\") (param i32 i32) (result i32) {}))", code);
            let mut p = Prog::new(&format!("{} offset of {} bytes", nm, n), &w).mark(Mark::Leb(vec![op, al], y, false, 32, "off".into())).call("f", &[(I32, s("a")), (I32, s("x"))]).mem(496, 48);
            p = p.assume(move |cx| {
                let a = cx.var("a", 32);
                let o = cx.var("off", 7 * n as u8);
                let mut v = vec![];
                for w in [64, 32] {
                    let (a, o) = (cx.zext(a, w), cx.zext(o, w));
                    let sum = cx.add(a, o);
                    let (lo, hi) = (cx.k(508, w), cx.k(519, w));
                    v.push(cx.ule(lo, sum));
                    v.push(cx.ule(sum, hi));
                }
                v
            });
            v.push(p);
        }
    }
    for n in 1..=9i64 {
        let x = (1i64 << (7 * n - 2)) | 0x15;
        let w = format!("(module (memory 1) (global $g (mut i64) (i64.const {x})) (func (export \"f\") (param i64) (result i64 i64 i64 i64 i64) (local i64)
            i64.const {x} local.get 0 i64.const {x} i64.add global.get $g i64.const {x} local.get 0 i64.sub i32.const 512 i64.const {x} i64.store i32.const 512 i64.load)
            (func (export \"g\") (param i64) (result i64) (local i64) i64.const {x} local.set 1 local.get 0 i64.const {x} i64.eq if (result i64) i64.const {x} else local.get 1 i64.const {x} i64.shl end))");
        v.push(Prog::new(&format!("i64 constant of {} bytes", n), &w).mark(Mark::Leb(vec![0x42], x, true, 64, "k".into())).call("f", &[(I64, s("x"))]).call("g", &[(I64, s("x"))]).globals());
    }
    v
}

pub const CNAME: &str = "~cus";
pub const CBODY: &str = "~contents~";
fn style(k: usize, seed: u64) -> (&'static str, Enc) {
    let c = |v: &[(&str, &str)]| v.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect::<Vec<_>>();
    let sym = c(&[(CNAME, CBODY)]);
    let odd = c(&[("name", "\u{1}\u{5}\u{1}\u{0}\u{2}xx"), ("", ""), ("name", "\u{0}"), ("producers", "garbage"), (".debug_info", "\u{7f}\u{7f}\u{7f}")]);
    match k {
        0 => ("random mix", Enc { pad: 2, seed, custom: odd, locals: 3, data2: seed % 2 == 0, elems: (seed % 4) as u8, count: (seed % 3) as u8, types: seed % 3 > 0, align: seed % 2 == 1 }),
        1 => ("full-length numbers", Enc { pad: 1, ..Default::default() }),
        2 => ("symbolic custom sections", Enc { custom: sym, ..Default::default() }),
        3 => ("split locals", Enc { locals: 1, count: 1, ..Default::default() }),
        4 => ("empty local entries", Enc { locals: 2, count: 2, align: true, ..Default::default() }),
        5 => ("types", Enc { types: true, elems: 2, ..Default::default() }),
        6 => ("explicit indices", Enc { data2: true, elems: 1, ..Default::default() }),
        _ => ("random lengths", Enc { pad: 2, seed, elems: 3, custom: odd, ..Default::default() }),
    }
}

pub fn encodings(th: bool) -> Vec<Prog> {
    let mut base = wide();
    base.extend(state_progs());
    base.extend(samples(201, if th { 8 } else { 2 }));
    let all = |_: &str| true;
    base.extend(some(crate::progs3::instantiation(false), if th { 200 } else { 40 }, |n| n != "start_function" && n != "trapping_start_function"));
    base.extend(some(crate::progs::memory_ops(false), if th { 60 } else { 15 }, all));
    base.extend(some(crate::progs::loadstore(false), if th { 80 } else { 20 }, all));
    base.extend(some(crate::progs3::table_ops(false), if th { 40 } else { 15 }, all));
    base.extend(some(crate::progs3::indirect(false), if th { 40 } else { 10 }, all));
    base.extend(some(crate::progs6::wasi(false), if th { 80 } else { 20 }, all));
    for (o, i, r) in [("i32.mul", vec![I32, I32], I32), ("i64.shr_s", vec![I64, I64], I64), ("i32.lt_u", vec![I32, I32], I32), ("i64.eqz", vec![I64], I32), ("f32.neg", vec![F32], F32), ("f64.copysign", vec![F64, F64], F64), ("i64.extend_i32_u", vec![I32], I64), ("i32.trunc_sat_f64_s", vec![F64], I32), ("i64.trunc_sat_f32_u", vec![F32], I64)] { base.extend(crate::props::shapes("op", o, &i, r, false)); }
    base.retain(|p| p.name != "nine_results" && p.name != "deep" && !p.name.contains("start_function"));
    let mut out = lengths();
    let n = 8;
    for (i, p) in base.into_iter().enumerate() {
        for k in 0..n {
            if !th && k != 0 && k != 1 + i % (n - 1) && !(p.name.starts_with("wide") && k == 1) { continue; }
            let (sn, e) = style(k, 7 * i as u64 + 3 + k as u64);
            let mut q = p.clone();
            q.name = format!("{}: {}", q.name, sn);
            if k == 2 {
                q.enc_marks = vec![Mark::Bytes(CNAME.into(), "cname".into()), Mark::Bytes(CBODY.into(), "cbody".into())];
                let old = q.assume.clone();
                q.assume = Some(std::sync::Arc::new(move |cx| {
                    let mut v = old.as_ref().map_or(vec![], |f| f(cx));
                    for j in 0..CNAME.len() { let t = cx.var(&format!("cname{}", j), 8); let k = cx.k(128, 8); v.push(cx.ult(t, k)); }
                    v
                }));
            }
            q.enc = Some(e);
            if !th { q.modes = if (i + k) % 2 == 0 { vec!["tco"] } else { vec!["legacy"] }; }
            out.push(q);
        }
    }
    out
}
