//! Guest programs of the memory, control, call, table, global and instantiation properties.
use crate::diff::*;
use crate::gen::*;
use crate::term::*;
use crate::wasm::Ty::*;

/// lo <= v <= hi
pub fn win(cx: &mut Cx, v: &str, lo: u64, hi: u64) -> Vec<T> {
    let t = cx.var(v, 32);
    let (l, h) = (cx.k(lo, 32), cx.k(hi, 32));
    vec![cx.ule(l, t), cx.ule(t, h)]
}
/// lo <= a + b <= hi over the integers
pub fn sumwin(cx: &mut Cx, a: &str, b: &str, lo: u64, hi: u64) -> Vec<T> {
    let x = cx.var(a, 32);
    let y = cx.var(b, 32);
    let (x, y) = (cx.zext(x, 64), cx.zext(y, 64));
    let t = cx.add(x, y);
    let (l, h) = (cx.k(lo, 64), cx.k(hi, 64));
    let mut v = vec![cx.ule(l, t), cx.ule(t, h)];
    // the same facts about the 32-bit sum (implied)
    let (x, y) = (cx.var(a, 32), cx.var(b, 32));
    let t = cx.add(x, y);
    let (l, h) = (cx.k(lo, 32), cx.k(hi, 32));
    v.extend([cx.ule(l, t), cx.ule(t, h)]);
    v
}
/// v is lo..=hi or one of the extra values
pub fn winor(cx: &mut Cx, v: &str, lo: u64, hi: u64, extra: &[u64]) -> Vec<T> {
    let w = win(cx, v, lo, hi);
    let mut c = cx.and(w[0], w[1]);
    let t = cx.var(v, 32);
    for e in extra { let k = cx.k(*e, 32); let q = cx.eq(t, k); c = cx.or(c, q); }
    vec![c]
}

const D: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef";
fn data() -> (String, Mark) { (format!("(data (i32.const 512) \"{}\")", D), Mark::Bytes(D.into(), "d".into())) }

/// Address sources: value = local 0 (or the marked constant).
fn addr_sources() -> Vec<(&'static str, String)> {
    let mut v = sources(I32, 0);
    for s in v.iter_mut() { if s.0 == "reg" { s.1 = "local.get 0 i32.const 0 i32.add".into(); } }
    v
}

pub fn loadstore(th: bool) -> Vec<Prog> {
    let mut out = vec![];
    let (dseg, dmark) = data();
    // loads
    for (op, rt, sz) in loads() {
        let hi = 544 - sz as u64;
        for off in [false, true] {
            let o = if off { offm(0) } else { String::new() };
            let mut plain = vec![];
            let mut cst = vec![];
            for (n, a) in addr_sources() {
                let f = F::new(&[I32], &[rt], &format!("{} {} {}", a, op, o)).locals(&[rt]);
                if n == "const" { cst.push(f) } else { plain.push(f) }
            }
            for (sn, code, res) in sinks(rt, 1) { if sn != "ret" && (th || !off) { plain.push(F::new(&[I32], &res, &format!("local.get 0 {} {} {}", op, o, code)).locals(&[rt])); } }
            // address computed from another load, and the loaded value feeding an operator beside a pending operand
            plain.push(F::new(&[I32], &[I32, rt], &format!("i32.const 9 local.get 0 {} {}", op, o)));
            plain.push(F::new(&[I32], &[I32, rt], &format!("local.get 0 local.get 0 {} {}", op, o)));
            for (k, c) in plain.chunks(8).enumerate() {
                let mut p = batch(&format!("load {}{} #{}", op, if off { " off" } else { "" }, k), &format!("{}{}", PRE, dseg), c).mark(dmark.clone());
                if off { p = p.mark(Mark::Off(OFFM, "off".into())).assume(move |cx| sumwin(cx, "i320", "off", 512, hi)); } else { p = p.assume(move |cx| win(cx, "i320", 512, hi)); }
                out.push(p);
            }
            let mut p = batch(&format!("load {}{} const", op, if off { " off" } else { "" }), &format!("{}{}", PRE, dseg), &cst).mark(dmark.clone()).mark(mark(I32, 0, "k0"));
            if off { p = p.mark(Mark::Off(OFFM, "off".into())).assume(move |cx| sumwin(cx, "k0", "off", 512, hi)); } else { p = p.assume(move |cx| win(cx, "k0", 512, hi)); }
            out.push(p);
        }
    }
    // stores
    const RESET: &str = "(func (export \"reset\") (i64.store (i32.const 512) (i64.const 0x1122334455667788)) (i64.store (i32.const 520) (i64.const -2)) (i64.store (i32.const 528) (i64.const 0)) (i64.store (i32.const 536) (i64.const 99)))";
    for (op, vt, sz) in stores() {
        let hi = 544 - sz as u64;
        for off in [false, true] {
            let o = if off { offm(0) } else { String::new() };
            for (an, a) in addr_sources() {
                if off && !th && !matches!(an, "local" | "const" | "reg" | "tee") { continue; }
                let mut fs = vec![];
                for (vn, v) in sources(vt, 1) {
                    if !th && an != "local" && an != "const" && an != "reg" && !matches!(vn, "local" | "const" | "reg") { continue; }
                    if (vn == "const") != (an == "const") && (vn == "const" || an == "const") { continue; }
                    // value sources that go through memory use low scratch addresses
                    fs.push(F::new(&[I32, vt], &[], &format!("{} {} {} {}", a, v, op, o)));
                }
                let mut w = format!("(module {} {}\n", PRE, RESET);
                for (i, f) in fs.iter().enumerate() { w.push_str(&f.wat(&format!("f{}", i))); }
                w.push(')');
                let mut p = Prog::new(&format!("store {}{} {}", op, if off { " off" } else { "" }, an), &w);
                for (i, f) in fs.iter().enumerate() {
                    p = p.call("reset", &[]).call(&format!("f{}", i), &symargs("", &f.params)).mem(496, 80);
                }
                let av = if an == "const" { p = p.mark(mark(I32, 0, "k0")).mark(mark(vt, 1, "k1")); "k0" } else { "i320" };
                let av = av.to_string();
                if off { p = p.mark(Mark::Off(OFFM, "off".into())).assume(move |cx| sumwin(cx, &av, "off", 512, hi)); } else { p = p.assume(move |cx| win(cx, &av, 512, hi)); }
                out.push(p);
            }
            // constant on one side only
            for (a, v, m) in [(format!("i32.const {}", marker(I32, 0)), "local.get 1".to_string(), mark(I32, 0, "k0")), ("local.get 0".to_string(), format!("{}.const {}", tn(vt), marker(vt, 1)), mark(vt, 1, "k1"))] {
                let isaddr = matches!(&m, Mark::I32(_, n) if n == "k0");
                let w = format!("(module {} {} {})", PRE, RESET, F::new(&[I32, vt], &[I32], &format!("i32.const 3 {} {} {} {}", a, v, op, o)).wat("f"));
                let mut p = Prog::new(&format!("store {}{} {}", op, if off { " off" } else { "" }, if isaddr { "kaddr" } else { "kval" }), &w).call("reset", &[]).call("f", &symargs("", &[I32, vt])).mem(496, 80).mark(m);
                let av = if isaddr { "k0" } else { "i320" };
                if off { p = p.mark(Mark::Off(OFFM, "off".into())).assume(move |cx| sumwin(cx, av, "off", 512, hi)); } else { p = p.assume(move |cx| win(cx, av, 512, hi)); }
                out.push(p);
            }
        }
        // the whole page stays as it is
        let w = format!("(module {} {} {})", PRE, RESET, F::new(&[I32, vt], &[], &format!("local.get 0 local.get 1 {}", op)).wat("f"));
        out.push(Prog::new(&format!("store {} page", op), &w).call("reset", &[]).call("f", &symargs("", &[I32, vt])).mem(0, 65536).assume(move |cx| win(cx, "i320", 512, hi)));
        // at the very ends of memory
        let w = format!("(module (memory 1 1) {})", F::new(&[I32, vt], &[vt], &format!("local.get 0 local.get 1 {} local.get 0 {}", op, match vt { I32 => "i32.load8_u", I64 => "i64.load8_u", F32 => "f32.load", _ => "f64.load" })).wat("f"));
        let e = 65536 - sz.max(match vt { F32 => 4, F64 => 8, _ => 1 }) as u64;
        out.push(Prog::new(&format!("store {} end", op), &w).call("f", &symargs("", &[I32, vt])).mem(65504, 32).assume(move |cx| win(cx, "i320", e - 7, e)));
        out.push(Prog::new(&format!("store {} start", op), &w).call("f", &symargs("", &[I32, vt])).mem(0, 32).assume(move |cx| win(cx, "i320", 0, 7)));
    }
    // sequences of overlapping accesses
    let st = stores();
    let ld = loads();
    let mut seqs = vec![];
    for (i, a) in st.iter().enumerate() { for (j, b) in st.iter().enumerate() { for (k, c) in ld.iter().enumerate() {
        if th || (i + 2 * j + k) % 9 == 0 { seqs.push((*a, *b, *c)); }
    } } }
    for (n, c) in seqs.chunks(6).enumerate() {
        let mut w = format!("(module {} {}\n", PRE, RESET);
        for (i, (a, b, l)) in c.iter().enumerate() {
            w.push_str(&F::new(&[I32, I32, I32, a.1, b.1], &[l.1], &format!("local.get 0 local.get 3 {} local.get 1 local.get 4 {} local.get 2 {}", a.0, b.0, l.0)).wat(&format!("f{}", i)));
        }
        w.push(')');
        let mut p = Prog::new(&format!("seq #{}", n), &w);
        for (i, (a, b, _)) in c.iter().enumerate() { p = p.call("reset", &[]).call(&format!("f{}", i), &symargs("", &[I32, I32, I32, a.1, b.1])); }
        p = p.mem(496, 80).assume(|cx| { let mut v = win(cx, "i320", 512, 519); v.extend(win(cx, "i321", 512, 519)); v.extend(win(cx, "i322", 512, 519)); v });
        out.push(p);
    }
    // a load used as the value or address of a store, interleaved accesses
    let fs = vec![
        F::new(&[I32, I32], &[], "local.get 0 local.get 1 i32.load i32.store"),
        F::new(&[I32, I32], &[], "local.get 0 local.get 1 i64.load i64.store"),
        F::new(&[I32, I32], &[], "local.get 0 local.get 1 f64.load f64.store"),
        F::new(&[I32, I32], &[], "local.get 0 local.get 1 f32.load offset=1 f32.store offset=2"),
        F::new(&[I32, I32], &[I32], "local.get 0 i32.load8_u local.get 1 i32.load8_s i32.sub"),
        F::new(&[I32, I32], &[I64], "local.get 0 i64.load32_s local.get 1 i64.load8_u i64.sub"),
        F::new(&[I32, I32], &[I32], "local.get 0 i32.load8_u i32.const 7 i32.and i32.const 512 i32.add i32.load8_u"),
        F::new(&[I32, I32], &[I32], "local.get 0 local.get 0 i32.load8_u local.get 1 i32.load8_u i32.add i32.store8 local.get 0 i32.load8_u"),
        F::new(&[I32, I32], &[I32, I32], "local.get 0 i32.load local.get 1 i32.const 5 i32.store local.get 0 i32.load"),
        F::new(&[I32, I32], &[I32], "(local i32) local.get 0 local.set 2 local.get 1 local.set 0 local.get 2 i32.const 77 i32.store8 local.get 0 i32.load8_u local.get 2 i32.load8_u i32.sub"),
    ];
    for (i, f) in fs.iter().enumerate() {
        out.push(batch(&format!("mix #{}", i), &format!("{}{}", PRE, dseg), std::slice::from_ref(f)).mark(dmark.clone()).mem(496, 80).assume(|cx| { let mut v = win(cx, "i320", 512, 521); v.extend(win(cx, "i321", 512, 521)); v }));
    }
    out
}

pub fn memory_ops(th: bool) -> Vec<Prog> {
    let mut out = vec![];
    let (dseg, dmark) = data();
    let i = &symargs("", &[I32]);
    // size/grow against every declared minimum/maximum, delta unrestricted
    for (min, max) in [(0u32, 0u32), (0, 1), (0, 3), (1, 1), (1, 2), (1, 4), (2, 3), (3, 4)] {
        for (src, code) in [("local", "local.get 0"), ("const", &*format!("i32.const {}", marker(I32, 0))), ("reg", "local.get 0 i32.const 0 i32.add"), ("call", "local.get 0 call $id")] {
            if !th && src != "local" && min != 1 { continue; }
            let w = format!("(module (memory {} {}) (func $id (param i32) (result i32) local.get 0)
               (func (export \"grow\") (param i32) (result i32) {} memory.grow)
               (func (export \"growset\") (param i32) (result i32) (local i32) {} memory.grow local.set 1 local.get 1)
               (func (export \"size\") (result i32) memory.size)
               (func (export \"sizes\") (result i32 i32 i32) (local i32) memory.size memory.size local.tee 0 local.get 0))", min, max, code, code);
            let mut p = Prog::new(&format!("grow {} {} {}", min, max, src), &w).call("size", &[]).call("grow", i).call("size", &[]).call("grow", i).call("sizes", &[]).call("growset", i).call("size", &[]).mem(0, 0);
            if src == "const" { p = p.mark(mark(I32, 0, "k0")); }
            out.push(p);
        }
    }
    // no declared maximum: small deltas, and deltas beyond 65536 pages
    for min in [0u32, 1, 2] {
        let w = format!("(module (memory {}) (func (export \"grow\") (param i32) (result i32) local.get 0 memory.grow) (func (export \"size\") (result i32) memory.size))", min);
        out.push(Prog::new(&format!("grow {} nomax", min), &w).call("grow", i).call("size", &[]).call("grow", &symargs("b", &[I32])).call("size", &[]).mem(0, 0).assume(move |cx| {
            let mut v = vec![];
            for n in ["i320", "bi320"] {
                let t = cx.var(n, 32);
                let (a, b) = (cx.k(3, 32), cx.k(65537 - min as u64, 32));
                let (x, y) = (cx.ule(t, a), cx.ule(b, t));
                v.push(cx.or(x, y));
            }
            v
        }));
    }
    // contents across growth, and visibility in callers
    let w = format!("(module (memory 1 4) (table 4 funcref) (elem (i32.const 0) $g1 $g2) {}
      (type $t (func (param i32) (result i32)))
      (func $g1 (param i32) (result i32) local.get 0 memory.grow)
      (func $g2 (param i32) (result i32) local.get 0 call $g1 i32.const 65536 i32.const 0x1234 i32.store)
      (func (export \"old\") (param i32 i32) (result i32 i32 i32) i32.const 512 local.get 1 i32.store local.get 0 memory.grow i32.const 512 i32.load memory.size)
      (func (export \"new\") (param i32) (result i64 i32 i32) i32.const 1 memory.grow drop i32.const 65536 local.get 0 i32.const 7 i32.and i32.add i64.load i32.const 131071 i32.load8_u i32.const 65535 i32.load8_u)
      (func (export \"caller\") (param i32 i32) (result i32 i32 i32) local.get 0 call $g1 drop memory.size i32.const 65540 local.get 1 i32.store i32.const 65540 i32.load i32.const 512 i32.load)
      (func (export \"caller2\") (param i32 i32) (result i32 i32) local.get 0 call $g2 i32.const 65536 i32.load)
      (func (export \"icaller\") (param i32 i32) (result i32 i32 i32) local.get 0 local.get 1 call_indirect (type $t) memory.size i32.const 65540 local.get 0 i32.store8 i32.const 65540 i32.load8_u)
      (func (export \"peek\") (param i32) (result i32) local.get 0 i32.const 0xffff i32.and i32.const 65536 i32.add i32.load8_u)
    )", dseg);
    let v = |n: usize| symargs("", &vec![I32; n]);
    out.push(Prog::new("grow contents", &w).mark(dmark.clone()).call("old", &v(2)).mem(496, 80).assume(|cx| { let mut a = win(cx, "i320", 0, 5); a.truncate(2); a }));
    out.push(Prog::new("grow zero", &w).call("new", &v(1)).mem(65504, 65536 - 32));
    out.push(Prog::new("grow caller", &w).call("caller", &[(I32, Arg::K(1)), (I32, s("x"))]).mem(65536, 64).call("caller", &[(I32, Arg::K(1)), (I32, s("y"))]).mem(65536, 64).mem(512, 32));
    out.push(Prog::new("grow caller2", &w).call("caller2", &[(I32, Arg::K(2)), (I32, s("x"))]).mem(65536, 64));
    out.push(Prog::new("grow icaller", &w).call("icaller", &[(I32, Arg::K(1)), (I32, s("x"))]).mem(65536, 64).call("peek", &[(I32, Arg::K(4))]).assume(|cx| win(cx, "x", 0, 1)));
    for d in 0..=3u64 {
        // growth inside nested control flow, in a loop, and under a live load address
        let w = "(module (memory 1 4)
          (func (export \"lp\") (param i32) (result i32 i32) (local i32)
            (loop $l local.get 1 i32.const 1 i32.add local.set 1 i32.const 1 memory.grow drop memory.size i32.const 16 i32.shl i32.const 4 i32.sub local.get 1 i32.store local.get 1 local.get 0 i32.lt_u br_if $l)
            memory.size i32.const 16 i32.shl i32.const 4 i32.sub i32.load memory.size)
          (func (export \"cond\") (param i32) (result i32) (if (result i32) (local.get 0) (then i32.const 1 memory.grow) (else memory.size)) memory.size i32.const 16 i32.shl i32.add)
        )";
        out.push(Prog::new(&format!("grow loop {}", d), w).call("lp", &[(I32, Arg::K(d))]).call("cond", &symargs("", &[I32])).mem(65472, 64));
    }
    // fill / copy / init
    let reset = "(func (export \"reset\") (i64.store (i32.const 512) (i64.const 0x1122334455667788)) (i64.store (i32.const 520) (i64.const 0x99aabbccddeeff01)))";
    let edge: Vec<u64> = vec![65536, 65537, 0xffff_ffff, 0x8000_0000];
    let ops: [(&str, &str); 3] = [("fill", "memory.fill"), ("copy", "memory.copy"), ("init", "memory.init $p")];
    let forms = |a: &[&str; 3]| -> Vec<(String, String)> {
        let mut v = vec![("lll".to_string(), format!("{} {} {}", a[0], a[1], a[2]))];
        v.push(("reg".into(), format!("{} i32.const 0 i32.add {} i32.const 0 i32.add {} i32.const 0 i32.add", a[0], a[1], a[2])));
        v.push(("mix".into(), format!("{} i32.const 0 i32.add {} {} call $id", a[0], a[1], a[2])));
        v.push(("tee".into(), format!("{} local.tee 3 {} {} i32.const 0 i32.or", a[0], a[1], a[2])));
        v.push(("kkk".into(), format!("i32.const {} i32.const {} i32.const {}", marker(I32, 0), marker(I32, 1), marker(I32, 2))));
        v.push(("kll".into(), format!("i32.const {} {} {}", marker(I32, 0), a[1], a[2])));
        v.push(("lkl".into(), format!("{} i32.const {} {}", a[0], marker(I32, 1), a[2])));
        v.push(("llk".into(), format!("{} {} i32.const {}", a[0], a[1], marker(I32, 2))));
        v
    };
    for (n, op) in ops {
        for (fnm, code) in forms(&["local.get 0", "local.get 1", "local.get 2"]) {
            let w = format!("(module (memory 1 2) {} (data $p \"{}\") (func $id (param i32) (result i32) local.get 0) {}
              (func (export \"f\") (param i32 i32 i32) (result i32 i32) (local i32) i32.const 41 {} {} local.get 0))", dseg.replace(D, "0123456789012345"), D, reset, code, op);
            let ks: Vec<usize> = (0..3).filter(|k| w.contains(&marker(I32, *k))).collect();
            let names: Vec<String> = (0..3).map(|k| if ks.contains(&k) { format!("k{}", k) } else { format!("i32{}", k) }).collect();
            let mk = |tag: &str| {
                let mut p = Prog::new(&format!("bulk {} {} {}", n, fnm, tag), &w).mark(dmark.clone());
                for k in &ks { p = p.mark(mark(I32, *k, &format!("k{}", k))); }
                p.call("reset", &[]).call("f", &symargs("", &[I32, I32, I32])).mem(496, 64)
            };
            let nm = names.clone();
            let init = n == "init";
            let fill = n == "fill";
            let wide = if th { 24 } else { 6 };
            // in range
            out.push(mk("in").assume(move |cx| {
                let mut v = win(cx, &nm[0], 508, 508 + wide / 2);
                if init { v.extend(win(cx, &nm[1], 0, wide / 2)); } else if !fill { v.extend(win(cx, &nm[1], 508, 508 + wide / 2)); }
                v.extend(win(cx, &nm[2], 0, wide));
                v
            }));
            if fnm == "lll" || fnm == "kkk" || th {
                // around the end of memory / of the segment, and with huge operands
                let nm = names.clone();
                let e = edge.clone();
                out.push(mk("edge").mem(65504, 32).assume(move |cx| {
                    let mut v = winor(cx, &nm[0], 65533, 65537, &e);
                    if !init { let a = cx.var(&nm[0], 32); let n = cx.var(&nm[2], 32); let (a, n) = (cx.zext(a, 64), cx.zext(n, 64)); let t = cx.add(a, n); let k = cx.k(65536, 64); v.push(cx.ule(t, k)); if !fill { let a = cx.var(&nm[1], 32); let a = cx.zext(a, 64); let t = cx.add(a, n); v.push(cx.ule(t, k)); } }
                    if init { v.extend(winor(cx, &nm[1], 30, 33, &[0, 0xffff_ffff])); } else if !fill { v.extend(winor(cx, &nm[1], 65534, 65537, &[0, 512, 0xffff_ffff])); }
                    v.extend(winor(cx, &nm[2], 0, 3, &[0xffff_ffff, 65536, 0xffff_0001]));
                    v
                }));
            }
        }
    }
    // dropping a passive segment: only empty inits remain possible; active segments count as dropped
    let w = format!("(module (memory 1 2) (data $a (i32.const 512) \"0123456789012345\") (data $p \"{}\") (data $q \"xyz\")
       (func (export \"init\") (param i32 i32 i32) local.get 0 local.get 1 local.get 2 memory.init $p)
       (func (export \"initq\") (param i32 i32 i32) local.get 0 local.get 1 local.get 2 memory.init $q)
       (func (export \"inita\") (param i32 i32 i32) local.get 0 local.get 1 local.get 2 memory.init $a)
       (func (export \"drop\") data.drop $p) (func (export \"dropq\") data.drop $q))", D);
    let a3 = symargs("", &[I32, I32, I32]);
    let sm = |cx: &mut Cx| { let mut v = winor(cx, "i320", 514, 516, &[65536, 65537]); v.extend(winor(cx, "i321", 0, 2, &[33])); v.extend(win(cx, "i322", 0, 3)); v };
    out.push(Prog::new("drop init", &w).mark(dmark.clone()).call("init", &a3).mem(496, 64).call("drop", &[]).call("init", &a3).mem(496, 64).call("drop", &[]).call("initq", &a3).mem(496, 64).assume(sm));
    out.push(Prog::new("drop other", &w).mark(dmark.clone()).call("dropq", &[]).call("init", &a3).mem(496, 64).call("initq", &a3).mem(496, 64).assume(sm));
    out.push(Prog::new("drop active", &w).mark(dmark.clone()).call("inita", &a3).mem(496, 64).assume(sm));
    out
}
