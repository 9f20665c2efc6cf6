//! Guest programs of the table, global and instantiation properties.
use crate::diff::*;
use crate::gen::*;
use crate::progs::*;
use crate::rgen::*;
use crate::wasm::Ty::{self, *};

/// Functions of eight kinds of signature; $A and $B are structurally equal types.
const TPRE: &str = "(memory 1) (global $gi32 (mut i32) (i32.const 0)) (global $hits (mut i32) (i32.const 0))
 (type $A (func (param i32) (result i32))) (type $C (func (param i64) (result i64))) (type $B (func (param i32) (result i32))) (type $V (func)) (type $M (func (param i32) (result i32 i32)))
 (type $R (func (result i32))) (type $F (func (param f32) (result f32))) (type $D (func (param f64) (result f64))) (type $P2 (func (param i32 i32) (result i32)))
 (func $a (type $A) local.get 0 i32.const 1 i32.add)
 (func $b (type $B) local.get 0 i32.const 5 i32.xor)
 (func $c (type $C) local.get 0 i64.const 1 i64.sub)
 (func $v (type $V) global.get $hits i32.const 1 i32.add global.set $hits)
 (func $m (type $M) local.get 0 local.get 0 i32.eqz)
 (func $r (type $R) i32.const 42)
 (func $f (type $F) local.get 0 f32.neg)
 (func $d (type $D) local.get 0 f64.abs)
 (func $p2 (type $P2) local.get 0 local.get 1 i32.sub)
 (func $idi32 (param i32) (result i32) local.get 0)
 (table $t 10 funcref) (elem (table $t) (i32.const 0) func $a $b $c) (elem (table $t) (i32.const 4) func $v $m $r $f $p2)
 (table $u 6 10 funcref) (elem (table $u) (i32.const 1) func $d $a $p2 $a)
 (table $x 4 externref)";

/// call_indirect with an unrestricted symbolic index.
pub fn indirect(th: bool) -> Vec<Prog> {
    let mut out = vec![];
    let types: [(&str, Vec<Ty>, Vec<Ty>); 9] = [("$A", vec![I32], vec![I32]), ("$B", vec![I32], vec![I32]), ("$C", vec![I64], vec![I64]), ("$V", vec![], vec![]), ("$M", vec![I32], vec![I32, I32]),
        ("$R", vec![], vec![I32]), ("$F", vec![F32], vec![F32]), ("$D", vec![F64], vec![F64]), ("$P2", vec![I32, I32], vec![I32])];
    let par = [I32, I32, I64, F32, F64];
    let arg = |t: Ty, n: usize| match t { I32 => format!("local.get {} ", 1 - (n & 1)), I64 => "local.get 2 ".into(), F32 => "local.get 3 ".into(), _ => "local.get 4 ".to_string() };
    for (tn_, ps, rs) in &types {
        for tab in ["$t", "$u"] {
            let args: String = ps.iter().enumerate().map(|(k, t)| arg(*t, k)).collect();
            let mut fs: Vec<(String, F, bool)> = vec![];
            for (sn, code) in sources(I32, 0) {
                let code = if sn == "reg" { "local.get 0 i32.const 1 i32.sub".to_string() } else { code };
                fs.push((sn.into(), F::new(&par, rs, &format!("{} {} call_indirect {} (type {})", args, code, tab, tn_)), sn == "const"));
            }
            // values pending below the arguments
            let mut r2 = vec![I32, F64];
            r2.extend(rs);
            fs.push(("pending".into(), F::new(&par, &r2, &format!("local.get 1 i32.const 3 i32.add local.get 4 {} local.get 0 call_indirect {} (type {})", args, tab, tn_)), false));
            // operands computed in registers
            let args2: String = ps.iter().enumerate().map(|(k, t)| match t { I32 | I64 => format!("{} {}.const 1 {}.xor ", arg(*t, k), tn(*t), tn(*t)), t => format!("{} {}.neg ", arg(*t, k), tn(*t)) }).collect();
            fs.push(("args".into(), F::new(&par, rs, &format!("{} local.get 0 local.get 1 i32.and call_indirect {} (type {})", args2, tab, tn_)), false));
            // twice, through a block and from a loop body
            if ps == rs { fs.push(("twice".into(), F::new(&par, rs, &format!("{} local.get 0 call_indirect {} (type {}) local.get 1 call_indirect {} (type {})", args, tab, tn_, tab, tn_)), false)); }
            if rs.len() == 1 { fs.push(("block".into(), F::new(&par, rs, &format!("(block (result {}) {} local.get 0 call_indirect {} (type {}) br 0)", tn(rs[0]), args, tab, tn_)), false)); }
            let drops: String = rs.iter().map(|_| "drop ").collect();
            fs.push(("dropped".into(), F::new(&par, &[I32], &format!("local.get 1 {} local.get 0 call_indirect {} (type {}) {}", args, tab, tn_, drops)), false));
            fs.push(("if".into(), F::new(&par, &[I32], &format!("local.get 1 if {} local.get 0 call_indirect {} (type {}) {} else {} local.get 0 i32.const 1 i32.shr_u call_indirect {} (type {}) {} end global.get $hits", args, tab, tn_, drops, args, tab, tn_, drops)), false));
            for (n, f, sym) in fs {
                let mut p = batch(&format!("indirect {} {} {}", tn_, tab, n), TPRE, std::slice::from_ref(&f)).globals();
                if sym { p = p.mark(mark(I32, 0, "k0")); }
                out.push(p);
            }
        }
    }
    // calls to a table whose entries the guest changes first
    for (n, body) in [
        ("set-null", "local.get 0 ref.null func table.set $t local.get 1 local.get 1 call_indirect $t (type $A)"),
        ("set-get", "local.get 0 local.get 1 table.get $u table.set $t local.get 1 local.get 0 call_indirect $t (type $A)"),
        ("set-param", "local.get 0 local.get 2 table.set $t local.get 1 local.get 0 call_indirect $t (type $A)"),
        ("fill", "i32.const 2 local.get 2 local.get 0 table.fill $t local.get 1 i32.const 4 call_indirect $t (type $A)"),
    ] {
        let w = format!("(module {} (func (export \"f\") (param i32 i32 funcref) (result i32) {}))", TPRE, body);
        let mut p = Prog::new(&format!("changed {}", n), &w).call("f", &[(I32, s("i")), (I32, s("j")), (FuncRef, s("r"))]).table(0).table(1).globals();
        p = p.assume(|cx| { let mut v = win(cx, "r", 0, 10); v.extend(winor(cx, "i", 0, 11, &[0xffff_ffff, 0x8000_0000])); v.extend(winor(cx, "j", 0, 11, &[0xffff_ffff, 0x8000_0000])); v });
        out.push(p);
    }
    let _ = th;
    out
}

/// Random sequences of table instructions.
pub fn tables(name: &str, seed: u64, n: usize) -> Vec<Prog> {
    (0..n).map(|i| {
        let mut r = Rng::new(seed * 9_000_011 + i as u64);
        let len = 2 + r.below(5);
        let mut body = String::new();
        // params: 0 i32, 1 i32, 2 funcref, 3 externref, 4 i32 accumulator local, 5 funcref local, 6 externref local
        fn ix(r: &mut Rng) -> String { match r.below(6) { 0 | 1 => "local.get 0".into(), 2 | 3 => "local.get 1".into(), 4 => format!("i32.const {}", r.below(7)), _ => "local.get 0 i32.const 1 i32.add".to_string() } }
        fn rv(r: &mut Rng, ext: bool, d: usize) -> String {
            let (p, l, nul) = if ext { (3, 6, "extern") } else { (2, 5, "func") };
            match r.below(if d > 0 { 7 } else { 4 }) {
                0 => format!("local.get {}", p),
                1 => format!("local.get {}", l),
                2 => format!("ref.null {}", nul),
                3 => format!("local.get {}", p),
                4 => format!("{} table.get {}", ix(r), if ext { "$x" } else if r.chance(1, 2) { "$t" } else { "$u" }),
                5 => format!("{} local.tee {}", rv(r, ext, d - 1), l),
                _ => format!("(block (result {}ref) {})", if ext { "extern" } else { "func" }, rv(r, ext, d - 1)),
            }
        }
        for _ in 0..len {
            let ext = r.chance(1, 3);
            let tab = if ext { "$x" } else if r.chance(1, 2) { "$t" } else { "$u" };
            let l = if ext { 6 } else { 5 };
            match r.below(8) {
                0 | 1 => { body.push_str(&format!("{} {} table.set {} ", ix(&mut r), rv(&mut r, ext, 2), tab)); }
                2 => { body.push_str(&format!("{} local.set {} ", rv(&mut r, ext, 2), l)); }
                3 => { body.push_str(&format!("local.get 4 i32.const 1 i32.shl {} ref.is_null i32.or local.set 4 ", rv(&mut r, ext, 2))); }
                4 => { body.push_str(&format!("{} {} i32.const {} table.fill {} ", ix(&mut r), rv(&mut r, ext, 1), r.below(4), tab)); }
                5 => { body.push_str(&format!("{} table.get {} local.set {} ", ix(&mut r), tab, l)); }
                6 => { let c = ix(&mut r); body.push_str(&format!("local.get 4 {} call_indirect {} (type $A) local.set 4 ", c, if ext { "$t" } else { tab })); }
                _ => { body.push_str(&format!("{} if {} {} table.set {} end ", ix(&mut r), ix(&mut r), rv(&mut r, ext, 1), tab)); }
            }
        }
        let w = format!("(module {} (func (export \"f\") (param i32 i32 funcref externref) (result i32 funcref externref) (local i32 funcref externref) {} local.get 4 local.get 5 local.get 6))", TPRE, body);
        let a = [(I32, s("i")), (I32, s("j")), (FuncRef, s("r")), (ExternRef, s("e"))];
        let b = [(I32, s("j")), (I32, s("i")), (FuncRef, Arg::K(0)), (ExternRef, s("e"))];
        Prog::new(&format!("{} {}.{}", name, seed, i), &w).call("f", &a).table(0).table(2).call("f", &b).table(0).table(1).table(2).globals()
            .assume(|cx| { let mut v = win(cx, "r", 0, 3); v.extend(win(cx, "e", 0, 2)); v.extend(winor(cx, "i", 0, 4, &[9, 10, 0xffff_ffff])); v.extend(winor(cx, "j", 3, 4, &[6])); v })
    }).collect()
}

/// Single table instructions with every index.
pub fn table_ops(_th: bool) -> Vec<Prog> {
    let mut out = vec![];
    let mut add = |n: &str, f: &str, e: &str| {
        let w = format!("(module {} {})", TPRE, f);
        let mut p = Prog::new(&format!("table {}", n), &w);
        let args: Vec<(Ty, Arg)> = match e { "i" => vec![(I32, s("i"))], "ir" => vec![(I32, s("i")), (FuncRef, s("r"))], "ie" => vec![(I32, s("i")), (ExternRef, s("r"))], "irn" => vec![(I32, s("i")), (FuncRef, s("r")), (I32, s("n"))], "r" => vec![(FuncRef, s("r"))], "e" => vec![(ExternRef, s("r"))], "rrc" => vec![(FuncRef, s("r")), (FuncRef, s("r2")), (I32, s("i"))], "eec" => vec![(ExternRef, s("r")), (ExternRef, s("r2")), (I32, s("i"))], _ => vec![] };
        let ext = e.contains('e');
        let names: Vec<String> = args.iter().map(|a| if let Arg::Sym(n) = &a.1 { n.clone() } else { String::new() }).collect();
        p = p.call("f", &args).table(0).table(1).table(2).assume(move |cx| {
            let mut v = vec![];
            for n in &names { if n.starts_with('r') { v.extend(win(cx, n, 0, if ext { 4 } else { 10 })); } if n == "n" { v.extend(winor(cx, n, 0, 3, &[5, 6, 9, 10, 11, 0xffff_ffff, 0x8000_0000])); } }
            if names.iter().any(|x| x == "n") { v.extend(winor(cx, "i", 0, 3, &[5, 6, 8, 9, 10, 11, 0xffff_ffff, 0xffff_fffe, 0x8000_0000])); }
            v
        });
        out.push(p);
    };
    for tab in ["$t", "$u"] {
        add(&format!("get {}", tab), &format!("(func (export \"f\") (param i32) (result funcref) local.get 0 table.get {})", tab), "i");
        add(&format!("set {}", tab), &format!("(func (export \"f\") (param i32 funcref) (result i32) i32.const 7 local.get 0 local.get 1 table.set {})", tab), "ir");
        add(&format!("fill {}", tab), &format!("(func (export \"f\") (param i32 funcref i32) (result i32) i32.const 7 local.get 0 local.get 1 local.get 2 table.fill {})", tab), "irn");
        add(&format!("isnull {}", tab), &format!("(func (export \"f\") (param i32) (result i32 i32) i32.const 7 local.get 0 table.get {} ref.is_null)", tab), "i");
        add(&format!("copy entry {}", tab), &format!("(func (export \"f\") (param i32) (result funcref) i32.const 2 local.get 0 table.get {} table.set {} local.get 0 table.get {})", tab, tab, tab), "i");
    }
    add("xget", "(func (export \"f\") (param i32) (result externref) local.get 0 table.get $x)", "i");
    add("xset", "(func (export \"f\") (param i32 externref) (result externref i32) local.get 0 local.get 1 table.set $x i32.const 1 table.get $x local.get 0)", "ie");
    add("xnull", "(func (export \"f\") (param i32 externref) (result i32 i32) local.get 0 local.get 1 table.set $x local.get 0 table.get $x ref.is_null local.get 1 ref.is_null)", "ie");
    add("ref pass", "(func $p (param funcref) (result funcref) local.get 0) (func (export \"f\") (param funcref) (result funcref i32) local.get 0 call $p local.get 0 ref.is_null)", "r");
    add("ref xpass", "(func $p (param externref i32) (result i32 externref) local.get 1 local.get 0) (func (export \"f\") (param externref) (result i32 externref externref) local.get 0 i32.const 4 call $p local.get 0)", "e");
    add("ref null", "(func (export \"f\") (result funcref externref i32 i32) ref.null func ref.null extern ref.null func ref.is_null ref.null extern ref.is_null)", "");
    add("ref locals", "(func (export \"f\") (param funcref) (result funcref funcref i32) (local funcref funcref) local.get 0 local.set 1 ref.null func local.set 0 local.get 1 local.tee 2 drop local.get 0 local.get 2 local.get 1 ref.is_null)", "r");
    add("ref block", "(func (export \"f\") (param funcref) (result funcref i32) (block (result funcref) local.get 0 local.get 0 ref.is_null br_if 0 drop ref.null func) i32.const 3)", "r");
    add("ref if", "(func (export \"f\") (param funcref funcref i32) (result funcref) local.get 2 if (result funcref) local.get 0 else local.get 1 end)", "rrc");
    add("ref brtable", "(func (export \"f\") (param funcref funcref i32) (result funcref) (block (result funcref) (block (result funcref) local.get 0 local.get 2 br_table 0 1 0) drop local.get 1))", "rrc");
    add("ref select", "(func (export \"f\") (param funcref funcref i32) (result funcref i32) local.get 0 local.get 1 local.get 2 select (result funcref) i32.const 9)", "rrc");
    add("ref xselect", "(func (export \"f\") (param externref externref i32) (result externref i32) local.get 0 local.get 1 local.get 2 select (result externref) i32.const 9)", "eec");
    add("ref select get", "(func (export \"f\") (param funcref funcref i32) (result funcref) i32.const 1 table.get $t local.get 1 local.get 2 i32.const 1 i32.and select (result funcref))", "rrc");
    // tables of size 0 and 1
    for (nm, t) in [("0", "(table $z 0 funcref)"), ("1", "(table $z 1 1 funcref) (elem (table $z) (i32.const 0) func $a)"), ("max", "(table $z 2 65536 funcref) (elem (table $z) (i32.const 1) func $a)")] {
        add(&format!("size {}", nm), &format!("{} (func (export \"f\") (param i32) (result i32) i32.const 5 local.get 0 call_indirect $z (type $A))", t), "i");
    }
    out
}

// ---- globals ----

const GPRE_T: [Ty; 10] = [I32, I64, F32, F64, I32, I64, F32, F64, I32, I64];
fn gpre(marks: &mut Vec<Mark>) -> String {
    let mut w = String::from("(memory 1)\n");
    for (k, t) in GPRE_T.iter().enumerate() {
        let m = k < 8;
        let init = if k % 2 == 0 { marks.push(mark(*t, 10 + k, &format!("init{}", k))); marker(*t, 10 + k) } else { format!("{}", k) };
        w.push_str(&if m { format!("(global $g{} (mut {}) ({}.const {}))\n", k, tn(*t), tn(*t), init) } else { format!("(global $g{} {} ({}.const {}))\n", k, tn(*t), tn(*t), init) });
        if m { w.push_str(&format!("(func $set{} (param {t}) local.get 0 global.set $g{}) (func $swap{} (param {t}) (result {t}) global.get $g{} local.get 0 global.set $g{})\n", k, k, k, k, k, t = tn(*t))); }
        w.push_str(&format!("(func $get{} (result {}) global.get $g{})\n", k, tn(*t), k));
    }
    w
}

/// All sequences over two globals and two locals of one type.
pub fn global_seqs(th: bool) -> Vec<Prog> {
    let mut out = vec![];
    for t in NUM {
        let n = tn(t);
        let (a, b): (usize, usize) = match t { I32 => (0, 4), I64 => (1, 5), F32 => (2, 6), _ => (3, 7) };
        let mut al: Vec<Op> = vec![];
        for g in [a, b] {
            al.push(op(&format!("global.get $g{}", g), &[], &[t]));
            al.push(op(&format!("global.set $g{}", g), &[t], &[]));
        }
        al.push(op("local.get 0", &[], &[t]));
        al.push(op("local.set 0", &[t], &[]));
        al.push(op("local.tee 1", &[t], &[t]));
        al.push(op(&format!("{}.const 7", n), &[], &[t]));
        match t { I32 | I64 => al.push(op(&format!("{}.sub", n), &[t, t], &[t])), _ => al.push(op(&format!("{}.copysign", n), &[t, t], &[t])) }
        let plain = al.clone();
        al.push(op(&format!("call $get{}", a), &[], &[t]));
        al.push(op(&format!("call $set{}", a), &[t], &[]));
        al.push(op(&format!("call $swap{}", b), &[t], &[t]));
        al.push(op("drop", &[t], &[]));
        al.push(match t { I32 | I64 => op(&format!("{}.extend8_s", n), &[t], &[t]), _ => op(&format!("{}.neg", n), &[t], &[t]) });
        for (alpha, len, step) in [(&plain, 2, 1), (&plain, 3, 1), (&plain, 4, 1), (&al, 2, 1), (&al, 3, 1), (&plain, 5, if th { 2 } else { 23 }), (&al, 4, if th { 1 } else { 11 })] {
            let fs = sequences(alpha, len, &[t, t], 2, &mut |k| k % step == 0);
            let fs: Vec<F> = fs.into_iter().filter(|f| f.body.contains("global") || f.body.contains("$get") || f.body.contains("$s")).collect();
            for (i, c) in fs.chunks(24).enumerate() {
                let mut m = vec![];
                let pre = gpre(&mut m);
                let mut p = batch(&format!("gseq {} {}/{} #{}", n, len, alpha.len(), i), &pre, c).globals();
                // only the globals of this type start symbolic
                for x in m { let keep = matches!((&x, t), (Mark::I32(..), I32) | (Mark::I64(..), I64) | (Mark::F32(..), F32) | (Mark::F64(..), F64)); if keep { p = p.mark(x); } }
                out.push(p);
            }
        }
    }
    out
}

/// Random programs over ten globals, several calls, two instances.
pub fn global_rand(name: &str, seed: u64, n: usize) -> Vec<Prog> {
    (0..n).map(|i| {
        let mut r = Rng::new(seed * 11_000_027 + i as u64);
        let mut marks = vec![];
        let pre = gpre(&mut marks);
        let locals = [I32, I64, F32, F64];
        fn val(r: &mut Rng, t: Ty, d: usize) -> String {
            let l = match t { I32 => 0, I64 => 1, F32 => 2, _ => 3 };
            let gs: Vec<usize> = (0..10).filter(|k| GPRE_T[*k] == t).collect();
            match r.below(if d > 0 { 9 } else { 4 }) {
                0 => format!("local.get {}", l),
                1 | 2 => format!("global.get $g{}", r.pick(&gs)),
                3 => format!("call $get{}", r.pick(&gs)),
                4 => { let g = loop { let g = *r.pick(&gs); if g < 8 { break g; } }; format!("{} call $swap{}", val(r, t, d - 1), g) }
                5 => match t { I32 | I64 => format!("{} {} {}.{}", val(r, t, d - 1), val(r, t, d - 1), tn(t), r.pick(&["sub", "xor", "and"])), t => format!("{} {} {}.copysign", val(r, t, d - 1), val(r, t, d - 1), tn(t)) },
                6 => match t { I32 => format!("{} i32.wrap_i64", val(r, I64, d - 1)), I64 => format!("{} i64.extend_i32_s", val(r, I32, d - 1)), F32 => format!("{} f32.reinterpret_i32", val(r, I32, d - 1)), _ => format!("{} f64.reinterpret_i64", val(r, I64, d - 1)) },
                7 => format!("(if (result {}) ({}) (then {}) (else {}))", tn(t), wrap(&val(r, I32, 0)), val(r, t, d - 1), val(r, t, d - 1)),
                _ => { let g = loop { let g = *r.pick(&gs); if g < 8 { break g; } }; format!("{} global.set $g{} global.get $g{}", val(r, t, d - 1), g, r.pick(&gs)) }
            }
        }
        fn wrap(s: &str) -> String { s.to_string() }
        let mut w = format!("(module {}", pre);
        for f in 0..2 {
            let mut body = String::new();
            for _ in 0..2 + r.below(4) {
                match r.below(4) {
                    0 | 1 => { let g = r.below(8); body.push_str(&format!("{} global.set $g{} ", val(&mut r, GPRE_T[g], 2), g)); }
                    2 => { let l = r.below(4); body.push_str(&format!("{} local.set {} ", val(&mut r, locals[l], 2), l)); }
                    _ => { let g = r.below(8); body.push_str(&format!("{} call $set{} ", val(&mut r, GPRE_T[g], 2), g)); }
                }
            }
            let t = *r.pick(&NUM);
            w.push_str(&format!("(func (export \"f{}\") (param i32 i64 f32 f64) (result {}) {} {})", f, tn(t), body, val(&mut r, t, 2)));
        }
        w.push(')');
        let mut p = Prog::new(&format!("{} {}.{}", name, seed, i), &w).call("f0", &symargs("", &locals)).globals().call("f1", &symargs("b", &locals)).globals();
        if i % 3 == 0 { p = p.inst().globals().call("f0", &symargs("b", &locals)).globals().select(0).globals().call("f0", &symargs("", &locals)).globals(); }
        // constants that happen to be folded away still count as initial values
        for m in marks { p = p.mark(m); }
        p
    }).collect()
}
pub fn global_misc() -> Vec<Prog> {
    let mut out = vec![];
    // initialisers at the ends of their encodings are symbolic marks already; defined by another global
    let w = format!("(module (global $a i32 (i32.const {})) (global $b (mut i32) (global.get $a)) (global $c (mut i64) (i64.const -1)) (func (export \"f\") (param i32) (result i32 i32) global.get $b local.get 0 global.set $b global.get $b))", marker(I32, 0));
    out.push(Prog::new("init from a global", &w).mark(mark(I32, 0, "k0")).call("f", &[(I32, s("x"))]).globals());
    out
}

// ---- instantiation ----

const A24: &str = "ABCDEFGHIJKLMNOPQRSTUVWX";

pub fn instantiation(th: bool) -> Vec<Prog> {
    let mut out = vec![];
    let obs = "(func (export \"ld\") (param i32) (result i32) local.get 0 i32.const 127 i32.and i32.load8_u)";
    // overlapping active segments at symbolic offsets with symbolic contents, one of them given by a global
    for (n, len) in [("2x4", vec![4usize, 4]), ("3x3", vec![3, 3, 3]), ("8+1", vec![8, 1]), ("1+8", vec![1, 8]), ("0+4", vec![0, 4])] {
        let mut segs = String::new();
        let mut p = 0;
        let mut marks = vec![];
        for (k, l) in len.iter().enumerate() {
            let pat = &A24[p..p + l];
            p += l;
            segs.push_str(&format!("(data (i32.const {}) \"{}\")", marker(I32, k), pat));
            marks.push(mark(I32, k, &format!("o{}", k)));
            if *l > 1 { marks.push(Mark::Bytes(pat.into(), format!("d{}_", k))); }
        }
        let w = format!("(module (memory 1) {} {})", segs, obs);
        for (reg, lo, hi) in [("low", 0u64, 7u64), ("end", 65536 - 6, 65537)] {
            let nl = len.len();
            if reg == "end" && nl > 2 && !th { continue; }
            let mut pr = Prog::new(&format!("data {} {}", n, reg), &w).mem(0, 32).mem(65536 - 32, 32).call("ld", &[(I32, s("x"))]).assume(move |cx| { let mut v = win(cx, "x", 0, 12); for k in 0..nl { v.extend(winor(cx, &format!("o{}", k), lo, hi, &[0xffff_ffff, 0x8000_0000])); } v });
            for m in &marks { pr = pr.mark(m.clone()); }
            out.push(pr);
        }
    }
    // the rest of memory starts zeroed, for every declared size
    for (min, max) in [(0, "0"), (0, "3"), (1, "1"), (1, ""), (2, "5"), (3, "")] {
        let w = format!("(module (memory {} {}) (func (export \"f\") (result i32) memory.size) (func (export \"g\") (param i32) (result i32) local.get 0 memory.grow))", min, max);
        out.push(Prog::new(&format!("memory {} {}", min, max), &w).mem(0, (min * 65536) as u32).call("f", &[]).call("g", &[(I32, Arg::K(1))]).mem(0, 65536 * (min as u32)));
    }
    // an offset taken from a global
    let w = format!("(module (global $o i32 (i32.const {})) (memory 1) (data (global.get $o) \"ABCD\") (data (i32.const 4) \"EFGH\") {})", marker(I32, 0), obs);
    out.push(Prog::new("data at a global", &w).mark(mark(I32, 0, "o")).mark(Mark::Bytes("ABCD".into(), "d".into())).mem(0, 16).assume(|cx| win(cx, "o", 0, 8)));
    // element segments
    let fs = "(type $t (func (result i32))) (func $a (type $t) i32.const 11) (func $b (type $t) i32.const 22) (func $c (type $t) i32.const 33) (func (export \"f\") (param i32) (result i32) local.get 0 call_indirect $t (type $t))";
    let mut elem = |n: &str, segs: &str, marks: usize| {
        let w = format!("(module (table $t 6 8 funcref) (table $u 3 funcref) {} {})", fs, segs);
        let mut pr = Prog::new(&format!("elem {}", n), &w).table(0).table(1).call("f", &[(I32, s("i"))]).assume(move |cx| { let mut v = winor(cx, "i", 0, 6, &[0xffff_ffff]); for k in 0..marks { v.extend(winor(cx, &format!("o{}", k), 0, 8, &[0xffff_ffff, 0x8000_0000])); } v });
        for k in 0..marks { pr = pr.mark(mark(I32, k, &format!("o{}", k))); }
        out.push(pr);
    };
    elem("one", &format!("(elem (table $t) (i32.const {}) func $a $b)", marker(I32, 0)), 1);
    elem("two", &format!("(elem (table $t) (i32.const {}) func $a $b) (elem (table $t) (i32.const {}) func $c $a $a)", marker(I32, 0), marker(I32, 1)), 2);
    elem("second table", &format!("(elem (table $u) (i32.const {}) func $c $b) (elem (table $t) (i32.const 1) func $a)", marker(I32, 0)), 1);
    elem("empty", &format!("(elem (table $t) (i32.const {}) func) (elem (table $t) (i32.const 2) func $b)", marker(I32, 0)), 1);
    elem("passive", "(elem func $a $b) (elem declare func $c) (elem (table $t) (i32.const 2) func $b $c)", 0);
    elem("global offset", &format!("(global $o i32 (i32.const {})) (elem (table $t) (global.get $o) func $c $b)", marker(I32, 0)), 1);
    elem("expressions", &format!("(elem (table $t) (i32.const {}) funcref (ref.func $a) (ref.null func) (ref.func $c))", marker(I32, 0)), 1);
    elem("expressions over", "(elem (table $t) (i32.const 0) func $a $b $c $a $b $c) (elem (table $t) (i32.const 2) funcref (ref.null func) (item ref.func $b))", 0);
    elem("expressions passive", "(elem funcref (ref.func $a) (ref.null func)) (elem (table $u) (i32.const 1) funcref (ref.func $c))", 0);
    // reference tables other than functions
    let w = "(module (table $x 3 externref) (table $t 2 funcref) (func $a) (elem (table $t) (i32.const 1) func $a) (elem (table $x) (i32.const 0) externref (ref.null extern)) (func (export \"f\") (param i32) (result externref) local.get 0 table.get $x))";
    out.push(Prog::new("elem externref", w).table(0).table(1).call("f", &[(I32, s("i"))]));
    // exports
    let w = "(module (memory (export \"m\") 1) (global (export \"g\") i32 (i32.const 5)) (table (export \"t\") 1 funcref)
       (func $a (export \"a\") (export \"b\") (export \"\") (param i32) (result i32) local.get 0 i32.const 1 i32.add)
       (func $b (export \"aa\") (param i32) (result i32) local.get 0 i32.const 2 i32.add)
       (func $c (export \"A\") (export \"\\c3\\a9 x\") (param i32) (result i32) local.get 0 i32.const 3 i32.add)
       (func $d (export \"_start\") (param i32) (result i32) local.get 0 i32.const 4 i32.add)
       (func $e (export \"very long name, longer than any small inline buffer could hold, with punctuation!\") (param i32) (result i32) local.get 0 i32.const 5 i32.add))";
    let x = [(I32, s("x"))];
    out.push(Prog::new("exports", w).call("a", &x).call("b", &x).call("", &x).call("aa", &x).call("A", &x).call("\u{e9} x", &x).call("_start", &x).call("very long name, longer than any small inline buffer could hold, with punctuation!", &x)
        .call("m", &x).call("g", &x).call("t", &x).call("aaa", &x).call("B", &x).call("very long name", &x).call("a ", &x).call("a", &x));
    // exported functions in every position of mixed index spaces, imports first
    for k in 0..4 {
        let imps = ["(import \"wasi_snapshot_preview1\" \"sched_yield\" (func $y (result i32)))", "(import \"wasi_snapshot_preview1\" \"random_get\" (func $r (param i32 i32) (result i32)))", "(import \"wasi_snapshot_preview1\" \"proc_exit\" (func $e (param i32)))"];
        let w = format!("(module {} (memory 1) (type $t (func (param i32) (result i32))) (table 4 funcref) (elem (i32.const 0) $c $a $b)
            (func $a (type $t) local.get 0 i32.const 1 i32.add) (func $b (type $t) local.get 0 call $a i32.const 10 i32.mul) (func $c (type $t) local.get 0 call $b call $a)
            (func (export \"f\") (param i32 i32) (result i32) local.get 0 local.get 1 i32.const 3 i32.and call_indirect (type $t))
            (export \"a\" (func $a)) (export \"b\" (func $b)) (export \"c\" (func $c)))", imps[..k].join(" "));
        out.push(Prog::new(&format!("imports {}", k), &w).call("a", &x).call("b", &x).call("c", &x).call("f", &[(I32, s("x")), (I32, s("y"))]).table(0));
    }
    // instances are independent of each other
    let w = "(module (memory 1 3) (data (i32.const 4) \"\\01\\02\\03\") (global $g (mut i64) (i64.const 7)) (table 3 funcref) (elem (i32.const 1) $n) (data $p \"PQRS\") (func $n)
       (func (export \"f\") (param i32 i64) i32.const 8 local.get 0 i32.store i32.const 4 local.get 0 i32.store8 local.get 1 global.set $g i32.const 1 memory.grow drop i32.const 1 ref.null func table.set 0 i32.const 0 i32.const 1 table.get 0 table.set 0 data.drop $p)
       (func (export \"i\") (param i32) i32.const 32 i32.const 0 local.get 0 memory.init $p))";
    let fa = [(I32, s("x")), (I64, s("y"))];
    let fb = [(I32, s("u")), (I64, s("v"))];
    let ia = [(I32, s("n"))];
    out.push(Prog::new("instances", w).call("f", &fa).inst().mem(0, 64).globals().table(0).call("i", &ia).call("f", &fb).mem(0, 64).globals().select(0).mem(0, 64).globals().table(0).call("i", &ia).inst().mem(0, 64).globals().table(0).call("f", &fa).select(1).mem(0, 64).globals().table(0)
        .assume(|cx| winor(cx, "n", 0, 5, &[0xffff_ffff])));
    // initial values
    let mut w = String::from("(module ");
    let mut marks = vec![];
    for k in 0..8 { let t = NUM[k % 4]; w.push_str(&format!("(global (mut {}) ({}.const {})) (func (export \"g{}\") (result {}) global.get {})", tn(t), tn(t), marker(t, k), k, tn(t), k)); marks.push(mark(t, k, &format!("k{}", k))); }
    w.push(')');
    let mut p = Prog::new("initial values", &w).globals();
    for m in marks { p = p.mark(m); }
    for k in 0..8 { p = p.call(&format!("g{}", k), &[]); }
    out.push(p);
    // extreme initial values in their minimal encodings
    let mut w = String::from("(module ");
    let vals: [i64; 18] = [0, 1, -1, 63, 64, -64, -65, 127, 128, 8191, 8192, -8192, -8193, 2147483647, -2147483648, 4294967296, i64::MAX, i64::MIN];
    for v in vals { if v >= i32::MIN as i64 && v <= i32::MAX as i64 { w.push_str(&format!("(global i32 (i32.const {}))", v)); } w.push_str(&format!("(global i64 (i64.const {}))", v)); }
    for v in ["nan", "-nan", "inf", "-inf", "-0", "0x1p-149", "nan:0x200000", "1.5"] { w.push_str(&format!("(global f32 (f32.const {})) (global f64 (f64.const {}))", v, v)); }
    w.push(')');
    out.push(Prog::new("extreme values", &w).globals());
    // start function
    let w = "(module (memory 1) (global $g (mut i32) (i32.const 1)) (func $s i32.const 9 global.set $g i32.const 0 i32.const 77 i32.store) (start $s) (func (export \"f\") (result i32) global.get $g))";
    out.push(Prog::new("start_function", w).globals().mem(0, 8).call("f", &[]));
    let w = "(module (memory 1) (global $g (mut i32) (i32.const 1)) (func $s unreachable) (start $s) (func (export \"f\") (result i32) global.get $g))";
    out.push(Prog::new("trapping_start_function", w).globals());
    out
}
