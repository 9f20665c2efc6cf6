//! Guest program generators.
use crate::diff::*;
use crate::wasm::Ty::{self, *};

pub const NUM: [Ty; 4] = [I32, I64, F32, F64];
pub fn tn(t: Ty) -> &'static str { match t { I32 => "i32", I64 => "i64", F32 => "f32", F64 => "f64", FuncRef => "funcref", ExternRef => "externref" } }

/// Marker constants: pairwise distinct, minimal LEB encodings of full length.
pub fn marker(t: Ty, k: usize) -> String {
    match t {
        I32 => format!("{}", 0x4a5b_6c00u32 as i32 + k as i32),
        I64 => format!("{}", 0x7a5b_6c7d_1e2f_3000i64 + k as i64),
        F32 => format!("{}", f32::from_bits(0x4e5b_6c10 + k as u32)),
        F64 => format!("{:?}", f64::from_bits(0x4a5b_6c7d_1e2f_3100 + k as u64)),
        _ => unreachable!(),
    }
}
pub fn mark(t: Ty, k: usize, name: &str) -> Mark {
    match t {
        I32 => Mark::I32(0x4a5b_6c00u32 as i32 + k as i32, name.into()),
        I64 => Mark::I64(0x7a5b_6c7d_1e2f_3000i64 + k as i64, name.into()),
        F32 => Mark::F32(0x4e5b_6c10 + k as u32, name.into()),
        F64 => Mark::F64(0x4a5b_6c7d_1e2f_3100 + k as u64, name.into()),
        _ => unreachable!(),
    }
}
pub const OFFM: u32 = 0x1000_0100;
pub fn offm(k: u32) -> String { format!("offset={}", OFFM + k) }

pub fn int_bin(t: Ty) -> Vec<String> {
    "add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr".split(' ').map(|o| format!("{}.{}", tn(t), o)).collect()
}
pub fn int_cmp(t: Ty) -> Vec<String> {
    "eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u".split(' ').map(|o| format!("{}.{}", tn(t), o)).collect()
}
pub fn int_un(t: Ty) -> Vec<String> {
    let mut v: Vec<String> = "clz ctz popcnt extend8_s extend16_s".split(' ').map(|o| format!("{}.{}", tn(t), o)).collect();
    if t == I64 { v.push("i64.extend32_s".into()); }
    v
}
pub fn flt_bin(t: Ty) -> Vec<String> { "add sub mul div min max copysign".split(' ').map(|o| format!("{}.{}", tn(t), o)).collect() }
pub fn flt_cmp(t: Ty) -> Vec<String> { "eq ne lt gt le ge".split(' ').map(|o| format!("{}.{}", tn(t), o)).collect() }
pub fn flt_un(t: Ty) -> Vec<String> { "abs neg ceil floor trunc nearest sqrt".split(' ').map(|o| format!("{}.{}", tn(t), o)).collect() }
/// (op, from, to)
pub fn convs() -> Vec<(&'static str, Ty, Ty)> {
    vec![
        ("i32.wrap_i64", I64, I32), ("i64.extend_i32_s", I32, I64), ("i64.extend_i32_u", I32, I64),
        ("i32.trunc_f32_s", F32, I32), ("i32.trunc_f32_u", F32, I32), ("i32.trunc_f64_s", F64, I32), ("i32.trunc_f64_u", F64, I32),
        ("i64.trunc_f32_s", F32, I64), ("i64.trunc_f32_u", F32, I64), ("i64.trunc_f64_s", F64, I64), ("i64.trunc_f64_u", F64, I64),
        ("i32.trunc_sat_f32_s", F32, I32), ("i32.trunc_sat_f32_u", F32, I32), ("i32.trunc_sat_f64_s", F64, I32), ("i32.trunc_sat_f64_u", F64, I32),
        ("i64.trunc_sat_f32_s", F32, I64), ("i64.trunc_sat_f32_u", F32, I64), ("i64.trunc_sat_f64_s", F64, I64), ("i64.trunc_sat_f64_u", F64, I64),
        ("f32.convert_i32_s", I32, F32), ("f32.convert_i32_u", I32, F32), ("f32.convert_i64_s", I64, F32), ("f32.convert_i64_u", I64, F32),
        ("f64.convert_i32_s", I32, F64), ("f64.convert_i32_u", I32, F64), ("f64.convert_i64_s", I64, F64), ("f64.convert_i64_u", I64, F64),
        ("f32.demote_f64", F64, F32), ("f64.promote_f32", F32, F64),
        ("i32.reinterpret_f32", F32, I32), ("f32.reinterpret_i32", I32, F32), ("i64.reinterpret_f64", F64, I64), ("f64.reinterpret_i64", I64, F64),
    ]
}
pub fn is_trapping(op: &str) -> bool { op.contains("div_") || op.contains("rem_") || (op.contains(".trunc_f")) }

/// (op, result type, access bytes)
pub fn loads() -> Vec<(&'static str, Ty, u32)> {
    vec![("i32.load", I32, 4), ("i64.load", I64, 8), ("f32.load", F32, 4), ("f64.load", F64, 8),
        ("i32.load8_s", I32, 1), ("i32.load8_u", I32, 1), ("i32.load16_s", I32, 2), ("i32.load16_u", I32, 2),
        ("i64.load8_s", I64, 1), ("i64.load8_u", I64, 1), ("i64.load16_s", I64, 2), ("i64.load16_u", I64, 2), ("i64.load32_s", I64, 4), ("i64.load32_u", I64, 4)]
}
pub fn stores() -> Vec<(&'static str, Ty, u32)> {
    vec![("i32.store", I32, 4), ("i64.store", I64, 8), ("f32.store", F32, 4), ("f64.store", F64, 8),
        ("i32.store8", I32, 1), ("i32.store16", I32, 2), ("i64.store8", I64, 1), ("i64.store16", I64, 2), ("i64.store32", I64, 4)]
}

/// One guest function of a batch module.
#[derive(Clone)]
pub struct F { pub params: Vec<Ty>, pub results: Vec<Ty>, pub locals: Vec<Ty>, pub body: String }
pub fn tys(kind: &str, v: &[Ty]) -> String { if v.is_empty() { String::new() } else { format!("({} {})", kind, v.iter().map(|t| tn(*t)).collect::<Vec<_>>().join(" ")) } }
impl F {
    pub fn new(params: &[Ty], results: &[Ty], body: &str) -> F { F { params: params.to_vec(), results: results.to_vec(), locals: vec![], body: body.into() } }
    pub fn locals(mut self, l: &[Ty]) -> F { self.locals = l.to_vec(); self }
    pub fn wat(&self, name: &str) -> String { format!("(func (export \"{}\") {} {} {} {})\n", name, tys("param", &self.params), tys("result", &self.results), tys("local", &self.locals), self.body) }
}
/// Symbolic arguments shared by position and type.
pub fn symargs(tag: &str, p: &[Ty]) -> Vec<(Ty, Arg)> { p.iter().enumerate().map(|(i, t)| (*t, s(&format!("{}{}{}", tag, tn(*t), i)))).collect() }

/// Builds one module out of many functions, each called once with shared symbolic arguments.
pub fn batch(name: &str, prefix: &str, fs: &[F]) -> Prog {
    let mut w = format!("(module {}\n", prefix);
    for (i, f) in fs.iter().enumerate() { w.push_str(&f.wat(&format!("f{}", i))); }
    w.push(')');
    let mut p = Prog::new(name, &w);
    for (i, f) in fs.iter().enumerate() { p = p.call(&format!("f{}", i), &symargs("", &f.params)); }
    p
}
pub fn batches(name: &str, prefix: &str, fs: &[F], per: usize) -> Vec<Prog> {
    fs.chunks(per).enumerate().map(|(i, c)| batch(&format!("{}#{}", name, i), prefix, c)).collect()
}

/// Every way of feeding operands to and taking the result of a value operation.
/// `ins`: operand types, `out`: result type.  Uses helper globals/memory from PRE.
pub const PRE: &str = "(memory 1)
 (global $gi32 (mut i32) (i32.const 0)) (global $gi64 (mut i64) (i64.const 0)) (global $gf32 (mut f32) (f32.const 0)) (global $gf64 (mut f64) (f64.const 0))
 (func $idi32 (param i32) (result i32) local.get 0) (func $idi64 (param i64) (result i64) local.get 0)
 (func $idf32 (param f32) (result f32) local.get 0) (func $idf64 (param f64) (result f64) local.get 0)";

pub fn bits(t: Ty) -> &'static str { match t { F32 => "i32.reinterpret_f32", F64 => "i64.reinterpret_f64", _ => "" } }
pub fn ity(t: Ty) -> Ty { match t { F32 => I32, F64 => I64, t => t } }

/// Operand source variants for operand number `k` of type `t` (a param at index k of that type exists).
pub fn sources(t: Ty, k: usize) -> Vec<(&'static str, String)> {
    let n = tn(t);
    vec![
        ("local", format!("local.get {}", k)),
        ("const", format!("{}.const {}", n, marker(t, k))),
        ("reg", match t {
            I32 | I64 => format!("local.get {} {}.const {} {}.xor", k, n, 77 + k, n),
            _ => format!("local.get {} {}.neg", k, n),
        }),
        ("call", format!("local.get {} call $id{}", k, n)),
        ("global", format!("local.get {} global.set $g{} global.get $g{}", k, n, n)),
        ("load", format!("i32.const {} local.get {} {}.store i32.const {} {}.load", 64 + 16 * k, k, n, 64 + 16 * k, n)),
        ("tee", format!("local.get {} local.tee {}", k, k)),
        ("block", format!("(block (result {}) local.get {})", n, k)),
        ("select", format!("local.get {} {}.const 1 i32.const 1 select", k, n)),
    ]
}
/// Result consumers for a value of type `t`; `l` is a free local of type t. Yields (name, code, result types).
pub fn sinks(t: Ty, l: usize) -> Vec<(&'static str, String, Vec<Ty>)> {
    let n = tn(t);
    let mut v = vec![
        ("ret", String::new(), vec![t]),
        ("set", format!("local.set {} local.get {}", l, l), vec![t]),
        ("tee", format!("local.tee {} local.get {}", l, l), vec![t, t]),
        ("global", format!("global.set $g{} global.get $g{}", n, n), vec![t]),
        ("call", format!("call $id{}", n), vec![t]),
        ("drop", "drop i32.const 5".into(), vec![I32]),
        ("store", format!("local.set {} i32.const 200 local.get {} {}.store i32.const 200 {}.load", l, l, n, n), vec![t]),
        ("return", "return".into(), vec![t]),
        ("br", "br 0".into(), vec![t]),
    ];
    if t == I32 {
        v.push(("eqz", "i32.eqz".into(), vec![I32]));
        v.push(("select", format!("local.set {} i32.const 11 i32.const 22 local.get {} select", l, l), vec![I32]));
        v.push(("selectreg", format!("local.set {} i32.const 11 i32.const 22 local.get {} i32.const 1 i32.and select", l, l), vec![I32]));
        v.push(("if", "(if (result i32) (then i32.const 33) (else i32.const 44))".into(), vec![I32]));
        v.push(("br_if", format!("local.set {} (block (result i32) i32.const 55 local.get {} br_if 0 drop i32.const 66)", l, l), vec![I32]));
        v.push(("addr", "i32.const 255 i32.and i32.load8_u".into(), vec![I32]));
    }
    v
}
