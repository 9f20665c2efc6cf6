H="src/execution/handlers.rs"; P="src/parser.rs"; R="src/execution/runtime.rs"; M="src/execution/mem.rs"
BUGS=[
dict(id="b01-rem-min", property="C01", needs="i32.rem_s with dividend i32::MIN and a negative divisor other than -1",
 breaks="i32.rem_s returns 0 instead of the remainder",
 edits=[(H,"operand::write_i32(state, &dst, a.wrapping_rem(b));","let r = if a == i32::MIN && b < 0 { 0 } else { a % b };\n    operand::write_i32(state, &dst, r);")],
 wat='(module (func (export "f") (param i32 i32) (result i32) local.get 0 local.get 1 i32.rem_s))',
 cases=["guest.wasm -i f -p I32(-2147483648),I32(-7)|I32(-2)","guest.wasm -i f -p I32(-2147483648),I32(-1)|I32(0)"]),
dict(id="b02-nearest-negzero", property="C02", needs="f64.nearest of a value in [-0.5, -0.0] whose zero sign is then observed",
 breaks="f64.nearest loses the sign of a zero result",
 edits=[(H,"f64_unop!(f64_nearest, |a: f64| a.round_ties_even());","""f64_unop!(f64_nearest, |a: f64| {
    // adding and removing 1.5 * 2^52 rounds to an integer, ties to even
    const BIAS: f64 = 6755399441055744.0;
    if a.abs() < 2251799813685248.0 {
        (a + BIAS) - BIAS
    } else {
        a.round_ties_even()
    }
});""")],
 wat='(module (func (export "f") (param f64) (result i64) local.get 0 f64.nearest i64.reinterpret_f64 i64.const 63 i64.shr_u))',
 cases=["guest.wasm -i f -p F64(-0.3)|I64(1)"]),
dict(id="b03-convert-double-round", property="C03", needs="f32.convert_i64_u of a value whose f64 rounding lands on an f32 tie",
 breaks="f32.convert_i64_u rounds twice",
 edits=[(H,"conv_f32_convert_i64_u,\n    read_reg_i64,\n    write_dst_f32,\n    |v: i64| (v as u64) as f32","conv_f32_convert_i64_u,\n    read_reg_i64,\n    write_dst_f32,\n    |v: i64| (v as u64) as f64 as f32")],
 wat='(module (func (export "f") (param i64) (result i32) local.get 0 f32.convert_i64_u i32.reinterpret_f32))',
 cases=["guest.wasm -i f -p I64(9007199791611905)|I32(1509949441)"]),
dict(id="b05-grow-caller-mem", property="C05", needs="a callee grows memory (the buffer moves) and the caller stores through its cached pointer afterwards, when two calls are nested",
 breaks="after memory.grow in a callee the caller keeps using the old buffer",
 edits=[(R,"""                                caller_frame.cached_mem_ptr =
                                    caller_frame.primary_mem.as_ref().map(|m| m.data_ptr());
""","""                                if finished_frame.cached_mem_ptr.is_some()
                                    && !caller_frame.result_regs.is_empty()
                                {
                                    caller_frame.cached_mem_ptr =
                                        caller_frame.primary_mem.as_ref().map(|m| m.data_ptr());
                                }
""")],
 wat='(module (memory 1 8) (func $g i32.const 3 memory.grow drop) (func (export "f") (param i32) (result i32) i32.const 8 local.get 0 i32.store call $g i32.const 8 i32.const 77 i32.store i32.const 8 call $ld) (func $ld (param i32) (result i32) local.get 0 i32.load))',
 cases=["guest.wasm -i f -p I32(5)|I32(77)"]),
]
