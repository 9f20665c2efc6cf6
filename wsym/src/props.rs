//! The properties: for each, the programs and schedules whose obligations decide it.
use crate::diff::*;
use crate::gen::*;
use crate::rgen::{self, *};
use crate::run::*;
use crate::wasm::Ty::{self, *};

pub fn check(id: &str, tier: &str) -> Option<Check> {
    let th = tier == "thorough";
    Some(match id {
        "C01" => ints(th),
        "C02" => floats(th),
        "C03" => conversions(th),
        "C04" => mk(crate::progs::loadstore(true), "each load and store x address source x value source x result sink, with symbolic addresses, offsets, values and initial memory; two stores and a load at independent symbolic addresses within 8 bytes", &[OUT_ENG, "effective addresses lie in a 32-byte window at 512 (and at both ends of a page); address + offset sums above 2^32 and out-of-bounds accesses are outside the claim"]),
        "C05" => mk({ let mut v = crate::progs::memory_ops(true); v.extend(crate::progs2::grow_chains(th)); v }, "growth at the bottom of call chains of up to three direct or indirect calls with every result shape, every frame using memory afterwards; size/grow for every declared minimum/maximum up to 4 pages and every 32-bit delta; fill/copy/init over symbolic operand windows inside and around the end of memory; drop", &[OUT_ENG, "memories without a maximum grow by at most 3 pages, or fail for sure; growth between 4 and 65536 pages is outside the claim", "bulk operand windows: 6 bytes inside, 4 positions around each boundary and the extreme 32-bit values"]),
        "C06" => control(th),
        "C07" => sequences(th),
        "C08" => calls(th),
        "C09" => mk({ use crate::progs3::*; let mut v = indirect(th); v.extend(table_ops(th)); v.extend(tables("tabseq", 91, if th { 6000 } else { 200 })); v }, "call_indirect for each of nine expected types (two of them structurally equal) x two tables x index source x result use, over all 2^32 indices; table.get/set/fill, ref.null/is_null, typed select and reference passing; seeded random sequences of table instructions over three tables", &[OUT_ENG, OUT_GEN, "ref.func, table.size, table.grow, table.copy, table.init and elem.drop are rejected by the parser and outside the claim", "reference arguments: null or one of the first 10 functions / 4 host references"]),
        "C10" => mk({ use crate::progs3::*; let mut v = global_seqs(th); v.extend(global_rand("grand", 101, if th { 8000 } else { 400 })); v.extend(global_misc()); v }, "every well-typed sequence of up to 4 operators over {get/set of two globals, locals, const, binary} (3 with getters, setters, swaps, unary) per type, samples of longer ones; seeded random programs over ten mutable and immutable globals of all types with symbolic initial values, several calls and two instances", &[OUT_ENG, OUT_GEN, "imported globals (none can be provided by the runtime)", "global.get/set of reference-typed globals, which the parser refuses"]),
        "C11" => mk(crate::progs3::instantiation(th), "active data segments (1..3, overlapping) with symbolic bytes at symbolic offsets inside and beyond memory; element segments of every form at symbolic offsets; initial values with symbolic immediates; zeroed memory of every declared size; export names; index spaces with 0..3 imports; independent instances; start functions", &[OUT_ENG, "offset windows: 0..7 and the last 6 bytes of memory plus one beyond and the extreme values; table offsets 0..8 and the extreme values"]),
        "C12" => mk({ let mut v = crate::progs4::traps(th); v.extend(random("trapctl", 121, if th { 6000 } else { 500 }, 30, true, true)); v.extend(crate::progs2::callgraph("trapcalls", 122, if th { 6000 } else { 400 }, 16, true, true)); v },
            "every kind of trap (unreachable, division, truncation, indirect call, table access, bulk memory) x use of the trapping value x call depth 0..3 (direct, indirect, mixed), with global, memory and standard output effects before and after it in every frame, called twice; seeded random functions and call graphs containing traps", &[OUT_ENG, OUT_GEN, "out-of-bounds loads, stores, memory.fill and memory.copy (left to the host by design)", "whether a trap is reported as an error value or by aborting the process is not distinguished (the state after an abort is not compared)"]),
        "C19" => mk(crate::progs4::histories(th), "every history of up to two invocations, half of the histories of three and a sample of four over ten functions acting on memory, globals, table and segments (several of them trapping midway), each invocation with its own symbolic arguments; interleaved histories on up to three instances; random functions in random order", &[OUT_ENG, OUT_GEN, "histories continue after traps reported as errors, not after traps that abort the process"]),
        "C13" => ck(crate::progs5::transparent(th), CK_RULE, &[OUT_ENG, OUT_GEN, OUT_CK]),
        "C14" => ck(crate::progs5::chains(th), CK_RULE, &[OUT_ENG, OUT_GEN, OUT_CK]),
        "C15" => { let v = crate::progs5::honoured(th); Check { level: "translation_validation", enumerated: v.len() as u64, jobs: crate::ckpt::honour_jobs(v), rule: "19 guests with at least 49152 instructions of work (flat, nested and parametrised loops, short, empty, looping and nested callees, indirect calls, tree and mutual recursion, loops below and above deep frames, straight-line code), with symbolic call depth, callee and inner iteration counts, with and without WASI imports and memory; the request appears at a symbolic poll, in each of up to three successive processes; and the same guests with no request, and with a pending request but checkpoints off".into(), outside: vec![OUT_ENG.to_string(), "the bound decided is 8192 guest instructions per poll interval, in the build polling at its normal rate; the request arrives at one of the first 4 intervals of each process".into(), "host calls that block".into()] } },
        "C16" => { let v = crate::faults::faulty(th); Check { level: "translation_validation", enumerated: v.len() as u64, jobs: crate::faults::jobs(v), rule: "three guests (with all kinds of state; with none; with memory) stopped at several polls; the checkpoint file is missing, or ends after a symbolic number of bytes (any length below the full one), or is read with a symbolic short count or error at the open or first read; and while it is written, the open fails with a symbolic error, or the first write fails with one or takes a symbolic part of the data; guest arguments symbolic".into(), outside: vec![OUT_ENG.to_string(), "checkpoints altered otherwise (bit flips, checkpoints of other modules)".into(), "faults in more than two host calls of one process; loss of data the host had accepted".into()] } },
        "C17" => mk(crate::progs6::wasi(th), "each of 40 calls (all supported but proc_raise) with host answers (error code, counts, output bytes) and scalar arguments symbolic, in up to eight layouts of its pointers (plain, unaligned, empty, at the end of memory, in a page grown just before, outputs overlapping inputs, symbolic pointers, symbolic lengths) with symbolic buffer and path bytes; argument and environment lists; exit codes at several depths; modules with twelve imports in shuffled order and pairs of calls among guest code", &[OUT_ENG, "pointers outside memory", "paths containing NUL bytes", "scalar arguments beyond the width WASI gives them", "indirect calls to and exports of imports", "modules without a memory"]),
        "C18" => mk(crate::progs5::instrumented(th), "19 guests, one per kind of state, and samples of the other properties' programs (calls, call graphs, tables, globals, traps, histories, control flow, operator sequences) x build (dispatcher x with and without the statistics and tracing features) x combinations of the checkpoint, statistics and tracing flags; each against the reference semantics, so all configurations agree", &[OUT_ENG, OUT_GEN, "what the statistics and the trace contain", "the wasip1-threads build"]),
        "C20" => mk(crate::progs7::encodings(th), "guests of the other properties (every kind of state, calls, tables, globals, instantiation forms, traps, histories, control flow, operators, loads and stores, memory instructions, host calls) and guests with more than 127 of every indexed thing, each in encodings that differ in: over-long numbers everywhere (full length, random lengths), custom sections with symbolic names and contents between all sections, split and empty local entries, explicit memory and table indices and kinds, element expressions, data count present or absent, block types by index, duplicate function types, no alignment hints; constants and offsets of every encoded length with symbolic bytes; each compared with the reference semantics of the plain encoding", &[OUT_ENG, OUT_GEN, "encodings the engine's own decoder of plain modules shares with the interpreter (both use wasmparser) are trusted for the plain form; custom section names are ASCII"]),
        "C21" => { let v = crate::cli::command_line(th); Check { level: "translation_validation", enumerated: v.len() as u64, jobs: crate::cli::jobs(v), rule: "command lines of the compiled program with symbolic characters: integer parameters (each type and sign, short, longest, with leading zeros; symbolic digits), floats (integer, fraction, exponent forms with symbolic digits; limits and special values), lists of two, three and twelve parameters in four spellings; program arguments of up to 3 (thorough: 5) characters, each a quote, a space or any other ASCII character, and texts beyond ASCII; results printed back digit by digit; named, missing and default exports; a checkpointed and restored run".into(), outside: vec![OUT_ENG.into(), "numbers with more than 4 (thorough: 7) symbolic digits, malformed parameters, several results, reference parameters, the statistics and trace options".into()] } }
        "C22" => { let v = crate::resources::bounded(th); Check { level: "translation_validation", enumerated: 2 * v.len() as u64, jobs: crate::resources::jobs(v), rule: "loops with a symbolic number of iterations around every instruction of the interpreter's repertoire (numeric, parametric, variable, memory, table, reference, control, call and host call instructions), loops of nested and recursive calls, and guest recursion of symbolic depth".into(), outside: vec![OUT_ENG.to_string(), format!("amount of work 1 to {}; nesting and heap use are compared with the maximum over amounts of at most 8 (slack: 2 frames, 96 bytes)", if th { 160 } else { 48 }), "heap use of guests that recurse (it grows with the guest's own call depth) and of host calls".into()] } },
        _ => return None,
    })
}

const CK_RULE: &str = "19 guests, one per kind of state (locals of every type, operands, globals, memory contents and size, both tables, reference locals, dropped segments, call frames, block and loop labels, host effects, traps), and samples of the programs of the other properties (calls, recursion, random functions and call graphs, nested control, tables, globals, instantiation forms, histories); in each, the request appears at a symbolic poll of the densely polling build, so that execution stops before every instruction of every frame in turn, or never; the checkpoint is restored in fresh processes of every listed chain of builds";
const OUT_CK: &str = "stopping points are those of the --cfg chiwawa_dense_poll build (a superset of the throttled polls at function entry and loop heads); the checkpoint file carries memory through a stand-in for the lz4 codec (third-party); no extern references; the restoring process gets the same module, arguments and environment";

fn mk(progs: Vec<Prog>, rule: &str, outside: &[&str]) -> Check {
    let n = progs.iter().map(|p| p.steps.len() as u64).sum();
    Check { level: "translation_validation", jobs: diff_jobs(progs), rule: rule.into(), outside: outside.iter().map(|x| x.to_string()).collect(), enumerated: n }
}

fn ck(v: Vec<crate::ckpt::Ck>, rule: &str, outside: &[&str]) -> Check {
    let n = v.iter().map(|p| p.prog.steps.len() as u64).sum();
    Check { level: "translation_validation", jobs: crate::ckpt::jobs(v), rule: rule.into(), outside: outside.iter().map(|x| x.to_string()).collect(), enumerated: n }
}

/// All (operand source × result sink) shapes of one operation.
pub fn shapes(name: &str, op: &str, ins: &[Ty], out: Ty, th: bool) -> Vec<Prog> {
    let trapping = is_trapping(op);
    let nl = ins.len();
    let srcs: Vec<Vec<(&str, String)>> = ins.iter().enumerate().map(|(k, t)| sources(*t, k)).collect();
    let mut fs: Vec<(String, F, bool)> = vec![];
    // operand source combinations into a plain return
    let combos: Vec<Vec<usize>> = if nl == 1 { (0..srcs[0].len()).map(|i| vec![i]).collect() } else {
        (0..srcs[0].len()).flat_map(|i| (0..srcs[1].len()).map(move |j| vec![i, j])).collect()
    };
    for c in &combos {
        // in the quick tier, the exotic sources are only paired with the plain ones
        if nl == 2 && !th && c[0] > 2 && c[1] > 2 { continue; }
        let body = c.iter().enumerate().map(|(k, i)| srcs[k][*i].1.clone()).collect::<Vec<_>>().join(" ");
        let sym = c.iter().enumerate().any(|(k, i)| srcs[k][*i].0 == "const");
        fs.push((c.iter().enumerate().map(|(k, i)| srcs[k][*i].0).collect::<Vec<_>>().join("-"), F::new(ins, &[out], &format!("{} {}", body, op)).locals(&[out]), sym));
    }
    for (sn, code, res) in sinks(out, nl) {
        if sn == "ret" { continue; }
        for c in if nl == 2 { vec![vec![0, 0], vec![2, 0], vec![0, 1]] } else { vec![vec![0], vec![2]] } {
            let body = c.iter().enumerate().map(|(k, i)| srcs[k][*i].1.clone()).collect::<Vec<_>>().join(" ");
            let sym = c.contains(&1);
            fs.push((format!("{}>{}", c.iter().enumerate().map(|(k, i)| srcs[k][*i].0).collect::<Vec<_>>().join("-"), sn), F::new(ins, &res, &format!("{} {} {}", body, op, code)).locals(&[out]), sym));
        }
    }
    let mut out = vec![];
    let marks = |p: Prog| -> Prog { let mut p = p; for (k, t) in ins.iter().enumerate() { if p.wat.contains(&format!("{}.const {}", tn(*t), marker(*t, k))) { p = p.mark(mark(*t, k, &format!("k{}", k))); } } p };
    if trapping {
        for (n, f, _) in &fs { out.push(marks(batch(&format!("{} {} {}", name, op, n), PRE, std::slice::from_ref(f)))); }
    } else {
        for sym in [false, true] {
            let v: Vec<F> = fs.iter().filter(|x| x.2 == sym).map(|x| x.1.clone()).collect();
            for p in batches(&format!("{} {}{}", name, op, if sym { " const" } else { "" }), PRE, &v, 12) { out.push(marks(p)); }
        }
    }
    out
}

const OUT_ENG: &str = "trusted: rustc/LLVM lowering to wasm32, wsym's own WebAssembly semantics (cross-checked against wasmtime by every replay), z3 5.3.2 / cvc5 1.1.2";

fn ints(th: bool) -> Check {
    let mut v = vec![];
    for t in [I32, I64] {
        for o in int_bin(t) { v.extend(shapes("int", &o, &[t, t], t, th)); }
        for o in int_cmp(t) { v.extend(shapes("int", &o, &[t, t], I32, th)); }
        for o in int_un(t) { v.extend(shapes("int", &o, &[t], t, th)); }
        v.extend(shapes("int", &format!("{}.eqz", tn(t)), &[t], I32, th));
    }
    mk(v, "each integer operator x operand source (local, constant immediate, register, call, global, load, tee, block, select) x result sink, all operand values and constant immediates symbolic", &[OUT_ENG])
}
fn floats(th: bool) -> Check {
    let mut v = vec![];
    for t in [F32, F64] {
        for o in flt_bin(t) { v.extend(shapes("flt", &o, &[t, t], t, th)); }
        for o in flt_cmp(t) { v.extend(shapes("flt", &o, &[t, t], I32, th)); }
        for o in flt_un(t) { v.extend(shapes("flt", &o, &[t], t, th)); }
    }
    mk(v, "each float operator x operand source x result sink, all operand bit patterns symbolic; NaN payloads of arithmetic results are canonical on both sides", &[OUT_ENG])
}
fn conversions(th: bool) -> Check {
    let mut v = vec![];
    for (o, a, b) in convs() { v.extend(shapes("cvt", o, &[a], b, th)); }
    mk(v, "each conversion x operand source x result sink, all source bit patterns symbolic", &[OUT_ENG])
}

pub const OUT_GEN: &str = "the guest programs are enumerated up to the stated size or drawn by a seeded generator; programs outside that family are not covered";

fn named(fs: Vec<(String, F)>, name: &str, per: usize) -> Vec<Prog> {
    fs.chunks(per).enumerate().map(|(i, c)| {
        let v: Vec<F> = c.iter().map(|x| x.1.clone()).collect();
        let mut p = batch(&format!("{}#{} {}", name, i, c[0].0), RPRE, &v);
        p.steps = p.steps.into_iter().flat_map(|s| [s, Step::Mem { start: 64, len: 1024 }]).collect();
        p
    }).collect()
}
/// Seeded random functions; each program calls one function twice and then inspects globals and memory.
pub fn random(name: &str, seed: u64, n: usize, budget: i32, control: bool, traps: bool) -> Vec<Prog> {
    (0..n).map(|i| {
        let mut r = Rng::new(seed * 1_000_003 + i as u64);
        let params: Vec<Ty> = vec![I32, I32, I64, F32, F64][..2 + r.below(4)].to_vec();
        let k = r.below(4);
        let results: Vec<Ty> = (0..k).map(|_| *r.pick(&NUM)).collect();
        let f = Gen::func(&mut r, &params, &results, budget, control, traps);
        batch(&format!("{} {}.{}", name, seed, i), RPRE, std::slice::from_ref(&f)).call("f0", &symargs("again", &params)).globals().mem(0, 64)
    }).collect()
}
fn control(th: bool) -> Check {
    let mut r = Rng::new(6);
    let mut v = named(nests(th, &mut r), "nest", 1);
    v.extend(random("ctlbig", 62, if th { 8000 } else { 500 }, 60, true, false));
    v.extend(random("ctl", 61, if th { 12000 } else { 1500 }, 24, true, false));
    mk(v, "every nest of up to three block/loop/then/else constructs x branch kind x target (including the function label and br_table lists), with drawn block types, carried operands and pending operands, drivers and values symbolic; seeded random structured functions", &[OUT_ENG, OUT_GEN, "loops run at most 4 iterations per activation (fuel counter in the guest)"])
}
fn sequences(th: bool) -> Check {
    let mut v = vec![];
    for t in NUM {
        for (rich, n) in [(false, 1), (false, 2), (false, 3), (false, 4), (true, 1), (true, 2), (true, 3)] {
            let fs = rgen::sequences(&alphabet(t, rich), n, &[t, t], 3, &mut |_| true);
            for (i, c) in fs.chunks(24).enumerate() { v.push(batch(&format!("seq {} {}{} #{}", tn(t), n, if rich { "r" } else { "" }, i), RPRE, c).globals()); }
        }
        let step = if th { 5 } else { 40 };
        let fs = rgen::sequences(&alphabet(t, false), 5, &[t, t], 3, &mut |k| k % step == 0);
        for (i, c) in fs.chunks(24).enumerate() { v.push(batch(&format!("seq {} 5 #{}", tn(t), i), RPRE, c).globals()); }
    }
    v.extend(random("mixseq", 71, if th { 10000 } else { 1000 }, 24, false, false));
    mk(v, "every well-typed sequence of up to 4 operators over {local.get/set/tee, const, drop, binary, unary, test, select} (up to 3 with calls, globals, loads, stores, blocks as well) on two locals of each type, a sample of length 5, and seeded random mixed-type sequences; result is the whole operand stack and all locals", &[OUT_ENG, OUT_GEN])
}

fn calls(th: bool) -> Check {
    let mut v = crate::progs2::signatures(th);
    v.extend(crate::progs2::recursion(th));
    v.extend(crate::progs2::callgraph("calls", 81, if th { 12000 } else { 1500 }, 16, false, false));
    mk(v, "signatures with 0..8 parameters x 0..8 results of drawn types (direct, via a forwarding function, indirect; operands pending below the call; results kept or stored), recursion patterns with symbolic depth up to 8, zero-initialised locals, seeded random call graphs of 3..6 mutually recursive functions", &[OUT_ENG, OUT_GEN, "more than 8 results; recursion deeper than 8 (bounded by the fuel counter)"])
}
