#!/usr/bin/env python3
# Writes properties.jsonl from the table below.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=("results, traps, memory and globals of the invoked function",)):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
H="src/execution/handlers.rs"; PA="src/parser.rs"; RT="src/execution/runtime.rs"; RG="src/execution/regs.rs"; ST="src/execution/state.rs"; OP="src/execution/operand.rs"; MEM="src/execution/mem.rs"; MIG="src/execution/migration.rs"; MOD="src/execution/module.rs"; WP="src/wasi/passthrough.rs"; DL="src/execution/dispatch_loop.rs"; DT="src/execution/dispatch_tco.rs"
samp="The repository's tests run each instruction on a handful of literal operands"
p("C01","Integer operators compute the WebAssembly result for every operand",
  "For every i32/i64 arithmetic, bitwise, shift, rotate, count, sign-extension, comparison and test operator, the guest observes exactly the value WebAssembly defines, or traps exactly when WebAssembly traps (division by zero, signed division overflow). This holds wherever the operands come from (parameters, constants, computed values, calls, globals, memory) and however the result is consumed.",
  ["inputs","programs"],"all operand bit patterns and constant immediates, for each operator x operand source x result consumer",samp+"; 2^64..2^128 operand combinations and the operand-source specialisations per operator are never covered.",
  [H,PA,OP],[("operator handlers",H),("operand folding and destination folding",PA),("operand fetch specialisation",OP)])
p("C02","Floating-point operators compute the IEEE 754 result for every operand",
  "For every f32/f64 arithmetic, rounding, sign, min/max, square-root and comparison operator, the guest observes the IEEE 754 result WebAssembly defines, including signed zeros, infinities, subnormals and NaN propagation (NaN payloads of arithmetic results excepted, sign operators being bit-exact). This holds wherever the operands come from and however the result is consumed.",
  ["inputs","programs"],"all operand bit patterns and constant immediates, for each operator x operand source x result consumer",samp+"; special values in combination with operand sources are not reached.",
  [H,PA,OP],[("operator handlers",H),("operand folding",PA)])
p("C03","Numeric conversions are exact and trap exactly where WebAssembly traps",
  "Every conversion between i32, i64, f32 and f64 (wrap, extend, convert, demote, promote, reinterpret, trapping and saturating truncation) gives the value WebAssembly defines; a trapping truncation traps for NaN, infinities and out-of-range values and for nothing else.",
  ["inputs","programs"],"all source bit patterns, for each conversion x operand source x result consumer",samp+"; the exact range boundaries and rounding ties are not sampled.",
  [H,PA],[("conversion handlers",H),("destination folding of conversions",PA)])
p("C04","Loads and stores move exactly the addressed bytes",
  "A load returns the little-endian value of exactly the addressed bytes, sign- or zero-extended as its type says, and a store changes exactly the addressed bytes, for every in-bounds address, every constant offset, every width and every stored value. Any sequence of overlapping loads and stores observes the most recent value of each byte, and all other bytes of memory stay unchanged.",
  ["inputs","programs","histories"],"all addresses within the memory, all constant offsets, all stored bit patterns; sequences of up to three accesses over overlapping symbolic addresses","Tests use a few fixed addresses and offsets; overlaps, offset immediates and operand-source specialisations are not covered.",
  [H,PA,MEM],[("memory handlers",H),("little-endian byte access",MEM),("address/offset decoding and folding",PA)],["values loaded, full memory contents, memory size"])
p("C05","Memory size, growth and bulk operations follow WebAssembly",
  "memory.size, memory.grow, memory.fill, memory.copy (any overlap), memory.init and data.drop have the effect and result WebAssembly defines for all in-range operands, and growth beyond the declared or absolute maximum fails with -1 and changes nothing. Grown memory is zero, keeps its old contents and is immediately visible everywhere, including in callers of the function that grew it.",
  ["inputs","programs","histories"],"all operand values within the stated windows, all growth deltas, histories of grow/access/call","Tests grow and fill with fixed small arguments; extreme deltas, overlap and growth inside callees are not enumerated.",
  [H,MEM,RT],[("bulk handlers",H),("growth and bulk byte moves",MEM),("refresh of cached memory on return from a call",RT)],["results, memory contents and size"])
p("C06","Structured control flow takes exactly the WebAssembly path",
  "Blocks, loops, if/else, br, br_if, br_table and return (including branches to the function's own label, branches out of nested constructs and code after an unconditional branch) transfer control and carry operands and block parameters/results exactly as WebAssembly defines. This holds for every nesting, every operand type mixture, every condition and every table index.",
  ["inputs","programs"],"all conditions, indices and carried values, over generated nests of up to three labels of every kind with up to three carried values of mixed types","Tests exercise a few nests; label resolution and operand routing depend on the shape of the whole function.",
  [PA,H,RG],[("branch target and operand resolution",PA),("branch handlers",H),("per-type register stacks",RG)],["results, order of side effects in memory"])
p("C07","Instruction sequences have the same meaning as their unoptimised form",
  "Preprocessing a function body (folding of locals, constants and destinations into neighbouring instructions, register assignment, fused select/drop/tee handling) never changes what the function computes: every value reaches exactly the instruction that consumes it, in order, and every local holds what was last assigned to it.",
  ["programs","inputs"],"all well-typed straight-line sequences up to the stated length over a representative instruction alphabet, plus directed longer ones; all parameter values","The number of instruction sequences is exponential; tests contain only those that compilers or authors happened to write.",
  [PA,"doc/folding.md",RG,OP],[("operand lookahead and folding",PA),("destination folding",PA),("register allocation",RG)])
p("C08","Calls isolate frames and pass arguments and results unchanged",
  "A call passes its arguments in order, starts with zeroed locals, and returns all results in order; the caller's locals and pending operands are unaffected by the callee, for any signature, any nesting and recursion depth within bounds.",
  ["inputs","programs","histories"],"all argument values; signatures of up to eight results and mixed types; call graphs incl. (mutual) recursion within the stated depth","Tests call with few signatures and values; register windows depend on the combination of frames.",
  [RT,RG,ST,H],[("frame push/pop, argument and result transfer",RT),("register windows",RG)])
p("C09","Indirect calls and tables select exactly the referenced function",
  "An indirect call runs the function stored at the given table index and fails without running anything when the entry is null, out of range or of another signature; table reads, writes and fills and null tests on references observe the latest contents.",
  ["inputs","programs","histories"],"all table indices and fill ranges; function tables of up to eight entries with equal and different signatures","Tests use constant in-range indices.",
  [H,"src/execution/table.rs",MOD,PA],[("indirect call",H),("table instance",  "src/execution/table.rs")])
p("C10","Globals hold exactly the last written value and are independent",
  "Every global starts with its declared initial value, reads return the most recent write regardless of which function or invocation performed it, and writing one global never affects another.",
  ["inputs","programs","histories"],"all written values and initial constants; every numeric type; histories of writes and reads across functions and invocations","Tests read back few literals.",
  [H,"src/execution/global.rs",MOD,PA],[("global handlers",H),("global instance","src/execution/global.rs"),("initialisers",MOD)])
p("C11","Instantiation builds exactly the declared initial state",
  "After a successful instantiation memory, tables, globals and exports are exactly what the module declares (data and element segments at their offsets in declaration order, everything else zero or null); a segment that does not fit, a missing import or a malformed module makes loading fail instead of producing a runnable instance.",
  ["inputs","programs","configurations"],"segment offsets and contents, initial values and names symbolic; generated module layouts","Tests use fixed literal segments.",
  [MOD,PA,"src/structure/module.rs"],[("instantiation",MOD),("section decoding",PA)],["memory, tables, globals, exported functions after instantiation"])
p("C12","A trap ends execution immediately and keeps earlier effects only",
  "When guest code traps (unreachable, division, truncation, failed indirect call) the invocation fails and never reports a result; every effect before the trap stays, no instruction after it takes effect, and at any call depth no caller continues.",
  ["inputs","programs","histories"],"all operand values; trap sources x call depth x position relative to memory/global effects","Tests check that an error is returned, not what happened before and after it.",
  [H,RT,"src/error.rs"],[("trap outcome propagation",RT),("trapping handlers",H)],["invocation outcome, memory and globals written before/after"])
p("C13","Checkpoint and restore are transparent at every checkpoint point",
  "If a checkpoint request is seen at any polling point of an execution, the run stops and writes a checkpoint; restoring it into a fresh instance of the same module and continuing produces the same results, memory, globals, outcome and remaining host interaction as the uninterrupted run.",
  ["crash_points","inputs","programs"],"all polling points (every phase of the program against the polling interval), all guest inputs, over programs covering live locals, operands, labels, frames, grown memory and globals","Tests checkpoint at one or two points of fixed programs.",
  [MIG,ST,RT,RG],[("state capture and reconstruction",MIG),("serialised frames",ST),("resume",RT)],["results after restore vs. uninterrupted"])
p("C14","Checkpoints survive repetition and migration between builds",
  "A restored execution can be checkpointed and restored again any number of times, and a checkpoint written by one dispatcher build can be restored by the other; the final result is that of the uninterrupted run.",
  ["crash_points","inputs","configurations","histories"],"pairs of checkpoint points, writer/reader dispatcher build combinations, all guest inputs","No test restores twice or across builds.",
  [MIG,ST,RT,DL,DT],[("serialised state independent of dispatcher",MIG),("checkpoint enablement after restore",RT)])
p("C15","A checkpoint request is honoured within a bounded number of instructions",
  "While checkpointing is enabled, a pending request is noticed within a fixed bound of executed guest instructions whatever the call structure of the guest, also after a restore; without a request, or with checkpointing disabled, execution is never interrupted and no checkpoint is written.",
  ["schedules","programs","inputs"],"all arrival times of the request relative to execution; loops, recursion, call-heavy and call-free guests, with and without WASI imports","Tests create the request before starting and use one loop.",
  [MIG,RT,DL,DT],[("throttled polling",MIG),("enablement per frame",RT)])
p("C16","A damaged or unwritable checkpoint is reported, never resumed from",
  "Restoring from a checkpoint file that is missing, empty, truncated at any byte, or that the host fails to open or read completely ends with an error and never resumes execution (a read that is merely delivered in pieces restores normally). When the host refuses to create the checkpoint file, or a write to it fails, the run ends with an error and does not report a checkpoint; a write accepted in pieces still produces the complete file.",
  ["fault_sequences","crash_points"],"every truncation length of checkpoints of the studied programs; every error code and partial count of the host calls on the file","Tests do not damage checkpoints and run on a host whose calls on the file succeed.",
  [MIG],[("decoding and validation of the checkpoint",MIG)])
p("C17","WASI calls reach the host unchanged and answers reach the guest unchanged",
  "Each supported WASI call by the guest makes the corresponding host call with the same file descriptors, flags, sizes, paths and buffer contents, and the host's error code and output data are what the guest observes in its result and memory; program arguments seen by the guest are exactly those given.",
  ["inputs","programs","fault_sequences"],"all scalar arguments, buffer contents and host answers including every error code, for each supported call","Tests run under one host with one outcome per call.",
  [WP,RT,"src/wasi/error.rs","src/wasi.rs"],[("argument marshalling",RT),("passthrough",WP)],["host calls made, guest result and memory"])
p("C18","Instrumentation and dispatcher choice never change the result",
  "Enabling checkpoint support, statistics or tracing, and choosing the loop or the tail-call dispatcher, never changes results, traps, memory, globals or host interaction of a guest.",
  ["configurations","inputs","programs"],"all combinations of dispatcher x checkpoint flag x statistics flag, and the stats/trace builds, over programs covering every instruction class, all inputs","The test suite is run in one configuration.",
  [DL,DT,RT,"src/execution/stats.rs","src/execution/trace.rs"],[("dispatchers",DL+", "+DT),("instrumentation",RT)])
p("C19","Successive invocations see exactly the state the earlier ones left",
  "Invocations on one instance behave like one sequential history: each sees the memory, globals and tables left by its predecessors (including after a trap), starts with fresh locals and operands, and two instances of one module share no state.",
  ["histories","inputs"],"sequences of up to four invocations with symbolic arguments, including trapping ones","Tests invoke once per instance.",
  [RT,ST,MOD],[("fresh stacks per runtime",ST),("shared instance",MOD)])
p("C20","Every valid binary encoding of a module means the same thing",
  "Over-long but valid number encodings, custom sections, split or merged local declarations and every encodable immediate are decoded to the value they denote.",
  ["inputs","programs"],"all constant immediates in every valid encoding length for each immediate position; section layouts","Tests use the encodings one assembler emits.",
  [PA],[("section and operator decoding",PA)])
p("C21","The command line hands the guest exactly the given arguments",
  "The command-line program invokes the named export with exactly the parameter values written in the parameter list, in order, passes the program arguments split at the spaces outside double quotes (pieces without any character are not passed), and prints the result it computed; --cr and --restore stop and resume the same computation. A module that cannot be decoded, an export that does not exist or a checkpoint that cannot be read makes the program fail without running the guest or printing a result.",
  ["inputs","configurations"],"all parameter digit strings and argument characters within the stated lengths","There are no tests of the command line.",
  ["src/main.rs"],[("parameter and argument parsing","src/main.rs")],["standard output"])
p("C22","Running longer does not need more host stack or heap",
  "Neither the interpreter's own call nesting nor its heap use grows with the number of instructions a guest executes, whichever instructions its loops consist of, and guest recursion of any depth does not use the host's call stack; a guest that terminates therefore runs to its end however much work it does.",
  ["inputs","programs","configurations"],"all iteration counts and recursion depths within the stated bounds, around every instruction kind, under both dispatchers","Tests run short guests; an instruction that adds one stack frame per execution shows up only after hundreds of thousands of iterations.",
  ["src/execution/handlers.rs","src/execution/dispatch_tco.rs","src/execution/dispatch_loop.rs",RT],[("tail-call chain and dispatch loop","src/execution/dispatch_tco.rs"),("label and frame stacks",RT)])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if s:
    for x in P: jsonschema.validate(x,s)
print(len(P))
