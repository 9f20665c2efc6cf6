CK="symbolic execution of the compiled interpreter across processes: the request appears at a symbolic poll, the checkpoint file with symbolic contents is handed to a symbolically executed restoring process; SMT-decided equivalence of the stitched execution with WebAssembly semantics per path pair; counterexamples replayed on the real builds"
T={"C13":CK,"C14":CK}
N={k:"As for the other properties, with the stopping point of each process symbolic (every instruction of every frame of the densely polling build, chiwawa_dense_poll). The lz4 codec is replaced by a stand-in; extern references across a checkpoint are outside." for k in ("C13","C14")}
NA={}

T["C16"]="symbolic execution of the compiled checkpoint writer and restorer with a symbolic length of the file and symbolic answers (error, partial count) of the host calls on it; no feasible path may resume or report success against the expectation"
N["C16"]="For the enumerated guests and stopping points, z3 shows that no truncation length, error code of an open, first read or first write, or (characteristic; thorough: every) partial count lets a damaged file be resumed from or a failed checkpoint be reported as done. Faults beyond the first read/write and files altered otherwise are not covered."
T["C18"]="symbolic execution of four builds of the interpreter (dispatcher x instrumentation features) under combinations of the runtime flags against the reference semantics of the guest; z3 decides equality per path"
N["C18"]="For the enumerated guests z3 shows that each configuration gives the reference result, memory, globals and host calls for all inputs, hence that all agree. In this tree statistics and tracing are wired to nothing in the dispatch loops; their contents are not examined."
T["C22"]="symbolic execution of the compiled interpreter with a symbolic amount of guest work; per path, its call nesting and live heap bytes are compared with those of little work; counterexamples replayed under wasmtime"
N["C22"]="For every enumerated loop and recursion, for every amount of work within the bound, z3 shows that no feasible path nests deeper or allocates more than with little work (slack 2 frames, 96 bytes). Beyond the bound the claim is extrapolation: growth of less than the slack over the bound would be missed."
T["C15"]="symbolic execution of the compiled interpreter across processes with a symbolic arrival time of the request; no feasible path may finish (or be stopped) against the expectation"
N["C15"]="Guests with more work than the bound of 8192 instructions per poll must be stopped by a request arriving at any symbolic poll, in each of up to three successive processes; guests without a request, or with checkpoints disabled, must never be. The real polling rate is used (no hook)."

T["C17"]="symbolic execution of the compiled interpreter's WASI layer with symbolic host answers, scalars, pointers, lengths and buffer bytes against the guest making the call itself; z3 decides equality of the call issued, of the guest's memory and of the returned code per path"
N["C17"]="For 40 WASI calls in up to eight pointer layouts, and random programs mixing them, z3 shows that exactly the same host calls with the same values and bytes are issued and the same error code, outputs and memory result for every host answer within the modelled buffer sizes. proc_raise, pointers outside memory and paths containing NUL are outside; random_get of zero bytes may be answered without asking the host."

T["C20"]="symbolic execution of the compiled parser and interpreter on re-encoded modules with symbolic padding, marks and immediates against the reference semantics of the plain encoding; z3 decides equality per path"
N["C20"]="For enumerated guests rewritten with every integer of each immediate position in a longer valid encoding (the added bytes and immediates symbolic), custom sections in every place and local declarations split and merged, z3 shows the same results, traps and memory as for the plain encoding. The plain encodings are those of the other properties; custom section names are ASCII."
T["C21"]="symbolic execution of the compiled command-line program itself with symbolic argument bytes (digits, characters, damaged module bytes); z3 decides per path that its standard output and exit status are the expected ones"
N["C21"]="For the enumerated shapes of command lines, z3 shows for all digits of the numbers (up to 4, thorough 6, free digits; numbers of full length with the first or last digits free) and all characters of the program arguments (up to 3, thorough 5) that output and exit status are as stated. Malformed parameters, several results, references, statistics and trace options are outside."
