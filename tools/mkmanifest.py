#!/usr/bin/env python3
# Writes MANIFEST.json: claimed checks and the reasons for the rest.
import json,os,sys
here=os.path.join(os.path.dirname(__file__),"..")
props=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
claimed=os.popen(f"cd {here} && sed -n 's/^ *\"\\(C[0-9]*\\)\" => .*/\\1/p' wsym/src/props.rs").read().split()
NA={}
T={"default":"symbolic execution of the compiled interpreter (rustc wasm32 output) against WebAssembly semantics on the same symbolic inputs; SMT-decided equivalence per path pair; counterexamples replayed on the real build"}
notes={"default":"For every enumerated guest program and every path, z3 shows equality of results, traps, memory and globals with WebAssembly semantics for all symbolic inputs; bounded by the program enumeration and loop/step bounds in the evidence file. Trusts rustc/LLVM's lowering to wasm32, wsym's WebAssembly semantics and host model, and the solver. Out-of-bounds guest accesses, V128 and module validation are outside (documented reliance on the host)."}
sys.path.insert(0,os.path.dirname(__file__))
try:
    import levels
    T.update(levels.T); notes.update(levels.N); NA.update(levels.NA)
except ImportError: pass
checks=[]; na=[]
for p in props:
    if p in claimed and p not in NA:
        checks.append(dict(property=p,quick_cmd=f"./check.sh {p} quick",thorough_cmd=f"./check.sh {p} thorough",technique=T.get(p,T["default"]),level="translation_validation",level_note=notes.get(p,notes["default"])))
    else:
        na.append(dict(property=p,reason=NA.get(p,"The check for this property is not built yet.")))
hook=os.popen("git -C /repo log --format=%H --grep='^verif hook'").read().split()
m=dict(version=1,hooks=dict(guard="cfg(chiwawa_dense_poll)",enable="RUSTFLAGS=--cfg chiwawa_dense_poll (checks of C13 and C14: the builds named tcod and legacyd)",source_commits=hook),setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="See DESIGN.md. Checks rebuild the interpreter, the driver and the engine from the current sources into /verif/build.")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); print([c["property"] for c in checks])
