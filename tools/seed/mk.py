"""mk.py SPEC.py: SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], wat, cases)].
Writes /verif/seeded/<id>/ (patch.diff against /repo HEAD, demo.sh, guest.wat/.wasm, cases.txt, meta.json)."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
    r = t + "/r"
    for e in b["edits"]:
        f, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        s = open(f"{r}/{f}").read()
        n = s.count(old)
        if nth is None:
            assert n == 1, (b["id"], f, n, old)
            s = s.replace(old, new)
        else:
            p = -1
            for _ in range(nth): p = s.index(old, p + 1)
            s = s[:p] + new + s[p + len(old):]
        open(f"{r}/{f}", "w").write(s)
    diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(t)
    if "demo" in b:
        open(d + "/demo.sh", "w").write(b["demo"])
    else:
        shutil.copy(here + "/demo.sh", d + "/demo.sh")
    if "cases" in b: open(d + "/cases.txt", "w").write("\n".join(b["cases"]) + "\n")
    for name, w in ({"guest": b["wat"]} if isinstance(b.get("wat"), str) else b.get("wat", {})).items():
        open(f"{d}/{name}.wat", "w").write(w)
        subprocess.run(["/verif/build/wsym/release/wsym", "wat", f"{d}/{name}.wat", f"{d}/{name}.wasm"], check=True)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
