#!/usr/bin/env python3
"""probe.py LANE FILE: run checks against hand-made edits. FILE defines P = [(name, "C01 C02", [(file, old, new), ...]), ...];
FILE "seeds": the planted bugs of /verif/seeded.
Works in /tmp/mut<LANE> (copies of /repo and /verif), like mutate.py. Not part of any check."""
import sys, os, subprocess, time
lane, spec = sys.argv[1], sys.argv[2]
only = sys.argv[3:]
W = f"/tmp/mut{lane}"; R = W + "/repo"; V = W + "/verif"
def sh(c): return subprocess.run(c, shell=True)
if not os.path.isdir(W):
    os.makedirs(W)
    sh(f"git clone -q /repo {R}; cp -a /verif {V}; rm -rf {V}/target {V}/seeded {V}/.git; cp -a /verif/target {V}/target")
else:
    sh(f"cd {R} && git checkout -q -- . && git pull -q; rm -rf {V}/harness; cp -a /verif/harness {V}/harness; cp /verif/run.sh {V}/run.sh")
sh(f"grep -rlE '\"/repo|/repo/' {V}/harness --include=*.rs --include=*.toml --include=*.lock | xargs sed -i 's#/repo/#{R}/#g; s#\"/repo\"#\"{R}\"#g'")
g = {}
if spec == "seeds":
    import json
    g["P"] = [(n, json.load(open(f"/verif/seeded/{n}/meta.json"))["property"], []) for n in (only or sorted(os.listdir("/verif/seeded")))]
else:
    exec(open(spec).read(), g)
for name, props, edits in g["P"]:
    if only and name not in only: continue
    ok = spec != "seeds" or sh(f"cd {R} && git apply /verif/seeded/{name}/patch.diff").returncode == 0
    for f, a, b in edits:
        s = open(f"{R}/{f}").read()
        if s.count(a) != 1: print(name, "EDIT", f, s.count(a), repr(a)[:80], flush=True); ok = False; break
        open(f"{R}/{f}", "w").write(s.replace(a, b))
    if ok:
        for c in props.split():
            t = time.time()
            r = sh(f"cd {V} && timeout 600 ./run.sh {c} > {W}/out.txt 2>&1").returncode
            o = open(f"{W}/out.txt").read()
            res = "caught" if r == 1 and "VIOLATION" in o else "MISSED" if r == 0 else f"NOANSWER {r}"
            print(f"{name:32} {c} {res} {time.time()-t:.0f}s", flush=True)
            if res.startswith("NO"): print(o[-600:])
    sh(f"cd {R} && git checkout -q -- .")
