#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  < spec on stdin: JSON {old,new,needs,breaks,deps,demo} or list of edits. Creates seeded/ID from an edit of /repo's HEAD."""
import sys, os, json, shutil, subprocess, difflib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CR = {"u256": "algebra/u256", "primefield": "algebra/primefield", "elliptic-curve": "algebra/elliptic-curve",
      "elliptic-curve-crypto": "crypto/elliptic-curve-crypto", "hash": "crypto/hash", "merkle-tree": "crypto/merkle-tree", "stark": "crypto/stark",
      "mmap-vec": "utils/mmap-vec", "logging-allocator": "utils/logging-allocator", "macros-lib": "utils/macros-lib", "macros-decl": "utils/macros-decl"}
def make(id, prop, edits, needs, breaks, deps, demo, extra="", lock=None, sol=False):
    d = os.path.join(ROOT, "seeded", id); os.makedirs(d, exist_ok=True)
    out = ""
    byfile = {}
    for f, a, b in edits: byfile.setdefault(f, []).append((a, b))
    for f, es in byfile.items():
        s = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f]).decode()
        n = s
        for a, b in es:
            assert n.count(a) == 1, (id, f, n.count(a), a)
            n = n.replace(a, b)
        out += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(s.splitlines(True), n.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy(os.path.join(ROOT, "tools/demo_template.sh"), d + "/demo.sh")
    toml = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n\n[dependencies]\n'
    for x in deps: toml += f'zkp-{x} = {{ path = "@REPO@/{CR[x]}" }}\n'
    if sol:
        toml += 'sol = { path = "sol" }\n'
        shutil.rmtree(d + "/sol", True); shutil.copytree(ROOT + "/harness/sol", d + "/sol", ignore=lambda a, b: [x for x in b if x in ("target", "Cargo.lock")])
        t = open(d + "/sol/Cargo.toml").read().replace("[workspace]\n", ""); open(d + "/sol/Cargo.toml", "w").write(t)
        h = open(d + "/demo.sh").read()
        h = h.replace('sed "s#@REPO@', 'cp -r "$here/sol" "$w/sol"\nexport REPO_DIR="$repo"\nsed "s#@REPO@'); open(d + "/demo.sh", "w").write(h)
    toml += extra + '\n[workspace]\n\n[profile.dev]\nopt-level = 1\ndebug = false\ndebug-assertions = false\noverflow-checks = false\n'
    open(d + "/demo.toml", "w").write(toml)
    open(d + "/demo.rs", "w").write(demo)
    # lock file adapted to the demo
    w = "/tmp/mkseed"; shutil.rmtree(w, True); os.makedirs(w + "/src"); open(w + "/src/main.rs", "w").write("fn main(){}")
    open(w + "/Cargo.toml", "w").write(toml.replace("@REPO@", "/repo")); shutil.copy("/opt/vp/Cargo.lock", w + "/Cargo.lock")
    if sol: shutil.copytree(d + "/sol", w + "/sol")
    subprocess.check_call(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env={**os.environ, "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu"})
    shutil.copy(w + "/Cargo.lock", d + "/demo.lock"); shutil.rmtree(w)
    print("made", id)
