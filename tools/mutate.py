#!/usr/bin/env python3
"""Mutation sampling: which random edits of the sources do the checks miss?
usage: mutate.py LANE SEED SECONDS [FILE-SUBSTRING...]
Works in /tmp/mut<LANE> (copies of /repo and /verif); appends to /tmp/mut<LANE>.jsonl. Not part of any check."""
import sys, os, re, random, json, subprocess, time, difflib
lane, seed, secs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4:]
W = f"/tmp/mut{lane}"; R = W + "/repo"; V = W + "/verif"
OUT = f"/tmp/mut{lane}.jsonl"
S = "crypto/stark/src/"
CHK = [
 ("algebra/u256/src/encoding", "C03 C01 C02"), ("algebra/u256/src/conversion", "C03 C01"), ("algebra/u256/src/algorithms/montgomery", "C04 C01 C02"),
 ("algebra/u256/src", "C01 C02 C03"),
 ("algebra/primefield/src/fft", "C08"), ("algebra/primefield/src/invert_batch", "C07"), ("algebra/primefield/src/geometric", "C07"),
 ("algebra/primefield/src", "C04 C05 C06 C07"), ("algebra/elliptic-curve/src/wnaf", "C10"), ("algebra/elliptic-curve/src", "C09 C10 C11"),
 ("crypto/elliptic-curve-crypto", "C11"), ("crypto/hash", "C12"), ("crypto/merkle-tree", "C13 C14 C12"), ("utils/mmap-vec", "C15"),
 ("utils/logging", "C16"), ("utils/macros", "C17"),
 (S+"channel", "C25 C24 C23"), (S+"constraints", "C28 C25 C22"), (S+"polynomial", "C18 C25"), (S+"proof_of_work", "C23 C25"),
 (S+"rational_equality", "C19"), (S+"rational_expression", "C19 C25 C20"), (S+"solidity_seralizer", "C26"), (S+"solidity_verifier", "C27"),
 (S+"traits", "C20 C21 C22"), (S+"verifier", "C24 C23 C22"), (S+"algebraic_dag", "C25 C22"), (S+"component", "C21"), (S+"constraint_check", "C20"),
 (S+"prover", "C25 C22 C23"), (S+"trace_table", "C18 C25 C20"), (S, "C22"),
 ("crypto/stark/assets", "C27"), ("crypto/stark-verifier-ethereum/contracts", "C30 C29 C27"),
]
SKIP = ["tests/", "benches", "examples", "benchmark", "testing_contracts", "proptest.rs", "x86_64", "pedersen.rs", "group_sig", "component/test.rs", "notebook", "criterion", "lints.rs", "fuzz"]
def checks(f):
    for k, v in CHK:
        if f.startswith(k): return v.split()
def sh(c, **k): return subprocess.run(c, shell=True, **k)
def setup():
    if not os.path.isdir(W):
        os.makedirs(W)
        sh(f"git clone -q /repo {R}; cp -a /verif {V}; rm -rf {V}/target {V}/seeded {V}/.git; cp -a /verif/target {V}/target")
    else:
        sh(f"cd {R} && git checkout -q -- . && git pull -q; rsync -a --delete /verif/harness/ {V}/harness/ 2>/dev/null || (rm -rf {V}/harness; cp -a /verif/harness {V}/harness); cp /verif/run.sh {V}/run.sh")
    sh(f"grep -rlE '\"/repo|/repo/' {V}/harness --include=*.rs --include=*.toml --include=*.lock | xargs sed -i 's#/repo/#{R}/#g; s#\"/repo\"#\"{R}\"#g'")
def lines_of(f):
    s = open(f"{R}/{f}").read().split("\n")
    ok = []
    test = False
    for i, l in enumerate(s):
        t = l.strip()
        if "#[cfg(test)]" in t: test = True
        if test: continue
        if not t or t.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "import", "pragma", "*", "/*")): continue
        if re.search(r"debug_assert|trace!|info!|trace\('|panic!|println|console|unreachable!|log::|warn!", t): continue
        ok.append(i)
    return s, ok
BIN = [(" + ", [" - "]), (" - ", [" + "]), (" * ", [" + "]), (" << ", [" >> "]), (" >> ", [" << "]), (" & ", [" | "]), (" | ", [" & "]), (" ^ ", [" | "]),
 (" < ", [" <= ", " > "]), (" <= ", [" < "]), (" > ", [" >= "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]), (" && ", [" || "]), (" || ", [" && "]),
 (" += ", [" -= "]), (" -= ", [" += "]), (" % ", [" / "]), (" / ", [" % "]), ("true", ["false"]), ("false", ["true"]), ("..=", [".."]), (".rev()", [""]), ("0..", ["1.."]),
 (".next_power_of_two()", [""]), (".trailing_zeros()", [".leading_zeros()"]), (".sort_unstable()", [""]), (".dedup()", [""]), ("!", [""]), (".is_zero()", [".is_one()"]), (".double()", [""]),
 (".square()", [""]), (".pow(", [".pow(1 + "]), ("add(", ["sub("]), ("sub(", ["add("]), ("shl(", ["shr("]), ("or(", ["and("]), ("lt(", ["gt("]), ("gt(", ["lt("]), ("addmod(", ["mulmod("]),
 ("min(", ["max("]), ("max(", ["min("]), ("Some(", ["None.or_else(|| None).or(Some("])] [:-1]
def mutants(f):
    s, ok = lines_of(f)
    out = []
    for i in ok:
        l = s[i]
        code = l.split("//")[0]
        for a, bs in BIN:
            for m in re.finditer(re.escape(a), code):
                if a in ("true", "false") and re.search(r"\w", code[m.end():m.end()+1] + code[max(0, m.start()-1):m.start()]): continue
                if a == "!" and re.match(r"!=|!\(|!\[|!\{", code[m.start():]) : continue
                if a in ("add(", "sub(", "or(", "lt(", "gt(", "min(", "max(") and re.search(r"\w$", code[:m.start()]): continue
                if a == " < " and ("impl" in code or "fn " in code): continue
                for b in bs: out.append((i, code[:m.start()] + b + code[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.]|\])", code):
            n = int(m.group(1))
            for k in {n + 1, max(0, n - 1), 0} - {n}: out.append((i, code[:m.start()] + str(k) + code[m.end():]))
        if re.match(r"\s*[\w.*\[\]()]+.*;\s*$", code) and not re.match(r"\s*(let|return|const|static|type|pub|fn|uint|bytes|struct|break|continue|\})", code):
            out.append((i, re.match(r"\s*", code).group(0) + "{}" if f.endswith(".rs") else re.match(r"\s*", code).group(0)))
        m = re.match(r"(\s*(?:\} else )?if )(.*)( \{\s*)$", code)
        if m and "let " not in m.group(2):
            out.append((i, f"{m.group(1)}false && ({m.group(2)}){m.group(3)}" if f.endswith(".rs") else f"{m.group(1)}(false){m.group(3)}"))
            out.append((i, f"{m.group(1)}true || ({m.group(2)}){m.group(3)}" if f.endswith(".rs") else f"{m.group(1)}(true){m.group(3)}"))
        for m in re.finditer(r"\((&?\w+), (&?\w+)\)", code):
            if m.group(1) != m.group(2) and not re.search(r"fn |\|", code): out.append((i, code[:m.start()] + f"({m.group(2)}, {m.group(1)})" + code[m.end():]))
    return s, out
def main():
    setup()
    rng = random.Random(seed)
    fs = [f for f in subprocess.check_output(["git", "-C", R, "ls-files"]).decode().split() if f.endswith((".rs", ".sol")) and checks(f) and not any(k in f for k in SKIP)]
    if only: fs = [f for f in fs if any(o in f for o in only)]
    pool = []
    for f in fs:
        s, ms = mutants(f)
        pool += [(f, i, n) for i, n in ms]
    print(len(pool), "mutants in", len(fs), "files")
    byf = {}
    for m in pool: byf.setdefault(m[0], []).append(m)
    for v in byf.values(): rng.shuffle(v)
    order = []
    # round robin weighted by square root of the number of mutants
    while any(byf.values()):
        for f in list(byf):
            k = max(1, int(len(byf[f]) ** 0.5) // 4)
            for _ in range(min(k, len(byf[f]))): order.append(byf[f].pop())
    end = time.time() + secs
    seen = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            d = json.loads(l); seen.add((d["f"], d["old"], d["new"]))
    if "RETEST" in os.environ:  # those of another lane's file without an answer
        seen = set()
        order = [(d["f"], d["line"] - 1, d["new"]) for d in map(json.loads, open(os.environ["RETEST"])) if d["res"].startswith(os.environ.get("KIND", "other"))]
    for f, i, new in order:
        if time.time() > end: break
        p = f"{R}/{f}"
        src = open(p).read(); ls = src.split("\n")
        if (f, ls[i], new) in seen: continue
        rec = {"f": f, "line": i + 1, "old": ls[i], "new": new}
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        t = time.time(); res = "survived"; by = ""
        for c in checks(f):
            r = sh(f"cd {V} && timeout 300 ./run.sh {c} > {W}/out.txt 2>&1").returncode
            o = open(f"{W}/out.txt").read()
            if r == 1 and "VIOLATION" in o: res = "killed"; by = c; break
            if "failed: no answer" in o: res = "invalid"; break
            if r != 0: res = f"other{r}"; by = c; break
        open(p, "w").write(src)
        rec.update(res=res, by=by, t=round(time.time() - t))
        open(OUT, "a").write(json.dumps(rec) + "\n")
main()
