#!/usr/bin/env python3
"""Measures the machinery: random one-line changes to the sources, which of them the simulations notice.
usage: mutate.py WORKDIR SEED COUNT file... (files relative to /repo); PROPS and WORKERS from the environment."""
import os, random, re, shutil, subprocess, sys, json, threading, queue
work, seed, count, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
props = os.environ.get("PROPS", " ".join(f"C{i:02}" for i in range(1, 22))).split()
workers = int(os.environ.get("WORKERS", "3"))
base = "/repo"
OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\btrue\b", "false"),
    (r"\bfalse\b", "true"), (r"checked_add", "checked_sub"), (r"checked_sub", "checked_add"),
    (r"saturating_sub", "wrapping_sub"), (r"Side::Bid", "Side::Ask"), (r"Side::Ask", "Side::Bid"),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"if (?!let)", "if !"), (r"native_pc", "native_coin"),
    (r"native_coin", "native_pc"), (r"coin_lot_size", "pc_lot_size"), (r"pc_lot_size", "coin_lot_size"),
    (r"_free", "_total"), (r"_total", "_free"), (r"break;", "continue;"), (r"continue;", "break;"),
    (r"coin_", "pc_"), (r"pc_", "coin_"), (r"\?;$", ".ok();"), (r" << ", " >> "), (r" & ", " | "), (r"!", ""),
]
DEL = re.compile(r"^\s+[a-z_\.\*\(\)\[\]:!]+.*;\s*$")
muts = []
for f in files:
    lines = open(f"{base}/{f}").read().split("\n")
    skip = False
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l or "mod tests" in l:
            break
        t = l.strip()
        if not t or t.startswith("//") or t.startswith("#") or t.startswith("use ") or "debug_assert" in t or "msg!" in t:
            continue
        for pat, rep in OPS:
            for m in re.finditer(pat, l):
                muts.append((f, i, l[:m.start()] + rep + l[m.end():]))
        if DEL.match(l) and not t.startswith(("let ", "return", "pub ", "const ", "type ")):
            muts.append((f, i, ""))
random.Random(seed).shuffle(muts)
muts = muts[:count]
q = queue.Queue()
for m in muts:
    q.put(m)
out = open(f"{work}/results.jsonl", "a")
lock = threading.Lock()
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.72.1", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", SIM_THREADS="3",
           SIM_RUNS=os.environ.get("SIM_RUNS", "250"), SIM_SECS="15", VERIF_SEED="5", RUST_BACKTRACE="0")
def run(cmd, cwd, t=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=t)
        return p.returncode, p.stdout.decode()
    except subprocess.TimeoutExpired:
        return -9, ""
def worker(k):
    d = f"{work}/{k}"
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(["cp", "-a", base, f"{d}/repo"])
        subprocess.run(["cp", "-a", "/verif/sim", f"{d}/sim"])
        t = open(f"{d}/sim/Cargo.toml").read().replace('"/repo/', f'"{d}/repo/')
        open(f"{d}/sim/Cargo.toml", "w").write(t)
    while True:
        try:
            f, i, new = q.get_nowait()
        except queue.Empty:
            return
        p = f"{d}/repo/{f}"
        orig = open(f"{base}/{f}").read()
        ls = orig.split("\n")
        old = ls[i]
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        rc, _ = run(["cargo", "build", "--release", "--offline", "--quiet"], f"{d}/sim")
        if rc != 0:
            r["result"] = "nobuild"
        else:
            rc, o = run(["./target/release/sim", "scan"] + props, f"{d}/sim")
            r["by"] = [l[:3] for l in o.splitlines() if re.match(r"C\d\d ", l)]
            r["what"] = [l for l in o.splitlines() if re.match(r"C\d\d ", l)][:2]
            if rc == -9:
                r["result"] = "hang"
            elif r["by"]:
                r["result"] = "caught"
            else:
                r["result"] = f"survived rc={rc}"
                rc, o = run(["cargo", "test", "--offline", "--quiet"], f"{d}/repo/" + f.split("/")[0])
                r["tests"] = "fail" if rc else "pass"
        open(p, "w").write(orig)
        with lock:
            out.write(json.dumps(r) + "\n")
            out.flush()
ts = [threading.Thread(target=worker, args=(k,)) for k in range(workers)]
[t.start() for t in ts]
[t.join() for t in ts]
