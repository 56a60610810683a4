#!/usr/bin/env python3
"""check.py <property> [--thorough] : decide one property on /repo's working tree.
Exit 0: held on everything explored; 1: VIOLATION (replayed on the native build); 2: no answer."""
import sys, os, json, time, re, subprocess, fcntl, glob, shutil, hashlib
V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, "target")
sys.path.insert(0, os.path.join(V, "lib"))
from props import PROPS, CRATES, ASSUMPTIONS
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): ENV.pop(k, None)
def die(msg):
    print("ERROR: " + msg); sys.exit(2)
def sh(cmd, cwd=V, env=ENV, timeout=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout
class lock:
    def __init__(s, n): os.makedirs(T, exist_ok=True); s.f = open(os.path.join(T, n), "w")
    def __enter__(s): fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): s.f.close()
def build_engine():
    with lock("engine.lock"):
        rc, o = sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(T, "engine")], os.path.join(V, "engine"))
        if rc: die("engine does not build\n" + o[-3000:])
    return os.path.join(T, "engine/release/symex")
def tree_digest(dirs):
    """contents of everything a build reads"""
    h = hashlib.sha256(sh(["rustc", "-vV"])[1].encode())
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in (".git", "target"))
            for f in sorted(fs):
                p = os.path.join(r, f)
                if os.path.islink(p): h.update(f"{p}\0{os.readlink(p)}\0".encode()); continue
                if os.path.isfile(p):
                    d2 = open(p, "rb").read(); h.update(f"{p}\0{len(d2)}\0".encode()); h.update(d2)
    return h.hexdigest()
def build_crate(c):
    """native binary and LLVM IR of a harness crate, from /repo's current tree; kept while the contents of the trees are the same"""
    b = CRATES[c]; td = os.path.join(T, c); stamp = td + ".stamp"
    with lock(c + ".lock"):
        dg = tree_digest(["/repo", os.path.join(V, "harness"), os.path.join(V, "engine/src")])
        try: s_dg, s_exe, s_ll = open(stamp).read().split("\n")[:3]
        except (OSError, ValueError): s_dg = None
        if s_dg == dg and os.path.exists(s_exe) and os.path.exists(s_ll): return s_exe, s_ll
        if os.path.exists(stamp): os.remove(stamp)
        # cargo looks at times only: forget what it built from /repo
        for t in glob.glob("/repo/crates/*/Cargo.toml"):
            n = re.search(r'^name\s*=\s*"([^"]+)"', open(t).read(), re.M)
            for d in glob.glob(f"{td}/release/.fingerprint/{n.group(1)}-*") if n else []: shutil.rmtree(d, ignore_errors=True)
        for attempt in (0, 1):
            rc, o = sh(["cargo", "rustc", "--release", "--offline", "--bin", b, "--", "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
                       os.path.join(V, "harness", c), dict(ENV, CARGO_TARGET_DIR=td))
            if rc: die(f"harness {c} does not build against /repo\n" + o[-4000:])
            ll = sorted(glob.glob(f"{td}/release/deps/{b}-*.ll"), key=os.path.getmtime)
            exe = f"{td}/release/{b}"
            # the IR must be the one of the executable just built
            if ll and os.path.exists(exe) and abs(os.path.getmtime(ll[-1]) - os.path.getmtime(exe)) < 600:
                for x in ll[:-1]: os.remove(x)
                open(stamp, "w").write(f"{dg}\n{exe}\n{ll[-1]}\n")
                return exe, ll[-1]
            os.utime(os.path.join(V, "harness", c, "src/main.rs"))
        die("no IR was produced")
def norm(m):
    m = re.sub(r"axiom \d+", "axiom N", m)
    m = re.sub(r"trace .*?(:|$)", "trace:", m)
    return m
def read_viol(f):
    t = open(f, errors="replace").read()
    kind = t.split("\n", 1)[0][5:].strip()
    msg = t.split("\nmsg ", 1)[1].split("\n--inputs", 1)[0].strip()
    return kind, msg, t.split("--inputs\n", 1)[1]
def replay(symex, exe, entry, inputs, d):
    """run the native build on the counterexample; what it gets wrong, or None"""
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/or"); os.makedirs(d + "/scratch")
    open(d + "/inputs", "w").write(inputs)
    open(d + "/replay.sh", "w").write("#!/bin/bash\n# the failing case on the native build: a line SYM-FAIL, a panic, or ORACLE-VIOLATION lines\n"
        f"cd \"$(dirname \"$0\")\"; export SYM_INPUTS=$PWD/inputs SYM_ORACLE_DIR=$PWD/or SYM_SCRATCH=$PWD/scratch\n{exe} {entry}; rc=$?\n"
        f"for k in or/*.kind; do [ -e \"$k\" ] && {symex} oracle $k ${{k%.kind}}.src ${{k%.kind}}.out; done\nexit $rc\n")
    env = dict(ENV, SYM_INPUTS=d + "/inputs", SYM_ORACLE_DIR=d + "/or", SYM_SCRATCH=d + "/scratch", RUST_BACKTRACE="0")
    try: rc, o = sh([exe, entry], d, env, timeout=60)
    except subprocess.TimeoutExpired: return "does not terminate within 60 s"
    m = re.search(r"SYM-FAIL: (.*)", o)
    if m: return m.group(1)
    if rc not in (0, 96): return f"native run ends with status {rc}: " + o.strip()[-400:]
    for k in sorted(glob.glob(d + "/or/*.kind")):
        b = k[:-5]
        try: rc, o = sh([symex, "oracle", k, b + ".src", b + ".out"], timeout=180)
        except subprocess.TimeoutExpired: continue
        m = re.search(r"ORACLE-VIOLATION: (.*)", o)
        if m: return m.group(1)
    return None
def known():
    r = []
    for l in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) entry=(\S+) match=(.*?) :: (.*)", l)
        if m: r.append(m.groups())
    return r
def main():
    pid = sys.argv[1]; thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    if pid not in PROPS: die("unknown property")
    t0 = time.time(); P = PROPS[pid]
    symex = build_engine()
    ents = P["entries"] + (P.get("thorough", []) if thorough else [])
    built = {}
    for e in ents:
        if e["crate"] not in built: built[e["crate"]] = build_crate(e["crate"])
    tb = time.time() - t0
    sums = []; probs = []; viols = []; kn = []; unrep = []
    base = os.path.join(T, "runs", pid); shutil.rmtree(base, ignore_errors=True)
    repdir = os.path.join(V, "evidence", "replay", pid); shutil.rmtree(repdir, ignore_errors=True)
    for e in ents:
        exe, ll = built[e["crate"]]
        out = os.path.join(base, e["entry"])
        cmd = [symex, "run", "--ll", ll, "--entry", e["entry"], "--out", out, "--jobs", "8", "--secs", str(e.get("secs", 600)), "--oracle-secs", str(e.get("osecs", 150))]
        if "max" in e: cmd += ["--max-instrs", str(e["max"])]
        try: rc, o = sh(cmd, timeout=e.get("secs", 600) + 420)
        except subprocess.TimeoutExpired: rc, o = 1, "timeout"
        if rc or not os.path.exists(out + "/summary.json"):
            probs.append(f"{e['entry']}: the engine gave no answer: {o[-600:]}"); continue
        s = json.load(open(out + "/summary.json")); sums.append((e, s))
        # every inconclusive outcome is reported, never counted as held
        for k in ("paths_limit", "paths_inconclusive", "crashed", "truncated"):
            if s[k]: probs.append(f"{e['entry']}: {k}={s[k]} {[n for n in s['notes'] if 'nconcl' in n or 'limit' in n][:2]}")
        if s["oracle_errors"]: probs.append(f"{e['entry']}: {len(s['oracle_errors'])} oracle errors: {s['oracle_errors'][0][:300]}")
        for n in e.get("reach", []):
            if not s["notes"].get("reach:" + n): probs.append(f"{e['entry']}: vacuous, never reaches {n}")
        for n, c in e.get("cover", {}).items():
            if s["oracle_cover"].get(n, 0) < c: probs.append(f"{e['entry']}: only {s['oracle_cover'].get(n,0)} judgements of class {n}")
        if s["paths_ok"] + s["paths_panic"] + s["violations"] < e.get("paths", 1): probs.append(f"{e['entry']}: only {s['paths_ok']} paths")
        seen = {}
        for f in sorted(glob.glob(out + "/viol-*.txt"), key=lambda x: int(re.findall(r"(\d+)\.txt", x)[0])):
            k, m, i = read_viol(f); seen.setdefault(norm(m), []).append((k, m, i))
        n = 0
        for nm, l in sorted(seen.items(), key=lambda x: x[0]):
            k, m, i = l[0]
            f = [x for x in known() if x[0] == pid and x[1] == e["entry"] and re.search(x[2], m)]
            if f: kn.append((f[0][3], len(l))); continue
            n += 1
            if n > 6 and viols: continue
            d = os.path.join(repdir, f"{e['entry']}-{n}")
            w = replay(symex, exe, e["entry"], i, d)
            if w is None: unrep.append(f"{e['entry']}: not reproduced natively: {m[:300]}")
            else: viols.append((d, m, w, len(l)))
        shutil.rmtree(out + "/or", ignore_errors=True)
    for d in sorted({x[0] for x in kn}): print(f"KNOWN-FINDING: property={pid} {d}")
    tot = lambda k: sum(s[k] for _, s in sums)
    cover = {}
    for _, s in sums:
        for k, c in s["oracle_cover"].items(): cover[k] = cover.get(k, 0) + c
    funs = sorted({f for _, s in sums for f in s["functions"]})
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P["level"],
      "coverage": {"explanation": P["explain"], "bounds": P["bounds"],
        "programs": tot("oracle_problems"), "disagreements_checked": tot("oracle_checks"),
        "evaluations": tot("paths_ok") + tot("paths_panic") + tot("paths_assume"), "distinct_nontrivial": tot("paths_ok"),
        "rule": "one evaluation per feasible path of the harness through the real code under symbolic inputs; non-trivial: the path satisfies the harness's assumptions and runs to its end",
        "paths_completed": tot("paths_ok"), "paths_cut_by_assumption": tot("paths_assume"), "paths_panicking": tot("paths_panic"), "forks": tot("forks"),
        "instructions_interpreted": tot("instructions"),
        "queries_path_feasibility": tot("branch_queries"), "solver_s_path_feasibility": round(tot("branch_solver_s"), 2), "unknown_answers": tot("unknowns"),
        "queries_oracle": tot("oracle_queries"), "solver_s_oracle": round(tot("oracle_solver_s"), 2), "judgements_by_class": cover,
        "functions_encoded": len(funs), "functions": funs[:400], "solver": sums[0][1]["z3"] if sums else "",
        "witnesses": {s["entry"]: {k: v for k, v in s["notes"].items() if k.startswith("reach:")} for _, s in sums},
        "samples": [{"entry": s["entry"], **{k: s[k] for k in ("paths_ok", "forks", "branch_queries", "oracle_problems", "oracle_queries", "wall_s")}} for _, s in sums],
        "build_s": round(tb, 1), "inconclusive": probs + unrep, "known_findings": [x[0] for x in kn]},
      "assumptions": ASSUMPTIONS + P.get("assume", []), "wall_s": round(time.time() - t0, 1), "violations": len(viols)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for d, m, w, c in viols:
        print(f"VIOLATION property={pid} replay={d}"); print(f"  {c} case(s): {m[:600]}"); print(f"  native: {w[:400]}")
    for x in probs + unrep: print("INCONCLUSIVE: " + x)
    print(f"{pid}: {tot('paths_ok')} paths, {tot('oracle_problems')} outputs judged, {tot('branch_queries')+tot('oracle_queries')} queries, {len(viols)} violations, {time.time()-t0:.0f} s")
    sys.exit(1 if viols else 2 if probs + unrep else 0)
if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build_engine(); [build_crate(c) for c in CRATES]; sys.exit(0)
    main()
