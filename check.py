#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--only SUBSTR] [-v] [--keep]
   check.py --replay FILE       re-runs a stored counterexample against /repo's code
Everything is regenerated from /repo's working tree: LLVM IR of the harness and of the
sources it needs is built, executed symbolically by engine/, the solver decides every
assertion, counterexamples are replayed natively (gcc, ASan) before they are reported."""
import sys, os, subprocess, json, time, hashlib, shutil, tempfile, re, concurrent.futures as cf, threading
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, V)
import specs
T0 = time.time()
HARD = float(os.environ.get("VP_HARD", "840"))
def left(): return HARD - (time.time() - T0)
SYS = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/python3.12"]
COMMON = ["-std=c++17", "-w", "-DFMT_HEADER_ONLY=1", "-DBOOST_ALL_DYN_LINK", "-DOMPI_SKIP_MPICXX=1", "-include", "utility"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi", "-lboost_container", "-lboost_log", "-lboost_chrono", "-lboost_filesystem", "-lboost_regex", "-lboost_thread", "-lboost_atomic", "-lboost_program_options", "-lboost_serialization", "/usr/lib/libVc.a", "-lpython3.12", "-ldl", "-lpthread"]

def run(cmd, timeout=None, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")

def gen_config(dst, chunk):
    src = open(os.path.join(REPO, "include/fub/config.hpp.in")).read()
    src = re.sub(r"#cmakedefine FUB_DEFAULT_CHUNK_SIZE.*", "#define FUB_DEFAULT_CHUNK_SIZE %d" % chunk, src)
    for k in ("FUB_WITH_TBB", "FUB_WITH_OPENMP"): src = re.sub(r"#cmakedefine " + k + r"\b", "#define " + k, src)
    src = re.sub(r"#cmakedefine (\w+).*", r"/* #undef \1 */", src)
    os.makedirs(os.path.join(dst, "fub"), exist_ok=True)
    open(os.path.join(dst, "fub/config.hpp"), "w").write(src)

def ensure_engine():
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(V, "engine"))): h.update(open(os.path.join(V, "engine", f), "rb").read())
    d = os.path.join(V, "build", "engine-" + h.hexdigest()[:16])
    e = os.path.join(d, "engine")
    if os.path.exists(e): return e
    tmp = d + ".%d" % os.getpid()
    rc, out = run(["bash", os.path.join(V, "engine/build.sh"), tmp], 800)
    if rc: raise RuntimeError("engine build failed:\n" + out[-3000:])
    os.makedirs(d, exist_ok=True); os.replace(os.path.join(tmp, "engine"), e); shutil.rmtree(tmp, ignore_errors=True)
    return e

class Unit:  # one bitcode module: harness + sources
    def __init__(u, d): u.__dict__.update(d)

def inc(work, u): 
    c = u.get("chunk", 8)
    sh = ["-I" + os.path.join(V, "harness", u["shadow"])] if "shadow" in u else [] # replacement headers
    return sh + ["-I" + REPO, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(work, "cfg%d" % c), "-I" + os.path.join(V, "harness")]

def compile_bc(work, u, src, out):
    defs = ["-D" + d for d in u.get("defs", [])]
    c = ["clang++-18", *COMMON, "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-DEIGEN_DONT_VECTORIZE", *defs, *inc(work, u), *SYS, "-c", "-emit-llvm", src, "-o", out]
    return run(c, max(60, left()))
def compile_nat(work, u, src, out):
    defs = ["-D" + d for d in u.get("defs", [])]
    c = ["g++", *COMMON, "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-DVP_NATIVE", *defs, *inc(work, u), *SYS, "-c", src, "-o", out]
    return run(c, max(120, left()))

def sources(u):
    r = [os.path.join(V, "harness", u["harness"])]
    for s in u.get("sources", []): r.append(os.path.join(REPO, s))
    return r

STDLIB = os.path.join(V, "runtime/stdlib.cpp")  # libstdc++ internals, for the engine only
def build_native(work, name, u, pool):
    exe = os.path.join(work, name + ".replay")
    srcs = sources(u) + [os.path.join(V, "runtime/replay.cpp")]
    objs = [os.path.join(work, "%s.%d.o" % (name, i)) for i in range(len(srcs))]
    rs = list(pool.map(lambda t: compile_nat(work, u, t[0], t[1]), zip(srcs, objs)))
    for (rc, out), s in zip(rs, srcs):
        if rc: return None, "native compile of %s failed: %s" % (s, out[-1500:])
    rc, out = run(["g++", "-fsanitize=address", "-rdynamic", *objs, "-o", exe, "-Wl,--unresolved-symbols=ignore-in-object-files" if u.get("loose") else "-Wl,--no-as-needed", *LIBS], 300)
    if rc: return None, "native link failed: " + out[-1500:]
    return exe, ""

def replay(exe, entry, f, timeout=60):
    """True if the violation shows natively"""
    outs = []
    for env in ({"ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=190"}, {"ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=0"}):
        e = dict(os.environ); e.update(env)
        rc, out = run([exe, entry, f], timeout, env=e)
        outs.append((rc, out))
        if rc == 124: return True, "did not terminate within %d s\n" % timeout + out[-500:]
        if rc == 10: return True, out
        if "ASSUME-FAILED" in out: continue
        if rc < 0 or "AddressSanitizer" in out or "Assertion" in out or "terminate called" in out: return True, out
    return False, outs[0][1]

def jobs_of(u, tier):
    js = []
    for r in u["runs"]:
        if r.get("tier", "quick") == "thorough" and tier != "thorough": continue
        if r.get("only") and r["only"] != tier: continue
        js.append(r)
    return js

def known():
    try: return json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    except FileNotFoundError: return []

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return do_replay(a[1])
    if a and a[0] == "--setup": print("engine:", ensure_engine()); return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick"); only = None; verbose = "-v" in a; keep = "--keep" in a
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--only" in a: only = a[a.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = specs.SPECS[pid]
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid, dir=os.environ.get("VP_TMP", "/tmp"))
    try: return decide(pid, spec, tier, only, verbose, seed, work)
    finally:
        if keep: print("work:", work)
        else: shutil.rmtree(work, ignore_errors=True)

def decide(pid, spec, tier, only, verbose, seed, work):
    units = spec["units"]
    problems, results, viol = [], [], []
    pool = cf.ThreadPoolExecutor(8); cpool = cf.ThreadPoolExecutor(8)
    engf = cpool.submit(ensure_engine)
    for c in {u.get("chunk", 8) for u in units.values()}: gen_config(os.path.join(work, "cfg%d" % c), c)
    # compile: identical (source, chunk, defs) once
    comp, ulist = {}, {}
    for name, u in units.items():
        js = [j for j in jobs_of(u, tier) if not only or only in name + ":" + j["entry"] + ":" + json.dumps(j.get("params", {}))]
        if not js: continue
        ulist[name] = js
        for s in sources(u) + [STDLIB]:
            key = (s, u.get("chunk", 8), tuple(u.get("defs", [])), u.get("shadow"))
            if key not in comp:
                out = os.path.join(work, "m%d.bc" % len(comp))
                comp[key] = (out, pool.submit(compile_bc, work, u, s, out))
    tc = time.time()
    bcs = {}
    futs = []
    try: engine = engf.result()
    except RuntimeError as e:
        print(e); return 2
    budget_total = HARD if tier == "thorough" else spec.get("quick_budget", 420)
    def go(name, u, j, bc):
        o = os.path.join(work, "%s-%d.json" % (name, id(j)))
        jl = j.get("budget", 120 if tier == "quick" else 420)
        lim = min(jl, budget_total - (time.time() - T0) - 25)
        if lim < 5: return name, j, None, "no time left"
        cmd = [engine, bc, "--entry", j["entry"], "--out", o, "--budget", str(lim), "--seed", str(seed), "--qtimeout", str(j.get("qtimeout", 4000 if tier == "quick" else 20000)), "--dbudget", str(j.get("dbudget", 30 if tier == "quick" else 120))]
        for k, v in j.get("params", {}).items(): cmd += ["--param", "%s=%d" % (k, v)]
        cmd += j.get("opts", [])
        if verbose: cmd.append("-v")
        rc, out = run(["prlimit", "--as=%d" % (14 << 30), *cmd], lim + 15)
        if verbose and out.strip(): print("[%s %s %s]\n%s" % (name, j["entry"], j.get("params", {}), out))
        try: return name, j, json.load(open(o)), out[-2000:]
        except Exception as e: return name, j, None, "engine ended with %d: %s" % (rc, out[-800:])
    for name in ulist:
        u = units[name]; parts = []
        ok = True
        for s in sources(u) + [STDLIB]:
            out, f = comp[(s, u.get("chunk", 8), tuple(u.get("defs", [])), u.get("shadow"))]
            rc, msg = f.result()
            if rc: ok = False; problems.append("compile of %s: %s" % (s, msg[-1200:]))
            parts.append(out)
        if not ok: continue
        bc = os.path.join(work, name + ".bc")
        if len(parts) > 1:
            rc, msg = run(["llvm-link-18", *parts, "-o", bc], 120)
            if rc: problems.append("link of %s: %s" % (name, msg[-800:])); continue
        else: bc = parts[0]
        for j in ulist[name]: futs.append(cpool.submit(go, name, u, j, bc))
    compile_s = time.time() - tc
    for f in futs: results.append(f.result())
    # ---- counterexamples: replay
    kf = known(); kf_hit = {}
    native = {}
    unconfirmed = []
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    confirmed_keys = set()
    for name, j, r, msg in results:
        if not r: continue
        for v in r["violations"]:
            key = (name, j["entry"], v["label"])
            if key in confirmed_keys: continue
            if name not in native: native[name] = build_native(work, name, units[name], pool)
            exe, err = native[name]
            if not exe:
                problems.append(err); unconfirmed.append({"unit": name, "entry": j["entry"], "label": v["label"], "why": err[-300:]}); continue
            txt = "# property %s\n# unit %s\n# label %s\n" % (pid, name, v["label"].replace("\n", " "))
            txt += "entry %s\n" % j["entry"]
            for k, x in j.get("params", {}).items(): txt += "param %s %d\n" % (k, x)
            for k, x in v["inputs"]: txt += "in %s %s\n" % (k, x)
            for x in v.get("ufs", []): txt += "uf %s\n" % x
            rf = os.path.join(V, "replays", "%s-%s.txt" % (pid, hashlib.sha1(txt.encode()).hexdigest()[:10]))
            open(rf, "w").write(txt)
            good, out = replay(exe, j["entry"], rf)
            if good:
                confirmed_keys.add(key)
                m = re.search(r"FAILED (.*)", out)
                rec = {"unit": name, "entry": j["entry"], "params": j.get("params", {}), "label": v["label"], "replay": rf, "native": (m.group(1) if m else out.strip()[-300:])}
                k = next((k for k in kf if k["property"] == pid and k["entry"] == j["entry"] and re.search(k["label"], v["label"]) and ("unit" not in k or k["unit"] == name)), None)
                if k is not None: kf_hit.setdefault(json.dumps(k, sort_keys=True), []).append(rec); rec["known"] = True
                viol.append(rec)
            else:
                os.unlink(rf)
                unconfirmed.append({"unit": name, "entry": j["entry"], "params": j.get("params", {}), "label": v["label"], "inputs": v["inputs"][:60], "why": "native run does not show it: " + out.strip()[-200:]})
    new = [v for v in viol if not v.get("known")]
    # ---- witness traces: the encoding is compared with the native run
    validated = [0, 0]
    if tier == "thorough" or os.environ.get("VP_VALIDATE"):
        for name, j, r, msg in results:
            if not r or not r.get("witnesses") or left() < 120: continue
            if name not in native: native[name] = build_native(work, name, units[name], pool)
            exe, err = native[name]
            if not exe: problems.append(err); continue
            for w in r["witnesses"][:2]:
                rf = os.path.join(work, "wit.txt")
                open(rf, "w").write("".join("param %s %d\n" % t for t in j.get("params", {}).items()) + "".join("in %s %s\n" % (k, x) for k, x in w["inputs"]))
                good, out = replay(exe, j["entry"], rf)
                if "ASSUME-FAILED" in out: continue
                validated[0] += 1
                if good and not r["violations"]: validated[1] += 1; problems.append("witness of %s:%s %s disagrees natively: %s" % (name, j["entry"], j.get("params", {}), out[-300:]))
    evidence(pid, spec, tier, seed, results, problems, viol, unconfirmed, compile_s, units, validated)
    tot = sum(sum(r["asserts"].values()) for _, _, r, _ in results if r)
    und = sum(sum(r["undecided"].values()) + sum(r["unsupported"].values()) for _, _, r, _ in results if r)
    failed = [(n, j["entry"], j.get("params"), m) for n, j, r, m in results if not r]
    print("%s: %d runs, %d assertions decided over %d paths, %d undecided/unsupported, %d counterexamples confirmed, %d not confirmed, %.0f s" % (pid, len(results), tot, sum(r["paths"] for _, _, r, _ in results if r), und, len(viol), len(unconfirmed), time.time() - T0))
    for p in problems: print("PROBLEM", p)
    for f in failed: print("NO RESULT", f)
    for n, j, r, m in results:
        if r and (r["undecided"] or r["unsupported"] or r["incomplete"]): print("OPEN %s:%s %s undecided=%s unsupported=%s incomplete=%s" % (n, j["entry"], j.get("params", {}), r["undecided"], r["unsupported"], r["incomplete"]))
    for x in unconfirmed: print("UNCONFIRMED", json.dumps(x)[:700])
    for n, j, r, m in results:
        if r and not r["covers"] and not r["violations"] and not r["unsupported"] and not r["incomplete"]: print("VACUOUS %s:%s %s" % (n, j["entry"], j.get("params", {})))
    for k in kf:
        if k["property"] == pid and json.dumps(k, sort_keys=True) in kf_hit: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for v in new: print("  %s:%s %s  [%s] %s" % (v["unit"], v["entry"], v["params"], v["label"][:300], v["native"][:300]))
    if new:
        for v in new[:5]: print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    return 0

ASSUME = ["double arithmetic is encoded as exact real arithmetic: rounding, overflow and signed zeros are outside; sqrt(x) is the s >= 0 with s*s = x",
          "an equality decided by normal form or by a second query may assume that divisors occurring in it are non-zero (counted in coverage.queries)",
          "OpenMP pragmas and threads are executed sequentially; external C functions (allocation, libm, exceptions) follow engine/'s models",
          "a counterexample counts only if the native replay violates the same harness assertion by more than 1e-8 relative"]
def evidence(pid, spec, tier, seed, results, problems, viol, unconfirmed, compile_s, units, validated):
    ok = [r for _, _, r, _ in results if r]
    fns = {}
    for r in ok:
        for k, n in r["functions"].items(): fns[k] = fns.get(k, 0) + n
    S = lambda k: sum(r[k] for r in ok)
    per = []
    for n, j, r, m in results:
        if not r: per.append({"unit": n, "entry": j["entry"], "params": j.get("params", {}), "error": m[-300:]}); continue
        per.append({"unit": n, "entry": j["entry"], "params": j.get("params", {}), "paths": r["paths"], "forks": r["forks"], "instructions": r["steps"], "assertions": r["asserts"], "covers": r["covers"], "ends": r["ends"], "queries": r["queries"], "unsat": r["unsat"], "sat": r["sat"], "unknown": r["unknown"], "undecided": r["undecided"], "unsupported": r["unsupported"], "incomplete": r["incomplete"], "solver_s": round(r["solver_s"], 3), "wall_s": round(r["wall_s"], 2)})
    cov = {"samples": per[:6] if per else [{"note": "no runs"}],
          "bounds": spec["bounds"], "functions_encoded": len(fns), "functions": dict(sorted(fns.items(), key=lambda t: -t[1])[:150]),
          "states": S("forks") + S("paths"), "transitions": S("steps"), "paths": S("paths"), "assertions_decided": sum(sum(r["asserts"].values()) for r in ok) - sum(sum(r["undecided"].values()) for r in ok),
          "traces_validated_against_impl": len(viol) + len(unconfirmed) + validated[0], "witness_traces_replayed_natively": validated[0], "witness_traces_that_disagreed": validated[1],
          "queries": {"z3": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "folded_to_true_by_the_encoder": S("folded"), "polynomial_normal_form": S("normal_form"), "normal_form_confirmed_by_z3": S("nf_confirmed"), "case_splits": S("split_leaves"), "valid_under_nonzero_divisor_assumption": S("nonzero_divisor_assumed")},
          "solver_seconds": round(S("solver_s"), 2), "compile_seconds": round(compile_s, 1),
          "vacuity": {"cover_points_reached": sum(1 for r in ok for c in r["covers"].values() if c), "paths_with_satisfiable_end": S("sat_ends")},
          "undecided": {("%s:%s %s" % (n, j["entry"], json.dumps(j.get("params", {})))): {**r["undecided"], **r["unsupported"]} for n, j, r, m in results if r and (r["undecided"] or r["unsupported"])},
          "incomplete_runs": [("%s:%s" % (n, j["entry"])) for n, j, r, m in results if not r or r["incomplete"]],
          "confirmed_counterexamples": viol, "unconfirmed_counterexamples": unconfirmed, "problems": problems, "runs": per,
          "explanation": "Symbolic execution of the LLVM IR built from /repo's current sources (engine/); z3 decides every assertion over all real/integer values within the bounds; counterexamples are replayed natively. states = explored symbolic paths and forks, transitions = executed IR instructions."}
    ev = {"property": pid, "level": spec.get("level", "model_checking"), "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "coverage": cov,
          "assumptions": ASSUME + spec.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len([v for v in viol if not v.get("known")])}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)

def do_replay(f):
    txt = open(f).read()
    pid = re.search(r"# property (\S+)", txt).group(1); name = re.search(r"# unit (\S+)", txt).group(1); entry = re.search(r"^entry (\S+)", txt, re.M).group(1)
    u = specs.SPECS[pid]["units"][name]
    work = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        c = u.get("chunk", 8); gen_config(os.path.join(work, "cfg%d" % c), c)
        exe, err = build_native(work, name, u, cf.ThreadPoolExecutor(8))
        if not exe: print(err); return 2
        good, out = replay(exe, entry, f)
        print(out); print("violation reproduced" if good else "not reproduced")
        return 1 if good else 0
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
