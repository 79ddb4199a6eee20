#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep]

Decides one property: compiles /repo's current sources together with the property's harness to LLVM IR,
executes the harness entries symbolically (build/vfse, z3), replays counterexamples natively and writes
evidence/<PROPERTY>.json.  Exit 0: held.  Exit 1: VIOLATION line printed.  Exit 2: no answer.
"""
import concurrent.futures as cf, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
REPO = os.environ.get("VF_REPO", "/repo")
CLANG, LINK, OPT = "clang++-18", "llvm-link-18", "opt-18"
NCPU = os.cpu_count() or 4
WALL = float(os.environ.get("VF_WALL", "840" if os.environ.get("VERIF_TIER") != "thorough" else "100000"))
T0 = time.time()
UB = "signed-integer-overflow,shift-exponent,integer-divide-by-zero,float-cast-overflow,return,unreachable,bool"
CFG = {"default": ["-std=c++17"], "pmr": ["-std=c++20", "-DNIMIDI2_PMR_SYSEX_DATA=1"], "ios": ["-std=c++17"], "custom": ["-std=c++17", "-DNIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR=1"], "assert": ["-std=c++17"]}
COMMON = ["-DNDEBUG", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I" + REPO + "/inc", "-I" + REPO + "/src", "-I" + HERE + "/harness", "-w"]
IR = ["-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-g1", "-fno-discard-value-names", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-emit-llvm", "-c"]

def common(cfg): return [c for c in COMMON if cfg != "assert" or c != "-DNDEBUG"] # "assert": the library's assertions stay in
SHARED, SHARED_LOCK = {}, threading.Lock()
def shared(src, harness, key, compile): # sources other than the harness are compiled once per configuration
    if src == harness: return compile()
    with SHARED_LOCK: lock, slot = SHARED.setdefault((src,) + key, (threading.Lock(), {}))
    with lock:
        if "o" not in slot: slot["o"] = compile()
        return slot["o"]

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)
def die(msg):
    print("ERROR: " + msg); sys.exit(2)
def which(*names):
    for n in names:
        if shutil.which(n): return n
    return names[0]
CLANG = which("clang++-18", "clang++"); LINK = which("llvm-link-18", "llvm-link", "/usr/lib/llvm-18/bin/llvm-link"); OPT = which("opt-18", "opt", "/usr/lib/llvm-18/bin/opt")

class Build:
    """Bitcode and native binaries of one harness in one configuration, compiled from the current tree."""
    def __init__(self, work, harness, cfg, ub):
        self.work, self.harness, self.cfg, self.ub = work, harness, cfg, ub
        self.tag = os.path.basename(harness)[:-4] + "_" + cfg + ("_ub" if ub else "")
        self.lock = threading.Lock(); self.srcs = [harness, HERE + "/harness/stdinst.cpp", HERE + "/harness/libc_model.c", HERE + "/harness/stdcxx_model.cpp"] + sorted(glob.glob(REPO + "/src/*.cpp")) + ([HERE + "/harness/custom_alloc.cpp"] if cfg == "custom" else []) + ([HERE + "/harness/pmr_stub.cpp"] if cfg == "pmr" else []) + ([HERE + "/harness/ios_inst.cpp", HERE + "/harness/ios_env.cpp"] if cfg == "ios" else [])
        self.bcs, self.nat = {}, {}
    def bc(self, level):
        with self.lock: return self._bc(level)
    def _bc(self, level):
        if level in self.bcs:
            if isinstance(self.bcs[level], RuntimeError): raise self.bcs[level]
            return self.bcs[level]
        try: return self._bc1(level)
        except RuntimeError as e: self.bcs[level] = e; raise
    def _bc1(self, level):
        d = os.path.join(self.work, self.tag + "_" + level); os.makedirs(d, exist_ok=True)
        opt = {"O1": ["-O1"], "O2": ["-O2"], "O0": ["-O1", "-Xclang", "-disable-llvm-passes"]}[level]
        if self.ub: opt = opt + ["-fsanitize=" + UB, "-fsanitize-trap=all"]
        def one(s):
            return shared(s, self.harness, (self.cfg, level, self.ub), lambda: one1(s, d))
        def one1(s, d):
            o = os.path.join(d, os.path.basename(s) + ".bc")
            ext = ["-fno-inline"] if s.endswith("/ios_inst.cpp") else ["-U_GLIBCXX_EXTERN_TEMPLATE"] if self.cfg == "ios" and not s.endswith("/stdinst.cpp") else [] # the library's own stream templates only in ios_inst
            cfg = CFG[self.cfg]
            if s.endswith("/libc_model.c"): cfg, ext = ["-x", "c", "-fno-builtin"], []
            r = sh([CLANG] + cfg + common(self.cfg) + IR + opt + ext + [s, "-o", o])
            if r.returncode: raise RuntimeError("compile " + s + "\n" + r.stderr[-3000:])
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(one, self.srcs))
        out = os.path.join(d, "all.bc")
        r = sh([LINK] + objs + ["-o", out])
        if r.returncode: raise RuntimeError("llvm-link\n" + r.stderr[-3000:])
        if level == "O0":
            out2 = os.path.join(d, "opt.bc"); r = sh([OPT, "-passes=function(sroa,mem2reg,simplifycfg)", out, "-o", out2])
            if r.returncode == 0: out = out2
        self.bcs[level] = out
        return out
    def native(self, kind):
        with self.lock: return self._native(kind)
    def _native(self, kind):
        if kind in self.nat: return self.nat[kind]
        d = os.path.join(self.work, self.tag + "_native_" + kind); os.makedirs(d, exist_ok=True)
        if kind == "plain": cxx, fl = "g++", ["-O1", "-g", "-ffp-contract=off"]
        elif kind == "uninit": cxx, fl = CLANG, ["-O0", "-g", "-ftrivial-auto-var-init=pattern"]
        else: cxx, fl = CLANG, ["-O1", "-g", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=all"]
        def one(s): return shared(s, self.harness, (self.cfg, kind), lambda: one1(s))
        def one1(s):
            o = os.path.join(d, os.path.basename(s) + ".o")
            r = sh([cxx] + CFG[self.cfg] + [c for c in common(self.cfg) if "EXTERN_TEMPLATE" not in c] + fl + ["-DVF_NATIVE", "-c", s, "-o", o])
            if r.returncode: raise RuntimeError("native compile " + s + "\n" + r.stderr[-3000:])
            return o
        srcs = [s for s in self.srcs if os.path.basename(s) not in ("stdinst.cpp", "libc_model.c", "stdcxx_model.cpp", "ios_inst.cpp", "ios_env.cpp")] + [HERE + "/harness/replay.cpp"]
        if self.cfg == "pmr": srcs = [s for s in srcs if not s.endswith("pmr_stub.cpp")]
        with cf.ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(one, srcs))
        exe = os.path.join(d, "replay")
        r = sh([cxx] + fl + objs + ["-rdynamic", "-ldl", "-o", exe])
        if r.returncode: raise RuntimeError("native link\n" + r.stderr[-3000:])
        self.nat[kind] = exe
        return exe

def run_native(exe, entry, inputs, params, work, timeout=20):
    f = tempfile.NamedTemporaryFile("w", dir=work, suffix=".in", delete=False)
    for w, v in inputs: f.write("%d %s\n" % (w, v))
    f.close()
    env = dict(os.environ, VF_PARAMS=",".join("%s=%s" % kv for kv in params.items()), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=55:detect_container_overflow=1:allocator_may_return_null=0", UBSAN_OPTIONS="exitcode=56:print_stacktrace=1", MALLOC_PERTURB_="165")
    try: r = sh([exe, entry, f.name], timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return None, "", ""
    finally: os.unlink(f.name)
    return r.returncode, r.stdout, r.stderr

def run_job(b, job, part, nparts, tier, seed, work):
    res = run_job1(b, job, part, nparts, tier, seed, work)
    if res["status"] == "unsupported" and b.cfg == "default": # perhaps streams are used: once more with the stream environment
        with b.lock:
            if not getattr(b, "ios", None): b.ios = Build(b.work, b.harness, "ios", b.ub)
        res2 = run_job1(b.ios, dict(job, levels=["O1"]), part, nparts, tier, seed, work)
        if res2["status"] != "unsupported": return res2
    return res

def run_job1(b, job, part, nparts, tier, seed, work):
    params = dict(job.get("params", {})); params.update(job.get(tier, {}))
    last = None
    for level in job.get("levels", ["O1", "O2", "O0"]):
        try: bc = b.bc(level)
        except RuntimeError as e: last = dict(status="unsupported", detail=str(e)); continue
        out = os.path.join(work, "%s_%s_%x_%s_%s.json" % (b.tag, job["entry"], id(job), part, level))
        left = WALL - (time.time() - T0)
        if left < 5: return dict(status="inconclusive", detail="no time left", level=level, params=params)
        cmd = [HERE + "/build/vfse", bc, "--entry", job["entry"], "--out", out, "--max-time", str(min(left, job.get("max_time", 1e9))), "--seed", str(seed + 17 * (part or 0)), "--max-steps", str(job.get("max_steps", 5000000))]
        if part is not None: cmd += ["--part", str(part), "--nparts", str(nparts)]
        for k, v in params.items(): cmd += ["--param", "%s=%d" % (k, v)]
        try: r = sh(cmd, timeout=left + 20, env=dict(os.environ, VFSE_ROOT=REPO.rstrip("/") + "/", VFSE_EXTMS=str(job.get("ext_ms", 2000))))
        except subprocess.TimeoutExpired: return dict(status="inconclusive", detail="engine timeout", level=level, params=params)
        try: res = json.load(open(out))
        except Exception: res = dict(status="unsupported", detail="engine failed rc=%d %s" % (r.returncode, r.stderr[-500:]))
        res["level"] = level; res["params"] = params
        if res["status"] != "unsupported": return res
        last = res
    return last

def main():
    args = sys.argv[1:]; pid = args[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = False
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]; i += 2
        elif args[i] == "--only": only = args[i + 1]; i += 2
        elif args[i] == "--keep": keep = True; i += 1
        else: die("argument " + args[i])
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = sh(["bash", HERE + "/engine/build.sh"])
    if r.returncode: die("engine build failed\n" + r.stderr[-3000:])
    P = PROPS[pid]
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    try: rc = run_check(pid, P, tier, seed, work, only)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print("work dir " + work)
    sys.exit(rc)

def run_check(pid, P, tier, seed, work, only):
    jobs = [j for j in P["jobs"] if tier in j.get("tiers", ("quick", "thorough")) and (only is None or j["entry"] == only)]
    builds = {}
    for j in jobs:
        k = (j.get("harness", P["harness"]), j.get("cfg", "default"), j.get("ub", False))
        if k not in builds: builds[k] = Build(work, os.path.join(HERE, "harness", k[0]), k[1], k[2])
        j["_b"] = builds[k]
    tc = time.time()
    def compiled(b):
        try: b.bc("O1")
        except RuntimeError as e: print(str(e))
    with cf.ThreadPoolExecutor(NCPU) as ex: list(ex.map(compiled, builds.values()))
    print("compiled %d configuration(s) in %.1fs" % (len(builds), time.time() - tc))
    tasks = []
    for j in jobs:
        n = j.get("parts", {}).get(tier, 0) if isinstance(j.get("parts"), dict) else j.get("parts", 0)
        for part in (range(n) if n else [None]): tasks.append((j, part, n))
    tasks.sort(key=lambda t: -t[0].get("cost", 1))
    results, viol, errors = [], [], []
    stop = False
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fut = {ex.submit(run_job, j["_b"], j, part, n, tier, seed, work): (j, part) for j, part, n in tasks}
        for f in cf.as_completed(fut):
            if f.cancelled(): continue
            j, part = fut[f]; res = f.result(); results.append((j, part, res))
            if os.environ.get("VF_VERBOSE"): print("  %-34s %-5s %-12s paths=%s queries=%s solver=%.1fs wall=%.1fs %s" % (j["entry"], part, res["status"], res.get("paths"), res.get("queries"), res.get("solver_s", 0), res.get("wall_s", 0), res.get("detail", "")[:200])); sys.stdout.flush()
            if res["status"] == "violation":
                if confirm(pid, j, part, res, work, viol, errors):
                    for g in fut: g.cancel()
            elif res["status"] == "vacuous" and part is not None: pass # an empty share; at least one share must not be
            elif res["status"] != "ok": errors.append("%s part %s: %s %s" % (j["entry"], part, res["status"], res.get("detail", "")))
    for j in jobs:
        if not viol and not any(jj is j and r["status"] == "ok" for jj, _, r in results): errors.append("%s: no path explored" % j["entry"])
    # the encoding against the native build: every kept path must behave the same
    validated, samples = 0, []
    if not viol and not errors:
        for j, part, res in results:
            if not res.get("traces"): continue
            exe = j["_b"].native("plain")
            for t in res["traces"]:
                rc, out, err = run_native(exe, j["entry"], t["in"], res["params"], work)
                obs = [l[4:] for l in out.splitlines() if l.startswith("OBS ")]
                if rc != 0 or "VF_END" not in out or obs != t["obs"]:
                    errors.append("encoding validation failed: %s part %s rc=%s out=%s expected=%s in=%s" % (j["entry"], part, rc, out[-300:], t["obs"], t["in"])); break
                validated += 1
                if len(samples) < 8: samples.append(dict(entry=j["entry"], inputs=[int(v) for _, v in t["in"]][:64], observed=t["obs"][:16]))
    wall = time.time() - T0
    ok = [r for _, _, r in results if r["status"] == "ok"]
    S = lambda k: sum(r.get(k, 0) for r in ok)
    fns = sorted(set(f for r in ok for f in r.get("repo_functions", [])))
    lines = {}
    for r in ok:
        for f, l in r.get("repo_lines", {}).items(): lines.setdefault(f, set()).update(l)
    if os.environ.get("VF_LINES"): json.dump({f: sorted(l) for f, l in lines.items()}, open(os.environ["VF_LINES"] + "/" + pid + ".json", "w"))
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "model_checking"), wall_s=round(wall, 2), violations=len(viol),
              coverage=dict(states=S("paths") + S("merged_states"), transitions=S("instructions"), traces_validated_against_impl=validated, samples=samples,
                            symbolic_paths=S("paths"), forks=S("forks"), merges=S("merges"), queries=S("queries"), queries_unsat=S("unsat"), queries_sat=S("sat"), queries_cached=S("cached"), queries_answered_by_model=S("model_hits"),
                            solver_s=round(S("solver_s"), 3), max_query_s=max([r.get("max_query_s", 0) for r in ok] or [0]),
                            asserts_decided=sum(sum(r.get("asserts", {}).values()) for r in ok), distinct_assertions=len(set((r["entry"], a) for r in ok for a in r.get("asserts", {}))),
                            functions_encoded=fns, functions_encoded_count=len(fns), repo_lines_encoded={f: len(l) for f, l in sorted(lines.items())},
                            entries=[dict(entry=j["entry"], part=part, cfg=j.get("cfg", "default") + ("+ub" if j.get("ub") else ""), ir=r.get("level"), status=r["status"], params=r.get("params"), paths=r.get("paths"), queries=r.get("queries"), solver_s=r.get("solver_s"), wall_s=r.get("wall_s"), asserts=sum(r.get("asserts", {}).values()) if r.get("asserts") else 0) for j, part, r in results],
                            bounds=P["bounds"][tier] if isinstance(P["bounds"], dict) else P["bounds"], outside=P.get("outside", ""),
                            solver="z3 (libz3): bit-vectors; wide linear arithmetic not decided at once is also tried as linear integer arithmetic", engine="vfse: symbolic execution of LLVM IR compiled from the current /repo sources", errors=errors, exhaustive=False),
              assumptions=P.get("assumptions", []) + ["clang 18 translates C++ to LLVM IR correctly; z3 is sound; libstdc++ headers as installed", "allocation never fails"])
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    known(pid)
    for v in viol: print("VIOLATION property=%s replay=%s" % (pid, v["replay"])); print("  " + v["what"])
    if viol: return 1
    if errors:
        for e in errors: print("ERROR: " + e)
        return 2
    print("OK %s: %d entries, %d paths, %d instructions, %d queries (%d unsat), solver %.1fs, %d assertions decided, %d traces validated natively, %.1fs" % (pid, len(results), S("paths"), S("instructions"), S("queries"), S("unsat"), S("solver_s"), ev["coverage"]["asserts_decided"], validated, time.time() - T0))
    return 0

def known(pid):
    try: kf = json.load(open(HERE + "/known_findings.json"))
    except OSError: return
    for k in kf.get("findings", []):
        if k["property"] == pid: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

def confirm(pid, j, part, res, work, viol, errors):
    """Replay a counterexample against the real code; report only what reproduces."""
    v = res["violation"]; b = j["_b"]; tried = []
    kinds = ["plain", "san", "uninit"] if v["kind"] in ("assert", "hang") else ["san", "plain", "uninit"]
    for kind in kinds:
        try: exe = b.native(kind)
        except RuntimeError as e: tried.append("%s: %s" % (kind, str(e)[-500:])); continue
        rc, out, err = run_native(exe, j["entry"], v["in"], res["params"], work)
        if rc is None or rc not in (0, 77, 78, 79):
            d = HERE + "/evidence/replay"; os.makedirs(d, exist_ok=True)
            p = "%s/%s_%s.txt" % (d, pid, j["entry"])
            with open(p, "w") as f:
                f.write("# property %s, harness %s entry %s, configuration %s\n# %s: %s\n# at %s\n# native replay (%s build): exit %s\n" % (pid, os.path.basename(b.harness), j["entry"], b.tag, v["kind"], v["msg"], v["where"], kind, "timeout" if rc is None else rc))
                for l in (out[-1500:] + err[-3000:]).splitlines(): f.write("#   " + l + "\n")
                f.write("# params %s\n# replay: python3 /verif/replay.py %s\n" % (json.dumps(res["params"]), p))
                for w, x in v["in"]: f.write("%d %s\n" % (w, x))
            viol.append(dict(replay=p, what="%s: %s: %s (native exit %s)" % (j["entry"], v["kind"], v["msg"], "timeout" if rc is None else rc)))
            return True
        tried.append("%s: rc=%s %s" % (kind, rc, out[-200:]))
    errors.append("counterexample of %s did not reproduce natively (%s): %s %s at %s; in=%s" % (j["entry"], "; ".join(tried), v["kind"], v["msg"], v["where"], v["in"][:40]))
    return False

if __name__ == "__main__": main()
