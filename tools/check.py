#!/usr/bin/env python3
"""Solver-based check of one property: check.py <property> [--tier quick|thorough] | check.py --replay FILE

Regenerates LLVM IR of every /repo/src/*.cpp plus the property's harness, executes it symbolically with
engine/symx (z3 decides every branch and obligation), replays counterexamples and path witnesses against a
native build of the same sources, writes evidence/<property>.json.
"""
import sys, os, re, json, subprocess, tempfile, shutil, glob, time, threading, signal, fcntl
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo"); HARN = os.path.join(VERIF, "harness"); LL = "/usr/lib/llvm-18/bin/"
sys.path.insert(0, HERE)
CF = ["-std=gnu++11", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-ffp-contract=off",
      "-fno-access-control", "-w", "-I" + REPO + "/include", "-I" + HARN]
NF = ["-std=gnu++11", "-O0", "-g1", "-ffp-contract=off", "-fno-access-control", "-w", "-I" + REPO + "/include", "-I" + HARN]
NCPU = os.cpu_count() or 4

class Build(Exception): pass

def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode: raise Build("%s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout

def engine():
    exe = os.path.join(VERIF, "engine", "symx"); srcs = [os.path.join(VERIF, "engine", f) for f in ("symx.cpp", "poly.h", "q.h")]
    with open(os.path.join(VERIF, "engine", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs):
            tmp = exe + ".tmp%d" % os.getpid(); sh(["bash", os.path.join(VERIF, "engine", "build.sh"), tmp]); os.replace(tmp, exe)
    return exe

class Work:
    """Builds: IR module per harness, native executables per harness and flavour, all in a scratch directory."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp_"); self.lock = threading.Lock(); self.native = {}; self.mods = {}
        self.src = sorted(glob.glob(REPO + "/src/*.cpp"))
        if not self.src: raise Build("no sources under " + REPO + "/src")
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
    def ir(self, harnesses):
        jobs = []
        for s in self.src: jobs.append((s, os.path.join(self.dir, "r_" + os.path.basename(s) + ".bc")))
        jobs.append((os.path.join(HARN, "support.cpp"), os.path.join(self.dir, "support.bc")))
        for h in harnesses: jobs.append((os.path.join(HARN, h), os.path.join(self.dir, "h_" + h + ".bc")))
        self.broken = {}
        def comp(j):
            try: sh(["clang++-18"] + CF + ["-c", "-emit-llvm", j[0], "-o", j[1]])
            except Build as b:
                if not j[0].startswith(HARN): raise
                self.broken[os.path.basename(j[0])] = str(b)
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(comp, jobs))
        repo = os.path.join(self.dir, "repo.bc"); sh([LL + "llvm-link", "-o", repo] + [j[1] for j in jobs[:len(self.src) + 1]])
        have = set(l.split()[-1] for l in sh([LL + "llvm-nm", "--defined-only", repo]).splitlines() if l.split())
        for h in harnesses:
            # a cut function that no longer exists: the instances of this harness do not apply to this tree
            gone = [x for x in re.findall(r'asm\("(\w+)"\)', open(os.path.join(HARN, h)).read()) if x not in have and "calc_ctan_lin" not in x]
            if gone and h not in self.broken: self.broken[h] = "cut function(s) %s not in the tree" % gone
            if h in self.broken: continue
            l, m = os.path.join(self.dir, h + ".l.bc"), os.path.join(self.dir, h + ".m.bc")
            sh([LL + "llvm-link", "-o", l, repo, "--override", os.path.join(self.dir, "h_" + h + ".bc")])
            sh([LL + "opt", "-passes=function(sroa)", l, "-o", m]); self.mods[h] = m
    def nat(self, h, flavour):
        with self.lock:
            k = (h, flavour)
            if k in self.native: return self.native[k]
            extra, post = {"plain": (["-ftrivial-auto-var-init=pattern"], []), "asan": (["-DVP_NO_HEAP", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], []), "valgrind": (["-DVP_NO_HEAP"], [])}[flavour]
            def comp(s):
                o = os.path.join(self.dir, "n_%s_%s.o" % (flavour, os.path.basename(s)))
                if not os.path.exists(o):
                    sh(["g++"] + NF + extra + ["-c", s, "-o", o])
                    if s.startswith(REPO): sh(["objcopy", "--weaken", o])
                return o
            objs = self.src + [os.path.join(HARN, h), os.path.join(HARN, "vp_native.cpp"), os.path.join(HARN, "vp_main.cpp")]
            with ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(comp, objs))
            exe = os.path.join(self.dir, "x_%s_%s" % (flavour, h))
            sh(["g++"] + NF + extra + objs[len(self.src):] + objs[:len(self.src)] + ["-rdynamic", "-ldl", "-o", exe]); self.native[k] = exe
            return exe

def native_run(w, h, entry, params, model, flavour="plain", timeout=120):
    exe = w.nat(h, flavour); d = tempfile.mkdtemp(prefix="run_", dir=w.dir)
    try:
        mf = os.path.join(d, ".model")
        with open(mf, "w") as f:
            for k, v in model.items(): f.write("%s %s\n" % (k.replace(" ", "_"), v))
        env = dict(os.environ, VP_MODEL=mf, VP_PARAMS=",".join("%s=%s" % kv for kv in params.items()), ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="exitcode=99")
        cmd = [exe, entry]
        if flavour == "valgrind": cmd = ["valgrind", "-q", "--error-exitcode=99", "--track-origins=no"] + cmd
        try: r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired: return {"rc": "timeout", "fails": [], "obs": {}, "err": "timeout"}
        fails = []; obs = {}
        for l in r.stdout.splitlines():
            if l.startswith("VPFAIL "): p = l[7:].split("\t"); fails.append((p[0], p[1] if len(p) > 1 else ""))
            elif l.startswith("VPOBS "):
                p = l.split()
                try: obs[p[1]] = float(p[2])
                except (ValueError, IndexError): pass
        return {"rc": r.returncode, "fails": fails, "obs": obs, "err": r.stderr[-1500:], "assume": "VPASSUME" in r.stdout}
    finally: shutil.rmtree(d, ignore_errors=True)

def base(l): return l.split("[")[0].split(": ")[0].strip()

def confirm(w, job, f):
    """Replay a counterexample natively; returns a description when the real code shows the violation."""
    h, e, p, m = job["harness"], job["entry"], job["params"], f["model"]
    try: r = native_run(w, h, e, p, m)
    except Build as x: return None, "native build failed: %s" % x
    if f["kind"] in ("check", "uninit"):
        for l, d in r["fails"]:
            if base(l) == base(f["label"]): return "%s: %s" % (l, d), None
    if f["kind"] in ("memory", "assert", "exception", "abort", "arith"):
        if isinstance(r["rc"], int) and r["rc"] not in (0, 77): return "%s; native exit %s %s" % (f["label"], r["rc"], r["err"].strip()[-200:]), None
        if r["rc"] == "timeout": return f["label"] + "; native run does not terminate", None
        if f["kind"] in ("memory", "arith"):
            a = native_run(w, h, e, p, m, "asan")
            if a["rc"] == 99 or (isinstance(a["rc"], int) and a["rc"] < 0): return "%s; %s" % (f["label"], [l for l in a["err"].splitlines() if "ERROR" in l or "runtime error" in l][:1]), None
    if f["kind"] in ("uninit", "memory"):
        v = native_run(w, h, e, p, m, "valgrind", 300)
        if v["rc"] == 99: return "%s; valgrind: %s" % (f["label"], " ".join(v["err"].split())[:200]), None
    if f["kind"] == "check" and r["fails"]: return "%s: %s (found as %s)" % (r["fails"][0][0], r["fails"][0][1], f["label"]), None
    if f["kind"] == "check" and isinstance(r["rc"], int) and r["rc"] < 0: return "%s; native crash %s" % (f["label"], r["rc"]), None
    return None, "native rc=%s fails=%s" % (r["rc"], r["fails"][:2])

def run_job(w, exe, job, seed, ncores):
    out = tempfile.mktemp(prefix="o_", suffix=".jsonl", dir=w.dir)
    cmd = [exe, w.mods[job["harness"]], "--entry", job["entry"], "--out", out, "--timeout", str(job["timeout"]), "--qtimeout", str(job.get("qtimeout", 10000)), "--seed", str(seed), "--jobs", str(ncores), "--maxpaths", str(job.get("maxpaths", 20000))]
    for k, v in job["params"].items(): cmd += ["--param", "%s=%s" % (k, v)]
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True); job["_pg"] = p.pid
    # counterexamples are replayed as they appear; the first one the real code shows ends the instance
    err = ""; end = time.time() + job["timeout"] + 30; pos = 0; tried = {}; wait = 2
    while True:
        try: _, err = p.communicate(timeout=max(0.1, min(wait, end - time.time()))); break
        except subprocess.TimeoutExpired: pass
        hit = time.time() > end
        if not hit and os.path.exists(out):
            with open(out, errors="replace") as fh:
                fh.seek(pos); buf = fh.read()
            cut = buf.rfind("\n") + 1; pos += len(buf[:cut].encode())
            for l in buf[:cut].splitlines():
                try: fails = json.loads(l).get("fails", [])
                except ValueError: continue
                for fl in fails:
                    k = (fl["kind"], base(fl["label"])); tried[k] = tried.get(k, 0) + 1
                    if not hit and tried[k] <= 5 and confirm(w, job, fl)[0]: hit = True
        if hit:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            _, err = p.communicate(); break
    paths = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try: paths.append(json.loads(l))
            except ValueError: pass
        os.unlink(out)
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    if not paths: paths = [{"end": "error", "msg": "engine: " + (err or "").strip()[-300:], "fails": [], "undecided": []}]
    return paths

def agree(a, b):
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-9

def main():
    if sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2])); w = Work()
        try:
            r = native_run(w, rp["harness"], rp["entry"], rp["params"], rp["model"]); print(json.dumps(r, indent=1)); return 1 if r["fails"] or r["rc"] else 0
        finally: w.close()
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time(); deadline = t0 + (700 if tier == "quick" else 5400); verbose = "-v" in sys.argv
    import plan
    spec = plan.PLAN[prop]; jobs = []
    for j in spec["jobs"] + (spec.get("thorough", []) if tier == "thorough" else []):
        jj = dict(harness=spec["harness"], timeout=200 if tier == "quick" else 1200, params={}); jj.update(j)
        if only and only not in json.dumps(j): continue
        jobs.append(jj)
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k.get("property") == prop and not k.get("fixed")] if os.path.exists(os.path.join(VERIF, "known_findings.json")) else []
    exe = engine(); w = Work(); viol = []; knownhit = {}; incon = []; tot = {}; funcs = set(); covers = {}; paths_n = 0; ends = {}; samples = []; validated = mism = 0; notes = set(); unconf = []; seen = {}; stop = threading.Event()
    num = ["instr", "queries", "sat", "unsat", "unknown", "solver_s", "checks", "checks_ident", "checks_ident_solver", "checks_solver", "branches", "constraints"]
    try:
        try: w.ir(sorted(set(j["harness"] for j in jobs)))
        except Build as b: print("BUILD-ERROR", str(b)[-2500:]); return 2
        for j in jobs:
            if j["harness"] in w.broken: incon.append("%s(%s): harness does not fit this tree: %s" % (j["entry"], j["params"], w.broken[j["harness"]][-400:]))
        runnable = [j for j in jobs if j["harness"] not in w.broken]
        if not runnable: print("BUILD-ERROR no harness fits this tree", "\n".join(w.broken.values())[-2500:]); return 2
        ncores = max(1, NCPU // max(1, len(jobs)))
        def one(j):
            if stop.is_set(): return None
            left = deadline - time.time()
            if left < 5: return [{"end": "timeout", "msg": "time budget of the check used up", "fails": [], "undecided": []}]
            j["timeout"] = min(j["timeout"], left); ts = time.time(); r = run_job(w, exe, j, seed, ncores); j["_t"] = time.time() - ts; return r
        with ThreadPoolExecutor(NCPU) as ex:
            fut = {ex.submit(one, j): j for j in sorted(runnable, key=lambda j: j["harness"] != "c_book.cpp")}
            for f in as_completed(fut):
                j = fut[f]
                if f.cancelled(): continue
                ps = f.result()
                if ps is None or (viol and not any(p["fails"] for p in ps)): continue
                name = "%s(%s)" % (j["entry"], ",".join("%s=%s" % kv for kv in j["params"].items())); nval = 0; jc = set()
                for p in ps:
                    paths_n += 1; ends[p["end"]] = ends.get(p["end"], 0) + 1
                    for n in num: tot[n] = tot.get(n, 0) + p.get(n, 0)
                    funcs.update(p.get("funcs", [])); jc.update(p.get("covers", [])); notes.update(p.get("notes", []))
                    if p["end"] in ("error", "timeout", "limit"): incon.append("%s: %s %s at %s" % (name, p["end"], p["msg"], p.get("where", "")))
                    for u in p.get("undecided", []): incon.append("%s: undecided %s" % (name, u))
                    for fl in p["fails"]:
                        key = (j["entry"], fl["kind"], base(fl["label"]))
                        if seen.get(key, 0) >= 5 or (viol and len(viol) >= 3): continue
                        ok, why = confirm(w, j, fl)
                        if not ok: seen[key] = seen.get(key, 0) + 1; unconf.append("%s: %s (%s)" % (name, fl["label"], why)); continue
                        seen[key] = 99
                        kf = next((k for k in known if k["entry"] == j["entry"] and k["label"] == base(fl["label"])), None)
                        if kf: knownhit[kf["what"]] = 1; continue
                        rp = os.path.join(VERIF, "evidence", "replays", "%s-%d.json" % (prop, len(viol)))
                        json.dump(dict(property=prop, harness=j["harness"], entry=j["entry"], params=j["params"], model=fl["model"], kind=fl["kind"], label=fl["label"], observed=ok, where=fl["detail"]), open(rp, "w"), indent=1)
                        viol.append((rp, name, ok)); stop.set()
                        for g in fut: g.cancel()
                        for q in jobs:
                            if q is not j and q.get("_pg"):
                                try: os.killpg(q["_pg"], signal.SIGKILL)
                                except OSError: pass
                    if p["end"] == "ok" and p.get("witness") is not None and p.get("observed") and nval < spec.get("validate", 3) and not viol:
                        try: r = native_run(w, j["harness"], j["entry"], j["params"], p["witness"])
                        except Build as b: r = None
                        if r and r["rc"] == 0:
                            nval += 1; bad = [(k, v, r["obs"].get(k)) for k, v in p["observed"].items() if isinstance(v, (int, float)) and (k not in r["obs"] or not agree(v, r["obs"][k]))]
                            if bad: mism += 1; notes.add("witness mismatch %s: %s" % (name, bad[:2]))
                            else:
                                validated += 1
                                if len(samples) < 3: samples.append({"entry": name, "inputs": dict(list(p["witness"].items())[:12]), "observed": dict(list(p["observed"].items())[:6])})
                for c in jc: covers[c] = covers.get(c, 0) + 1
                if verbose: print("%-60s %6.1fs paths=%d q=%d %s" % (name, j.get("_t", 0), len(ps), sum(p.get("queries", 0) for p in ps), {e: sum(1 for p in ps if p["end"] == e) for e in set(p["end"] for p in ps)})); sys.stdout.flush()
    finally: w.close()
    missing = [c for c in spec.get("covers", []) if c not in covers]
    if not samples: samples = [{"entry": "%s(%s)" % (j["entry"], j["params"])} for j in jobs[:3]]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(states=paths_n, transitions=int(tot.get("instr", 0)), traces_validated_against_impl=validated, samples=samples, traces_disagreeing=mism,
            path_ends=ends, functions_encoded=sorted(funcs), bounds=spec["bounds"], instances=["%s(%s)" % (j["entry"], ",".join("%s=%s" % kv for kv in j["params"].items())) for j in jobs],
            obligations=int(tot.get("checks", 0)), obligations_closed_by_normal_form=int(tot.get("checks_ident", 0)), of_which_resubmitted_to_solver=int(tot.get("checks_ident_solver", 0)), obligations_decided_by_solver=int(tot.get("checks_solver", 0)),
            solver_queries=int(tot.get("queries", 0)), solver_sat=int(tot.get("sat", 0)), solver_unsat=int(tot.get("unsat", 0)), solver_unknown=int(tot.get("unknown", 0)), solver_s=round(tot.get("solver_s", 0), 2), symbolic_branches=int(tot.get("branches", 0)),
            vacuity_covers={k: covers[k] for k in sorted(covers)}, vacuity_missing=missing, inconclusive=incon[:40], inconclusive_count=len(incon), unconfirmed_counterexamples=unconf[:20], notes=sorted(notes)[:20]),
        assumptions=plan.ASSUME + spec.get("assume", []))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in knownhit: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for rp, name, ok in viol: print("VIOLATION property=%s replay=%s" % (prop, rp)); print("  %s: %s" % (name, ok))
    for x in incon[:8]: print("  inconclusive:", x[:300])
    for x in unconf[:8]: print("  not confirmed natively:", x[:400])
    if verbose:
        for x in sorted(notes)[:12]: print("  note:", x[:300])
    if missing: print("  cover points not reached:", missing)
    print("%s %s: %d paths, %d obligations, %d solver queries (%.1f s), %d witnesses replayed, %.1f s" % (prop, "VIOLATED" if viol else "held", paths_n, tot.get("checks", 0), tot.get("queries", 0), tot.get("solver_s", 0), validated, time.time() - t0))
    if viol: return 1
    if paths_n and ends.get("ok", 0) == 0: print("no path could be completed: no verdict"); return 2
    return 0
if __name__ == "__main__": sys.exit(main())
