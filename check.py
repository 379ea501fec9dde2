#!/usr/bin/env python3
"""Decide one property: symbolically execute the real code (LLVM IR of /repo's current sources), let the SMT solver
decide every assertion, replay counterexamples and sampled paths natively against the same sources.

usage: check.py <property> [--tier quick|thorough] [--keep] [--job name]
exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: the check itself failed."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import jobs as J

IRFLAGS = ["-std=c++17", "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-pic", "-fno-pie", "-DSYMX_ENGINE",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-gline-tables-only", "-emit-llvm", "-c", "-Wno-everything", "-pthread"]
NATFLAGS = ["-std=c++17", "-O1", "-g1", "-ffp-contract=off", "-w", "-pthread", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,float-cast-overflow", "-fno-sanitize-recover=float-cast-overflow"]

WRAP = ["-Wl,--wrap=" + s for s in ("pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv",
        "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "_ZNSt6thread4joinEv")]

class CheckError(Exception):
    pass

def run(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace")

class Builder:
    """compiles sources to IR / native objects once per run (keyed by source and flags)"""
    def __init__(self, tmp, pool):
        self.tmp, self.pool, self.fut, self.tools = tmp, pool, {}, set()
    def _go(self, cmd, out):
        rc, o = run(cmd)
        if rc: raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), o[-3000:]))
        return out
    def obj(self, src, inc, defs, native, extra=()):
        k = (src, tuple(inc), tuple(defs), native, tuple(extra))
        if k not in self.fut:
            h = hashlib.sha1(repr(k).encode()).hexdigest()[:16]
            out = os.path.join(self.tmp, h + (".o" if native else ".bc"))
            cmd = (["g++", "-c"] + NATFLAGS + list(extra) if native else ["clang++"] + IRFLAGS + list(extra)) + ["-I" + i for i in inc] + list(defs) + [src, "-o", out]
            if src in self.tools and native: cmd = ["sh", "-c", 'o=$1; shift; "$@" && objcopy --redefine-sym main=toolMain $o', "sh", out] + cmd   # a program: its main is called by the harness
            self.fut[k] = self.pool.submit(self._go, cmd, out)
        return self.fut[k]

def expand(path):
    return path if path.startswith("/") else os.path.join(HERE, path)

def build_job(b, job, tier, tmp):
    defs = list(job.get("defs", [])) + list(job.get("defs_" + tier, []))
    inc = [os.path.join(HERE, "rt")]
    inc += [os.path.join(HERE, "mock", m) for m in job.get("mock", [])]
    inc.append(REPO)
    srcs = [expand(job["src"])] + [os.path.join(REPO, s) for s in job.get("repo", []) + job.get("tool", [])] + [expand(s) for s in job.get("extra", [])]
    b.tools |= set(os.path.join(REPO, s) for s in job.get("tool", []))
    flags = job.get("cflags", [])
    ir = [b.obj(s, inc, defs, False, flags) for s in srcs] + [b.obj(os.path.join(HERE, "rt/runtime.cpp"), [], [], False)]
    nf = list(flags) + SAN
    nat = [b.obj(s, inc, defs, True, nf) for s in srcs] + [b.obj(os.path.join(HERE, "rt/native.cpp"), [os.path.join(HERE, "rt")], [], True, nf)]
    if job.get("sched"): nat.append(b.obj(os.path.join(HERE, "rt/sched.cpp"), [os.path.join(HERE, "rt")], [], True, SAN + ["-fno-access-control"]))
    return ir, nat

def link_ir(ir, out):
    rc, o = run(["llvm-link-18"] + [f.result() for f in ir] + ["-o", out])
    if rc: raise CheckError("llvm-link failed: " + o[-2000:])
    return out

def link_native(nat, entries, out, tmp, sched):
    reg = out + "_reg.cpp"
    with open(reg, "w") as f:
        for e in entries: f.write('extern "C" void %s();\n' % e)
        f.write("struct EntryReg { const char *n; void (*f)(); };\nEntryReg symEntries[] = {%s};\nint symEntryCount = %d;\n" % (", ".join('{"%s", %s}' % (e, e) for e in entries), len(entries)))
    rc, o = run(["g++", "-std=c++17", "-O0", "-pthread"] + SAN + (WRAP if sched else []) + [reg] + [f.result() for f in nat] + ["-lgsl", "-lgslcblas", "-o", out])
    if rc: raise CheckError("native link failed: " + o[-3000:])
    return out

def engine(job, bc, tier, outdir, seed, budget):
    os.makedirs(outdir)
    opts = list(job.get("opts", [])) + list(job.get("opts_" + tier, []))
    t = job.get("time_" + tier, job.get("time", 240 if tier == "quick" else 1500))
    cmd = [os.path.join(HERE, "symx/build/symx"), bc, "--entry", job["entry"], "--out", outdir, "--seed", str(seed), "--time", str(min(t, budget)), "--traces", str(job.get("traces", 6))] + opts
    env = dict(os.environ); env["TMPDIR"] = outdir
    rc, o = run(cmd, timeout=min(t, budget) + 120, env=env, cwd=outdir)
    rj = os.path.join(outdir, "result.json")
    if rc or not os.path.exists(rj):
        return {"entry": job["entry"], "crash": "engine ended with %d: %s" % (rc, o[-800:])}
    r = json.load(open(rj)); r["log"] = o[-500:]; return r

def native_run(exe, rec, logs, fill=None, timeout=60):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:alloc_dealloc_mismatch=1:detect_stack_use_after_return=0" + (":malloc_fill_byte=%d:max_malloc_fill_size=10000000" % fill if fill is not None else "")
    d = tempfile.mkdtemp(dir=os.path.dirname(exe))
    try: return run([exe, rec] + (["logs"] if logs else []), timeout=timeout, env=env, cwd=d)
    finally: shutil.rmtree(d, ignore_errors=True)

def confirm(exe, v):
    """does the counterexample fail on the real code?"""
    kind = v["kind"]; outs = []
    for fill in (None, 0, 255, 0x7f, 0x41):
        rc, o = native_run(exe, v["file"], False, fill)
        outs.append((rc, re.sub(r"0x[0-9a-f]+", "", "\n".join(l for l in o.splitlines() if l.startswith("INIT")))))
        tail = o.strip().splitlines()[-1] if o.strip() else ""
        if kind == "assert" and rc == 1 and "ASSERT" in o: return True, tail
        if kind != "assert" and (rc == 1 or rc == 99 or rc < 0 or rc in (7, 8, 124)): return True, (tail if rc == 1 else next((l for l in o.splitlines() if "ERROR: AddressSanitizer" in l or "DEADLOCK" in l), "ended with %d" % rc))
        if kind == "assert" and (rc == 99 or rc < 0 or rc == 7 or (rc == 1 and ("TERMINATE" in o or "runtime error:" in o))): return True, "abnormal end %d %s" % (rc, tail)
        if kind == "race" and (rc in (0, 1) or (rc == 4 and "no more inputs" in o)): return True, "schedule replayed natively"   # the record ends with the race
    inits = set(x[1] for x in outs if x[0] == outs[0][0])
    if len(inits) > 1: return True, "contents depend on uninitialised memory"
    return False, "native: rc=%s %s" % (outs[0][0], tail)

def main():
    t0 = time.time(); os.chdir(HERE)
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); keep = "--keep" in sys.argv; only = None
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--job" in sys.argv: only = sys.argv[sys.argv.index("--job") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = J.PROPS[pid]; jobs = [j for j in P["jobs"] if tier in j.get("tiers", ("quick", "thorough")) and (only is None or only in j["entry"])]
    if not os.path.exists(os.path.join(HERE, "symx/build/symx")):
        rc, o = run(["make", "-C", os.path.join(HERE, "symx"), "-j8"])
        if rc: raise CheckError("engine build failed: " + o[-2000:])
    tmp = tempfile.mkdtemp(prefix="symx_%s_" % pid)
    total = 780 if tier == "quick" else 7200
    results = []; confirmed = []; unconfirmed = []; traces_ok = 0; trace_bad = []; samples = []; build_s = 0
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as cpool, cf.ThreadPoolExecutor(max_workers=J.WORKERS) as epool, cf.ThreadPoolExecutor(max_workers=8) as npool:
            b = Builder(tmp, cpool); groups = {}
            for j in jobs:
                k = json.dumps([j["src"], j.get("defs", []), j.get("defs_" + tier, []), j.get("repo", []), j.get("extra", []), j.get("cflags", []), j.get("mock", []), bool(j.get("sched"))])
                groups.setdefault(k, []).append(j)
            prep = []
            for gi, (k, js) in enumerate(groups.items()): prep.append((gi, js, build_job(b, js[0], tier, tmp)))
            linked = {}
            def prepare(gi, js, irnat):
                bc = link_ir(irnat[0], os.path.join(tmp, "g%d.bc" % gi))
                return bc
            def prepare_nat(gi, js, irnat):
                return link_native(irnat[1], sorted(set(j["entry"] for j in js)), os.path.join(tmp, "g%d.exe" % gi), tmp, bool(js[0].get("sched")))
            futs = []
            for gi, js, irnat in prep:
                fb = npool.submit(prepare, gi, js, irnat); fn = npool.submit(prepare_nat, gi, js, irnat)
                for n, j in enumerate(js):
                    def go(j=j, fb=fb, gi=gi, n=n):
                        bc = fb.result(); budget = max(20, total - (time.time() - t0))
                        return engine(j, bc, tier, os.path.join(tmp, "e%d_%d" % (gi, n)), seed, budget)
                    futs.append((j, epool.submit(go), fn))
            futs2 = []
            for j, fe, fn in futs:
                r = fe.result(); exe = fn.result(); results.append((j, r))
                if "crash" in r: continue
                for v in r["violations"]: futs2.append((j, v, npool.submit(confirm, exe, v)))
                for t in r["traces"]: futs2.append((j, t, npool.submit(native_run, exe, t, True)))
            for j, x, f in futs2:
                if isinstance(x, dict):
                    ok, how = f.result(); x["how"] = how; x["entry"] = j["entry"]; (confirmed if ok else unconfirmed).append(x)
                else:
                    rc, o = f.result()
                    if rc == 0:
                        traces_ok += 1
                        if len(samples) < 6 and not any(s["entry"] == j["entry"] for s in samples): samples.append({"entry": j["entry"], "inputs": [l for l in open(x).read().splitlines()[1:] if l][:24]})
                    else: trace_bad.append({"entry": j["entry"], "rc": rc, "out": o[-300:], "full": o, "inputs": open(x).read()[:1500]})
        # ---- verdict
        known = json.load(open(os.path.join(HERE, "known_findings.json")))
        repdir = os.path.join(HERE, "evidence", "replay", pid); shutil.rmtree(repdir, ignore_errors=True)
        rc = 0; lines = []; nviol = 0; hit = {}
        for i, v in enumerate(confirmed):
            kf = next((k for k in known if k["property"] == pid and k["status"] == "open" and k["entry"] == v["entry"] and k["msg"] == v["msg"] and all(s in v["where"] for s in k.get("where", []))), None)
            if kf: hit[kf["id"]] = kf; continue
            os.makedirs(repdir, exist_ok=True); dst = os.path.join(repdir, "ce%d.txt" % i); txt = open(v["file"]).read()
            open(dst, "w").write(txt + "# native: %s\n# replay: python3 /verif/replay.py %s %s\n" % (v["how"], pid, dst))
            if nviol < 10: lines.append("VIOLATION property=%s replay=%s\n  %s: %s\n  at %s\n  native: %s" % (pid, dst, v["kind"], v["msg"], v["where"], v["how"]))
            nviol += 1; rc = 1
        for k in hit.values(): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        problems = []
        for j, r in results:
            if "crash" in r: problems.append("%s: %s" % (j["entry"], r["crash"])); continue
            miss = [m for m in j.get("reach", []) if m not in r["reached"]]
            if miss and not r["violations"]: problems.append("%s: reachability witness missing: %s" % (j["entry"], miss))
            for w, n in r["incomplete"].items(): problems.append("%s: %s (%d)" % (j["entry"], w, n))
        for v in unconfirmed: problems.append("%s: counterexample not reproduced natively: %s: %s (%s)" % (v["entry"], v["kind"], v["msg"], v["how"]))
        for t in trace_bad: problems.append("%s: path model not confirmed natively: rc=%s %s" % (t["entry"], t["rc"], t["out"].strip()[-200:]))
        fns = {}; cov = {"states": 0, "transitions": 0}
        for j, r in results:
            if "crash" in r: continue
            for n, f, c in r["functions"]:
                if f.startswith(REPO + "/"): fns[n] = f[len(REPO) + 1:]
        def tot(k): return sum(r.get(k, 0) for _, r in results)
        evid = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
                "coverage": {"states": tot("ended"), "transitions": tot("steps"), "traces_validated_against_impl": traces_ok, "samples": samples,
                             "functions_encoded": sorted("%s (%s)" % (n, f) for n, f in fns.items()), "queries_discharged": tot("queries"), "assertion_queries": tot("assert_queries"), "assertions_checked": tot("asserts"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"), "cross_checked_by_second_solver": tot("cross_checked"),
                             "solver_time_s": round(tot("solver_time"), 2), "paths_completed": tot("paths"), "regions_merged": tot("merges"), "scheduling_choices": tot("sched_points"),
                             "bounds": P["bounds"], "outside_bounds": P.get("outside", ""), "not_decided": problems,
                             "entries": [{"entry": j["entry"], "paths": r.get("paths"), "queries": r.get("queries"), "solver_time_s": round(r.get("solver_time", 0), 2), "wall_s": round(r.get("wall", 0), 1), "reached": r.get("reached"), "mode": "relaxed reals" if r.get("relaxed") else "bit-precise"} for j, r in results],
                             "exhaustive": not problems},
                "assumptions": J.COMMON_ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
        if only is None:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); json.dump(evid, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
        for l in lines: print(l)
        for t in trace_bad[:2]:
            if keep: print(t["full"][:6000])
        for p in problems: print("NOTE " + p)
        print("%s %s: %d paths, %d assertions (%d solver queries, %.1f s solver), %d native replays, %d violations, %.1f s" % (pid, tier, tot("paths"), tot("asserts"), tot("queries"), tot("solver_time"), traces_ok, nviol, time.time() - t0))
        if rc == 0 and (not any(r.get("asserts") for _, r in results) or any(not r.get("incomplete") and [m for m in j.get("reach", []) if m not in r["reached"]] for j, r in results if "crash" not in r and not r["violations"])):
            print("CHECK-ERROR nothing decided, or a vacuous harness"); rc = 2
        return rc
    finally:
        if keep: print("kept", tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    try: sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR", e); sys.exit(2)
