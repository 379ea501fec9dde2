#!/usr/bin/env python3
"""replay.py <property> <file>: rebuild the native harness from /repo and replay a recorded counterexample."""
import concurrent.futures as cf, os, shutil, sys, tempfile
import check as C, jobs as J
pid, rec = sys.argv[1], os.path.abspath(sys.argv[2]); entry = open(rec).readline().split()[1]; kind = next((l.split()[1] for l in open(rec) if l.startswith("kind ")), "assert")
job = next(j for j in J.PROPS[pid]["jobs"] if j["entry"] == entry); tmp = tempfile.mkdtemp(prefix="symx_replay_")
try:
    with cf.ThreadPoolExecutor(8) as p:
        ir, nat = C.build_job(C.Builder(tmp, p), job, os.environ.get("VERIF_TIER", "quick"), tmp)
        exe = C.link_native(nat, [entry], os.path.join(tmp, "r.exe"), tmp, bool(job.get("sched")))
    ok, how = C.confirm(exe, {"kind": kind, "file": rec}); print("REPRODUCED" if ok else "not reproduced", how)
    rc, o = C.native_run(exe, rec, False); print(o[-3000:]); sys.exit(1 if ok else 0)
finally: shutil.rmtree(tmp, ignore_errors=True)
