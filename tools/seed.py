#!/usr/bin/env python3
"""seed.py save ID PROPERTY 'needs' 'breaks': take the edit made in the scratch copy as /verif/seeded/ID/patch.diff
seed.py verify ID...: demo passes on the scratch copy's HEAD, and with the patch: builds, stable tests pass, demo fails
seed.py check ID...: run the property's quick check against the patched scratch copy (VERIF_REPO)
The scratch copy (default /tmp/sd, env SD) is a copy of /repo with its own _build (cmake -S . -B _build -G Ninja ...)."""
import json, os, subprocess, sys
SD = os.environ.get("SD", "/tmp/sd"); V = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=SD, **k)
def build():
    p = sh("ninja -C _build all runtests"); return p.returncode == 0, p.stdout[-2000:]
def tests():
    sh("rm -rf _build/vp-run && mkdir -p _build/vp-run"); p = sh(["python3", "/opt/vp/run_tests.py", SD + "/_build/runtests", SD + "/_build/vp-run"])
    ok = set(l[5:] for l in p.stdout.splitlines() if l.startswith("PASS ")); return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
def demo(i): p = sh(["timeout", "300", "bash", "%s/%s/demo.sh" % (V, i)]); return p.returncode, p.stdout[-600:]
a = sys.argv
if a[1] == "save":
    d = os.path.join(V, a[2]); os.makedirs(d, exist_ok=True); open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    json.dump({"property": a[3], "needs": a[4], "what_it_breaks": a[5]}, open(d + "/meta.json", "w"), indent=1); sh("git checkout -- .")
elif a[1] == "sync": print(sh("git checkout -q -- . && git pull -q /repo HEAD && git log --oneline | head -1").stdout, build()[0])
else:
    for i in a[2:]:
        sh("git checkout -- .")
        if a[1] == "verify": print(i, "build", build()[0], "demo clean", demo(i))
        p = sh("git apply %s/%s/patch.diff" % (V, i))
        if p.returncode: print(i, "patch does not apply", p.stdout); continue
        if a[1] == "verify": b = build(); print(i, "patched build", b[0], "" if b[0] else b[1], "tests failing:", tests(), "demo", demo(i))
        else:
            pid = json.load(open("%s/%s/meta.json" % (V, i)))["property"]
            q = subprocess.run(["python3", "/verif/check.py", pid, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=SD), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); ls = q.stdout.splitlines()
            print(i, pid, "exit", q.returncode, "CAUGHT" if q.returncode == 1 else "MISSED"); print("   ", "\n    ".join([l for l in ls if not l.startswith("NOTE")][:4] + ls[-1:]))
        sh("git checkout -- ."); build() if a[1] == "verify" else None
