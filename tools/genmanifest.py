#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import jobs
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "make -C symx -j8", "checks": [], "not_applicable": [],
     "notes": "Engine: symx/ (symbolic executor for LLVM IR of the real sources, deciding with z3, second solver cvc5). Harnesses: harness/. Driver: check.py; job table: jobs.py. Known findings: known_findings.json."}
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        P = jobs.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": P.get("technique", "solver-based symbolic execution of the compiled code (LLVM IR), assertions decided by SMT (bit-vectors)"), "level": "model_checking",
            "level_note": "Holds for every value within the stated bounds: " + P["bounds"] + (". Outside: " + P["outside"] if P.get("outside") else "") + (". Assumes: " + "; ".join(P["assumptions"]) if P.get("assumptions") else "")})
    else: m["not_applicable"].append({"property": i, "reason": jobs.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
