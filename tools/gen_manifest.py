#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); import jobs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]; checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.QUICK:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "bounded symbolic execution of the compiled LLVM IR of /repo's sources, assertions decided by SAT/SMT queries, counterexamples replayed natively",
            "level": "model_checking", "level_note": jobs.NOTE.get(i, "") + (" " if i in jobs.NOTE else "") + jobs.TRUST})
    else: na.append({"property": i, "reason": jobs.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash engine/build.sh build", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo: the harnesses use the public API. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema; jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))); print("valid", len(checks), len(na))
except ImportError: print(len(checks), len(na))
