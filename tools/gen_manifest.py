#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {"C31": "A statistical quality of results on corpora of millions of words; no bounded space of executions decides it, so model checking cannot address it."}
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "No check is finished for this property yet.")})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "mkdir -p bin evidence && cd tools/instrument && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 go build -o ../../bin/instrument .",
     "hooks": {"guard": "build overlay (go build -overlay); /repo holds no hook code", "enable": "check.py runs tools/instrument, which writes instrumented copies of /repo's packages to a scratch folder and overlays them on the build", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks: python3 check.py <ID> [--thorough | --replay FILE]. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
