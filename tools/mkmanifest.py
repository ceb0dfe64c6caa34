#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/jobs.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "harness"))
import jobs
TECH = ("symbolic execution of dasm's real main() over LLVM IR (engine/symx) with every path condition and assertion decided by Z3; "
        "counterexamples replayed on natively built binaries")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "Exit 0 held, 1 VIOLATION, 2 inconclusive (bounds exceeded or solver gave up). VERIF_TIER=thorough or --thorough widens bounds."}
for p in props:
    pid = p["id"]
    if pid in jobs.PROPS:
        m["checks"].append({"property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "python3 check.py %s --thorough" % pid,
                            "technique": TECH, "level": "model_checking",
                            "level_note": "All inputs within the bounds: " + jobs.PROPS[pid]["bounds"], "evidence_file": "evidence/%s.json" % pid})
    else:
        m["not_applicable"].append({"property": pid, "reason": "check not built yet"})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
