#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "harness")); sys.dont_write_bytecode = True
from registry import CHECKS
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = getattr(registry, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "python3 -B tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 -B check.py %s" % p, "thorough_cmd": "python3 -B check.py %s --thorough" % p,
                 "technique": CHECKS[p]["technique"], "level": CHECKS[p]["level"], "level_note": CHECKS[p]["note"]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": na.get(p, "check not built yet")} for p in props if p not in CHECKS],
     "notes": "No hooks in /repo are needed: harnesses use the public interfaces, compile-time instrumentation and process-level runs. Every check builds what it needs from /repo's working tree under /verif/.build."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
