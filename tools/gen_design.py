#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md.in, the registry, the findings file and the planted bugs."""
import json, os, re, sys, glob
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.path.join(V, "harness")); sys.dont_write_bytecode = True
import registry
from registry import CHECKS
T = open(os.path.join(V, "tools", "design.md.in")).read()
props = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); props[p["id"]] = p
nums = {}
cache = os.path.join(V, "tools", "costs.json")
if os.path.exists(cache): nums = json.load(open(cache))
for f in glob.glob(os.path.join(V, "evidence", "*.json")):
    e = json.load(open(f)); c = e["coverage"]
    if e.get("tier") == "quick" and c["exhaustive"]: nums[e["property"]] = [c["evaluations"], round(e["wall_s"])]
json.dump(nums, open(cache, "w"), indent=0, sort_keys=True)
esc = lambda s: s.replace("|", "/")
rows = []
for i, p in props.items():
    if i not in CHECKS: continue
    c = CHECKS[i]; t = c["technique"]
    m = re.match(r"(.*?) against (.*)", t)
    oracle = m[2] if m else t
    n = nums.get(i, ["-", "-"])
    rows.append("| %s %s | %s | %s. %s | %s | %s, %s s |" % (i, esc(p["title"]), esc(c["rule"]), esc(oracle), esc(c["note"]), esc(c["bounds"]), n[0], n[1]))
na = getattr(registry, "NOT_APPLICABLE", {})
nas = "\n".join("* %s %s: %s" % (i, p["title"], na.get(i, "check not built yet")) for i, p in props.items() if i not in CHECKS) or "Nothing."
fixed, kn = [], []
for l in open(os.path.join(V, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixed.append("* %s `%s` %s" % (m[1], m[2], m[3].replace("before the repair it did not hold that: ", "did not hold: ")))
    m = re.match(r"KNOWN property=(\S+) key=(\S+)\s+(.*)", l)
    if m: kn.append("* %s (`%s`) %s" % (m[1], m[2].replace("\\s", " "), m[3]))
seed = ["| id | property | what it needs | what breaks | caught by |", "|----|----|----|----|----|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    seed.append("| %s | %s | %s | %s | %s |" % (i, m["property"], esc(m["needs"]), esc(m["what_it_breaks"]), caught.get(i, m["property"])))
for k, v in (("@@TABLE@@", "\n".join(rows)), ("@@NA@@", nas), ("@@FIXED@@", "\n".join(fixed)), ("@@KNOWN@@", "\n".join(kn)), ("@@SEEDED@@", "\n".join(seed)),
             ("@@SEEDNOTES@@", caught.get("notes", ""))): T = T.replace(k, v)
open(os.path.join(V, "DESIGN.md"), "w").write(T)
print(len(rows), "checks,", len(fixed), "fixed,", len(seed) - 2, "planted")
