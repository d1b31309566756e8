#!/usr/bin/env python3
"""MANIFEST.json from contracts/units.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
u = json.load(open(V + "/contracts/units.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
TECH = {"proof": "deductive verification with Verus: contracts on the extracted real functions, all obligations discharged by Z3",
        "other": "deductive verification with Verus of the named functions, plus bounded evaluation of executable contracts on the real crate for the rest",
        "exploration": "bounded evaluation of executable contracts on the real crate (labelled bounded)"}
for p in props:
    i = p["id"]
    c = u["properties"].get(i)
    if c is None:
        na.append({"property": i, "reason": u["not_applicable"].get(i, "no contract within the verifier's reach decides this property yet")})
        continue
    lv = c["level"]
    e = {"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py %s" % i,
         "technique": c.get("technique", TECH[lv]), "level": lv,
         "level_note": c.get("level_note") or c.get("explanation") or "Contract units %s proved by Verus for all inputs; the remaining functions are checked with executable contracts within the budget stated in the evidence (bounded, not counted as proved)." % ", ".join(c.get("units", []))}
    if lv == "proof" and c.get("theorems"):
        e["theorems"] = c["theorems"]
    checks.append(e)
m = {"version": 1, "setup_cmd": "sh setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks extract /repo's sources and link the unmodified crate", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Thorough runs are the same commands with VERIF_TIER=thorough (vacuity probes, larger bounded budgets). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
