#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered harnesses."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import harnesses
NA = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if not harnesses.for_property(p):
        na.append({"property": p, "reason": NA.get(p, "the check for it is not built yet")})
        continue
    i = harnesses.INFO[p]
    checks.append({
        "property": p,
        "quick_cmd": "bin/check %s quick" % p,
        "thorough_cmd": "bin/check %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": i.get("technique", "bounded exhaustive enumeration of inputs and operation sequences on the compiled code (stateless model checking of the implementation)"),
        "level": i.get("level", "model_checking"),
        "level_note": i.get("note", "Holds on every execution within the bounds listed per scenario in the evidence; assumes: " + "; ".join(i.get("assumptions", [])) + "."),
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses in src/ compile the sources of /repo unchanged. known-findings.txt lists the defects repaired in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
