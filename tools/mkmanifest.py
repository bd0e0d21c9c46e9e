#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(here + '/checks.json'))
na = json.load(open(here + '/tools/not_applicable.json'))
m = {"version": 1, "setup_cmd": "bash check.sh --setup", "checks": [], "not_applicable": []}
for p in sorted(c):
    m["checks"].append({
        "property": p,
        "quick_cmd": "bash check.sh %s quick" % p,
        "thorough_cmd": "bash check.sh %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "solver-based: symbolic execution of the Go SSA of the real code, path conditions and assertions decided by z3, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": c[p].get("note") or "every path of the harnesses is decided within their bounds (listed in the evidence and DESIGN.md); nothing is claimed beyond them",
    })
props = [json.loads(l)["id"] for l in open(here + '/properties.jsonl')]
for p in props:
    if p not in c:
        m["not_applicable"].append({"property": p, "reason": na.get(p, "no check has been built yet")})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write("\n")
