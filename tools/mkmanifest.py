#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed checks and, with a reason, everything else."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "abstract interpretation of the SSA form (guarded value-flow with joins and loop fixpoints)"
NOTE = ("Decided from the source for all inputs: every path is merged at joins, loops are summarised by a fixpoint, "
        "undecided obligations are reported as violations. Trusted: go/types, go/ssa, the hand-written models of the standard "
        "library, exact arithmetic for floats. ")
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                            "technique": tech or T, "level": "other", "level_note": NOTE + note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not decided yet: the analysis for it is under construction")})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write("\n")
