#!/usr/bin/env python3
"""writes MANIFEST.json; CLAIMED lists what has a check"""
import json
CLAIMED = {}
exec(open('/verif/claims.py').read())
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
BASE = "Machine-checked contracts on the real functions (obligations generated from go/ssa of /repo on every run, discharged by z3/cvc5 without bound). Trusted: the SSA translation and condition generator in engine/, the solvers, and the assumed contracts and axioms listed in the evidence; integers are mathematical; termination is not proved. "
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
            "technique": "contract-based deductive verification (VC generation from go/ssa, SMT)", "level": "proof", "level_note": BASE + CLAIMED[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
