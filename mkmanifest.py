#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table below"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification of the real Go code (govc: go/ssa to verification conditions, z3/cvc5); bounded replay on the compiled program for counterexamples"
TRUST = " Trusted: govc's translation, go/ssa, z3/cvc5, and the stated contracts of library functions; int arithmetic is mathematical except in functions flagged checked."
exec(open(os.path.join(V, "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": LEVELS.get(i, "proof"), "level_note": CLAIMS[i] + TRUST})
    else:
        m["not_applicable"].append({"property": i, "reason": UNCLAIMED.get(i, "no contract within reach of the verifier has been completed for this property yet")})
m["notes"] = "Contracts: /verif/contracts/*.gvc, checked against /repo's current source on every run by /verif/govc. Bounded stand-ins: /verif/replay, labelled as such in the evidence and never counted as proved. No hooks in /repo: the contracts are outside it."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
