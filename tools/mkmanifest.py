#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p, c in PROPS.items():
    if c["level"] == "proof":
        tech = "Contract-based deductive verification of the real code (Verus): contracts woven mechanically into the functions of /repo on every run; bounded harness on the real crate for replay"
        note = "Proof for all inputs meeting the preconditions. " + " ".join(c["assumptions"]) + " Trusted: the weaver's listed rewrites, Verus/Z3/vstd, the assumed contracts listed in the evidence. A function the verifier cannot reach after a change is set aside and only the bounded harness (labelled so) decides on that run."
    else:
        tech = "Bounded check of the real code against an independent model, standing in where the verifier does not reach"
        note = "Bounded, not proved: " + " ".join(c["assumptions"])
    d = {"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
         "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": c["level"], "level_note": note}
    if c["level"] == "proof":
        d["theorems"] = c["lemmas"] + [m.replace("\\", "") for m in c["must"]]
    checks.append(d)
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
     "notes": "No hooks in /repo: contracts live in /verif/contracts and are woven into the extracted functions on every run. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
