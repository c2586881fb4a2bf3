#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the levels below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
    "C20": "Acceptance is decided by the PEG that pest_derive expands from proto.pest: a generated recursive-descent matcher over closures inside the pest crate. It is no function of /repo that a contract could be attached to, and its text is out of reach of the installed verifiers.",
    "C21": "No installed deductive verifier models stack space; termination and panic freedom (C01, C10) are decided, the depth of recursion is not.",
}
LEVELS = json.load(open(os.path.join(H, "tools/levels.json")))
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    l = LEVELS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": l["technique"], "level": l["level"], "level_note": l["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
