#!/usr/bin/env python3
"""usage: provecopy.py REPO UNIT: the deductive part on another tree, for trying refactorings and bugs"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import prove
prove.REPO = sys.argv[1]
w = "/tmp/pc-" + sys.argv[2]
os.makedirs(w, exist_ok=True)
prove.build_extract()
r = prove.run_unit(sys.argv[2], w, "quick")
print("ok", r["ok"], r["why"], "verified", r["verified"], "errors", r["errors"], "rounds", r["rounds"], "wall %.0f" % r.get("wall", 0))
for k, x in r["bounded"].items(): print("  bounded:", k, x[:300])
for f in r["failed"]: print("  failed:", f["kind"], f["function"], f["message"], "|", f["clause"])
