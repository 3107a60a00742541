#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, H)
from props import P
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
try:
    from checks import CHECKS, NA
except ImportError:
    CHECKS, NA = {}, {}
checks = []
for p in P:
    c = CHECKS.get(p["id"])
    if not c: continue
    checks.append(dict(property=p["id"], quick_cmd="python3 sa/check.py %s" % p["id"], thorough_cmd="python3 sa/check.py %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level="other", level_note=c["note"]))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in P if p["id"] not in CHECKS]
m = dict(version=1, setup_cmd="python3 sa/setup.py", checks=checks, not_applicable=na,
         notes="Static analysis only: every check recompiles /repo's current sources to LLVM IR and decides the property from it. See DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
import design
print(len(P), "properties,", len(checks), "claimed")
