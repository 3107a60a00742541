#!/usr/bin/env python3
# composes DESIGN.md from design_head.md, the rules' own texts, the planted bugs and design_tail.md
import ast, glob, json, os, re, sys
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, H)
from props import P
from checks import CHECKS, NA
try: from caught import CAUGHT
except ImportError: CAUGHT = {}
def rules(pid):
    fn = os.path.join(R, "sa/rules/%s.py" % pid.lower()); out = []
    if not os.path.exists(fn): return out
    for n in ast.walk(ast.parse(open(fn).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and len(n.args) >= 2:
            a = n.args[1]
            try: out.append((ast.literal_eval(n.args[0]), ast.literal_eval(a)))
            except Exception: out.append((ast.unparse(n.args[0]).strip("'\""), ast.unparse(a)))
    seen = set(); r = []
    for x in out:
        if x[0] not in seen: seen.add(x[0]); r.append(x)
    return r
seeds = {}
for m in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
o = [open(os.path.join(H, "design_head.md")).read(), "\n## Properties\n"]
for p in P:
    if p["id"] not in CHECKS: continue
    c = CHECKS[p["id"]]
    o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append("*Method:* %s. *Scope and bounds:* %s. *Beyond the tests:* %s\n" % (c["technique"].rstrip("."), c["note"].rstrip("."), p["why_tests_cant"]))
    for n, t in rules(p["id"]): o.append("- `%s`: %s" % (n, t))
    if p["id"] in seeds: o.append("- planted bugs: " + ", ".join("`%s`" % s for s, d in seeds[p["id"]]))
    o.append("")
o.append("## Planted bugs and what catches them\n\n| bug | property | what it breaks | caught by |\n|---|---|---|---|")
for pid in sorted(seeds):
    for s, d in seeds[pid]: o.append("| %s | %s | %s | %s |" % (s, pid, d["what_it_breaks"].replace("|", "/"), CAUGHT.get(s, pid)))
o.append("\n" + open(os.path.join(H, "design_tail.md")).read())
o.append("\nReasons for the not-applicable properties:\n")
for k, v in NA.items(): o.append("- %s: %s" % (k, v))
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(o) + "\n")
