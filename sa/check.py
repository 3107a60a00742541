#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property statically on /repo's
current sources.  Exit 0: every obligation discharged; 1: VIOLATION; 2: no answer."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build
from ir import Program, AnchorError
import engine

KNOWN = os.path.join(ROOT, "known_findings.txt")

def load_known(pid):
    """lines 'finding: property=<id> key=<key> <text>' suppress exactly that key;
    lines 'fixed: property=<id> <commit> <text>' suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split("key=", 1)[1]
                key, _, text = rest.partition(" ")
                out[key] = text
    return out

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.obl = []           # (rule, instance, ok)
        self.viol = []          # dict
        self.counts = {}
        self.samples = []
        self.rules = {}
        self._progs = {}
        self.errors = []
        self.skipped = []       # functions whose state space exceeds the bound
        self.assumptions = []

    def prog(self, config="main"):
        if config not in self._progs:
            self._progs[config] = Program(build.build(config))
        return self._progs[config]

    @property
    def P(self): return self.prog("main")

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ob(self, rule, instance, ok, where="", msg="", detail=None):
        """one obligation: rule applied to one instance"""
        self.obl.append((rule, instance, bool(ok)))
        if ok:
            if len(self.samples) < 40:
                self.samples.append("%s: %s [%s]" % (rule, instance, where))
        else:
            key = ("%s|%s" % (rule, instance)).replace(" ", "_")
            if not any(v["key"] == key for v in self.viol):
                self.viol.append(dict(key=key, rule=rule, instance=instance, where=str(where), msg=msg, detail=detail))
        return ok

    def need(self, cond, what):
        """an anchor the analysis needs in order to mean anything"""
        if not cond:
            self.errors.append(what)
            return False
        return True

    def paths(self, fn, prog=None, **kw):
        p = prog or self.P
        f = fn if not isinstance(fn, str) else p.fn(fn)
        r = engine.paths(p, f, **kw)
        self.count("functions_analysed"); self.count("abstract_paths", len(r))
        return r

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier)
    crash = None
    try:
        mod = importlib.import_module("rules." + pid.lower())
        mod.run(ctx)
    except engine.Limit as e:
        ctx.skipped.append("%s (and the rules after it)" % e)
    except Exception as e:
        crash = traceback.format_exc()
        ctx.errors.append("%s: %s" % (type(e).__name__, e))
    known = load_known(pid)
    new = [v for v in ctx.viol if v["key"] not in known]
    old = [v for v in ctx.viol if v["key"] in known]
    evd = os.path.join(ROOT, "evidence"); os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, "replay"); os.makedirs(rep, exist_ok=True)
    rules = {}
    for r, i, ok in ctx.obl:
        d = rules.setdefault(r, dict(instances=0, discharged=0)); d["instances"] += 1; d["discharged"] += int(ok)
    for r in rules: rules[r]["text"] = ctx.rules.get(r, "")
    nobl = len(ctx.obl)
    if nobl == 0 and not ctx.errors:
        ctx.errors.append("no obligation was generated: the anchors of this analysis are gone")
    ev = dict(property=pid, tier=tier, seed=seed, level="other",
              coverage=dict(explanation="static analysis of the LLVM IR compiled from /repo's current sources in this run; each rule below was applied to every instance found",
                            obligations=nobl, discharged=sum(1 for o in ctx.obl if o[2]), rules=rules, samples=ctx.samples[:25], **ctx.counts),
              assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    if ctx.errors: ev["coverage"]["analysis_errors"] = ctx.errors[:20]
    if ctx.skipped:
        ev["coverage"]["not_analysed"] = ctx.skipped[:20]
        ev["coverage"]["explanation"] += "; the functions listed under not_analysed exceed the state bound, and nothing is claimed about them"
    if old: ev["coverage"]["known_findings"] = [v["key"] for v in old]
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, v["key"], known[v["key"]]))
    for n, v in enumerate(new):
        path = os.path.join(rep, "%s-%d.json" % (pid, n))
        json.dump(dict(property=pid, **v), open(path, "w"), indent=1, default=str)
        print("%s: [%s] %s: %s" % (v["where"], v["rule"], v["instance"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s: %d obligations, %d discharged, %d violations, %d known, %d errors, %.1fs" %
          (pid, tier, nobl, ev["coverage"]["discharged"], len(new), len(old), len(ctx.errors), time.time() - t0))
    if new: sys.exit(1)
    for e in ctx.skipped[:10]: print("INCOMPLETE: not analysed: " + e)
    if ctx.errors:
        # an anchor of the analysis is gone: neither a pass nor a violation
        for e in ctx.errors[:10]: print("ERROR: " + e)
        if crash and "-v" in a: print(crash)
        sys.exit(2)
    sys.exit(0)

if __name__ == "__main__":
    main()
