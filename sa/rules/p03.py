from lib import *
from engine import paths, Limit, Event

def want(ev, st, eng):
    return ev.kind == "call" and (ev.name in LOCKS or ev.name in UNLOCKS or ev.name.startswith("g_cond_wait") or ev.name == "swapcontext") or ev.kind in ("ret", "loop")

class Bad:
    pass

def run(ctx):
    ctx.rule("balance", "on every abstract path the lock is not held when acquired, held when released, and released before the function returns")
    ctx.rule("no-lock-across-stack-switch", "no lock acquired by the running function is held when it switches to another stack")
    ctx.rule("cond-wait-holds-mutex", "a condition wait holds the very mutex it is given")
    for cfg in ("main", "fallback"):
        P = ctx.prog(cfg)
        for f in roots(P):
            txt = [i for b in f.blocks for i in b if i.op == "call" and i.f[0] == "g" and (i.f[1] in LOCKS or i.f[1] in UNLOCKS)]
            if not txt: continue
            bad = []; waits = {}; switches = []
            acq, rel, inside = lock_all_loops(f)
            def fold(trace, e, st):
                if e.kind == "loop":
                    if e.name == "enter" and e.extra in acq: return trace + (Event("call", "g_mutex_lock", (("all", acq[e.extra]),), None, e.inst),)
                    if e.name == "enter" and e.extra in rel: return tuple(x for x in trace if x.args[0] != ("all", rel[e.extra]))
                    return trace
                if e.inst is not None and e.inst.id in inside: return trace
                held = [norm(x.args[0]) for x in trace]
                if e.kind == "ret":
                    for x in trace: bad.append((x, "lock %s is still held when %s returns" % (show(x.args[0]), f.base)))
                    return trace
                if e.name in LOCKS:
                    if LOCKS[e.name] == "t": return trace
                    a = norm(e.args[0])
                    if a in held:
                        if LOCKS[e.name] == "x": bad.append((e, "lock %s acquired while already held" % show(e.args[0])))
                        return trace
                    return trace + (e,)
                if e.name in UNLOCKS:
                    a = norm(e.args[0])
                    if a not in held:
                        bad.append((e, "lock %s released without being held" % show(e.args[0])))
                        return trace
                    k = held.index(a)
                    return trace[:k] + trace[k + 1:]
                if e.name.startswith("g_cond_wait"):
                    waits.setdefault(lock_label(e.args[1]), []).append((norm(e.args[1]) in held, e))
                if e.name == "swapcontext": switches.append((held, e))
                return trace
            try:
                ps = ctx.paths(f, P, want=want, fold=fold, cap=6, track_br=False, track_store=False)
            except Limit as e:
                ctx.skipped.append(str(e)); continue
            ctx.count("lock_call_sites", len(txt))
            for l, ws in waits.items():
                ctx.ob("cond-wait-holds-mutex", "%s/%s" % (f.base, l), all(w[0] for w in ws), where(f, ws[0][1]), "condition wait without holding its mutex")
            if switches:
                b = [s for s in switches if s[0]]
                ctx.ob("no-lock-across-stack-switch", f.base, not b, where(f, (b or switches)[0][1]), "stack switched while holding %s" % ", ".join(map(show, (b or switches)[0][0])))
            ctx.ob("balance", f.base, not bad, where(f, bad[0][0]) if bad else where(f), bad[0][1] if bad else "")
    ctx.need(ctx.counts.get("lock_call_sites", 0) >= 20, "lock call sites have disappeared (%d found)" % ctx.counts.get("lock_call_sites", 0))
