"""no user code and no blocking while an internal lock is held"""
from spec import *
from effects import *
import engine

# the start-up handshake of a worker thread: nobody but the two threads of the handshake ever takes it
HANDSHAKE = {"_DexThreadPoolWorker.setup_mutex"}
SHARED_REF = ("dex_scheduler_ref_thread_default",)        # the object is also owned by the thread (or the process) itself

def run(ctx):
    ctx.rule("no-user-code", "no call made while a lock is held can reach an indirect call of a callback, a completion, a discard, a finaliser or a GLib function that runs foreign code")
    ctx.rule("no-blocking", "no call made while a lock is held can block (join, condition wait on another mutex, file or event I/O, context switch)")
    for cfg in ("main", "fallback"):
        P = ctx.prog(cfg); E = Effects(P)
        unrefs = {}
        for f in roots(P):
            def on(e, held, st):
                if e.kind != "call": return
                h = [x for x in locks_in(held) if not (x[0][0] != "all" and lock_label(x[0]) in HANDSHAKE)]
                if not h: return
                n = e.name
                if n in LOCKS or n in UNLOCKS: return
                ctx.count("calls_under_lock")
                where_ = where(f, e); hl = ", ".join(sorted({lock_label(x[0]) if x[0][0] != "all" else x[0][1] for x in h}))
                if n.startswith("*"):
                    ctx.ob("no-user-code", "%s in %s" % (n, f.base), n.split(".")[-1] in INTERNAL_SLOTS, where_, "indirect call %s while holding %s" % (n, hl)); return
                if n in EXT_USER: ctx.ob("no-user-code", "%s in %s" % (n, f.base), False, where_, "%s while holding %s" % (n, hl)); return
                if n in ("g_cond_wait", "g_cond_wait_until"):
                    ok = len(locks_in(held)) == 1 and norm(e.args[1]) == locks_in(held)[0][0]
                    ctx.ob("no-blocking", "%s in %s" % (n, f.base), ok, where_, "waits for a condition while holding %s" % hl); return
                if n in EXT_BLOCK: ctx.ob("no-blocking", "%s in %s" % (n, f.base), False, where_, "%s while holding %s" % (n, hl)); return
                tgts = []
                fn = P.funcs.get(e.inst.f[1]) if e.inst.f[0] == "g" else None
                if fn is not None and not fn.decl: tgts = [fn.name]
                elif n not in EXT_STORES_CB:
                    tgts = [a[1] for a in e.args if isinstance(a, tuple) and a[0] == "g" and a[1] in P.defined]
                for t in tgts:
                    b = P.funcs[t].base
                    for kind, rule in (("user", "no-user-code"), ("block", "no-blocking")):
                        w = getattr(E, kind).get(t)
                        ok = w is None
                        if not ok and fresh_target(e): ok = True
                        if not ok and b == "dex_unref":
                            if call_of(e.args[0], *SHARED_REF): ok = True
                            else:
                                unrefs.setdefault(f, []).append((e.inst.id, hl, w)); continue
                        ctx.ob(rule, "%s in %s" % (b, f.base), ok, where_, "%s (%s) is called while holding %s" % (b, " -> ".join(w or []), hl))
            try: observe(P, f, on, loads=False)
            except engine.Limit as x: ctx.skipped.append(str(x))
            ctx.count("functions_analysed")
        # a reference may be dropped under a lock only if it cannot be the last one: the same path holds another one
        for f, l in unrefs.items():
            ids = {i: (hl, w) for i, hl, w in l}
            def fold(own, e, st):
                if e.kind != "call": return own
                t = unref_strip(e.args[0]) if e.args else None
                if e.name == "dex_unref":
                    if e.inst.id in ids:
                        hl, w = ids[e.inst.id]
                        ctx.ob("no-user-code", "dex_unref in %s" % f.base, t in own, where(f, e), "a possibly last reference is dropped while holding %s" % hl)
                    if t in own:
                        k = own.index(t); own = own[:k] + own[k + 1:]
                elif e.name in ("dex_ref", "dex_weak_ref_get"):
                    t = t if e.name == "dex_ref" else e.res
                    if own.count(t) < 2: own = tuple(sorted(own + (t,), key=repr))
                return own
            en = engine.Engine(P, f, want=lambda ev, st, eng: ev.kind == "call" and ev.name in ("dex_ref", "dex_unref", "dex_weak_ref_get"), fold=fold, track_br=False, track_store=False)
            en.run(None)
    ctx.need(ctx.counts.get("calls_under_lock", 0) > 60, "hardly any call under a lock found")
