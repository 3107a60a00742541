"""P20: an awaiting fiber is always resumed, exactly once per completion"""
from spec import *
from rules.fiber import *
import itertools

def run(ctx):
    P = ctx.P; vt = P.vtables(); EV = P.enumval
    PEN, RES, REJ = (EV["DEX_FUTURE_STATUS_" + x] for x in ("PENDING", "RESOLVED", "REJECTED"))
    ctx.rule("await", "a fiber awaiting a pending future leaves the runnable queue for the blocked one under the scheduler's lock, then subscribes exactly once, and only then switches away once, holding no lock; afterwards it reports the outcome of what it awaited")
    ctx.rule("ready", "a future that has completed is reported without suspending; without a fiber an error is set")
    ctx.rule("wake", "the completion makes the fiber runnable: from blocked to the end of runnable exactly once, under the scheduler's lock, and wakes the scheduler's context unless the completing thread is the one running it")
    ctx.rule("register", "a new fiber is queued as runnable exactly once with a reference of its own, under the lock, and the scheduler's context is woken")
    ctx.rule("ready-check", "the scheduler's source is ready exactly when a fiber is runnable and never sleeps past it")
    ctx.rule("dispatch", "dispatch switches only to fibers that are runnable, with no lock held and the fiber and scheduler noted as current; a fiber that yielded stays where it was put, one that exited is taken off once; the source stays")
    n = 0
    F, X, Y, G = tok("fiber"), tok("other1"), tok("other2"), ("a", 0)
    def dflt(bits=0, extra=None):
        def d(a, st):
            if extra:
                v = extra(a, st)
                if v is not None: return v
            if a[0] == "f" and a[2] == FB and (a[3] in flagname(P) or isflags(a)): return bits if isflags(a) else 0
            return glob(a, st)
        return d
    def switches(p): return [e for e in pcalls(p, *SWITCH)]
    # --- await
    f = P.fn("dex_await_borrowed"); ERR = tok("error")
    mem0 = {(TLS, "fiber_scheduler"): SCHED, (SCHED, "running"): F, (F, "fiber_scheduler"): SCHED, (F, "context"): tok("ctx")}
    rb = flagbyte(P, running=1, runnable=1)[1]
    for canc in (0, 1):
        for others in ((), (X,), (X, Y)):
            rest = [link(o) for o in others]
            q = Queues({runnable(SCHED): [link(F)] + rest, blocked(SCHED): [link(tok("sleeper"))]})
            mem = dict(mem0); mem[(F, "cancelled")] = canc
            ps = case(P, f, mem, {"dex_thread_storage_get": TLS}, status={G: PEN}, args={1: ERR}, queues=q, default=dflt(rb)); n += len(ps)
            txt = "%s fiber, %d others runnable" % ("cancelled" if canc else "running", len(others))
            ctx.ob("await", txt + " (handled)", ps, where(f), "no path")
            for p in ps:
                target = CANC if canc else G
                ch = pcalls(p, "dex_future_chain"); sw = switches(p)
                ctx.ob("await", txt + ": subscribes once", len(ch) == 1 and ch[0].args[:2] == (target, F), where(f), "subscribes to %s" % [show(e.args[0]) for e in ch])
                ctx.ob("await", txt + ": suspends once", len(sw) == 1 and ctxof(sw[0].args[0]) == F and ctxof(sw[0].args[-1]) == SCHED, where(f), "switches away %d times" % len(sw))
                end = q.at(p.events)
                ctx.ob("await", txt + ": queues", end[canon(runnable(SCHED))] == [canon(x) for x in rest] and sorted(map(repr, end[canon(blocked(SCHED))])) == sorted(map(repr, [canon(link(tok("sleeper"))), canon(link(F))])), where(f), "the fiber is not moved from runnable to blocked")
                ctx.ob("await", txt + ": not runnable", bit(P, p, F, "runnable", 1) == 0, where(f), "is still marked runnable")
                qs = [e for e in p.events if e.kind == "call" and str(e.name).startswith("g_queue_") and "peek" not in e.name and "length" not in e.name]
                for e in qs: ctx.ob("await", "queues change under the lock", schedlock(SCHED) in held_at(p, pos(p, e)), where(f, e), "the queue changes without the scheduler's lock")
                if ch and sw:
                    ctx.ob("await", txt + ": order", all(pos(p, e) < pos(p, ch[0]) for e in qs) and pos(p, ch[0]) < pos(p, sw[0]), where(f, ch[0]), "a completion can arrive before the fiber is blocked, or the fiber sleeps before it is subscribed")
                    for e in ch + sw: ctx.ob("await", "no lock across", not held_at(p, pos(p, e)), where(f, e), "a lock is held while subscribing or suspending")
                    gv = [e for e in pcalls(p, "dex_future_get_value") if pos(p, e) > pos(p, sw[0])]
                    ctx.ob("await", txt + ": outcome", len(gv) == 1 and gv[0].args == (target, ERR) and p.ret == gv[0].res, where(f), "does not report the outcome of what it awaited")
                ctx.ob("await", txt + ": keeps the future", nrel(p, G) == nref(p, G) and nrel(p, CANC) == nref(p, CANC), where(f), "releases the awaited future")
    for stt in (RES, REJ):
        for fib in (F, NULL):
            mem = dict(mem0); mem[(SCHED, "running")] = fib; mem[(F, "cancelled")] = 0
            ps = case(P, f, mem, {"dex_thread_storage_get": TLS}, status={G: stt}, args={1: ERR}, default=dflt(rb)); n += len(ps)
            ctx.ob("ready", "completed (handled)", ps, where(f), "no path")
            for p in ps:
                gv = pcalls(p, "dex_future_get_value")
                ctx.ob("ready", "completed", not switches(p) and not pcalls(p, "dex_future_chain") and len(gv) == 1 and gv[0].args == (G, ERR) and p.ret == gv[0].res, where(f), "suspends on a completed future or does not report it")
    for sched, fib in ((NULL, NULL), (SCHED, NULL)):
        mem = dict(mem0); mem[(TLS, "fiber_scheduler")] = sched; mem[(SCHED, "running")] = fib
        ps = case(P, f, mem, {"dex_thread_storage_get": TLS}, status={G: PEN}, args={1: ERR}, default=dflt(rb)); n += len(ps)
        ctx.ob("ready", "no fiber (handled)", ps, where(f), "no path")
        for p in ps:
            es = error_set(p, ERR)
            ctx.ob("ready", "no fiber", is0(p.ret) and len(es) == 1 and not switches(p) and not pcalls(p, "dex_future_chain"), where(f), "does not fail without a fiber")
    # --- wake
    g = P.funcs.get(vt.get(("_DexFutureClass", "propagate"), {}).get("dex_fiber"))
    if ctx.need(g, "fibers have no propagate handler"):
        for here in (SCHED, tok("other-scheduler"), NULL):
            for nr, nb, place in itertools.product((0, 1, 2), (0, 1), (0, 1)):
                ro = [link(x) for x in (X, Y)[:nr]]; bo = [link(tok("sleeper"))][:nb]
                bl = [link(A0)] + bo if place == 0 else bo + [link(A0)]
                q = Queues({runnable(SCHED): ro, blocked(SCHED): bl})
                ps = case(P, g, {(A0, "fiber_scheduler"): SCHED, (TLS, "fiber_scheduler"): here}, {"dex_thread_storage_get": TLS}, queues=q, default=dflt(flagbyte(P)[1])); n += len(ps)
                txt = "completed by %s, %d runnable" % ("the scheduler's own thread" if here == SCHED else "another thread", nr)
                ctx.ob("wake", txt + " (handled)", ps, where(g), "no path")
                for p in ps:
                    end = q.at(p.events)
                    ctx.ob("wake", txt + ": runnable", end[canon(runnable(SCHED))] == [canon(x) for x in ro + [link(A0)]], where(g), "the fiber is not queued once at the end of the runnable fibers")
                    ctx.ob("wake", txt + ": not blocked", end[canon(blocked(SCHED))] == [canon(x) for x in bo], where(g), "the fiber stays blocked")
                    ctx.ob("wake", txt + ": marked", bit(P, p, A0, "runnable", 0) == 1, where(g), "is not marked runnable")
                    qs = [e for e in p.events if e.kind == "call" and str(e.name).startswith("g_queue_") and "peek" not in e.name and "length" not in e.name]
                    for e in qs: ctx.ob("wake", "queues change under the lock", schedlock(SCHED) in held_at(p, pos(p, e)), where(g, e), "the queue changes without the scheduler's lock")
                    w = wakes(p, SCHED)
                    ctx.ob("wake", txt + ": woken", w or here == SCHED, where(g), "the thread running the fiber is not woken")
                    for e in w: ctx.ob("wake", txt + ": queued before it is woken", all(pos(p, x) < pos(p, e) for x in qs), where(g, e), "woken before the fiber is queued")
                    # the source may be freed with its last fiber: it is held while it is used unlocked
                    for e in w:
                        if schedlock(SCHED) not in held_at(p, pos(p, e)):
                            r = [x for x in pcalls(p, "g_source_ref") if x.args[0] == SCHED and pos(p, x) < pos(p, e) and schedlock(SCHED) in held_at(p, pos(p, x))]; u = [x for x in pcalls(p, "g_source_unref") if unref_strip(x.args[0]) == SCHED]
                            ctx.ob("wake", txt + ": scheduler is kept while it is woken", len(r) == 1 and len(u) == 1 and pos(p, u[0]) > pos(p, e), where(g, e), "the scheduler may be gone when it is woken")
                    ctx.ob("wake", txt + ": not completed", not pcalls(p, "dex_future_complete", "dex_future_complete_from") and ev(p.ret, lambda t: None) not in (0, None), where(g), "what the fiber awaited becomes its own outcome")
    # --- register
    f = P.fn("dex_fiber_scheduler_register")
    for here in (SCHED, tok("other-scheduler"), NULL):
        for nr in (0, 1, 2):
            ro = [link(x) for x in (X, Y)[:nr]]
            q = Queues({runnable(SCHED): ro, blocked(SCHED): []})
            ps = case(P, f, {(TLS, "fiber_scheduler"): here, (A1, "fiber_scheduler"): NULL}, {"dex_thread_storage_get": TLS}, queues=q, args={0: SCHED}, default=dflt(0)); n += len(ps)
            txt = "registered from %s" % ("a fiber of the scheduler" if here == SCHED else "elsewhere")
            ctx.ob("register", txt + " (handled)", ps, where(f), "no path")
            for p in ps:
                end = q.at(p.events)
                ctx.ob("register", txt + ": queued", end[canon(runnable(SCHED))] == [canon(x) for x in ro + [link(A1)]] and end[canon(blocked(SCHED))] == [], where(f), "is not queued once at the end of the runnable fibers")
                ctx.ob("register", txt + ": own reference", nref(p, A1) - nrel(p, A1) == 1, where(f), "the queue holds %d references" % (nref(p, A1) - nrel(p, A1)))
                ctx.ob("register", txt + ": bound", final(p, A1, "fiber_scheduler") == SCHED and bit(P, p, A1, "runnable", 0) == 1, where(f), "is not bound to the scheduler")
                qs = [e for e in p.events if e.kind == "call" and str(e.name).startswith("g_queue_push")]
                for e in qs:
                    ctx.ob("register", "under the lock", schedlock(SCHED) in held_at(p, pos(p, e)), where(f, e), "queued without the lock")
                    ctx.ob("register", "bound before it can run", all(pos(p, x) < pos(p, e) or schedlock(SCHED) in held_at(p, pos(p, x)) for x in stores_to(p, A1, "fiber_scheduler")), where(f, e), "bound after it was queued")
                    r = [x for x in pcalls(p, "dex_ref") if x.args[0] == A1]
                    ctx.ob("register", "referenced before it can run", r and (pos(p, r[0]) < pos(p, e) or schedlock(SCHED) in held_at(p, pos(p, r[0]))), where(f, e), "the reference is taken too late")
                w = wakes(p, SCHED); ctx.ob("register", txt + ": woken", w or here == SCHED, where(f), "the scheduler's thread is not woken")
                for e in w: ctx.ob("register", txt + ": queued before it is woken", all(pos(p, x) < pos(p, e) for x in qs), where(f, e), "woken before the fiber is queued")
    # --- source
    tab = None
    for k, t in P.source_tables().items():
        d = P.funcs.get(t[2])
        if d and "fiber" in d.base: tab = t
    if not ctx.need(tab, "no source of the fiber scheduler"): return
    for which, nm in ((0, "prepare"), (1, "check")):
        f = P.funcs.get(tab[which])
        if f is None:
            if which == 1: ctx.ob("ready-check", nm, False, "", "the source has no check function")
            continue
        for k in (0, 1, 2):
            q = Queues({runnable(A0): [link(x) for x in (X, Y)[:k]], blocked(A0): [link(F)]})
            TO = tok("timeout")
            ps = case(P, f, {}, {}, queues=q, args={1: TO} if which == 0 else {}); n += len(ps)
            ctx.ob("ready-check", nm + " (handled)", ps, where(f), "no path")
            for p in ps:
                r = ev(p.ret, lambda t: None)
                ctx.ob("ready-check", "%s with %d runnable" % (nm, k), r is not None and (r != 0) == (k > 0), where(f), "says %s" % show(p.ret))
                if which == 0 and k == 0:
                    st = [e for e in p.events if e.kind == "store" and e.args[0] == TO]
                    ctx.ob("ready-check", "prepare: timeout", all(e.args[1][0] == "c" and e.args[1][1] != 0 for e in st), where(f), "spins although nothing is runnable")
    f = P.funcs.get(tab[2])
    names = [tok("fiber%d" % i) for i in range(3)]
    depth = 3 if ctx.tier == "thorough" else 2
    STACK, POOL = tok("stack"), tok("pool")
    for k in range(0, depth + 1):
        for acts in itertools.product(("block", "exit", "again"), repeat=k):
            fibers = names[:k]
            what = {canon(f_): a for f_, a in zip(fibers, acts)}
            def effect(e, q, what=what):
                if e.kind != "call" or e.name not in SWITCH: return
                t = ctxof(e.args[-1]); l = canon(link(t)) if t else None
                r = q.setdefault(canon(runnable(A0)), []); b = q.setdefault(canon(blocked(A0)), [])
                if t is None or l not in r: return
                if what.get(t) == "block": r.remove(l); b.append(l)
                elif what.get(t) == "again": r.remove(l); r.append(l)
            q = Queues({runnable(A0): [link(x) for x in fibers], blocked(A0): []}, effect=effect)
            off, base = flagbyte(P, runnable=1)
            def first(a, st, what=what):
                # what the fiber itself has done to its flags while it ran
                if a[0] != "f" or a[2] != FB or not (isflags(a) or a[3] in flagname(P)): return None
                for e in reversed(st.trace):
                    if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == a[1] and (isflags(e.args[0]) or e.args[0][3] in flagname(P)): return None
                    if e.kind == "call" and e.name in SWITCH and ctxof(e.args[-1]) == a[1]:
                        fl = dict(running=1, runnable=0 if what.get(a[1]) == "block" else 1, exited=1 if what.get(a[1]) == "exit" else 0, released=0)
                        return flagbyte(P, **fl)[1] if isflags(a) else fl.get(a[3])
                return None
            def extra(a, st, base=base, what=what):
                if a[0] != "f": return None
                if a[2] == FB:
                    if isflags(a) or a[3] in flagname(P):
                        return flagbyte(P, runnable=1)[1] if isflags(a) else int(a[3] == "runnable")
                    if a[3] == "stack": return STACK
                    if a[3] == "stack_size": return 0
                    if a[3] == "fiber_scheduler": return A0
                if a[2] == FS and (a[3] in flagname(P, FS) or isflags(a, FS)): return 1
                if a[2] == FS and a[3] == "stack_pool": return POOL
                if a[3] in ("size", "stack_size"): return 65536
                return None
            calls = {"dex_thread_storage_get": TLS, **{s: 0 for s in SWITCH}}
            ps = case(P, f, {(TLS, "fiber_scheduler"): NULL}, calls, queues=q, default=dflt(0, extra), K=12, first=first); n += len(ps)
            txt = "fibers that %s" % ", ".join(acts) if acts else "no fiber"
            ctx.ob("dispatch", txt + " (handled)", ps, where(f), "no path")
            for p in ps:
                sw = switches(p); ran = []
                ctx.ob("dispatch", txt + ": source stays", ev(p.ret, lambda t: None) not in (0, None), where(f), "the source removes itself")
                gone = set()
                for e in sw:
                    i = pos(p, e); t = ctxof(e.args[-1]); ran.append(t)
                    here = q.at(p.events[:i]).get(canon(runnable(A0)), [])
                    ctx.ob("dispatch", txt + ": runnable only", t is not None and canon(link(t)) in here and t not in gone, where(f, e), "switches to a fiber that is not runnable")
                    ctx.ob("dispatch", txt + ": comes back", ctxof(e.args[0]) == A0, where(f, e), "does not save the scheduler's own context")
                    ctx.ob("dispatch", txt + ": no lock across", not held_at(p, i), where(f, e), "a lock is held while a fiber runs")
                    cur = [x for x in p.events[:i] if x.kind == "store" and x.args[0][0] == "f" and x.args[0][3] == "running" and x.args[0][1] == A0]
                    ctx.ob("dispatch", txt + ": current fiber", cur and cur[-1].args[1] == t, where(f, e), "the fiber is not noted as the current one")
                    cs = [x for x in p.events[:i] if x.kind == "store" and x.args[0][0] == "f" and x.args[0][1] == TLS and x.args[0][3] == "fiber_scheduler"]
                    ctx.ob("dispatch", txt + ": current scheduler", cs and cs[-1].args[1] == A0, where(f, e), "the scheduler is not noted as the current one")
                    r = sum(1 for x in p.events[:i] if x.kind == "call" and x.name == "dex_ref" and x.args[0] == t) - sum(1 for x in p.events[:i] if x.kind == "call" and x.name == "dex_unref" and x.args[0] == t)
                    ctx.ob("dispatch", txt + ": kept alive", r >= 1, where(f, e), "the fiber may be freed while it runs")
                    if what.get(t) == "exit": gone.add(t)
                ctx.ob("dispatch", txt + ": progress", bool(ran) == bool(fibers), where(f), "runs no fiber although one is runnable")
                ctx.ob("dispatch", txt + ": nobody is current afterwards", not sw or is0(final(p, A0, "running", A0)) and is0(final(p, TLS, "fiber_scheduler", A0)), where(f), "a fiber or scheduler is still noted as current")
                end = q.at(p.events); left = set(end.get(canon(runnable(A0)), [])) | set(end.get(canon(blocked(A0)), []))
                for x in fibers:
                    l = canon(link(x)); cnt = end.get(canon(runnable(A0)), []).count(l) + end.get(canon(blocked(A0)), []).count(l)
                    dead = x in gone
                    ctx.ob("dispatch", txt + ": " + ("taken off" if dead else "stays queued"), cnt == (0 if dead else 1), where(f), "is queued %d times %s" % (cnt, "after it exited" if dead else "although it has not exited"))
                    net = nref(p, x) - nrel(p, x)
                    ctx.ob("dispatch", txt + ": references", net == (-1 if dead else 0), where(f), "its references change by %d" % net)
                    if dead: ctx.ob("dispatch", txt + ": unbound", is0(final(p, x, "fiber_scheduler", A0)) and bit(P, p, x, "released", 0) == 1, where(f), "stays bound to the scheduler")
                for e in p.events:
                    if e.kind == "call" and str(e.name).startswith("g_queue_") and e.name in QPUSH: ctx.ob("dispatch", "queues change under the lock", schedlock(A0) in held_at(p, pos(p, e)), where(f, e), "the queue changes without the lock")
    ctx.count("abstract_paths", n)
