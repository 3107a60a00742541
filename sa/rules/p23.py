"""P23: every submitted work item runs exactly once on its scheduler"""
from spec import *
from rules.sched import *
from rules.wsq import Ring, WQS, sources, stores_field, touches_field
import itertools
FN, DT = tok("func"), tok("data")

def run(ctx):
    P = ctx.P; vt = P.vtables(); n = 0
    ctx.rule("submit", "pushing to a scheduler reaches that scheduler's own push once, with the given function and data; the thread pool hands it to the current worker or to the global queue")
    ctx.rule("store", "the item is queued once with its function, data and back-pointer, under the queue's lock, before the consumer is notified")
    ctx.rule("notify", "the consumer is notified after the item is queued: its main context is woken unless the consumer itself pushes; the global queue's semaphore is posted exactly once per item")
    ctx.rule("drain", "dispatch takes items under the lock and invokes each exactly once with its own data and no lock held, then frees it once; nothing pushed meanwhile is dropped and the source stays")
    ctx.rule("global", "a worker waits for a permit, takes at most one item per permit, invokes it once without the lock and waits again")
    ctx.rule("local", "a worker runs each of its local items once, up to the batch size, and leaves the rest queued")
    ctx.rule("stolen", "a stolen item is invoked once, by the thief, without the lock of the worker set; other workers are all tried and the thief itself never is")
    ctx.rule("foreign", "an item pushed to a worker from elsewhere is copied into a source attached to that worker's context, which runs it once and goes away")
    ctx.rule("flush", "items still queued when a scheduler is destroyed or a worker stops are run once")
    ctx.rule("order", "items of one main scheduler, and of the shared queue, are taken in the order they were pushed")
    ctx.rule("spawn", "a fiber is registered exactly once, with the fiber source of the scheduler it was spawned on")
    ctx.rule("slots", "every kind of scheduler implements every operation that is called on schedulers, and hands out its own main context and I/O context (the thread pool those of the current worker, or else of the default scheduler)")
    SC = "_DexSchedulerClass"
    called = {}
    for f in P.defined.values():
        for b in f.blocks:
            for i in b:
                if i.op == "call" and i.f[0] == "i":
                    ld = f.insts.get(i.f[1]) if isinstance(f.insts, dict) else None
                    if ld is not None and ld.op == "load" and ld.a[0][0] == "i":
                        for st, fl, o_ in (f.insts[ld.a[0][1]].raw.get("gf") or ())[-1:]:
                            if st == SC: called.setdefault(fl, f)
    kinds = {t for (st, sl), m in vt.items() if st == SC for t in m}
    ctx.need(len(called) >= 4 and len(kinds) >= 3, "only %d operations and %d kinds of schedulers were found" % (len(called), len(kinds)))
    for sl, f in sorted(called.items()):
        for t in sorted(kinds): ctx.ob("slots", "%s implements %s" % (t, sl), t in vt.get((SC, sl), {}), where(f), "%s has no implementation of %s, which is called unconditionally" % (t, sl))
    W, D, TL = tok("worker"), tok("default-scheduler"), tok("tls")
    for sl in ("get_main_context", "get_aio_context"):
        for t, fn in sorted(vt.get((SC, sl), {}).items()):
            f = P.funcs.get(fn)
            if not f: continue
            for cur in ((W, NULL) if t == "dex_thread_pool_scheduler" else (NULL,)):
                O = tok("its-own"); fld = sl[4:]
                ask = {"*_DexSchedulerClass." + sl: lambda a, st: tok("of-" + show(a[0])), "dex_scheduler_" + sl: lambda a, st: tok("of-" + show(a[0])), "dex_scheduler_get_default": D, "dex_thread_storage_get": TL}
                ps = case(P, f, {(("a", 0), fld): O, (TL, "worker"): cur}, ask); n += len(ps)
                want = O if t != "dex_thread_pool_scheduler" else tok("of-" + show(cur if cur == W else D))
                txt = "%s of %s%s" % (fld, t, "" if t != "dex_thread_pool_scheduler" else " on a worker" if cur == W else " elsewhere")
                ctx.ob("slots", txt + " (handled)", ps, where(f), "no path")
                for p in ps: ctx.ob("slots", txt, p.ret == want, where(f), "returns %s" % (show(p.ret) if p.ret else "nothing"))
    for sl in ("get_main_context", "get_aio_context", "spawn"):
        f = P.funcs.get("dex_scheduler_" + sl)
        if f and sl != "spawn":
            S0 = tok("given")
            for p in case(P, f, {}, {"g_type_check_instance_is_a": 1, "*_DexSchedulerClass." + sl: lambda a, st: tok("of-" + show(a[0]))}, args={0: S0}):
                n += 1; ctx.ob("slots", "public " + sl, p.ret == tok("of-" + show(S0)), where(f), "returns %s" % (show(p.ret) if p.ret else "nothing"))
    impl = {t: P.funcs.get(f) for t, f in vt.get((SC, "push"), {}).items()}
    # --- submit
    f = P.fn("dex_scheduler_push"); S = tok("scheduler")
    for p in case(P, f, {}, {"g_type_check_instance_is_a": 1}, args={0: S, 1: FN, 2: DT}):
        n += 1
        iv = [e for e in p.events if e.kind == "call" and str(e.name).startswith("*")]
        ctx.ob("submit", "public entry", len(iv) == 1 and iv[0].name == "*_DexSchedulerClass.push" and iv[0].args == (S, FN, DT), where(f), "the item reaches %s" % [str(e) for e in iv])
    # --- main scheduler
    f0, ps0, nm = main_setup(P); MS = nm["MS"]
    push = impl.get("dex_main_scheduler"); item = None
    mainq = None
    if ctx.need(push, "the main scheduler has no push handler") and ctx.need(ps0, "the main scheduler cannot be created"):
        made = stored(ps0[0], MS)
        base = {(MS, k): v for k, v in made.items()}
        for here in (MS, tok("elsewhere"), NULL):
            ps = case(P, push, {**base, (nm["TLS"], "scheduler"): here}, {"dex_thread_storage_get": nm["TLS"]}, args={0: MS, 1: FN, 2: DT}); n += len(ps)
            txt = "pushed by %s" % ("the scheduler's own thread" if here == MS else "another thread")
            ctx.ob("store", txt + " (handled)", ps, where(push), "no path")
            for p in ps:
                it = item_push(P, p, FN, DT)
                ctx.ob("store", txt + ": item", it is not None and None not in it[3:5] and it[5], where(push), "the item is not queued with its function, data and back-pointer")
                if it is None or None in it[3:5]: continue
                item = it; o = it[0]; mainq = o.term
                ctx.ob("store", txt + ": once", len([x for x in qops(p)]) == 1, where(push), "queued %d times" % len(qops(p)))
                ctx.ob("store", txt + ": under the lock", objlock(MS) in held_at(p, o.i), where(push, o.e), "queued without the scheduler's lock")
                ctx.ob("store", txt + ": complete", not [e for e in p.events[o.i:] if e.kind == "store" and root_of(e.args[0]) == it[2]], where(push), "the item changes after it was queued")
                w = [e for e in pcalls(p, "g_main_context_wakeup") if e.args[0] == nm["MC"]]
                ctx.ob("notify", txt, w or here == MS, where(push), "the scheduler's context is not woken")
                ctx.ob("notify", txt + ": afterwards", all(pos(p, e) > o.i for e in w), where(push), "woken before the item is queued")
    tabs = P.source_tables()
    if item is not None:
        I = Items(P, item)
        for k, (tn, src) in enumerate(sorted(nm["src"].items())):
            t = tabs.get(tn); d = P.funcs.get(t[2]) if t else None
            if not ctx.need(d, "source %s has no dispatch" % tn): continue
            smem = dict(base); smem.update({(src, a): b for a, b in stored(ps0[0], src).items()})
            big = [x + 2 for x in thresholds(P, d, smem.values())][:4]
            for cnt in list(range(0, 5 if ctx.tier == "thorough" else 4)) + big:
                for late in (0, 1, 2) if cnt not in big else (0, 2):
                    I.all = []; items = [I.make(str(i)) for i in range(cnt)]; extra = [I.make("late%d" % i) for i in range(late)]
                    def effect(e, q, items=items, extra=extra):
                        # another thread pushes while the first items run
                        if e.kind == "call" and str(e.name).startswith("*") and items and e.name == "*" + I.func(items[0])[1]:
                            for x in extra:
                                if canon(I.l(x)) not in q.setdefault(canon(mainq), []): q[canon(mainq)].append(canon(I.l(x)))
                    q = Queues({mainq: [I.l(x) for x in items]}, data=I.element, effect=effect)
                    ps = case(P, d, smem, {}, queues=q, args={0: src}, default=I.ld, K=8 + 2 * cnt); n += len(ps)
                    txt = "%d items, %d pushed meanwhile" % (cnt, late if cnt else 0)
                    ctx.ob("drain", txt + " (handled)", ps, where(d), "no path")
                    for p in ps: drained(ctx, "drain", p, d, I, items, extra if cnt else [], q, mainq, objlock(MS), True, txt, item[0].op)
        fin = P.funcs.get(vt.get(("_DexObjectClass", "finalize"), {}).get("dex_main_scheduler"))
        if ctx.need(fin, "the main scheduler has no finaliser"):
            for cnt in (0, 1, 3):
                I.all = []; items = [I.make(str(i)) for i in range(cnt)]
                q = Queues({mainq: [I.l(x) for x in items]}, data=I.element)
                ps = case(P, fin, base, {}, queues=q, args={0: MS}, default=I.ld, K=8); n += len(ps)
                ctx.ob("flush", "main scheduler with %d items (handled)" % cnt, ps, where(fin), "no path")
                for p in ps: drained(ctx, "flush", p, fin, I, items, [], q, mainq, None, False, "main scheduler with %d items" % cnt, item[0].op)
    # --- thread pool
    push = impl.get("dex_thread_pool_scheduler")
    if ctx.need(push, "the thread pool has no push handler"):
        TLS, TP, W = tok("tls"), tok("pool"), tok("worker")
        for wk in (NULL, W):
            ps = case(P, push, {(TLS, "worker"): wk, (TP, "global_work_queue"): tok("global")}, {"dex_thread_storage_get": TLS}, args={0: TP, 1: FN, 2: DT}); n += len(ps)
            ctx.ob("submit", "thread pool (handled)", ps, where(push), "no path")
            for p in ps:
                g = [(e.name, e.args) for e in p.events if e.kind == "call" and (str(e.name).startswith("*") or e.name in ("dex_work_queue_push", "dex_scheduler_push"))]
                want = [[("dex_work_queue_push", (tok("global"), FN, DT))]] + ([[("*_DexSchedulerClass.push", (W, FN, DT))], [("dex_scheduler_push", (W, FN, DT))]] if wk == W else [])
                ctx.ob("submit", "thread pool, on %s" % ("a worker" if wk == W else "another thread"), g in want, where(push), "the item goes to %s" % [x[0] for x in g])
    # --- global queue
    f = P.fn("dex_work_queue_push"); WQ, SEM = tok("workqueue"), tok("semaphore"); gi = None
    ps = case(P, f, {(WQ, "semaphore"): SEM}, {"g_type_check_instance_is_a": 1}, args={0: WQ, 1: FN, 2: DT}); n += len(ps)
    ctx.ob("store", "global queue (handled)", ps, where(f), "no path")
    qlock = None
    for p in ps:
        it = item_push(P, p, FN, DT)
        ctx.ob("store", "global queue: item", it is not None and None not in it[3:5] and it[5], where(f), "the item is not queued with its function, data and back-pointer")
        if it is None or None in it[3:5]: continue
        gi = it; o = it[0]; h = [x for x in held_at(p, o.i)]
        qlock = h[0] if h else None
        ctx.ob("store", "global queue: under the lock", len(h) == 1, where(f, o.e), "queued without the queue's lock")
        ctx.ob("store", "global queue: once", len(qops(p)) == 1, where(f), "queued %d times" % len(qops(p)))
        po = [(e.args[1][1] if e.name.endswith("many") and e.args[1][0] == "c" else 1, e) for e in pcalls(p, "dex_semaphore_post", "dex_semaphore_post_many") if e.args[0] == SEM]
        ctx.ob("notify", "global queue", sum(x[0] for x in po) == 1, where(f), "posts %d permits" % sum(x[0] for x in po))
        for _, e in po: ctx.ob("notify", "global queue: afterwards", pos(p, e) > o.i and not held_at(p, pos(p, e)), where(f, e), "the permit is posted before the item is queued, or under the lock")
    f = P.fn("dex_work_queue_try_pop"); OUT = tok("out")
    if gi is not None:
        gq = subst(gi[0].term, WQ, A0); I = Items(P, gi); I.link = subst(I.link, WQ, A0)
        for cnt in (0, 1, 2, 3):
            I.all = []; items = [I.make(str(i)) for i in range(cnt)]
            q = Queues({gq: [I.l(x) for x in items]}, data=I.element)
            ps = case(P, f, {}, {"g_type_check_instance_is_a": 1}, queues=q, args={1: OUT}, default=I.ld, locs=True); n += len(ps)
            ctx.ob("global", "pop of %d (handled)" % cnt, ps, where(f), "no path")
            for p in ps:
                ctx.ob("global", "pop of %d: result" % cnt, ev(p.ret, lambda t: None) == int(cnt > 0), where(f), "says %s" % show(p.ret))
                out = {}
                for e in p.events:
                    if e.kind == "store" and root_of(e.args[0]) == OUT: out[off(P, e.args[0], OUT)] = e.args[1]
                    if e.kind == "call" and e.name in ("llvm.memcpy", "llvm.memmove") and e.args[0] == OUT and root_of(e.args[1]) in I.all:
                        for d in (0, 8):
                            k = off(P, e.args[1], root_of(e.args[1])) + d; x = root_of(e.args[1]); out[d] = I.func(x) if k == I.fo else I.data(x) if k == I.do else None
                end = q.at(p.events).get(canon(gq), []); got = [x for x in items if canon(I.l(x)) not in end]
                ctx.ob("global", "pop of %d: takes one" % cnt, len(got) == min(cnt, 1) and len(end) == cnt - len(got), where(f), "takes %d items" % len(got))
                fr = [e.args[0] for e in pcalls(p, "g_free")]
                if got and gi[0].op in ("push_tail", "push_head"): ctx.ob("order", "shared queue of %d" % cnt, got == fifo(gi[0].op, items)[:1], where(f), "takes the item pushed last")
                if got:
                    ctx.ob("global", "pop: item", (out.get(0), out.get(8)) == (I.func(got[0]), I.data(got[0])), where(f), "hands out %s" % (out,))
                    ctx.ob("global", "pop: frees it", fr == got, where(f), "frees %s" % [show(x) for x in fr])
                    ctx.ob("global", "pop: not read after it is freed", not [e for e in p.events[max([pos(p, x) for x in pcalls(p, "g_free")] or [len(p.events)]) + 1:] if e.kind == "call" and e.name == "llvm.memcpy" and root_of(e.args[1]) == got[0]], where(f), "reads the freed item")
                else: ctx.ob("global", "pop: nothing", not fr, where(f), "frees something")
                for o in qops(p): ctx.ob("global", "pop under the lock", subst(qlock, WQ, A0) in held_at(p, o.i) if qlock else False, where(f, o.e), "the queue is changed without its lock")
    f = P.fn("dex_work_queue_run"); FUT, LOOP = tok("permit"), tok("loop"); cb = None
    ps = case(P, f, {(WQ, "semaphore"): SEM}, {"dex_semaphore_wait": FUT, "dex_future_finally_loop": LOOP, "dex_future_then_loop": LOOP, "g_type_check_instance_is_a": 1}, args={0: WQ}); n += len(ps)
    ctx.ob("global", "loop (handled)", ps, where(f), "no path")
    for p in ps:
        lp = pcalls(p, "dex_future_finally_loop", "dex_future_then_loop"); wt = pcalls(p, "dex_semaphore_wait")
        ok = len(lp) == 1 and len(wt) == 1 and wt[0].args[0] == SEM and lp[0].args[0] == FUT and lp[0].args[2] == WQ and p.ret == LOOP
        ctx.ob("global", "loop", ok, where(f), "does not loop over permits of the queue's semaphore")
        if lp:
            ctx.ob("global", "loop keeps the queue", nref(p, WQ) - nrel(p, WQ) == (1 if lp[0].args[3] == ("g", "dex_unref") else 0) and lp[0].args[3] == ("g", "dex_unref"), where(f), "holds %d references" % (nref(p, WQ) - nrel(p, WQ)))
            cb = lp[0].args[1]
    c = P.funcs.get(cb[1]) if cb and cb[0] == "g" else None
    if ctx.need(c, "the global queue has no loop body"):
        for has in (0, 1):
            def pop(ar, st, has=has):
                d = ar[1]
                return [has, [(d, FN), (("ix", d, ("c", 8)), DT), (("f", d, "", "f0"), FN), (("f", d, "", "f1"), DT), (("f", d, "_DexWorkItem", "func"), FN), (("f", d, "_DexWorkItem", "func_data"), DT)] if has else []]
            ps = case(P, c, {(WQ, "semaphore"): SEM}, {"dex_work_queue_try_pop": pop, "dex_semaphore_wait": FUT, "g_type_check_instance_is_a": 1}, args={1: WQ}); n += len(ps)
            ctx.ob("global", "permit (handled)", ps, where(c), "no path")
            for p in ps:
                iv = [(a, b) for _, a, b in invocations(p)]
                ctx.ob("global", "permit with %s" % ("an item" if has else "no item"), iv == ([("func", (DT,))] if has else []), where(c), "invokes %s" % [x[0] for x in iv])
                wt = pcalls(p, "dex_semaphore_wait")
                ctx.ob("global", "one item per permit", len(pcalls(p, "dex_work_queue_try_pop")) == 1, where(c), "takes %d items for a permit" % len(pcalls(p, "dex_work_queue_try_pop")))
                ctx.ob("global", "waits again", len(wt) == 1 and wt[0].args[0] == SEM and p.ret == FUT, where(c), "does not wait for the next permit")
                for i, _, _ in invocations(p): ctx.ob("global", "no lock", not held_at(p, i), where(c, p.events[i]), "invoked under a lock")
    # --- workers: local items
    own, steal = sources(P)
    if ctx.need(own, "no source drains the workers' queues"):
        f = P.funcs.get(own[2]); RQ = tok("wq")
        for k, B in itertools.product((0, 1, 2, 3), (1, 2, 8)):
            t = 3; r = Ring(RQ, t, t + k, 8)
            def dflt(a, st):
                if a[0] == "f" and a[1] == A0: return {"work_stealing_queue": RQ, "batch_size": B}.get(a[3])
                return r.ld(a, st)
            ps = case(P, f, {}, r.calls(), default=dflt, K=10); n += len(ps)
            txt = "%d items, batches of %d" % (k, B)
            ctx.ob("local", txt + " (handled)", ps, where(f), "no path")
            for p in ps: ring_run(ctx, "local", txt, p, f, r, k, B)
    # --- stop of a worker: the remaining local items
    fl = set()
    for fn in P.defined.values():
        if fn.name in (own or ()) or fn.base == "dex_work_stealing_queue_unref": continue
        if stores_field(P, fn, WQS, "bottom") and touches_field(P, fn, "_DexThreadPoolWorker", ("main_loop",)) and any(i.op == "call" and i.f[0] == "g" and i.f[1] == "g_main_loop_quit" for b in fn.blocks for i in b): fl.add(fn)
    ctx.ob("flush", "stopping worker", fl, "", "a stopping worker does not run its remaining items")
    for fn in fl:
        RQ = tok("wq")
        for k in (0, 1, 3):
            r = Ring(RQ, 3, 3 + k, 8)
            def dflt(a, st):
                if a[0] == "f" and a[1] == A0 and a[3] == "work_stealing_queue": return RQ
                return r.ld(a, st)
            ps = case(P, fn, {}, r.calls(), default=dflt, K=10); n += len(ps)
            ctx.ob("flush", "stopping worker with %d (handled)" % k, ps, where(fn), "no path")
            for p in ps: ring_run(ctx, "flush", "stopping worker with %d items" % k, p, fn, r, k, None)
    # --- stolen
    if ctx.need(steal, "no source steals"):
        f = P.funcs.get(steal[2]); WK, WS = "_DexThreadPoolWorker", "_DexThreadPoolWorkerSet"
        SET = tok("set"); ws = [tok("worker%d" % i) for i in range(4)]; rq = {w: tok("wq%d" % i) for i, w in enumerate(ws)}
        for size in (1, 2, 3, 4):
            for me in range(size):
                for rich in [None] + list(range(size)):
                    rings = {w: Ring(rq[w], 5, 5 + (2 if i == rich else 0), 8, name="-%d-" % i) for i, w in enumerate(ws)}
                    q = Queues({("f", SET, WS, "queue"): [("f", w, WK, "set_link") for w in ws[:size]]})
                    def dflt(a, st, me=me):
                        if a[0] == "f" and a[1] == A0: return {"set": SET, "thread_pool_worker": ws[me]}.get(a[3])
                        if a[0] == "f" and a[2] == WK and a[3] == "work_stealing_queue" and a[1] in rq: return rq[a[1]]
                        for r in rings.values():
                            v = r.ld(a, st)
                            if v is not None: return v
                        return None
                    rs = list(rings.values())
                    ps = case(P, f, {}, rs[0].calls(rs[1:]), default=dflt, queues=q, K=6); n += len(ps)
                    txt = "%d workers, items with %s" % (size, "none" if rich is None else "the thief" if rich == me else "another")
                    ctx.ob("stolen", txt + " (handled)", ps, where(f), "no path")
                    for p in ps:
                        iv = [(a, b) for _, a, b in invocations(p)]
                        want = [] if rich is None or rich == me else [(rings[ws[rich]].item(5)[0][1], (rings[ws[rich]].item(5)[1],))]
                        ctx.ob("stolen", txt + ": invoked", iv == want, where(f), "invokes %s" % [x[0] for x in iv])
                        for i, _, _ in invocations(p): ctx.ob("stolen", "no lock", not held_at(p, i), where(f, p.events[i]), "invoked under the lock of the worker set")
                        ctx.ob("stolen", txt + ": stays", ev(p.ret, lambda t: None) not in (0, None), where(f), "the source goes away")
                        for i, e in enumerate(p.events):
                            if e.kind in ("cmpxchg",) or e.kind == "call" and e.name == "__atomic_load": ctx.ob("stolen", "set is locked", held_at(p, i), where(f, e), "a neighbour is touched without the lock of the set")
    # --- foreign
    push = impl.get("dex_thread_pool_worker")
    if ctx.need(push, "workers have no push handler"):
        SELF, SRC, CTX, DUP = tok("worker"), tok("source"), tok("worker-context"), tok("copy")
        RUN = P.enumval.get("DEX_THREAD_POOL_WORKER_RUNNING", 1)
        def dflt(a, st):
            if a[0] == "f" and a[1] == SELF:
                if a[3] == "thread": return tok("its-thread")
                if a[3] == "main_context": return CTX
                if a[3] == "status" or str(a[3]).startswith("bits@"): return RUN
            return None
        from rules.wsq import local_pair
        def dup(ar, st): return [DUP, [], (local_pair(ar[0], st), ar[1])]
        ps = case(P, push, {}, {"g_thread_self": tok("me"), "g_idle_source_new": SRC, "g_source_new": SRC, "g_memdup2": dup, "g_malloc0": DUP, "g_malloc0_n": DUP, "g_malloc": DUP, "g_malloc_n": DUP}, args={0: SELF, 1: FN, 2: DT}, default=dflt); n += len(ps)
        ctx.ob("foreign", "(handled)", ps, where(push), "no path")
        for p in ps:
            sc = [e for e in pcalls(p, "g_source_set_callback", "g_source_set_callback_indirect") if e.args[0] == SRC]; at = [e for e in pcalls(p, "g_source_attach") if e.args[0] == SRC]
            ctx.ob("foreign", "attached", len(sc) == 1 and len(at) == 1 and at[0].args[1] == CTX and pos(p, sc[0]) < pos(p, at[0]), where(push), "is not attached once to the worker's context")
            un = [e for e in pcalls(p, "g_source_unref") if e.args[0] == SRC]
            ctx.ob("foreign", "source reference", len(un) == 1 and at and pos(p, un[0]) > pos(p, at[0]), where(push), "releases its source %d times" % len(un))
            if not sc or len(sc[0].args) < 4: continue
            dpe = [e for e in p.events if e.kind == "call" and e.res == DUP]
            words = {}
            for e in dpe:
                if e.extra and ev(e.extra[1], lambda t: None) in (16, None): words = {0: e.extra[0][0], 8: e.extra[0][1]}
            for e in p.events[:pos(p, at[0])] if at else []:
                if e.kind == "store" and root_of(e.args[0]) == DUP: words[off(P, e.args[0], DUP)] = e.args[1]
            fo = [k for k, v in words.items() if v == FN]; do = [k for k, v in words.items() if v == DT]
            ctx.ob("foreign", "copy", sc[0].args[2] == DUP and len(dpe) == 1 and len(fo) == 1 and len(do) == 1 and sc[0].args[3] == ("g", "g_free"), where(push, sc[0]), "the source does not own a copy of the item")
            cb = P.funcs.get(sc[0].args[1][1]) if sc[0].args[1][0] == "g" else None
            ctx.ob("foreign", "callback", cb is not None, where(push, sc[0]), "the source's function is not known")
            if cb is None or not fo or not do: continue
            def ld(a, st, fo=fo, do=do):
                if root_of(a) != DUP: return None
                k = off(P, a, DUP); return FN if k == fo[0] else DT if k == do[0] else None
            qs = case(P, cb, {}, {}, args={0: DUP}, default=ld); n += len(qs)
            ctx.ob("foreign", "callback (handled)", qs, where(cb), "no path")
            for x in qs:
                ctx.ob("foreign", "runs once", [(a, b) for _, a, b in invocations(x)] == [("func", (DT,))] and not held_at(x, invocations(x)[0][0]), where(cb), "invokes %s" % [a for _, a, b in invocations(x)])
                ctx.ob("foreign", "goes away", ev(x.ret, lambda t: None) == 0 and not pcalls(x, "g_free"), where(cb), "runs again or frees the item itself")
    # --- spawn
    f = P.fn("dex_scheduler_spawn"); FB, DEF, DES, SZ = tok("fiber"), tok("default"), tok("destroy"), tok("size")
    for given in (S, NULL):
        ps = case(P, f, {}, {"g_type_check_instance_is_a": 1, "dex_fiber_new": FB, "dex_scheduler_get_default": DEF}, args={0: given, 1: SZ, 2: FN, 3: DT, 4: DES}, default=lambda a, st: DEF if a[0] == "g" and "default" in a[1] else None); n += len(ps)
        ctx.ob("spawn", "public entry (handled)", ps, where(f), "no path")
        for p in ps:
            mk = pcalls(p, "dex_fiber_new"); iv = [e for e in p.events if e.kind == "call" and str(e.name).startswith("*")]
            ctx.ob("spawn", "fiber of the given function", len(mk) == 1 and mk[0].args == (FN, DT, DES, SZ), where(f), "creates %d fibers or another one" % len(mk))
            ctx.ob("spawn", "on the %s scheduler" % ("given" if given == S else "default"), len(iv) == 1 and iv[0].name == "*_DexSchedulerClass.spawn" and iv[0].args == (given if given == S else DEF, FB) and p.ret == FB and not nrel(p, FB), where(f), "spawned on %s" % [show(e.args[0]) for e in iv])
    for t, fnn in sorted(vt.get((SC, "spawn"), {}).items()):
        f = P.funcs.get(fnn)
        if f is None: continue
        if t == "dex_thread_pool_scheduler":
            WKS = tok("workers")
            for wn, rr in itertools.product((1, 2, 4), (0, 1, 3, 4, 7, -1, 2**31 - 1)):
                wl = [tok("w%d" % i) for i in range(wn)]
                def ld(a, st):
                    if a == ("f", A0, "_DexThreadPoolScheduler", "workers"): return WKS
                    if a[0] == "f" and a[1] == WKS: return {"len": wn, "pdata": tok("pdata")}.get(a[3])
                    if a[0] == "f" and a[1] == A0 and a[3] != "parent_instance": return rr
                    if root_of(a) == tok("pdata"):
                        c = canon(a); k = c[2][1] if c[0] == "ix" and c[2][0] == "c" else 0 if c == tok("pdata") else -1
                        return wl[k] if 0 <= k < wn else tok("outside")
                    return None
                ps = case(P, f, {}, {"g_atomic_int_add": rr & 0xffffffff}, args={1: FB}, default=ld); n += len(ps)
                for p in ps:
                    iv = [e for e in p.events if e.kind == "call" and str(e.name).startswith("*")] + pcalls(p, "dex_scheduler_spawn")
                    ctx.ob("spawn", "thread pool", len(iv) == 1 and iv[0].name in ("*_DexSchedulerClass.spawn",) and iv[0].args[0] in wl and iv[0].args[1] == FB, where(f), "is spawned on %s" % [show(e.args[0]) for e in iv])
        else:
            ps = case(P, f, {(A0, "fiber_scheduler"): tok("its-fibers")}, {}, args={1: FB}); n += len(ps)
            ctx.ob("spawn", t + " (handled)", ps, where(f), "no path")
            for p in ps:
                rg = pcalls(p, "dex_fiber_scheduler_register")
                ctx.ob("spawn", t, len(rg) == 1 and rg[0].args == (tok("its-fibers"), FB), where(f), "registers the fiber %d times" % len(rg))
    ctx.count("abstract_paths", n)

def fifo(op, xs): return list(xs) if op == "push_tail" else list(reversed(xs))

def drained(ctx, rule, p, d, I, items, extra, q, mainq, lock, stays, txt, pushed=None):
    iv = [x for x in invocations(p) if not x[1].startswith("_DexObjectClass")]; end = q.at(p.events).get(canon(mainq), [])
    # a bounded batch may leave a tail of the queue for the next round
    left = items[next((j for j, x in enumerate(items) if j and canon(I.l(x)) in end), len(items)):] if stays else []
    rest = [canon(I.l(x)) for x in left]
    ctx.ob(rule, txt + ": order of the rest", end[:len(rest)] == rest, where(d), "the items left for the next round are lost or not in front")
    for x in left:
        ctx.ob(rule, txt + ": left alone", not [1 for i, a, b in iv if a == I.func(x)[1]] and not [1 for e in pcalls(p, "g_free") if e.args[0] == x], where(d), "%s runs or is freed although it stays queued" % x[1])
    for x in items[:len(items) - len(left)]:
        k = [i for i, a, b in iv if a == I.func(x)[1]]
        ctx.ob(rule, txt + ": each once", len(k) == 1 and p.events[k[0]].args == (I.data(x),), where(d), "%s runs %d times%s" % (x[1], len(k), "" if len(k) != 1 else " with the wrong data"))
        fr = [pos(p, e) for e in pcalls(p, "g_free") if e.args[0] == x]
        ctx.ob(rule, txt + ": freed once", len(fr) == 1, where(d), "%s is freed %d times" % (x[1], len(fr)))
        ctx.ob(rule, txt + ": taken", canon(I.l(x)) not in end, where(d), "%s stays queued" % x[1])
    for x in extra:
        k = [i for i, a, b in iv if a == I.func(x)[1]]
        ctx.ob(rule, txt + ": late items", len(k) + (canon(I.l(x)) in end) == 1, where(d), "%s is lost or run twice" % x[1])
    if pushed in ("push_tail", "push_head"):
        run = [a for i, a, b in iv if a in [I.func(x)[1] for x in items]]
        ctx.ob("order", txt, run == [I.func(x)[1] for x in fifo(pushed, items) if I.func(x)[1] in run], where(d), "items run in another order than they were pushed")
    ctx.ob(rule, txt + ": nothing else", len(iv) == len([1 for i, a, b in iv if a in [I.func(x)[1] for x in items + extra]]), where(d), "invokes something else")
    if lock is not None:
        for i, a, b in iv: ctx.ob(rule, "no lock", not held_at(p, i), where(d, p.events[i]), "an item runs under the lock")
        for o in qops(p):
            if root_of(o.term)[0] != "alloca": ctx.ob(rule, "taken under the lock", lock in held_at(p, o.i), where(d, o.e), "the queue changes without its lock")
        for i, e in enumerate(p.events):
            if e.kind == "call" and e.name in ("llvm.memcpy", "llvm.memmove") and canon(mainq) in (canon(e.args[0]), canon(e.args[1])): ctx.ob(rule, "taken under the lock", lock in held_at(p, i), where(d, e), "the queue is read without its lock")
    if stays: ctx.ob(rule, txt + ": stays", ev(p.ret, lambda t: None) not in (0, None), where(d), "the source goes away")

def ring_run(ctx, rule, txt, p, f, r, k, B):
    iv = [(a, b) for _, a, b in invocations(p)]
    names = {r.item(r.t + i)[0][1]: r.item(r.t + i)[1] for i in range(k)}
    seen = [a for a, b in iv]
    m = k if B is None else min(k, B)
    ctx.ob(rule, txt + ": each once", len(seen) == len(set(seen)) == m and all(a in names and b == (names[a],) for a, b in iv), where(f), "runs %s" % seen)
    bot = stores_to(p, r.WQ, "bottom"); fb = num(bot[-1].args[1]) if bot else r.b
    won = [e for e in p.events if e.kind == "cmpxchg" and e.res[0] == "agg" and e.res[1][1] == ("c", 1)]
    ctx.ob(rule, txt + ": rest stays", fb - (r.t + len(won)) == k - m, where(f), "%s items stay queued" % (fb - r.t - len(won)))
    for i, _, _ in invocations(p): ctx.ob(rule, "no lock", not held_at(p, i), where(f, p.events[i]), "an item runs under a lock")
    if B is not None: ctx.ob(rule, txt + ": stays", ev(p.ret, lambda t: None) not in (0, None), where(f), "the source goes away")
