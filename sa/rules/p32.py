"""P32: destroying an object releases everything it owns, once, in a safe order"""
from spec import *
from rules.sched import *
from rules import fiber

SELF = tok("object")
U = ("dex_unref", "dex_clear"); GO = ("g_object_unref",); FREE = ("g_free", "g_free_sized"); SRC = ("g_source_unref",); CTX = ("g_main_context_unref",)
ANY = set(U + GO + FREE + SRC + CTX + ("g_main_loop_unref", "g_ptr_array_unref", "g_error_free", "close", "g_aligned_free", "dex_work_stealing_queue_unref", "dex_thread_pool_worker_set_unref", "dex_stack_pool_free", "dex_stack_free", "g_thread_join", "munmap"))
TOLERANT = set(FREE) | {"g_clear_error", "g_aligned_free"}

# type: {owned field: (structure, what releases it)}
OWNED = {
    "dex_async_pair": {"instance": GO, "cancellable": GO, "info": FREE},
    "dex_block": {"awaiting": U, "scheduler": U},
    "dex_cancellable": {"cancellable": GO},
    "dex_delayed": {"future": U},
    "dex_posix_aio_future": {"aio_context": SRC, "main_context": CTX},
    "dex_promise": {"cancellable": GO},
    "dex_timeout": {"source": SRC},
    "dex_unix_signal": {"source": SRC},
    "dex_thread_pool_scheduler": {"global_work_queue": U, "set": ("dex_thread_pool_worker_set_unref",), "workers": ("g_ptr_array_unref",)},
    "dex_thread_pool_worker": {"set_source": SRC, "local_source": SRC, "fiber_scheduler": SRC, "aio_context": SRC, "main_context": CTX, "main_loop": ("g_main_loop_unref",), "work_stealing_queue": ("dex_work_stealing_queue_unref",), "global_work_queue": U, "set": ("dex_thread_pool_worker_set_unref",)},
    "dex_main_scheduler": {"aio_context": SRC, "fiber_scheduler": SRC, "work_queue_source": SRC, "main_context": CTX},
    "dex_work_queue": {"semaphore": U},
    "dex_async_result": {"future": U, "source_object": GO, "cancellable": GO, "main_context": CTX, "name": FREE},
}
DESTROYED = {"dex_timeout": ("source",), "dex_unix_signal": ("source",), "dex_main_scheduler": ("aio_context", "fiber_scheduler", "work_queue_source")}
MUTEX = {"dex_async_result": 1, "dex_work_queue": 1, "dex_thread_pool_worker": 1}
NEVER_NULL = {"dex_thread_pool_worker": ("main_context", "main_loop", "work_stealing_queue", "global_work_queue", "set"), "dex_main_scheduler": ("main_context", "aio_context", "fiber_scheduler", "work_queue_source"), "dex_thread_pool_scheduler": ("global_work_queue", "set", "workers"), "dex_work_queue": ("semaphore",)}

def rels(p, v):
    return [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.args and e.args[0] == v and (e.name in ANY or str(e.name).endswith(("_unref", "_free")))]

def chain(p):
    return [(i, ar) for i, w, ar in invocations(p) if w.endswith("Class.finalize")]

def judge(ctx, P, name, f, ps, own, chained=True):
    """own: {value: (label, releasers)} everything the object holds"""
    ctx.ob("released", name + " (handled)", ps, where(f), "no path")
    for p in ps:
        ch = chain(p)
        if chained:
            ctx.ob("chain", name, len(ch) == 1 and ch[0][1][0] == SELF, where(f), "its parent's finaliser is run %d times" % len(ch))
        end = ch[-1][0] if ch else len(p.events)
        for v, (lb, by) in own.items():
            r = rels(p, v)
            ctx.ob("released", "%s: %s" % (name, lb), len(r) == 1, where(f, r[-1][1] if r else None), "its %s is released %d times" % (lb, len(r)))
            for i, e in r:
                ctx.ob("released", "%s: %s by" % (name, lb), e.name in by, where(f, e), "its %s is released with %s" % (lb, e.name))
                ctx.ob("order", "%s: %s" % (name, lb), i < end, where(f, e), "its %s is released after its memory" % lb)
                for x in p.events[i + 1:end]:
                    if x.kind == "call" and any(a == v or isinstance(a, tuple) and root_of(a) == v for a in x.args): ctx.ob("order", "%s: %s after" % (name, lb), False, where(f, x), "its %s is used after it was released" % lb)
                    elif x.kind in ("load", "store") and root_of(x.args[0]) == v: ctx.ob("order", "%s: %s after" % (name, lb), False, where(f, x), "its %s is used after it was released" % lb)
        for i, e in enumerate(p.events):
            if e.kind == "call" and e.name in ANY and e.name not in TOLERANT and e.name != "close" and e.args and is0(e.args[0]): ctx.ob("released", name + ": nothing", False, where(f, e), "%s is called for something that does not exist" % e.name)
        if ch:
            for e in p.events[end + 1:]:
                if e.kind in ("load", "store") and root_of(e.args[0]) == SELF: ctx.ob("order", name + ": memory", False, where(f, e), "the object is used after its memory may be gone")
                if e.kind == "call" and any(isinstance(a, tuple) and root_of(a) == SELF for a in e.args): ctx.ob("order", name + ": memory", False, where(f, e), "the object is used after its memory may be gone")

def run(ctx):
    P = ctx.P; n = 0
    ctx.rule("released", "whatever an object holds when it is finalised is released exactly once, by the function made for it, and nothing is released that is not there")
    ctx.rule("order", "nothing is used after it was released, and nothing of the object after its parent's finaliser")
    ctx.rule("chain", "the finaliser of every type runs that of its parent exactly once, at its end")
    ctx.rule("content", "what is still queued in an object is released with it")
    ctx.rule("installed", "every type that holds something has a finaliser")
    vt = P.vtables(); fins = dict(vt.get(("_DexObjectClass", "finalize"), {})); fins.update(vt.get(("_GObjectClass", "finalize"), {}))
    seen = set()
    for t in ("dex_channel", "dex_fiber", "dex_future", "dex_future_set", "dex_object", "dex_semaphore"):
        ctx.ob("installed", t, fins.get(t) in P.funcs, "", "%s has no finaliser" % t)
    for t, fields in sorted(OWNED.items()):
        f = P.funcs.get(fins.get(t)) if fins.get(t) else None
        ctx.ob("installed", t, f is not None, "", "%s has no finaliser" % t)
        if f is None: continue
        seen.add(f.name)
        st = {x["n"] for s in P.structs.values() for x in s.get("f", ())}
        fields = {k: v for k, v in fields.items() if k in st}
        nn = NEVER_NULL.get(t, ())
        combos = [set(fields)] + [set(fields) - {k} for k in fields if k not in nn] + [set(nn)]
        for have in combos:
            own = {tok("its-" + k): (k, fields[k]) for k in have}
            def dflt(a, st, have=have):
                if a[0] != "f": return None
                if a[1] == SELF:
                    if a[3] in fields: return tok("its-" + a[3]) if a[3] in have else NULL
                    if a[3] == "thread": return tok("thread")
                    if a[3] in ("handler",): return 7 if "cancellable" in have else 0
                    if a[3] == "callback_data_destroy": return NULL
                    if a[3] == "name_is_static" or str(a[3]).startswith("bits@"): return 0
                    if a[3] in ("callback", "callback_data"): return NULL
                if a[3] in ("length",): return 0
                if a[3] in ("head", "tail", "prev", "next") and root_of(a) == SELF: return NULL
                return None
            try: ps = case(P, f, {}, {"g_source_is_destroyed": 0}, args={0: SELF}, default=dflt, K=2)
            except Exception as x:
                ctx.need(False, "%s: %s" % (f.base, x)); continue
            n += len(ps); judge(ctx, P, t, f, ps, own)
            for p in ps:
                for k in DESTROYED.get(t, ()):
                    if k not in have: continue
                    de = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "g_source_destroy" and e.args[0] == tok("its-" + k)]; r = rels(p, tok("its-" + k))
                    ctx.ob("order", "%s: %s destroyed" % (t, k), len(de) >= 1 and r and de[-1] < r[0][0], where(f), "its %s can still fire when it is gone" % k)
                if t in MUTEX:
                    mc = pcalls(p, "g_mutex_clear"); ctx.ob("released", t + ": mutex", len(mc) == 1 and root_of(mc[0].args[0]) == SELF, where(f), "its lock is cleared %d times" % len(mc))
                if t == "dex_cancellable" and "cancellable" in have:
                    dc = [e for e in pcalls(p, "g_signal_handler_disconnect", "g_cancellable_disconnect") if e.args[0] == tok("its-cancellable")]; r = rels(p, tok("its-cancellable"))
                    ctx.ob("order", t + ": handler", len(dc) == 1 and r and pos(p, dc[0]) < r[0][0], where(f), "its handler is disconnected %d times" % len(dc))
    # an asynchronous result whose name is not its own
    f = P.funcs.get(fins.get("dex_async_result")) if fins.get("dex_async_result") else None
    if f is not None:
        for stat in (0, 1):
            b = P.bitfields.get("_DexAsyncResult", {}); so = next((o for o, (w, nm) in b.items() if nm == "name_is_static"), None)
            if so is None: break
            def dflt(a, st):
                if a[0] == "f" and a[1] == SELF:
                    if a[3] == "name": return tok("its-name")
                    if str(a[3]).startswith("bits@"): return stat << (so - int(a[3][5:]) * 8)
                    if a[3] == "name_is_static": return stat
                return NULL
            for p in case(P, f, {}, {}, args={0: SELF}, default=dflt):
                n += 1; ctx.ob("released", "dex_async_result: %s name" % ("static" if stat else "own"), len(rels(p, tok("its-name"))) == 1 - stat, where(f), "a name that is %s is released %d times" % ("not its own" if stat else "its own", len(rels(p, tok("its-name")))))
    # --- blocks: the callback's data
    f = P.funcs.get(fins.get("dex_block")) if fins.get("dex_block") else None
    if ctx.need(f, "blocks have no finaliser"):
        for ds in (tok("destroy"), NULL):
            for data in (tok("data"), NULL):
                mem = {(SELF, "awaiting"): NULL, (SELF, "scheduler"): NULL, (SELF, "callback_data_destroy"): ds, (SELF, "callback_data"): data, (SELF, "callback"): tok("callback")}
                for p in case(P, f, mem, {}, args={0: SELF}):
                    n += 1
                    iv = [ar for i, w, ar in invocations(p) if not w.endswith("Class.finalize")]
                    ctx.ob("released", "dex_block: callback data", iv == ([(data,)] if ds != NULL else []) or [x[:1] for x in iv] == ([(data,)] if ds != NULL else []), where(f), "the data of its callback is destroyed %d times" % len(iv))
    # --- futures: outcome
    f = P.funcs.get(fins.get("dex_future")) if fins.get("dex_future") else None
    if ctx.need(f, "futures have no finaliser"):
        seen.add(f.name)
        V = ("f", SELF, "_DexFuture", "resolved")
        for val in (1, 0):
            for err in (tok("error"), NULL):
                ps = case(P, f, {(SELF, "rejected"): err}, {"g_type_check_value": val, "g_type_check_value_holds": val}, args={0: SELF}, default=lambda a, st: (24 if val else 0) if a[0] == "f" and a[3] in ("g_type", "f0") and root_of(a) == SELF else 0 if a[0] == "f" and a[3] == "length" else NULL if a[0] == "f" and root_of(a) == SELF else None); n += len(ps)
                ctx.ob("released", "dex_future (handled)", ps, where(f), "no path")
                for p in ps:
                    un = [e for e in pcalls(p, "g_value_unset", "g_value_reset") if canon(e.args[0]) == canon(V)]
                    ctx.ob("released", "dex_future: value", len(un) == val, where(f), "its value is released %d times" % len(un))
                    ce = [e for e in pcalls(p, "g_clear_error") if e.args[0][0] == "f" and e.args[0][1] == SELF] + [e for e in pcalls(p, "g_error_free") if e.args[0] == err]
                    ctx.ob("released", "dex_future: error", len(ce) == 1 or err == NULL and len(ce) == 0, where(f), "its error is released %d times" % len(ce))
                    ch = chain(p); ctx.ob("chain", "dex_future", len(ch) == 1 and all(pos(p, e) < ch[0][0] for e in un + ce), where(f), "its parent's finaliser is not run once at its end")
    # --- sets of futures
    f = P.funcs.get(fins.get("dex_future_set")) if fins.get("dex_future_set") else None
    if ctx.need(f, "sets have no finaliser"):
        seen.add(f.name)
        EMB = ("f", SELF, "_DexFutureSet", "embedded"); ARR = tok("array")
        for emb in (True, False):
            for cnt, gone in ((0, ()), (1, ()), (1, (0,)), (2, ()), (2, (1,)), (3, (0, 2)), (3, ()), (5, (1,))):
                if emb and cnt > 2: continue
                arr = ("ix", EMB, ZERO) if emb else ARR
                def slot(a):
                    a = canon(a); k = 0
                    while a[0] == "ix":
                        if a[2][0] != "c": return None
                        k += a[2][1]; a = a[1]
                    return k if a == canon(arr) else None
                def dflt(a, st):
                    if a[0] == "f" and a[1] == SELF: return {"futures": arr, "n_futures": cnt}.get(a[3])
                    k = slot(a)
                    if k is not None: return NULL if k in gone or k >= cnt else tok("future%d" % k)
                    return None
                ps = case(P, f, {}, {}, args={0: SELF}, default=dflt, K=8); n += len(ps)
                ctx.ob("released", "dex_future_set (handled)", ps, where(f), "no path with %d futures" % cnt)
                for p in ps:
                    for k in range(cnt):
                        v = tok("future%d" % k)
                        if k in gone: continue
                        r = rels(p, v); ctx.ob("content", "dex_future_set: future", len(r) == 1 and r[0][1].name == "dex_unref", where(f), "a future of the set is released %d times" % len(r))
                        dc = [e for e in pcalls(p, "dex_future_discard") if e.args[0] == v]
                        ctx.ob("content", "dex_future_set: discard", len(dc) == 1 and r and pos(p, dc[0]) < r[0][0], where(f), "a future of the set is not told that nobody waits")
                    for e in pcalls(p, "dex_unref", "dex_future_discard"):
                        ctx.ob("released", "dex_future_set: nothing", not is0(e.args[0]), where(f, e), "releases a future that is not there")
                    fr = rels(p, ARR); ctx.ob("released", "dex_future_set: array", len(fr) == (0 if emb else 1), where(f), "the array of the set is freed %d times" % len(fr))
                    for e in pcalls(p, "g_free"): ctx.ob("released", "dex_future_set: embedded", canon(e.args[0]) != canon(EMB), where(f, e), "frees a part of the set")
                    ch = chain(p); ctx.ob("chain", "dex_future_set", len(ch) == 1 and all(i < ch[0][0] for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("dex_unref", "g_free")), where(f), "its parent's finaliser is not run once at its end")
    n += queues(ctx, P, fins, seen)
    n += contexts(ctx, P, seen)
    n += helpers(ctx, P)
    # --- every finaliser chains up
    for t, nm in sorted(fins.items()):
        f = P.funcs.get(nm)
        if f is None or nm in seen or t == "dex_object": continue
        try: ps = case(P, f, {}, {}, args={0: SELF}, K=1)
        except Exception: continue
        n += len(ps)
        for p in ps:
            ch = chain(p); ctx.ob("chain", t, len(ch) == 1 and ch[0][1][0] == SELF, where(f), "its parent's finaliser is run %d times" % len(ch))
            for i, e in enumerate(p.events):
                if ch and i > ch[0][0] and e.kind == "store" and root_of(e.args[0]) == SELF: ctx.ob("order", t, False, where(f, e), "the object is used after its memory may be gone")
    f = P.funcs.get(fins.get("dex_object")) if fins.get("dex_object") else None
    if ctx.need(f, "objects have no finaliser"):
        for p in case(P, f, {}, {}, args={0: SELF}):
            n += 1; fr = [e for e in pcalls(p, "g_type_free_instance") if e.args[0] == SELF]
            ctx.ob("released", "dex_object: memory", len(fr) == 1, where(f), "its memory is released %d times" % len(fr))
    ctx.count("abstract_paths", n); ctx.count("finalisers", len(fins))

def queues(ctx, P, fins, seen):
    n = 0
    # channel: items, waiting senders, waiting receivers
    f = P.funcs.get(fins.get("dex_channel")) if fins.get("dex_channel") else None
    if ctx.need(f, "channels have no finaliser"):
        seen.add(f.name); S = "_DexChannel"
        for a, b, c in ((0, 0, 0), (1, 0, 0), (2, 0, 0), (2, 1, 0), (0, 2, 0), (0, 0, 1), (0, 0, 3), (1, 2, 0)):
            its = [tok("item%d" % i) for i in range(a)]; snd = [tok("sender%d" % i) for i in range(b)]; rcv = [tok("receiver%d" % i) for i in range(c)]
            L = lambda x, s: ("f", x, s, "link")
            q = {("f", SELF, S, "queue"): [L(x, "_DexChannelItem") for x in its], ("f", SELF, S, "sendq"): [L(x, "_DexChannelItem") for x in snd], ("f", SELF, S, "recvq"): [L(x, "_DexChannelReceiver") for x in rcv]}
            def dflt(ad, st):
                if ad[0] == "f" and ad[1] in its + snd: return {"future": tok("future-" + ad[1][1]), "send": (tok("send-" + ad[1][1]) if ad[1] in snd else NULL)}.get(ad[3])
                if ad[0] == "f" and ad[1] == SELF and ad[3] in ("flags", "capacity"): return {"flags": 3, "capacity": 2}[ad[3]]
                return None
            try: ps = case(P, f, {}, {}, args={0: SELF}, default=dflt, queues=Queues(q), K=8, locs=True)
            except Exception as x:
                ctx.need(False, "dex_channel: %s" % x); break
            n += len(ps)
            own = {}
            for x in its + snd: own[tok("future-" + x[1])] = ("queued future", U); own[x] = ("queued item", FREE)
            for x in snd: own[tok("send-" + x[1])] = ("waiting sender", U)
            for x in rcv: own[x] = ("waiting receiver", U)
            judge(ctx, P, "dex_channel", f, ps, own)
            for p in ps:
                for x in rcv: ctx.ob("content", "dex_channel: receiver told", len([e for e in pcalls(p, "dex_future_complete") if e.args[0] == x]) == 1, where(f), "a waiting receiver is never told")
                for x in snd: ctx.ob("content", "dex_channel: sender told", len([e for e in p.events if e.kind == "call" and e.name in ("dex_promise_reject", "dex_future_complete", "dex_promise_resolve") and e.args[0] == tok("send-" + x[1])]) == 1, where(f), "a waiting sender is never told")
    # semaphore: waiters
    f = P.funcs.get(fins.get("dex_semaphore")) if fins.get("dex_semaphore") else None
    if ctx.need(f, "semaphores have no finaliser"):
        seen.add(f.name); S = "_DexSemaphore"
        for k in (0, 1, 3):
            for fd in (-1, 5):
                w = [tok("waiter%d" % i) for i in range(k)]
                q = {("f", SELF, S, "waiters"): [("f", x, "_DexSemaphoreWaiter", "link") for x in w]}
                ps = case(P, f, {}, {}, args={0: SELF}, default=lambda a, st: fd if a[0] == "f" and a[1] == SELF and a[3] == "eventfd" else None, queues=Queues(q), K=8, locs=True); n += len(ps)
                judge(ctx, P, "dex_semaphore", f, ps, {x: ("waiter", U) for x in w})
                for p in ps:
                    cl = [e for e in pcalls(p, "close")]
                    if P.field(S, "eventfd"): ctx.ob("released", "dex_semaphore: descriptor", [num(e.args[0]) for e in cl] == ([5] if fd == 5 else []), where(f), "its descriptor is closed %d times" % len(cl))
                    for x in w: ctx.ob("content", "dex_semaphore: waiter told", len([e for e in pcalls(p, "dex_future_complete") if e.args[0] == x]) == 1, where(f), "a waiter is never told")
    return n

def contexts(ctx, P, seen):
    """what event sources hold"""
    n = 0; tabs = P.source_tables()
    for tn, t in sorted(tabs.items()):
        f = P.funcs.get(t[3]) if t[3] else None
        if "uring" in tn:
            ctx.ob("installed", tn, f is not None, "", "%s has no finaliser" % tn)
            if f is None: continue
            b = P.bitfields.get("_DexUringAioContext", {}); so = next((o for o, (w, nm) in b.items() if nm == "ring_initialized"), 0)
            for ring in (0, 1):
                for fd in (-1, 5):
                    def dflt(a, st):
                        if a[0] == "f" and root_of(a) == SELF:
                            if a[3] == "aio_backend": return tok("backend")
                            if a[3] == "eventfd": return fd
                            if a[3] == "ring_initialized": return ring
                            if str(a[3]).startswith("bits@"): return ring << (so - int(a[3][5:]) * 8)
                            if a[3] == "length": return 0
                        return None
                    ps = case(P, f, {}, {}, args={0: SELF}, default=dflt); n += len(ps)
                    judge(ctx, P, "io_uring context", f, ps, {tok("backend"): ("backend", U)}, chained=False)
                    for p in ps:
                        ctx.ob("released", "io_uring context: ring", len(pcalls(p, "io_uring_queue_exit")) == ring, where(f), "its ring is released %d times" % len(pcalls(p, "io_uring_queue_exit")))
                        ctx.ob("released", "io_uring context: descriptor", [num(e.args[0]) for e in pcalls(p, "close")] == ([5] if fd == 5 else []), where(f), "its descriptor is closed %d times" % len(pcalls(p, "close")))
                        ctx.ob("released", "io_uring context: mutex", len(pcalls(p, "g_mutex_clear")) == 1, where(f), "its lock is cleared %d times" % len(pcalls(p, "g_mutex_clear")))
        elif "posix" in tn:
            ctx.ob("installed", tn, f is not None, "", "%s has no finaliser" % tn)
            if f is None: continue
            ps = case(P, f, {}, {}, args={0: SELF}, default=lambda a, st: tok("backend") if a[0] == "f" and a[3] == "aio_backend" else 0 if a[0] == "f" and a[3] == "length" else NULL if a[0] == "f" and a[3] in ("head", "tail") else None); n += len(ps)
            judge(ctx, P, "posix I/O context", f, ps, {tok("backend"): ("backend", U)}, chained=False)
            for p in ps: ctx.ob("released", "posix I/O context: mutex", len(pcalls(p, "g_mutex_clear")) == 1, where(f), "its lock is cleared %d times" % len(pcalls(p, "g_mutex_clear")))
        elif "fiber" in tn or "dex_fiber_scheduler_new" in tn:
            ctx.ob("installed", tn, f is not None, "", "%s has no finaliser" % tn)
            if f is None: continue
            for pool in (tok("pool"), NULL):
                ps = case(P, f, {}, {}, args={0: SELF}, default=lambda a, st: pool if a[0] == "f" and a[3] == "stack_pool" else 0 if a[0] == "f" and (a[3] in ("length", "has_initialized") or str(a[3]).startswith("bits@")) else None); n += len(ps)
                judge(ctx, P, "fiber scheduler", f, ps, {tok("pool"): ("stack pool", ("dex_stack_pool_free",))} if pool != NULL else {}, chained=False)
                for p in ps: ctx.ob("released", "fiber scheduler: mutex", len(pcalls(p, "g_mutex_clear")) == 1, where(f), "its lock is cleared %d times" % len(pcalls(p, "g_mutex_clear")))
        elif "work_stealing_queue" in tn:
            ctx.ob("installed", tn, f is not None, "", "%s has no finaliser" % tn)
            if f is None: continue
            for q in (tok("queue"), NULL):
                ps = case(P, f, {}, {}, args={0: SELF}, default=lambda a, st: q if a[0] == "f" and a[3] == "work_stealing_queue" else None); n += len(ps)
                judge(ctx, P, "work-stealing source", f, ps, {tok("queue"): ("queue", ("dex_work_stealing_queue_unref",))} if q != NULL else {}, chained=False)
    return n

def helpers(ctx, P):
    """objects with functions of their own to free them"""
    n = 0
    f = P.funcs.get("dex_work_stealing_queue_unref")
    if f is not None:
        for last in (1, 0):
            ps = case(P, f, {(SELF, "array"): tok("ring"), (SELF, "garbage"): tok("garbage")}, {"g_atomic_ref_count_dec": last}, args={0: SELF}); n += len(ps)
            judge(ctx, P, "work-stealing queue", f, ps, {tok("ring"): ("ring", ("g_aligned_free", "g_free")), tok("garbage"): ("garbage", ("g_ptr_array_unref", "g_ptr_array_free")), SELF: ("memory", ("g_aligned_free", "g_free"))} if last else {}, chained=False)
            if not last:
                for p in ps: ctx.ob("released", "work-stealing queue: shared", not any(rels(p, x) for x in (tok("ring"), tok("garbage"), SELF)), where(f), "is released while others hold it")
    f = P.funcs.get("dex_fd_free")
    if f is not None:
        for fd in (-1, 0, 7):
            ps = case(P, f, {}, {"dex_fd_steal": fd}, args={0: SELF}, default=lambda a, st: fd if root_of(a) == SELF else None); n += len(ps)
            judge(ctx, P, "DexFD", f, ps, {SELF: ("memory", FREE)}, chained=False)
            for p in ps: ctx.ob("released", "DexFD: descriptor", [num(e.args[0]) for e in pcalls(p, "close")] == ([fd] if fd != -1 else []), where(f), "descriptor %d is closed %d times" % (fd, len(pcalls(p, "close"))))
    f = P.funcs.get("dex_stack_pool_free")
    if f is not None:
        for k in (0, 1, 3):
            sts = [tok("stack%d" % i) for i in range(k)]
            ps = case(P, f, {}, {}, args={0: SELF}, queues=Queues({("f", SELF, "_DexStackPool", "stacks"): [("f", x, "_DexStack", "link") for x in sts]}), default=lambda a, st: tok("base-" + a[1][1]) if a[0] == "f" and a[1] in sts and a[3] == "base" else a[1] if a[0] == "f" and a[3] == "data" else NULL if a[0] == "f" and a[3] in ("prev", "next") else None, K=8); n += len(ps)
            ctx.ob("released", "stack pool (handled)", ps, where(f), "no path")
            for p in ps:
                for x in sts:
                    fr = [e for e in pcalls(p, "dex_stack_free") if e.args[0] == x]; mu = [e for e in pcalls(p, "munmap") if e.args[0] == tok("base-" + x[1])]
                    ctx.ob("content", "stack pool: stack", len(fr) == 1 or len(mu) == 1 and len(rels(p, x)) == 1, where(f), "a pooled stack is released %d times" % len(fr))
                ctx.ob("released", "stack pool: mutex", len(pcalls(p, "g_mutex_clear")) == 1, where(f), "its lock is cleared %d times" % len(pcalls(p, "g_mutex_clear")))
                ctx.ob("released", "stack pool: memory", len(rels(p, SELF)) == 1, where(f), "its memory is released %d times" % len(rels(p, SELF)))
    f = next((P.funcs[x] for x in P.funcs if x.startswith("dex_thread_pool_worker_set_finalize")), None)
    return n
