"""P34: event-loop sources are prepared, checked, dispatched and removed consistently"""
from spec import *
from rules.sched import *
from rules import fiber, aio, wsq
from lib import roots

NEW = ("g_source_new", "g_idle_source_new", "g_timeout_source_new", "g_timeout_source_new_seconds", "g_unix_signal_source_new", "g_child_watch_source_new", "g_cancellable_source_new", "g_unix_fd_source_new")

def run(ctx):
    P = ctx.P; n = 0
    ctx.rule("ready", "prepare and check report ready when a queue that dispatch drains has something in it, looked at under its lock, and not when all are empty; prepare asks for no time limit")
    ctx.rule("dispatches", "what makes a source ready is taken care of by its dispatch, which keeps the source installed")
    ctx.rule("attach", "a source that is created is handed to the caller or attached exactly once, after its callback is set, and the creator then keeps its reference in the owner or drops it exactly once")
    ctx.rule("destroy", "the owner of attached sources destroys each of them once before dropping its reference")
    ctx.rule("oneshot", "the function of an idle source removes it")
    tabs = P.source_tables(); seen = set()
    # --- readiness
    def ready(name, tab, mem, ld, queues, src, want, what, lock=None, calls=None, qterms=()):
        nonlocal n
        seen.add(tab)
        for k, role in ((0, "prepare"), (1, "check")):
            f = P.funcs.get(tabs[tab][k]) if tabs[tab][k] else None
            if not ctx.need(f, "%s has no %s" % (tab, role)): continue
            ps = case(P, f, mem, calls or {}, queues=queues() if queues else None, args={0: src}, default=ld, K=8, loads=("length", "head", "tail")); n += len(ps)
            ctx.ob("ready", "%s %s, %s (handled)" % (name, role, what), ps, where(f), "no path")
            for p in ps:
                got = ev(p.ret, lambda t: None)
                ctx.ob("ready", "%s %s, %s" % (name, role, what), got is not None and bool(got) == want, where(f), "%s with %s" % ("says there is nothing to do" if got == 0 else "says it is ready" if got is not None else "answers %s" % show(p.ret), what))
                if lock is not None:
                    for i, e in enumerate(p.events):
                        if e.kind == "load" and any(root_of(canon(e.args[0])) == root_of(canon(q)) and e.args[0][0] == "f" and canon(e.args[0][1]) == canon(q) for q in qterms): ctx.ob("ready", "%s %s: locked" % (name, role), lock in held_at(p, i), where(f, e), "the queue is looked at without its lock")
                if k == 0:
                    for e in p.events:
                        if e.kind == "store" and e.args[0] == A1: ctx.ob("ready", "%s prepare: time limit" % name, ev(e.args[1], lambda t: None) == -1, where(f, e), "asks to be woken after %s ms" % show(e.args[1]))
    # main scheduler: the queue its push fills
    f0, ps0, nm = main_setup(P); MS = nm["MS"]
    push = P.funcs.get(P.vtables().get(("_DexSchedulerClass", "push"), {}).get("dex_main_scheduler"))
    if ctx.need(push, "the main scheduler has no push handler") and ctx.need(ps0, "the main scheduler cannot be created"):
        base = {(MS, k): v for k, v in stored(ps0[0], MS).items()}
        FN, DT = tok("func"), tok("data"); it = None
        for p in case(P, push, {**base, (nm["TLS"], "scheduler"): MS}, {"dex_thread_storage_get": nm["TLS"]}, args={0: MS, 1: FN, 2: DT}):
            it = it or item_push(P, p, FN, DT)
        if ctx.need(it, "the main scheduler does not queue items"):
            Q = it[0].term; I = Items(P, it)
            ctx.ob("ready", "main scheduler's source", nm["src"], where(f0), "the main scheduler has no source for its items")
            for tn, src in sorted(nm["src"].items()):
                if not ctx.need(tn in tabs, "source %s is not known" % tn): continue
                mem = {**base, **{(src, a): b for a, b in stored(ps0[0], src).items()}}
                for cnt in (0, 1, 2, 5):
                    items = [I.make(str(i)) for i in range(cnt)]
                    ready("main work queue", tn, mem, I.ld, lambda: Queues({Q: [I.l(x) for x in items]}, data=I.element), src, cnt > 0, "%d items" % cnt, objlock(MS), qterms=(Q,))
    # fibers: the queue that registering a fiber fills, and whatever other queues there are
    S = tok("fibers"); F = tok("fiber"); reg = P.fn("dex_fiber_scheduler_register"); fq = None
    for p in case(P, reg, {}, {"dex_thread_storage_get": tok("tls")}, args={0: S, 1: F}, default=lambda a, st: F if a == ("f", fiber.link(F), "_GList", "data") else 0 if fiber.isflags(a) or a[0] == "f" and a[1] == F and a[3] in fiber.flagname(P) else NULL if a == ("f", F, fiber.FB, "fiber_scheduler") else None):
        for o in qops(p):
            if o.op.startswith("push"): fq = o.term
    ft = [t for t in tabs if "fiber" in t]
    if ctx.need(fq, "registering a fiber queues nothing") and ctx.need(len(ft) == 1, "no fiber source"):
        allq = [("f", S, fiber.FS, x["n"]) for x in P.structs[fiber.FS]["f"] if x["t"] in ("GQueue", "struct _GQueue")]
        for cnt in (0, 1, 3):
            for other in (0, 2):
                qi = {q: [fiber.link(tok("%s-%d" % (q[3], i))) for i in range(cnt if canon(q) == canon(fq) else other)] for q in allq}
                ready("fibers", ft[0], {}, None, lambda: Queues(qi), S, cnt > 0, "%d runnable and %d other fibers" % (cnt, other), fiber.schedlock(S), qterms=(fq,))
    # posix completions
    nm2, tab = aio.contexts(P, False)
    if ctx.need(tab, "no posix I/O source"):
        Q = ("f", aio.CTX, "_DexPosixAioContext", "completed")
        from rules.p25 import worker, posix_run
        h = [g for t, g in aio.handlers(P, "read").items() if not aio.is_uring(t)]
        w = [aio.words(P, p, aio.FUT) for p in aio.submit(P, h[0], False)] if h else []
        if w and worker(P):
            for p in posix_run(P, worker(P), w[0], 1, 0):
                for o in qops(p):
                    if o.op.startswith("push"): Q = o.term
        for cnt in (0, 1, 3):
            ready("posix I/O", nm2, {}, None, lambda: Queues({Q: [tok("request%d" % i) for i in range(cnt)]}, data=lambda l: l), aio.CTX, cnt > 0, "%d completions" % cnt, ("f", aio.CTX, "_DexPosixAioContext", "mutex"), qterms=(Q,))
    # io_uring completions
    nm3, tab = aio.contexts(P, True)
    if tab is not None:
        for cnt in (0, 1, 3):
            ready("io_uring", nm3, {}, None, lambda: Queues({("f", aio.CTX, "_DexUringAioContext", "queued"): []}), aio.CTX, cnt > 0, "%d completions" % cnt, calls={"io_uring_cq_ready": cnt, "io_uring_sq_ready": 0, "io_uring_peek_cqe": 0 if cnt else -11})
    # the workers' own items
    own, steal = wsq.sources(P)
    on = [k for k, v in tabs.items() if v == own]
    if ctx.need(on, "no source for the workers' items"):
        RQ = tok("wq")
        for t, k in ((0, 0), (0, 1), (3, 0), (3, 1), (5, 7), (9, 0)):
            r = wsq.Ring(RQ, t, t + k, 8)
            def ld(a, st, r=r):
                if a[0] == "f" and a[1] == A0: return {"work_stealing_queue": RQ, "batch_size": 8}.get(a[3])
                return r.ld(a, st)
            ready("worker's items", on[0], {}, ld, None, A0, k > 0, "%d items" % k, calls=r.calls())
    # stealing cannot be announced: the source looks after every poll
    sn = [k for k, v in tabs.items() if v == steal]
    if ctx.need(sn, "no source for stealing"):
        seen.add(sn[0]); c = P.funcs.get(steal[1])
        if ctx.need(c, "the stealing source has no check"):
            for p in case(P, c, {}, {}):
                n += 1; ctx.ob("ready", "stealing", ev(p.ret, lambda t: None) not in (0, None), where(c), "the neighbours are not always looked at")
        pr = P.funcs.get(steal[0]) if steal[0] else None
        if pr is not None:
            for p in case(P, pr, {}, {}): n += 1; ctx.ob("ready", "stealing: prepare", ev(p.ret, lambda t: None) == 0, where(pr), "never lets the thread sleep")
    for k in sorted(tabs):
        ctx.ob("ready", "known source " + k, k in seen or tabs[k][2] is None, "", "nothing is known about the source %s" % k)
    # --- dispatch keeps the source
    for k in sorted(tabs):
        d = P.funcs.get(tabs[k][2]) if tabs[k][2] else None
        if not ctx.need(d, "%s has no dispatch" % k): continue
        rets = constant_returns(P, d)
        ctx.ob("dispatches", k, rets and all(x not in (0, None) for x in rets), where(d), "may remove the source")
    # --- attach
    n += attach(ctx, P)
    # --- destroy: main scheduler
    fin = P.funcs.get(P.vtables().get(("_DexObjectClass", "finalize"), {}).get("dex_main_scheduler"))
    if ctx.need(fin, "the main scheduler has no finaliser") and ps0:
        base = {(MS, k): v for k, v in stored(ps0[0], MS).items()}
        for p0 in ps0:
            at = [(e.args[0], e.args[1]) for e in pcalls(p0, "g_source_attach")]
            srcs = [x for x, c in at]
            ctx.ob("attach", "main scheduler: context", all(c == nm["MC"] for x, c in at), where(f0), "a source is attached to another context")
            ctx.ob("attach", "main scheduler: all", set(srcs) == set(nm["src"].values()) | {nm["AIO"], nm["FS"]} and len(srcs) == len(set(srcs)), where(f0), "attaches %s" % [show(x) for x in srcs])
            for p in case(P, fin, base, {}, args={0: MS}, queues=Queues({it[0].term: []}) if it else None):
                n += 1
                for x in sorted(set(srcs)):
                    de = [pos(p, e) for e in pcalls(p, "g_source_destroy") if e.args[0] == x]; un = [pos(p, e) for e in pcalls(p, "g_source_unref") if e.args[0] == x]
                    ctx.ob("destroy", "main scheduler: " + x[1], len(de) >= 1 and len(un) == 1 and max(de) < un[0], where(fin), "%s is destroyed %d times and released %d times" % (x[1], len(de), len(un)))
    n += worker_sources(ctx, P)
    ctx.count("abstract_paths", n); ctx.count("sources", len(tabs))

def constant_returns(P, f):
    """the constants a function can return (None for anything else)"""
    out = set()
    def val(o, depth=0):
        if o[0] == "c": return {o[1]}
        if o[0] == "i" and depth < 6:
            i = f.insts[o[1]]
            if i.op == "phi": return set().union(*[val(v, depth + 1) for _, v in i.raw["phi"]])
            if i.op == "select": return val(i.a[1], depth + 1) | val(i.a[2], depth + 1)
            if i.op in ("zext", "sext", "trunc"): return val(i.a[0], depth + 1)
        return {None}
    for b in f.blocks:
        for i in b:
            if i.op == "ret" and i.a: out |= val(i.a[0])
    return out

def attach(ctx, P):
    n = 0; made = set(NEW) | {"*_DexAioBackendClass.create_context", "dex_aio_backend_create_context"}
    fs = [f for f in roots(P)]
    done = {}
    for _ in range(3):
        again = False
        for f in fs:
            cs = {c for c in f.callees0 if c in made} | ({"*_DexAioBackendClass.create_context"} if f.base == "dex_aio_backend_create_context" else set())
            if not cs or done.get(f) == cs: continue
            done[f] = cs
            def new(ar, st):
                k = sum(1 for e in st.trace if e.kind == "call" and e.res is not None and e.res[0] == "tok" and e.res[1].startswith("src"))
                return tok("src%d" % k)
            calls = {c: new for c in made}
            calls["g_main_loop_run"] = 0; calls["g_main_context_pending"] = 0
            try: ps = case(P, f, {}, calls, K=2)
            except Exception as x:
                ctx.need(False, "%s: %s" % (f.base, x)); continue
            n += len(ps)
            ctx.ob("attach", f.base + " (handled)", ps, where(f), "no path")
            for p in ps:
                srcs = [e.res for e in p.events if e.kind == "call" and e.res is not None and e.res[0] == "tok" and e.res[1].startswith("src")]
                for s in srcs:
                    # only the function that gives a source a life of its own is judged: a token that was checked to be NULL is not one
                    if any(k == s and v is False for k, v in getattr(p, "facts", {}).items()): continue
                    at = [e for e in pcalls(p, "g_source_attach") if e.args[0] == s]; un = [e for e in pcalls(p, "g_source_unref", "g_source_destroy") if e.args[0] == s and e.name == "g_source_unref"]
                    kept = [e for e in p.events if e.kind == "store" and e.args[1] == s and root_of(e.args[0])[0] != "alloca" and not (root_of(e.args[0])[0] == "tok" and root_of(e.args[0]) in srcs) and root_of(e.args[0]) != ("call", "dex_thread_storage_get")]
                    kept = [e for e in kept if not (root_of(e.args[0])[0] == "call" and root_of(e.args[0])[1] == "dex_thread_storage_get")]
                    rf = [e for e in pcalls(p, "g_source_ref") if e.args[0] == s]
                    back = p.ret == s
                    if back:
                        ctx.ob("attach", f.base + ": handed out", not at and not un, where(f), "a source it returns is attached or released by it")
                        if f.base not in made: made.add(f.base); again = True
                    elif not at:
                        ctx.ob("attach", f.base + ": dropped", un and not kept, where(f), "a source is created and never attached")
                    else:
                        ctx.ob("attach", f.base + ": once", len(at) == 1, where(f, at[-1]), "a source is attached %d times" % len(at))
                        # the field it is kept in must still hold it in the end
                        ctx.ob("attach", f.base + ": reference", (1 if kept else 0) + len(un) - len(rf) == 1, where(f), "the creator keeps %d and drops %d references" % (len(kept), len(un)))
                        cbk = [e for e in pcalls(p, "g_source_set_callback", "g_source_set_callback_indirect") if e.args[0] == s]
                        mk = [e for e in p.events if e.kind == "call" and e.res == s]
                        if mk and mk[0].name in ("g_idle_source_new",) or (mk and mk[0].name.startswith(("g_timeout", "g_unix"))): ctx.ob("attach", f.base + ": callback", len(cbk) == 1 and pos(p, cbk[0]) < pos(p, at[0]), where(f, at[0]), "is attached before its callback is set")
                        if mk and mk[0].name == "g_idle_source_new" and cbk and cbk[0].args[1][0] == "g":
                            g = P.funcs.get(cbk[0].args[1][1])
                            if g is not None: ctx.ob("oneshot", g.base, constant_returns(P, g) == {0}, where(g), "the source's function runs again and again")
        if not again: break
    ctx.count("source creators", len(done))
    return n

def worker_thread(P):
    """the function a worker's thread runs, and the function starting it"""
    for fn in roots(P):
        for b in fn.blocks:
            for i in b:
                if i.op == "call" and i.f[0] == "g" and i.f[1] in ("g_thread_new", "g_thread_try_new") and i.a[1][0] == "g" and wsq.touches_field(P, fn, "_DexThreadPoolWorker", ("thread",)): return P.funcs.get(i.a[1][1]), fn
    return None, None

def worker_sources(ctx, P):
    f, _ = worker_thread(P); W, MC = tok("worker"), tok("worker-context")
    if not ctx.need(f, "no worker thread"): return 0
    n = 0; names = ["aio", "local", "set", "fibers"]
    def new(nm): return lambda ar, st: tok("src-" + nm)
    def dflt(a, st):
        if a[0] == "f" and a[1] == W: return {"main_context": MC, "main_loop": tok("loop"), "set": tok("set"), "work_stealing_queue": tok("wq"), "global_work_queue": tok("gwq")}.get(a[3])
        if a[0] == "f" and a[3] in ("prev", "next"): return NULL
        return None
    calls = {"dex_aio_backend_create_context": tok("src-aio"), "dex_work_stealing_queue_create_source": tok("src-local"), "g_source_new": tok("src-set"), "dex_fiber_scheduler_new": tok("src-fibers"), "dex_thread_storage_get": tok("tls"),
             "g_main_context_pending": lambda ar, st: 0 if any(e.kind == "call" and e.name == "g_main_context_iteration" for e in st.trace) else 1, "dex_work_queue_run": tok("loop-future"), "g_type_check_instance_is_a": 1}
    ps = case(P, f, {}, calls, args={0: W}, default=dflt, K=4); n += len(ps)
    ctx.ob("destroy", "worker (handled)", ps, where(f), "no path")
    for p in ps:
        at = [(e.args[0], e.args[1]) for e in pcalls(p, "g_source_attach")]
        ctx.ob("attach", "worker: sources", len(at) == 4 and len({x for x, c in at}) == 4, where(f), "attaches %s" % [show(x) for x, c in at])
        ctx.ob("attach", "worker: context", all(c == MC for x, c in at), where(f), "a source is attached to another context")
        for x, _ in at:
            de = [e for e in pcalls(p, "g_source_destroy") if e.args[0] == x]
            ctx.ob("destroy", "worker: " + x[1], len(de) == 1, where(f), "%s is destroyed %d times when the worker stops" % (x[1], len(de)))
            run_ = pcalls(p, "g_main_loop_run")
            for e in de: ctx.ob("destroy", "worker: " + x[1], run_ and pos(p, e) > pos(p, run_[-1]), where(f, e), "%s is destroyed before the worker stopped" % x[1])
    return n
