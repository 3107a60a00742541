"""P33: worker threads start fully initialised and stop before their state is freed"""
from spec import *
from rules.sched import *
from rules import wsq
from rules.p34 import worker_thread

W, MC, ML, WQ, SET, GWQ, TH = (tok(x) for x in ("worker", "worker-context", "worker-loop", "worker-queue", "worker-set", "global-queue", "thread"))
SW = "_DexThreadPoolWorker"

def fld(n): return ("f", W, SW, n)

def states(P):
    v = {k: P.enumval.get("DEX_THREAD_POOL_WORKER_" + k) for k in ("INITIAL", "RUNNING", "STOPPING", "FINISHED")}
    return v

def run(ctx):
    P = ctx.P; n = 0
    ctx.rule("before", "everything the worker's thread uses is in place before the thread is started")
    ctx.rule("wait", "the creator holds the set-up lock from before it starts the thread, waits for as long as the worker is in its initial state, and returns the worker exactly if it runs")
    ctx.rule("publish", "the thread announces itself, under the set-up lock, only once it has attached its sources, recorded itself as the thread's scheduler and joined the set of workers; if it cannot run it says so and has done none of it")
    ctx.rule("set", "the worker joins the set once and leaves it once, as a writer, after its loop has ended and before its thread does; neighbours' queues are only looked at by a reader of the set")
    ctx.rule("stop", "finalising wakes the thread in its own context to end its loop and joins it before anything the thread uses is released")
    ctx.rule("end", "at its end the thread restores its thread-default context and clears what it recorded for the thread")
    ctx.rule("pool", "a pool keeps exactly the workers that started")
    thr, cre = worker_thread(P); S = states(P)
    if not ctx.need(thr and cre and all(v is not None for v in S.values()), "no worker thread"): return
    stat = status_of(P)
    # --- the creator: the worker stays in its initial state for `waits` waits and then is in `to`
    for waits in (0, 1, 2, 3):
        for to in ("RUNNING", "FINISHED"):
            def ld(a, st):
                if is_status(P, a): return stat(S["INITIAL"] if sum(1 for e in st.trace if e.kind == "call" and e.name == "g_cond_wait") < waits else S[to])
                return None
            calls = {"dex_object_create_instance": W, "g_main_context_new": MC, "g_main_loop_new": ML, "dex_work_stealing_queue_new": WQ, "dex_thread_pool_worker_set_ref": SET, "g_thread_new": TH}
            ps = case(P, cre, {}, calls, args={0: GWQ, 1: SET}, K=8, default=ld, first=lambda a, st: ld(a, st) if is_status(P, a) and any(e.kind == "call" and e.name == "g_thread_new" for e in st.trace) else None); n += len(ps)
            ctx.ob("wait", "start (handled)", ps, where(cre), "no path where the worker is %s after %d waits" % (to.lower(), waits))
            for p in ps:
                tn = pcalls(p, "g_thread_new", "g_thread_try_new")
                ctx.ob("before", "one thread", len(tn) == 1, where(cre), "starts %d threads" % len(tn))
                if len(tn) != 1: continue
                i = pos(p, tn[0])
                ctx.ob("before", "its worker", tn[0].args[2] == W, where(cre, tn[0]), "the thread is not given the worker")
                have = {}
                for e in p.events[:i]:
                    if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == W: have[e.args[0][3]] = e.args[1]
                for fd, v in (("main_context", MC), ("main_loop", ML), ("work_stealing_queue", WQ)):
                    ctx.ob("before", fd, have.get(fd) == v, where(cre, tn[0]), "the thread is started before %s is set" % fd)
                ctx.ob("before", "set", have.get("set") == SET and len([e for e in pcalls(p, "dex_thread_pool_worker_set_ref") if e.args[0] == SET]) == 1, where(cre, tn[0]), "the thread is started before the worker holds the set of workers")
                ctx.ob("before", "global queue", have.get("global_work_queue") in (GWQ, ("call", "dex_ref")) or nref(p, GWQ) == 1 and "global_work_queue" in have, where(cre, tn[0]), "the thread is started before the worker holds the pool's queue")
                ctx.ob("before", "loop on context", all(e.args[0] == MC for e in pcalls(p, "g_main_loop_new")), where(cre), "the loop is not that of the worker's context")
                th = [e for e in p.events[i:] if e.kind == "store" and e.args[0] == fld("thread")]
                ctx.ob("before", "thread", len(th) == 1 and th[0].args[1] == TH and lock() in held_at(p, pos(p, th[0])), where(cre, tn[0]), "which thread is the worker's is not recorded under the set-up lock")
                ctx.ob("wait", "locked", lock() in held_at(p, i), where(cre, tn[0]), "the set-up lock is not held when the thread is started")
                cw = pcalls(p, "g_cond_wait")
                # the worker cannot report before the lock it needs is given up by waiting
                ctx.ob("wait", "as long as it takes", len(cw) == waits or waits == 0 and len(cw) == 1 and lock() in held_at(p, i), where(cre), "waits %d times although the worker leaves its initial state after %d" % (len(cw), waits))
                for e in cw: ctx.ob("wait", "condition", e.args[0] == fld("setup_cond") and e.args[1] == fld("setup_mutex"), where(cre, e), "waits for something else")
                rel = [e for e in pcalls(p, "g_mutex_unlock") if e.args[0] == fld("setup_mutex") and pos(p, e) > i]
                for e in p.events:
                    if e.kind == "load" and is_status(P, e.args[0]) and pos(p, e) > i: ctx.ob("wait", "locked status", lock() in held_at(p, pos(p, e)), where(cre, e), "the worker's state is looked at without the set-up lock")
                un = nrel(p, W)
                if to == "RUNNING":
                    ctx.ob("wait", "running", p.ret == W and un == 0, where(cre), "a running worker is not returned" if p.ret != W else "a running worker is released")
                else:
                    ctx.ob("wait", "failed", is0(p.ret), where(cre), "returns a worker whose thread has ended")
                    ctx.ob("wait", "failed: released", un == 1, where(cre), "a worker whose thread has ended is released %d times" % un)
                    for e in p.events:
                        if e.kind == "call" and e.name == "dex_unref" and e.args[0] == W: ctx.ob("wait", "failed: lock", lock() not in held_at(p, pos(p, e)), where(cre, e), "the worker is freed with its own lock held")
    # --- the thread
    n += thread(ctx, P, thr, S, stat)
    n += stealing(ctx, P)
    n += finaliser(ctx, P, S, stat)
    n += pool(ctx, P)
    ctx.count("abstract_paths", n)

def lock(): return fld("setup_mutex")

def is_status(P, a):
    if a[0] != "f" or a[1] != W: return False
    return a[3] == "status" or a[2] == SW and str(a[3]).startswith("bits@")

def shift(P):
    b = P.bitfields.get(SW, {}); off = next((o for o, (w, nm) in b.items() if nm == "status"), None)
    return 0 if off is None else off - off // 8 * 8

def status_of(P):
    """a status as the value of the storage it is in"""
    return lambda v: v << shift(P)

def status_stores(P, p):
    out = []; sh = shift(P)
    for i, e in enumerate(p.events):
        if e.kind == "store" and is_status(P, e.args[0]):
            v = num(e.args[1])
            out.append((i, None if v is None else (v >> sh) & 3, e))
    return out

def thread(ctx, P, thr, S, stat):
    n = 0
    AIO, TLS = tok("aio-source"), tok("tls")
    def dflt(a, st):
        if is_status(P, a): return stat(S["INITIAL"])
        if a[0] == "f" and a[1] == W: return {"main_context": MC, "main_loop": ML, "set": SET, "work_stealing_queue": WQ, "global_work_queue": GWQ, "thread": TH}.get(a[3])
        if a[0] == "f" and a[3] in ("prev", "next"): return NULL
        return None
    for ok in (True, False):
        for pend in (0, 2):
            calls = {"dex_aio_backend_create_context": AIO if ok else NULL, "*_DexAioBackendClass.create_context": AIO if ok else NULL, "dex_work_stealing_queue_create_source": tok("src-local"), "g_source_new": tok("src-set"), "dex_fiber_scheduler_new": tok("src-fibers"), "dex_thread_storage_get": TLS,
                     "g_main_context_pending": lambda ar, st: 0 if sum(1 for e in st.trace if e.kind == "call" and e.name == "g_main_context_iteration") >= pend else 1, "dex_work_queue_run": tok("loop-future"), "g_type_check_instance_is_a": 1}
            ps = case(P, thr, {}, calls, args={0: W}, default=dflt, K=6); n += len(ps)
            ctx.ob("publish", "thread (handled)", ps, where(thr), "no path")
            for p in ps:
                sg = [(pos(p, e), e) for e in pcalls(p, "g_cond_signal", "g_cond_broadcast") if e.args[0] == fld("setup_cond")]
                ss = status_stores(P, p)
                run_ = [pos(p, e) for e in pcalls(p, "g_main_loop_run")]
                ctx.ob("publish", "signal", len(sg) >= 1, where(thr), "never tells its creator %s" % ("that it is ready" if ok else "that it failed"))
                if not sg: continue
                i, se = sg[0]
                before = [v for j, v, e in ss if j < i]
                # the signal or the store has to be made under the lock: the store must be
                for j, v, e in ss:
                    if j <= i: ctx.ob("publish", "locked", lock() in held_at(p, j), where(thr, e), "the worker's state changes without the set-up lock")
                at = pcalls(p, "g_source_attach")
                if not ok:
                    ctx.ob("publish", "failed", before and before[-1] == S["FINISHED"], where(thr, se), "a thread that cannot run does not say so")
                    ctx.ob("publish", "failed: nothing done", not at and not run_ and not pcalls(p, "dex_work_queue_run") and not [o for o in qops(p) if root_of(o.term) == SET], where(thr), "a thread that cannot run starts working")
                    ctx.ob("publish", "failed: locks", not held_at(p, len(p.events)), where(thr), "ends with a lock held")
                    tl = {e.args[0][3]: e.args[1] for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == TLS}
                    ctx.ob("publish", "failed: thread", all(is0(v) for v in tl.values()), where(thr), "a thread that cannot run stays recorded as the thread's scheduler")
                    continue
                ctx.ob("publish", "running", before and before[-1] == S["RUNNING"], where(thr, se), "its creator is told before the worker counts as running")
                st = {e.args[0][3]: e.args[1] for e in p.events[:i] if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == W}
                ctx.ob("publish", "I/O context", st.get("aio_context") == AIO, where(thr, se), "its creator is told before the worker has its I/O context")
                ctx.ob("publish", "fibers", st.get("fiber_scheduler") == tok("src-fibers"), where(thr, se), "its creator is told before the worker can run fibers")
                for nm in ("src-local", "src-set", "src-fibers", "aio-source"):
                    ctx.ob("publish", nm, any(e.args[0] == tok(nm) and e.args[1] == MC and pos(p, e) < i for e in at), where(thr, se), "its creator is told before %s is attached" % nm)
                tl = {e.args[0][3]: e.args[1] for e in p.events[:i] if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == TLS}
                for k, v in (("scheduler", W), ("worker", W), ("aio_context", AIO)):
                    ctx.ob("publish", "thread's " + k, tl.get(k) == v, where(thr, se), "its creator is told before the thread knows its %s" % k)
                for e in p.events:
                    if e.kind == "load" and e.args[0][0] == "f" and e.args[0][1] == W and e.args[0][3] != "parent_instance" and pos(p, e) < i: ctx.ob("publish", "locked reads", lock() in held_at(p, pos(p, e)), where(thr, e), "reads the worker's %s before taking the set-up lock" % e.args[0][3])
                pu, po = pcalls(p, "g_main_context_push_thread_default"), pcalls(p, "g_main_context_pop_thread_default")
                ctx.ob("publish", "thread default", len(pu) == 1 and pu[0].args[0] == MC and pos(p, pu[0]) < i, where(thr, se), "its creator is told before the worker's context is the thread's default")
                ctx.ob("publish", "global queue", [e for e in pcalls(p, "dex_work_queue_run") if e.args[0] == GWQ and pos(p, e) < i], where(thr, se), "its creator is told before the worker takes items of the pool")
                # the loop
                ctx.ob("publish", "loop", len(run_) == 1 and run_[0] > i and pcalls(p, "g_main_loop_run")[0].args[0] == ML, where(thr), "does not run its loop once after it told its creator")
                if len(run_) != 1: continue
                r = run_[0]
                ctx.ob("publish", "loop unlocked", lock() not in held_at(p, r), where(thr), "runs its loop with the set-up lock held")
                # the set
                so = [o for o in qops(p) if root_of(o.term) == SET]
                add = [o for o in so if o.op.startswith(("push", "insert"))]; rem = [o for o in so if not o.op.startswith(("push", "insert", "peek"))]
                ctx.ob("set", "joins", len(add) == 1 and add[0].i < i and add[0].e.args[1:2] == (("f", W, SW, "set_link"),) or len(add) == 1 and add[0].i < i and root_of(add[0].e.args[1]) == W, where(thr), "is put into the set of workers %d times before its creator is told" % len(add))
                ctx.ob("set", "leaves", len(rem) == 1 and root_of(rem[0].e.args[1]) == W, where(thr), "is taken out of the set of workers %d times" % len(rem))
                for o in so: ctx.ob("set", "writer", ("f", SET, "_DexThreadPoolWorkerSet", "rwlock") in held_at(p, o.i) and lastlock(p, o.i) == "g_rw_lock_writer_lock", where(thr, o.e), "changes the set of workers without being its writer")
                for o in rem:
                    ctx.ob("set", "leaves after the loop", o.i > r, where(thr, o.e), "leaves the set of workers before its loop has ended")
                    sd = [pos(p, e) for e in pcalls(p, "g_source_destroy") if e.args[0] == tok("src-set")]
                    ctx.ob("set", "stops stealing first", sd and sd[0] < o.i, where(thr, o.e), "may still steal when it is no longer in the set")
                    for j, v, e in ss:
                        if v == S["FINISHED"]: ctx.ob("set", "leaves before it ends", o.i < j, where(thr, e), "counts as finished while it is still in the set of workers")
                it = pcalls(p, "g_main_context_iteration")
                ctx.ob("end", "drained", len(it) == pend and all(e.args[0] == MC and is0(e.args[1]) and pos(p, e) > r for e in it), where(thr), "leaves work behind in its context")
                lf = nrel(p, tok("loop-future"))
                ctx.ob("end", "loop future", lf == 1 and all(pos(p, e) > r for e in pcalls(p, "dex_unref") if e.args[0] == tok("loop-future")), where(thr), "the pool's items are not given up exactly once after the loop")
                ctx.ob("end", "finished", ss and ss[-1][1] == S["FINISHED"] and ss[-1][0] > r, where(thr), "does not end as finished")
                ctx.ob("end", "thread default", len(po) == 1 and po[0].args[0] == MC and pos(p, po[0]) > max([r] + [pos(p, e) for e in it]), where(thr), "does not restore its thread-default context after its last iteration")
                tl = {e.args[0][3]: e.args[1] for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == TLS}
                for k in ("scheduler", "worker", "aio_context"): ctx.ob("end", "thread's " + k, is0(tl.get(k)), where(thr), "leaves the thread's %s behind" % k)
                for e in p.events[r:]:
                    if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == TLS:
                        ctx.ob("end", "only then", pos(p, e) > max([r] + [pos(p, x) for x in it]), where(thr, e), "the thread's %s is gone while it still works" % e.args[0][3])
                ctx.ob("end", "keeps", nrel(p, W) == 0 and nrel(p, MC) == 0 and nrel(p, WQ) == 0, where(thr), "releases what the finaliser releases")
                ctx.ob("end", "locks", not held_at(p, len(p.events)), where(thr), "ends with a lock held")
    return n

def lastlock(p, i):
    for e in reversed(p.events[:i]):
        if e.kind == "call" and e.name.startswith("g_rw_lock"): return e.name

def stealing(ctx, P):
    """whoever looks at another worker's queue reads the set"""
    n = 0; own, steal = wsq.sources(P)
    if not ctx.need(steal, "no source for stealing"): return 0
    f = P.funcs.get(steal[2]); SRC, ME, O1, O2 = tok("source"), tok("me"), tok("w1"), tok("w2")
    if not ctx.need(f, "the stealing source has no dispatch"): return 0
    L = lambda w: ("f", w, SW, "set_link")
    ring = [O1, ME, O2]
    def dflt(a, st):
        if a[0] == "f" and a[1] == SRC: return {"set": SET, "thread_pool_worker": ME}.get(a[3])
        if a[0] == "f" and a[3] == "head" and root_of(a) == SET: return L(O1)
        if a[0] == "f" and a[3] in ("data", "next", "prev") and a[1][0] == "f" and a[1][3] == "set_link":
            w = a[1][1]; k = ring.index(w) if w in ring else None
            if k is None: return None
            if a[3] == "data": return w
            k += 1 if a[3] == "next" else -1
            return L(ring[k]) if 0 <= k < len(ring) else NULL
        if a[0] == "f" and a[3] == "work_stealing_queue": return tok("queue-" + a[1][1]) if a[1][0] == "tok" else None
        return None
    rw = ("f", SET, "_DexThreadPoolWorkerSet", "rwlock")
    for who in (None, O1, O2):
        rings = {w: wsq.Ring(tok("queue-" + w[1]), 5, 5 + (2 if w == who else 0), 8, name="-%s-" % w[1]) for w in ring}
        def ld(a, st):
            for r in rings.values():
                v = r.ld(a, st)
                if v is not None: return v
            return dflt(a, st)
        ps = case(P, f, {}, rings[ME].calls([rings[O1], rings[O2]]), args={0: SRC}, default=ld, K=6, loads=("top", "bottom", "array")); n += len(ps)
        ctx.ob("set", "stealing (handled)", ps, where(f), "no path")
        for p in ps:
            for i, e in enumerate(p.events):
                if e.kind in ("load", "cmpxchg", "rmw") and any(root_of(e.args[0]) == r.WQ for r in rings.values()): ctx.ob("set", "reader", rw in held_at(p, i), where(f, e), "another worker's queue is looked at without reading the set of workers")
            for i, what, ar in invocations(p): ctx.ob("set", "runs unlocked", rw not in held_at(p, i), where(f), "runs a stolen item with the set of workers locked")
            ctx.ob("set", "reader ends", not held_at(p, len(p.events)), where(f), "leaves the set of workers locked")
    return n

OWN = {"main_context": MC, "main_loop": ML, "work_stealing_queue": WQ, "global_work_queue": GWQ, "set": SET, "thread": TH, "set_source": tok("src-set"), "local_source": tok("src-local"), "fiber_scheduler": tok("src-fibers"), "aio_context": tok("aio-source")}

def finaliser(ctx, P, S, stat):
    n = 0
    fin = P.funcs.get(P.vtables().get(("_DexObjectClass", "finalize"), {}).get("dex_thread_pool_worker"))
    if not ctx.need(fin, "the workers have no finaliser"): return 0
    for state in ("FINISHED", "failed"):
        own = dict(OWN)
        if state == "failed": own.update({k: NULL for k in ("set_source", "local_source", "fiber_scheduler", "aio_context")})
        def dflt(a, st):
            if is_status(P, a): return stat(S["FINISHED" if state == "failed" else "RUNNING"])
            if a[0] == "f" and a[1] == W: return own.get(a[3])
            if a[0] == "f" and a[3] in ("prev", "next") and root_of(a) == W: return NULL
            return None
        IS = tok("stop-source")
        ps = case(P, fin, {}, {"g_idle_source_new": IS, "g_source_new": IS, "g_timeout_source_new": IS}, args={0: W}, default=dflt, K=4); n += len(ps)
        ctx.ob("stop", "finaliser (handled)", ps, where(fin), "no path")
        for p in ps:
            js = pcalls(p, "g_thread_join")
            ctx.ob("stop", "joins", len(js) == 1 and js[0].args[0] == TH, where(fin), "the thread is joined %d times" % len(js))
            if len(js) != 1: continue
            j = pos(p, js[0])
            at = [e for e in pcalls(p, "g_source_attach") if e.args[0] == IS]
            if at:
                ctx.ob("stop", "wakes it", all(e.args[1] == MC and pos(p, e) < j for e in at), where(fin, at[0]), "what stops the thread is not run in the thread")
                cb = [e for e in pcalls(p, "g_source_set_callback") if e.args[0] == IS]
                ctx.ob("stop", "its callback", len(cb) == 1 and cb[0].args[1][0] == "g" and cb[0].args[2] == W, where(fin), "the stop is not told which worker to stop")
                g = P.funcs.get(cb[0].args[1][1]) if len(cb) == 1 and cb[0].args[1][0] == "g" else None
                if ctx.need(g, "the stop has no function"): n += stopper(ctx, P, g, S, stat, own)
            else:
                qt = [e for e in pcalls(p, "g_main_context_invoke", "g_main_context_invoke_full", "g_main_loop_quit") if pos(p, e) < j]
                ctx.ob("stop", "stops it", qt, where(fin), "joins a thread it has not told to stop")
                for e in qt:
                    if e.name.startswith("g_main_context_invoke") and len(e.args) > 2 and any(x[0] == "g" for x in e.args):
                        g = P.funcs.get([x for x in e.args if x[0] == "g"][0][1])
                        if g is not None: n += stopper(ctx, P, g, S, stat, own)
            chain = [i for i, w, ar in invocations(p) if w.endswith("Class.finalize")]
            for k, v in own.items():
                if k == "thread" or is0(v): continue
                rel = [i for i, e in enumerate(p.events) if e.kind == "call" and len(e.args) and e.args[0] == v and (e.name.endswith(("_unref", "_release_full", "_release")) or e.name in ("dex_unref", "g_free", "dex_clear"))]
                ctx.ob("stop", "releases " + k, len(rel) == 1, where(fin), "the worker's %s is released %d times" % (k, len(rel)))
                for i in rel: ctx.ob("stop", "joined before " + k, i > j, where(fin, p.events[i]), "the worker's %s is released while its thread may still use it" % k)
            for e in pcalls(p, "g_mutex_clear", "g_cond_clear"): ctx.ob("stop", "joined before set-up lock", pos(p, e) > j, where(fin, e), "the set-up lock is destroyed while the thread may still use it")
            ctx.ob("stop", "chains up", len(chain) == 1 and chain[0] > j, where(fin), "does not run its parent's finaliser once at its end")
            ctx.ob("stop", "unlocked", not held_at(p, j), where(fin, js[0]), "joins the thread with a lock held")
    return n

def stopper(ctx, P, g, S, stat, own):
    n = 0
    def dflt(a, st):
        if is_status(P, a): return stat(S["RUNNING"])
        if a[0] == "f" and a[1] == W: return own.get(a[3])
        return None
    for left in (0, 1, 3):
        r = wsq.Ring(WQ, 4, 4 + left, 8)
        ps = case(P, g, {}, r.calls(), args={0: W}, default=lambda a, st: r.ld(a, st) if r.ld(a, st) is not None else dflt(a, st), K=8); n += len(ps)
        ctx.ob("stop", "stop (handled)", ps, where(g), "no path")
        for p in ps:
            q = [e for e in pcalls(p, "g_main_loop_quit") if e.args[0] == ML]
            ctx.ob("stop", "ends the loop", len(q) >= 1, where(g), "the worker's loop does not end")
            ss = status_stores(P, p)
            ctx.ob("stop", "state", ss and ss[-1][1] == S["STOPPING"], where(g), "the worker still counts as running when it stops")
            iv = [i for i, w, ar in invocations(p)]
            ctx.ob("stop", "flushes", len(iv) == left, where(g), "%d of %d items left in the worker's queue are run" % (len(iv), left))
            if ss and iv: ctx.ob("stop", "state first", ss[0][0] < iv[0], where(g), "items run while the worker still counts as running are pushed to a queue nobody looks at")
    return n

def pool(ctx, P):
    n = 0; f = P.fn("dex_thread_pool_scheduler_new")
    T = tok("pool"); ARR = tok("workers")
    for procs, fail in ((1, None), (2, None), (4, None), (8, None), (200, None), (8, 0), (8, 2)):
        def new(ar, st):
            k = sum(1 for e in st.trace if e.kind == "call" and e.name == "dex_thread_pool_worker_new")
            return NULL if fail is not None and k >= fail else tok("w%d" % k)
        ps = case(P, f, {}, {"dex_object_create_instance": T, "g_get_num_processors": procs, "dex_thread_pool_worker_new": new}, K=40, default=lambda a, st: {"workers": ARR, "global_work_queue": GWQ, "set": SET}.get(a[3]) if a[0] == "f" and a[1] == T else None); n += len(ps)
        ctx.ob("pool", "start (handled)", ps, where(f), "no path with %d processors" % procs)
        for p in ps:
            mk = pcalls(p, "dex_thread_pool_worker_new"); ad = [e for e in pcalls(p, "g_ptr_array_add") if e.args[0] == ARR]
            got = [e.res for e in mk if not is0(e.res)]
            ctx.ob("pool", "kept", [e.args[1] for e in ad] == got, where(f), "keeps %s of the workers %s" % ([show(e.args[1]) for e in ad], [show(x) for x in got]))
            for e in mk: ctx.ob("pool", "shared", e.args[1] == SET and e.args[0] == GWQ, where(f, e), "a worker does not share the pool's queue and set")
            ctx.ob("pool", "some", len(mk) >= 1, where(f), "starts no worker with %d processors" % procs)
            ctx.ob("pool", "returned", p.ret == T, where(f), "does not return the pool")
            for x in got: ctx.ob("pool", "released", nrel(p, x) == 0, where(f), "a worker it keeps is released")
    # the destructor of the array and the pool's finaliser
    ini = sorted({g for g, _ in writers(P, "_DexThreadPoolScheduler", "workers") if g.base in P.instance_inits() or g.base == f.base}, key=lambda g: g.base)
    if ctx.need(ini, "nothing creates the pool's list of workers"):
        for g in ini:
            for p in case(P, g, {}, {"dex_object_create_instance": T}, args={0: T} if g is not f else {}):
                n += 1
                for e in p.events:
                    if e.kind == "store" and e.args[0][0] == "f" and e.args[0][3] == "workers" and not is0(e.args[1]):
                        v = e.args[1]; ctx.ob("pool", "array", call_of(v, "g_ptr_array_new_with_free_func", "g_ptr_array_new_full") and v[2][-1] == ("g", "dex_unref"), where(g, e), "the pool's workers are not released with it")
    fin = P.funcs.get(P.vtables().get(("_DexObjectClass", "finalize"), {}).get("dex_thread_pool_scheduler"))
    if ctx.need(fin, "the pool has no finaliser"):
        for p in case(P, fin, {}, {}, args={0: T}, default=lambda a, st: {"workers": ARR, "global_work_queue": GWQ, "set": SET}.get(a[3]) if a[0] == "f" and a[1] == T else None):
            n += 1
            for nm, v in (("workers", ARR), ("queue", GWQ), ("set", SET)):
                rel = [i for i, e in enumerate(p.events) if e.kind == "call" and e.args and e.args[0] == v and (e.name.endswith(("_unref", "_free")) or e.name == "dex_unref")]
                ctx.ob("pool", "releases " + nm, len(rel) == 1, where(fin), "the pool's %s is released %d times" % (nm, len(rel)))
    return n
