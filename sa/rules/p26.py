"""P26: an in-flight I/O request stays alive and is completed once by its context"""
from spec import *
from rules.aio import *
from rules.p25 import worker, posix_run
import itertools

def run(ctx):
    P = ctx.P; n = 0
    ctx.rule("submit", "a submitted request is handed on exactly once and the backend takes exactly one reference to it, before another thread can complete it")
    ctx.rule("ring", "only the context's own thread touches the submission ring; requests from elsewhere, or when it is full or others wait, are queued under the lock and the context is woken")
    ctx.rule("prepare", "queued requests move to the ring in order, each to its own entry and only when there is one; none is lost, what was put on the ring is submitted")
    ctx.rule("worker", "the posix worker runs a request once and hands it, with its reference, to the context of that request under the lock, then wakes the context")
    ctx.rule("alive", "nothing of the request is used after the context may have completed and released it")
    ctx.rule("dispatch", "each completion is recorded before its entry is given back, given back once, completed once without a lock and released once afterwards")
    for slot in ("read", "write"):
        for t, f in sorted(handlers(P, slot).items()):
            if not ctx.need(f, "%s has no %s" % (t, slot)): continue
            uring = is_uring(t); nm = "io_uring" if uring else "posix"
            for here, waiting, room in itertools.product((True, False), (0, 1), (True, False)) if uring else ((True, 0, True),):
                ps = submit(P, f, uring, here=here, queue=[tok("earlier")] * waiting, sqe=room); n += len(ps)
                txt = "%s %s%s" % (nm, slot, "" if not uring else " by %s, %s waiting, %s" % ("its thread" if here else "another thread", "others" if waiting else "none", "room" if room else "full"))
                ctx.ob("submit", txt + " (handled)", ps, where(f), "no path")
                for p in ps:
                    # a request on the ring is its SQE's user data; a queued one is in the queue; a posix one in the pool
                    ring = [e for e in pcalls(p, "io_uring_sqe_set_data") if e.args == (SQE, FUT)] + [e for e in p.events if e.kind == "store" and root_of(e.args[0]) == SQE and e.args[1] == FUT]
                    qd = [o.e for o in qops(p) if o.op.startswith("push") and o.e.args[1] == FUT]; pool = [e for e in pcalls(p, "g_thread_pool_push") if e.args[1] == FUT]
                    ho = ring + qd + pool
                    ctx.ob("submit", txt + ": once", len(ho) == 1, where(f), "handed on %d times" % len(ho))
                    ctx.ob("submit", txt + ": reference", nref(p, FUT) == 1 and nrel(p, FUT) == 0 and p.ret == FUT, where(f), "the backend takes %d references" % (nref(p, FUT) - nrel(p, FUT)))
                    refs = [pos(p, e) for e in pcalls(p, "dex_ref", "g_object_ref") if e.args[0] == FUT]
                    for e in ho:
                        locked = ("f", CTX, "_DexUringAioContext", "mutex") in held_at(p, pos(p, e))
                        un = [i for i, x in enumerate(p.events) if x.kind == "call" and x.name in UNLOCKS and i > pos(p, e)]
                        ok = refs and (refs[0] < pos(p, e) or uring and locked and un and refs[0] < un[0])
                        ctx.ob("submit", txt + ": in time", ok, where(f, e), "another thread may complete the request before the backend has its reference")
                        if uring: ctx.ob("ring", txt + ": locked", locked, where(f, e), "the ring or queue is changed without the context's lock")
                    if not uring: continue
                    got = pcalls(p, "io_uring_get_sqe")
                    if not here: ctx.ob("ring", txt, not got and not ring and len(qd) == 1, where(f), "the ring is used from another thread")
                    if waiting: ctx.ob("ring", txt, not got and len(qd) == 1, where(f), "overtakes queued requests")
                    if not here:
                        wk = [e for e in pcalls(p, "g_main_context_wakeup") if e.args[0] == tok("its-main-context")]
                        ctx.ob("ring", txt + ": wakes", wk and qd and pos(p, wk[0]) > pos(p, qd[0]), where(f), "the context is not woken after the request was queued")
                    ok = all(not ring or 1 for e in got); used = len(got) if room else 0
                    ctx.ob("ring", txt + ": entry used", len(ring) == used, where(f), "%d entries are taken for %d requests" % (used, len(ring)))
                    if got and not room: ctx.ob("ring", txt + ": full", len(qd) == 1, where(f), "the request is lost when the ring is full")
    n += posix(ctx, P) + ring_prepare(ctx, P) + ring_dispatch(ctx, P)
    ctx.count("abstract_paths", n)

def posix(ctx, P):
    n = 0; wk = worker(P); nm, tab = contexts(P, False)
    d = P.funcs.get(tab[2]) if tab else None
    LOCK = ("f", CTX, "_DexPosixAioContext", "mutex"); Q = ("f", CTX, "_DexPosixAioContext", "completed")
    if not ctx.need(wk, "the posix backend has no worker") or not ctx.need(d, "the posix context has no dispatch"): return 0
    h = [f for t, f in handlers(P, "read").items() if not is_uring(t)]
    w = [words(P, p, FUT) for p in submit(P, h[0], False)] if h else []
    MCX = tok("its-main-context")
    if ctx.need(w, "no posix request"):
        ps = posix_run(P, wk, w[0], 5, 0); n += len(ps)
        ctx.ob("worker", "(handled)", ps, where(wk), "no path")
        for p in ps:
            qd = [o for o in qops(p) if o.op.startswith("push") and o.e.args[1] == FUT]
            ctx.ob("worker", "handed on", len(qd) == 1 and canon(qd[0].term) == canon(Q), where(wk), "queued %d times, or with another context" % len(qd))
            ctx.ob("worker", "reference", nref(p, FUT) == nrel(p, FUT), where(wk), "changes the number of references")
            io = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("pread", "pread64", "read")]
            wak = [e for e in pcalls(p, "g_main_context_wakeup") if e.args[0] == MCX]
            for o in qd:
                ctx.ob("worker", "locked", LOCK in held_at(p, o.i), where(wk, o.e), "queued without the context's lock")
                ctx.ob("worker", "runs first", io and max(io) < o.i and not [e for e in p.events[o.i:] if e.kind == "store" and root_of(e.args[0]) == FUT], where(wk, o.e), "queued before it was run")
                ctx.ob("worker", "not under the lock", not [i for i in io if held_at(p, i)], where(wk), "the transfer runs under the lock")
                ctx.ob("worker", "wakes", wak and pos(p, wak[0]) > o.i, where(wk), "the context is not woken after the request was queued")
                un = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name in UNLOCKS and i > o.i]
                end = un[0] if un else len(p.events)
                bad = [e for e in p.events[end + 1:] if e.kind == "load" and root_of(e.args[0]) == FUT or e.kind == "call" and FUT in e.args]
                ctx.ob("alive", "request", not bad, where(wk, bad[0]) if bad else "", "uses the request after another thread may have completed it")
                # what the request kept alive must be kept alive by the worker itself
                for x in wak:
                    if pos(p, x) < end: continue
                    rf = [e for e in pcalls(p, "g_main_context_ref") if e.args[0] == MCX and pos(p, e) < end]
                    ur = [e for e in pcalls(p, "g_main_context_unref") if e.args[0] == MCX]
                    ctx.ob("alive", "main context", rf and len(rf) == len(ur) and all(pos(p, e) > pos(p, x) for e in ur), where(wk, x), "the main context is only kept alive by the request, which another thread may release")
        # dispatch
        S = "_DexPosixAioContext"
        for cnt in list(range(5)) + sizes(P, d, depth=1):
            for late in (0, 1):
                fs = [tok("request%d" % i) for i in range(cnt)]; ls = [tok("late%d" % i) for i in range(late)]
                def effect(e, q, fs=fs, ls=ls):
                    if fs and e.kind == "call" and e.args and e.args[0] == fs[0] and e.name not in ("dex_unref", "dex_ref"):
                        for x in ls:
                            if x not in q.setdefault(canon(Q), []): q[canon(Q)].append(x)
                qs = Queues({Q: fs}, data=lambda l: l, effect=effect)
                def dflt(a, st):
                    r = root_of(a)
                    if r in fs or r in ls:
                        k = off(P, a, r); return w[0].get(k)
                    return None
                ps = case(P, d, {}, {}, queues=qs, args={0: CTX}, default=dflt, K=8 + 2 * cnt); n += len(ps)
                txt = "posix, %d completed, %d meanwhile" % (cnt, late if cnt else 0)
                ctx.ob("dispatch", txt + " (handled)", ps, where(d), "no path")
                for p in ps:
                    end = qs.at(p.events).get(canon(Q), [])
                    for x in fs: once(ctx, p, d, x, "posix", end)
                    for x in ls if fs else []:
                        c, r = done(p, x)
                        ctx.ob("dispatch", "posix: late requests", (len(c), len(r), x in end) in ((1, 1, False), (0, 0, True)), where(d), "a request that completed meanwhile is lost")
                    for o in qops(p):
                        if root_of(o.term)[0] != "alloca": ctx.ob("dispatch", "posix: locked", LOCK in held_at(p, o.i), where(d, o.e), "the queue changes without its lock")
                    for i, e in enumerate(p.events):
                        if e.kind == "call" and e.name in ("llvm.memcpy", "llvm.memmove") and canon(Q) in (canon(e.args[0]), canon(e.args[1])): ctx.ob("dispatch", "posix: locked", LOCK in held_at(p, i), where(d, e), "the queue is taken without its lock")
    return n

def done(p, x):
    """(completions, releases) of a request along a path"""
    c = [e for e in p.events if e.kind == "call" and e.args and e.args[0] == x and (e.name in ("dex_future_complete",) or str(e.name).endswith("_complete"))]
    r = [e for e in p.events if e.kind == "call" and e.args and e.args[0] == x and e.name == "dex_unref"]
    return c, r

def once(ctx, p, d, x, nm, end):
    c, r = done(p, x)
    ctx.ob("dispatch", nm + ": completed once", len(c) == 1 and x not in end, where(d), "%s is completed %d times" % (x[1], len(c)))
    ctx.ob("dispatch", nm + ": released once", len(r) == 1 and not nref(p, x), where(d), "%s is released %d times" % (x[1], len(r)))
    for e in c:
        ctx.ob("dispatch", nm + ": no lock", not held_at(p, pos(p, e)), where(d, e), "completed under a lock")
        ctx.ob("dispatch", nm + ": released afterwards", all(pos(p, y) > pos(p, e) for y in r), where(d, e), "released before it is completed")

def ring_prepare(ctx, P):
    n = 0; nm, tab = contexts(P, True)
    if tab is None:
        ctx.count("io_uring", 0); return 0
    f = P.funcs.get(tab[0])
    if not ctx.need(f, "the io_uring context has no prepare"): return 0
    S = "_DexUringAioContext"; Q = ("f", CTX, S, "queued"); LOCK = ("f", CTX, S, "mutex"); RING = ("f", CTX, S, "ring")
    h = [g for t, g in handlers(P, "read").items() if is_uring(t)]
    w = [words(P, p, FUT) for p in submit(P, h[0], True, here=False)]
    if not ctx.need(w, "no io_uring request"): return 0
    for cnt in range(5):
        # answers of io_uring_get_sqe: how many entries there are, and how many more after submitting
        for room, more in ((0, 0), (0, 1), (0, 9), (1, 0), (1, 1), (2, 9), (9, 0)):
            for pending in (0, 2):
                fs = [tok("request%d" % i) for i in range(cnt)]; qs = Queues({Q: fs}, data=lambda l: l)
                def state(st, room=room, more=more):
                    left = room; out = 0; subs = 0
                    for e in st.trace:
                        if e.kind != "call": continue
                        if e.name == "io_uring_get_sqe":
                            if left: left -= 1; out += 1
                        elif e.name.startswith("io_uring_submit"):
                            subs += 1
                            if subs == 1: left += more
                    return left, out
                def get(ar, st):
                    left, out = state(st)
                    return tok("sqe%d" % out) if left else NULL
                def ready(ar, st):
                    since = 0
                    for e in st.trace:
                        if e.kind == "call" and e.name == "io_uring_get_sqe" and not is0(e.res): since += 1
                        if e.kind == "call" and e.name.startswith("io_uring_submit"): since = 0; 
                    return since + (pending if not any(e.kind == "call" and e.name.startswith("io_uring_submit") for e in st.trace) else 0)
                def dflt(a, st):
                    r = root_of(a)
                    if r in fs: return w[0].get(off(P, a, r))
                    return None
                ps = case(P, f, {}, {"io_uring_get_sqe": get, "io_uring_sq_ready": ready, "io_uring_cq_ready": 0, "io_uring_submit": 1}, queues=qs, args={0: CTX}, default=dflt, K=10); n += len(ps)
                txt = "%d queued, %d entries free, %d after submitting" % (cnt, room, more)
                ctx.ob("prepare", txt + " (handled)", ps, where(f), "no path")
                for p in ps:
                    end = qs.at(p.events).get(canon(Q), [])
                    data = {}
                    for e in p.events:
                        if e.kind == "call" and e.name == "io_uring_sqe_set_data": data.setdefault(e.args[0], []).append(e.args[1])
                        elif e.kind == "store" and root_of(e.args[0])[0] == "tok" and root_of(e.args[0])[1].startswith("sqe") and off(P, e.args[0], root_of(e.args[0])) == 32 and not is0(e.args[1]): data.setdefault(root_of(e.args[0]), []).append(e.args[1])
                    ents = [e.res for e in pcalls(p, "io_uring_get_sqe") if not is0(e.res)]
                    moved = [data[s][-1] for s in ents if s in data]
                    ctx.ob("prepare", txt + ": entries filled", all(len(data.get(s, [])) == 1 for s in ents) and len(data) == len(ents), where(f), "an entry of the ring is taken without a request, or filled twice")
                    ctx.ob("prepare", txt + ": none lost", moved + end == fs, where(f), "requests %s end up on the ring and %s in the queue" % ([x[1] for x in moved], [x[1] for x in end]))
                    ctx.ob("prepare", txt + ": as many as possible", len(moved) == min(cnt, room + more), where(f), "%d of %d requests are submitted" % (len(moved), min(cnt, room + more)))
                    ctx.ob("prepare", txt + ": references", all(not nref(p, x) and not nrel(p, x) for x in fs), where(f), "changes the references of a request")
                    sub = [pos(p, e) for e in p.events if e.kind == "call" and e.name.startswith("io_uring_submit")]
                    last = max([pos(p, e) for e in p.events if e.kind == "call" and e.name == "io_uring_sqe_set_data" or e.kind == "store" and root_of(e.args[0]) in ents] or [-1])
                    if ents or pending: ctx.ob("prepare", txt + ": submitted", sub and max(sub) > last, where(f), "requests on the ring are not submitted")
                    for s in ents:
                        ws = words(P, p, s)
                        ctx.ob("prepare", "filled in", num(ws.get(0)) == OPS["read"], where(f), "the entry's operation is not set")
                    for i, e in enumerate(p.events):
                        if e.kind == "call" and (e.name.startswith("io_uring_submit") or e.name in ("io_uring_get_sqe", "io_uring_sqe_set_data") or e.name.startswith("g_queue_pop")): ctx.ob("prepare", "locked", LOCK in held_at(p, i), where(f, e), "the ring or the queue is used without the lock")
    return n

def ring_dispatch(ctx, P):
    n = 0; nm, tab = contexts(P, True)
    if tab is None: return 0
    d = P.funcs.get(tab[2])
    if not ctx.need(d, "the io_uring context has no dispatch"): return 0
    h = [g for t, g in handlers(P, "read").items() if is_uring(t)]
    w = [words(P, p, FUT) for p in submit(P, h[0], True)]
    if not ctx.need(w, "no io_uring request"): return 0
    for cnt in (0, 1, 2, 31, 32, 33, 64, 65) if ctx.tier == "thorough" else (0, 1, 2, 32, 33):
        fs = [tok("request%d" % i) for i in range(cnt)]
        def seen(st): return sum(1 if e.name == "io_uring_cqe_seen" else num(e.args[1]) or 0 for e in st.trace if e.kind == "call" and e.name in ("io_uring_cqe_seen", "io_uring_cq_advance"))
        def peek(ar, st):
            k = seen(st)
            return [0, [(ar[1], tok("cqe%d" % k))]] if k < cnt else -11
        def data(ar, st): return fs[int(ar[0][1][3:])] if ar[0][0] == "tok" and ar[0][1].startswith("cqe") else None
        def dflt(a, st):
            r = root_of(a)
            if r in fs: return w[0].get(off(P, a, r))
            if r[0] == "tok" and r[1].startswith("cqe"):
                k = off(P, a, r); return fs[int(r[1][3:])] if k == 0 else ("c", 1000 + int(r[1][3:])) if k == 8 else None
            return None
        ps = case(P, d, {}, {"io_uring_peek_cqe": peek, "io_uring_cqe_get_data": data, "g_source_query_unix_fd": 1, "read": 8}, args={0: CTX}, default=dflt, K=cnt + 6); n += len(ps)
        ctx.ob("dispatch", "io_uring, %d completions (handled)" % cnt, ps, where(d), "no path")
        for p in ps:
            sn = [e.args[1] for e in pcalls(p, "io_uring_cqe_seen")]
            tot = len(sn) + sum(num(e.args[1]) or 0 for e in pcalls(p, "io_uring_cq_advance"))
            ctx.ob("dispatch", "io_uring: given back once", tot == cnt and len(set(sn)) == len(sn), where(d), "%d completion entries are given back for %d completions" % (tot, cnt))
            for i, x in enumerate(fs):
                once(ctx, p, d, x, "io_uring", [])
                st = [e for e in p.events if e.kind == "store" and root_of(e.args[0]) == x and num(e.args[1]) == 1000 + i]
                cq = [pos(p, e) for e in pcalls(p, "io_uring_cqe_seen") if e.args[1] == tok("cqe%d" % i)]
                c, r = done(p, x)
                ctx.ob("dispatch", "io_uring: recorded", st and (not cq or pos(p, st[0]) < cq[0]) and all(pos(p, e) > pos(p, st[0]) for e in c), where(d), "the result is read after its entry was given back, or not before completing")
                ctx.ob("dispatch", "io_uring: given back before completing", not cq or all(pos(p, e) > cq[0] for e in c), where(d), "completed while its completion entry is still in use")
            ctx.ob("dispatch", "io_uring: stays", num(p.ret) not in (0, None), where(d), "the source goes away")
            rd = pcalls(p, "read", "eventfd_read")
            ctx.ob("dispatch", "io_uring: event", rd and all(pos(p, x) < pos(p, y) for x in rd for y in pcalls(p, "io_uring_peek_cqe")), where(d), "the event is acknowledged after the completions were looked at (a completion in between is never noticed)")
    mk = handlers(P, "create_context"); mk = [g for t, g in mk.items() if is_uring(t) and g]
    nonblock = any((num(e.args[1]) or 0) & 0x800 for g in mk for p in table(P, g) for e in pcalls(p, "eventfd"))
    ps = case(P, d, {}, {"io_uring_peek_cqe": -11, "g_source_query_unix_fd": 0, "read": 8}, args={0: CTX}) if not nonblock else []; n += len(ps)
    if nonblock: return n
    ctx.ob("dispatch", "io_uring, nothing readable (handled)", ps, where(d), "no path")
    for p in ps: ctx.ob("dispatch", "io_uring: nothing readable", not pcalls(p, "read", "eventfd_read"), where(d), "reads the (blocking) event descriptor although nothing is there to read")
    return n
