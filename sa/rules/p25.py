"""P25: asynchronous file I/O performs the requested transfer and reports its result"""
from spec import *
from rules.aio import *

def run(ctx):
    P = ctx.P; n = 0
    ctx.rule("entry", "the public functions pass their arguments unchanged to the read or write of the context's own backend; without a context the thread's own is used")
    ctx.rule("request", "the operation handed to the kernel is the one asked for: operation, descriptor, buffer, offset (any negative one: the current position), and a length that is the count or a non-empty prefix of it")
    ctx.rule("result", "the result the kernel gave to this request is recorded before anything can change it")
    ctx.rule("report", "a result of n >= 0 resolves with the 64-bit integer n; a failure rejects with the I/O error of that operation's own errno")
    # --- entry
    for op in ("read", "write"):
        f = P.fn("dex_aio_" + op); SCH, MINE, THEIRS, CLS = tok("scheduler"), tok("thread-context"), tok("scheduler-context"), tok("class")
        for given, own in ((CTX, MINE), (NULL, MINE), (NULL, NULL)):
            want = given if given == CTX else MINE if own == MINE else THEIRS
            bes = {CTX: tok("backend-1"), MINE: tok("backend-2"), THEIRS: tok("backend-3")}
            ps = case(P, f, {(TLS, "aio_context"): own, (TLS, "scheduler"): SCH, **{(c, "aio_backend"): b for c, b in bes.items()}}, {"dex_thread_storage_get": TLS, "dex_scheduler_get_aio_context": THEIRS, "g_type_check_instance_is_a": 1},
                      args={0: given, 1: FD, 2: BUF, 3: tok("count"), 4: tok("offset")}); n += len(ps)
            txt = "%s on the %s context" % (op, "given" if given == CTX else "thread's" if own == MINE else "scheduler's")
            ctx.ob("entry", txt + " (handled)", ps, where(f), "no path")
            for p in ps:
                cs = [e for e in p.events if e.kind == "call" and e.name in ("dex_aio_backend_read", "dex_aio_backend_write", "*_DexAioBackendClass.read", "*_DexAioBackendClass.write")]
                ok = len(cs) == 1 and cs[0].name.endswith(op) and cs[0].args == (bes[want], want, FD, BUF, tok("count"), tok("offset")) and p.ret == cs[0].res
                ctx.ob("entry", txt, ok, where(f), "calls %s" % [str(e) for e in cs])
        f = P.fn("dex_aio_backend_" + op)
        ps = case(P, f, {}, {"g_type_check_instance_is_a": 1}, args={0: BE, 1: CTX, 2: FD, 3: BUF, 4: tok("count"), 5: tok("offset")}); n += len(ps)
        ctx.ob("entry", "backend %s (handled)" % op, ps, where(f), "no path")
        for p in ps:
            cs = [e for e in p.events if e.kind == "call" and str(e.name).startswith("*")]
            ctx.ob("entry", "backend " + op, len(cs) == 1 and cs[0].name == "*_DexAioBackendClass." + op and cs[0].args == (BE, CTX, FD, BUF, tok("count"), tok("offset")) and p.ret == cs[0].res, where(f), "calls %s" % [str(e) for e in cs])
    # --- request and result
    for op in ("read", "write"):
        hs = handlers(P, op)
        every = {t for sl in ("read", "write", "create_context") for t in handlers(P, sl)}
        ctx.ob("entry", "backends implement " + op, hs and all(hs.values()) and set(hs) == every, "src", "a backend (%s) has no %s" % (", ".join(sorted(every - set(hs))) or "?", op))
        for t, f in sorted(hs.items()):
            if f is None: continue
            uring = is_uring(t); name = "io_uring" if uring else "posix"
            w0 = None
            for cnt in GIVEN["count"]:
                for o in GIVEN["offset"]:
                    ps = submit(P, f, uring, ("c", cnt), ("c", o)); n += len(ps)
                    txt = "%s %s" % (name, op)
                    ctx.ob("request", txt + " (handled)", ps, where(f), "no path")
                    for p in ps:
                        w = words(P, p, FUT); w0 = w
                        ctx.ob("request", txt + ": returned", p.ret == FUT, where(f), "returns %s" % show(p.ret))
                        if uring: n += uring_request(ctx, P, p, f, op, cnt, o, words(P, p, SQE))
                        else: n += posix_request(ctx, P, p, f, op, cnt, o, w)
                    if not uring: continue
                    # queued: the request is filled in when the context prepares
                    ps = submit(P, f, uring, ("c", cnt), ("c", o), here=False); n += len(ps)
                    for p in ps:
                        w = words(P, p, FUT); nm, tab = contexts(P, True)
                        g = P.funcs.get(tab[0]) if tab else None
                        if not ctx.need(g, "the io_uring context has no prepare"): break
                        qs = case(P, g, {}, {"io_uring_get_sqe": SQE}, queues=Queues({("f", CTX, "_DexUringAioContext", "queued"): [FUT]}, data=lambda l: l), args={0: CTX}, default=loader(P, FUT, w)); n += len(qs)
                        ctx.ob("request", "queued %s (handled)" % op, qs, where(g), "no path")
                        for q in qs: uring_request(ctx, P, q, g, op, cnt, o, words(P, q, SQE))
            if w0 is None: continue
            if uring:
                nm, tab = contexts(P, True); d = P.funcs.get(tab[2]) if tab else None
                if not ctx.need(d, "the io_uring context has no dispatch"): continue
                for res in (0, 1, 10, 0x7ffff000, -4, -5, -9, -28):
                    def peek(ar, st): return -11 if any(e.kind == "call" and e.name == "io_uring_peek_cqe" for e in st.trace) else [0, [(ar[1], CQE)]]
                    ps = case(P, d, {(CQE, "res"): ("c", res)}, {"io_uring_peek_cqe": peek, "io_uring_cqe_get_data": FUT}, args={0: CTX}, default=loader(P, FUT, w0)); n += len(ps)
                    ctx.ob("result", "io_uring %s (handled)" % op, ps, where(d), "no path")
                    for p in ps: n += report(ctx, P, p, d, "io_uring " + op, words(P, p, FUT, init=w0), res, -res)
            else:
                # the worker runs the request; the context's dispatch completes it
                wk = worker(P)
                nm, tab = contexts(P, False); d = P.funcs.get(tab[2]) if tab else None
                if not ctx.need(wk, "the posix backend has no worker") or not ctx.need(d, "the posix context has no dispatch"): continue
                for o in (-1, 3):
                  w0 = [words(P, p, FUT) for p in submit(P, f, False, ("c", 10), ("c", o))]
                  if not w0: continue
                  for res, en in ((0, 0), (10, 0), (1, 11), (-1, 5), (-1, 9), (-1, 28), (-1, 4)):
                    ps = posix_run(P, wk, w0[0], res, en); n += len(ps)
                    ctx.ob("result", "posix %s (handled)" % op, ps, where(wk), "no path")
                    for p in ps:
                        w1 = words(P, p, FUT, init=w0[0])
                        qs = case(P, d, {}, {}, queues=Queues({("f", CTX, "_DexPosixAioContext", "completed"): [FUT]}, data=lambda l: l), args={0: CTX}, default=loader(P, FUT, w1)); n += len(qs)
                        ctx.ob("report", "posix %s (handled)" % op, qs, where(d), "no path")
                        for q in qs: n += report(ctx, P, q, d, "posix " + op, words(P, q, FUT, init=w1), res, en)
    n += made(ctx)
    ctx.count("abstract_paths", n)

def made(ctx):
    """contexts and backends are complete when they are given out, and not given out when they cannot work"""
    P = ctx.P; n = 0
    def zero(a, st): return ZERO if root_of(a) == CTX else None     # g_source_new clears what it allocates
    ctx.rule("context", "a context given out belongs to the backend that made it (one reference), has its lock, and for io_uring its ring and event descriptor; what could not be set up is not given out and goes away; the io_uring backend is only given out when it can make a context")
    for t, f in sorted(handlers(P, "create_context").items()):
        if not ctx.need(f, "a backend makes no context"): continue
        uring = is_uring(t); S = "_DexUringAioContext" if uring else "_DexPosixAioContext"; name = "io_uring" if uring else "posix"
        nm, tab = contexts(P, uring); fin = P.funcs.get(tab[3]) if tab and tab[3] else None
        if not ctx.need(fin, "the %s context has no finaliser" % name): continue
        fails = [None] + (["io_uring_queue_init", "io_uring_register_ring_fd", "eventfd", "io_uring_register_eventfd"] if uring else [])
        used = {c for q in table(P, f) for c in (e.name for e in q.events if e.kind == "call")}
        for bad in fails:
            if bad and bad not in used: continue
            calls = {"g_source_new": CTX, "g_malloc0": CTX, "io_uring_queue_init": 0, "io_uring_register_ring_fd": 1, "eventfd": 5, "io_uring_register_eventfd": 0, "dex_uring_check_kernel_version": 1, "g_type_check_instance_is_a": 1}
            if bad: calls[bad] = -1 if bad == "eventfd" else -22
            ps = case(P, f, {}, calls, args={0: BE}, default=zero); n += len(ps)
            ctx.ob("context", "%s, %s (handled)" % (name, bad or "all is well"), ps, where(f), "no path")
            for p in ps:
                txt = "%s, %s" % (name, bad + " fails" if bad else "all is well"); gone = pcalls(p, "g_source_unref")
                if bad: ctx.ob("context", txt, is0(p.ret) and len(gone) == 1 and gone[0].args[0] == CTX, where(f), "returns %s after releasing the context %d times" % (show(p.ret), len(gone)))
                else:
                    w = words(P, p, CTX); mx = [e for e in pcalls(p, "g_mutex_init") if root_of(e.args[0]) == CTX]
                    be = [e for e in pcalls(p, "dex_ref", "g_object_ref") if e.args[0] == BE]
                    k = [v for a, v in ((e.args[0], e.args[1]) for e in p.events if e.kind == "store" and root_of(e.args[0]) == CTX) if isinstance(a, tuple) and last(a) == "aio_backend"]
                    ctx.ob("context", txt + ": given out", p.ret == CTX and not gone, where(f), "returns %s" % show(p.ret))
                    ctx.ob("context", txt + ": backend", len(k) == 1 and alias_(k[0]) == BE and len(be) == 1, where(f), "belongs to %s, with %d references" % (show(k[-1]) if k else "no backend", len(be)))
                    ctx.ob("context", txt + ": lock", len(mx) == 1, where(f), "its lock is initialised %d times" % len(mx))
                    if uring:
                        ev_ = [e for e in pcalls(p, "g_source_add_unix_fd") if e.args[0] == CTX]
                        ctx.ob("context", txt + ": event", len(ev_) == 1 and num(ev_[0].args[1]) == 5 and (num(ev_[0].args[2]) or 0) & 1, where(f), "the event descriptor is polled %d times" % len(ev_))
                # what the context holds goes away with it
                w = words(P, p, CTX)
                qs = case(P, fin, {}, {}, args={0: CTX}, queues=Queues({("f", CTX, S, "queued" if uring else "completed"): []}, data=lambda l: l), default=loader(P, CTX, dict(w), zero)); n += len(qs)
                ctx.ob("context", txt + ": goes away (handled)", qs, where(fin), "no path")
                for q in qs:
                    rings = len(pcalls(q, "io_uring_queue_exit")); want = len(pcalls(p, "io_uring_queue_init")) if bad != "io_uring_queue_init" else 0
                    fds = [e for e in pcalls(q, "close", "g_close", "g_clear_fd") if num(e.args[0]) == 5]; wfd = 1 if any(True for e in pcalls(p, "eventfd")) and bad != "eventfd" else 0
                    cl = [e for e in pcalls(q, "g_mutex_clear") if root_of(e.args[0]) == CTX]
                    ctx.ob("context", txt + ": ring goes away", rings == want, where(fin), "the ring is torn down %d times" % rings)
                    ctx.ob("context", txt + ": event descriptor goes away", len(fds) == wfd and not [e for e in pcalls(q, "close") if e not in fds], where(fin), "the event descriptor is closed %d times" % len(fds))
                    ctx.ob("context", txt + ": lock goes away", len(cl) == 1, where(fin), "the lock is cleared %d times" % len(cl))
        if uring:
            g = [x for x in P.defined.values() if x.base == "dex_uring_aio_backend_new"]
            for x in g:
                for c in (CTX, NULL):
                    ps = case(P, x, {}, {"dex_object_create_instance": BE, "dex_aio_backend_create_context": c, "*_DexAioBackendClass.create_context": c, f.base: c, "g_type_check_instance_is_a": 1}, args={}); n += len(ps)
                    got = False
                    for p in ps:
                        made_ = [e for e in pcalls(p, "dex_object_create_instance")]; un = [e.args[0] for e in pcalls(p, "dex_unref", "g_object_unref", "g_source_unref")]
                        tried = any(e.res == c for e in p.events if e.kind == "call" and (e.name == "dex_aio_backend_create_context" or str(e.name).endswith(".create_context") or e.name == f.base))
                        if c == CTX and tried: ok = p.ret == BE and un == [CTX]; got |= ok
                        else: ok = is0(p.ret) and un == [BE] * len(made_)
                        ctx.ob("context", "io_uring backend, %s" % ("never tried" if not tried else "context made" if c == CTX else "no context"), ok, where(x), "returns %s after releasing %s" % (show(p.ret), [show(u) for u in un]))
                    if c == CTX: ctx.ob("context", "io_uring backend available", got, where(x), "never gives out the backend")
    # the pool that runs the requests is there before the class is used
    for x in P.defined.values():
        if not x.base.endswith("_class_init") or "g_thread_pool_new" not in x.callees0 or "aio" not in x.base: continue
        for r in (tok("pool"), NULL):
            def np(ar, st, r=r): return [r, [(ar[-1], tok("error"))]] if r == NULL and not is0(ar[-1]) else r
            ps = [p for p in case(P, x, {}, {"g_thread_pool_new": np}) if p.kind == "ret"]; n += len(ps)
            st = [e for p in ps for e in p.events if e.kind == "store" and e.args[1] == r and root_of(e.args[0])[0] == "g"]
            ctx.ob("context", "request pool" if r != NULL else "no request pool", ps and st if r != NULL else not ps, where(x), "the class cannot be used" if r != NULL else "the class can be used although there is nothing to run its requests")
    return n

def alias_(t):
    while isinstance(t, tuple) and t[0] == "call" and t[1] in ("dex_ref", "g_object_ref"): t = t[2][0]
    return t

def last(a):
    return a[3] if a[0] == "f" else None

IO = ("read", "write", "pread", "pwrite", "pread64", "pwrite64", "readv", "writev", "preadv", "pwritev", "lseek", "lseek64", "recv", "send")

def worker(P):
    """the function the posix backend's thread pool runs"""
    for fn in P.defined.values():
        if not fn.base.endswith("_class_init"): continue
        for b in fn.blocks:
            for i in b:
                if i.op == "call" and i.f[0] == "g" and i.f[1] == "g_thread_pool_new" and i.a[0][0] == "g" and "aio" in fn.base: return P.funcs.get(i.a[0][1])
    return None

def posix_run(P, wk, w, res, en):
    """the worker runs a request whose system call returns res and sets errno to en; errno is arbitrary after any other call"""
    def first(a, st):
        if a == ERRNO:
            cs = [e.name for e in st.trace if e.kind == "call" and e.name != "__errno_location"]
            return ("c", en) if cs and cs[-1] in IO else None if not cs else ("c", 77)
        return None
    r = ("c", res)
    return case(P, wk, {}, {"__errno_location": ERRNO, **{k: r for k in IO}}, queues=Queues({("f", CTX, "_DexPosixAioContext", "completed"): []}, data=lambda l: l), args={0: FUT}, default=loader(P, FUT, w), first=first)

def posix_request(ctx, P, p, f, op, cnt, o, w):
    wk = worker(P)
    if not ctx.need(wk, "the posix backend has no worker"): return 0
    ps = posix_run(P, wk, w, 3, 0)
    ctx.ob("request", "posix %s: run (handled)" % op, ps, where(wk), "no path")
    for q in ps:
        cs = pcalls(q, *IO)
        ctx.ob("request", "posix %s: once" % op, len(cs) == 1, where(wk), "performs %s" % [e.name for e in cs])
        if len(cs) != 1: continue
        e = cs[0]; nm = e.name.replace("64", "")
        ctx.ob("request", "posix %s at %s" % (op, "the current position" if o < 0 else "an offset"), nm == (op if o < 0 else "p" + op), where(wk, e), "performs %s for offset %d" % (nm, o))
        ctx.ob("request", "posix %s: arguments" % op, e.args[0] == FD and e.args[1] == BUF and length_ok(num(e.args[2]), cnt, 64) and (nm == op or len(e.args) > 3 and num(e.args[3]) == o), where(wk, e), "performs %s(%s)" % (nm, ", ".join(show(a) for a in e.args)))
    return len(ps)

def length_ok(x, cnt, bits):
    if x is None: return False
    x &= (1 << bits) - 1
    return x == cnt or (cnt > 0x7ffff000 and 0x7ffff000 <= x <= cnt)

def uring_request(ctx, P, p, f, op, cnt, o, s):
    txt = "io_uring " + op
    ctx.ob("request", txt + ": operation", num(s.get(0)) == OPS[op], where(f), "submits operation %s" % show(s[0]) if 0 in s else "no operation is submitted")
    ctx.ob("request", txt + ": descriptor and buffer", s.get(4) == FD and s.get(16) == BUF, where(f), "transfers between %s and %s" % (show(s.get(4, NULL)), show(s.get(16, NULL))))
    ln = num(s.get(24))
    ctx.ob("request", txt + ": length", length_ok(ln, cnt, 32), where(f), "asks for %s bytes of %d" % (ln, cnt))
    of = num(s.get(8))
    ctx.ob("request", txt + ": offset", of is not None and of & (2**64 - 1) == (2**64 - 1 if o < 0 else o), where(f), "transfers at %s instead of %d" % (of, o))
    ctx.ob("request", txt + ": flags", all(num(s.get(k)) in (0, None) and k not in s or num(s[k]) == 0 for k in (1, 2, 28, 40) if k in s) and 1 in s, where(f), "flags are set or left over from another request")
    return 0

def report(ctx, P, p, f, txt, w, res, en):
    cs = completions(P, p, FUT, w)
    ctx.ob("report", txt + ": once", len(cs) == 1, where(f), "completed %d times" % len(cs))
    for q, e in cs:
        if e is None:
            ctx.ob("report", txt + ": completes", False, where(f), "is not completed"); continue
        if res >= 0:
            i = pos(q, e); v = gval(q, i, e.args[1]) if not is0(e.args[1]) else None
            ok = v is not None and v.type == ("c", GT["int64"]) and num(v.payload) == res and is0(e.args[2])
            ctx.ob("report", txt + ": transferred", ok, where(f, e), "a result of %d resolves with %s" % (res, v))
        else:
            g = [x for x in q.events if x.kind == "call" and x.res == e.args[2] and str(x.name).startswith("g_error_new")]
            code = g[0].args[1] if g else None; dom = g[0].args[0] if g else None
            ok = is0(e.args[1]) and dom is not None and dom[0] == "call" and dom[1] == "g_io_error_quark" and code[0] == "call" and code[1] == "g_io_error_from_errno" and num(code[2][0]) == en
            ctx.ob("report", txt + ": failure", ok, where(f, e), "errno %d rejects with %s" % (en, show(code) if code else "no error"))
    return len(cs)
