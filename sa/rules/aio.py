"""shared facts about asynchronous I/O: requests as the backends build and complete them"""
from spec import *
from rules.sched import off, stored
BE, CTX, FD, BUF, TLS, FUT, SQE, CQE, ERRNO = (tok(x) for x in ("backend", "context", "fd", "buffer", "tls", "request", "sqe", "cqe", "errno"))
GIVEN = dict(count=(0, 1, 10, 0x7ffff000, 2**32, 2**32 + 7, 2**40), offset=(-2**40, -5, -1, 0, 7, 2**32 + 3))
OPS = {"read": 22, "write": 23}     # IORING_OP_READ, IORING_OP_WRITE

def words(P, p, base, upto=None, init=None):
    """{byte offset: value} a path has stored in the object at base"""
    w = dict(init or {})
    for e in p.events[:upto] if upto is not None else p.events:
        if e.kind == "store" and root_of(e.args[0]) == base:
            k = off(P, e.args[0], base)
            if k is not None: w[k] = e.args[1]
        elif e.kind == "call" and e.name == "llvm.memset" and root_of(e.args[0]) == base: w = {}
    return w

def loader(P, base, w, more=None):
    def ld(a, st):
        if root_of(a) == base:
            k = off(P, a, base)
            if k in w: return w[k]
        return more(a, st) if more else None
    return ld

def handlers(P, slot):
    """{backend type: function} for read/write/create_context of the backends"""
    return {t: P.funcs.get(f) for t, f in P.vtables().get(("_DexAioBackendClass", slot), {}).items()}

def is_uring(t): return "uring" in t

def num(t): return ev(t, lambda x: None) if t is not None else None

def submit(P, f, uring, count=("c", 10), offset=("c", 0), here=True, queue=(), sqe=True):
    """the paths submitting a request"""
    src = tok("its-main-context")
    S = "_DexUringAioContext" if uring else "_DexPosixAioContext"
    qs = Queues({("f", CTX, S, "queued" if uring else "completed"): list(queue)}, data=lambda l: l)
    calls = {"dex_thread_storage_get": TLS, "dex_object_create_instance": FUT, "io_uring_get_sqe": SQE if sqe else NULL, "g_source_get_context": src, "g_main_context_ref": src, "g_source_ref": CTX}
    return case(P, f, {(TLS, "aio_context"): CTX if here else tok("other-context")}, calls, queues=qs, args={0: BE, 1: CTX, 2: FD, 3: BUF, 4: count, 5: offset}, default=lambda a, st: tok("pool") if a[0] == "g" and "pool" in a[1] else None)

def contexts(P, uring):
    """source functions of the backend's context"""
    for n, t in P.source_tables().items():
        if t[2] and "aio" in n and ("uring" in n) == uring: return n, t
    return None, None

def completions(P, p, fut, w, depth=0):
    """dex_future_complete calls on a request along a path, following functions it is passed to: [(path, event)]"""
    out = []
    for e in p.events:
        if e.kind != "call" or not e.args or e.args[0] != fut: continue
        if e.name == "dex_future_complete": out.append((p, e))
        elif e.name in P.funcs and e.name not in ("dex_ref", "dex_unref") and depth < 2:
            for q in case(P, P.funcs[e.name], {}, {"__errno_location": ERRNO}, args={0: fut}, default=loader(P, fut, w), locs=True):
                out += completions(P, q, fut, w, depth + 1) or [(q, None)]
    return out
