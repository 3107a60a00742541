"""shared pieces of the fiber rules: scheduler queues, context switches, flags"""
from spec import *
A0, A1 = ("a", 0), ("a", 1)
FB, FS = "_DexFiber", "_DexFiberScheduler"
SWITCH = ("swapcontext", "libucontext_swapcontext", "dex_fiber_context_switch", "SwitchToFiber")
SCHED, TLS, CANC = tok("scheduler"), tok("thread-storage"), tok("cancelled-future")
def link(f): return ("f", f, FB, "link")
def runnable(s): return ("f", s, FS, "runnable")
def blocked(s): return ("f", s, FS, "blocked")
def ctxof(t):
    """object whose saved context a term is (the address of)"""
    while isinstance(t, tuple) and t[0] in ("f", "ix"):
        if t[0] == "f" and t[2] in (FB, FS): return t[1] if "context" in str(t[3]) else None
        t = t[1]
    return None
def schedlock(s): return norm(("f", s, FS, "mutex"))
def bit(P, p, base, name, default=None, S=FB, upto=None):
    """value of a flag of an object after the stores of a path (upto an event index)"""
    v = default
    for e in p.events[:upto]:
        if e.kind != "store": continue
        a = e.args[0]
        if a[0] != "f" or a[1] != base: continue
        if a[3] == name: v = (e.args[1][1] & 1) if e.args[1][0] == "c" else None
        elif str(a[3]).startswith("bits@") and e.args[1][0] == "c":
            byte = int(a[3][5:])
            for off, b in P.bitfields.get(S, {}).items():
                if b[1] == name and byte * 8 <= off < byte * 8 + 32: v = (e.args[1][1] >> (off - byte * 8)) & ((1 << b[0]) - 1)
    return v
def flagbyte(P, S=FB, **on):
    """(byte offset, value) of the flags of an object, for a default oracle"""
    b = P.bitfields.get(S, {}); off = min(b) if b else 0
    return off // 8, sum(v << (o - off) for o, (w, n) in b.items() for k, v in on.items() if n == k)
def isflags(a, S=FB):
    return a[0] == "f" and a[2] == S and str(a[3]).startswith("bits@")
def wakes(p, s):
    """events that wake the main context the scheduler's source is attached to"""
    return [e for e in pcalls(p, "g_main_context_wakeup") if e.args[0][0] == "call" and e.args[0][1] == "g_source_get_context" and unref_strip(e.args[0][2][0]) == s]
def glob(a, st):
    """the only global future is the cancelled one"""
    return CANC if a[0] == "g" else None
def flagname(P, S=FB): return set(n for w, n in P.bitfields.get(S, {}).values())
