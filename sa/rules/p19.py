"""the semaphore as a finite case table: every operation in every small reachable state, against a reference model of permits and waiters"""
from spec import *

SEM = tok("semaphore"); NEW = tok("newwaiter"); BUF = 8
FD = 3

class World:
    def __init__(self, c, w, fd):
        self.ws = [tok("waiter%d" % i) for i in range(w)]
        lk = lambda x: ("f", x, "_DexSemaphoreWaiter", "link")
        self.mem = {(SEM, "counter"): ("c", c), (SEM, "eventfd"): ("c", fd)}
        self.Q = Queues({("f", SEM, "_DexSemaphore", "waiters"): [lk(x) for x in self.ws]})

def semfld(t, *names): return isinstance(t, tuple) and t[0] == "f" and (t[1] == SEM and t[3] in names or t[1][0] == "f" and t[1][1] == SEM and t[1][3] in names)

def run_case(P, f, w, args):
    calls = {"dex_object_create_instance": NEW, "g_type_create_instance": NEW, "dex_scheduler_ref_thread_default": tok("scheduler"), "dex_scheduler_get_thread_default": tok("scheduler"),
             "write": BUF, "g_slice_alloc0": NEW}
    w.mem[(("f", NEW, "_DexSemaphoreWaiter", "link"), "data")] = NEW
    return case(P, f, w.mem, calls, args=args, queues=w.Q, K=10, locs=True, first=w.Q.ld, loads=("counter", "waiters", "length", "head", "tail", "eventfd"))

def closed_error(P, t):
    if call_of(t, "g_error_copy"): return t[2][0] == ("g", "semaphore_closed_error")
    return call_of(t, "g_error_new", "g_error_new_literal") and t[2][0] and t[2][1] == ("c", P.enumval["DEX_ERROR_SEMAPHORE_CLOSED"])

class Out:
    def __init__(self, P, w, p):
        self.p = p; q = w.Q.at(p.events).get(canon(("f", SEM, "_DexSemaphore", "waiters")), [])
        self.q = [l[1] if l[0] == "f" else l for l in q]
        self.counter = final(p, SEM, "counter", w.mem[(SEM, "counter")])
        self.good, self.closed, self.odd, self.locked = [], [], [], []
        depth = 0; touched = [0]; self.naked = None; seen = False
        for e in p.events:
            if e.kind == "call" and e.name in LOCKS and e.args and norm(e.args[0]) == objlock(SEM): depth += 1; touched.append(0); continue
            if e.kind == "call" and e.name in UNLOCKS and e.args and norm(e.args[0]) == objlock(SEM): depth -= 1; continue
            if e.kind == "call" and e.name == "dex_future_complete":
                t = unref_strip(e.args[0])
                (self.good if not is0(e.args[1]) and is0(e.args[2]) else self.closed if is0(e.args[1]) and closed_error(P, e.args[2]) else self.odd).append(t)
                if depth: self.locked.append(t)
            a = e.args[0] if e.args else None
            if semfld(a, "counter", "waiters"):
                if not depth: self.naked = self.naked or e
                elif e.kind == "store" or e.kind == "call" and str(e.name).startswith("g_queue_") and not e.name.startswith(("g_queue_peek", "g_queue_is", "g_queue_get")): touched[-1] += 1
        self.sections = sum(1 for x in touched if x)
        self.io = pcalls(p, "write", "read", "dex_aio_read", "dex_aio_write", "eventfd_write", "eventfd_read", "close")
        self.net = lambda t: nref(p, t) - nrel(p, t)

def states(tier):
    big = tier == "thorough"
    out = [(c, 0) for c in (0, 1, 2, 3, 0x7fffffff, 0xffffffff, 2 ** 40)] + [(0, w) for w in range(1, 7 if big else 4)]
    return out

def run(ctx):
    ctx.rule("post", "posting adds the count, and every permit that can be matched with a waiter is: one permit and one waiter each, in arrival order")
    ctx.rule("wake", "exactly the waiters taken from the queue are settled, once each and outside the lock: with success by post, as closed by close and by the finaliser")
    ctx.rule("wait", "a wait takes exactly one permit and is complete at once iff a permit is available; otherwise it takes none and is queued at the tail, and what is returned follows it")
    ctx.rule("close", "closing takes all queued waiters and keeps the permits")
    ctx.rule("atomic", "an operation reads and changes permits and waiters inside one critical section")
    ctx.rule("eventfd", "with an event descriptor: semaphore mode with no initial permit, posting writes the count once as 64 bit, waiting reads one 64 bit permit at the current position, closing closes it once")
    ctx.rule("only", "nothing else touches the permit counter or the waiters")
    rows = 0
    for cfg in ("main", "fallback"):
        P = ctx.prog(cfg)
        # a waiter is found through the data of its own link
        W = tok("waiter"); got = []
        for g in [P.funcs.get(x) for x in P.instance_inits()]:
            if g is None or "semaphore" not in g.base: continue
            for p in case(P, g, {}, {}, args={0: W}):
                got += [(g, e) for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][3] == "data" and has_sub(e.args[0], ("f", W, "_DexSemaphoreWaiter", "link"))]
        wt = P.fn("dex_semaphore_wait")
        for p in table(P, wt): got += [(wt, e) for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][3] == "data" and e.args[0][1][0] == "f" and e.args[0][1][2] == "_DexSemaphoreWaiter"]
        ctx.ob("wake", "%s: the waiter's link leads to the waiter" % cfg, got and all(e.args[1] == root_of(e.args[0]) for g, e in got), where(wt), "a waiter taken from the list is not found through its link")
        have_fd = P.field("_DexSemaphore", "eventfd") is not None
        fin = P.funcs.get(P.vtables().get(("_DexObjectClass", "finalize"), {}).get("dex_semaphore"))
        ops = [("post_many", P.fn("dex_semaphore_post_many")), ("post", P.fn("dex_semaphore_post")), ("wait", P.fn("dex_semaphore_wait")), ("close", P.fn("dex_semaphore_close")), ("finalize", fin)]
        known = set()
        for op, f in ops:
            if f is None: ctx.ob("wake", "%s finaliser" % cfg, False, "src/dex-semaphore.c", "the semaphore has no finaliser: its waiters are never settled"); continue
            known.add(f.name)
            for c, nw in states(ctx.tier):
                for count in (0, 1, 2, 3, 5, 0x80000000, 0xffffffff) if op == "post_many" else (1,):
                    for fd in (-1, FD) if have_fd else (-1,):
                        if fd == FD and (c or nw): continue      # with a descriptor there are no permits or waiters here
                        w = World(c, nw, fd); rows += 1
                        ps = run_case(P, f, w, {0: SEM, 1: ("c", count)})
                        judge(ctx, P, cfg, op, f, w, ps, c, count, fd)
        n = 0
        for f in roots(P):
            if f.name in known: continue
            txt = [i for b in f.blocks for i in b if i.op in ("load", "store", "getelementptr", "call") and any(s in str(i.raw.get("gf", "")) + str(i.a) for s in ("'_DexSemaphore', 'counter'", "'_DexSemaphore', 'waiters'"))]
            if not txt: continue
            n += 1
            ps = table(P, f, args={0: SEM}, K=2, locs=True)
            bad = [e for p in ps for e in p.events if semfld(e.args[0] if e.args else None, "counter", "waiters") and (e.kind == "store" and not is0(e.args[1]) or e.kind == "call" and str(e.name).startswith("g_queue_") and e.name not in ("g_queue_init", "g_queue_clear", "g_queue_get_length", "g_queue_is_empty"))]
            ctx.ob("only", "%s %s" % (cfg, f.base), not bad, where(f, bad[0]) if bad else where(f), "the permits or waiters are changed outside post, wait and close")
        if have_fd:
            for f in roots(P):
                if "semaphore" not in f.file or not any(i.op == "call" and i.f == ["f", "eventfd"] or "eventfd" == str(i.f[-1] if i.f else "") for b in f.blocks for i in b): continue
                for p in table(P, f, args={0: SEM}, K=1):
                    for e in pcalls(p, "eventfd"):
                        ctx.ob("eventfd", "%s semaphore mode" % cfg, e.args[0] == ZERO and e.args[1][0] == "c" and e.args[1][1] & 1, where(f, e), "the event descriptor is not created empty and in semaphore mode")
    ctx.count("decision_table_rows", rows)
    # the element of a waiter's link is the waiter
    P = ctx.P
    for f in roots(P):
        if f.base != "dex_semaphore_waiter_init": continue
        for p in table(P, f, args={0: NEW}, K=1):
            v = [e.args[1] for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][3] == "data"]
            ctx.ob("wait", "link of a waiter", not v or v[-1] == NEW, where(f), "the queue element of a waiter is not the waiter")

def judge(ctx, P, cfg, op, f, w, ps, c, count, fd):
    ctx.count("abstract_paths", len(ps))
    txt = "%s %s%s with %d permits, %d waiters%s" % (cfg, op, "(%d)" % count if op == "post_many" else "", c, len(w.ws), ", descriptor" if fd == FD else "")
    ctx.ob("post" if op.startswith("post") else op if op in ("wait", "close") else "wake", txt + " (handled)", ps, where(f), "no path handles this case")
    nm = lambda l: "[%s]" % ", ".join(show(x) for x in l)
    for p in ps:
        o = Out(P, w, p)
        if op == "post":
            pm = pcalls(p, "dex_semaphore_post_many")
            if pm:
                ctx.ob("post", txt + " posts one", len(pm) == 1 and pm[0].args == (SEM, ("c", 1)) and not o.io and o.naked is None and not o.sections, where(f, pm[0]), "posts %s permits" % ", ".join(show(e.args[1]) for e in pm)); continue
        if fd == FD:
            if op in ("post", "post_many"):
                if count == 0: ctx.ob("eventfd", txt, not [e for e in o.io if e.name != "write"], where(f), "unexpected input or output"); continue
                ok = len(o.io) == 1 and o.io[0].name in ("write", "eventfd_write") and o.io[0].args[0] == ("c", FD)
                if ok and o.io[0].name == "write":
                    e = o.io[0]; v = p_store(p, e.args[1], e)
                    ok = e.args[2] == ("c", 8) and v is not None and ev(v, lambda t: None) == count
                elif ok: ok = o.io[0].args[1] == ("c", count)
                ctx.ob("eventfd", txt, ok and o.counter == ("c", c) and not o.sections, where(f, o.io[0]) if o.io else where(f), "%s: the count is not written to the event descriptor exactly once, as a 64 bit value" % txt)
            elif op == "wait":
                ok = len(o.io) == 1 and o.io[0].name == "dex_aio_read"
                if ok:
                    e = o.io[0]; ok = e.args[1] == ("c", FD) and e.args[3] == ("c", 8) and ev(e.args[4], lambda t: None) in (-1, 2 ** 64 - 1) and p.ret == e.res
                ctx.ob("eventfd", txt, ok and o.counter == ("c", c) and not o.sections, where(f, o.io[0]) if o.io else where(f), "%s: waiting does not read one 64 bit permit from the event descriptor" % txt)
            else:
                ok = [e.args[0] for e in o.io if e.name == "close"] == [("c", FD)] and final(p, SEM, "eventfd") in (("c", -1), ("c", 2 ** 32 - 1))
                ctx.ob("eventfd", txt, ok, where(f), "%s: the event descriptor is not closed exactly once and forgotten" % txt)
            continue
        ctx.ob("eventfd", txt + " without descriptor", not [e for e in o.io if e.name != "dex_aio_read"] and not pcalls(p, "dex_aio_read"), where(f, o.io[0]) if o.io else where(f), "uses an event descriptor that does not exist")
        Q, C, good, closed = list(w.ws), c, [], []
        if op in ("post", "post_many"):
            C += count
            while C > 0 and Q: good.append(Q.pop(0)); C -= 1
        elif op == "wait":
            if C > 0: C -= 1; good.append(NEW)
            else: Q.append(NEW)
        else: closed = Q; Q = []
        rule = {"post_many": "post", "post": "post", "wait": "wait", "close": "close", "finalize": "wake"}[op]
        if op != "finalize":
            ctx.ob(rule, txt + ": permits", ev(o.counter, lambda t: None) == C, where(f), "%s: %s permits are left instead of %d" % (txt, show(o.counter), C))
        ctx.ob(rule, txt + ": waiters", o.q == Q, where(f), "%s: the queue becomes %s instead of %s" % (txt, nm(o.q), nm(Q)))
        ctx.ob("wake", txt + ": woken", o.good == good, where(f), "%s: wakes %s instead of %s" % (txt, nm(o.good), nm(good)))
        ctx.ob("wake", txt + ": closed", o.closed == closed and not o.odd, where(f), "%s: settles %s as closed and %s otherwise instead of %s" % (txt, nm(o.closed), nm(o.odd), nm(closed)))
        if op != "finalize":
            ctx.ob("atomic", txt, o.naked is None and o.sections <= 1, where(f, o.naked) if o.naked else where(f), "%s: permits or waiters are touched outside the lock or in two critical sections" % txt)
            ctx.ob("wake", txt + ": outside the lock", not [t for t in o.locked if t != NEW], where(f), "a waiter is settled while the semaphore is locked")
        for x in w.ws: ctx.ob("wake", txt + ": references", o.net(x) == (0 if x in Q else -1), where(f), "%s: the reference on %s becomes %+d" % (txt, show(x), o.net(x)))
        if op == "wait":
            r = unref_strip(p.ret)
            if NEW in Q:
                blk = call_of(r, "dex_block_new")
                if blk:
                    ctx.ob("wait", txt + ": follows", unref_strip(r[2][0]) == NEW and passes(P, r[2][3]), where(f), "the future returned does not follow the queued waiter")
                else: ctx.ob("wait", txt + ": follows", r == NEW, where(f), "the future returned does not follow the queued waiter")
                ctx.ob("wait", txt + ": references", o.net(NEW) == 1, where(f), "the references on the queued waiter become %+d" % o.net(NEW))
            else: ctx.ob("wait", txt + ": returned", r == NEW and o.net(NEW) == 0, where(f), "the permit is taken but what is returned is not the completed wait")

def passes(P, cb):
    """the block callback keeps the outcome: it returns its future, or nothing"""
    f = P.funcs.get(cb[1]) if cb[0] in ("fp", "g", "fn") else None
    if f is None: return False
    return all(is0(p.ret) or unref_strip(p.ret) == ("a", 0) for p in table(P, f, K=1) if p.kind == "ret" and not misuse(p))

def p_store(p, addr, before):
    v = None
    for e in p.events:
        if e is before: break
        if e.kind == "store" and canon(e.args[0]) == canon(addr): v = e.args[1]
    return v
