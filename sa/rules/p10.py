"""discarding: interest accounting of a future over all small dependent lists, and what each kind of future cancels"""
from spec import *
import itertools
SELF = ("a", 0)
CF = "_DexChainedFuture"

def run(ctx):
    P = ctx.P; EV = P.enumval
    PEN, RES = EV["DEX_FUTURE_STATUS_PENDING"], EV["DEX_FUTURE_STATUS_RESOLVED"]
    ctx.rule("detach", "for every list of dependents: all records of the dependent that gave up, and only those, leave the list under the lock and are freed exactly once after it is released")
    ctx.rule("interest", "the future's own discard handler runs exactly when a record that was still waited on was removed and no live dependent waits any more; it runs once, unlocked, with the future kept alive")
    ctx.rule("handlers", "each kind of future stops its own work: async pairs and promises cancel their cancellable, timeouts destroy their source once, delayed futures forward to their input once, fibers note it atomically")
    ctx.rule("forward", "a set that is destroyed gives up on every input and releases it once")
    vt = P.vtables()
    g = P.fn("dex_future_discard")
    WHO = tok("dependent"); OTHER = tok("somebody"); HANDLER = tok("handler")
    names = [tok("record%d" % i) for i in range(310)]
    link = lambda r: ("f", r, CF, "link")
    rows = npaths = 0
    depth = 4 if ctx.tier == "thorough" else 3
    combos = [()]
    for k in range(1, depth + 1): combos += list(itertools.product(list(itertools.product((0, 1), (0, 1), (0, 1))), repeat=k)) if k < 4 else [c for c in itertools.product([(1, 0, 1), (1, 1, 1), (0, 1, 1), (0, 1, 0), (0, 0, 1)], repeat=4)]
    for k in sizes(P, g): combos += [((0, 1, 0),) * (k - 1) + ((1, 1, 1),), ((1, 1, 1),) + ((0, 1, 0),) * (k - 2) + ((0, 1, 1),), ((0, 1, 0),) * (k - 2) + ((0, 1, 1), (1, 1, 1))]
    for recs in combos:
        for handler in ((HANDLER, NULL) if len(recs) < 3 else (HANDLER,)):
            rows += 1
            chained = ("f", SELF, "_DexFuture", "chained")
            q = Queues({chained: [link(names[i]) for i in range(len(recs))]})
            mem = {}
            for i, (match, waiting, alive) in enumerate(recs):
                mem[(names[i], "where_future_was")] = WHO if match else OTHER
                mem[(names[i], "awaiting")] = waiting
            def deflt(a, st, handler=handler): return handler if a[0] == "f" and a[2] == "_DexFutureClass" and a[3] == "discard" else None
            def wget(ar, st, recs=recs):
                i = names.index(ar[0][1]) if ar[0][0] == "f" and ar[0][1] in names else None
                return None if i is None else tok("live%d" % i) if recs[i][2] else NULL
            ps = case(P, g, mem, {"dex_weak_ref_get": wget}, status={SELF: PEN}, args={1: WHO}, default=deflt, queues=q, K=8 + len(recs))
            txt = "%d records" % len(recs) if len(recs) > 4 else "; ".join("%s%s%s" % ("own" if m else "other", " waiting" if w else "", "" if a else " gone") for m, w, a in recs) or "none"
            ctx.ob("detach", "dependents: %s (handled)" % txt, ps, where(g), "no path for this case")
            want = [names[i] for i, r in enumerate(recs) if r[0]]
            keep = [link(names[i]) for i, r in enumerate(recs) if not r[0]]
            fire = any(m and w for m, w, a in recs) and not any(not m and w and a for m, w, a in recs)
            for p in ps:
                npaths += 1
                end = q.at(p.events).get(canon(chained), [])
                ctx.ob("detach", "dependents: %s" % txt, end == keep, where(g), "%d of %d dependents stay attached" % (len(end), len(recs)))
                freed = [e for e in pcalls(p, "g_free", "dex_chained_future_free") if e.args[0] in names]
                ctx.ob("detach", "dependents: %s are freed" % txt, sorted(e.args[0] for e in freed) == sorted(want), where(g), "frees %d records" % len(freed))
                clr = [e.args[0][1] for e in pcalls(p, "dex_weak_ref_clear") if e.args[0][0] == "f"]
                if freed and freed[0].name == "g_free": ctx.ob("detach", "weak references are cleared", sorted(clr) == sorted(want), where(g), "weak references of removed records are not cleared")
                for e in freed: ctx.ob("detach", "freed outside the lock", not held_at(p, pos(p, e)), where(g, e), "a record is freed under the lock")
                for e in p.events:
                    if e.kind == "call" and str(e.name).startswith("g_queue_") and canon(e.args[0]) == canon(chained) and "peek" not in e.name: ctx.ob("detach", "list changes under the lock", objlock(SELF) in held_at(p, pos(p, e)), where(g, e), "the list of dependents changes without the lock")
                hs = pcalls(p, "*handler")
                ctx.ob("interest", "dependents: %s" % txt, len(hs) == (1 if fire and handler == HANDLER else 0), where(g), "the future is told to discard %d times%s" % (len(hs), "" if fire else " although it is still wanted or was not waited on"))
                for e in hs:
                    i = pos(p, e)
                    ctx.ob("interest", "handler gets the future", e.args[:1] == (SELF,), where(g, e), "the wrong future is discarded")
                    ctx.ob("interest", "handler runs unlocked", not held_at(p, i), where(g, e), "the handler runs under a lock")
                    r = [pos(p, x) for x in pcalls(p, "dex_ref") if x.args[0] == SELF]; u = [pos(p, x) for x in pcalls(p, "dex_unref") if x.args[0] == SELF]
                    ctx.ob("interest", "future is kept alive meanwhile", any(x < i for x in r) and any(x > i for x in u) and not any(x < i for x in u), where(g, e), "the future may be finalized while it is being discarded")
                ctx.ob("interest", "own references balance", nref(p, SELF) == nrel(p, SELF), where(g), "the future's reference count changes")
                live = [e.res for e in pcalls(p, "dex_weak_ref_get") if e.res and e.res[0] == "tok"]
                for t in set(live): ctx.ob("interest", "other dependents are released", nrel(p, t) == live.count(t), where(g), "a reference on another dependent is leaked")
                for e in pcalls(p, "dex_unref"):
                    if e.args[0] in live: ctx.ob("interest", "other dependents are released unlocked", not held_at(p, pos(p, e)), where(g, e), "another dependent may be finalized under the lock")
    ctx.count("decision_table_rows", rows)
    # a class's own handler
    handlers = vt.get(("_DexFutureClass", "discard"), {})
    for cls in ("dex_async_pair", "dex_promise", "dex_timeout", "dex_delayed", "dex_fiber"):
        ctx.ob("handlers", "%s has a discard handler" % cls, cls in handlers, "src", "%s does not react to being discarded" % cls)
    C = tok("cancellable")
    def each(cls, *a, **k):
        nonlocal npaths
        f = P.funcs.get(handlers.get(cls))
        if not f: return None, []
        ps = case(P, f, *a, **k); npaths += len(ps)
        ctx.ob("handlers", "%s discard (handled)" % cls, ps, where(f), "no path for this case")
        return f, ps
    for on in (0, 1):
        f, ps = each("dex_async_pair", {(SELF, "cancel_on_discard"): on, (SELF, "cancellable"): C})
        for p in ps:
            c = pcalls(p, "g_cancellable_cancel")
            ctx.ob("handlers", "async pair, cancellation %s" % ("enabled" if on else "disabled"), [e.args[0] for e in c] == ([C] if on else []), where(f), "cancels %d times" % len(c))
            for e in c: ctx.ob("handlers", "async pair cancels unlocked", not held_at(p, pos(p, e)), where(f, e), "cancels under a lock")
    for c0 in (C, NULL):
        f, ps = each("dex_promise", {(SELF, "cancellable"): c0})
        for p in ps:
            c = [e for e in pcalls(p, "g_cancellable_cancel") if e.args[0] != NULL]
            ctx.ob("handlers", "promise %s cancellable" % ("with" if c0 == C else "without"), [e.args[0] for e in c] == ([C] if c0 == C else []), where(f), "cancels %d times" % len(c))
            for e in c: ctx.ob("handlers", "promise cancels unlocked", not held_at(p, pos(p, e)), where(f, e), "cancels under a lock")
    SRC = tok("source")
    for s in (SRC, NULL):
        f, ps = each("dex_timeout", {(SELF, "source"): s})
        for p in ps:
            d = [e for e in pcalls(p, "g_source_destroy") if e.args[0] == SRC]; u = [e for e in pcalls(p, "g_source_unref") if e.args[0] == SRC]
            ctx.ob("handlers", "timeout %s source" % ("with" if s == SRC else "without"), (len(d), len(u)) == ((1, 1) if s == SRC else (0, 0)), where(f), "the source is destroyed %d times and released %d times" % (len(d), len(u)))
            if s == SRC:
                z = [e for e in stores_to(p, SELF, "source") if is0(e.args[1])]
                ctx.ob("handlers", "timeout takes its source under the lock", z and objlock(SELF) in held_at(p, pos(p, z[0])) and (not d or pos(p, z[0]) < pos(p, d[0])), where(f), "the source is not taken over under the lock")
            for e in d + u: ctx.ob("handlers", "timeout destroys unlocked", not held_at(p, pos(p, e)), where(f, e), "the source is destroyed under a lock")
    IN = tok("input")
    for s in (IN, NULL):
        f, ps = each("dex_delayed", {(SELF, "future"): s})
        for p in ps:
            d = pcalls(p, "dex_future_discard")
            ctx.ob("handlers", "delayed %s input" % ("with" if s == IN else "without"), [e.args[:2] for e in d] == ([(IN, SELF)] if s == IN else []), where(f), "gives up on its input %d times" % len(d))
            ctx.ob("handlers", "delayed releases its input", nrel(p, IN) == (s == IN), where(f), "releases its input %d times" % nrel(p, IN))
            if s == IN:
                z = [e for e in stores_to(p, SELF, "future") if is0(e.args[1])]
                ctx.ob("handlers", "delayed takes its input under the lock", z and objlock(SELF) in held_at(p, pos(p, z[0])), where(f), "the input is not taken over under the lock")
                if d and nrel(p, IN): ctx.ob("handlers", "delayed gives up before releasing", pos(p, d[0]) < pos(p, [e for e in pcalls(p, "dex_unref") if e.args[0] == IN][0]), where(f), "the input is used after its reference was dropped")
            for e in d: ctx.ob("handlers", "delayed forwards unlocked", not held_at(p, pos(p, e)), where(f, e), "forwards under a lock")
    f, ps = each("dex_fiber")
    for p in ps:
        w = [e for e in p.events if e.kind in ("store", "rmw", "cmpxchg") and fld(e.args[0], None, "cancelled")]
        ctx.ob("handlers", "fiber notes that it is cancelled", w and w[-1].args[-1] in (("c", 1), ("c", -1)), where(f), "the fiber does not notice that it was discarded")
        for e in w: ctx.ob("handlers", "fiber notes it atomically", bool(e.extra) or e.kind != "store" or bool(held_at(p, pos(p, e))), where(f, e), "plain store shared with the fiber's own thread")
    # destroyed combinator
    f = P.funcs.get(vt.get(("_DexObjectClass", "finalize"), {}).get("dex_future_set"))
    if ctx.need(f, "no finalizer of the future set"):
        for n, arr in ((1, tok("array")), (2, tok("array")), (3, tok("array")), (9, tok("array"))):
            ins = [tok("in%d" % i) for i in range(n)]
            def deflt(a, st):
                c = canon(a)
                if c == arr: return ins[0]
                if c[0] == "ix" and c[1] == arr and c[2][0] == "c" and c[2][1] < n: return ins[c[2][1]]
                return None
            ps = case(P, f, {(SELF, "futures"): arr, (SELF, "n_futures"): n}, default=deflt, K=12); npaths += len(ps)
            ctx.ob("forward", "destroyed set of %d (handled)" % n, ps, where(f), "no path for this case")
            for p in ps:
                d = [e for e in pcalls(p, "dex_future_discard") if e.args[1] == SELF]
                ctx.ob("forward", "destroyed set of %d gives up on every input" % n, sorted(e.args[0] for e in d) == sorted(ins), where(f), "gives up on %d of %d inputs" % (len(d), n))
                ctx.ob("forward", "destroyed set of %d releases every input" % n, all(nrel(p, t) == 1 for t in ins), where(f), "an input is not released exactly once")
                for e in d: ctx.ob("forward", "gives up before releasing", not [x for x in pcalls(p, "dex_unref") if x.args[0] == e.args[0] and pos(p, x) < pos(p, e)], where(f, e), "an input is used after it was released")
                fr = [e for e in pcalls(p, "g_free") if e.args[0] == arr]
                ctx.ob("forward", "destroyed set frees its array once", len(fr) == 1 and (not d or pos(p, fr[0]) > pos(p, d[-1])), where(f), "the array is freed %d times" % len(fr))
    ctx.count("abstract_paths", npaths); ctx.count("functions_analysed", 7)
