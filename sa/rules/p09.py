"""chained callbacks: dispatch table of the block, hand-over to the scheduler, release of the callback data, constructors"""
from spec import *
import itertools

B = "_DexBlock"
SELF, UP = ("a", 0), ("a", 1)

def run(ctx):
    P = ctx.P; EV = P.enumval
    RES, REJ = EV["DEX_FUTURE_STATUS_RESOLVED"], EV["DEX_FUTURE_STATUS_REJECTED"]
    THEN, CATCH, FIN, LOOP = (EV["DEX_BLOCK_KIND_" + x] for x in ("THEN", "CATCH", "FINALLY", "LOOP"))
    ctx.rule("dispatch", "for every kind, outcome, handled state and calling scheduler: the callback runs exactly when its kind matches and it has not been used up, synchronously only on the captured scheduler, otherwise it is handed to that scheduler with its own references; otherwise the outcome passes through")
    ctx.rule("continue", "a future returned by the callback is remembered, waited for once and its reference dropped; without one the callback data is released and the outcome of the input is passed on unchanged")
    ctx.rule("release", "callback data is destroyed exactly once: its destroy function runs once, outside the lock, after the block has forgotten it; finalization destroys what is left")
    ctx.rule("create", "a block stores all it was given before it waits for its input, keeps its own reference of the scheduler, and nothing replaces scheduler, kind or callback later")
    ctx.rule("constructors", "each chaining function creates a block of the kind in its name with the caller's callback and data")
    vt = P.vtables()
    name = vt.get(("_DexFutureClass", "propagate"), {}).get("dex_block")
    if not ctx.need(name, "no propagate implementation of the block"): return
    f = P.funcs[name]
    kinds = {"then": THEN, "catch": CATCH, "finally": FIN}
    CB, DATA, DESTROY, S1, S2, PREV, NEXT = (tok(x) for x in ("callback", "data", "destroy", "scheduler", "other", "previous", "next"))
    def check_callback(where_, inst, p, blk, up, res, destroy, sync):
        """what must happen once the callback has run"""
        cbs = pcalls(p, "*callback")
        ctx.ob("dispatch", inst, len(cbs) == 1 and cbs[0].args[:2] == (up, DATA), where_, "the callback runs %d times%s" % (len(cbs), "" if len(cbs) != 1 else " with the wrong arguments"))
        if not cbs: return
        k = pos(p, cbs[0])
        ctx.ob("dispatch", inst + " runs unlocked", not held_at(p, k), where(p.fn, cbs[0]), "the callback runs with a lock held")
        ds = pcalls(p, "*destroy"); ch = pcalls(p, "dex_future_chain")
        if res == NULL:
            ctx.ob("release", inst + ", no future returned", len(ds) == (destroy is not None), where_, "the callback data is destroyed %d times" % len(ds))
            for d in ds:
                i = pos(p, d)
                ok = d.args[:1] == (DATA,) and i > k and not held_at(p, i)
                ctx.ob("release", inst + " destroys its data", ok, where(p.fn, d), "the callback data is destroyed %s" % ("before the callback ran" if i < k else "under a lock" if held_at(p, i) else "with %s" % show(d.args[0])))
                c1 = [e for e in stores_to(p, blk, "callback_data_destroy") if pos(p, e) < i and is0(e.args[1])]
                ctx.ob("release", inst + " forgets before destroying", bool(c1), where(p.fn, d), "the destroy function is still set when it is called: finalization would run it again")
            if ds:
                ctx.ob("release", inst + " forgets its data", is0(final(p, blk, "callback_data_destroy", CB)), where_, "the destroy function stays set after it was called")
            ctx.ob("continue", inst + ", no future returned", not ch, where_, "waits for something although the callback returned nothing")
        else:
            ctx.ob("release", inst + ", future returned", not ds, where_, "the callback data is destroyed although the block still waits")
            ctx.ob("continue", inst + ", future returned", len(ch) == 1 and ch[0].args[:2] == (NEXT, blk), where_, "the returned future is chained %d times" % len(ch))
            ctx.ob("continue", inst + " drops the returned reference", nrel(p, NEXT) - nref(p, NEXT) == (0 if final(p, blk, "awaiting") == NEXT else 1), where_, "the reference of the returned future is released %d times and taken %d times" % (nrel(p, NEXT), nref(p, NEXT)))
            if ch:
                aw = [e for e in stores_to(p, blk, "awaiting") if e.args[1] == NEXT and pos(p, e) < pos(p, ch[0])]
                ctx.ob("continue", inst + " remembers the future", bool(aw), where(p.fn, ch[0]), "the block does not know what it is waiting for when it chains")
                for e in aw: ctx.ob("continue", inst + " remembers under the lock", objlock(blk) in held_at(p, pos(p, e)), where(p.fn, e), "awaiting is set without the lock")
                rel = [e for e in pcalls(p, "dex_unref") if e.args[0] == NEXT]
                ctx.ob("continue", inst + " chains while it owns the future", not rel or pos(p, rel[0]) > pos(p, ch[0]) or nref(p, NEXT), where(p.fn, ch[0]), "the future is released before it is chained")
    pushed = {}
    rows = np = 0
    for (kn, kind), loop, handled, st, sched, depth, res, destroy, prev in itertools.product(kinds.items(), (0, LOOP), (0, 1), (RES, REJ), (S1, S2, NULL), (0, 1, 1000), (NULL, NEXT), (DESTROY, None), (PREV, NULL)):
        if prev == NULL and (depth or destroy is None): continue
        rows += 1
        match = bool(kind & (THEN if st == RES else CATCH))
        runs = match and (loop or not handled)
        inst = "%s%s, %s input%s, %s scheduler" % (kn, " loop" if loop else "", "resolved" if st == RES else "rejected", ", handled" if handled else "", "captured" if sched == S1 else "another" if sched == S2 else "no")
        mem = {(SELF, "kind"): kind | loop, (SELF, "handled"): handled, (SELF, "scheduler"): S1, (SELF, "callback"): CB, (SELF, "callback_data"): DATA,
               (SELF, "callback_data_destroy"): destroy or NULL, (SELF, "awaiting"): prev, (UP, "resolved"): None, (UP, "rejected"): tok("error") if st == REJ else NULL}
        def deflt(a, s, depth=depth):
            return depth if a[0] == "f" and a[3] == "sync_dispatch_depth" else None
        snap = []
        def memdup(ar, s): snap.append(struct_of(s, ar[0])); return None
        def pushc(ar, s):
            if ar[2][0] == "call" and ar[2][1] != "g_memdup2" or ar[2][0] == "alloca":
                d = {a[3]: v for a, v in s.heap.items() if a[0] == "f" and a[1] == ar[2]}
                if d: snap.append(d)
            return None
        ps = case(P, f, mem, {"dex_scheduler_get_thread_default": sched, "*callback": res, "g_memdup2": memdup, "dex_scheduler_push": pushc}, {UP: st}, default=deflt)
        ctx.ob("dispatch", inst + " (handled)", ps, where(f), "no path for this case")
        for p in ps:
            np += 1
            push = pcalls(p, "dex_scheduler_push"); cbs = pcalls(p, "*callback"); own = pcalls(p, "dex_future_complete", "dex_future_complete_from")
            ctx.ob("release", "input is released", nrel(p, PREV) - nref(p, PREV) == (1 if prev == PREV else 0), where(f), "the future waited for so far is released %d times" % nrel(p, PREV))
            if not runs:
                ctx.ob("dispatch", inst, not push and not cbs, where(f), "the callback runs although it does not apply")
                ctx.ob("dispatch", inst + " passes through", p.ret == ZERO and not own, where(f), "the outcome is not passed through")
                ctx.ob("release", inst + " keeps its data", not pcalls(p, "*destroy"), where(f), "the callback data is destroyed although the block lives on")
            else:
                if not loop:
                    h = stores_to(p, SELF, "handled")
                    ctx.ob("dispatch", inst + " is used up", h and h[-1].args[1] in (("c", 1), ("c", -1)) and objlock(SELF) in held_at(p, pos(p, h[-1])), where(f), "the callback is not marked as used under the lock")
                if push:
                    ctx.ob("dispatch", inst + " (deferred)", len(push) == 1 and push[0].args[0] == S1 and not cbs, where(f), "the callback is not handed to the captured scheduler exactly once")
                    ctx.ob("dispatch", inst + " (deferred) owns what it needs", nref(p, SELF) == 1 and nref(p, UP) == 1 and nrel(p, SELF) == nrel(p, UP) == 0, where(f), "block and input are not kept alive until the scheduler runs the callback")
                    ctx.ob("dispatch", inst + " (deferred) waits", p.ret == ("c", 1) and not own, where(f), "the block settles before its deferred callback ran")
                    fields = snap[-1] if snap else {}
                    ctx.ob("dispatch", inst + " (deferred) carries block and input", SELF in fields.values() and UP in fields.values(), where(f), "the deferred call does not carry the block and its input")
                    fnm = push[0].args[1]
                    if fnm[0] == "g" and fields: pushed[fnm[1]] = dict(fields)
                else:
                    ctx.ob("dispatch", inst, sched == S1 and depth < 1000, where(f), "the callback runs synchronously on a scheduler that was not captured" if sched != S1 else "the callback recurses without bound")
                    check_callback(where(f), inst, p, SELF, UP, res, destroy, True)
                    ctx.ob("continue", inst + " settles when it should", p.ret == (ZERO if res == NULL else ("c", 1)) and not own, where(f), "the block %s although the callback returned %s" % ("waits" if res == NULL else "settles", "nothing" if res == NULL else "a future"))
                    d = [e for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][3] == "sync_dispatch_depth"]
                    if d: ctx.ob("dispatch", "recursion depth is restored", d[-1].args[1] == ("c", depth), where(f), "the recursion depth changes from %d to %s" % (depth, show(d[-1].args[1])))
    ctx.ob("dispatch", "deferred dispatch exists", pushed, where(f), "no case defers the callback to the captured scheduler")
    # the deferred half
    for nm, fields in pushed.items():
        g = P.funcs[nm]
        for st, res, destroy in itertools.product((RES, REJ), (NULL, NEXT), (DESTROY, None)):
            rows += 1
            BLK, CO, ERR = tok("block"), tok("input"), tok("error")
            mem = {(("a", 0), k): BLK if v == SELF else CO if v == UP else v for k, v in fields.items()}
            mem.update({(BLK, "callback"): CB, (BLK, "callback_data"): DATA, (BLK, "callback_data_destroy"): destroy or NULL, (BLK, "awaiting"): NULL, (CO, "rejected"): ERR if st == REJ else NULL, (BLK, "scheduler"): S1})
            inst = "deferred, %s input, callback returns %s" % ("resolved" if st == RES else "rejected", "nothing" if res == NULL else "a future")
            VAL = ("f", CO, "_DexFuture", "resolved")
            def getv(ar, s): return [VAL if st == RES else NULL, [] if ar[1] == NULL else [(ar[1], ERR if st == REJ else NULL)]]
            ps = case(P, g, mem, {"*callback": res, "g_error_copy": lambda ar, s: tok("copy of " + ar[0][1]) if ar[0][0] == "tok" else None, "dex_future_get_value": getv}, {CO: st})
            ctx.ob("dispatch", inst + " (handled)", ps, where(g), "no path for this case")
            for p in ps:
                np += 1
                check_callback(where(g), inst, p, BLK, CO, res, destroy, False)
                own = pcalls(p, "dex_future_complete", "dex_future_complete_from")
                if res == NULL:
                    ok = len(own) == 1 and own[0].args[0] == BLK
                    if ok and own[0].name == "dex_future_complete_from": ok = own[0].args[1] == CO
                    elif ok: ok = own[0].args[1:3] == ((VAL, NULL) if st == RES else (NULL, tok("copy of error"))) or (st == REJ and own[0].args[1:3] == (NULL, ERR) and pcalls(p, "dex_future_get_value"))
                    ctx.ob("continue", inst, ok, where(g), "the input's outcome is not passed on unchanged")
                else: ctx.ob("continue", inst, not own, where(g), "the block settles although it waits for the returned future")
                ctx.ob("continue", inst + " releases", nrel(p, BLK) == 1 and nrel(p, CO) == 1 and len([e for e in pcalls(p, "g_free") if e.args[0] == ("a", 0)]) == 1, where(g), "the deferred call releases block %d times, input %d times" % (nrel(p, BLK), nrel(p, CO)))
                rel = [e for e in pcalls(p, "dex_unref") if e.args[0] in (BLK, CO)]
                use = [pos(p, e) for e in p.events if e.kind in ("call", "store") and e not in rel and any(find_sub(a, lambda t: t in (BLK, CO)) is not None for a in e.args)]
                if rel and use: ctx.ob("continue", inst + " does not use after release", all(pos(p, r) > max(u for u in use if True) or not [u for u in use if u > pos(p, r) and any(find_sub(a, lambda t: t == r.args[0]) is not None for a in p.events[u].args)] for r in rel), where(g), "block or input is used after its reference was dropped")
    ctx.count("decision_table_rows", rows); ctx.count("abstract_paths", np)
    # finalization
    g = P.funcs.get(vt.get(("_DexObjectClass", "finalize"), {}).get("dex_block"))
    if ctx.need(g, "no finalizer of the block"):
        for destroy, prev in itertools.product((DESTROY, None), (PREV, NULL)):
            mem = {(SELF, "callback"): CB, (SELF, "callback_data"): DATA, (SELF, "callback_data_destroy"): destroy or NULL, (SELF, "awaiting"): prev, (SELF, "scheduler"): S1}
            ps = case(P, g, mem)
            ctx.ob("release", "finalize (handled)", ps, where(g), "no path for this case")
            for p in ps:
                ds = pcalls(p, "*destroy")
                ctx.ob("release", "finalize destroys the callback data", len(ds) == (destroy is not None) and all(d.args[:1] == (DATA,) for d in ds), where(g), "the callback data is destroyed %d times" % len(ds))
                ctx.ob("release", "finalize releases the input", nrel(p, PREV) == (prev == PREV), where(g), "the input is released %d times" % nrel(p, PREV))
                ctx.ob("release", "finalize releases the scheduler", nrel(p, S1) == 1, where(g), "the scheduler is released %d times" % nrel(p, S1))
    # creation
    g = P.fn("dex_block_new")
    argv = {0: tok("input"), 2: FIN, 3: CB, 4: DATA, 5: DESTROY}
    for sched in (S1, NULL):
        ps = case(P, g, {}, {"dex_scheduler_ref_thread_default": S2}, args={**argv, 1: sched})
        ctx.ob("create", "dex_block_new (handled)", ps, where(g), "no path for this case")
        for p in ps:
            o = pcalls(p, "dex_object_create_instance")
            obj = o[0].res if o else None
            ch = pcalls(p, "dex_future_chain")
            ctx.ob("create", "waits for its input once", len(ch) == 1 and ch[0].args[:2] == (tok("input"), obj) and p.ret == obj, where(g), "chains %d times" % len(ch))
            want = {"scheduler": S1 if sched == S1 else S2, "awaiting": tok("input"), "callback": CB, "callback_data": DATA, "callback_data_destroy": DESTROY}
            for k, v in want.items():
                s = stores_to(p, obj, k)
                ctx.ob("create", "stores its %s" % k, s and s[-1].args[1] == v and (not ch or pos(p, s[-1]) < pos(p, ch[0])), where(g), "%s is %s when the block starts to wait" % (k, show(s[-1].args[1]) if s else "not set"))
            ctx.ob("create", "stores its kind", bits_value(P, B, "kind", p) == FIN, where(g), "the kind is not stored")
            ctx.ob("create", "owns its scheduler", nref(p, S1) == (1 if sched == S1 else 0) and nrel(p, S1) == 0 and nrel(p, S2) == 0, where(g), "the scheduler's reference count is wrong")
    for fld_ in ("scheduler", "kind", "callback", "callback_data", "callback_data_destroy"):
        for fn, i in writers(P, B, fld_):
            if fn.base == "dex_block_new": continue
            v = i.a[0]
            ctx.ob("create", "%s is not replaced" % fld_, v[0] in ("n",) or v == ["c", 0] or fld_ == "scheduler" and v[0] == "n", fn.where(i), "%s of a block is replaced after creation" % fld_)
    # constructors
    table_ = {"dex_future_then": THEN, "dex_future_then_loop": THEN | LOOP, "dex_future_catch": CATCH, "dex_future_catch_loop": CATCH | LOOP, "dex_future_finally": FIN, "dex_future_finally_loop": FIN | LOOP}
    for fn, kind in table_.items():
        g = P.fn(fn)
        ps = case(P, g, {}, args={0: tok("input"), 1: CB, 2: DATA, 3: DESTROY})
        ctx.ob("constructors", fn + " (handled)", ps, where(g), "no path")
        for p in ps:
            c = pcalls(p, "dex_block_new")
            ok = len(c) == 1 and c[0].args[2] == ("c", kind)
            ctx.ob("constructors", fn + " kind", ok, where(g), "creates a block of kind %s" % (show(c[0].args[2]) if c else "none"))
            if c: ctx.ob("constructors", fn + " arguments", c[0].args[0] == tok("input") and c[0].args[3:6] == (CB, DATA, DESTROY) and p.ret == c[0].res, where(g), "the caller's arguments are not passed on")
            ctx.ob("constructors", fn + " scheduler", c and (c[0].args[1] == NULL or call_of(c[0].args[1], "dex_scheduler_get_thread_default", "dex_scheduler_ref_thread_default")), where(g), "the callback is not bound to the calling thread's scheduler")
