"""P21: a fiber runs its function once and completes with that function's outcome"""
from spec import *
from rules.fiber import *
from rules.p15 import made_error

def run(ctx):
    P = ctx.P; vt = P.vtables(); EV = P.enumval
    PEN, RES, REJ = (EV["DEX_FUTURE_STATUS_" + x] for x in ("PENDING", "RESOLVED", "REJECTED"))
    ctx.rule("create", "a new fiber keeps the function, its data, its destroy notify and stack size it was given, and is its own queue element")
    ctx.rule("entry", "the context of a fiber starts in its entry function with the fiber itself, once")
    ctx.rule("run", "the entry calls the function exactly once with its data")
    ctx.rule("outcome", "the fiber settles exactly once: with the outcome of the future returned after waiting for it, as cancelled when the wait was given up, as exited without a result when there is none; the returned future is released once, after that")
    ctx.rule("data", "the function's data is destroyed exactly once, after the function returned, and never without a destroy notify")
    ctx.rule("exit", "the fiber is marked as exited after it settled and switches to its scheduler exactly once, last, holding no lock")
    ctx.rule("cancel", "discarding only notes the cancellation atomically; the shared cancelled outcome is a rejection with the cancelled error made once")
    n = 0
    FN, D, UD, R, T = tok("function"), tok("destroy"), tok("data"), tok("returned"), tok("fiber")
    # --- create
    f = P.fn("dex_fiber_new"); entry = None
    for dn in (D, NULL):
        ps = case(P, f, {}, {"dex_object_create_instance": T}, args={0: FN, 1: UD, 2: dn, 3: 77777}); n += len(ps)
        ctx.ob("create", "creation (handled)", ps, where(f), "no path")
        for p in ps:
            ctx.ob("create", "returned", p.ret == T and nref(p, T) == nrel(p, T), where(f), "does not return the new fiber")
            for k, v in (("func", FN), ("func_data", UD), ("func_data_destroy", dn), ("stack_size", ("c", 77777))):
                got = final(p, T, k, ZERO); ctx.ob("create", k, got == v or is0(got) and is0(v), where(f), "%s is %s" % (k, show(got)))
            ctx.ob("create", "not run yet", not [e for e in p.events if e.kind == "call" and str(e.name).startswith("*")], where(f), "runs the function at once")
    inits = [P.funcs.get(g) for g in P.instance_inits() if P.funcs.get(g) and P.funcs[g].base == "dex_fiber_init"]
    if not inits: inits = [g for g in (P.funcs.get(x) for x in P.instance_inits()) if g and any(isinstance(a, tuple) and labs(a) and labs(a)[-1].endswith("DexFiber.link") for p in case(P, g) for e in p.events if e.kind == "store" for a in e.args[:1])]
    if ctx.need(inits, "no instance initialiser of fibers"):
        f = inits[0]
        for p in case(P, f):
            n += 1
            ld = [e for e in p.events if e.kind == "store" and lab(e.args[0]) and e.args[0][3] == "data" and "DexFiber.link" in labs(e.args[0])]
            ctx.ob("create", "own element", len(ld) == 1 and ld[0].args[1] == A0, where(f), "the queue element does not name its fiber")
            hf = [e for e in p.events if e.kind == "store" and "DexFiber.hook" in labs(e.args[0]) and e.args[0][3] == "func"]; hd = [e for e in p.events if e.kind == "store" and "DexFiber.hook" in labs(e.args[0]) and e.args[0][3] == "data"]
            ctx.ob("entry", "entry data", len(hd) == 1 and hd[0].args[1] == A0, where(f), "the entry function is not given the fiber")
            if ctx.need(len(hf) == 1 and hf[0].args[1][0] == "g", "no entry function of fibers"): entry = P.funcs.get(hf[0].args[1][1])
    # --- entry trampoline
    mk = [(fn, i) for fn in P.defined.values() for b in fn.blocks for i in b if i.op == "call" and i.f[0] == "g" and i.f[1] in ("makecontext", "libucontext_makecontext")]
    tramp = {i.a[1][1] for fn, i in mk if len(i.a) > 1 and i.a[1][0] == "g"}
    if mk and ctx.need(len(tramp) == 1, "fibers start in %s" % sorted(tramp)):
        t = P.funcs[next(iter(tramp))]; PTR = 0x7f12_3456_9abc_def0
        ps = case(P, t, {}, {}, args={0: PTR & 0xffffffff, 1: PTR >> 32}, default=lambda a, st: None); n += len(ps)
        for p in ps:
            c = [e for e in p.events if e.kind == "call" and str(e.name).startswith("*")]
            ctx.ob("entry", "trampoline calls once", len(c) == 1 and len(c[0].args) == 1, where(t), "enters %d times" % len(c))
            for e in c:
                b = e.args[0][1][1] if e.args[0][0] == "ld" and e.args[0][1][0] == "f" else None
                while isinstance(b, tuple) and b[0] in ("f", "ix"): b = b[1]
                v = ev(b, lambda x: None) if b is not None else None
                ctx.ob("entry", "trampoline puts the pointer together", v == PTR, where(t, e), "enters with the data of %s" % (show(b) if b else show(e.args[0])))
        ctx.count("contexts_made", len(mk))
    # --- run
    if ctx.need(entry, "no entry function of fibers"):
        f = entry
        OWN = tok("own-context")
        for dn in (D, NULL):
            for ret, stt in ((NULL, None), (R, RES), (R, REJ), (R, PEN)):
                txt = "returns %s%s" % ("nothing" if ret == NULL else "a future %s after the wait" % ("pending" if stt == PEN else "resolved" if stt == RES else "rejected"), "" if dn == D else ", no destroy notify")
                ps = case(P, f, {(A0, "func"): FN, (A0, "func_data"): UD, (A0, "func_data_destroy"): dn, (A0, "fiber_scheduler"): SCHED}, {"*function": ret, "*_DexFiber.func": ret}, status={R: stt} if ret == R else {}, default=glob); n += len(ps)
                ctx.ob("run", txt + " (handled)", ps, where(f), "no path")
                for p in ps:
                    fc = pcalls(p, "*function"); dc = pcalls(p, "*destroy")
                    ctx.ob("run", txt, len(fc) == 1 and fc[0].args[:1] == (UD,) and not held_at(p, pos(p, fc[0])), where(f), "runs the function %d times with %s" % (len(fc), [show(x) for e in fc for x in e.args]))
                    c = pcalls(p, "dex_future_complete", "dex_future_complete_from"); w = [e for e in pcalls(p, "dex_await_borrowed", "dex_await") if e.args[0] == R]
                    ctx.ob("outcome", txt + ": settles once", len(c) == 1 and c[0].args[0] == A0, where(f), "settles %d times" % len(c))
                    if ret == R:
                        ctx.ob("outcome", txt + ": waits", len(w) == 1 and w[0].name == "dex_await_borrowed" and fc and pos(p, w[0]) > pos(p, fc[0]), where(f), "waits %d times for the future it returned" % len(w))
                        want = CANC if stt == PEN else R
                        for e in c:
                            ok = e.name.endswith("_from") and e.args[1] == want or stt == PEN and e.name == "dex_future_complete" and is0(e.args[1]) and made_error(e.args[2]) == ("dex_error_quark", EV.get("DEX_ERROR_FIBER_CANCELLED"))
                            ctx.ob("outcome", txt, ok and (not w or pos(p, e) > pos(p, w[0])), where(f, e), "settles with %s" % show(e.args[1]))
                        rel = [e for e in pcalls(p, "dex_unref") if e.args[0] == R]
                        ctx.ob("outcome", txt + ": released", len(rel) == 1 and (not c or pos(p, rel[0]) > pos(p, c[-1])) and (not w or pos(p, rel[0]) > pos(p, w[0])), where(f), "releases the future %d times" % len(rel))
                    else:
                        for e in c: ctx.ob("outcome", txt, e.name == "dex_future_complete" and is0(e.args[1]) and made_error(e.args[2]) == ("dex_error_quark", EV.get("DEX_ERROR_FIBER_EXITED")), where(f, e), "settles with %s" % show(e.args[1]))
                    for e in c: ctx.ob("outcome", txt + ": unlocked", not held_at(p, pos(p, e)), where(f, e), "settles under a lock")
                    ctx.ob("data", txt, len(dc) == (dn == D) and all(e.args[:1] == (UD,) for e in dc), where(f), "destroys the data %d times" % len(dc))
                    for e in dc: ctx.ob("data", txt + ": after the function", fc and pos(p, e) > pos(p, fc[-1]) and (not w or pos(p, e) > pos(p, w[-1])), where(f, e), "destroys the data while it is used")
                    sw = pcalls(p, *SWITCH); ex = [e for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == A0 and (e.args[0][3] == "exited" or isflags(e.args[0]))]
                    ctx.ob("exit", txt + ": switches away once", len(sw) == 1 and ctxof(sw[0].args[0]) == A0 and ctxof(sw[0].args[-1]) == SCHED and not held_at(p, pos(p, sw[0])), where(f), "switches away %d times" % len(sw))
                    ctx.ob("exit", txt + ": marked", bit(P, p, A0, "exited", 0) == 1 and sw and c and pos(p, ex[0]) > pos(p, c[-1]) and pos(p, ex[-1]) < pos(p, sw[0]), where(f), "is not marked as exited between settling and switching")
                    if sw: ctx.ob("exit", txt + ": last", not [e for e in p.events[pos(p, sw[0]) + 1:] if e.kind in ("call", "store")], where(f, sw[0]), "something is left to do after the last switch")
    # --- cancel
    g = P.funcs.get(vt.get(("_DexFutureClass", "discard"), {}).get("dex_fiber"))
    if ctx.need(g, "fibers have no discard handler"):
        for p in case(P, g):
            n += 1
            s = [e for e in p.events if e.kind in ("store", "rmw", "cmpxchg")]
            ctx.ob("cancel", "noted", len(s) == 1 and s[0].args[0] == ("f", A0, FB, "cancelled") and (s[0].kind != "store" or ev(s[0].args[1], lambda t: None) not in (0, None)), where(g), "does not note the cancellation alone")
            for e in s: ctx.ob("cancel", "atomically", e.kind != "store" or bool(e.inst.raw.get("ord") or e.inst.raw.get("atomic")), where(g, e), "notes the cancellation with a plain store")
            ctx.ob("cancel", "nothing else", not [e for e in p.events if e.kind == "call"], where(g), "does more than noting the cancellation")
    mk = []
    for fn in P.defined.values():
        if not fn.base.endswith("fiber_class_init"): continue
        for p in case(P, fn, {}, {}, default=lambda a, st: NULL if a[0] == "g" else None):
            n += 1
            for e in p.events:
                if e.kind == "store" and e.args[0][0] == "g": mk.append((fn, e))
    ctx.ob("cancel", "shared outcome", mk, "", "the shared cancelled outcome is never made")
    for fn, e in mk:
        v = e.args[1]
        d = v[2] if v[0] == "call" else ()
        ctx.ob("cancel", "shared outcome: error", v[0] == "call" and v[1] in ("dex_future_new_reject", "dex_future_new_for_error") and ((len(d) > 1 and d[0][:2] == ("call", "dex_error_quark") and d[1] == ("c", EV.get("DEX_ERROR_FIBER_CANCELLED"))) or (d and made_error(d[0]) == ("dex_error_quark", EV.get("DEX_ERROR_FIBER_CANCELLED")))), where(fn, e), "the cancelled outcome is %s" % show(v))
    ctx.count("abstract_paths", n)
