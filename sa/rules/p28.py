"""P28: signal and cancellable futures fire once for their own event and detach"""
from spec import *
from rules.p15 import made_error
A0, A1 = ("a", 0), ("a", 1)
ALLOC = ("g_malloc0_n", "g_malloc0", "g_malloc", "g_malloc_n", "g_slice_alloc0")
SIGNALS = (1, 2, 10, 12, 15, 28)

def run(ctx):
    P = ctx.P; vt = P.vtables()
    ctx.rule("arm", "creation: one source (signal) or handler (cancellable) for exactly the event named, whose callback gets a weak reference only; the future keeps it and can be found through the weak reference before the event can fire")
    ctx.rule("fire", "when the event fires: a live future is settled exactly once, unlocked, with its own signal number or the cancelled error, a dead one is left alone; the looked-up reference is dropped once and the future not used afterwards")
    ctx.rule("detach", "finalising removes the source or handler, whether or not it has fired, exactly once and releases what it kept; it never waits for the handler it may be running in")
    ctx.rule("weak", "the weak reference is cleared and freed with the source or handler")
    n = 0
    T, S, WR, C, H = tok("future"), tok("source"), tok("weakref"), tok("context"), tok("handler")
    def notify(dn, what):
        nonlocal n
        if dn is None: return
        f = P.funcs.get(dn[1]) if dn[0] == "g" else None
        if not ctx.need(f, "the weak reference of the %s is never cleared" % what): return
        ps = case(P, f); n += len(ps)
        for p in ps:
            c = pcalls(p, "dex_weak_ref_clear"); fr = pcalls(p, "g_free", "g_slice_free1")
            ctx.ob("weak", what, len(c) == 1 and c[0].args == (A0,) and len(fr) == 1 and A0 in fr[0].args and pos(p, c[0]) < pos(p, fr[0]), where(f), "the weak reference is not cleared and freed once")
    def fired(p, f, live, txt, ok, what):
        c = pcalls(p, "dex_future_complete", "dex_future_complete_from"); rel = [e for e in pcalls(p, "dex_unref") if e.args[0] == T]
        ctx.ob("fire", txt + ": settled", len(c) == live, where(f), "settles %d times" % len(c))
        for e in c:
            ctx.ob("fire", txt + ": outcome", ok(p, e), where(f, e), "does not settle with %s" % what)
            ctx.ob("fire", txt + ": unlocked", not held_at(p, pos(p, e)), where(f, e), "settles under a lock")
        ctx.ob("fire", txt + ": reference dropped", len(rel) == live and (not rel or not [e for e in p.events[pos(p, rel[0]) + 1:] if T in e.args or any(isinstance(a, tuple) and a[:2] == ("f", T) for a in e.args)]), where(f), "the reference is dropped %d times or used afterwards" % len(rel))
    # --- signals
    f = P.fn("dex_unix_signal_new"); cb = dn = None
    for num in SIGNALS:
        calls = {"dex_object_create_instance": T, "g_unix_signal_source_new": S, "g_main_context_default": C}
        calls.update({a: WR for a in ALLOC})
        ps = case(P, f, {}, calls, args={0: num}); n += len(ps); txt = "signal %d" % num
        ctx.ob("arm", txt + " (handled)", ps, where(f), "a documented signal is not accepted")
        for p in ps:
            ns = pcalls(p, "g_unix_signal_source_new"); at = pcalls(p, "g_source_attach"); sc = pcalls(p, "g_source_set_callback"); wi = pcalls(p, "dex_weak_ref_init")
            ctx.ob("arm", txt + ": returned", p.ret == T and nref(p, T) == 0 and nrel(p, T) == 0, where(f), "does not return the new future")
            ctx.ob("arm", txt + ": one source", len(ns) == 1 and ns[0].args == (("c", num),), where(f), "waits for %s" % [show(e.args[0]) for e in ns])
            ctx.ob("arm", txt + ": number", final(p, T, "signum") == ("c", num), where(f), "remembers %s" % show(final(p, T, "signum", ZERO)))
            ctx.ob("arm", txt + ": attached once", len(at) == 1 and at[0].args[0] == S and (is0(at[0].args[1]) or at[0].args[1] == C), where(f), "attached %d times" % len(at))
            ctx.ob("arm", txt + ": one callback", len(sc) == 1 and sc[0].args[0] == S and len(wi) == 1 and wi[0].args == (WR, T) and sc[0].args[2] == WR, where(f), "the callback is not handed a weak reference to its future")
            st = stores_to(p, T, "source")
            ctx.ob("arm", txt + ": kept", st and st[-1].args[1] == S and not pcalls(p, "g_source_unref", "g_source_destroy"), where(f), "does not keep its source")
            if at: ctx.ob("arm", txt + ": attached last", all(pos(p, e) < pos(p, at[0]) for e in sc + st + wi + stores_to(p, T, "signum")), where(f, at[0]), "the source can fire before it is set up")
            if sc: cb, dn = sc[0].args[1], sc[0].args[3]
    for num in (9, 19, 0):
        for p in [p for p in table(P, f, None, None, args={0: num}) if p.kind == "ret" and not misuse(p)]:
            ctx.ob("arm", "signal %d" % num, False, where(f), "accepts a signal that cannot be handled")
    g = P.funcs.get(cb[1]) if cb and cb[0] == "g" else None
    if ctx.need(g, "no callback of the signal source"):
        for live in (1, 0):
            for num in (2, 10):
                ps = case(P, g, {(T, "signum"): num, (T, "source"): S}, {"dex_weak_ref_get": T if live else NULL}, locs=True); n += len(ps)
                txt = "%s signal future" % ("live" if live else "dead")
                ctx.ob("fire", txt + " (handled)", ps, where(g), "no path")
                def ok(p, e):
                    if not is0(e.args[2]) or e.name != "dex_future_complete": return False
                    v = gval(p, pos(p, e), e.args[1])
                    return v.type == ("c", GT["int"]) and v.payload == ("c", num) and v.how in ("set_int", "raw")
                for p in ps:
                    fired(p, g, live, txt, ok, "its signal number")
                    ctx.ob("fire", txt + ": looked up once", len(pcalls(p, "dex_weak_ref_get")) == 1 and pcalls(p, "dex_weak_ref_get")[0].args == (A0,), where(g), "looks up the future %d times" % len(pcalls(p, "dex_weak_ref_get")))
                    ctx.ob("fire", txt + ": source", p.ret == ZERO, where(g), "the source stays armed")
    notify(dn, "signal source")
    g = P.funcs.get(vt.get(("_DexObjectClass", "finalize"), {}).get("dex_unix_signal"))
    if ctx.need(g, "no finaliser of signal futures"):
        for src, dead in ((NULL, 0), (S, 0), (S, 1)):
            ps = case(P, g, {(A0, "source"): src}, {"g_source_is_destroyed": dead}); n += len(ps)
            for p in ps:
                d = [e for e in pcalls(p, "g_source_destroy") if e.args[0] == S]; u = [e for e in pcalls(p, "g_source_unref") if e.args[0] == S]
                ctx.ob("detach", "signal: source released", len(u) == (src == S), where(g), "releases its source %d times" % len(u))
                if src == S and not dead: ctx.ob("detach", "signal: source removed", d and u and pos(p, d[0]) < pos(p, u[0]), where(g), "does not remove its source")
    # --- cancellables
    f = P.fn("dex_cancellable_new_from_cancellable"); cb = dn = None
    for hid in (H, 0):
        calls = {"dex_object_create_instance": T, "dex_cancellable_new": T, "g_cancellable_connect": hid, "g_signal_connect_data": hid}
        calls.update({a: WR for a in ALLOC})
        ps = case(P, f, {}, calls); n += len(ps); txt = "cancelled already" if hid == 0 else "not cancelled yet"
        ctx.ob("arm", txt + " (handled)", ps, where(f), "no path")
        for p in ps:
            cn = pcalls(p, "g_cancellable_connect"); wi = pcalls(p, "dex_weak_ref_init")
            ctx.ob("arm", txt + ": returned", p.ret == T and nref(p, T) == 0 and nrel(p, T) == 0, where(f), "does not return the new future")
            ctx.ob("arm", txt + ": one handler", len(cn) == 1 and cn[0].args[0] == A0, where(f), "the handler is connected %d times in a way that notices an earlier cancellation" % len(cn))
            ctx.ob("arm", txt + ": weak reference", cn and len(wi) == 1 and wi[0].args == (WR, T) and cn[0].args[2] == WR, where(f), "the handler is not handed a weak reference to its future")
            hs = stores_to(p, T, "handler")
            ctx.ob("arm", txt + ": handler kept", is0(final(p, T, "handler", ZERO)) if hid == 0 else final(p, T, "handler") == H, where(f), "does not remember its handler")
            ctx.ob("arm", txt + ": cancellable kept", final(p, T, "cancellable") == A0 and nref(p, A0) == 1 and nrel(p, A0) == 0, where(f), "does not keep exactly one reference to the cancellable")
            for e in cn:
                ctx.ob("arm", txt + ": connected last", all(pos(p, x) < pos(p, e) for x in wi + stores_to(p, T, "cancellable")), where(f, e), "the handler can run before it is set up")
                ctx.ob("arm", txt + ": connected unlocked", not held_at(p, pos(p, e)), where(f, e), "connects under a lock")
                cb, dn = e.args[1], e.args[3]
    g = P.funcs.get(cb[1]) if cb and cb[0] == "g" else None
    kept = True
    if ctx.need(g, "no handler of cancellable futures"):
        for live in (1, 0):
            ps = case(P, g, {(T, "handler"): H, (T, "cancellable"): A0}, {"dex_weak_ref_get": T if live else NULL}); n += len(ps)
            txt = "%s cancellable future" % ("live" if live else "dead")
            ctx.ob("fire", txt + " (handled)", ps, where(g), "no path")
            ok = lambda p, e: e.name == "dex_future_complete" and is0(e.args[1]) and made_error(e.args[2]) == ("g_io_error_quark", 19)
            for p in ps:
                fired(p, g, live, txt, ok, "the cancelled error")
                ctx.ob("fire", txt + ": looked up once", len(pcalls(p, "dex_weak_ref_get")) == 1 and pcalls(p, "dex_weak_ref_get")[0].args == (A1,), where(g), "looks up the future %d times" % len(pcalls(p, "dex_weak_ref_get")))
                w = pcalls(p, "g_cancellable_disconnect")
                ctx.ob("detach", "the handler does not wait for itself", not w, where(g), "waits for the handler it runs in")
                forgot = any(is0(e.args[1]) for e in stores_to(p, T, "handler")) and not pcalls(p, "g_signal_handler_disconnect")
                ctx.ob("detach", "a fired handler is not forgotten", not forgot, where(g), "forgets its handler without disconnecting it")
    notify(dn, "cancellable handler")
    g = P.funcs.get(vt.get(("_DexObjectClass", "finalize"), {}).get("dex_cancellable"))
    if ctx.need(g, "no finaliser of cancellable futures"):
        for have, h in ((NULL, 0), (C, 0), (C, H)):
            ps = case(P, g, {(A0, "cancellable"): have, (A0, "handler"): h}, {"g_signal_handler_is_connected": 1 if h != 0 else 0}); n += len(ps)
            ctx.ob("detach", "cancellable (handled)", ps, where(g), "no path")
            for p in ps:
                d = [e for e in pcalls(p, "g_signal_handler_disconnect") if e.args[0] == C and e.args[1] == H] + [e for e in pcalls(p, "g_clear_signal_handler") if h != 0 and e.args[1] == C]; u = [e for e in pcalls(p, "g_object_unref") if e.args[0] == C]
                w = pcalls(p, "g_cancellable_disconnect")
                ctx.ob("detach", "cancellable: handler removed", len(d) == (h != 0) and (not w or h == 0), where(g), "waits for the handler it may be running in" if w else "disconnects its handler %d times" % len(d))
                ctx.ob("detach", "cancellable: released", len(u) == (have == C) and (not d or not u or pos(p, d[0]) < pos(p, u[0])), where(g), "releases the cancellable %d times" % len(u))
    f = P.funcs.get("dex_cancellable_cancel")
    if ctx.need(f, "no dex_cancellable_cancel"):
        ps = case(P, f); n += len(ps)
        for p in ps:
            c = pcalls(p, "dex_future_complete")
            ctx.ob("fire", "cancelled by hand", len(c) == 1 and c[0].args[0] == A0 and is0(c[0].args[1]) and made_error(c[0].args[2]) == ("g_io_error_quark", 19), where(f), "does not reject once as cancelled")
    ctx.count("abstract_paths", n)
