"""P27: timeouts reject once with the timed-out error and never outlive their source"""
from spec import *
from rules.p15 import made_error

A0, A1 = ("a", 0), ("a", 1)

def widths(f, ops=("mul", "add", "sub", "shl")):
    """arithmetic of f that is carried out in fewer than 64 bits"""
    return [i for b in f.blocks for i in b if i.op in ops and i.ty in ("i32", "i16", "i8")]

def run(ctx):
    P = ctx.P; vt = P.vtables()
    ctx.rule("scale", "seconds, milliseconds and microseconds: the deadline is the monotonic clock plus the duration in microseconds, computed in 64 bits")
    ctx.rule("arm", "creating a timeout: one source with exactly the deadline given and one callback, kept by the future, attached once, last, to the context of the current or else the default scheduler")
    ctx.rule("weak", "the source's callback gets a weak reference only, cleared and freed with the source")
    ctx.rule("fire", "when the source fires: a live future is rejected once with the timed-out error and gives up its source under its lock, a dead one is left alone; the source is removed either way")
    ctx.rule("end", "finalising removes an active source and drops the reference to it exactly once; postponing moves the deadline only of a source that is still there, under the lock")
    n = 0
    # --- conversion
    NOW = tok("now")
    SC = {"dex_timeout_new_seconds": 1000000, "dex_timeout_new_msec": 1000, "dex_timeout_new_usec": 1}
    for name, k in SC.items():
        f = P.funcs.get(name)
        if not ctx.need(f, "no function %s" % name): continue
        ps = case(P, f, {}, {"g_get_monotonic_time": NOW}); n += len(ps)
        ctx.ob("scale", name + " (handled)", ps, where(f), "no path")
        for p in ps:
            d = pcalls(p, "dex_timeout_new_deadline", *SC)
            ctx.ob("scale", name + ": one timeout", len(d) == 1 and p.ret == d[0].res, where(f), "creates %d timeouts" % len(d))
            for e in d:
                for v in (0, 1, 7, 2147483, 2147483647, -5):
                    env = lambda t: v if t == A0 else 10**12 if t == NOW else None
                    got = ev(e.args[0], env)
                    want = 10**12 + v * k if e.name == "dex_timeout_new_deadline" else (v * k) / SC[e.name]
                    ctx.ob("scale", "%s of %d" % (name, v), got == want, where(f, e), "the deadline is %s" % show(e.args[0]))
        for i in widths(f): ctx.ob("scale", name + ": 64 bits", False, f.where(i), "the duration is computed in %s and can overflow" % i.ty)
        ctx.ob("scale", name + ": arithmetic inspected", True, where(f))
    # --- arm
    f = P.funcs.get("dex_timeout_new_deadline"); cb = dn = None
    if ctx.need(f, "no dex_timeout_new_deadline"):
        T, S, WR, SCH, DEF, C = tok("timeout"), tok("source"), tok("weakref"), tok("current"), tok("default"), tok("context")
        for cur in (SCH, NULL):
            calls = {"dex_object_create_instance": T, "g_timeout_source_new": S, "g_timeout_source_new_seconds": S, "g_malloc0_n": WR, "g_malloc0": WR, "g_malloc": WR, "g_malloc_n": WR, "g_slice_alloc0": WR, "g_source_new": S,
                     "dex_scheduler_get_thread_default": cur, "dex_scheduler_get_default": DEF, "dex_scheduler_get_main_context": lambda a, st: C if a[0] == (cur if cur != NULL else DEF) else tok("wrong-context")}
            ps = case(P, f, {}, calls); n += len(ps); txt = "%s scheduler" % ("current" if cur != NULL else "default")
            ctx.ob("arm", txt + " (handled)", ps, where(f), "no path")
            for p in ps:
                ctx.ob("arm", txt + ": returned", p.ret == T, where(f), "does not return the new future")
                rt = pcalls(p, "g_source_set_ready_time"); at = pcalls(p, "g_source_attach"); sc = pcalls(p, "g_source_set_callback")
                ctx.ob("arm", txt + ": deadline", len(rt) == 1 and rt[0].args == (S, A0), where(f), "the source's deadline is %s" % (show(rt[0].args[1]) if rt else "not set"))
                ctx.ob("arm", txt + ": attached once", len(at) == 1 and at[0].args == (S, C), where(f), "attached %d times" % len(at))
                ctx.ob("arm", txt + ": one callback", len(sc) == 1 and sc[0].args[0] == S, where(f), "the callback is set %d times" % len(sc))
                st = stores_to(p, T, "source")
                ctx.ob("arm", txt + ": kept", st and st[-1].args[1] == S and not pcalls(p, "g_source_unref", "g_source_destroy"), where(f), "the future does not keep its source")
                if at: ctx.ob("arm", txt + ": attached last", all(pos(p, e) < pos(p, at[0]) for e in rt + sc + st + pcalls(p, "dex_weak_ref_init")), where(f, at[0]), "the source can fire before it is set up")
                wi = pcalls(p, "dex_weak_ref_init")
                ctx.ob("weak", txt + ": weak reference", sc and len(wi) == 1 and wi[0].args == (WR, T) and sc[0].args[2] == WR, where(f), "the callback is not handed a weak reference to its future")
                ctx.ob("weak", txt + ": no strong reference", not [e for e in pcalls(p, "dex_ref") if e.args[0] == T], where(f), "the source keeps its future alive")
                if sc:
                    cb, dn = sc[0].args[1], sc[0].args[3]
    cbf = P.funcs.get(cb[1]) if cb and cb[0] == "g" else None; dnf = P.funcs.get(dn[1]) if dn and dn[0] == "g" else None
    TO = P.enumval.get("DEX_ERROR_TIMED_OUT")
    if ctx.need(cbf, "no callback of the timeout source"):
        T, S = tok("timeout"), tok("source")
        for live in (1, 0):
            for src in (S, NULL):
                ps = case(P, cbf, {(T, "source"): src}, {"dex_weak_ref_get": T if live else NULL}); n += len(ps)
                txt = "%s future, %s" % ("live" if live else "dead", "with source" if src == S else "source given up")
                ctx.ob("fire", txt + " (handled)", ps, where(cbf), "no path")
                for p in ps:
                    ctx.ob("fire", txt + ": source removed", p.ret == ZERO, where(cbf), "the source stays armed")
                    c = pcalls(p, "dex_future_complete"); rel = [e for e in pcalls(p, "dex_unref") if e.args[0] == T]
                    ctx.ob("fire", txt + ": looked up once", len(pcalls(p, "dex_weak_ref_get")) == 1 and pcalls(p, "dex_weak_ref_get")[0].args == (A0,), where(cbf), "looks up the future %d times" % len(pcalls(p, "dex_weak_ref_get")))
                    ctx.ob("fire", txt + ": rejected", len(c) == live and all(e.args[0] == T and is0(e.args[1]) and made_error(e.args[2]) == ("dex_error_quark", TO) for e in c), where(cbf), "settles %d times, with %s" % (len(c), [show(x) for e in c for x in e.args[1:]]))
                    ctx.ob("fire", txt + ": reference dropped", len(rel) == live and (not rel or not [e for e in p.events[pos(p, rel[0]) + 1:] if T in e.args]), where(cbf), "the reference is dropped %d times" % len(rel))
                    for e in c: ctx.ob("fire", txt + ": settled unlocked", not held_at(p, pos(p, e)), where(cbf, e), "settles under a lock")
                    u = [e for e in pcalls(p, "g_source_unref", "g_clear_pointer") if S in e.args]
                    cl = [e for e in stores_to(p, T, "source") if is0(e.args[1])]
                    ctx.ob("fire", txt + ": gives up its source", len(u) == (1 if live and src == S else 0) and (not (live and src == S) or cl), where(cbf), "releases its source %d times" % len(u))
                    for e in cl: ctx.ob("fire", txt + ": under the lock", objlock(T) in held_at(p, pos(p, e)), where(cbf, e), "gives up the source without the lock")
    if ctx.need(dnf, "the weak reference of the source is never cleared"):
        for p in case(P, dnf):
            n += 1
            c = pcalls(p, "dex_weak_ref_clear"); fr = pcalls(p, "g_free", "g_slice_free1")
            ctx.ob("weak", "cleared with the source", len(c) == 1 and c[0].args == (A0,) and len(fr) == 1 and A0 in fr[0].args and pos(p, c[0]) < pos(p, fr[0]), where(dnf), "the weak reference is not cleared and freed once")
    # --- end
    f = P.funcs.get(vt.get(("_DexObjectClass", "finalize"), {}).get("dex_timeout"))
    if ctx.need(f, "no finaliser of the timeout"):
        S = tok("source")
        for src, dead in ((NULL, 0), (S, 1), (S, 0)):
            ps = case(P, f, {(A0, "source"): src}, {"g_source_is_destroyed": dead}); n += len(ps)
            txt = "finalised %s" % ("without source" if src == NULL else "after firing" if dead else "while active")
            ctx.ob("end", txt + " (handled)", ps, where(f), "no path")
            for p in ps:
                d = [e for e in pcalls(p, "g_source_destroy") if e.args[0] == S]; u = [e for e in pcalls(p, "g_source_unref") if e.args[0] == S]
                ctx.ob("end", txt + ": released", len(u) == (src == S), where(f), "the source is released %d times" % len(u))
                if src == S and not dead: ctx.ob("end", txt + ": removed", len(d) >= 1 and u and pos(p, d[0]) < pos(p, u[0]), where(f), "an active source is not removed")
    f = P.funcs.get("dex_timeout_postpone_until")
    if ctx.need(f, "no dex_timeout_postpone_until"):
        S = tok("source")
        for src in (S, NULL):
            ps = case(P, f, {(A0, "source"): src}); n += len(ps)
            ctx.ob("end", "postpone (handled)", ps, where(f), "no path")
            for p in ps:
                r = pcalls(p, "g_source_set_ready_time")
                ctx.ob("end", "postpone %s source" % ("with" if src == S else "without"), [e.args for e in r] == ([(S, A1)] if src == S else []), where(f), "moves %d deadlines" % len(r))
                for e in r: ctx.ob("end", "postpone under the lock", objlock(A0) in held_at(p, pos(p, e)), where(f, e), "uses the source without the lock")
    ctx.count("abstract_paths", n)
