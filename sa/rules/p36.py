"""P36: a promise's cancellable follows the promise"""
from spec import *
A0 = ("a", 0)
S = "_DexPromise"
CANCELS = ("g_cancellable_cancel", "g_cancellable_reset")

def run(ctx):
    P = ctx.P; vt = P.vtables()
    ctx.rule("create", "a cancellable promise is created with one cancellable of its own, a plain one with none")
    ctx.rule("expose", "the cancellable asked for is the one the promise was created with")
    ctx.rule("discard", "discarding cancels the promise's own cancellable exactly once, unlocked")
    ctx.rule("never", "no other operation of a promise cancels, resets or replaces its cancellable")
    ctx.rule("release", "finalising releases the cancellable once without cancelling it")
    n = 0
    T, C = tok("promise"), tok("cancellable")
    for name, want in (("dex_promise_new", 0), ("dex_promise_new_cancellable", 1)):
        f = P.fn(name)
        ps = case(P, f, {}, {"dex_object_create_instance": T, "g_cancellable_new": C, "dex_promise_new": T}); n += len(ps)
        ctx.ob("create", name + " (handled)", ps, where(f), "no path")
        for p in ps:
            ctx.ob("create", name + ": returned", p.ret == T, where(f), "does not return the new promise")
            v = final(p, T, "cancellable", ZERO)
            ctx.ob("create", name + ": cancellable", (v == C and len(pcalls(p, "g_cancellable_new")) == 1 and nref(p, C) == 0 and nrel(p, C) == 0) if want else is0(v), where(f), "is created with %s" % show(v))
            for e in pcalls(p, *CANCELS): ctx.ob("never", name, False, where(f, e), "cancels")
    f = P.fn("dex_promise_get_cancellable")
    for have in (C, NULL):
        ps = case(P, f, {(A0, "cancellable"): have}, {"g_cancellable_new": tok("fresh")}); n += len(ps)
        ctx.ob("expose", "handled", ps, where(f), "no path")
        for p in ps:
            ctx.ob("expose", "promise %s cancellable" % ("with" if have == C else "without"), p.ret == have or (is0(have) and is0(p.ret)), where(f), "exposes %s" % show(p.ret))
            ctx.ob("expose", "borrowed", nref(p, C) == 0 and nrel(p, C) == 0 and not stores_to(p, A0, "cancellable"), where(f), "changes the cancellable or its references")
    f = P.funcs.get(vt.get(("_DexFutureClass", "discard"), {}).get("dex_promise"))
    if ctx.need(f, "promises have no discard handler"):
        for have in (C, NULL):
            ps = case(P, f, {(A0, "cancellable"): have}, status={A0: P.enumval["DEX_FUTURE_STATUS_PENDING"]}); n += len(ps)
            ctx.ob("discard", "handled", ps, where(f), "no path")
            for p in ps:
                c = [e for e in pcalls(p, "g_cancellable_cancel") if not is0(e.args[0])]
                ctx.ob("discard", "promise %s cancellable" % ("with" if have == C else "without"), [e.args for e in c] == ([(C,)] if have == C else []), where(f), "cancels %d times" % len(c))
                for e in c: ctx.ob("discard", "unlocked", not held_at(p, pos(p, e)), where(f, e), "cancels under a lock")
                ctx.ob("discard", "keeps its cancellable", not stores_to(p, A0, "cancellable") and nrel(p, C) == 0 and not pcalls(p, "g_cancellable_reset"), where(f), "gives up the cancellable")
    disc = f
    g = P.funcs.get(vt.get(("_DexObjectClass", "finalize"), {}).get("dex_promise"))
    if ctx.need(g, "promises have no finaliser"):
        for have in (C, NULL):
            ps = case(P, g, {(A0, "cancellable"): have}); n += len(ps)
            for p in ps:
                ctx.ob("release", "promise %s cancellable" % ("with" if have == C else "without"), nrel(p, C) == (have == C) and not pcalls(p, *CANCELS), where(g), "releases the cancellable %d times or cancels it" % nrel(p, C))
    # --- nobody else touches it
    ok = {disc.name if disc else None, g.name if g else None, "dex_promise_new_cancellable"}
    for fn, i in writers(P, S, "cancellable"):
        if fn.name in ok or fn.base in ok: continue
        ctx.ob("never", "cancellable is replaced", False, fn.where(i), "%s replaces the cancellable of a promise" % fn.base)
    m = 0
    for name, fn in sorted(P.funcs.items()):
        if not fn.defined if hasattr(fn, "defined") else name not in P.defined: continue
        if not fn.base.startswith("dex_promise_") or fn is disc: continue
        m += 1
        for b in fn.blocks:
            for i in b:
                if i.op == "call" and i.f and i.f[0] == "g" and i.f[1] in CANCELS: ctx.ob("never", fn.base, False, fn.where(i), "%s cancels" % fn.base)
        ctx.ob("never", fn.base + " inspected", True, where(fn))
    ctx.count("functions_inspected", m); ctx.count("abstract_paths", n)
