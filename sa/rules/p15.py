"""P15: an async pair starts its operation once, finishes it once and delivers its result or error exactly once"""
from spec import *

A0, A1, A2 = ("a", 0), ("a", 1), ("a", 2)
SUPPORTED = {"boolean": "set", "int": "set", "uint": "set", "int64": "set", "uint64": "set", "long": "set", "ulong": "set", "string": "take", "pointer": "set", "object": "take", "enum": "set", "flags": "set",
             "derived-enum": "set", "derived-flags": "set", "boxed": "take", "derived-boxed": "take", "fd": "take"}
OTHER = ["char", "uchar", "float", "double", "param", "variant"]

def gt(t): return FDTYPE if t == "fd" else tok(t) if t.startswith("derived-") else ("c", GT[t])

def made_error(t):
    """(domain, code) of an error term created on this path"""
    while t and t[0] == "call" and t[1] in ("g_steal_pointer",): t = t[2][0]
    if t and t[0] == "call" and t[1] in ("g_error_new", "g_error_new_literal", "g_error_new_valist"):
        d, c = t[2][0], t[2][1]
        return (d[1] if d[0] == "call" else d, c[1] if c[0] == "c" else None)
    return None

# how the result of a finish function comes back, for each declared type
RET = {**{t: ("i32",) for t in ("boolean", "int", "uint", "enum", "flags")}, **{t: ("i64",) for t in ("int64", "uint64", "long", "ulong")},
       **{t: ("ptr",) for t in ("string", "pointer", "object", "boxed")}, "float": ("float",), "double": ("double",)}

def run(ctx):
    P = ctx.P
    ctx.rule("start", "dex_async_pair_new, with and without an instance: the operation is started exactly once, on the instance, with the cancellable of the future returned, a completion callback and a reference of its own to that future; description and instance are kept for the callback")
    ctx.rule("finish", "the completion callback, for every declared return type x error or not: the finish function is called exactly once with the instance, the result and an error location")
    ctx.rule("settle", "the callback settles its future exactly once: with the error when finish reported one, otherwise with the value finish returned, held as the declared type with the setter of that type")
    ctx.rule("release", "the callback drops the reference the operation held exactly once, after settling, and clears the temporary value exactly once when it owns its payload")
    ctx.rule("cancel", "a cancelled operation is rejected with the cancelled error; every pair has a cancellable of its own from the start, cancels on discard by default, and the setter and getter act on just that")
    n = 0; NEW, CANC, OPF = tok("new"), tok("cancellable"), tok("operation")
    DUP = tok("info-copy"); cbs = set()
    f = P.funcs.get("dex_async_pair_new")
    if ctx.need(f, "no dex_async_pair_new"):
        for inst in (tok("instance"), NULL):
            mem = {(NEW, "cancellable"): CANC, (A1, "async"): OPF, (DUP, "async"): OPF}
            ps = case(P, f, mem, {"dex_object_create_instance": NEW, "g_memdup2": DUP, "g_memdup": DUP, "g_type_check_instance_is_fundamentally_a": 1}, args={0: inst}, default=lambda a, st: NULL if a == ("f", NEW, "_DexAsyncPair", "instance") else None)
            n += len(ps); txt = "with an instance" if inst != NULL else "without instance"
            ctx.ob("start", txt + " (handled)", ps, where(f), "no path for this case")
            for p in ps:
                s = pcalls(p, "*operation")
                ctx.ob("start", txt + ": started once", len(s) == 1, where(f), "starts the operation %d times" % len(s))
                ctx.ob("start", txt + ": returns the pair", p.ret == NEW, where(f), "returns %s" % (show(p.ret) if p.ret else "nothing"))
                for e in s:
                    ctx.ob("start", txt + ": arguments", len(e.args) == 4 and (e.args[0] == inst or is0(inst) and is0(e.args[0])) and e.args[1] == CANC and e.args[3] == NEW, where(f, e), "starts the operation with %s" % ", ".join(show(a) for a in e.args))
                    if len(e.args) == 4:
                        cb = P.funcs.get(e.args[2][1]) if e.args[2][0] == "g" else None
                        ctx.ob("start", txt + ": completion callback", cb is not None, where(f, e), "no completion callback is given")
                        if cb is not None: cbs.add(cb.name if hasattr(cb, "name") else e.args[2][1])
                    i = pos(p, e)
                    for fl, v in (("info", DUP),):
                        w = [x for x in p.events[:i] if x.kind == "store" and x.args[0] == ("f", NEW, "_DexAsyncPair", fl)]
                        ctx.ob("start", txt + ": keeps its own copy of the description", w and w[-1].args[1] == v and [c for c in pcalls(p, "g_memdup2", "g_memdup") if c.args[0] == A1], where(f), "the description is not copied before the operation starts")
                    refs = [x for x in pcalls(p, "dex_ref") if x.args[0] == NEW]
                    ctx.ob("start", txt + ": the operation holds a reference", len(refs) - nrel(p, NEW) == 1 and pos(p, refs[0]) < i, where(f, e), "the operation is given %d references" % (len(refs) - nrel(p, NEW)))
                    if inst != NULL:
                        w = [x for x in p.events[:i] if x.kind == "store" and x.args[0] == ("f", NEW, "_DexAsyncPair", "instance")]
                        ctx.ob("start", txt + ": keeps the instance alive", nref(p, inst) - nrel(p, inst) == 1 and w and w[-1].args[1] == inst, where(f), "the instance is not kept alive")
    ctx.need(cbs, "no completion callback is passed to the operation")
    dn = {"dex_error_quark": None}
    NOTSUP = P.enumval.get("DEX_ERROR_TYPE_NOT_SUPPORTED"); CANCELLED = 19
    for cbn in sorted(cbs):
        f = P.funcs[cbn]
        AP = tok("pair"); RES = tok("result"); INST = tok("instance"); INFO = tok("info")
        for t in list(SUPPORTED) + OTHER:
            for canc in (0, 1):
                for fails in (0, 1):
                    if canc and fails: continue
                    V = tok("finished"); E = tok("reported"); T = gt(t)
                    def fin(a, st): return [NULL if fails and t in ("string", "object", "pointer", "boxed", "fd") else 0 if fails else V, [(a[2], E if fails else NULL)] if len(a) > 2 else []]
                    calls = {"*finish": fin, "g_cancellable_is_cancelled": lambda a, st: canc if a[0] == CANC else None, "g_type_check_instance_is_fundamentally_a": 1, "g_type_check_instance_is_a": 1}
                    calls.update(value_oracle(tok("none"), T))
                    del calls["g_type_check_instance_is_a"]
                    mem = {(AP, "info"): INFO, (INFO, "return_type"): T, (INFO, "finish"): tok("finish"), (AP, "instance"): INST, (AP, "cancellable"): CANC}
                    ps = case(P, f, mem, calls, args={0: tok("source"), 1: RES, 2: AP}, locs=True, K=3); n += len(ps)
                    txt = "%s, %s" % (t, "cancelled" if canc else "error" if fails else "finished")
                    ctx.ob("settle", txt + " (handled)", ps, where(f), "no path for this case")
                    for p in ps:
                        fc = pcalls(p, "*finish"); cs = pcalls(p, "dex_future_complete")
                        ctx.ob("settle", txt + ": once", len(cs) == 1 and cs[0].args[0] == AP, where(f), "settles its future %d times" % len(cs))
                        rel = [e for e in pcalls(p, "dex_unref") if e.args[0] == AP]; rf = [e for e in pcalls(p, "dex_ref") if e.args[0] == AP]
                        ctx.ob("release", txt + ": the operation's reference", len(rel) - len(rf) == 1, where(f), "the reference is dropped %d times" % (len(rel) - len(rf)))
                        if len(cs) != 1: continue
                        c = cs[0]; i = pos(p, c)
                        if rel: ctx.ob("release", txt + ": after settling", i < pos(p, rel[-1]) and not [e for e in p.events[pos(p, rel[-1]) + 1:] if AP in e.args or e.kind == "load"], where(f), "the future is used after its reference was dropped")
                        for e in fc: ctx.ob("finish", txt + ": arguments", len(e.args) == 3 and e.args[0] == INST and e.args[1] == RES and e.args[2][0] == "alloca" and pos(p, e) < i, where(f, e), "finish is called with %s" % ", ".join(show(a) for a in e.args))
                        holders = {canon(e.args[0]) for e in p.events if e.kind == "call" and e.name.startswith(("g_value_init", "g_value_take", "g_value_set"))}
                        for h in holders:
                            w = gval(p, len(p.events), h); heap = w.how and (w.how.startswith("take_") or w.how in ("set_string", "set_object", "set_boxed"))
                            inits = [e for e in p.events if e.kind == "call" and e.name.startswith("g_value_take")]
                            if heap: ctx.ob("release", txt + ": temporary cleared", w.unset == 1 and gval(p, i, h).unset == 0, where(f), "the temporary value is cleared %d times" % w.unset)
                        if canc:
                            ctx.ob("finish", txt + ": at most once", len(fc) <= 1, where(f), "finish is called %d times" % len(fc))
                            ctx.ob("cancel", txt + ": cancelled error", is0(c.args[1]) and made_error(c.args[2]) == ("g_io_error_quark", CANCELLED), where(f, c), "settles with %s / %s" % (show(c.args[1]), show(c.args[2])))
                            continue
                        if t in OTHER and not fc:
                            ctx.ob("settle", txt + ": not supported", is0(c.args[1]) and made_error(c.args[2]) == ("dex_error_quark", NOTSUP), where(f, c), "an unsupported type does not give the not-supported error")
                            continue
                        for e in fc:
                            ty = e.inst.ty if e.inst is not None else None; need = RET.get(t.replace("derived-", ""))
                            if need and ty: ctx.ob("finish", txt + ": result type", ty in need, where(f, e), "finish is called as a function returning %s" % ty)
                        ctx.ob("finish", txt + ": once", len(fc) == 1, where(f), "finish is called %d times" % len(fc))
                        if fails:
                            ctx.ob("settle", txt + ": the reported error", is0(c.args[1]) and c.args[2] == E, where(f, c), "settles with %s / %s" % (show(c.args[1]), show(c.args[2])))
                        else:
                            v = gval(p, i, c.args[1]); base = {"derived-": ""}
                            want = "boxed" if t in ("fd", "derived-boxed") else t.replace("derived-", "")
                            ctx.ob("settle", txt + ": the value", is0(c.args[2]) and v.type == T and v.payload == V, where(f, c), "settles with %s, %r" % (show(c.args[2]), v))
                            mode = SUPPORTED.get(t)
                            ctx.ob("settle", txt + ": setter", v.how and v.how.split("_", 1)[-1] == want and (mode != "take" or v.how == "take_" + want) or v.how == "raw" and mode == "set", where(f, c), "the value is stored with %s" % v.how)
                        ctx.ob("release", txt + ": no error leaks", not [e for e in pcalls(p, "g_error_free") if e.args[0] == E and fails], where(f), "the error handed on is freed")
    # cancellable and its flag
    from ir import AnchorError
    init = [g for g in P.instance_inits() if str(g).startswith("dex_async_pair")] if True else []
    for g in init or []:
        f = P.funcs.get(g) if isinstance(g, str) else g
        C = tok("fresh")
        for p in case(P, f, {}, {"g_cancellable_new": C}):
            n += 1
            ctx.ob("cancel", "fresh pair: cancellable", final(p, A0, "cancellable") == C and len(pcalls(p, "g_cancellable_new")) == 1, where(f), "has no cancellable of its own")
            ctx.ob("cancel", "fresh pair: cancels on discard", bits_value(P, "_DexAsyncPair", "cancel_on_discard", p) not in (0, None), where(f), "does not cancel on discard by default")
    ctx.need(init, "no initialiser of the async pair")
    f = P.funcs.get("dex_async_pair_set_cancel_on_discard")
    if ctx.need(f, "no dex_async_pair_set_cancel_on_discard"):
        for v in (0, 1, 2):
            for p in case(P, f, {}, {}, args={1: v}):
                n += 1
                b = bits_value(P, "_DexAsyncPair", "cancel_on_discard", p, default=None)
                ctx.ob("cancel", "setting %d" % v, b is not None and bool(b) == bool(v), where(f), "stores %s" % b)
    f = P.funcs.get("dex_async_pair_get_cancellable")
    if ctx.need(f, "no dex_async_pair_get_cancellable"):
        for p in case(P, f, {(A0, "cancellable"): CANC}):
            n += 1
            ctx.ob("cancel", "getter", p.ret == CANC, where(f), "returns %s" % (show(p.ret) if p.ret else "nothing"))
    ctx.count("abstract_paths", n); ctx.count("return_types", len(SUPPORTED) + len(OTHER))
