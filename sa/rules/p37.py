"""P37: file-descriptor values have one owner"""
from spec import *
A0, A1 = tok("wrapper"), ("a", 1)
VALUES = (0, 3, 77, 1023)

def run(ctx):
    P = ctx.P
    ctx.rule("register", "the value type copies and frees with the library's own duplicate and free functions")
    ctx.rule("peek", "looking at a descriptor returns it and changes nothing")
    ctx.rule("steal", "stealing returns the descriptor and leaves an invalid one behind")
    ctx.rule("free", "freeing closes the descriptor exactly once when it is valid and never when it is invalid or stolen, and frees the wrapper once")
    ctx.rule("dup", "a copy is a new wrapper around a duplicate of the descriptor; the original is untouched, an invalid one has no copy")
    ctx.rule("await", "an awaited descriptor is taken out of its wrapper and returned, open")
    ctx.rule("resolve", "resolving wraps the caller's own descriptor and neither closes nor frees it")
    ctx.rule("users", "nobody else closes a descriptor that still belongs to a wrapper; a stolen descriptor is returned or closed once")
    n = 0
    # registration
    cp = fr = None
    for fn in P.defined.values():
        for b in fn.blocks:
            for i in b:
                if i.op == "call" and i.f[0] == "g" and i.f[1] == "g_boxed_type_register_static":
                    for p in case(P, fn, {}, {"g_once_init_enter_pointer": 1, "g_once_init_enter": 1, "g_once_init_enter_impl": 1}):
                        for e in pcalls(p, "g_boxed_type_register_static"):
                            if ("s", "DexFD") in (e.args[0],) or "DexFD" in repr(e.args[0]):
                                cp, fr = e.args[1], e.args[2]; ctx.ob("register", "type", cp[0] == "g" and fr[0] == "g", where(fn, e), "copy or free function is missing")
    if not ctx.need(cp, "the descriptor type is not registered"): return
    dup, free = P.funcs.get(cp[1]), P.funcs.get(fr[1])
    peek, steal = P.funcs.get("dex_fd_peek"), P.funcs.get("dex_fd_steal")
    if not ctx.need(dup and free and peek and steal, "descriptor functions are missing"): return
    def cell(v):
        def d(a, st):
            if a == A0: return v
            return None
        return d
    def oracle(v, ok=True):
        def st_(a, st): return [v, [(a[0], -1)]] if a[0] == A0 else -1 if is0(a[0]) else None
        def pk(a, st):
            if is0(a[0]): return -1
            if a[0] != A0: return None
            w = last_store(st, A0); return v if w is None else w
        return {"dex_fd_steal": st_, "dex_fd_peek": pk, "g_steal_fd": st_, "close": 0}
    CLOSE = ("close", "g_close", "g_clear_fd")
    def left(p):
        s = [e for e in p.events if e.kind == "store" and e.args[0] == A0]
        return s[-1].args[1] if s else None
    for f, what in ((peek, "peek"), (steal, "steal")):
        for v in VALUES + (-1, None):
            args = {0: NULL} if v is None else {0: A0}
            ps = case(P, f, {}, oracle(v), args=args, default=cell(v)); n += len(ps)
            txt = "no wrapper" if v is None else "descriptor %d" % v
            ctx.ob(what, txt + " (handled)", ps, where(f), "no path")
            for p in ps:
                ctx.ob(what, txt, p.ret == ("c", -1 if v is None else v), where(f), "returns %s" % show(p.ret))
                ctx.ob(what, txt + ": kept open", not pcalls(p, *CLOSE, "dup", "g_free"), where(f), "closes or duplicates it")
                if v is not None:
                    after = left(p) if what == "peek" else ("c", -1) if pcalls(p, "dex_fd_steal", "g_steal_fd") else left(p)
                    ctx.ob(what, txt + ": wrapper", (after is None) if what == "peek" else after == ("c", -1) or v == -1 and after is None, where(f), "leaves %s in the wrapper" % (show(after) if after else "it"))
    for v in VALUES + (-1, None):
        args = {0: NULL} if v is None else {0: A0}
        ps = case(P, free, {}, oracle(v), args=args, default=cell(v)); n += len(ps)
        txt = "no wrapper" if v is None else "descriptor %d" % v
        ctx.ob("free", txt + " (handled)", ps, where(free), "no path")
        for p in ps:
            c = pcalls(p, *CLOSE); g = [e for e in pcalls(p, "g_free", "g_slice_free1", "free") if A0 in e.args]
            ctx.ob("free", txt + ": closed", [e.args[0] for e in c] == ([("c", v)] if v not in (-1, None) else []), where(free), "closes %s" % [show(e.args[0]) for e in c])
            if v is not None:
                ctx.ob("free", txt + ": freed", len(g) == 1 and all(A0 not in e.args for e in p.events[pos(p, g[0]) + 1:]), where(free), "frees the wrapper %d times" % len(g))
        ND = tok("duplicate"); NW = tok("copy")
        calls = dict(oracle(v)); calls["dup"] = 4242; calls["fcntl"] = 4242
        for a in ("g_memdup2", "g_memdup", "g_malloc", "g_malloc_n", "g_malloc0", "g_malloc0_n"): calls[a] = NW
        ps = case(P, dup, {}, calls, args=args, default=cell(v), locs=True); n += len(ps)
        ctx.ob("dup", txt + " (handled)", ps, where(dup), "no path")
        for p in ps:
            d = pcalls(p, "dup", "fcntl")
            ctx.ob("dup", txt + ": original", not pcalls(p, *CLOSE, "dex_fd_steal", "dex_fd_free", "g_free") and left(p) is None, where(dup), "changes the original")
            if v in (-1, None): ctx.ob("dup", txt, is0(p.ret) and not d, where(dup), "copies an invalid descriptor")
            else:
                ctx.ob("dup", txt + ": duplicated", len(d) == 1 and d[0].args[0] == ("c", v), where(dup), "duplicates %d times" % len(d))
                m = pcalls(p, "g_memdup2", "g_memdup")
                if m:
                    src = m[-1].args[0]; w = [e for e in p.events[:pos(p, m[-1])] if e.kind == "store" and canon(e.args[0]) == canon(src)]
                    val = w[-1].args[1] if w else None
                else:
                    w = [e for e in p.events if e.kind == "store" and e.args[0] == NW]; val = w[-1].args[1] if w else None
                ctx.ob("dup", txt + ": copy", p.ret == NW and val == ("c", 4242), where(dup), "the copy holds %s" % (show(val) if val else "nothing"))
    # awaiting
    f = P.funcs.get("dex_await_fd")
    if ctx.need(f, "no dex_await_fd"):
        V, W = tok("value"), A0
        calls = dict(value_oracle(V, FDTYPE)); calls.update({"dex_await_borrowed": V, "dex_future_get_value": V, "dex_await": 1, "g_value_get_boxed": W, "dex_fd_steal": lambda a, st: 55 if a[0] == W else -1})
        ps = case(P, f, {}, calls, default=lambda a, st: 55 if a == W else W if a[0] == "f" and a[3] in ("v_pointer", "f1", "data") else None); n += len(ps)
        ctx.ob("await", "handled", ps, where(f), "no path")
        for p in ps:
            st = [e for e in pcalls(p, "dex_fd_steal") if e.args[0] == W] or [e for e in p.events if e.kind == "store" and e.args[0] == W and e.args[1] == ("c", -1)]
            ctx.ob("await", "taken out", len(st) == 1, where(f), "does not take the descriptor out of its wrapper")
            ctx.ob("await", "returned", p.ret == ("c", 55), where(f), "returns %s" % show(p.ret))
            ctx.ob("await", "open", not pcalls(p, *CLOSE, "dex_fd_free", "g_boxed_free"), where(f), "closes or frees it")
    f = P.funcs.get("dex_promise_resolve_fd")
    if ctx.need(f, "no dex_promise_resolve_fd"):
        ps = case(P, f, {}, {}, locs=True); n += len(ps)
        ctx.ob("resolve", "handled", ps, where(f), "no path")
        for p in ps:
            r = pcalls(p, "dex_promise_resolve", "dex_future_complete")
            ctx.ob("resolve", "once", len(r) == 1, where(f), "resolves %d times" % len(r))
            ctx.ob("resolve", "caller keeps its descriptor", not pcalls(p, *CLOSE), where(f), "closes the caller's descriptor")
            for e in pcalls(p, "dex_fd_free", "g_boxed_free", "g_value_unset", "g_free"):
                t = [x for x in e.args if isinstance(x, tuple)]
                own = e.name == "g_value_unset" and any(x.kind == "call" and x.name in ("g_value_set_boxed", "g_value_take_boxed") for x in p.events[:pos(p, e)])
                took = any(x.kind == "call" and x.name == "g_value_take_boxed" for x in p.events[:pos(p, e)])
                copied = any(x.kind == "call" and x.name in ("dex_fd_dup", "g_boxed_copy", "dup") for x in p.events[:pos(p, e)])
                ctx.ob("resolve", "nothing freed that is not its own", own and (not took or copied), where(f, e), "frees the caller's descriptor")
            for e in r:
                v = gval(p, pos(p, e), e.args[1])
                ctx.ob("resolve", "type", v.type == FDTYPE, where(f, e), "resolves to %s" % v)
                w = [x for x in p.events[:pos(p, e)] if x.kind == "store" and v.payload is not None and canon(x.args[0]) == canon(v.payload)]
                src = w[-1].args[1] if w else None
                ctx.ob("resolve", "wraps the caller's descriptor", src == A1 or (v.payload or ("?",))[0] == "call", where(f, e), "wraps %s" % (show(src) if src else v))
    # every other user
    m = 0
    for name, fn in sorted(P.defined.items()):
        if fn in (peek, steal, free, dup): continue
        cs = [i for b in fn.blocks for i in b if i.op == "call" and i.f[0] == "g" and i.f[1] in ("dex_fd_peek", "dex_fd_steal", "dex_fd_free", "dex_fd_dup")]
        if not cs: continue
        m += 1
        for p in case(P, fn, {}, {}):
            n += 1
            for e in pcalls(p, "dex_fd_steal"):
                c = [x for x in pcalls(p, *CLOSE) if x.args[0] == e.res]
                used = (p.ret == e.res) + len(c) + len([x for x in p.events if x.kind == "store" and len(x.args) > 1 and x.args[1] == e.res])
                inval = any(l[0] == "eq" and l[1] == e.res and v for l, v in p.facts.items())
                ctx.ob("users", fn.base + ": stolen descriptor", used == 1 or inval, where(fn, e), "a stolen descriptor is used up %d times" % used)
            for e in pcalls(p, "dex_fd_peek"):
                bad = [x for x in pcalls(p, *CLOSE) if x.args[0] == e.res]
                ctx.ob("users", fn.base + ": borrowed descriptor", not bad, where(fn, e), "closes a descriptor that belongs to its wrapper")
    ctx.count("users", m); ctx.count("abstract_paths", n)
