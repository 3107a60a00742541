"""P29: an async-result bridge calls back exactly once with the future's outcome"""
from spec import *
from rules.p12 import reads, TYPES
A0, A1, A2, A3 = (("a", i) for i in range(4))
S = "_DexAsyncResult"
PROP = {"dex_async_result_propagate_pointer": {"object": "g_value_dup_object", "boxed": "g_value_dup_boxed", "variant": "g_value_dup_variant", "pointer": "g_value_get_pointer"},
        "dex_async_result_propagate_int": {t: "g_value_get_" + t for t in "int uint int64 uint64 long ulong".split()},
        "dex_async_result_propagate_double": {t: "g_value_get_" + t for t in ("double", "float")},
        "dex_async_result_propagate_boolean": {"boolean": "g_value_get_boolean"}}

def run(ctx):
    P = ctx.P; vt = P.vtables()
    ctx.rule("create", "the bridge keeps the callback, its data, a reference to the source object and cancellable, and the main context current at creation")
    ctx.rule("await", "the first await hands the future over, makes the combined future available to the propagate functions under the lock and only then subscribes exactly once, keeping itself alive until then; a second await changes nothing")
    ctx.rule("schedule", "on completion one source with the bridge's priority is attached to the bridge's own main context, once, keeping the bridge alive; without a callback none is")
    ctx.rule("call", "the source calls the callback exactly once, unlocked, with the bridge's source object, the bridge and the data, is removed, and drops the future afterwards, once")
    ctx.rule("propagate", "for every propagate function x every type of value: the value is read with the accessor of its own type when it is one of the requested kind, otherwise the neutral value is returned; without a future the pending error is set, a rejected one sets its own error")
    ctx.rule("release", "finalising releases source object, cancellable, future, context and owned name once each and chains up")
    ctx.rule("interface", "what GIO reads back from the bridge is what it was made with: user data, a further reference to the source object or none, and the tag; settings store what they are given")
    n = 0
    R, SO, C, CTX, F, CB, UD, NAME = (tok(x) for x in ("bridge", "source-object", "cancellable", "context", "future", "callback", "data", "name"))
    ML = norm(("f", A0, S, "mutex"))
    # --- what GIO sees
    iface = slot_stores(P, "_GAsyncResultIface")
    if ctx.need({"get_user_data", "get_source_object", "is_tagged"} <= set(iface) or not ctx.ob("interface", "filled in", {"get_user_data", "get_source_object", "is_tagged"} <= set(iface), "src/dex-async-result.c", "the bridge does not implement %s" % ", ".join(sorted({"get_user_data", "get_source_object", "is_tagged"} - set(iface)))), "no interface"):
        g = lambda k: P.funcs.get(iface.get(k))
        for so in (SO, NULL):
            for p in case(P, g("get_source_object"), {(A0, "source_object"): so}, {}) if g("get_source_object") else ():
                n += 1
                ctx.ob("interface", "source object%s" % ("" if so == SO else " (none)"), p.ret is not None and (unref_strip(p.ret) == so or is0(p.ret) and is0(so)) and nref(p, SO) == (so == SO), where(g("get_source_object")), "returns %s with %d references" % (show(p.ret) if p.ret else "nothing", nref(p, SO)))
        for p in case(P, g("get_user_data"), {(A0, "user_data"): UD}, {}) if g("get_user_data") else ():
            n += 1; ctx.ob("interface", "user data", p.ret == UD, where(g("get_user_data")), "returns %s" % (show(p.ret) if p.ret else "nothing"))
        T, T2 = tok("tag"), tok("other-tag")
        for own in (T, T2):
            for p in case(P, g("is_tagged"), {(A0, "tag"): own}, {}, args={1: T}) if g("is_tagged") else ():
                n += 1; ctx.ob("interface", "tagged" if own == T else "tagged otherwise", p.ret is not None and (ev(p.ret, lambda t: None) == (own == T)), where(g("is_tagged")), "returns %s" % (show(p.ret) if p.ret else "nothing"))
    for nm, fld, val in (("dex_async_result_set_priority", "priority", 7), ("dex_async_result_set_tag", "tag", tok("tag"))):
        f = P.funcs.get(nm)
        if f:
            for p in case(P, f, {}, {"g_type_check_instance_is_a": 1}, args={1: val}):
                n += 1; got = final(p, A0, fld, None); ctx.ob("interface", nm, got == (val if isinstance(val, tuple) else ("c", val)), where(f), "stores %s" % (show(got) if got else "nothing"))
    # --- create
    f = P.fn("dex_async_result_new")
    for so in (SO, NULL):
        for c in (C, NULL):
            ps = case(P, f, {}, {"g_object_new": R, "g_object_new_with_properties": R, "g_main_context_ref_thread_default": CTX, "g_type_check_instance_is_a": 1}, args={0: so, 1: c, 2: CB, 3: UD},
                      default=lambda a, st: ZERO if a[0] == "f" and a[1] == R else None); n += len(ps)
            txt = "%s source object, %s cancellable" % ("with" if so == SO else "without", "with" if c == C else "without")
            ctx.ob("create", txt + " (handled)", ps, where(f), "no path")
            for p in ps:
                ctx.ob("create", txt + ": returned", p.ret == R and nref(p, R) == nrel(p, R), where(f), "does not return the new bridge")
                for k, v in (("callback", CB), ("user_data", UD), ("source_object", so), ("cancellable", c), ("main_context", CTX)):
                    got = final(p, R, k, NULL); ctx.ob("create", txt + ": " + k, got == v or is0(got) and is0(v), where(f), "%s is %s" % (k, show(got)))
                for v in (SO, C): ctx.ob("create", txt + ": references", nref(p, v) - nrel(p, v) == (v in (so, c)), where(f), "keeps %d references" % nref(p, v))
    # --- await
    f = P.fn("dex_async_result_await"); cbt = None
    FIRST, DONE, CF, FRES = tok("combined"), tok("subscription"), tok("cancellable-future"), tok("given-future")
    for c in (C, NULL):
        calls = {"dex_future_first": FIRST, "dex_future_firstv": FIRST, "dex_cancellable_new_from_cancellable": CF, "dex_future_finally": DONE, "dex_future_then": DONE, "dex_future_catch": DONE, "dex_future_finally_loop": DONE, "g_type_check_instance_is_a": 1}
        ps = case(P, f, {(A0, "await_once"): 0, (A0, "cancellable"): c, (A0, "future"): NULL}, calls, args={1: FRES}); n += len(ps); txt = "%s cancellable" % ("with" if c == C else "without")
        ctx.ob("await", txt + " (handled)", ps, where(f), "no path")
        for p in ps:
            sub = pcalls(p, "dex_future_finally", "dex_future_then", "dex_future_catch", "dex_future_finally_loop")
            ctx.ob("await", txt + ": subscribes once", len(sub) == 1 and sub[0].name == "dex_future_finally", where(f), "subscribes %d times to both outcomes" % len([e for e in sub if e.name == "dex_future_finally"]))
            once = stores_to(p, A0, "await_once") + [e for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == A0 and str(e.args[0][3]).startswith("bits@")]
            ctx.ob("await", txt + ": once", once and all(ML in held_at(p, pos(p, e)) for e in once) and ev(once[0].args[1], lambda t: 0 if t[0] == "ld" else None) not in (0, None), where(f), "does not note under the lock that it was awaited")
            if len(sub) != 1: continue
            e = sub[0]; up = e.args[0]
            fi = [x for x in pcalls(p, "dex_future_first", "dex_future_firstv") if x.res == up]
            good = (up == FRES and c == NULL) or (len(fi) == 1 and (fi[0].name == "dex_future_firstv" or (fi[0].args[0] == FRES or fi[0].args[1] == FRES) and (c == NULL and any(is0(a) for a in fi[0].args[1:2]) or c == C and CF in fi[0].args[:2])))
            ctx.ob("await", txt + ": upstream", good and len(pcalls(p, "dex_future_first", "dex_future_firstv")) <= 1, where(f, e), "does not wait for the future %s" % ("or the cancellable" if c == C else "given"))
            cf = pcalls(p, "dex_cancellable_new_from_cancellable")
            ctx.ob("await", txt + ": cancellable", [x.args for x in cf] == ([(C,)] if c == C else []), where(f), "watches %d cancellables" % len(cf))
            st = [x for x in stores_to(p, A0, "future") if x.args[1] == up]
            ctx.ob("await", txt + ": available first", len(st) == 1 and pos(p, st[0]) < pos(p, e) and final(p, A0, "future") == up, where(f), "the result is not available when the callback may run")
            for x in st:
                ctx.ob("await", txt + ": under the lock", ML in held_at(p, pos(p, x)), where(f, x), "the result is made available without the lock")
                before = [y for y in p.events[:pos(p, e)] if y.kind == "call" and y.name == "dex_ref" and y.args[0] == up]
                ctx.ob("await", txt + ": own reference", len(before) == 1 and nref(p, up) == 1 and nrel(p, up) == 0, where(f, x), "keeps %d references to the combined future" % nref(p, up))
            ctx.ob("await", txt + ": subscription is kept running", len([x for x in pcalls(p, "dex_future_disown") if x.args[0] == e.res]) == 1 and nrel(p, e.res) == 0, where(f, e), "the subscription is dropped or leaked")
            ctx.ob("await", txt + ": alive until then", e.args[2] == A0 and e.args[3] == ("g", "g_object_unref") and nref(p, A0) - nrel(p, A0) == 1, where(f, e), "the bridge does not keep itself alive exactly once")
            ctx.ob("await", txt + ": unlocked", not held_at(p, pos(p, e)), where(f, e), "subscribes under a lock")
            ctx.ob("await", txt + ": nothing else released", nrel(p, FRES) == 0 and nrel(p, CF) == 0, where(f), "releases what it handed over")
            cbt = e.args[1]
    ps = [p for p in case(P, f, {(A0, "await_once"): 1}, {"g_type_check_instance_is_a": 1}) + table(P, f, lambda a, st: 1 if a == ("f", A0, S, "await_once") else None, lambda nm, ar, st: 1 if nm == "g_type_check_instance_is_a" else None) if p.kind == "ret"]
    for p in ps:
        ctx.ob("await", "again", not pcalls(p, "dex_future_finally", "dex_future_first") and not stores_to(p, A0, "future"), where(f), "a second await is not ignored")
        ctx.ob("await", "again: unlocked", not held_at(p, len(p.events)), where(f), "returns locked")
    # --- schedule
    g = P.funcs.get(cbt[1]) if cbt and cbt[0] == "g" else None; idle = None
    MLB = norm(("f", A1, S, "mutex"))
    if ctx.need(g, "no completion callback of the bridge"):
        SRC = tok("source")
        for cb in (CB, NULL):
            for static in (0, 1):
                ps = case(P, g, {(A1, "callback"): cb, (A1, "name_is_static"): static, (A1, "priority"): 7, (A1, "main_context"): CTX, (A1, "await_returned"): 0, (A1, "await_once"): 1, (A1, "name"): NAME}, {"g_idle_source_new": SRC, "g_timeout_source_new": SRC, "g_source_new": SRC}); n += len(ps)
                txt = "%s callback" % ("with" if cb == CB else "without")
                ctx.ob("schedule", txt + " (handled)", ps, where(g), "no path")
                for p in ps:
                    at = pcalls(p, "g_source_attach"); sc = pcalls(p, "g_source_set_callback"); pr = pcalls(p, "g_source_set_priority"); un = [e for e in pcalls(p, "g_source_unref") if e.args[0] == SRC]
                    want = cb == CB
                    ctx.ob("schedule", txt + ": attached", len(at) == want and all(e.args == (SRC, CTX) for e in at), where(g), "attached %d times to the bridge's own context" % len([e for e in at if e.args == (SRC, CTX)]))
                    ctx.ob("schedule", txt + ": not called directly", not [e for e in p.events if e.kind == "call" and str(e.name).startswith("*")], where(g), "calls back from the completing thread")
                    ctx.ob("schedule", txt + ": outcome is replaced", is0(p.ret), where(g), "returns another future")
                    ctx.ob("schedule", txt + ": source released", len(un) == (1 if pcalls(p, "g_idle_source_new", "g_timeout_source_new", "g_source_new") else 0), where(g), "the source is released %d times" % len(un))
                    if not want: continue
                    ctx.ob("schedule", txt + ": priority", len(pr) == 1 and pr[0].args == (SRC, ("c", 7)) and at and pos(p, pr[0]) < pos(p, at[0]), where(g), "scheduled with another priority")
                    ctx.ob("schedule", txt + ": kept alive", len(sc) == 1 and sc[0].args[0] == SRC and sc[0].args[2] == A1 and sc[0].args[3] == ("g", "g_object_unref") and nref(p, A1) == 1 and nrel(p, A1) == 0, where(g), "the source does not keep the bridge alive exactly once")
                    if at and sc: ctx.ob("schedule", txt + ": attached last", pos(p, sc[0]) < pos(p, at[0]), where(g, at[0]), "attached before it has its callback")
                    if sc: idle = sc[0].args[1]
    h = P.funcs.get(idle[1]) if idle and idle[0] == "g" else None
    if ctx.need(h, "no callback of the bridge's source"):
        for fut in (F, NULL):
            for so in (SO, NULL):
                ps = case(P, h, {(A0, "callback"): CB, (A0, "source_object"): so, (A0, "user_data"): UD, (A0, "future"): fut}); n += len(ps)
                ctx.ob("call", "called back (handled)", ps, where(h), "no path")
                for p in ps:
                    c = [e for e in p.events if e.kind == "call" and str(e.name).startswith("*")]
                    ctx.ob("call", "once", len(c) == 1 and c[0].name == "*callback", where(h), "calls back %d times" % len(c))
                    for e in c:
                        ctx.ob("call", "arguments", len(e.args) >= 3 and (e.args[0] == so or is0(so) and is0(e.args[0])) and e.args[1:3] == (A0, UD), where(h, e), "calls back with %s" % [show(x) for x in e.args])
                        ctx.ob("call", "unlocked", not held_at(p, pos(p, e)), where(h, e), "calls back under a lock")
                        early = [x for x in stores_to(p, A0, "future") + [y for y in pcalls(p, "dex_unref") if y.args[0] == F] if pos(p, x) < pos(p, e)]
                        ctx.ob("call", "outcome still available", not early, where(h, e), "drops the outcome before the callback")
                    gone = [e for e in stores_to(p, A0, "future") if is0(e.args[1])]
                    ctx.ob("call", "future released", nrel(p, F) == (1 if fut == F and gone else 0), where(h), "the future is released %d times" % nrel(p, F))
                    for e in gone: ctx.ob("call", "released under the lock", ML in held_at(p, pos(p, e)), where(h, e), "gives up the future without the lock")
                    ctx.ob("call", "source removed", p.ret == ZERO, where(h), "the source stays attached")
                    ctx.ob("call", "bridge left to its source", nrel(p, A0) == nref(p, A0), where(h), "drops a reference that belongs to the source")
    # --- propagate
    V, ERR = tok("value"), tok("error"); PEND = P.enumval.get("DEX_ERROR_PENDING")
    for name, kinds in PROP.items():
        f = P.funcs.get(name)
        if not ctx.need(f, "no function %s" % name): continue
        neutral = lambda p: p.ret is not None and (is0(p.ret) or p.ret[0] not in ("call", "op", "ld", "tok", "a"))
        def dup(fut): return {"dex_async_result_dup_future": fut}
        for fut in (NULL, F):
            ps = case(P, f, {(A0, "future"): fut}, dict(dup(fut), dex_future_get_value=NULL, g_type_check_instance_is_a=1), args={1: ERR}); n += len(ps)
            txt = "%s %s" % (name, "without a future" if fut == NULL else "rejected")
            ctx.ob("propagate", txt + " (handled)", ps, where(f), "no path")
            for p in ps:
                ctx.ob("propagate", txt, neutral(p), where(f), "returns %s" % show(p.ret))
                es = error_set(p, ERR); gv = pcalls(p, "dex_future_get_value")
                if fut == NULL: ctx.ob("propagate", txt + ": error", len(es) == 1 and error_code(es[0]) == ("dex_error_quark", PEND), where(f), "sets %d errors" % len(es))
                else: ctx.ob("propagate", txt + ": error", not es and len(gv) == 1 and gv[0].args == (F, ERR), where(f), "the future's own error is not the one reported")
                own = nref(p, F) + (1 if pcalls(p, "dex_async_result_dup_future") and fut == F else 0)
                ctx.ob("propagate", txt + ": reference", nrel(p, F) == own, where(f), "the future is released %d times" % nrel(p, F))
        for t in TYPES:
            base = next((k for k in kinds if gtype_is_a(t, ("c", GT[k]))), None)
            calls = dict(dup(F)); calls.update(value_oracle(V, t)); calls["dex_future_get_value"] = V
            old = calls.get("g_type_check_instance_is_a"); calls["g_type_check_instance_is_a"] = 1
            rows = table(P, f, lambda a, st: F if a == ("f", A0, S, "future") else t if a[0] == "f" and a[1] == V and a[3] == "g_type" else None,
                         lambda nm, ar, st: (calls[nm](ar, st) if callable(calls[nm]) else calls[nm]) if nm in calls else ar[0] if nm == "dex_ref" and ar and ar[0] == F else None, args={1: ERR}, widths=True)
            rows = [p for p in rows if p.kind == "ret" and not pcalls(p, "g_return_if_fail_warning")]; n += len(rows)
            txt = "%s of %s" % (name, show(t))
            ctx.ob("propagate", txt + " (handled)", rows, where(f), "no path")
            for p in rows:
                if base: ctx.ob("propagate", txt, reads(p.ret, V, kinds[base]) or p.ret[0] == "call" and p.ret[1] == kinds[base], where(f), "returns %s" % show(p.ret))
                if base and kinds[base].startswith("g_value_get_"):
                    wide = {"int": ["sext"], "uint": ["zext"], "float": ["fpext"]}.get(base, []); got = []; r = p.ret
                    while r[0] == "op" and len(r[2]) == 1: got.append(r[1]); r = r[2][0]
                    got = [x for x in got if x not in ("freeze", "bitcast")]
                    ctx.ob("propagate", txt + ": value preserved", not got or got == wide, where(f), "the value is converted by %s on its way to the caller" % "/".join(got))
                if not base: ctx.ob("propagate", txt, neutral(p) and not [e for e in p.events if e.kind == "call" and str(e.name).startswith(("g_value_get_", "g_value_dup_"))], where(f), "returns %s for another type" % show(p.ret))
    # --- release
    fin = vt.get(("_GObjectClass", "finalize"), {}).get("dex_async_result")
    f = P.funcs.get(fin)
    if ctx.need(f, "no finaliser of the bridge"):
        for static in (0, 1):
            ps = case(P, f, {(A0, "future"): F, (A0, "source_object"): SO, (A0, "cancellable"): C, (A0, "main_context"): CTX, (A0, "name"): NAME, (A0, "name_is_static"): static}); n += len(ps)
            ctx.ob("release", "finalised (handled)", ps, where(f), "no path")
            for p in ps:
                for t, names in ((F, ("dex_unref",)), (SO, ("g_object_unref",)), (C, ("g_object_unref",)), (CTX, ("g_main_context_unref",))):
                    k = [e for e in pcalls(p, *names) if e.args[0] == t]
                    ctx.ob("release", show(t), len(k) == 1, where(f), "releases its %s %d times" % (show(t), len(k)))
                k = [e for e in pcalls(p, "g_free") if e.args[0] == NAME]
                ctx.ob("release", "name", len(k) == (0 if static else 1), where(f), "frees a name %d times" % len(k))
                up = [e for e in p.events if e.kind == "call" and str(e.name).startswith("*") and "finalize" in e.name]
                ctx.ob("release", "chains up last", len(up) == 1 and up[0].args[0] == A0 and not [e for e in p.events[pos(p, up[0]) + 1:] if e.kind in ("call", "store")], where(f), "runs its parent's finaliser %d times" % len(up))
                ctx.ob("release", "lock", len([e for e in pcalls(p, "g_mutex_clear") if norm(e.args[0]) == ML]) == 1, where(f), "does not clear its lock once")
    ctx.count("abstract_paths", n)
