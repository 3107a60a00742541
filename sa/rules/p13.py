"""P13: typed constructors and resolvers store the type and value they name, and take or copy ownership as their name says"""
from spec import *

A0, A1, A2 = ("a", 0), ("a", 1), ("a", 2)
HEAP = {"string": "g_free", "object": "g_object_unref", "boxed": "g_boxed_free", "variant": "g_variant_unref"}
FREES = {"string": ("g_free",), "object": ("g_object_unref",), "boxed": ("g_boxed_free",), "variant": ("g_variant_unref",)}

def rows():
    """function, sink, target (None: the sink's result is returned), kind of type, argument, takes ownership"""
    for t in "int uint int64 uint64 float double pointer".split(): yield "dex_future_new_for_" + t, "dex_future_new_for_value", None, t, A0, None
    yield "dex_future_new_for_string", "dex_future_new_for_value", None, "string", A0, False
    yield "dex_future_new_for_object", "dex_future_new_for_value", None, "object", A0, False
    yield "dex_future_new_take_string", "dex_future_new_for_value", None, "string", A0, True
    yield "dex_future_new_take_object", "dex_future_new_for_value", None, "object", A0, True
    yield "dex_future_new_take_variant", "dex_future_new_for_value", None, "variant", A0, True
    yield "dex_future_new_take_boxed", "dex_future_new_for_value", None, ("arg", A0), A1, True
    for t in "boolean int uint int64 uint64 long ulong float double".split(): yield "dex_promise_resolve_" + t, "dex_promise_resolve", A0, t, A1, None
    yield "dex_promise_resolve_fd", "dex_promise_resolve", A0, "fd", A1, None
    for t in ("string", "object", "variant"): yield "dex_promise_resolve_" + t, "dex_promise_resolve", A0, t, A1, True
    for t in "boolean int64 uint64".split(): yield "dex_async_pair_return_" + t, "dex_future_complete", A0, t, A1, None
    for t in ("string", "object", "variant"): yield "dex_async_pair_return_" + t, "dex_future_complete", A0, t, A1, True
    yield "dex_async_pair_return_boxed", "dex_future_complete", A0, ("arg", A1), A2, True

ALIAS = {"dex_promise_resolve": "dex_future_complete", "dex_future_new_for_value": "dex_static_future_new_resolved"}

def run(ctx):
    P = ctx.P
    ctx.rule("typed", "every typed way to produce an outcome, every path: exactly one completion of its own future, with a value of the type in the name holding exactly the caller's argument (no narrowing)")
    ctx.rule("owner", "'take' variants consume the caller's reference exactly once, the others keep it; a temporary holding its own copy is cleared exactly once, after it was used, and no temporary is cleared that borrows its payload")
    ctx.rule("static", "an already settled future stores the outcome it was created with: one copy of the value with its type, or the error itself, and the matching status")
    ctx.rule("plain", "untyped ways to settle pass value or error on unchanged")
    n = 0
    for name, sink, target, kind, arg, take in rows():
        f = P.funcs.get(name)
        if not ctx.need(f, "no function %s" % name): continue
        isobj = kind == "object"
        argcases = (tok("given"),) + ((NULL,) if isobj and name not in ("dex_future_new_for_object", "dex_async_pair_return_object") or kind == "string" else ())
        if kind not in HEAP and not isinstance(kind, tuple): argcases = (arg,)
        if isinstance(kind, tuple): argcases = (tok("given"),)
        for av in argcases:
            calls = {"g_type_fundamental": GT["boxed"], "g_type_is_a": 1, "g_type_check_instance_is_fundamentally_a": lambda a, st: int(a[0] != NULL), "g_type_check_value": 1, "g_type_check_instance_is_a": None}
            del calls["g_type_check_instance_is_a"]
            ps = case(P, f, {}, calls, args={arg[1]: av} if av != arg else {}, locs=True, K=6); n += len(ps)
            txt = name + (" given NULL" if av == NULL else "")
            ctx.ob("typed", txt + " (handled)", ps, where(f), "no path for this case")
            for p in ps:
                ss = pcalls(p, sink, ALIAS.get(sink, sink))
                ctx.ob("typed", txt + ": one completion", len(ss) == 1, where(f), "settles %d times" % len(ss))
                if len(ss) != 1: continue
                s = ss[0]; i = pos(p, s)
                holder = s.args[1] if target is not None else s.args[0]
                if target is not None: ctx.ob("typed", txt + ": settles its own future", s.args[0] == target, where(f, s), "settles %s" % show(s.args[0]))
                else: ctx.ob("typed", txt + ": returns the future", p.ret == s.res, where(f), "returns %s" % (show(p.ret) if p.ret else "nothing"))
                if s.name == "dex_future_complete": ctx.ob("typed", txt + ": no error besides the value", is0(s.args[2]), where(f, s), "passes an error as well")
                v = gval(p, i, holder)
                if isinstance(kind, tuple): okt = v.type == kind[1]; wt = "the type given"
                elif kind == "fd": okt = v.type == FDTYPE; wt = "the file descriptor type"
                elif kind == "object": okt = v.type is not None and (type_of_instance(v.type, av) or v.type == ("c", GT["object"])); wt = "the object's type"
                else: okt = v.type == ("c", GT[kind]); wt = kind
                ctx.ob("typed", txt + ": type of the value", okt, where(f, s), "the value is of %r, expected %s" % (v, wt))
                if kind == "object" and av != NULL and name.startswith(("dex_future_new_for", "dex_promise", "dex_async")):
                    ctx.ob("typed", txt + ": exact type of the object", v.type is not None and type_of_instance(v.type, av), where(f, s), "the value has another type than the object")
                pl = v.payload
                if kind == "fd":
                    st = [e for e in p.events[:i] if e.kind == "store" and e.args[0] == pl]
                    ctx.ob("typed", txt + ": payload", st and st[-1].args[1] == av, where(f, s), "the payload is not the descriptor given")
                else:
                    if pl is None and av == NULL: pl = NULL   # a value without payload holds nothing
                    same = pl == av or is0(av) and pl is not None and is0(pl)
                    if kind == "boolean" and pl is not None and not same:
                        # normalisation is fine
                        same = all(ev(pl, lambda t: x if t == av else None) == x for x in (0, 1))
                    ctx.ob("typed", txt + ": payload", same, where(f, s), "the payload is %s, not the argument" % (show(pl) if pl else "not set"))
                # the setter belongs to the type
                K = "boxed" if isinstance(kind, tuple) else kind
                how = v.how or "none"
                if how not in ("raw", "none", "set_instance"):
                    base = how.replace("set_static_", "").replace("set_interned_", "").replace("take_", "").replace("set_", "").replace("_take_ownership", "")
                    ctx.ob("typed", txt + ": setter", base == ("boxed" if K == "fd" else K), where(f, s), "the %s setter is used for a value of type %s" % (how, K))
                # ownership
                w = gval(p, len(p.events), holder)
                # a value of the holder before the sink must still be there: not unset early
                ctx.ob("owner", txt + ": holder still set when used", v.unset == 0, where(f), "the value is cleared before it is used")
                if K == "fd" and how in ("set_boxed", "take_boxed"): ctx.ob("owner", txt + ": holder cleared", how == "set_boxed" and w.unset == 1, where(f), "the temporary value is cleared %d times" % w.unset)
                if K in HEAP:
                    owned = how.startswith("take_") or how in ("set_" + K, "set_instance")
                    if not is0(av):
                        ctx.ob("owner", txt + ": holder cleared", w.unset == (1 if owned else 0) or not owned and how.startswith("set_static") and w.unset <= 1, where(f), "the temporary value is cleared %d times" % w.unset)
                        fr = [e for e in p.events if e.kind == "call" and e.name in FREES[K] and av in e.args]
                        got = len(fr) + (1 if how.startswith("take_") else 0)
                        ctx.ob("owner", txt + (": takes ownership" if take else ": leaves ownership alone"), got == (1 if take else 0), where(f), "the caller's reference is consumed %d times" % got)
                        for e in fr: ctx.ob("owner", txt + ": released after use", pos(p, e) > i, where(f, e), "released before the value was copied")
                        refs = [e for e in p.events if e.kind == "call" and e.name in ("g_object_ref", "g_strdup", "g_variant_ref", "g_boxed_copy") and av in e.args]
                        ctx.ob("owner", txt + ": no extra reference", not refs, where(f), "takes a further reference")
    # the two boolean futures may be shared
    f = P.funcs.get("dex_future_new_for_boolean")
    if ctx.need(f, "no dex_future_new_for_boolean"):
        F = {0: tok("false-future"), 1: tok("true-future")}; cells = {}
        def new(a, st):
            class T: pass
            t = T(); t.events = st.trace
            v = gval(t, len(st.trace), a[0])
            ok = v.type == ("c", GT["boolean"]) and v.payload is not None and v.payload[0] == "c"
            return F[int(v.payload[1] != 0)] if ok else None
        sinks = {"dex_static_future_new_resolved": new, "dex_future_new_for_value": new}
        for first in (1, 0):
            for a in (0, 1, 2, -1):
                ps = case(P, f, {}, dict(sinks, g_once_init_enter=first, g_once_init_enter_pointer=first), args={0: a}, locs=True, default=lambda x, st: cells.get(canon(x)) if canon(x) in cells else None, K=6)
                n += len(ps)
                txt = "boolean future for %d (%s)" % (a, "first use" if first else "later")
                ctx.ob("typed", txt + " (handled)", ps, where(f), "no path for this case")
                for p in ps:
                    # memory test of the once flag may skip the initialisation: those paths are the 'later' case
                    if first and not pcalls(p, "dex_static_future_new_resolved", "dex_future_new_for_value"): continue
                    for e in p.events:
                        if e.kind == "store" and e.args[1] in F.values(): cells[canon(e.args[0])] = e.args[1]
                    ctx.ob("typed", txt, p.ret is not None and unref_strip(p.ret) == F[int(a != 0)], where(f), "returns %s" % (show(unref_strip(p.ret)) if p.ret else "nothing"))
                    shared = any(root_of(e.args[0])[0] == "g" and e.args[1] in F.values() for e in p.events if e.kind == "store") or cells
                    r = [e for e in pcalls(p, "dex_ref") if e.args[0] == F[int(a != 0)]]
                    ctx.ob("owner", txt + ": the caller gets a reference of its own", len(r) == (1 if shared else 0), where(f), "takes %d references" % len(r))
    # settled futures
    st = {k: P.enumval["DEX_FUTURE_STATUS_" + k] for k in ("RESOLVED", "REJECTED")}
    for name, what in (("dex_static_future_new_resolved", "RESOLVED"), ("dex_static_future_new_rejected", "REJECTED")):
        f = P.funcs.get(name)
        if not ctx.need(f, "no function %s" % name): continue
        NEW = tok("new"); T = tok("type")
        ps = case(P, f, {(A0, "g_type"): T}, {"dex_object_create_instance": NEW, "g_type_check_value": 1}, locs=True); n += len(ps)
        ctx.ob("static", name + " (handled)", ps, where(f), "no path for this case")
        for p in ps:
            ctx.ob("static", name + " returns the new future", p.ret == NEW, where(f), "returns %s" % (show(p.ret) if p.ret else "nothing"))
            ctx.ob("static", name + ": status", bits_value(P, "_DexFuture", "status", p) == st[what], where(f), "has another status")
            if what == "RESOLVED":
                dst = ("f", NEW, "_DexFuture", "resolved")
                ini = [e for e in pcalls(p, "g_value_init") if e.args[0] == dst]; cp = [e for e in pcalls(p, "g_value_copy") if e.args[1] == dst]
                ctx.ob("static", name + ": one copy of the value", len(cp) == 1 and cp[0].args[0] == A0 and len(ini) == 1 and ini[0].args[1] == T and pos(p, ini[0]) < pos(p, cp[0]), where(f), "does not hold one copy of the value")
                ctx.ob("static", name + ": no error", not [e for e in stores_to(p, NEW, "rejected") if not is0(e.args[1])], where(f), "stores an error as well")
                ctx.ob("static", name + ": the caller keeps its value", not [e for e in pcalls(p, "g_value_unset") if e.args[0] == A0], where(f), "clears the caller's value")
            else:
                ctx.ob("static", name + ": the error", final(p, NEW, "rejected") == A0 and not pcalls(p, "g_error_free"), where(f), "does not hold the error given")
    # untyped
    def one(name, sink, argspec, ret, **kw):
        nonlocal n
        f = P.funcs.get(name)
        if not ctx.need(f, "no function %s" % name): return
        ps = case(P, f, {}, dict({"g_type_check_value": 1}, **kw.pop("calls", {})), locs=True, **kw); n += len(ps)
        ctx.ob("plain", name + " (handled)", ps, where(f), "no path for this case")
        for p in ps:
            ss = pcalls(p, *sink)
            ctx.ob("plain", name + ": once", len(ss) == 1, where(f), "settles %d times" % len(ss))
            for s in ss:
                ctx.ob("plain", name + ": passes its argument on", argspec(s.args), where(f, s), "settles with %s" % ", ".join(show(a) for a in s.args))
                if ret: ctx.ob("plain", name + ": returns the future", p.ret == s.res, where(f), "returns %s" % (show(p.ret) if p.ret else "nothing"))
            ctx.ob("plain", name + ": value and error stay as they are", not pcalls(p, "g_value_unset", "g_error_free", "g_clear_error"), where(f), "releases what it passed on")
    one("dex_future_new_for_value", ("dex_static_future_new_resolved",), lambda a: a == (A0,), True)
    one("dex_future_new_for_error", ("dex_static_future_new_rejected",), lambda a: a == (A0,), True)
    one("dex_promise_resolve", ("dex_future_complete",), lambda a: a[:2] == (A0, A1) and is0(a[2]), False)
    one("dex_promise_reject", ("dex_future_complete",), lambda a: a[0] == A0 and is0(a[1]) and a[2] == A1, False)
    one("dex_async_pair_return_error", ("dex_future_complete",), lambda a: a[0] == A0 and is0(a[1]) and a[2] == A1, False)
    E = tok("error")
    one("dex_future_new_reject", ("dex_future_new_for_error", "dex_static_future_new_rejected"), lambda a: a == (E,), True, calls={"g_error_new_valist": lambda a, s: E if a[:3] == (A0, A1, A2) else None})
    Q = tok("q")
    one("dex_future_new_for_errno", ("dex_future_new_for_error", "dex_static_future_new_rejected"), lambda a: a == (E,), True,
        calls={"g_io_error_quark": Q, "g_io_error_from_errno": lambda a, s: tok("code") if a[0] == A0 else None, "g_strerror": lambda a, s: tok("text") if a[0] == A0 else None,
               "g_error_new_literal": lambda a, s: E if a == (Q, tok("code"), tok("text")) else None, "g_error_new": lambda a, s: E if a[:2] == (Q, tok("code")) else None})
    ctx.count("abstract_paths", n); ctx.count("rows", len(list(rows())))
