"""P12: each typed await consumes its future and returns the payload of its own type or the neutral value with an error"""
from spec import *

SELF = ("a", 0)
# name: (type of the value, accessors that read it, accessors need to copy, neutral value)
NUM = "int uint int64 uint64 double float boolean enum flags pointer".split()
TYPES = [("c", GT[t]) for t in "char boolean int uint long ulong int64 uint64 enum flags float double string pointer boxed object variant".split()] + [FDTYPE] + [tok("derived-" + t) for t in ("object", "boxed", "enum", "flags")]

def spec():
    for t in NUM: yield "dex_await_" + t, ("c", GT[t]), "g_value_get_" + t, 0
    for t, own in (("string", "dup"), ("object", "dup"), ("boxed", "dup"), ("variant", "dup")): yield "dex_await_" + t, ("c", GT[t]), "g_value_%s_%s" % (own, t), 0
    yield "dex_await_fd", FDTYPE, "dex_fd_steal", -1

COPY = {"string": ("g_strdup", "g_strdup_inline"), "object": ("g_object_ref",), "boxed": ("g_boxed_copy",), "variant": ("g_variant_ref",)}

def reads(t, V, acc):
    """the returned term is V read with the accessor of its type (and copied when ownership is returned)"""
    k = acc.split("_", 3)[-1]
    if t[0] == "op" and t[1] in ("trunc", "fptrunc") and not k.startswith(("char", "uchar", "boolean")): return False
    if t[0] == "op" and t[1] in ("zext", "sext", "trunc", "freeze", "bitcast", "fpext"): return reads(t[2][0], V, acc)
    if t[0] != "call": return False
    if acc == "dex_fd_steal": return t[1] == acc and t[2][0][0] == "call" and t[2][0][1] == "g_value_get_boxed" and t[2][0][2] == (V,)
    if t[1] == acc and t[2] == (V,): return True
    if t[1] in COPY.get(k, ()):
        x = t[2][-1]
        return x[0] == "call" and x[1] == "g_value_get_" + k and x[2] == (V,)
    return False

def run(ctx):
    P = ctx.P
    ctx.rule("typed", "for every typed await x every type a value can have: the value is returned, read with the accessor of the awaited type and copied where ownership is returned, exactly when it has that type; otherwise the neutral value with the type-mismatch error")
    ctx.rule("failed", "no value: the neutral value is returned and nothing is read; the error location given by the caller is the one filled in")
    ctx.rule("consumes", "the future given is released exactly once, after the last use of its payload")
    ctx.rule("untyped", "dex_await and dex_await_borrowed report success exactly when there is a value; off a fiber a pending future yields the no-fiber error")
    ctx.rule("outcome", "reading the outcome: pending and rejected give no value and an error (a copy of the rejection), resolved gives the stored value; read under the future's lock")
    MM, NOFIB, PEN = (P.enumval.get("DEX_ERROR_" + x) for x in ("TYPE_MISMATCH", "NO_FIBER", "PENDING"))
    n = 0
    V = tok("value"); ERR = tok("error")
    for name, T, acc, neutral in spec():
        f = P.funcs.get(name)
        if not ctx.need(f, "no function %s" % name): continue
        def neut(p): return p.ret is not None and (p.ret[0] in ("c", "n") and (p.ret[1] if p.ret[0] == "c" else 0) == neutral or neutral == 0 and p.ret[0] == "cf" or (p.ret[0] not in ("call", "op", "ld") and str(p.ret[-1]) in ("0.0", "0", "0.000000e+00")))
        def consumed(p, txt):
            rel = [e for e in pcalls(p, "dex_unref") if e.args[0] == SELF]
            ctx.ob("consumes", "%s (%s) releases its future" % (name, txt), len(rel) == 1, where(f), "the future is released %d times" % len(rel))
            if len(rel) == 1:
                late = [e for e in p.events[pos(p, rel[0]) + 1:] if e.kind == "call" and e.name not in ("dex_unref",) and (SELF in e.args or V in e.args or any(a[0] == "call" and V in a[2] for a in e.args if isinstance(a, tuple) and len(a) > 2 and isinstance(a[2], tuple)))]
                ctx.ob("consumes", "%s (%s) reads before it releases" % (name, txt), not late, where(f, late[0]) if late else where(f), "the payload is used after the reference was dropped")
        # no value
        for err in (ERR, NULL):
            ps = case(P, f, {}, {"dex_await_borrowed": NULL, "dex_future_get_value": NULL}, args={1: err}); n += len(ps)
            ctx.ob("failed", "%s without a value (handled)" % name, ps, where(f), "no path for this case")
            for p in ps:
                ctx.ob("failed", "%s returns the neutral value" % name, neut(p), where(f), "returns %s" % show(p.ret))
                b = pcalls(p, "dex_await_borrowed", "dex_future_get_value")
                ctx.ob("failed", "%s passes on future and error location" % name, b and all(e.args == (SELF, err) for e in b), where(f), "waits with other arguments")
                ctx.ob("failed", "%s reads nothing" % name, not [e for e in p.events if e.kind == "call" and e.name.startswith(("g_value_", "dex_fd_"))], where(f), "reads a value that is not there")
                ctx.ob("failed", "%s leaves the error as it is" % name, not error_set(p, err), where(f), "an error is set over the one already set")
                consumed(p, "failed")
        for t in TYPES:
            right = gtype_is_a(t, T)
            for err in (ERR, NULL):
                calls = {"dex_await_borrowed": V, "dex_future_get_value": V}; calls.update(value_oracle(V, t))
                ps = case(P, f, {(V, "g_type"): t}, calls, args={1: err}); n += len(ps)
                txt = "%s given %s" % (name, show(t) if t[0] != "c" else [k for k, x in GT.items() if x == t[1]][0])
                ctx.ob("typed", txt + " (handled)", ps, where(f), "no path for this case")
                for p in ps:
                    consumed(p, "type " + txt)
                    acs = [e for e in p.events if e.kind == "call" and (e.name.startswith(("g_value_get", "g_value_dup", "g_value_peek", "g_value_steal")))]
                    if right:
                        ctx.ob("typed", txt, p.ret is not None and reads(p.ret, V, acc), where(f), "returns %s" % (show(p.ret) if p.ret else "nothing"))
                        ctx.ob("typed", txt + " without error", not error_set(p, err), where(f), "sets an error although the type matches")
                    else:
                        ctx.ob("typed", txt, neut(p), where(f), "returns %s for a value of another type" % (show(p.ret) if p.ret else "nothing"))
                        ctx.ob("typed", txt + " reads nothing", not acs, where(f), "reads a value of another type")
                        es = error_set(p, err)
                        ctx.ob("typed", txt + " sets the mismatch error", err == NULL or len(es) == 1 and error_code(es[0]) == ("dex_error_quark", MM), where(f), "the type-mismatch error is not set")
    # untyped
    f = P.funcs.get("dex_await")
    if ctx.need(f, "no dex_await"):
        for v in (V, NULL):
            for p in case(P, f, {}, {"dex_await_borrowed": v, "dex_future_get_value": v}, args={1: ERR}):
                n += 1
                ctx.ob("untyped", "dex_await %s a value" % ("with" if v == V else "without"), ev(p.ret, lambda t: 7 if t == V else None) == int(v == V), where(f), "returns %s" % show(p.ret))
                rel = [e for e in pcalls(p, "dex_unref") if e.args[0] == SELF]
                b = pcalls(p, "dex_await_borrowed")
                ctx.ob("untyped", "dex_await waits for its own future", len(b) == 1 and b[0].args == (SELF, ERR), where(f), "waits with other arguments")
                ctx.ob("consumes", "dex_await releases its future", len(rel) == 1 and b and pos(p, rel[0]) > pos(p, b[0]), where(f), "the future is released %d times" % len(rel))
    f = P.funcs.get("dex_await_borrowed")
    st = {k: P.enumval["DEX_FUTURE_STATUS_" + k] for k in ("PENDING", "RESOLVED", "REJECTED")}
    if ctx.need(f, "no dex_await_borrowed"):
        for s in st:
            for fiber in (tok("fiber"), NULL):
                def fib(a, st): return fiber
                GV = tok("got")
                sched = tok("fsched")
                ps = case(P, f, {(tok("storage"), "fiber_scheduler"): sched, (sched, "running"): fiber, (fiber, "fiber_scheduler"): sched}, {"dex_thread_storage_get": tok("storage"), "dex_fiber_current": fiber, "dex_future_get_value": GV}, status={SELF: st[s]}, args={1: ERR})
                n += len(ps)
                txt = "%s future %s a fiber" % (s.lower(), "on" if fiber != NULL else "off")
                ctx.ob("untyped", txt + " (handled)", ps, where(f), "no path for this case")
                for p in ps:
                    g = pcalls(p, "dex_future_get_value"); w = pcalls(p, "dex_future_chain")
                    if s == "PENDING" and fiber == NULL:
                        es = error_set(p, ERR)
                        ctx.ob("untyped", txt + " fails", p.ret == NULL and not g and not w and len(es) == 1 and error_code(es[0]) == ("dex_error_quark", NOFIB), where(f), "a pending future awaited off a fiber does not give the no-fiber error")
                    else:
                        ctx.ob("untyped", txt + " yields the outcome", len(g) == 1 and p.ret == GV and g[0].args[1] == ERR and not error_set(p, ERR), where(f), "the outcome of the future is not what is returned")
                        ctx.ob("untyped", txt + " waits only when pending", bool(w) == (s == "PENDING"), where(f), "waits %d times" % len(w))
                        if g: ctx.ob("untyped", txt + " asks the awaited future", g[0].args[0] == (w[0].args[0] if w else SELF), where(f), "the outcome of another future is returned")
    f = P.funcs.get("dex_future_get_value")
    if ctx.need(f, "no dex_future_get_value"):
        REJ = tok("rejection"); lock = objlock(SELF)
        for s in st:
            for err in (ERR, NULL):
                ps = case(P, f, {(SELF, "status"): st[s], (SELF, "rejected"): REJ}, {}, args={1: err}); n += len(ps)
                ctx.ob("outcome", "%s (handled)" % s.lower(), ps, where(f), "no path for this case")
                for p in ps:
                    es = error_set(p, err)
                    if s == "RESOLVED":
                        ctx.ob("outcome", "resolved gives the stored value", p.ret == ("f", SELF, "_DexFuture", "resolved") and not es, where(f), "returns %s" % show(p.ret))
                    else:
                        ctx.ob("outcome", "%s gives no value" % s.lower(), p.ret is not None and is0(p.ret), where(f), "returns %s" % show(p.ret))
                        if err == ERR:
                            ctx.ob("outcome", "%s sets the error" % s.lower(), len(es) == 1, where(f), "sets the error %d times" % len(es))
                            if es and s == "PENDING": ctx.ob("outcome", "pending error", error_code(es[0]) == ("dex_error_quark", PEN), where(f), "another error is reported")
                            if es and s == "REJECTED":
                                x = es[0].args[1]
                                ctx.ob("outcome", "the rejection is copied", x[0] == "call" and x[1] == "g_error_copy" and x[2] == (REJ,), where(f), "the caller is given %s" % show(x))
    ctx.count("abstract_paths", n); ctx.count("typed_awaits", len(list(spec())))
