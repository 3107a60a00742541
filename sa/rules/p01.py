"""single completion: who may write the outcome of a future, and under what conditions"""
from spec import *
import engine

OUT = ("_DexFuture.status", "_DexFuture.resolved", "_DexFuture.rejected")
F = ["DexFuture.status", "DexFuture.resolved", "DexFuture.rejected"]
WR = ("g_value_init", "g_value_copy", "g_value_unset", "g_value_set_", "g_value_take_", "g_value_reset", "g_value_transform", "g_clear_error", "g_clear_pointer", "g_set_error",
      "g_propagate_error", "llvm.mem")

def status_ld(t, base=None):
    return t[0] == "ld" and fld(t[1], "_DexFuture", "status") and (base is None or norm(t[1][1]) == norm(base))

def writes(e):
    """(base, field, value) of the outcome fields this event writes"""
    out = []
    if e.kind == "store":
        a = e.args[0]
        while a[0] == "f":
            if a[2] == "_DexFuture" and a[3] in ("status", "resolved", "rejected"): out.append((a[1], a[3], e.args[1] if a is e.args[0] else None)); break
            a = a[1]
    elif e.kind == "call" and isinstance(e.name, str):
        for k, x in enumerate(e.args):
            a = x
            while isinstance(a, tuple) and a[0] in ("f", "ix"):
                if a[0] == "f" and a[2] == "_DexFuture" and a[3] in ("status", "resolved", "rejected"):
                    if e.name.startswith("llvm.mem") and k != 0: break
                    if e.name.startswith(("g_value_get", "g_value_dup", "g_value_peek", "g_type_check_value", "g_type_name", "g_strdup_value")): break
                    if e.name == "g_value_copy" and k == 0: break
                    if e.name in ("g_error_copy", "g_error_free"): break
                    if e.name.startswith(("dex_",)): break       # handed on for reading (const GValue*)
                    out.append((a[1], a[3], None)); break
                a = a[1]
    return out

def run(ctx):
    P = ctx.P
    ctx.rule("claimed", "every write of a future's status or payload happens under that future's own lock after its status was found pending in the same critical section (or on a fresh, unshared future, or in its finaliser)")
    ctx.rule("atomic-outcome", "a critical section that settles a future writes exactly one payload and the matching status, and publishes nothing in between")
    ctx.rule("late", "a completion attempt on a settled future writes nothing and frees the error it was given")
    ctx.rule("first", "a completion attempt on a pending future stores the outcome it was given")
    ctx.rule("readers", "the public getters report the stored outcome and nothing else")
    dtors = P.finalizers()
    RES, REJ, PEN = P.enumval["DEX_FUTURE_STATUS_RESOLVED"], P.enumval["DEX_FUTURE_STATUS_REJECTED"], P.enumval["DEX_FUTURE_STATUS_PENDING"]
    names = {RES: "resolved", REJ: "rejected"}
    writers = 0
    for cfg in ("main",):
      for f in roots(P):
        # cheap pre-filter: does the function mention the fields at all
        ment = False
        for b in f.blocks:
            for i in b:
                if "_DexFuture" in str(i.raw.get("gf", "")) or "_DexFuture" in str(i.a): ment = True; break
            if ment: break
        if not ment: continue
        ps = traces(P, f, fields=F + ["DexFuture.chained"], loads=True, calls=("dex_future_chain", "dex_future_propagate", "dex_scheduler_push", "g_error_free"), maxstates=300000)
        ctx.count("functions_analysed"); ctx.count("abstract_paths", len(ps))
        for p in ps:
            per = {}
            for i, e in enumerate(p.events):
                for base, fl, val in writes(e):
                    writers += 1
                    if f.name in dtors and root_of(base) == ("a", 0): continue
                    if is_fresh(base):
                        pub = any(root_of(base) in published(x) for x in p.events[:i])
                        ctx.ob("claimed", "%s of fresh future in %s" % (fl, f.base), not pub, where(f, e), "the outcome is written after the future was shared")
                        per.setdefault((norm(base), "fresh"), []).append((i, e, fl, val)); continue
                    held = held_at(p, i)
                    lk = objlock(base)
                    ok = lk in held
                    ctx.ob("claimed", "%s under lock in %s" % (fl, f.base), ok, where(f, e), "%s of a shared future is written without holding its lock" % fl)
                    if not ok: continue
                    sec = max(k for k in range(i) if p.events[k].kind == "call" and p.events[k].name in LOCKS and norm(p.events[k].args[0]) == lk)
                    d = fx(e); d.update({})
                    lds = [x.res for x in p.events[sec:i] if x.kind == "load" and fld(x.args[0], "_DexFuture", "status") and norm(x.args[0][1]) == norm(base)]
                    pend = any(known_eq(d, lambda t, v=v: t == v, PEN) for v in lds)
                    ctx.ob("claimed", "%s only while pending in %s" % (fl, f.base), pend, where(f, e), "%s is written although the future was not found pending in this critical section" % fl)
                    per.setdefault((norm(base), sec), []).append((i, e, fl, val))
            for (b, sec), ws in per.items():
                pay = {fl for i, e, fl, v in ws if fl != "status"}
                sts = [v for i, e, fl, v in ws if fl == "status"]
                st = sts[-1][1] if sts and sts[-1] is not None and sts[-1][0] == "c" else None
                ok = len(pay) == 1 and st in names and pay == {names[st]} and len(sts) == 1
                ctx.ob("atomic-outcome", f.base, ok, where(f, ws[0][1]), "status %s is stored together with payload %s" % (st, sorted(pay) or "none"))
    ctx.count("outcome_writes_on_paths", writers)
    ctx.need(writers >= 4, "no writes of a future's outcome found")

    # completion
    f = P.fn("dex_future_complete")
    ps = traces(P, f, fields=F, loads=True, calls=("g_error_free", "g_clear_error", "g_error_copy"), keep=lambda l: has_sub(l, ("a", 1)) or has_sub(l, ("a", 2)))
    n = 0
    ferr = lambda e: e.kind == "call" and e.name in ("g_error_free", "g_clear_error")
    for p in ps:
        if p.kind != "ret" or misuse(p) or not [e for e in p.events if e.kind == "call" and e.name in LOCKS]: continue
        n += 1
        pend = known_eq(p.facts, lambda t: status_ld(t, ("a", 0)), PEN)
        a1null = known_eq(p.facts, lambda t: t == ("a", 1), 0); a2null = known_eq(p.facts, lambda t: t == ("a", 2), 0)
        ws = [(w, e) for e in p.events for w in writes(e) if norm(w[0]) == ("a", 0)]
        frees = [e for e in p.events if ferr(e)]
        if pend:
            st = [w[2] for w, e in ws if w[1] == "status"]
            want = RES if a1null is False else REJ
            ok = st == [("c", want)]
            ctx.ob("first", "outcome stored by dex_future_complete", ok, where(f), "with %s the stored status is %s" % ("a value" if want == RES else "an error", [show(s) for s in st]))
            if want == REJ:
                rej = [w[2] for w, e in ws if w[1] == "rejected"]
                ctx.ob("first", "error stored by dex_future_complete", rej == [("a", 2)], where(f), "the rejection stores %s instead of the error passed in" % [show(x) if x else x for x in rej])
                ctx.ob("first", "stored error is not freed", not frees or all(free_of_null(p, e) for e in frees), where(f), "the error is freed although the future stores it")
            else:
                cp = [e for e in p.events if e.kind == "call" and e.name in ("g_value_copy",) and e.args[0] == ("a", 1) and fld(e.args[1], "_DexFuture", "resolved")]
                ctx.ob("first", "value stored by dex_future_complete", len(cp) == 1, where(f), "the resolved value is not copied from the caller's value")
        elif pend is False:
            ctx.ob("late", "dex_future_complete writes nothing", not ws, where(f), "a settled future is written again")
            if a2null is not True:
                ok = len(frees) == 1
                ctx.ob("late", "dex_future_complete frees the error", ok, where(f), "the error of a late rejection is freed %d times" % len(frees))
        else:
            ctx.ob("late", "dex_future_complete decides on the status", not ws, where(f), "the outcome is written on a path that does not test the status")
    ctx.need(n >= 3, "dex_future_complete has no completing path")

    # readers
    for fn, ex in (("dex_future_is_resolved", RES), ("dex_future_is_rejected", REJ), ("dex_future_is_pending", PEN)):
        ps = [p for p in traces(P, fn, fields=F, loads=True) if not misuse(p)]
        tb = returns_for(ps, lambda t: status_ld(t, ("a", 0)), (PEN, RES, REJ))
        for v, s in tb.items():
            ctx.ob("readers", "%s(status=%d)" % (fn, v), s == {int(v == ex)}, where(P.fn(fn)), "returns %s for status %d" % (s, v))
    ps = [p for p in traces(P, "dex_future_get_status", fields=F, loads=True) if not misuse(p)]
    tb = returns_for(ps, lambda t: status_ld(t, ("a", 0)), (PEN, RES, REJ))
    for v, s in tb.items(): ctx.ob("readers", "dex_future_get_status(status=%d)" % v, s == {v}, where(P.fn("dex_future_get_status")), "returns %s for status %d" % (s, v))
    f = P.fn("dex_future_get_value")
    ps = traces(P, f, fields=F, loads=True, calls=("g_error_copy", "g_set_error_literal", "g_set_error", "g_propagate_error", "g_error_new", "g_error_new_literal", "g_set_error_literal", "dex_error_quark"),
                also=lambda ev, st, eng: ev.kind == "store" and ev.args[0] == ("a", 1), keep=lambda l: has_sub(l, ("a", 1)))
    for p in ps:
        if p.kind != "ret" or misuse(p): continue
        st = [v for v in (PEN, RES, REJ) if known_eq(p.facts, lambda t: status_ld(t, ("a", 0)), v)]
        if len(st) != 1: 
            left = [v for v in (PEN, RES, REJ) if known_eq(p.facts, lambda t: status_ld(t, ("a", 0)), v) is not False]
            st = left if len(left) == 1 else []
        if not st: continue
        st = st[0]
        isval = fld(p.ret, "_DexFuture", "resolved") and p.ret[1] == ("a", 0)
        if st == RES: ctx.ob("readers", "dex_future_get_value on a resolved future", isval, where(f), "returns %s" % show(p.ret))
        else:
            ctx.ob("readers", "dex_future_get_value returns NULL unless resolved", p.ret in (NULL, ZERO), where(f), "returns %s for status %d" % (show(p.ret), st))
            a1 = known_eq(p.facts, lambda t: t == ("a", 1), 0)
            if st == REJ and a1 is not True:
                cps = [e for e in p.events if e.kind == "call" and e.name == "g_error_copy" and ld_fld(e.args[0], "_DexFuture", "rejected")]
                out = [e for e in p.events if (e.kind == "store" and e.args[0] == ("a", 1) and cps and e.args[1] == cps[0].res) or (e.kind == "call" and e.name == "g_propagate_error" and e.args[0] == ("a", 1))]
                ctx.ob("readers", "dex_future_get_value copies the stored error", len(cps) == 1 and len(out) == 1, where(f), "the caller's error is not a copy of the stored one")
            if st == PEN:
                se = [e for e in p.events if e.kind == "call" and e.name in ("g_set_error_literal", "g_set_error") and e.args[0] == ("a", 1)]
                ok = len(se) == 1 and se[0].args[2] == ("c", P.enumval["DEX_ERROR_PENDING"])
                ctx.ob("readers", "dex_future_get_value reports a pending future", ok, where(f), "no DEX_ERROR_PENDING is set for a pending future")

def free_of_null(p, e):
    return e.name == "g_clear_error" and any(x.kind == "store" and x.args[0] == e.args[0] and x.args[1] == NULL for x in p.events)
