"""attach versus complete: no lost and no duplicated notification (case tables over small dependent lists)"""
from spec import *
import itertools
FUT, DEP = tok("future"), tok("dependent")
CF = "_DexChainedFuture"; NEW = tok("newrecord")
ALLOC = ("g_malloc0", "g_malloc0_n", "g_malloc", "g_malloc_n", "g_slice_alloc0", "g_slice_alloc")
link = lambda r: ("f", r, CF, "link")
CH = ("f", FUT, "_DexFuture", "chained")

def notified(p):
    """(event index, event, dependent, completed) of every notification, whether it goes through the helper or straight to the class"""
    return [(i, e, e.args[0], e.args[1]) for i, e in enumerate(p.events) if e.kind == "call" and (e.name == "dex_future_propagate" or str(e.name).endswith("propagate")) and len(e.args) >= 2]

def sections_of(p):
    """critical section number of every event (0: none)"""
    out = []; n = cur = 0
    for e in p.events:
        if e.kind == "call" and e.args and norm(e.args[0]) == objlock(FUT):
            if e.name in LOCKS: n += 1; cur = n
            elif e.name in UNLOCKS: cur = 0
        out.append(cur)
    return out

def run(ctx):
    P = ctx.P
    RES, REJ, PEN = (P.enumval["DEX_FUTURE_STATUS_" + x] for x in ("RESOLVED", "REJECTED", "PENDING"))
    SN = {RES: "resolved", REJ: "rejected", PEN: "pending"}
    ctx.rule("attach", "dex_future_chain decides under the future's lock: pending -> the dependent is appended in that very critical section and not notified; completed -> it is notified exactly once after the lock is released and not appended")
    ctx.rule("record", "the record of a dependent remembers the dependent weakly, its identity and that it is awaiting")
    ctx.rule("take", "the completing thread takes the whole list of dependents in the critical section that settles the future")
    ctx.rule("notify", "each dependent taken off the list is upgraded and, exactly when still alive, notified once with the completed future, outside the lock; a future that was already completed notifies nobody")
    ctx.rule("release", "every record taken is freed once, after its dependent was told, and the upgraded reference is dropped")
    ctx.rule("inherit", "a dependent that has no propagate function, or whose propagate returns FALSE, completes with the outcome of the completed future; otherwise nothing is added")
    rows = n = 0
    PROP = tok("propagate")
    def deflt(a, st): return PROP if a[0] == "f" and a[2] == "_DexFutureClass" and a[3] == "propagate" else None
    names = [tok("record%d" % i) for i in range(310)]
    # ---- dex_future_chain
    f = P.fn("dex_future_chain")
    for status in (PEN, RES, REJ):
        for k in range(3):
            rows += 1
            old = [link(names[i]) for i in range(k)]; q = Queues({CH: old}); mem = {(names[i], "awaiting"): 1 for i in range(k)}
            ps = case(P, f, mem, {a: NEW for a in ALLOC}, status={FUT: status}, args={0: FUT, 1: DEP}, queues=q, K=6, locs=True, first=q.ld, default=deflt, loads=("status",)); n += len(ps)
            txt = "%s future with %d dependents" % (SN[status], k)
            ctx.ob("attach", txt + " (handled)", ps, where(f), "no path")
            for p in ps:
                end = q.at(p.events).get(canon(CH), []); nt = notified(p); sec = sections_of(p)
                if status == PEN:
                    ctx.ob("attach", txt + ": appended", end == old + [link(NEW)] or sorted(end) == sorted(old + [link(NEW)]), where(f), "%s: the dependent is not attached exactly once (%d in the list)" % (txt, len(end)))
                    ctx.ob("attach", txt + ": not notified", not nt, where(f), "%s: the dependent is notified at once" % txt)
                    push = [i for i, e in enumerate(p.events) if e.kind == "call" and str(e.name).startswith("g_queue_") and canon(e.args[0]) == canon(CH)]
                    look = [i for i, e in enumerate(p.events) if e.kind == "load" and e.args[0] == ("f", FUT, "_DexFuture", "status")]
                    for i in push: ctx.ob("attach", txt + ": decided and appended in one critical section", sec[i] and any(j < i and sec[j] == sec[i] for j in look), where(f, p.events[i]), "%s: appended outside of the critical section in which the future was found pending" % txt)
                    ctx.ob("record", "identity of the dependent", final(p, NEW, "where_future_was") == DEP, where(f), "the record does not identify its dependent")
                    aw = bits_value(P, CF, "awaiting", p)
                    ctx.ob("record", "awaiting flag set", aw is not None and aw & 1, where(f), "a new dependent is not marked as awaiting")
                    wi = [e for e in pcalls(p, "dex_weak_ref_init", "dex_weak_ref_set") if e.args[0] == ("f", NEW, CF, "wr")]
                    ctx.ob("record", "weak reference to the dependent", wi and wi[-1].args[1] == DEP and wi[0].name == "dex_weak_ref_init", where(f), "the record does not hold a weak reference to the dependent")
                    ctx.ob("record", "no strong reference", nref(p, DEP) == nrel(p, DEP), where(f), "the record keeps the dependent alive")
                else:
                    ctx.ob("attach", txt + ": notified once", len(nt) == 1, where(f), "%s: the dependent is notified %d times" % (txt, len(nt)))
                    ctx.ob("attach", txt + ": not appended", end == old, where(f), "%s: the list of dependents changes" % txt)
                    for i, e, d, c in nt:
                        ctx.ob("attach", txt + ": with the completed future", d == DEP and c == FUT, where(f, e), "propagates %s to %s" % (show(c), show(d)))
                        ctx.ob("attach", txt + ": outside the lock", not held_at(p, i), where(f, e), "the dependent is notified under a lock")
    # ---- dex_future_complete
    f = P.fn("dex_future_complete")
    depth = 4 if ctx.tier == "thorough" else 3
    V, E = tok("value"), tok("error")
    for status in (PEN, RES, REJ):
        for res in (True, False):
            for alive in [a for k in range(depth + 1) for a in itertools.product((1, 0), repeat=k)] + [(1,) * k for k in sizes(P, f)] if status == PEN else [(), (1,), (1, 0)]:
                rows += 1
                k = len(alive); old = [link(names[i]) for i in range(k)]; q = Queues({CH: old})
                mem = {(names[i], "awaiting"): 1 for i in range(k)}
                def up(ar, st, alive=alive):
                    r = ar[0][1] if ar[0][0] == "f" else None
                    if r not in names: return None
                    gone = any(e.kind == "call" and e.name in ("dex_weak_ref_set", "dex_weak_ref_clear") and e.args[0] == ar[0] for e in st.trace)
                    return tok("live%d" % names.index(r)) if alive[names.index(r)] and not gone else NULL
                ps = case(P, f, mem, {"dex_weak_ref_get": up, "g_type_check_value": 1}, status={FUT: status}, args={0: FUT, 1: V if res else NULL, 2: NULL if res else E}, queues=q, K=8 + k, locs=True, first=q.ld, default=deflt); n += len(ps)
                txt = "%s future, %s, dependents %s" % (SN[status], "value" if res else "error", "%d alive" % k if k > 4 else ["gone", "alive"] and ",".join(("gone", "alive")[a] for a in alive) or "none")
                ctx.ob("notify", txt + " (handled)", ps, where(f), "no path")
                for p in ps:
                    end = q.at(p.events).get(canon(CH), []); nt = notified(p); sec = sections_of(p)
                    want = [tok("live%d" % i) for i in range(k) if alive[i]] if status == PEN else []
                    got = [d for i, e, d, c in nt]
                    ctx.ob("notify", txt, sorted(got) == sorted(want), where(f), "%s: notifies %s" % (txt, ", ".join(show(x) for x in got) or "nobody"))
                    for i, e, d, c in nt:
                        ctx.ob("notify", txt + ": with the completed future", c == FUT, where(f, e), "the dependent is told about %s" % show(c))
                        ctx.ob("notify", txt + ": outside the lock", not held_at(p, i), where(f, e), "dependents are notified under a lock")
                        ctx.ob("notify", txt + ": after the outcome is set", any(x.kind == "store" and x.args[0] == ("f", FUT, "_DexFuture", "status") for x in p.events[:i]), where(f, e), "dependents are notified before the future is settled")
                        ctx.ob("notify", txt + ": alive", not [x for x in p.events[:i] if x.kind == "call" and x.name == "dex_unref" and x.args[0] == d], where(f, e), "a dependent is notified after its reference was dropped")
                    for d in want: ctx.ob("release", txt + ": upgraded reference", nrel(p, d) == 1 and nref(p, d) == 0, where(f), "%s: the reference on a dependent is dropped %d times" % (txt, nrel(p, d)))
                    fr = sorted(e.args[0] for e in pcalls(p, "g_free", "dex_chained_future_free", "g_free_sized", "g_slice_free1") if e.args[0] in names) + sorted(e.args[1] for e in pcalls(p, "g_slice_free1") if e.args[1] in names)
                    ctx.ob("release", txt + ": records", fr == (names[:k] if status == PEN else []), where(f), "%s: frees %d of %d records" % (txt, len(fr), k))
                    if status == PEN:
                        ctx.ob("take", txt, not end, where(f), "%s: %d dependents stay attached to a completed future" % (txt, len(end)))
                        ss = [i for i, e in enumerate(p.events) if e.kind == "store" and e.args[0] == ("f", FUT, "_DexFuture", "status")]
                        qs = [i for i, e in enumerate(p.events) if e.kind in ("store", "call") and e.args and isinstance(e.args[0], tuple) and (e.args[0][0] == "f" and canon(e.args[0][1]) == canon(CH) or canon(e.args[0]) == canon(CH)) and (e.kind == "store" or str(e.name).startswith(("g_queue_", "llvm.mem")))]
                        if k: ctx.ob("take", txt + ": with the decision", ss and qs and {sec[i] for i in qs} == {sec[ss[0]]} and sec[ss[0]], where(f), "%s: the list is not taken in the critical section that settles the future" % txt)
                    else: ctx.ob("take", txt, end == old, where(f), "%s: the list of dependents changes" % txt)
    # ---- dex_future_propagate
    f = P.funcs.get(next((g.name for g in P.defined.values() if g.base == "dex_future_propagate"), None)) if any(g.base == "dex_future_propagate" for g in P.defined.values()) else None
    if f is not None:
        IN = tok("input")
        for status in (RES, REJ):
            for handler in (0, 1, None):
                rows += 1
                def dflt(a, st, handler=handler): return (NULL if handler is None else PROP) if a[0] == "f" and a[2] == "_DexFutureClass" and a[3] == "propagate" else None
                ERR = tok("rejection")
                mem = {(IN, "rejected"): NULL if status == RES else ERR}
                calls = {"*propagate": handler, "g_error_copy": lambda ar, st: tok("copy-of-" + ar[0][1]) if ar[0][0] == "tok" else None}
                ps = case(P, f, mem, calls, status={IN: status, FUT: PEN}, args={0: FUT, 1: IN}, default=dflt, locs=True); n += len(ps)
                txt = "%s input, %s" % (SN[status], "no propagate function" if handler is None else "propagate returns %d" % handler)
                ctx.ob("inherit", txt + " (handled)", ps, where(f), "no path")
                for p in ps:
                    vc = [e for e in p.events if e.kind == "call" and e.name == "*propagate"]
                    ctx.ob("inherit", txt + ": asked once", len(vc) == (handler is not None) and all(e.args[:2] == (FUT, IN) for e in vc), where(f), "the propagate function is called %d times" % len(vc))
                    cs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("dex_future_complete", "dex_future_complete_from")]
                    ctx.ob("inherit", txt, len(cs) == (0 if handler else 1), where(f), "the dependent is completed %d times" % len(cs))
                    for i, e in cs:
                        ctx.ob("inherit", txt + ": unlocked", not held_at(p, i), where(f, e), "completes under a lock")
                        ok = e.args[:2] == (FUT, IN) if e.name == "dex_future_complete_from" else \
                            e.args[0] == FUT and (e.args[1] == ("f", IN, "_DexFuture", "resolved") and is0(e.args[2]) if status == RES else is0(e.args[1]) and e.args[2] == tok("copy-of-rejection"))
                        ctx.ob("inherit", txt + ": outcome", ok, where(f, e), "completes with %s" % ", ".join(show(a) for a in e.args[1:]))
                    ctx.ob("release", txt + ": references", nref(p, IN) == nrel(p, IN) and nref(p, FUT) == nrel(p, FUT), where(f), "the reference counts of the futures change")
    ctx.count("decision_table_rows", rows); ctx.count("abstract_paths", n)
