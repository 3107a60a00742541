"""P30: a delayed future stays pending until released, then mirrors its input"""
from spec import *
A0, A1 = ("a", 0), ("a", 1)
S = "_DexDelayed"
COMPLETE = ("dex_future_complete", "dex_future_complete_from")

def run(ctx):
    P = ctx.P; vt = P.vtables(); EV = P.enumval
    PEN, RES, REJ = (EV["DEX_FUTURE_STATUS_" + x] for x in ("PENDING", "RESOLVED", "REJECTED"))
    ctx.rule("create", "a new delayed future is held back, keeps its own reference to the input and is attached to it exactly once, after both are set")
    ctx.rule("hold", "while held back it reports every completion of its input as handled and does not settle")
    ctx.rule("pass", "once released the outcome of the input passes through: the completion is left to the caller or copied exactly once, and the input is released once")
    ctx.rule("release", "the first release, and only that, lets go under the lock and then, unlocked, settles once from an input that has completed; a pending input or a discarded one settles nothing")
    ctx.rule("other", "looking at, discarding or finalising a delayed future never settles it or lets it go")
    n = 0
    F, D = tok("input"), tok("delayed")
    def lets_go(p, o): return [e for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == o and (e.args[0][3] == "corked" or str(e.args[0][3]).startswith("bits@"))]
    def corked(p, o, was):
        return bits_value(P, S, "corked", p, default=was)
    f = P.fn("dex_delayed_new")
    ps = case(P, f, {}, {"dex_object_create_instance": D}); n += len(ps)
    ctx.ob("create", "creation (handled)", ps, where(f), "no path")
    for p in ps:
        c = pcalls(p, "dex_future_chain")
        ctx.ob("create", "attached once", len(c) == 1 and c[0].args[:2] == (A0, D), where(f), "attached to its input %d times" % len(c))
        ctx.ob("create", "returned", p.ret == D and nrel(p, D) == 0, where(f), "does not return the new future")
        ctx.ob("create", "held back", corked(p, D, 0) == 1, where(f), "is not held back")
        ctx.ob("create", "keeps its input", final(p, D, "future") == A0 and nref(p, A0) == 1 and nrel(p, A0) == 0, where(f), "does not keep exactly one reference to its input")
        ctx.ob("create", "not settled", not pcalls(p, *COMPLETE), where(f), "is settled at once")
        for e in c:
            late = [x for x in stores_to(p, D, "future") + lets_go(p, D) if pos(p, x) > pos(p, e)]
            ctx.ob("create", "attached last", not late, where(f, e), "its input may complete before it is held back")
    g = P.funcs.get(vt.get(("_DexFutureClass", "propagate"), {}).get("dex_delayed"))
    if ctx.need(g, "delayed futures have no propagate handler"):
        for hold in (1, 0):
            for have, out in ((F, RES), (NULL, RES), (F, REJ), (NULL, REJ)):
                ps = case(P, g, {(A0, "corked"): hold, (A0, "future"): have}, status={A1: out, F: out}); n += len(ps)
                txt = "%s, %s, %s" % ("held back" if hold else "released", "input kept" if have == F else "input given up", "resolved" if out == RES else "rejected")
                ctx.ob("hold" if hold else "pass", txt + " (handled)", ps, where(g), "no path")
                for p in ps:
                    c = pcalls(p, *COMPLETE); handled = ev(p.ret, lambda t: None)
                    if hold:
                        ctx.ob("hold", txt, not c and handled not in (0, None), where(g), "the input's completion gets through")
                        ctx.ob("hold", txt + ": still held back", corked(p, A0, 1) == 1 and not stores_to(p, A0, "status"), where(g), "lets go by itself")
                        rel = nrel(p, F); ctx.ob("hold", txt + ": input kept", rel == (1 if is0(final(p, A0, "future", have)) and have == F else 0) and not is0(final(p, A0, "future", have if have == F else D)), where(g), "gives up its input although it is still held back")
                    else:
                        good = (not c and handled == 0) or (len(c) == 1 and c[0].name.endswith("_from") and c[0].args[:2] == (A0, A1) and handled not in (0, None))
                        ctx.ob("pass", txt, good, where(g), "the outcome of the input is %s" % ("lost" if not c else "settled %d times" % len(c)))
                        stolen = have == F and is0(final(p, A0, "future", have))
                        ctx.ob("pass", txt + ": input released", nrel(p, F) == (1 if stolen else 0), where(g), "releases its input %d times" % nrel(p, F))
                        for e in c: ctx.ob("pass", txt + ": settled unlocked", not held_at(p, pos(p, e)), where(g, e), "settles under a lock")
    h = P.fn("dex_delayed_release")
    for hold in (1, 0):
        for have, stt in ((NULL, PEN), (F, PEN), (F, RES), (F, REJ)):
            ps = case(P, h, {(A0, "corked"): hold, (A0, "future"): have}, status={F: stt}); n += len(ps)
            txt = "%s, %s" % ("held back" if hold else "already released", "input given up" if have == NULL else "input pending" if stt == PEN else "input %s" % ("resolved" if stt == RES else "rejected"))
            ctx.ob("release", txt + " (handled)", ps, where(h), "no path")
            for p in ps:
                c = pcalls(p, *COMPLETE); k = lets_go(p, A0)
                want = int(bool(hold) and have == F and stt != PEN)
                ctx.ob("release", txt, len(c) == want and all(e.name.endswith("_from") and e.args[:2] == (A0, F) for e in c), where(h), "settles %d times" % len(c))
                ctx.ob("release", txt + ": lets go", corked(p, A0, hold) == 0, where(h), "stays held back")
                for e in k: ctx.ob("release", "lets go under the lock", objlock(A0) in held_at(p, pos(p, e)), where(h, e), "lets go without the lock")
                for e in c: ctx.ob("release", "settled unlocked", not held_at(p, pos(p, e)), where(h, e), "settles under a lock")
                q = [e for e in pcalls(p, "dex_future_is_pending", "dex_future_get_status", "dex_future_is_resolved", "dex_future_is_rejected") if e.args[0] == F]
                if hold and have == F:
                    for e in q: ctx.ob("release", "lets go before looking at the input", k and pos(p, k[0]) < pos(p, e), where(h, e), "a completion between the look and letting go is lost")
                    # reference balance of the input across the unlocked settling
                    held = nref(p, F) - nrel(p, F); gone = is0(final(p, A0, "future", F))
                    ctx.ob("release", "input's references balance", held == (-1 if gone else 0), where(h), "reference count of the input changes by %d" % held)
                    for e in c:
                        before = p.events[:pos(p, e)]
                        r = sum(1 for x in before if x.kind == "call" and x.name == "dex_ref" and x.args[0] == F) - sum(1 for x in before if x.kind == "call" and x.name == "dex_unref" and x.args[0] == F)
                        ctx.ob("release", "input is kept alive while it is copied", r >= (0 if gone else 1), where(h, e), "the input may be gone when its outcome is copied")
    for label, name in (("discarding", vt.get(("_DexFutureClass", "discard"), {}).get("dex_delayed")), ("finalising", vt.get(("_DexObjectClass", "finalize"), {}).get("dex_delayed")), ("looking", "dex_delayed_dup_future")):
        k = P.funcs.get(name)
        if not ctx.need(k, "no handler for %s" % label): continue
        for hold in (1, 0):
            for have in (F, NULL):
                ps = case(P, k, {(A0, "corked"): hold, (A0, "future"): have}, status={F: PEN}); n += len(ps)
                ctx.ob("other", label + " (handled)", ps, where(k), "no path")
                for p in ps:
                    ctx.ob("other", label, not pcalls(p, *COMPLETE) and corked(p, A0, hold) == hold, where(k), "settles or lets go a delayed future")
                    if label == "looking":
                        ctx.ob("other", "dup", (p.ret == F and nref(p, F) == 1) if hold and have == F else is0(p.ret) and nref(p, F) == 0, where(k), "returns %s" % show(p.ret))
    ctx.count("abstract_paths", n)
