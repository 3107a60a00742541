"""combinators: decision table of the set, accounting, constructors"""
from spec import *
import itertools

SET = "_DexFutureSet"
FIELDS = ["DexFutureSet.futures", "DexFutureSet.n_futures", "DexFutureSet.n_resolved", "DexFutureSet.n_rejected", "DexFutureSet.flags", "DexFuture.status"]
CALLS = ("dex_future_complete", "dex_future_complete_from", "dex_future_get_status", "dex_future_get_value", "dex_future_is_resolved", "dex_future_is_rejected", "dex_future_is_pending", "dex_future_discard",
         "dex_future_chain", "dex_ref", "g_error_new", "g_error_new_literal", "dex_unref", "g_error_copy", "g_malloc0_n", "g_malloc_n", "g_realloc_n", "g_malloc0", "g_malloc")

def run(ctx):
    P = ctx.P; EV = P.enumval
    PEN, RES, REJ = (EV["DEX_FUTURE_STATUS_" + x] for x in ("PENDING", "RESOLVED", "REJECTED"))
    FIRST, FRES, FREJ = (EV["DEX_FUTURE_SET_FLAGS_PROPAGATE_" + x] for x in ("FIRST", "RESOLVE", "REJECT"))
    ctx.rule("decision", "for every combination of flags, outcome of the input that completed, inputs resolved and rejected so far and number of inputs: the set completes exactly when its contract says, with the outcome its contract says, and not at all otherwise")
    ctx.rule("format", "the list of inputs is read between va_start and va_end only")
    for f in P.defined.values() if (P := ctx.P) else ():
        bad, uses = va_misuse(P, f)
        if uses and f.base.startswith("dex_future_"): ctx.ob("format", f.base, not bad, f.where(bad[0][0]) if bad else where(f), bad[0][1] if bad else "")
    ctx.rule("accounting", "each completed input is counted exactly once, as what it was, under the set's lock and before the number of inputs left is computed; a decided set counts and does nothing more")
    ctx.rule("losers", "when the result is decided early every input is told that the set is not interested any more")
    ctx.rule("constructors", "each combinator passes the flags of its contract and its own arguments; the variadic and the array form agree")
    ctx.rule("observe", "construction stores every input before it chains the first one and chains every input exactly once")

    vt = P.vtables().get(("_DexFutureClass", "propagate"), {})
    fname = vt.get("dex_future_set")
    if not ctx.need(fname, "no propagate implementation of the set found"): return
    f = P.funcs[fname]
    ctx.count("functions_analysed")
    flagsets = {"all": 0, "any": FIRST | FRES, "all_race": FIRST | FREJ, "first": FIRST | FRES | FREJ}
    DEP = "error#%d" % EV["DEX_ERROR_DEPENDENCY_FAILED"]
    SELF, IN = ("a", 0), ("a", 1)
    MINE = ("n_resolved", "n_rejected")
    def outcome(e):
        v, er = e.args[1], e.args[2]
        if v == tok("value") and er == NULL: return "value"
        if v[0] == "g" and er == NULL: return "true"
        if v == NULL and er == tok("error"): return "error"
        if v == NULL and call_of(er, "g_error_new", "g_error_new_literal"): return "error#%s" % show(er[2][1])
        return "?%s/%s" % (show(v), show(er))
    cases = npaths = 0
    for name, F in flagsets.items():
        for comp, n, nr, nj, st in itertools.product((RES, REJ), (1, 2, 3), (0, 1, 2), (0, 1, 2), (PEN, RES, REJ)):
            if nr + nj >= n: continue
            decided = bool(F & FIRST and ((F & FRES and nr) or (F & FREJ and nj)))
            if st != PEN and not decided: continue      # a set completes by deciding, so a settled set has decided
            cases += 1
            act = n - nr - nj - 1
            if decided: want = None
            elif act == 0: want = ("value" if F & FRES else "true") if comp == RES else ("error" if F & FREJ else DEP)
            elif F & FIRST and comp == RES and F & FRES: want = "value"
            elif F & FIRST and comp == REJ and F & FREJ: want = "error"
            else: want = None
            def ld(a, st_, n=n, nr=nr, nj=nj, F=F, comp=comp, st=st):
                if a[0] == "f" and a[1] == SELF: return {"flags": F, "n_futures": n, "n_resolved": nr, "n_rejected": nj, "status": status(st_)}.get(a[3])
                if a[0] == "f" and a[1] == IN: return {"status": comp, "rejected": tok("error") if comp == REJ else NULL}.get(a[3])
                if a[0] == "ix" and ld_fld(a[1], SET, "futures") and a[1][1][1] == SELF and a[2][0] == "c": return tok("in%d" % a[2][1])
                return None
            def status(st_, st=st):
                """the set's own status on this path"""
                for e in st_.trace:
                    if e.kind == "call" and e.name == "dex_future_complete" and e.args[0] == SELF and st == PEN: return RES if e.args[1] != NULL else REJ
                return st
            def call(nm, args, st_, comp=comp):
                who = args[0] if args else None
                if nm == "dex_future_get_value" and who == IN:
                    if args[1] != NULL: return [tok("value") if comp == RES else NULL, [(args[1], tok("error") if comp == REJ else NULL)]]
                    return tok("value") if comp == RES else NULL
                if nm == "g_error_copy": return args[0] if args[0][0] == "tok" else None
                if nm in ("dex_future_get_status", "dex_future_is_resolved", "dex_future_is_rejected", "dex_future_is_pending"):
                    s = comp if who == IN else (status(st_) if who == SELF else None)
                    if s is not None: return s if nm.endswith("status") else int(s == {"dex_future_is_resolved": RES, "dex_future_is_rejected": REJ, "dex_future_is_pending": PEN}[nm])
                return None
            inst = "%s: %s input of %d, %d resolved and %d rejected before%s" % (name, "resolved" if comp == RES else "rejected", n, nr, nj, ", decided" if decided else "")
            hit = 0
            for p in table(P, f, ld, call):
                if p.kind != "ret" or misuse(p): continue
                hit += 1; npaths += 1
                comps = [e for e in p.events if e.kind == "call" and e.name in ("dex_future_complete", "dex_future_complete_from") and e.args[0] == SELF]
                got = [outcome(e) if e.name == "dex_future_complete" else "?" for e in comps]
                ctx.ob("decision", inst, got == ([want] if want else []), where(f), "completes with %s instead of %s" % (" and ".join(got) or "nothing", want or "nothing"))
                ctx.ob("decision", "propagate handles the completion", p.ret == ("c", 1), where(f), "the set lets the input's outcome overwrite its own")
                cnt = [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == SELF and e.args[0][3] in MINE]
                disc = [e for e in p.events if e.kind == "call" and e.name == "dex_future_discard"]
                if decided:
                    ctx.ob("accounting", "decided set", not cnt, where(f), "a decided set still changes its bookkeeping")
                else:
                    fin = {"n_resolved": nr, "n_rejected": nj}
                    for i, e in cnt: fin[e.args[0][3]] = e.args[1][1] if e.args[1][0] == "c" else None
                    exp = {"n_resolved": nr + (comp == RES), "n_rejected": nj + (comp == REJ)}
                    ctx.ob("accounting", "%s input is counted once" % ("resolved" if comp == RES else "rejected"), fin == exp, where(f), "bookkeeping goes from %d/%d to %s/%s after a %s input" % (nr, nj, fin["n_resolved"], fin["n_rejected"], "resolved" if comp == RES else "rejected"))
                    for i, e in cnt: ctx.ob("accounting", "counted under the lock", objlock(SELF) in held_at(p, i), where(f, e), "the count is changed without the set's lock")
                ds = sorted(e.args[0][1] for e in disc if e.args[0][0] == "tok" and e.args[1] == SELF)
                if want and act > 0:
                    ctx.ob("losers", "%s with %d inputs" % (name, n), ds == ["in%d" % k for k in range(n)], where(f), "discards %s of %d inputs" % (ds or "none", n))
                    if comps and disc: ctx.ob("losers", "after completing", p.events.index(disc[0]) > p.events.index(comps[0]), where(f, disc[0]), "inputs are discarded before the set has its result")
                elif not want: ctx.ob("losers", "%s still undecided" % name, not disc, where(f), "inputs are discarded although the set is not decided")
            ctx.ob("decision", inst + " (handled)", hit > 0, where(f), "no path handles this case")
    ctx.count("decision_table_rows", cases); ctx.count("abstract_paths", npaths)
    for p in traces(P, f, fields=["DexFutureSet.n_resolved", "DexFutureSet.n_rejected"], loads=True, factfields=[]):
        if p.kind != "ret": continue
        for i, e in enumerate(p.events):
            if e.kind == "load" and e.args[0][0] == "f" and e.args[0][1] == SELF and e.args[0][3] in MINE:
                ctx.ob("accounting", "left over is computed under the lock", objlock(SELF) in held_at(p, i), where(f, e), "%s is read after the lock was released" % e.args[0][3])

    # constructors
    ctors = {"dex_future_all": "all", "dex_future_any": "any", "dex_future_all_race": "all_race", "dex_future_first": "first"}
    for base, kind in ctors.items():
        for fn in (base, base + "v"):
            g = P.fn(fn); c = 0
            for p in traces(P, g, calls=("dex_future_set_new", "dex_future_set_new_va"), keep=True):
                if p.kind != "ret" or misuse(p): continue
                cs = p.calls("dex_future_set_new", "dex_future_set_new_va"); c += len(cs)
                fl = cs[0].args[2] if cs else None
                ctx.ob("constructors", "%s flags" % fn, len(cs) == 1 and fl == ("c", flagsets[kind]), where(g), "builds a set with flags %s, the contract of %s is %d" % (show(fl), kind, flagsets[kind]))
                if cs:
                    ok = cs[0].args[0] == ("a", 0) and (cs[0].name == "dex_future_set_new_va" or cs[0].args[1] == ("a", 1)) and p.ret == cs[0].res
                    ctx.ob("constructors", "%s arguments" % fn, ok, where(g), "the inputs are not passed on, or the set is not returned")
    sizes = (1, 2, 3, 4, 8, 9, 16, 17, 18)
    for fn, va in (("dex_future_set_new", False), ("dex_future_set_new_va", True)):
        g = P.fn(fn)
        for n in sizes:
            ins = [tok("in%d" % k) for k in range(n)]
            if va:
                ld = va_oracle(ins[1:] + [NULL]); argv = {0: ins[0], 2: FIRST | FRES}
            else:
                argv = {0: tok("array"), 1: n, 2: FIRST | FRES}
                def ld(a, st, n=n):
                    c = canon(a)
                    if c == tok("array"): return tok("in0")
                    if c[0] == "ix" and c[1] == tok("array") and c[2][0] == "c": return tok("in%d" % c[2][1]) if c[2][1] < n else tok("overrun")
                    return None
            def call(nm, args, st): return args[0] if nm == "dex_ref" else None
            hit = 0
            for p in table(P, g, ld, call, K=24, args=argv):
                if p.kind != "ret" or misuse(p): continue
                hit += 1
                made = p.calls("dex_object_create_instance")
                obj = made[0].res if made else None
                ch = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "dex_future_chain"]
                got = [e.args[0] for i, e in ch]
                inst = "%s of %d" % (fn, n)
                ctx.ob("observe", inst + " chains every input once", sorted(got) == sorted(ins) and all(e.args[1] == obj for i, e in ch), where(g), "chains %s" % [show(x) for x in got])
                ctx.ob("observe", inst + " returns the set", p.ret == obj and obj is not None, where(g), "returns %s" % show(p.ret))
                ctx.ob("observe", inst + " size", bits_value(P, SET, "n_futures", p) == n, where(g), "records %s inputs" % bits_value(P, SET, "n_futures", p))
                ctx.ob("observe", inst + " flags", bits_value(P, SET, "flags", p) == FIRST | FRES, where(g), "records flags %s" % bits_value(P, SET, "flags", p))
                # what the set remembers, and when
                class Tr: trace = p.events
                base = last_store(Tr, ("f", obj, SET, "futures"))
                kept = [last_store(Tr, ("ix", base, ("c", k))) if base else None for k in range(n)]
                ctx.ob("observe", inst + " remembers every input", kept == ins, where(g), "remembers %s" % [show(x) for x in kept])
                room = None
                if base and base[0] == "call":
                    c = [x for x in base[2] if x[0] == "c"]
                    room = c[0][1] if base[1] in ("g_malloc0_n", "g_malloc_n", "g_realloc_n") else c[-1][1] // 8 if c else None
                elif base and find_sub(base, lambda t: fld(t, SET, "embedded")):
                    fi = P.field(SET, "embedded"); room = fi["size"] // 64
                ctx.ob("observe", inst + " has room", room is None or room >= n, where(g), "room for %s inputs only" % room)
                if ch:
                    late = [e for e in p.events[ch[0][0]:] if e.kind == "store"]
                    ctx.ob("observe", inst + " is complete before it is chained", not late, where(g, late[0] if late else None), "the set is still being filled in when its inputs may already complete it")
            ctx.ob("observe", "%s of %d (handled)" % (fn, n), hit > 0, where(g), "no path handles this case")
    for fn, n in (("dex_future_set_get_future_at", 0), ("dex_future_set_get_value_at", 0)):
        g = P.fn(fn)
        for p in traces(P, g, fields=FIELDS, calls=CALLS, loads=True):
            if p.kind != "ret" or misuse(p): continue
            acc = [e for e in p.events if e.kind == "load" and e.args[0][0] == "ix"]
            for e in acc:
                ctx.ob("observe", "%s reads the input asked for" % fn, e.args[0][2] == ("a", 1), where(g, e), "reads index %s" % show(e.args[0][2]))
                env = lambda t: 3 if t == ("a", 1) else 3 if ld_fld(t, SET, "n_futures") else None
                ctx.ob("observe", "%s checks the index" % fn, not consistent(fx(e), env), where(g, e), "an index equal to the number of inputs is accepted")
    g = P.fn("dex_future_set_get_size")
    for v, s in returns_for([p for p in traces(P, g, fields=FIELDS, loads=True) if not misuse(p)], lambda t: ld_fld(t, SET, "n_futures"), (1, 2, 5)).items():
        ctx.ob("observe", "dex_future_set_get_size(%d)" % v, s == {v}, where(g), "returns %s" % s)
