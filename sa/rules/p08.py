"""P08: weak references are safe against concurrent last release"""
from spec import *
from engine import show
A0, A1 = ("a", 0), ("a", 1)
O, X, WR = tok("object"), tok("other"), tok("weakref")
W = [tok("weak%d" % i) for i in range(4)]
M32 = -1
REL = ("release", "acq_rel", "seq_cst"); ACQ = ("acquire", "acq_rel", "seq_cst")

def chain(obj, ws):
    """memory of an object whose list of weak references is ws"""
    m = {(obj, "weak_refs"): ws[0] if ws else NULL}
    for i, w in enumerate(ws):
        m[(w, "next")] = ws[i + 1] if i + 1 < len(ws) else NULL
        m[(w, "prev")] = ws[i - 1] if i else NULL
        m[(w, "mem_block")] = obj
    return m

def listof(p, obj, m, cap=8):
    """the list of obj at the end of path p: [weak refs], or a text naming the inconsistency"""
    def rd(b, f): return final(p, b, f, m.get((b, f), NULL))
    out = []; w = rd(obj, "weak_refs"); prev = NULL
    while not is0(w):
        if w in out or len(out) > cap: return "a cycle"
        q = rd(w, "prev")
        if not (q == prev or is0(q) and is0(prev)): return "a back link to %s instead of %s" % (show(q), show(prev))
        out.append(w); prev = w; w = rd(w, "next")
    return out

def holds(p, i, base): return any(isinstance(h, tuple) and h[0] == "f" and h[1] == norm(base) and h[3] == "mutex" for h in held_at(p, i))

def touches(e, base):
    return any(isinstance(a, tuple) and (a == base or root_of(a) == base) for a in e.args)

def locks_of(p, base): return [i for i, e in enumerate(p.events) if e.kind == "call" and e.name in LOCKS and root_of(e.args[0]) == base]
def unlocks_of(p, base): return [i for i, e in enumerate(p.events) if e.kind == "call" and e.name in UNLOCKS and root_of(e.args[0]) == base]
def rmws(p, base, f): return [(i, e) for i, e in enumerate(p.events) if e.kind in ("rmw", "cmpxchg") and e.args[0][0] == "f" and e.args[0][1] == base and e.args[0][3] == f]

def run(ctx):
    P = ctx.P; vt = P.vtables(); n = 0
    ctx.rule("count", "taking a reference is one atomic increment, releasing one atomic decrement with release ordering, with acquire ordering before teardown; nothing else changes the count")
    ctx.rule("teardown", "the last release re-examines count and upgrade mark under the object's mutex and every weak reference's mutex, and tears down exactly once, only when no upgrade happened since before the release")
    ctx.rule("cleared", "teardown runs after every weak reference has been detached (under its mutex) and all mutexes were released")
    ctx.rule("lifetime", "an object is not touched once another thread may have torn it down")
    ctx.rule("upgrade", "an upgrade happens under the weak reference's mutex, marks the object before adding a reference, and yields that object, or nothing when it has been detached")
    ctx.rule("list", "linking and unlinking keep the object's list consistent, under the object's mutex, with the weak reference's target changed under its own mutex")
    ctx.rule("strong", "unlinking happens while holding a strong reference obtained for it, released exactly once afterwards")
    ctx.rule("order", "an object's mutex is never taken while a weak reference's mutex is held")
    ctx.rule("owners", "only the reference operations touch count, mark and weak list")
    ctx.rule("finalize", "every finaliser chains up exactly once, after its own work; only the root one frees the instance")
    # --- dex_ref
    f = P.fn("dex_ref")
    for p in case(P, f, {}, loads=("ref_count",)):
        r = rmws(p, A0, "ref_count"); n += 1
        ctx.ob("count", "dex_ref", len(r) == 1 and r[0][1].name == "add" and r[0][1].args[1] == ("c", 1) and p.ret == A0 and not stores_to(p, A0, "ref_count"), where(f), "does not add exactly one reference atomically and return its argument")
    # --- dex_unref
    f = P.fn("dex_unref"); fin = "*_DexObjectClass.finalize"
    def cases():
        for k in range(0, 4):
            yield "not last", 2, None, k
            yield "last", 1, None, k
            yield "upgraded", 1, (1, 1), k
            yield "upgraded and dropped again", 1, (0, 1), k
            yield "upgraded twice, one kept", 1, (1, 2), k
        yield "last, mark wrapped", 1, None, 0
    for what, rc, other, k in cases():
        ws = W[:k]; m = chain(A0, ws); wm = M32 if "wrapped" in what else 7
        m[(A0, "ref_count")] = rc
        def first(a, st, rc=rc, other=other, wm=wm):
            if a[0] != "f" or a[1] != A0: return None
            down = any(e.kind in ("rmw", "cmpxchg") and e.args[0] == ("f", A0, "_DexObject", "ref_count") for e in st.trace)
            if a[3] == "ref_count": return rc if not down else (rc - 1 if not other else other[0])
            if a[3] == "weak_refs_watermark": return wm if not down or not other else wm + other[1]
            return None
        ps = case(P, f, m, first=first, loads=("ref_count", "weak_refs_watermark"), K=6); n += len(ps)
        name = "%s, %d weak references" % (what, k)
        ctx.ob("teardown", name + " (handled)", ps, where(f), "no path")
        for p in ps:
            dec = rmws(p, A0, "ref_count"); tear = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == fin]
            ctx.ob("count", "dex_unref: " + name, len(dec) == 1 and (dec[0][1].name == "sub" and dec[0][1].args[1] == ("c", 1) or dec[0][1].name == "add" and dec[0][1].args[1][1] in (-1, 0xffffffff)) and not stores_to(p, A0, "ref_count"), where(f), "does not drop exactly one reference atomically")
            if len(dec) != 1: continue
            d, de = dec[0]
            ctx.ob("count", "dex_unref: release ordering", de.extra in REL, where(f, de), "the release is %s: earlier uses of the object may happen after its teardown" % de.extra)
            after = [i for i, e in enumerate(p.events) if i > d and touches(e, A0)]
            if what == "not last":
                ctx.ob("lifetime", name, not after and not tear, where(f, p.events[after[0]] if after else None), "touches the object after giving up a reference that was not the last")
                continue
            if what == "upgraded and dropped again":
                ctx.ob("lifetime", "dex_unref after a lost race", not after, where(f, p.events[after[0]] if after else None), "the object is touched although another thread upgraded a weak reference, released it and tore the object down meanwhile")
            # recheck under all mutexes
            lk = locks_of(p, A0)
            ctx.ob("teardown", name + ": object locked", lk and lk[0] > d, where(f), "does not take the object's mutex")
            wl = [locks_of(p, w) for w in ws]
            ctx.ob("teardown", name + ": weak references locked", all(len(x) == 1 for x in wl), where(f), "does not take the mutex of every weak reference once")
            if lk and all(len(x) == 1 for x in wl):
                allheld = max([lk[0]] + [x[0] for x in wl])
                rch = [i for i, e in enumerate(p.events) if e.kind == "load" and i > allheld and (e.args[0] == ("f", A0, "_DexObject", "ref_count") or not tear and e.args[0] == ("f", A0, "_DexObject", "weak_refs_watermark"))]
                ctx.ob("teardown", name + ": recheck", rch and (rch[0] < min([i for w in ws for i in unlocks_of(p, w)] + unlocks_of(p, A0))), where(f), "does not re-examine the count while holding every mutex")
                for i in rch: ctx.ob("count", "rechecks atomically", bool(p.events[i].extra) or bool(p.events[i].inst.raw.get("vol")), where(f, p.events[i]), "reads the count non-atomically")
            for b in [A0] + ws:
                ctx.ob("teardown", name + ": mutexes released", len(locks_of(p, b)) == len(unlocks_of(p, b)), where(f), "leaves the mutex of %s locked or unlocks it twice" % show(b))
            if other is None:
                ctx.ob("teardown", name + ": torn down once", len(tear) == 1 and p.events[tear[0]].args[0] == A0, where(f), "tears down %d times" % len(tear))
                acq = any(e.kind == "fence" and e.extra in ACQ for e in p.events[d:]) or de.extra in ("acq_rel", "seq_cst")
                ctx.ob("count", "dex_unref: acquire ordering", acq, where(f, de), "no acquire ordering between the last release and teardown")
                for t in tear:
                    ctx.ob("cleared", name + ": unlocked", not held_at(p, t), where(f, p.events[t]), "tears down under a lock")
                    ctx.ob("lifetime", name + ": teardown is last", not [e for e in p.events[t + 1:] if touches(e, A0)], where(f, p.events[t]), "touches the object after tearing it down")
                lst = listof(p, A0, m)
                ctx.ob("cleared", name + ": list emptied", lst == [], where(f), "leaves %s in the list" % (lst if isinstance(lst, str) else [show(x) for x in lst]))
                for w in ws:
                    for fld in ("mem_block", "next", "prev"):
                        s = [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == w and e.args[0][3] == fld]
                        ctx.ob("cleared", name + ": detached", is0(final(p, w, fld, m[(w, fld)])), where(f), "%s of a weak reference survives teardown" % fld)
                        for i, e in s:
                            ctx.ob("cleared", name + ": detached under its mutex", holds(p, i, w) and (fld == "mem_block" or holds(p, i, A0)), where(f, e), "%s of a weak reference is written without its mutex" % fld)
                            ctx.ob("cleared", name + ": detached before teardown", not tear or i < tear[0], where(f, e), "a weak reference is detached after teardown")
                    u = unlocks_of(p, w)
                    if u: ctx.ob("cleared", name + ": not used afterwards", not [e for e in p.events[u[-1] + 1:] if touches(e, w)], where(f), "a weak reference is touched after its mutex was released, when its owner may free it")
            else:
                ctx.ob("teardown", name + ": left alone", not tear, where(f), "tears the object down although a weak reference was upgraded since")
                ctx.ob("teardown", name + ": unchanged", not [e for e in p.events if e.kind == "store"], where(f), "changes the object or its weak references although it was revived")
    # --- upgrade
    f = P.fn("dex_weak_ref_get")
    for old, mark, add in ((NULL, 0, 0), (O, 7, 1), (O, M32, 2)):
        name = "upgrade of a %s" % ("detached reference" if is0(old) else "live reference" if mark != M32 else "reference whose mark wraps")
        m = {(A0, "mem_block"): old, (O, "weak_refs_watermark"): mark, (O, "ref_count"): 3}
        ps = case(P, f, m, loads=("mem_block",)); n += len(ps)
        ctx.ob("upgrade", name + " (handled)", ps, where(f), "no path")
        for p in ps:
            ctx.ob("upgrade", name + ": result", p.ret == old or is0(old) and is0(p.ret), where(f), "yields %s" % show(p.ret))
            for i, e in enumerate(p.events):
                if e.kind == "load" and e.args[0][1] == A0: ctx.ob("upgrade", name + ": locked read", holds(p, i, A0), where(f, e), "looks at the target without the weak reference's mutex")
            inc, wmk = rmws(p, O, "ref_count"), rmws(p, O, "weak_refs_watermark")
            got = sum(e.args[1][1] if e.args[1][0] == "c" and e.name == "add" else 99 for _, e in inc) + len(pcalls(p, "dex_ref"))
            if is0(old):
                ctx.ob("upgrade", name + ": nothing taken", not inc and not wmk and not pcalls(p, "dex_ref"), where(f), "references an object that has been detached"); continue
            ctx.ob("upgrade", name + ": reference", got == add, where(f), "adds %d references instead of %d" % (got, add))
            ctx.ob("upgrade", name + ": mark", len(wmk) == 1 and wmk[0][1].name == "add" and wmk[0][1].args[1] == ("c", 1), where(f), "does not advance the upgrade mark by one")
            iref = [i for i, _ in inc] + [pos(p, e) for e in pcalls(p, "dex_ref")]
            if wmk and iref: ctx.ob("upgrade", name + ": mark first", wmk[0][0] < min(iref), where(f), "adds the reference before marking the upgrade")
            for i in iref + [i for i, _ in wmk]: ctx.ob("upgrade", name + ": locked", holds(p, i, A0), where(f, p.events[i]), "upgrades without the weak reference's mutex")
            ctx.ob("upgrade", name + ": unlocked", len(locks_of(p, A0)) == len(unlocks_of(p, A0)), where(f), "leaves the weak reference locked")
    # --- set
    f = P.fn("dex_weak_ref_set")
    def check_list(p, f, name, obj, m, want, wr):
        l = listof(p, obj, m)
        ctx.ob("list", name, l == want or (not isinstance(l, str) and sorted(map(str, l)) == sorted(map(str, want))), where(f), "the list becomes %s instead of %s" % (l if isinstance(l, str) else [show(x) for x in l], [show(x) for x in want]))
    def common(p, f, name, wr, objs):
        for i, e in enumerate(p.events):
            if e.kind == "store" and e.args[0][0] == "f" and e.args[0][2] in ("_DexObject", "_DexWeakRef"):
                b, fld = e.args[0][1], e.args[0][3]
                if fld in ("weak_refs", "next", "prev"): ctx.ob("list", name + ": under the object's mutex", any(holds(p, i, o) for o in objs), where(f, e), "%s is written without the object's mutex" % fld)
                if fld == "mem_block": ctx.ob("list", name + ": target under its own mutex", holds(p, i, wr), where(f, e), "the target is written without the weak reference's mutex")
            if e.kind == "call" and e.name in LOCKS and root_of(e.args[0]) in objs:
                ctx.ob("order", name, not any(holds(p, i, w) for w in W + [wr]), where(f, e), "takes the object's mutex while holding a weak reference's mutex")
            if e.kind == "call" and e.name in ("dex_unref", "dex_weak_ref_get", "dex_ref"):
                ctx.ob("order", name + ": unlocked", not held_at(p, i), where(f, e), "%s is called under a mutex it may take" % e.name)
        for b in list(objs) + [wr]:
            ctx.ob("list", name + ": mutexes released", len(locks_of(p, b)) == len(unlocks_of(p, b)), where(f), "leaves the mutex of %s locked" % show(b))
    for old in (NULL, O, X):
        for new in (NULL, O):
            for k in range(3):                # other weak references of either object
                for at in range(k + 1):
                    rest = W[1:k + 1]
                    oldl = rest[:at] + [WR] + rest[at:]
                    m = {(WR, "next"): NULL, (WR, "prev"): NULL, (WR, "mem_block"): NULL, (O, "weak_refs"): NULL, (X, "weak_refs"): NULL}
                    if not is0(old): m.update(chain(old, oldl))
                    if old != new and not is0(new): newl = W[3:4] if k else []; m.update(chain(new, newl))
                    for o in (O, X): m[(o, "ref_count")] = 3
                    if is0(old) and k: continue
                    ps = case(P, f, m, {"dex_weak_ref_get": old, "g_atomic_int_get": 3}, args={0: WR, 1: new}, K=4); n += len(ps)
                    name = "set from %s to %s" % (show(old), show(new))
                    ctx.ob("list", name + " (handled)", ps, where(f), "no path")
                    for p in ps:
                        got = len(pcalls(p, "dex_weak_ref_get"))
                        ctx.ob("strong", name + ": released once", got == 1 and nrel(p, old) == (0 if is0(old) else 1) if old != new else True, where(f), "the strong reference to the old target is taken %d and released %d times" % (got, nrel(p, old)))
                        if old == new: ctx.ob("strong", name + ": released once", is0(old) or nrel(p, old) == got, where(f), "the strong reference to the target is taken %d and released %d times" % (got, nrel(p, old)))
                        if old != new and not is0(old): 
                            check_list(p, f, name + ": old list", old, m, rest, WR)
                            rel = [pos(p, e) for e in pcalls(p, "dex_unref") if e.args[0] == old]
                            for r in rel: ctx.ob("strong", name + ": released last", not [e for e in p.events[r + 1:] if touches(e, old)], where(f, p.events[r]), "the old target is touched after its strong reference was released")
                        if not is0(new): check_list(p, f, name + ": new list", new, m, (oldl if old == new else [WR] + newl), WR)
                        t = final(p, WR, "mem_block", old)
                        ctx.ob("list", name + ": target", t == new or is0(t) and is0(new), where(f), "the target becomes %s" % show(t))
                        if is0(new) : ctx.ob("list", name + ": unlinked", is0(final(p, WR, "next", m[(WR, "next")])) and is0(final(p, WR, "prev", m[(WR, "prev")])), where(f), "keeps links into the old list")
                        ctx.ob("strong", name + ": target not counted", nref(p, new) == 0 or is0(new), where(f), "keeps a strong reference")
                        common(p, f, name, WR, (O, X))
    # --- clear
    f = P.fn("dex_weak_ref_clear")
    for old in (NULL, O):
        for k in range(3):
            for at in range(k + 1):
                rest = W[1:k + 1]; m = {(WR, "next"): NULL, (WR, "prev"): NULL, (WR, "mem_block"): NULL}
                if not is0(old): m.update(chain(old, rest[:at] + [WR] + rest[at:]))
                elif k: continue
                m[(O, "ref_count")] = 3
                ps = case(P, f, m, {"dex_weak_ref_get": old}, args={0: WR}, K=4); n += len(ps)
                name = "clear of a %s reference" % ("detached" if is0(old) else "live")
                ctx.ob("list", name + " (handled)", ps, where(f), "no path")
                for p in ps:
                    if not is0(old):
                        check_list(p, f, name, O, m, rest, WR)
                        ctx.ob("strong", name + ": released once", nrel(p, O) == len(pcalls(p, "dex_weak_ref_get")) == 1, where(f), "the strong reference is released %d times" % nrel(p, O))
                        for e in pcalls(p, "dex_unref"): ctx.ob("strong", name + ": released last", not [x for x in p.events[pos(p, e) + 1:] if touches(x, O)], where(f, e), "the target is touched after its strong reference was released")
                        ctx.ob("list", name + ": target", is0(final(p, WR, "mem_block", O)), where(f), "keeps its target")
                    c = [e for e in pcalls(p, "g_mutex_clear")]
                    ctx.ob("list", name + ": mutex cleared", len(c) == 1 and root_of(c[0].args[0]) == WR, where(f), "clears the mutex %d times" % len(c))
                    for e in c: ctx.ob("list", name + ": mutex cleared last", not [x for x in p.events[pos(p, e) + 1:] if touches(x, WR)] and not held_at(p, pos(p, e)), where(f, e), "uses the weak reference after clearing its mutex")
                    common(p, f, name, WR, (O,))
    # --- init
    f = P.fn("dex_weak_ref_init")
    for new in (NULL, O):
        ps = case(P, f, {(O, "ref_count"): 3}, args={1: new}); n += len(ps)
        name = "init with %s" % show(new)
        for p in ps:
            s = pcalls(p, "dex_weak_ref_set"); mi = pcalls(p, "g_mutex_init")
            linked = not is0(new) and (len(s) == 1 and s[0].args[:2] == (A0, O) or listof(p, O, {}) == [A0])
            ctx.ob("list", name, (linked or is0(new)) and len(mi) == 1 and root_of(mi[0].args[0]) == A0, where(f), "does not initialise the mutex once and link the weak reference")
            for e in s: ctx.ob("list", name + ": initialised first", mi and pos(p, mi[0]) < pos(p, e), where(f, e), "links a weak reference before its mutex exists")
            z = [e for e in p.events if e.kind == "call" and e.name.startswith("llvm.memset") and root_of(e.args[0]) == A0]
            st = {e.args[0][3] for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == A0 and is0(e.args[1])}
            ctx.ob("list", name + ": blank", z or {"next", "prev", "mem_block"} <= st, where(f), "links stay uninitialised")
    # --- instance init
    PUB = {"dex_ref", "dex_unref", "dex_weak_ref_get", "dex_weak_ref_set", "dex_weak_ref_clear", "dex_weak_ref_init"}
    inits = P.instance_inits()
    callers = {}
    for g in P.funcs.values():
        for c in getattr(g, "callees0", None) or []: callers.setdefault(c, set()).add(g.name)
    def owned(name, seen=()):
        g = P.funcs.get(name); b = g.base if g else name
        if b in PUB: return True
        if name in seen: return True
        if g is not None and not g.local: return False
        cs = callers.get(name, ())
        return bool(cs) and not (g and g.addr) and all(owned(c, seen + (name,)) for c in cs)
    for fld, S in (("ref_count", "_DexObject"), ("weak_refs_watermark", "_DexObject"), ("weak_refs", "_DexObject"), ("mem_block", "_DexWeakRef"), ("next", "_DexWeakRef"), ("prev", "_DexWeakRef")):
        for fn, i in writers(P, S, fld):
            if (fn.name in inits or fn.base in inits or fn.addr and not callers.get(fn.name)) and i.op == "store" and fld in ("ref_count", "weak_refs_watermark"):
                v = tuple(i.a[0])
                ctx.ob("owners", "%s initialised" % fld, v[:2] == ("c", 1), fn.where(i), "an object starts with %s %s" % (fld, v[1:2]))
                continue
            ctx.ob("owners", fld, owned(fn.name), fn.where(i), "%s changes %s of %s directly" % (fn.base, fld, S[1:]))
    # --- finalisers
    for T, name in sorted(vt.get(("_DexObjectClass", "finalize"), {}).items()):
        fn = P.funcs[name]
        for p in table(P, fn, K=1):
            if p.kind != "ret": continue
            n += 1
            up = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == fin]
            fr = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("g_type_free_instance", "g_free", "g_slice_free1") and e.args and e.args[0] == A0]
            if T == "dex_object": ctx.ob("finalize", T, not up and len(fr) == 1, where(fn), "frees the instance %d times" % len(fr)); continue
            ctx.ob("finalize", T, len(up) == 1 and not fr and p.events[up[0]].args[0] == A0, where(fn), "chains up %d times, frees %d times" % (len(up), len(fr)))
            for u in up: ctx.ob("finalize", T + ": last", not [e for e in p.events[u + 1:] if touches(e, A0)], where(fn, p.events[u]), "touches the object after chaining up")
    ctx.count("paths", n)
