"""P24: the work-stealing queue neither loses nor duplicates an item"""
from spec import *
from rules.wsq import *
import itertools

def num(t): return ev(t, lambda x: None) if t is not None else None
def order(e): return e.inst.raw.get("ord") if e.inst is not None else None
def idx(p, fn): return [i for i, e in enumerate(p.events) if fn(e)]

def run(ctx):
    P = ctx.P; vt = P.vtables(); n = 0
    ctx.rule("push", "for every ring size and fill: the item lands in its own free slot, every live item stays where thieves look for it, and the bottom index moves up by one")
    ctx.rule("publish", "slot contents are ordered before the bottom index that publishes them")
    ctx.rule("grow", "a full ring is replaced by a larger power-of-two ring holding all live items before it is installed, and the old ring stays readable until the queue is gone")
    ctx.rule("pop", "against every thief behaviour: the owner obtains the newest item exactly when no thief has it, decides the last item by compare-exchange on top and restores bottom otherwise")
    ctx.rule("pop-order", "the lowered bottom is visible before top is read (sequentially consistent fence)")
    ctx.rule("steal", "a thief obtains the oldest item exactly when its compare-exchange on top succeeds, reads the slot before that and never writes bottom or slots")
    ctx.rule("steal-order", "top is read with acquire, then a sequentially consistent fence, then bottom and ring with acquire")
    ctx.rule("create", "every ring starts empty with a power-of-two capacity, mask capacity-1 and room for its items")
    ctx.rule("destroy", "current and retired rings are freed exactly once, with the last reference")
    ctx.rule("owner", "only the owner's functions move bottom; another thread's push goes through the main context")
    WQ, SELF, TH = tok("wq"), tok("owner"), tok("owner-thread")
    push = P.funcs.get(vt.get(("_DexSchedulerClass", "push"), {}).get("dex_thread_pool_worker"))
    own, steal = sources(P)
    if not ctx.need(push, "workers have no push handler") or not ctx.need(own, "no source drains the work-stealing queue") or not ctx.need(steal, "no source steals"): return
    RUN = P.enumval.get("DEX_THREAD_POOL_WORKER_RUNNING", 1)
    WK = "_DexThreadPoolWorker"
    FN, DT = tok("newfunc"), tok("newdata"); BIG = tok("bigger")
    def worker(st_, thread):
        def d(a, st):
            if a[0] == "f" and a[2] == WK and a[1] == SELF:
                if a[3] == "thread": return TH
                if a[3] == "work_stealing_queue": return WQ
                if a[3] == "status" or str(a[3]).startswith("bits@"): return st_
                if a[3] == "main_context": return tok("owner-context")
            return None
        return d
    # --- push
    Cs = (1, 2, 4, 8) + ((16, 32) if ctx.tier == "thorough" else ())
    for C in Cs:
        for t in (0, 1, 5, (1 << 40) + 3):
            for k in range(0, C + 1):
                b = t + k; r = Ring(WQ, t, b, C)
                wd = worker(RUN, TH)
                def dflt(a, st): v = r.ld(a, st); return wd(a, st) if v is None else v
                calls = dict(r.calls(), g_thread_self=TH, g_aligned_alloc0=BIG, g_aligned_alloc=BIG, g_malloc0=BIG, g_malloc0_n=BIG, g_malloc=BIG)
                ps = case(P, push, {}, calls, args={0: SELF, 1: FN, 2: DT}, default=dflt, K=C + 2); n += len(ps)
                txt = "%d of %d slots used" % (k, C)
                ctx.ob("push", txt + " (handled)", ps, where(push), "no path")
                for p in ps:
                    arr = [i for i, e in enumerate(p.events) if e.kind == "store" and e.args[0] == ("f", WQ, WQS, "array")]
                    cur = p.events[arr[-1]].args[1] if arr else r.R
                    big = cur == BIG
                    C2 = num(final(p, BIG, "C")) if big else C; M2 = num(final(p, BIG, "M")) if big else C - 1
                    bot = stores_to(p, WQ, "bottom")
                    ctx.ob("push", txt + ": bottom", bot and num(bot[-1].args[1]) == b + 1, where(push), "the item is not published by bottom + 1")
                    ctx.ob("push", txt + ": top", not stores_to(p, WQ, "top") and not [e for e in p.events if e.kind in ("cmpxchg", "rmw") and e.args[0] == ("f", WQ, WQS, "top")], where(push), "the owner moves top")
                    if big or arr:
                        ctx.ob("grow", txt + ": size", big and pow2(C2) and C2 > k and M2 == C2 - 1, where(push), "the new ring has %s slots and mask %s" % (C2, M2))
                        al = [e for e in p.events if e.kind == "call" and e.res == BIG]
                        sz = None
                        if len(al) == 1: sz = num(al[0].args[0]) if len(al[0].args) == 1 else num(al[0].args[0]) * (num(al[0].args[1]) or 0)
                        ctx.ob("grow", txt + ": room", sz is not None and C2 and sz >= 16 + 16 * C2, where(push), "%s bytes for %s slots" % (sz, C2))
                        gb = [e for e in pcalls(p, "g_ptr_array_add") if e.args[0] == r.garbage and e.args[1] == r.R]
                        fr = [e for e in p.events if e.kind == "call" and str(e.name) in ("g_free", "g_aligned_free", "free", "g_ptr_array_set_size", "g_ptr_array_remove_range") and e.args[0] in (r.R, r.garbage)]
                        ctx.ob("grow", txt + ": old ring", len(gb) == 1 and not fr, where(push), "the old ring is not kept for thieves")
                        if arr:
                            d0 = r.at(p.events[:arr[-1]])
                            ctx.ob("grow", txt + ": filled first", pow2(C2) and all(d0.get((BIG, i & (C2 - 1))) == r.item(i) for i in range(t, b)), where(push, p.events[arr[-1]]), "the ring is installed before it holds the live items")
                    if not pow2(C2): continue
                    bs = idx(p, lambda e: e.kind == "store" and e.args[0] == ("f", WQ, WQS, "bottom"))
                    if not bs: continue
                    at = r.at(p.events[:bs[-1]])
                    ctx.ob("push", txt + ": stored", at.get((cur, b & M2)) == (FN, DT), where(push), "slot %d holds %s" % (b & M2, at.get((cur, b & M2))))
                    ctx.ob("push", txt + ": live items", all(at.get((cur, i & M2)) == r.item(i) for i in range(t, b)), where(push), "a live item is overwritten or moved")
                    ctx.ob("grow", txt + ": thieves on the old ring", all(at.get((r.R, i & (C - 1))) == r.item(i) for i in range(t, b)), where(push), "a thief still reading the old ring finds another item")
                    ss = [i for i in idx(p, lambda e: e.kind == "call" and e.name == "__atomic_store" or e.kind == "store" and slot(e.args[0] if e.args[0][0] != "f" else e.args[0][1]))]
                    fence = idx(p, lambda e: e.kind == "fence" and order(e) in STRONG)
                    for x in bs:
                        e = p.events[x]
                        ok = all(s < x for s in ss) and (order(e) in STRONG or any(max(ss or [0]) < y < x for y in fence))
                        ctx.ob("publish", "slot before bottom", ok, where(push, e), "the bottom index can become visible before the item")
    # another thread, or a worker that is not running
    for st_, th in ((RUN, tok("other-thread")), (0, TH), (2, TH)):
        ps = case(P, push, {}, {"g_thread_self": th}, args={0: SELF, 1: FN, 2: DT}, default=worker(st_, th)); n += len(ps)
        ctx.ob("owner", "foreign push (handled)", ps, where(push), "no path")
        for p in ps:
            bad = [e for e in p.events if e.kind in ("store", "cmpxchg", "rmw") and root_of(e.args[0]) == WQ or e.kind == "call" and WQ in e.args]
            ctx.ob("owner", "foreign push" if th != TH else "worker that is not running", not bad or th == TH, where(push), "touches the queue of another thread")
    # --- pop
    f = P.funcs.get(own[2])
    for C in Cs[1:]:
        for t in (0, 3, (1 << 40) + 3):
            for k in range(0, min(C, 4) + 1):
                for s1 in range(0, k + 1):
                    for s2 in (0, 1):
                        b = t + k; last = s1 == k - 1
                        if s2 and not last: continue
                        def steals(trace, a, s1=s1, s2=s2):
                            # other threads' steals: s1 before top is read, s2 between that and the compare-exchange
                            ld = any(e.kind == "load" and e.args[0] == a for e in trace)
                            return s1 + (s2 if ld else 0)
                        r = Ring(WQ, t, b, C, steals=steals)
                        def dflt(a, st):
                            if a[0] == "f" and a[1] == A0: return {"work_stealing_queue": WQ, "batch_size": 1}.get(a[3])
                            return r.ld(a, st)
                        ps = case(P, f, {}, r.calls(), default=dflt, first=r.first, K=3, loads=("top", "bottom", "array")); n += len(ps)
                        txt = "%d items, %d stolen meanwhile" % (k, s1 + s2)
                        ctx.ob("pop", txt + " (handled)", ps, where(f), "no path")
                        for p in ps:
                            run_ = [(e.name[1:], e.args[0] if e.args else ZERO) for e in p.events if e.kind == "call" and str(e.name).startswith("*")]
                            got = k - s1 - s2 > 0
                            want = [(r.item(b - 1)[0][1], r.item(b - 1)[1])] if got else []
                            ctx.ob("pop", txt + ": item", run_ == want, where(f), "obtains %s" % (["%s(%s)" % (a, show(c)) for a, c in run_] or "nothing"))
                            bot = stores_to(p, WQ, "bottom"); fb = num(bot[-1].args[1]) if bot else b
                            cx = [e for e in p.events if e.kind == "cmpxchg" and e.args[0] == ("f", WQ, WQS, "top")]
                            won = [e for e in cx if e.res[0] == "agg" and e.res[1][1] == ("c", 1)]
                            top = t + s1 + s2 + len(won)
                            ctx.ob("pop", txt + ": left", fb == max(top, b - 1 if got and not last else b), where(f), "leaves bottom at %s of top %s" % (fb - t, top - t))
                            ctx.ob("pop", txt + ": last item", (len(won) == 1) == (got and last), where(f), "%s the last item by compare-exchange" % ("does not decide" if last else "takes more than"))
                            for e in cx: ctx.ob("pop", txt + ": next", num(e.args[2]) == num(e.args[1]) + 1 and order(e) == "seq_cst", where(f, e), "top does not move by exactly one in sequentially consistent order")
                            ctx.ob("pop", txt + ": top only by compare-exchange", not stores_to(p, WQ, "top"), where(f), "top is stored to")
                            low = idx(p, lambda e: e.kind == "store" and e.args[0] == ("f", WQ, WQS, "bottom") and num(e.args[1]) == b - 1)
                            tl = idx(p, lambda e: e.kind == "load" and e.args[0] == ("f", WQ, WQS, "top"))
                            fe = idx(p, lambda e: e.kind == "fence" and order(e) == "seq_cst")
                            dec = [x for x in tl if not [y for y in low if y < x] and got]
                            sl = idx(p, lambda e: e.kind == "call" and e.name == "__atomic_load")
                            if got: ctx.ob("pop-order", txt, low and [x for x in tl if x > low[0]] and (any(low[0] < y < [x for x in tl if x > low[0]][0] for y in fe) or order(p.events[low[0]]) == "seq_cst" == order(p.events[[x for x in tl if x > low[0]][0]])), where(f), "top can be read before the lowered bottom is visible")
    # --- steal
    f = P.funcs.get(steal[2])
    for C in Cs[1:]:
        for t in (0, 3, (1 << 40) + 3):
            for k in range(-1, min(C, 4) + 1):
                for s2 in (0, 1):
                    if s2 and k <= 0: continue
                    b = t + k
                    def steals(trace, a, s2=s2): return s2 if any(e.kind == "load" and e.args[0] == a for e in trace) else 0
                    r = Ring(WQ, t, b, C, steals=steals); r.slots = {i & (C - 1): r.item(i) for i in range(t, max(b, t))}
                    NB = tok("neighbour")
                    SET = tok("set"); setq = ("f", SET, "_DexThreadPoolWorkerSet", "queue")
                    q = Queues({setq: [("f", SELF, WK, "set_link"), ("f", NB, WK, "set_link")]})
                    def dflt(a, st):
                        if a[0] == "f" and a[1] == A0: return {"set": SET, "thread_pool_worker": SELF}.get(a[3])
                        if a[0] == "f" and a[2] == WK and a[3] == "work_stealing_queue": return WQ if a[1] == NB else tok("own-queue")
                        return r.ld(a, st)
                    ps = case(P, f, {}, r.calls(), default=dflt, first=r.first, queues=q, K=4, loads=("top", "bottom", "array")); n += len(ps)
                    txt = "%d items, %s" % (k, "raced" if s2 else "undisturbed")
                    ctx.ob("steal", txt + " (handled)", ps, where(f), "no path")
                    for p in ps:
                        run_ = [(e.name[1:], e.args[0] if e.args else ZERO) for e in p.events if e.kind == "call" and str(e.name).startswith("*")]
                        want = [(r.item(t)[0][1], r.item(t)[1])] if k > 0 and not s2 else []
                        if not s2 or len(run_) == 0: ctx.ob("steal", txt + ": item", run_ == want, where(f), "obtains %s" % (["%s(%s)" % (a, show(c)) for a, c in run_] or "nothing"))
                        else: ctx.ob("steal", txt + ": item", False, where(f), "obtains an item another thief has taken")
                        bad = stores_to(p, WQ, "bottom") + stores_to(p, WQ, "top") + pcalls(p, "__atomic_store")
                        ctx.ob("steal", txt + ": writes", not bad, where(f, bad[0]) if bad else where(f), "a thief writes to the queue")
                        cx = idx(p, lambda e: e.kind == "cmpxchg" and e.args[0] == ("f", WQ, WQS, "top"))
                        if k <= 0: ctx.ob("steal", txt + ": claims", not cx, where(f), "claims an item of an empty queue")
                        for x in cx:
                            e = p.events[x]
                            ctx.ob("steal", txt + ": next", num(e.args[2]) == num(e.args[1]) + 1 and order(e) == "seq_cst", where(f, e), "top does not move by exactly one in sequentially consistent order")
                            sl = idx(p, lambda e: e.kind == "call" and e.name == "__atomic_load")
                            ctx.ob("steal", txt + ": reads first", [y for y in sl if y < x] and not [y for y in sl if y > x], where(f, e), "the slot is read after the item was claimed")
                        tl, bl, al = (idx(p, lambda e, F=F: e.kind == "load" and e.args[0] == ("f", WQ, WQS, F)) for F in ("top", "bottom", "array"))
                        fe = idx(p, lambda e: e.kind == "fence" and order(e) == "seq_cst")
                        if tl and bl:
                            ctx.ob("steal-order", txt, tl[0] < bl[0] and order(p.events[tl[0]]) in ACQ and order(p.events[bl[0]]) in ACQ and (any(tl[0] < y < bl[0] for y in fe) or order(p.events[tl[0]]) == order(p.events[bl[0]]) == "seq_cst"), where(f), "bottom can be read before top")
                        elif run_ or cx: ctx.ob("steal-order", txt, False, where(f), "an item is taken without comparing both ends")
                        if al and bl: ctx.ob("steal-order", txt + ": ring", al[0] > bl[0] and order(p.events[al[0]]) in ACQ + ("consume",), where(f), "the ring can be older than bottom")
    # --- create
    f = P.fn("dex_work_stealing_queue_new"); RG = tok("newring"); NQ = tok("newqueue")
    sites = [(fn, i) for fn in P.defined.values() for bb in fn.blocks for i in bb if i.op == "call" and i.f[0] == "g" and i.f[1] == "dex_work_stealing_queue_new"]
    sites = [s for s in sites if s[0] in roots(P) or s[0].base == s[0].name] or sites
    for fn, i in sites:
        c = i.a[0][1] if i.a[0][0] == "c" else None
        ctx.ob("create", "capacity at %s" % fn.base, pow2(c), where(fn), "creates a ring of %s slots" % c)
    for C in (1, 2, 32, 256):
        def alloc(ar, st):
            k = sum(1 for e in st.trace if e.kind == "call" and e.name in ("g_aligned_alloc0", "g_malloc0", "g_aligned_alloc"))
            return [NQ, RG, tok("third")][min(k, 2)]
        ps = case(P, f, {}, {"g_aligned_alloc0": alloc, "g_malloc0": alloc, "g_aligned_alloc": alloc}, args={0: C}); n += len(ps)
        ctx.ob("create", "new (handled)", ps, where(f), "no path")
        for p in ps:
            q = p.ret; rg = final(p, q, "array")
            ctx.ob("create", "queue", q in (NQ, RG) and rg in (NQ, RG) and rg != q, where(f), "returns no queue with a ring")
            if rg is None: continue
            al = [e for e in p.events if e.kind == "call" and e.res == rg]
            sz = num(al[0].args[0]) if al and len(al[0].args) == 1 else num(al[0].args[0]) * (num(al[0].args[1]) or 0) if al else None
            ctx.ob("create", "%d slots" % C, num(final(p, rg, "C")) == C and num(final(p, rg, "M")) == C - 1 and sz is not None and sz >= 16 + 16 * C, where(f), "capacity %s, mask %s, %s bytes" % (num(final(p, rg, "C")), num(final(p, rg, "M")), sz))
            ctx.ob("create", "empty", num(final(p, q, "top", ZERO)) == num(final(p, q, "bottom", ZERO)), where(f), "does not start empty")
            g = final(p, q, "garbage"); gc = [e for e in p.events if e.kind == "call" and e.res == g]
            ctx.ob("create", "retired rings", g is not None and gc and any(a[0] == "g" and P.funcs.get(a[1]) is not None or a == ("g", "g_aligned_free") for a in gc[0].args), where(f), "retired rings are not freed with the queue")
            for e in gc:
                for a in e.args:
                    fr = P.funcs.get(a[1]) if a[0] == "g" else None
                    if fr is None or fr.decl: continue
                    for pp in case(P, fr, {}, {}, args={0: RG}):
                        ctx.ob("create", "retired ring is freed", len([x for x in pcalls(pp, "g_aligned_free", "g_aligned_free_sized") if x.args[0] == RG]) == 1, where(fr), "does not free the ring once")
    # --- destroy
    f = P.fn("dex_work_stealing_queue_unref")
    for lastref in (0, 1):
        r = Ring(WQ, 4, 4, 8)
        ps = case(P, f, {}, dict(r.calls(), g_atomic_ref_count_dec=lastref), args={0: WQ}, default=r.ld); n += len(ps)
        ctx.ob("destroy", "released (handled)", ps, where(f), "no path")
        for p in ps:
            fr = [e.args[0] for e in pcalls(p, "g_aligned_free", "g_free", "g_aligned_free_sized")]; gb = [e.args[0] for e in pcalls(p, "g_ptr_array_unref", "g_ptr_array_free")]
            want = (1, 1, 1) if lastref else (0, 0, 0)
            ctx.ob("destroy", "last reference" if lastref else "others remain", (fr.count(r.R), gb.count(r.garbage), fr.count(WQ)) == want and len(fr) == 2 * want[0], where(f), "frees ring, retired rings, queue %s times" % ((fr.count(r.R), gb.count(r.garbage), fr.count(WQ)),))
    f = P.fn("dex_work_stealing_queue_ref")
    for p in case(P, f, {}, {}, args={0: WQ}):
        n += 1
        ctx.ob("destroy", "referenced", p.ret == WQ and len(pcalls(p, "g_atomic_ref_count_inc")) == 1, where(f), "does not take one reference")
    # --- owner
    cbs = set()
    for fn in P.defined.values():
        for bb in fn.blocks:
            for i in bb:
                if i.op == "call" and i.f[0] == "g" and i.f[1] == "g_source_set_callback" and i.a[1][0] == "g": cbs.add(i.a[1][1])
    ok = {push.name, own[2], "dex_work_stealing_queue_new", "dex_work_stealing_queue_unref"}
    W = {fn.name: fn for fn, i in writers(P, WQS, "bottom")}
    rts = {x.name for x in roots(P)}
    for nm, fn in sorted(W.items()):
        if nm not in rts: continue
        ctx.ob("owner", fn.base, nm in ok or nm in cbs and touches_field(P, fn, WK, ("work_stealing_queue",)), where(fn), "moves bottom outside the owner's functions")
    ctx.count("abstract_paths", n)
