"""P22: a fiber stack has one owner and is guarded against overflow"""
from spec import *
from rules.fiber import *
import itertools
ST, PL = "_DexStack", "_DexStackPool"
PAGE = "dex_get_page_size"; MIN = "dex_get_min_stack_size"

def num(t): return ev(t, lambda x: None) if t is not None else None

def run(ctx):
    P = ctx.P
    ctx.rule("layout", "for every requested size x page size x minimum: the stack is whole pages, at least what was asked for (the default when too small), and with its guard page lies inside the mapping, disjoint, the guard just below the stack's low end")
    ctx.rule("guard", "the guard page is made inaccessible; a failed mapping or protection never yields a stack")
    ctx.rule("unmap", "freeing unmaps exactly what was mapped, once, then frees the record once; an already unmapped one is not unmapped again")
    ctx.rule("assign", "a fiber is given its stack before its first run only: one taken off the free list under the lock or a new one of the right size, and its context is set up on exactly that stack")
    ctx.rule("return", "the stack of an exited fiber, and only that, is given back exactly once: to the free list of its size under the lock or freed, and the fiber forgets it")
    ctx.rule("pool", "a pool starts with the configured number of stacks and frees each of its stacks once")
    n = 0
    f = P.fn("dex_stack_new")
    BASE = 0x40000000
    MAPS = ("mmap64", "mmap")
    length = {}
    for page in (4096, 16384, 65536):
        for mn in (16384, 65536, 262144):
            for size in (0, 1, mn - 1, mn, mn + 1, 100000, 131072, 131073, 1 << 20, (1 << 20) + 1, (1 << 20) + page - 1, (1 << 24) + page):
                ps = case(P, f, {}, {PAGE: page, MIN: mn, "mprotect": 0, **{m: BASE for m in MAPS}}, args={0: size}); n += len(ps)
                txt = "size %d, page %d, minimum %d" % (size, page, mn)
                ctx.ob("layout", txt + " (handled)", ps, where(f), "no path")
                for p in ps:
                    S = p.ret
                    m = pcalls(p, *MAPS); g = pcalls(p, "mprotect")
                    sz, ptr, gd, bs = (num(final(p, S, k)) for k in ("size", "ptr", "guard", "base"))
                    if not (len(m) == 1 and None not in (sz, ptr, gd, bs)):
                        ctx.ob("layout", txt, False, where(f), "maps %d times or leaves its extent open" % len(m)); continue
                    L = num(m[0].args[1]); length[(page, sz)] = L
                    ctx.ob("layout", txt + ": mapping", bs == BASE and m[0].args[2] == ("c", 3) and num(m[0].args[3]) & 0x22 == 0x22, where(f, m[0]), "is not a private writable mapping of its own")
                    ctx.ob("layout", txt + ": size", sz % page == 0 and sz >= max(size if size >= mn else mn, page), where(f), "is %d bytes long" % sz)
                    ctx.ob("layout", txt + ": tight", sz < max(size, mn, 131072) + page, where(f), "is %d bytes long" % sz)
                    ctx.ob("layout", txt + ": inside", BASE <= ptr and ptr + sz <= BASE + L and BASE <= gd and gd + page <= BASE + L, where(f), "stack %x+%x, guard %x, mapping %x+%x" % (ptr, sz, gd, BASE, L))
                    ctx.ob("layout", txt + ": guarded", gd + page == ptr, where(f), "the guard page at %x does not end where the stack at %x begins" % (gd, ptr))
                    ctx.ob("guard", txt, len(g) == 1 and num(g[0].args[0]) == gd and num(g[0].args[1]) == page and g[0].args[2] == ZERO, where(f), "the guard page is not protected exactly once")
                    lk = [e for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][3] == "data" and e.args[1] == S]
                    ctx.ob("layout", txt + ": element", len(lk) >= 1, where(f), "its queue element does not name it")
    for bad in ({**{m: -1 for m in MAPS}, "mprotect": 0}, {**{m: BASE for m in MAPS}, "mprotect": -1}):
        ps = [p for p in table(P, f, None, lambda nm, ar, st, bad=bad: dict(bad, **{PAGE: 4096, MIN: 16384}).get(nm), args={0: 0}) if p.kind == "ret"]
        ctx.ob("guard", "%s fails" % ("mapping" if bad["mprotect"] == 0 else "protection"), not ps, where(f), "a stack is returned although it could not be %s" % ("mapped" if bad["mprotect"] == 0 else "guarded"))
    f = P.fn("dex_stack_free"); S0 = tok("stack")
    for (page, sz), L in sorted(length.items())[:40]:
        for base in (BASE, -1):
            ps = case(P, f, {(S0, "base"): base, (S0, "size"): sz, (S0, "guard"): BASE, (S0, "ptr"): BASE + page}, {PAGE: page, "munmap": 0}, args={0: S0}); n += len(ps)
            ctx.ob("unmap", "freed (handled)", ps, where(f), "no path")
            for p in ps:
                u = pcalls(p, "munmap"); fr = [e for e in pcalls(p, "g_free") if e.args[0] == S0]
                ctx.ob("unmap", "%d bytes" % sz if base == BASE else "unmapped already", [(num(e.args[0]), num(e.args[1])) for e in u] == ([(BASE, L)] if base == BASE else []), where(f), "unmaps %s of %d bytes" % ([num(e.args[1]) for e in u], L))
                ctx.ob("unmap", "record", len(fr) == 1 and not [e for e in p.events[pos(p, fr[0]) + 1:] if e.kind in ("store", "call") and S0 in [a[1] if a[0] == "f" else a for a in e.args if isinstance(a, tuple)]], where(f), "frees the record %d times" % len(fr))
    # --- pool
    f = P.fn("dex_stack_pool_new"); PO = tok("pool")
    for k, mn, mx in ((0, 0, 0), (0, 3, 5), (65536, 2, 2), (65536, 0, 4)):
        ctr = [tok("fresh%d" % i) for i in range(8)]
        def mk(a, st): return ctr[sum(1 for e in st.trace if e.kind == "call" and e.name == "dex_stack_new")]
        q = Queues({("f", PO, PL, "stacks"): []})
        ps = case(P, f, {}, {"g_malloc0_n": PO, "g_malloc0": PO, MIN: 16384, PAGE: 4096, "dex_stack_new": mk}, args={0: k, 1: mn, 2: mx}, queues=q, K=10); n += len(ps)
        ctx.ob("pool", "created (handled)", ps, where(f), "no path")
        for p in ps:
            new = pcalls(p, "dex_stack_new"); psz = num(final(p, PO, "stack_size"))
            end = q.at(p.events).get(canon(("f", PO, PL, "stacks")), [])
            ctx.ob("pool", "%d stacks" % mn, len(new) == mn == len(end) and len(set(end)) == mn, where(f), "starts with %d stacks" % len(end))
            ctx.ob("pool", "size", psz is not None and psz >= 16384 and (k == 0 or psz == k) and all(num(e.args[0]) == psz for e in new), where(f), "stacks of %s bytes" % psz)
    f = P.fn("dex_stack_pool_free")
    for k in (0, 1, 3):
        own = [tok("idle%d" % i) for i in range(k)]
        q = Queues({("f", PO, PL, "stacks"): [("f", s, ST, "link") for s in own]})
        ps = case(P, f, {}, {}, args={0: PO}, queues=q, K=8); n += len(ps)
        ctx.ob("pool", "freed (handled)", ps, where(f), "no path")
        for p in ps:
            fr = [e.args[0] for e in pcalls(p, "dex_stack_free")]
            ctx.ob("pool", "frees %d stacks" % k, sorted(fr) == sorted(own), where(f), "frees %d stacks" % len(fr))
            own2 = [e for e in pcalls(p, "g_free") if e.args[0] == PO]
            ctx.ob("pool", "freed once", len(own2) == 1 and not [e for e in pcalls(p, "dex_stack_free") if pos(p, e) > pos(p, own2[0])], where(f), "frees the pool %d times" % len(own2))
    # --- assign and return
    tab = next((t for t in P.source_tables().values() if P.funcs.get(t[2]) and "fiber" in P.funcs[t[2]].base), None)
    if not ctx.need(tab, "no source of the fiber scheduler"): return
    f = P.funcs.get(tab[2])
    FBR, POOL, NEW, OLD = tok("fiber"), tok("pool"), tok("new-stack"), tok("old-stack")
    PSZ = 131072; stacks = ("f", POOL, PL, "stacks"); PLOCK = norm(("f", POOL, PL, "mutex"))
    MK = ("makecontext", "libucontext_makecontext")
    off = flagbyte(P)[0]
    for had, want, idle, mx, act in itertools.product((0, 1), (0, PSZ, 65536, 2 * PSZ), (0, 1, 3), (0, 2, 8), ("block", "exit")):
        pool = [tok("idle%d" % i) for i in range(idle)]
        osz = want or PSZ
        def effect(e, q, act=act):
            if e.kind == "call" and e.name in SWITCH and act == "block":
                l = canon(link(FBR)); r = q.setdefault(canon(runnable(A0)), [])
                if l in r: r.remove(l); q.setdefault(canon(blocked(A0)), []).append(l)
        q = Queues({runnable(A0): [link(FBR)], blocked(A0): [], stacks: [("f", s, ST, "link") for s in pool]}, effect=effect)
        fl = lambda **k: flagbyte(P, **k)[1]
        def first(a, st, act=act):
            if a[0] != "f" or a[2] != FB or not (isflags(a) or a[3] in flagname(P)): return None
            for e in reversed(st.trace):
                if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == a[1] and (isflags(e.args[0]) or e.args[0][3] in flagname(P)): return None
                if e.kind == "call" and e.name in SWITCH:
                    d = dict(running=1, runnable=int(act != "block"), exited=int(act == "exit"), released=0)
                    return fl(**d) if isflags(a) else d[a[3]]
            return None
        def dflt(a, st, had=had, want=want, osz=osz, mx=mx):
            if a[0] != "f": return glob(a, st)
            if a[2] == FB:
                if isflags(a): return fl(runnable=1)
                if a[3] in flagname(P): return int(a[3] == "runnable")
                return {"stack": OLD if had else NULL, "stack_size": want, "fiber_scheduler": A0}.get(a[3])
            if a[2] == FS:
                if isflags(a, FS) or a[3] in flagname(P, FS): return 1
                if a[3] == "stack_pool": return POOL
            if a[2] == PL:
                if a[3] == "stack_size": return PSZ
                if a[3] == "max_pool_size": return mx
                if a[3] == "mark_unused" or isflags(a, PL): return 0
            if a[2] == ST and a[3] == "size": return osz if a[1] in (OLD, NEW) else PSZ
            return None
        calls = {"dex_thread_storage_get": TLS, "dex_stack_new": NEW, PAGE: 4096, MIN: 16384, **{s: 0 for s in SWITCH}}
        ps = case(P, f, {}, calls, queues=q, default=dflt, first=first, K=8); n += len(ps)
        txt = "%s fiber of size %s that %ss, %d idle stacks of at most %d" % ("running" if had else "new", want or "default", act, idle, mx)
        ctx.ob("assign", txt + " (handled)", ps, where(f), "no path")
        for p in ps:
            sw = pcalls(p, *SWITCH); new = pcalls(p, "dex_stack_new"); mk = pcalls(p, *MK)
            if len(sw) != 1: ctx.ob("assign", txt, False, where(f), "switches %d times" % len(sw)); continue
            k = pos(p, sw[0])
            st = [e for e in stores_to(p, FBR, "stack") if pos(p, e) < k]
            pops = [o for o in qops(p) if canon(o.term) == canon(stacks) and o.op.startswith(("pop", "unlink")) and o.i < k]
            mine = OLD if had else (st[-1].args[1] if st else None)
            if had: ctx.ob("assign", txt, not st and not new and not mk and not pops, where(f), "a running fiber is given another stack")
            else:
                isnew = mine == NEW
                ctx.ob("assign", txt, mine == NEW and len(new) == 1 and not pops or mine in pool and not new and len(pops) == 1, where(f), "is given %s" % (show(mine) if mine else "no stack"))
                if isnew and new: ctx.ob("assign", txt + ": size", num(new[0].args[0]) == (want or PSZ), where(f, new[0]), "a stack of %s bytes is made" % show(new[0].args[0]))
                else: ctx.ob("assign", txt + ": size", want in (0, PSZ), where(f), "a stack of another size is reused")
                before = q.at(p.events[:k]).get(canon(stacks), [])
                ctx.ob("assign", txt + ": not on the free list", mine is None or canon(("f", mine, ST, "link")) not in before and len(before) == idle - (0 if isnew else 1), where(f), "the stack stays on the free list")
                for o in pops: ctx.ob("assign", "under the lock", PLOCK in held_at(p, o.i), where(f, o.e), "taken off the free list without the lock")
                ctx.ob("assign", txt + ": context", len(mk) == 1 and pos(p, mk[0]) < k, where(f), "its context is set up %d times" % len(mk))
                for e in mk:
                    sp = [x for x in p.events[:pos(p, e)] if x.kind == "store" and x.args[0][0] == "f" and x.args[0][3] in ("ss_sp", "ss_size")]
                    d = {x.args[0][3]: x.args[1] for x in sp}
                    ctx.ob("assign", txt + ": context on its stack", d.get("ss_sp") == ("ld", ("f", mine, ST, "ptr"), d["ss_sp"][2] if d.get("ss_sp") and len(d["ss_sp"]) > 2 else 0) or (d.get("ss_sp") or ("",))[0] == "ld" and d["ss_sp"][1] == ("f", mine, ST, "ptr"), where(f, e), "runs on %s" % show(d.get("ss_sp", ZERO)))
                    ctx.ob("assign", txt + ": context size", num(d.get("ss_size")) == (osz if isnew else PSZ), where(f, e), "runs on %s bytes" % show(d.get("ss_size", ZERO)))
                early = [e for e in pcalls(p, "dex_stack_free") + pcalls(p, "dex_stack_mark_unused") if pos(p, e) < k]
                ctx.ob("assign", txt + ": kept", not early, where(f), "a stack is freed before the fiber ran")
            fr = [e for e in pcalls(p, "dex_stack_free") if e.args[0] == mine]
            others = [e for e in pcalls(p, "dex_stack_free") if e.args[0] != mine]
            push = [o for o in qops(p) if o.op.startswith("push") and canon(o.term) == canon(stacks)]
            mypush = [o for o in push if canon(o.e.args[1]) == canon(("f", mine, ST, "link"))]
            ctx.ob("return", txt + ": other stacks", not others and len(push) == len(mypush), where(f), "touches a stack that is not its own")
            if act == "block":
                ctx.ob("return", txt, not fr and not push and not [e for e in stores_to(p, FBR, "stack") if pos(p, e) > k], where(f), "the stack is given back although the fiber has not exited")
            else:
                ctx.ob("return", txt, len(fr) + len(mypush) == 1, where(f), "the stack is given back %d times" % (len(fr) + len(mypush)))
                ctx.ob("return", txt + ": forgotten", is0(final(p, FBR, "stack", OLD)), where(f), "the fiber keeps its stack")
                for e in fr: ctx.ob("return", txt + ": after the fiber", pos(p, e) > k, where(f, e), "freed while the fiber runs on it")
                for o in mypush:
                    ctx.ob("return", txt + ": after the fiber", o.i > k, where(f, o.e), "put on the free list while the fiber runs on it")
                    ctx.ob("return", "under the lock", PLOCK in held_at(p, o.i), where(f, o.e), "put on the free list without the lock")
                    ctx.ob("return", txt + ": free list of its size", want in (0, PSZ), where(f, o.e), "a stack of another size is put on the free list")
                for e in pcalls(p, "dex_stack_mark_unused"): ctx.ob("return", "contents dropped only when idle", pos(p, e) > k and not mypush or mypush and pos(p, e) < mypush[0].i or PLOCK in held_at(p, pos(p, e)), where(f, e), "the contents of a stack in use are dropped")
    ctx.count("abstract_paths", n)
