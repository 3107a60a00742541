"""P35: global defaults are created once and shared"""
from spec import *
from rules.sched import *

ENTER = ("g_once_init_enter", "g_once_init_enter_pointer"); LEAVE = ("g_once_init_leave", "g_once_init_leave_pointer")
MUT = {"g_value_init": 0, "g_value_unset": 0, "g_value_reset": 0, "g_value_copy": 1, "g_value_transform": 1, "llvm.memcpy": 0, "llvm.memset": 0, "llvm.memmove": 0, "uname": 0, "g_ptr_array_add": 0, "g_array_append_vals": 0, "g_hash_table_insert": 0, "g_set_error": 0}
PURE = {"sysconf", "g_quark_from_static_string", "g_intern_static_string", "g_intern_string", "g_get_num_processors", "getpagesize", "g_quark_from_string"}

def groot(a):
    r = root_of(a)
    return r[1] if r[0] == "g" else None

def writes(P, p):
    """writes of a path to mutable globals: (index, global, value or None)"""
    for i, e in enumerate(p.events):
        if e.kind in ("store", "rmw", "cmpxchg"):
            g = groot(e.args[0])
            if g and g in P.globals and not P.globals[g].get("tls"): yield i, g, (e.args[1] if e.kind == "store" else None), e
        elif e.kind == "call":
            k = MUT.get(e.name)
            if k is None and str(e.name).startswith("g_value_set_"): k = 0
            if k is None and str(e.name).startswith("g_value_take_"): k = 0
            if k is not None and len(e.args) > k:
                g = groot(e.args[k])
                if g and g in P.globals and not P.globals[g].get("tls"): yield i, g, None, e

def pure(t):
    if not isinstance(t, tuple): return True
    if t[0] == "call": return t[1] in PURE
    return t[0] in ("c", "g", "null", "str") or all(pure(x) for x in t[1:] if isinstance(x, tuple)) and t[0] not in ("a", "ld", "alloca", "tok", "f")

def in_once(p, i):
    """tokens of the once-sections open at event i"""
    out = []
    for e in p.events[:i]:
        if e.kind != "call": continue
        if e.name in ENTER and num(e.res) != 0: out.append(e.args[0])
        elif e.name in LEAVE and e.args[0] in out: out.remove(e.args[0])
    return out

def class_inits(P):
    s = set()
    for f in P.defined.values():
        for b in f.blocks:
            for i in b:
                if i.op == "call" and i.f[0] == "g" and i.f[1] in ("g_type_register_static_simple",) and len(i.a) > 3 and i.a[3][0] == "g": s.add(i.a[3][1])
                if i.op == "store" and i.a[0][0] == "g" and i.a[0][1].endswith("class_init"): s.add(i.a[0][1])
    # functions whose address is in a table of type information
    for g in P.globals.values():
        def rec(o):
            if isinstance(o, dict):
                if o.get("st") in ("_GTypeInfo", "GTypeInfo"):
                    for v in o.get("v", ()):
                        if v and v[0] == "g": s.add(v[1])
                for v in o.values(): rec(v)
            elif isinstance(o, list):
                for v in o: rec(v)
        rec(g.get("init"))
    return {P.funcs[x].base for x in s if x in P.funcs}

def run(ctx):
    P = ctx.P; n = 0
    ctx.rule("once", "a once-section is left exactly once, with a value, on every path that entered it; who does not enter it creates nothing and everyone gets what the section published")
    ctx.rule("global", "what is shared by the whole process is only written in a once-section, in a class initialiser, by a function only called there, or as a whole with a value that is the same for everyone")
    ctx.rule("registered", "instances are only created of types that have been registered by then")
    ctx.rule("init", "the library initialises itself when it is loaded and makes the main-loop scheduler of the default context the process's default")
    ctx.rule("thread", "every thread gets its own storage, created once and freed with the thread; its default scheduler and I/O context are those it recorded")
    ctx.rule("boolean", "the cached futures are resolved with the value they stand for and handed out with a reference of their own")
    ctx.rule("shared", "the shared instances are handed out as they were created, without giving away a reference")
    fs = roots(P); once = {}
    for f in fs:
        for b in f.blocks:
            for i in b:
                if i.op == "call" and i.f[0] == "g" and i.f[1] in ENTER and i.a[0][0] == "g": once.setdefault(f, set()).add(i.a[0][1])
    # --- once protocol
    for f, gs in sorted(once.items(), key=lambda x: (x[0].file, x[0].line)):
        for g in sorted(gs):
            X = ("g", g)
            for st0, won in ((0, 1), (0, 0), (1, 0)):
                def first(a, st, st0=st0, won=won):
                    if a != X: return None
                    lv = [e for e in st.trace if e.kind == "call" and e.name in LEAVE and e.args[0] == X]
                    if lv: return lv[-1].args[1]
                    if st0 or any(e.kind == "call" and e.name in ENTER and e.args[0] == X for e in st.trace): return tok("shared") if not won else ("c", 0)
                    return 0
                calls = {k: (lambda ar, st, won=won: won if ar[0] == X else None) for k in ENTER}
                ps = case(P, f, {}, calls, first=first, K=4); n += len(ps)
                what = "the first" if won else "a late" if st0 else "a second"
                ctx.ob("once", "%s, %s caller (handled)" % (g, what), ps, where(f), "no path")
                for p in ps:
                    lv = [e for e in pcalls(p, *LEAVE) if e.args[0] == X]; en = [e for e in pcalls(p, *ENTER) if e.args[0] == X]
                    if won and en:
                        ctx.ob("once", g + ": left", len(lv) == 1 and pos(p, lv[0]) > pos(p, en[0]), where(f, en[0]), "the once-section of %s is left %d times" % (g, len(lv)))
                        for e in lv:
                            v = e.args[1]; bad = is0(v) or any(k in (("==", v, NULL), ("==", v, ZERO)) and t for k, t in p.facts.items())
                            ctx.ob("once", g + ": value", not bad, where(f, e), "%s may be published as 0, and is then created again" % g)
                            for i, g2, v2, e2 in writes(P, p):
                                if g2 not in gs and i > pos(p, e): ctx.ob("once", g2 + ": after", in_once(p, i), where(f, e2), "%s is changed after it was published" % g2)
                    elif not won:
                        ctx.ob("once", g + ": not left", not lv, where(f), "%s caller publishes %s" % (what, g))
                        if st0: ctx.ob("once", g + ": fast", len(en) <= 1, where(f), "enters more than once")
                        for i, g2, v2, e2 in writes(P, p): ctx.ob("once", g2 + ": only once", in_once(p, i), where(f, e2), "%s caller changes %s" % (what, g2))
    # --- writes to globals
    inits = class_inits(P); okfun = set(); judged = 0
    paths = {}
    def get(f):
        if f not in paths:
            try: paths[f] = case(P, f, {}, {}, K=1)
            except Exception as x: paths[f] = None
        return paths[f]
    def wr(f):
        for b in f.blocks:
            for i in b:
                if i.op in ("store", "atomicrmw", "cmpxchg"):
                    yield i, gbase(f, i.a[1] if i.op == "store" else i.a[0])
                elif i.op == "call" and i.f[0] == "g":
                    k = 0 if i.f[1].startswith(("g_value_set_", "g_value_take_", "llvm.memcpy", "llvm.memset")) else MUT.get(i.f[1])
                    if k is not None and len(i.a) > k: yield i, gbase(f, i.a[k])
    direct = {f: [(i, g) for i, g in wr(f) if g and g in P.globals and not P.globals[g].get("const") and not P.globals[g].get("tls")] for f in fs}
    def called_guarded(f):
        """every call of f is in a once-section or a class initialiser"""
        cs = [(c, i) for c in fs for b in c.blocks for i in b if i.op == "call" and i.f[0] == "g" and i.f[1] == f.name]
        if not cs or f.addr: return False
        for c, i in cs:
            if c.base in inits: continue
            ps = get(c)
            if ps is None: return False
            for p in ps:
                for k, e in enumerate(p.events):
                    if e.kind == "call" and e.name in (f.base, f.name) and not in_once(p, k): return False
        return True
    for f in fs:
        if not direct[f] or f.base in inits: continue
        if called_guarded(f): judged += len(direct[f]); continue
        ps = get(f)
        if not ctx.need(ps is not None, "%s is too complex" % f.base): continue
        n += len(ps)
        for p in ps:
            cnt = {}
            for i, g, v, e in writes(P, p):
                if P.globals[g].get("const"): continue
                judged += 1
                if in_once(p, i): continue
                cnt[g] = cnt.get(g, 0) + 1
                ok = e.kind == "store" and e.args[0] == ("g", g) and v is not None and pure(v) and cnt[g] == 1
                ctx.ob("global", g, ok, where(f, e), "%s is written %s" % (g, "in several steps that other threads can see" if cnt[g] > 1 else "without anything that keeps other threads from doing the same"))
    ctx.need(judged, "no global is ever written")
    # --- types
    reg = set(); di = P.fn("dex_init")
    for p in get(di) or ():
        for e in pcalls(p, "g_type_ensure"): reg.add(show(e.args[0]))
    for base in inits:
        f = P.funcs.get(base)
        if f is None: continue
        for p in get(f) or ():
            for e in pcalls(p, "g_type_ensure"): reg.add(show(e.args[0]))
    for f in fs:
        for b in f.blocks:
            for i in b:
                if i.op != "call" or i.f[0] != "g" or i.f[1] not in ("dex_object_create_instance", "g_type_create_instance") or i.a[0][0] != "i": continue
                ld = f.insts[i.a[0][1]]
                if ld.op != "load": continue
                g = gbase(f, ld.a[0])
                if not g or not g.endswith("_type"): continue
                t = "TYPE(%s)" % g[:-5]
                own = any(x.op == "call" and x.f[0] == "g" and (x.f[1] in ENTER and x.a[0] == ("g", g) or x.f[1] == g[:-5] + "_get_type") for bb in f.blocks for x in bb)
                ctx.ob("registered", "%s in %s" % (g, f.base), own or t in reg, where(f), "an instance of %s is created although nothing has registered the type" % g[:-5])
    # --- initialisation
    ct = P.globals.get("llvm.global_ctors"); cts = []
    def rec(o):
        if isinstance(o, dict):
            for v in o.values(): rec(v)
        elif isinstance(o, list):
            if len(o) == 2 and o[0] == "g": cts.append(o[1])
            else:
                for v in o: rec(v)
    rec(ct and ct.get("init"))
    def reaches(nm, d=0):
        f = P.funcs.get(nm)
        return nm == "dex_init" or f is not None and d < 3 and any(reaches(c, d + 1) for c in f.callees0)
    ctx.ob("init", "when loaded", any(reaches(c) or P.funcs.get(c) is not None and any(g == "dex_init.initialized" for g in once.get(P.funcs[c], ())) for c in cts), where(di), "nothing initialises the library when it is loaded")
    SD, GD = P.fn("dex_scheduler_set_default"), P.fn("dex_scheduler_get_default")
    G = None
    for p in case(P, GD, {}, {}):
        n += 1
        if p.ret[0] == "ld" and p.ret[1][0] == "g": G = p.ret[1]
    if ctx.need(G, "the default scheduler is not kept in a global"):
        T = tok("scheduler")
        for old in (NULL, tok("old")):
            for arg in (T, NULL):
                for p in case(P, SD, {}, {}, args={0: arg}, first=lambda a, st: old if a == G and not any(e.kind == "store" and e.args[0] == G for e in st.trace) else None):
                    n += 1
                    s = [e.args[1] for e in p.events if e.kind == "store" and e.args[0] == G]
                    want = [T] if old == NULL and arg == T else []
                    ctx.ob("init", "default is set once", s == want, where(SD), "the default scheduler is %s" % ("replaced" if s else "not set"))
        for p in case(P, GD, {}, {}, first=lambda a, st: T if a == G else None):
            n += 1; ctx.ob("init", "default", p.ret == T and nref(p, T) == 0 and nrel(p, T) == 0, where(GD), "is not the default scheduler")
    for p in case(P, di, {}, {**{k: 1 for k in ENTER}, "dex_main_scheduler_new": tok("main")}, first=lambda a, st: 0 if a[0] == "g" and a[1].endswith("initialized") else None):
        n += 1
        en = pcalls(p, *ENTER)
        if not en: continue
        mk = pcalls(p, "dex_main_scheduler_new"); sd = [e.args[0] for e in pcalls(p, "dex_scheduler_set_default")] or [e.args[1] for e in p.events if e.kind == "store" and e.args[0] == G]
        ctx.ob("init", "main scheduler", len(mk) == 1 and mk[0].args[0] == NULL, where(di), "the main scheduler is not that of the default main context")
        ctx.ob("init", "made default", sd == [tok("main")], where(di), "the main-loop scheduler does not become the default")
        ctx.ob("init", "kept", nrel(p, tok("main")) == 0, where(di), "the default scheduler is released")
        rg = {show(e.args[0]) for e in pcalls(p, "g_type_ensure")}
        for e in mk: ctx.ob("init", "types first", all(pos(p, x) < pos(p, e) for x in pcalls(p, "g_type_ensure") if show(x.args[0]) in ("TYPE(dex_main_scheduler)", "TYPE(dex_scheduler)", "TYPE(dex_object)")) and "TYPE(dex_main_scheduler)" in rg, where(di, e), "the scheduler is created before its type is registered")
    # --- per-thread storage
    TG = P.fn("dex_thread_storage_get"); key = None
    for have in (tok("storage"), NULL):
        ps = case(P, TG, {}, {"g_private_get": have}); n += len(ps)
        ctx.ob("thread", "storage (handled)", ps, where(TG), "no path")
        for p in ps:
            ga = pcalls(p, "g_private_get"); se = pcalls(p, "g_private_set", "g_private_replace"); al = [e for e in p.events if e.kind == "call" and str(e.name).startswith(("g_malloc", "g_slice", "calloc"))]
            ctx.ob("thread", "storage: looked up", len(ga) >= 1, where(TG), "the thread's storage is not looked up")
            if ga: key = ga[0].args[0]
            if have == NULL: ctx.ob("thread", "storage: created", len(al) == 1 and "malloc0" in al[0].name + al[0].name.replace("calloc", "malloc0") and len(se) == 1 and se[0].args[:2] == (key, al[0].res) and p.ret == al[0].res, where(TG), "a thread without storage does not get one of its own, zeroed and recorded")
            else: ctx.ob("thread", "storage: kept", p.ret == have and not al and not se, where(TG), "a thread that has storage gets another")
    if key is not None and key[0] == "g":
        v = (P.globals.get(key[1]) or {}).get("init") or {}
        ctx.ob("thread", "storage: freed", any(x == ["g", "g_free"] for x in (v.get("v") or [])) if isinstance(v, dict) else False, where(TG), "the thread's storage is not freed with the thread")
    TLS, S, AC = tok("tls"), tok("scheduler"), tok("aio")
    TD, RD = P.fn("dex_scheduler_get_thread_default"), P.fn("dex_scheduler_ref_thread_default")
    for s in (S, NULL):
        for p in case(P, TD, {(TLS, "scheduler"): s}, {"dex_thread_storage_get": TLS}):
            n += 1; ctx.ob("thread", "default", p.ret == s and nref(p, S) == 0 and nrel(p, S) == 0, where(TD), "the thread's default is %s instead of %s" % (show(p.ret), show(s)))
        for p in case(P, RD, {(TLS, "scheduler"): s}, {"dex_thread_storage_get": TLS, "dex_scheduler_get_thread_default": s}):
            n += 1; ctx.ob("thread", "default ref", unref_strip(p.ret) == s and nref(p, S) == (1 if s != NULL else 0), where(RD), "the thread's default is handed out with %d references" % nref(p, S))
    ST = P.fn("dex_scheduler_set_thread_default")
    for p in case(P, ST, {}, {"dex_thread_storage_get": TLS}, args={0: S}):
        n += 1; ctx.ob("thread", "set default", final(p, TLS, "scheduler") == S, where(ST), "the thread's default is not recorded")
    CU = P.funcs.get("dex_aio_context_current"); rd = P.fn("dex_aio_read")
    for a, s, want in ((AC, S, AC), (AC, NULL, AC), (NULL, S, tok("its-aio")), (NULL, NULL, None)):
        for p in case(P, rd, {(TLS, "scheduler"): s, (TLS, "aio_context"): a}, {"dex_thread_storage_get": TLS, "dex_scheduler_get_aio_context": lambda ar, st: tok("its-aio") if ar[0] == S else None, "dex_aio_context_current": None} if CU is None else {"dex_thread_storage_get": TLS, "dex_scheduler_get_aio_context": lambda ar, st: tok("its-aio") if ar[0] == S else None}, args={0: NULL}):
            n += 1
            if CU is not None and pcalls(p, "dex_aio_context_current"): continue
            go = [e for e in p.events if e.kind == "call" and (e.name == "dex_aio_backend_read" or str(e.name).endswith("Class.read"))]
            if want is None: continue
            ctx.ob("thread", "I/O context", len(go) == 1 and go[0].args[1] == want, where(rd), "uses %s instead of %s" % (show(go[0].args[1]) if go else "nothing", show(want)))
    f0, ps0, nm = main_setup(P)
    for p in ps0:
        n += 1
        for k, v in (("scheduler", nm["MS"]), ("aio_context", nm["AIO"])):
            ctx.ob("thread", "main " + k, final(p, nm["TLS"], k) == v, where(f0), "the main scheduler's thread does not know its %s" % k)
    # --- the boolean futures
    BF = P.fn("dex_future_new_for_boolean"); place = {}
    for v in (0, 1, 2, -1):
        def nb(ar, st):
            k = sum(1 for e in st.trace if e.kind == "call" and e.name == "dex_static_future_new_resolved"); return tok("cached%d" % k)
        for won in (1, 0):
            fv = {}; og = sorted(once.get(BF, ()))
            def first(a, st):
                if a[0] == "g" and a[1] in og: return 0
                return None
            def arr(a, st):
                c = canon(a)
                if root_of(c) == ("g", "static_booleans") or root_of(c)[0] == "g" and root_of(c)[1] not in og: return tok("cached@%s" % show(c))
                return None
            ps = case(P, BF, {}, {**{k: won for k in ENTER}, "dex_static_future_new_resolved": nb}, args={0: ("c", v)}, first=first, default=arr, K=2); n += len(ps)
            ctx.ob("boolean", "%d (handled)" % v, ps, where(BF), "no path")
            for p in ps:
                want = bool(v); ret = unref_strip(p.ret)
                rf = nref(p, ret)
                ctx.ob("boolean", "reference", rf == 1, where(BF), "is handed out with %d references of its own" % rf)
                for i, e in enumerate(p.events):
                    if e.kind == "call" and e.name == "dex_static_future_new_resolved":
                        fv[e.res] = gval(p, i, e.args[0])
                        ctx.ob("boolean", "kept", sum(1 for x in p.events if x.kind == "store" and x.args[1] == e.res and groot(x.args[0])) == 1 and nrel(p, e.res) == 0, where(BF, e), "a cached future is not kept")
                if won:
                    g = fv.get(ret); val = truth(g)
                    ctx.ob("boolean", "value", val is not None and val == want, where(BF), "hands out a future of %s for %d" % (val, v))
                    # what the others will find
                    for e in p.events:
                        if e.kind == "store" and groot(e.args[0]) and e.args[1] in fv: place[show(canon(e.args[0]))] = truth(fv[e.args[1]])
                else:
                    s = ret[1][len("cached@"):] if ret[0] == "tok" and ret[1].startswith("cached@") else show(ret)
                    ctx.ob("boolean", "cached value", s in place and place.get(s) == want, where(BF), "hands out the future of %s for %d" % (place.get(s), v))
    # --- shared instances
    for fn, mk in (("dex_thread_pool_scheduler_get_default", ("dex_thread_pool_scheduler_new",)), ("dex_aio_backend_get_default", ("dex_uring_aio_backend_new", "dex_posix_aio_backend_new"))):
        f = P.fn(fn)
        if not once.get(f): continue
        X = ("g", sorted(once[f])[0])
        for ur in (tok("uring"), NULL):
            calls = {k: 1 for k in ENTER}; calls.update({"dex_thread_pool_scheduler_new": tok("pool"), "dex_uring_aio_backend_new": ur, "dex_posix_aio_backend_new": tok("posix")})
            def first(a, st):
                if a != X: return None
                lv = [e for e in st.trace if e.kind == "call" and e.name in LEAVE and e.args[0] == X]
                return lv[-1].args[1] if lv else 0
            uses = any(x in f.callees0 for x in ("dex_uring_aio_backend_new",))
            want = tok("pool") if "pool" in fn else ur if ur != NULL and uses else tok("posix")
            for p in case(P, f, {}, calls, first=first):
                n += 1
                ctx.ob("shared", fn, p.ret == want, where(f), "hands out %s instead of %s" % (show(p.ret), show(want)))
                for t in (tok("pool"), tok("uring"), tok("posix")): ctx.ob("shared", fn + ": reference", nrel(p, t) == 0 and nref(p, t) == 0, where(f), "gives away or takes a reference to the shared instance")
    ctx.count("abstract_paths", n); ctx.count("once_sections", sum(len(x) for x in once.values())); ctx.count("global_writes", judged)

def truth(g):
    k = num(g.payload) if g is not None and g.payload is not None else None
    return None if k is None else bool(k)

def gbase(f, o, d=0):
    """the global an operand points into"""
    if o[0] == "g": return o[1]
    if o[0] == "gep" and d < 5: return gbase(f, o[1], d + 1)
    if o[0] == "i" and d < 6:
        i = f.insts[o[1]]
        if i.op in ("getelementptr", "bitcast"): return gbase(f, i.a[0], d + 1)
    return None
