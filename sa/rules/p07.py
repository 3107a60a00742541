"""P07: references are neither leaked nor released twice (ownership ledger over every path of every function)"""
from spec import *
from lib import roots
from own import *
import os

MAYFULL = ("dex_async_result_propagate_pointer",)      # transfer depends on the type of the value
ELSEWHERE = ("DexFiber.stack",)           # given back when the fiber ends; until then the scheduler keeps the fiber
SOMETIMES = ("DexAsyncResult.name",)    # owned or static, told apart by a flag
# fields that own what they point to (read off every release in the tree, confirmed by reading; fields released anywhere are added)
OWNING = """AioContext.aio_backend AsyncPair.cancellable AsyncPair.info AsyncPair.instance AsyncResult.cancellable AsyncResult.future AsyncResult.main_context AsyncResult.name
 AsyncResult.source_object Block.awaiting Block.scheduler Cancellable.cancellable ChannelItem.future ChannelItem.send Delayed.future FiberScheduler.stack_pool Future.rejected
 FutureSet.embedded FutureSet.futures MainScheduler.aio_context MainScheduler.fiber_scheduler MainScheduler.main_context MainScheduler.work_queue_source PosixAioFuture.aio_context
 PosixAioFuture.main_context Promise.cancellable ThreadPoolScheduler.global_work_queue ThreadPoolScheduler.set ThreadPoolScheduler.workers ThreadPoolWorker.aio_context
 ThreadPoolWorker.fiber_scheduler ThreadPoolWorker.global_work_queue ThreadPoolWorker.local_source ThreadPoolWorker.main_context ThreadPoolWorker.main_loop ThreadPoolWorker.set
 ThreadPoolWorker.set_source ThreadPoolWorker.work_stealing_queue Timeout.source UnixSignal.source WorkQueue.semaphore WorkStealingQueue.array
 WorkStealingQueue.garbage WorkStealingQueueSource.work_stealing_queue"""
EITHER = ("dex_future_complete", "dex_value_take_object")      # takes a value or an error, with both the error is not the outcome; keeps it in a GValue
VALUES = ("_GValue", "GValue", "_GTypeCValue", "GTypeCValue")
NOTFIELD = ("_GList", "GList") + VALUES

def run(ctx):
    P = ctx.P
    ctx.rule("made", "a reference or allocation obtained on a path is released, returned, stored or handed over exactly once on it")
    ctx.rule("argument", "an argument passed with full ownership is consumed once on every path, a borrowed one never")
    ctx.rule("field", "a reference released out of a field does not stay there, unless the container goes away with it")
    ctx.rule("finalise", "whatever a container owns is released, or known to be absent, in the function that makes the container go away")
    ctx.rule("taken", "a reference taken out of a field or overwritten in it is released, returned or handed over on that path")
    ctx.rule("error", "an error received through an out parameter is consumed once")
    ctx.rule("use", "what was created here is not used after its only reference was released")
    ctx.rule("value", "a GValue of an object type holds one reference of its own: every function of the value table and the three accessors, for every combination of what the value held and what it is given")
    ctx.rule("counted", "the reference functions of what is not an object add one reference and return their argument, or give one up with the function that takes it apart")
    value_table(ctx)
    counted(ctx)
    fs = [f for f in roots(P) if "class_intern_init" not in f.name]
    R = enumerate_all(P, [f.name for f in fs])
    split(ctx, P, R)
    L = Owners(P)
    L.owning |= {("_Dex" + x.split(".")[0], x.split(".")[1]) for x in OWNING.split()}
    # a worker set's queue only borrows its workers
    weak = {r.name for r in fs if r.base in ("dex_thread_pool_worker_set_finalize",)}
    embedded = set()
    def paths(n, final=False):
        for i, p in enumerate(R[n] or ()):
            if p[0] != "ret" or any(e[1] == "g_return_if_fail_warning" for e in p[2]): continue
            q = Ledger(L, n, p)
            if q.feasible(): yield q
    def contract(f): return f.base in EAT or f.base in REF or f.base in VAREAT
    for n in R:
        for p in R[n] or ():
            for kind, nm, ar, res, w, _ in p[2]:
                for c in L.callbacks(nm, ar) if kind == "call" else ():
                    if c[0][0] == "g" and c[0][1] in P.funcs: L.cb[P.funcs[c[0][1]].base] = c[1]
    for it in range(3):
        for n in R:
            f = P.funcs[n]
            if contract(f): continue
            args = {}; ret = set()
            for q in paths(n):
                for i in range(len(f.ptypes) - 1):
                    a = ("a", i)
                    if not q.null(a): args.setdefault(i, []).append(q.bal.get(a, 0))
                if q.leaving is not None and not q.null(q.leaving): ret.add(q.bal.get(q.leaving, 0))
            L.infer[f.base] = dict(args={i: 1 for i, s in args.items() if s and max(s) < 0}, ret=1 if ret == {1} else 0, partly={i for i, s in args.items() if s and max(s) == 0 > min(s)}, rets=ret)
        for n in R:
            for p in R[n] or ():
                for kind, nm, ar, res, w, _ in p[2]:
                    if kind == "call" and nm not in POPLINK:
                        for i in L.eats(nm, ar) + ([CLEAR[nm]] if nm in CLEAR else []):
                            if i < len(ar):
                                lf = last_field(ar[i][1] if nm not in CLEAR and ar[i][0] == "ld" else ar[i] if nm in CLEAR else None)
                                if lf and lf[0] not in NOTFIELD: L.owning.add(lf)
        for n in R:
            for p in R[n] or ():
                for kind, nm, ar, res, w, _ in p[2]:
                    if kind == "store" and last_field(ar[0]) in L.owning and ar[1][0] in ("f", "ix") and ar[1] != ar[0]:
                        lf = last_field(ar[1])
                        if lf and root_of(ar[1]) == root_of(ar[0]): L.owning.add(lf); embedded.update((lf, last_field(ar[0])))
    srcfin = {t[3] for t in P.source_tables().values()}
    fins = {}
    for (cls, slot), m in P.vtables().items():
        if slot == "finalize":
            for pre, fn in m.items():
                for lf in L.owning:
                    if lf[0].strip("_").lower() == pre.replace("_", ""): fins.setdefault(fn, lf[0])
    structs = {x[0] for x in L.owning}
    def holders(q):
        """containers that go away on this path, with their structure"""
        if q.fn in fins: yield ("a", 0), fins[q.fn]
        for x in q.freed:
            t = P.funcs[q.fn].ptypes[1 + x[1]] if x[0] == "a" else ""
            t = t[:-1] if t.endswith("*") and not t.endswith("**") else ""
            if x[0] == "a" and t in ("", "void"):
                # an untyped argument (callback data): the structure it is used as on this path
                for s in sorted({y for e in q.events for y in used_as(e, x)} & structs): yield x, s
                continue
            for s in structs:
                if x[0] == "a" and t and s.strip("_") == t: yield x, s
    def under(t, k):
        while isinstance(t, tuple) and len(t) > 1:
            if t == k: return True
            t = t[1]
        return False
    npaths = nres = 0; skipped = [P.funcs[n].base for n in R if R[n] is None]
    def alloca_ptr(f, c):
        if c[0] != "alloca": return False
        i = f.insts[c[1]] if not isinstance(f.insts, dict) else f.insts.get(c[1])
        return i is not None and i.raw.get("at") == "ptr"
    def into(f, ph, seen):
        # instructions whose value a widened loop variable may hold
        i = f.insts[ph] if not isinstance(f.insts, dict) else f.insts.get(ph)
        if i is None or i.op not in ("phi", "select") or ph in seen: return
        seen.add(ph)
        for o in ([x[1] for x in i.raw["phi"]] if i.op == "phi" else i.a):
            if o and o[0] == "i":
                yield o[1]
                yield from into(f, o[1], seen)
    def ended(f, q, r):
        # the loop variable this result went into was NULL when the loop ended, or its later iterations are not recorded again
        return r[0] == "call" and len(r) > 3 and any(k[0] == "phi" and r[3] in set(into(f, k[1], set())) for k, v in q.known.items())
    for n in sorted(R):
        f = P.funcs[n]
        if f.base in REF or f.base in EAT and EAT[f.base] == (0,) and f.base.endswith("_unref"): continue
        S = {}; uses = {}; fin = {}; lost = {}; found = set()
        for q in paths(n):
            npaths += 1; fz = q.fuzzy
            for r, w in q.stolen.items():
                if q.null(r) or root_of(r[1])[0] in ("alloca",) or last_field(r[1]) in embedded: continue
                ok = q.bal.get(r, 0) < 0 or q.leaving == r 
                if not ok and root_of(r[1])[0] != "a": lost.setdefault(r, w); continue
                if ok: found.add(r)
                s = S.setdefault(("out",) + r, ["taken", 0, None]); s[1] += 1
                if not ok and s[2] is None: s[2] = (1, [(1, w, "taken out")])
            for c, S0 in holders(q):
                for lf in sorted(L.owning):
                    if lf[0] != S0 or lf in embedded: continue
                    k = canon(("f", c, lf[0], lf[1])); ep = q.epoch.get(k, 0); r = ("slot", k, ep)
                    gone = ep > 0 or q.null(r) or q.bal.get(r, 0) < 0 or any(x[0] == "slot" and x[1][0] in ("ix", "ld") and under(x[1], k) for x in q.bal) or any(under(x[1], k) for x in q.slot.values() if x[0] == "slot" and x[1] != k)
                    nm = "%s: %s.%s" % (f.base, S0.strip("_"), lf[1])
                    fin.setdefault(nm, []).append(gone)
            for m in q.misuse: uses.setdefault((show(m[0]), m[2]), m)
            warned = any(e[0] == "call" and e[1] in WARN + ("g_log", "g_logv", "g_log_structured_standard") for e in q.events)
            due = [] if warned else [("a", i) for i in L.eats(f.base, [("x",)] * 12) if i < len(f.ptypes) - 1 and ("a", i) not in q.bal and (f.base, i) != ("dex_block_new", 4)] if f.base in EAT and f.base not in EITHER or f.base in L.cb else []
            for r in list(q.bal) + [r for r in q.outs if r not in q.bal] + due:
                if q.null(r): continue
                b = q.balance(r); kind = "made"; ok = True
                if r == q.leaving: b -= 1 if (L.infer.get(f.base, {}).get("ret") == 1 or L.news(f.base)) else 0
                if r in q.outs:
                    if not alloca_ptr(f, r[1]): continue
                    kind = "error"; ok = b in (0, -1) and not (b == 0 and q.nonnull(r))
                elif r in q.links:
                    t = r[1][1] if r[0] == "slot" and isinstance(r[1], tuple) and r[1][0] == "f" else None
                    if t is not None and q.null(t): continue
                    kind = "made"; ok = b == 0
                elif r[0] == "slot":
                    c = r[1]; lf = last_field(c); kind = "field"
                    if lf is not None and lf[0] in VALUES or c[0] in ("a", "alloca") or root_of(c)[0] == "alloca": continue
                    # a later iteration of a loop, of which only a part is recorded
                    if root_of(alias_root(c))[0] == "phi": continue
                    ok = b == 0 or b == -1 and (q.released_slot(r) or q.fn in srcfin)
                elif r[0] == "a":
                    kind = "argument"
                    if f.ptypes[1 + r[1]] in ("char*", "gchar*"): continue
                    b += 1 if r[1] in L.eats(f.base, [("x",)] * 12) else 0
                    ok = b == 0
                elif r[0] == "call" and r[1].endswith(".finish"): ok = b in (0, -1)
                elif r[0] == "call" and n in weak and r[1].startswith("g_queue_"): continue
                elif r in q.arr: ok = b in (0, 1)
                else: ok = b == 0 or f.base in MAYFULL and r == q.leaving and b in (0, 1)
                if not ok and b > 0 and fz > 0: fz -= 1; ok = True
                if not ok and b > 0 and ended(f, q, r): ok = True
                s = S.setdefault(r, [kind, 0, None]); s[1] += 1
                if not ok and s[2] is None: s[2] = (b, q.why.get(r, ()))
        for r, w in lost.items():
            # an element taken from a container: its facts do not survive the next iteration
            if r not in found: S[("out",) + r] = ["taken", 1, (1, [(1, w, "taken out")])]
        for r, (kind, k, bad) in S.items():
            nres += k
            nm = show(r[1]) if r[0] == "slot" else show(r[2]) if r[0] == "out" else show(r)
            if bad is None: ctx.ob(kind, "%s: %s" % (f.base, nm), True, where(f), ""); continue
            b, why = bad
            w = why[-1][1] if why else where(f)
            ctx.ob(kind, "%s: %s" % (f.base, nm), False, w, "%s: %s is %s on some path (%s)" % (f.base, nm, "kept by nobody" if b > 0 else "received and dropped" if not why else "released more often than obtained", "; ".join("%+d %s" % (x[0], x[2]) for x in why)[:200]))
        for nm, oks in fin.items():
            if nm.endswith(ELSEWHERE): continue
            ctx.ob("finalise", nm, any(oks) if nm.endswith(SOMETIMES) else all(oks), where(f), "%s goes away with its container still holding it" % nm)
        for m in uses.values(): ctx.ob("use", "%s: %s" % (f.base, show(m[0])), False, m[1], "%s uses %s after releasing it" % (f.base, show(m[0])))
        if not uses: ctx.ob("use", f.base, True, where(f), "")
    ctx.count("paths", npaths); ctx.count("references_followed", nres); ctx.count("functions", len(R) - len(skipped)); ctx.count("functions_too_large", len(skipped))
    ctx.count("owning_fields", len(L.owning))
    ctx.assumptions.append("not enumerated (too many paths): " + (", ".join(skipped) or "none"))
    ctx.need(nres > 5000, "only %d references could be followed" % nres)

def counted(ctx):
    P = ctx.P; A0 = ("a", 0)
    for f in P.defined.values():
        m = re.search(r"_(ref|unref)$", f.base)
        if not m or f.base in ("dex_ref", "dex_unref", "dex_work_stealing_queue_ref", "dex_work_stealing_queue_unref") or not f.ptypes or "*" not in str(f.ptypes[1:2]): continue
        up = m.group(1) == "ref"
        if up and len(f.ptypes) != 2: continue
        ps = case(P, f, {}, {})
        ctx.ob("counted", f.base + " (handled)", ps, where(f), "no path")
        for p in ps:
            ups = [e for e in p.events if e.kind == "call" and e.name in REF and e.args[REF[e.name]] == A0 or e.kind == "rmw" and e.name == "add" and root_of(e.args[0]) == A0 and ev(e.args[1], lambda x: None) == 1]
            down = [e for e in p.events if e.kind == "call" and e.name in ("g_atomic_rc_box_release", "g_atomic_rc_box_release_full") and e.args[0] == A0 or e.kind == "rmw" and e.name in ("add", "sub") and root_of(e.args[0]) == A0 and not (e.name == "add" and ev(e.args[1], lambda x: None) == 1)]
            fin = [e for e in down if e.kind == "call" and e.name.endswith("_full")]
            if up: ctx.ob("counted", f.base, len(ups) == 1 and not down and alias(p.ret) == A0, where(f), "adds %d references and returns %s" % (len(ups), show(p.ret)))
            else: ctx.ob("counted", f.base, len(down) == 1 and not ups and all(e.args[1] not in KNOWNNULL for e in fin), where(f), "gives up %d references" % len(down))

def value_table(ctx):
    """the GValue support of objects: what a value holds is a reference of its own"""
    P = ctx.P; tab = {}
    slots = ["init", "free", "copy", "peek", None, "collect", None, "lcopy"]
    for k, g in P.globals.items():
        i = g.get("init")
        if isinstance(i, dict) and i.get("st") in ("_GTypeValueTable", "GTypeValueTable"):
            tab = {s: x[1] for s, x in zip(slots, i["v"]) if s and x[0] == "g"}
    for f in P.defined.values():
        for b in f.blocks:
            for i in b:
                if i.op == "store" and i.a[0][0] == "g" and i.a[1][0] == "i":
                    for st, fl, off in (f.insts[i.a[1][1]].raw.get("gf") or ())[-1:]:
                        if st in ("_GTypeValueTable", "GTypeValueTable") and off % 8 == 0 and off < 64: tab[slots[off // 8]] = i.a[0][1]
    if not ctx.need(len(tab) == 6, "the value table of the object type was not found"): return
    V, W = ("a", 0), ("a", 1); O, N = tok("object"), tok("given"); n = 0
    def gain(p, o): return sum(1 for e in p.events if e.kind == "call" and e.name in REF and unref_strip(e.args[REF[e.name]]) == o)
    def run1(name, fn, old, new, extra=None, args=None, rejects=False):
        nonlocal n
        f = P.funcs.get(fn) if fn in P.funcs else P.fn(fn)
        def dflt(a, st):
            r = root_of(a); c = canon(a)
            fl = last_field(c)
            if r == V and c[0] in ("f", "ix"): return None if fl and fl[1] in ("g_type", "f0") else old
            if r == W and name in ("copying", "copying out") : return None
            if extra is not None: return extra(a)
            return None
        ps = [p for p in case(P, f, {}, {"g_type_check_value_holds": 1, "g_type_check_value": 1, "g_type_check_instance_is_a": 1, "g_type_check_instance_is_fundamentally_a": lambda a, s: int(a[0] != NULL)}, args=args or {}, default=dflt, locs=True)]
        n += len(ps)
        ctx.ob("value", "%s (%s) handled" % (f.base, name), ps, where(f), "no path for this case")
        return f, ps
    def last_store(p, v, skip=()):
        out = None
        for e in p.events:
            if e.kind == "store" and root_of(canon(e.args[0])) == v: out = e.args[1]
            elif e.kind == "call" and e.name in CLEAR and root_of(canon(e.args[CLEAR[e.name]])) == v: out = NULL
        return out
    def rel(p, o, v, old):
        k = 0
        for e in p.events:
            if e.kind != "call": continue
            if e.name in RELEASE and e.args[0] == o: k += 1
            elif e.name in CLEAR and root_of(canon(e.args[CLEAR[e.name]])) == v and old == o: k += 1
        return k
    for old in (O, NULL):
        t = "holding an object" if old is O else "holding nothing"
        f, ps = run1("freeing", tab["free"], old, None)
        for p in ps: ctx.ob("value", "%s, %s: releases what it holds" % (f.base, t), old is NULL or rel(p, O, V, old) == 1, where(f), "releases it %d times" % rel(p, O, V, old))
        f, ps = run1("peeking", tab["peek"], old, None)
        for p in ps: ctx.ob("value", "%s, %s" % (f.base, t), p.ret is not None and unref_strip(p.ret) == old and not gain(p, O), where(f), "returns %s" % (show(p.ret) if p.ret else "nothing"))
        f, ps = run1("copying", tab["copy"], old, None)
        for p in ps:
            x = last_store(p, W)
            ctx.ob("value", "%s, %s: the copy" % (f.base, t), x is not None and unref_strip(x) == old, where(f), "the copy holds %s" % (show(x) if x else "whatever was there"))
            if old is O: ctx.ob("value", "%s, %s: reference of the copy" % (f.base, t), gain(p, O) == 1 and rel(p, O, V, old) == 0, where(f), "takes %d references" % gain(p, O))
        f, ps = run1("reading", "dex_value_get_object", old, None)
        for p in ps: ctx.ob("value", "%s, %s" % (f.base, t), p.ret is not None and p.ret == old and not gain(p, O), where(f), "returns %s, %d references taken" % (show(p.ret) if p.ret else "nothing", gain(p, O)))
        for given in (N, NULL):
            g = "given an object" if given is N else "given nothing"
            for nm, own in (("dex_value_take_object", 0), ("dex_value_set_object", 1)):
                f, ps = run1("writing", nm, old, None, args={1: given})
                for p in ps:
                    inner = pcalls(p, "dex_value_take_object", "dex_value_set_object")
                    ok = [e for e in inner if e.args[0] == V and unref_strip(e.args[1]) == given]
                    x = last_store(p, V)
                    ctx.ob("value", "%s, %s, %s: the value" % (f.base, t, g), ok and len(inner) == 1 and x is None or not inner and x is not None and unref_strip(x) == given, where(f), "the value holds %s afterwards" % (show(x) if x else "what it held before"))
                    tk = sum(1 for e in ok if e.name.endswith("set_object"))
                    if given is N: ctx.ob("value", "%s, %s, %s: reference" % (f.base, t, g), gain(p, N) + tk == own and rel(p, N, V, old) == 0, where(f), "takes %d references instead of %d" % (gain(p, N) + tk, own))
                    if old is O and not inner: ctx.ob("value", "%s, %s, %s: the former one" % (f.base, t, g), rel(p, O, V, old) == 1, where(f), "releases what the value held %d times" % rel(p, O, V, old))
    f, ps = run1("initialising", tab["init"], None, None)
    for p in ps: ctx.ob("value", f.base, last_store(p, V) == NULL or pcalls(p, "llvm.memset"), where(f), "a fresh value is not empty")
    A2, A0 = ("a", 2), ("a", 0)
    for given in (N, NULL):
        f, ps = run1("collecting", tab["collect"], None, None, extra=lambda a: given if root_of(canon(a)) == A2 else tok("class") if root_of(canon(a)) == N and last_field(canon(a)) and last_field(canon(a))[1] == "g_class" else None)
        for p in ps:
            x = last_store(p, V)
            ctx.ob("value", "%s, %s" % (f.base, "an object" if given is N else "nothing"), p.ret is not None and is0(p.ret) and x is not None and unref_strip(x) == given and gain(p, N) == (1 if given is N else 0), where(f), "the value holds %s and took %d references" % (show(x) if x else "nothing", gain(p, N)))
    LOC = tok("location"); NOCOPY = 1 << 27
    for old in (O, NULL):
        for fl in (0, NOCOPY):
            f, ps = run1("copying out", tab["lcopy"], old, None, extra=lambda a: LOC if root_of(canon(a)) == A2 else None, args={3: fl})
            for p in ps:
                st = [e.args[1] for e in p.events if e.kind == "store" and canon(e.args[0]) == LOC]
                ctx.ob("value", "%s, %s%s" % (f.base, "an object" if old is O else "nothing", ", not copied" if fl else ""), len(st) == 1 and unref_strip(st[0]) == old and gain(p, O) == (1 if old is O and not fl else 0), where(f), "hands out %s with %d references" % (", ".join(show(x) for x in st) or "nothing", gain(p, O)))
    ctx.count("value_paths", n)

def used_as(e, x):
    st = [a for a in e[2] or () if isinstance(a, tuple)] + ([e[3]] if isinstance(e[3], tuple) else [])
    while st:
        t = st.pop()
        if t[0] == "f" and t[1] == x: yield t[2]
        st.extend(y for y in t[1:] if isinstance(y, tuple))

def alias_root(c):
    while isinstance(c, tuple) and c[0] in ("f", "ix", "ld"): c = c[1]
    return c
