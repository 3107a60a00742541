"""guarded-by: which lock (or none) protects which field.  The table was inferred
from the accesses of the reviewed tree and confirmed by reading; every entry is a
statement about the design, not about a code fragment."""
from lib import *
import engine

OBJ = "obj"          # the object's own DexObject mutex
# struct -> {field: guard};   guard: 'obj' | 'Struct.field' (class of lock) | '.field' (lock in the same structure) | 'const' | 'atomic'
GUARD = {
 "_DexFuture": dict(status=OBJ, resolved=OBJ, rejected=OBJ, chained=OBJ, name=OBJ),
 "_DexFutureSet": dict(n_resolved=OBJ, n_rejected=OBJ, futures="const", n_futures="const", flags="const"),
 "_DexBlock": dict(awaiting=OBJ, callback=OBJ+"!w", callback_data=OBJ+"!w", callback_data_destroy=OBJ+"!w", handled=OBJ, scheduler="const", kind="const"),
 "_DexDelayed": dict(corked=OBJ, future=OBJ),
 "_DexChannel": dict(capacity="const", flags=OBJ, queue=OBJ, recvq=OBJ, sendq=OBJ),
 "_DexSemaphore": dict(counter=OBJ, waiters=OBJ),
 "_DexAsyncPair": dict(cancel_on_discard=OBJ, cancellable="const", info="const", instance="const"),
 "_DexAsyncResult": dict(await_once=".mutex", await_returned=".mutex", future=".mutex", name=".mutex", name_is_static=".mutex", priority=".mutex",
                         callback="const", cancellable="const", main_context="const", source_object="const", tag="const"),
 "_DexPromise": dict(cancellable="const"),
 "_DexTimeout": dict(source=OBJ),
 "_DexObject": dict(weak_refs="obj", ref_count="atomic", weak_refs_watermark="atomic"),
 "_DexWeakRef": dict(next="_DexObject.mutex", prev="_DexObject.mutex", mem_block=".mutex|_DexObject.mutex"),
 "_DexFiber": dict(link="_DexFiberScheduler.mutex", runnable="_DexFiberScheduler.mutex", running="_DexFiberScheduler.mutex", cancelled="atomic",
                   released="_DexFiberScheduler.mutex", stack="_DexFiberScheduler.mutex", stack_size="const"),
 "_DexFiberScheduler": dict(runnable=".mutex", blocked=".mutex", has_initialized=".mutex"),
 "_DexStackPool": dict(stacks=".mutex", max_pool_size="const", min_pool_size="const", stack_size="const", mark_unused="const"),
 "_DexMainScheduler": dict(work_queue=OBJ, aio_context="const", fiber_scheduler="const", main_context="const", work_queue_source="const"),
 "_DexPosixAioContext": dict(completed=".mutex"),
 "_DexUringAioContext": dict(queued=".mutex"),
 "_DexWorkQueue": dict(queue=".mutex", semaphore="const"),
 "_DexThreadPoolWorkerSet": dict(queue=".rwlock"),
 "_DexThreadPoolWorker": dict(set_link="_DexThreadPoolWorkerSet.rwlock!w"),
 "_DexThreadPoolScheduler": dict(fiber_rrobin="atomic"),
 "_DexWorkStealingQueue": dict(array="atomic", bottom="atomic", top="atomic"),
 "_DexWorkStealingArray": dict(C="const", M="const"),
 "_DexUnixSignal": dict(signum="const"),
}

# why an unlocked access is right although the field is normally guarded; keyed by field, decided structurally
MUTATORS = ("g_queue_", "g_value_", "g_clear_error", "llvm.mem", "g_clear_pointer", "g_clear_object")
MUTATORS = ("g_queue_", "g_value_", "g_clear_error", "llvm.mem")

def strip_base(t):
    while isinstance(t, tuple) and t[0] in ("f", "ix"): t = t[1]
    return t

def lock_names(held):
    out = set()
    for h, mode, ev in held:
        if h[0] == "all": out.add(("label", h[1]))
        else: out.add(("label", lock_label(h))); out.add(("addr", h))
    return out

def chain(addr):
    """(struct, field, base) of every member on the access path, innermost first"""
    t = addr
    while isinstance(t, tuple) and t[0] in ("f", "ix"):
        if t[0] == "f": yield t[2], t[3], t[1]
        t = t[1]

def held_ok(guard, struct, base, held, write):
    if "|" in guard: return any(held_ok(g, struct, base, held, write) for g in guard.split("|"))
    for h, mode, ev in locks_in(held):
        if mode == "r" and write: continue
        if h[0] == "all":
            if guard == h[1] or guard == "." + h[1].split(".")[1] and struct == h[1].split(".")[0]: return True
            continue
        if guard == "obj":
            if h == norm(("f", base, "_DexObject", "mutex")): return True
        elif guard.startswith("."):
            if h == norm(("f", base, struct, guard[1:])): return True
        elif lock_label(h) == guard: return True
    return False

def destructors(P):
    """functions that free their first argument, or are handed over as the destructor of a reference counted box"""
    out = set()
    for f in P.defined.values():
        for b in f.blocks:
            for i in b:
                if i.op != "call" or i.f[0] != "g": continue
                if i.f[1] in ("g_free", "g_aligned_free") and i.a and i.a[0] == ["a", 0]: out.add(f.base)
                if i.f[1] == "g_atomic_rc_box_release_full" and len(i.a) > 1 and i.a[1][0] == "g": out.add(P.funcs[i.a[1][1]].base)
    return out

def run(ctx):
    ctx.rule("guarded", "every access to a guarded field happens while holding the lock the table assigns to it (or atomically), unless the object is fresh, unpublished or being destroyed")
    ctx.rule("immutable", "a field fixed at construction is written only while its object is fresh and unpublished, in the initialiser, or in the finaliser")
    seen_fields = set()
    for cfg in ("main", "fallback"):
        P = ctx.prog(cfg)
        dtors = P.finalizers(); inits = P.instance_inits(); destroyers = destructors(P)
        propagates = set(P.vtables().get(("_DexFutureClass", "propagate"), {}).values())
        def settled(f, rt):
            """a future handed to propagate() (or the one a deferred propagation carries) completed before, and a completed future never changes again"""
            if rt == ("a", 1) and (f.name in propagates or f.base == "dex_future_propagate"): return True
            return ld_fld(rt) and rt[1][3] == "completed" and root_of(rt[1]) == ("a", 0)
        for f in roots(P):
            own = f.name in dtors or f.name in inits or f.base in destroyers or f.base.endswith("_init")
            def fields_of(addr):
                for s, fl, base in chain(addr):
                    if s in GUARD:
                        if isinstance(fl, str) and fl.startswith("bits@"):
                            return None      # the engine reports the bit-field itself
                        if fl in GUARD[s]: return s, fl, base, False
                return None
            def access(e, addr, write, held, atomic=False):
                r = fields_of(addr)
                if r is None: return
                s, fl, base, word = r
                g = GUARD[s][fl]
                key = "%s.%s" % (s.lstrip("_"), fl)
                seen_fields.add(key)
                rt = root_of(base)
                ctx.count("guarded_accesses")
                if own and rt == ("a", 0): return
                if g.endswith("!w"):      # written under the lock, read by the one thread that owns the value at that time
                    if not write: return
                    g = g[:-2]
                if s == "_DexFuture" and fl in ("status", "resolved", "rejected") and not write and settled(f, rt): return
                if is_fresh(rt) and not is_pub(held, rt): return
                if g == "atomic":
                    ctx.ob("guarded", "%s in %s" % (key, f.base), atomic, where(f, e), "non-atomic %s of %s" % ("write" if write else "read", key)); return
                if g == "const":
                    if write: ctx.ob("immutable", "%s in %s" % (key, f.base), False, where(f, e), "%s is written after construction" % key)
                    return
                ok = held_ok(g, s, base, held, write)
                lk = {"obj": "the object's own lock"}.get(g, g.lstrip("."))
                ctx.ob("guarded", "%s in %s" % (key, f.base), ok, where(f, e), "%s of %s without holding %s (held: %s)" % ("write" if write else "read", key, lk, ", ".join(labels(held)) or "none"))
            def on(e, held, st):
                if e.kind == "load": access(e, e.args[0], False, held, e.extra is not None)
                elif e.kind == "store": access(e, e.args[0], True, held, e.extra is not None)
                elif e.kind in ("rmw", "cmpxchg"): access(e, e.args[0], True, held, True)
                elif e.kind == "call" and isinstance(e.name, str) and e.name.startswith(MUTATORS):
                    for k, x in enumerate(e.args):
                        if isinstance(x, tuple) and x[0] == "f":
                            access(e, x, not (e.name.startswith("llvm.mem") and k == 1), held)
            try:
                observe(P, f, on, pub=True)
            except engine.Limit as x:
                ctx.skipped.append(str(x))
            ctx.count("functions_analysed")
    total = sum(len(v) for v in GUARD.values())
    ctx.count("guarded_fields_seen", len(seen_fields))
    ctx.need(len(seen_fields) * 2 >= total, "only %d of %d guarded fields are accessed anywhere" % (len(seen_fields), total))
