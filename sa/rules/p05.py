"""one global lock order"""
from spec import *
from effects import *
import engine

OBJ = "_DexObject.mutex"
READERS = ("dex_future_get_status", "dex_future_get_value", "dex_future_is_resolved", "dex_future_is_rejected", "dex_future_is_pending")
SHARED_REF = ("dex_scheduler_ref_thread_default",)

def run(ctx):
    ctx.rule("acyclic", "the relation 'held while acquiring' between classes of locks, taken over all calls and their callees, has no cycle")
    ctx.rule("one-object", "no second object of the same kind is locked while one is locked, except for reading a completed future from propagate() and for registering a weak reference to the dependent being attached")
    for cfg in ("main", "fallback"):
        P = ctx.prog(cfg); E = Effects(P)
        propagates = set(P.vtables().get(("_DexFutureClass", "propagate"), {}).values())
        edges = {}
        def edge(a, b, wit): edges.setdefault((a, b), wit)
        for f in roots(P):
            def on(e, held, st):
                if e.kind != "call": return
                h = locks_in(held)
                if not h: return
                hl = sorted({lock_label(x[0]) if x[0][0] != "all" else x[0][1] for x in h})
                n = e.name
                if n in LOCKS:
                    if LOCKS[n] == "t": return
                    l = lock_label(e.args[0]); a = norm(e.args[0])
                    for x in h:
                        xl = lock_label(x[0]) if x[0][0] != "all" else x[0][1]
                        ctx.count("nested_acquisitions")
                        if x[0] == ("all", l): continue
                        if xl == l: 
                            if e.inst.id in lockall(f): continue
                            ctx.ob("one-object", "%s in %s" % (l, f.base), is_fresh(e.args[0]), where(f, e), "a second %s is locked while one is held" % l)
                        else: edge(xl, l, (f, e, []))
                    return
                if n in UNLOCKS or n.startswith("*"): return
                fn = P.funcs.get(e.inst.f[1]) if e.inst.f[0] == "g" else None
                if fn is None or fn.decl: return
                if fn.base == "dex_unref" : return          # never the last reference under a lock: decided by P04
                for l, w in E.acquires.get(fn.name, {}).items():
                    if l == "?": continue
                    for xl in hl:
                        ctx.count("nested_acquisitions")
                        if xl == l:
                            ok = fresh_target(e)
                            if l == OBJ:
                                if fn.base in READERS and f.name in propagates and e.args[0] == ("a", 1): ok = True
                                if fn.base == "dex_weak_ref_init" and f.base == "dex_future_chain" and e.args[1] == ("a", 1): ok = True
                            ctx.ob("one-object", "%s via %s in %s" % (l, fn.base, f.base), ok, where(f, e), "%s (%s) locks a %s while one is held" % (fn.base, " -> ".join(w), l))
                        elif not (fresh_target(e) and l == OBJ): edge(xl, l, (f, e, [fn.base] + w))
            try: observe(P, f, on, loads=False)
            except engine.Limit as x: ctx.skipped.append(str(x))
            ctx.count("functions_analysed")
        # cycles
        adj = {}
        for a, b in edges: adj.setdefault(a, set()).add(b)
        def reach(a, b, seen):
            for c in adj.get(a, ()):
                if c == b: return [c]
                if c in seen: continue
                seen.add(c)
                r = reach(c, b, seen)
                if r: return [c] + r
            return None
        for (a, b), (f, e, w) in sorted(edges.items(), key=lambda x: x[0]):
            back = reach(b, a, set())
            ctx.ob("acyclic", "%s before %s" % (a, b), back is None, where(f, e), "%s is acquired (%s) while %s is held, but elsewhere %s is held first: %s" %
                   (b, " -> ".join(w) or "directly", a, b, "; ".join("%s->%s at %s" % (x, y, where(edges[(x, y)][0], edges[(x, y)][1])) for x, y in zip([b] + (back or []), back or []) if (x, y) in edges)))
        ctx.count("lock_order_edges", len(edges))
    ctx.need(ctx.counts.get("lock_order_edges", 0) >= 3, "no nested locking found")

_la = {}
def lockall(f):
    if f not in _la: _la[f] = lock_all_loops(f)[2]
    return _la[f]
