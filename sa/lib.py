"""helpers shared by the rules"""
import engine
from engine import Event, Path, has_sub, contains, show, NULL, ZERO

LOCKS = {"g_mutex_lock": "x", "g_rw_lock_writer_lock": "x", "g_rw_lock_reader_lock": "r", "g_rec_mutex_lock": "rec", "g_mutex_trylock": "t",
         "g_rw_lock_reader_trylock": "t", "g_rw_lock_writer_trylock": "t"}
UNLOCKS = {"g_mutex_unlock": "x", "g_rw_lock_writer_unlock": "x", "g_rw_lock_reader_unlock": "r", "g_rec_mutex_unlock": "rec"}

def roots(P):
    """functions that are entry points of an analysis: everything that is not
    merely a local helper already inlined into all of its callers"""
    called = set()
    for f in P.defined.values(): called.update(f.callees0)
    out = []
    for f in P.defined.values():
        if f.file and not f.file.startswith("src/"): continue
        if f.file.endswith(".h") and f.local: continue
        if f.local and not f.addr and f.name in called and f.base in P.inlined: continue
        # extern helpers that are not part of the reviewed interface are inlined too
        if not f.local and f.base in P.inlined and f.name in called and not f.addr and f.vis == "hidden": continue
        out.append(f)
    return sorted(out, key=lambda f: (f.file, f.line))

def lock_label(t):
    """class of a lock from its address"""
    while t[0] == "ix": t = t[1]
    if t[0] == "f": return "%s.%s" % (t[2], t[3])
    if t[0] == "g": return "@" + t[1]
    return show(t)

def norm(t):
    """access path: the same path loaded twice is the same path"""
    if not isinstance(t, tuple): return t
    if t and t[0] == "ld": return ("ld", norm(t[1]))
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)

def held_of(trace):
    """multiset (list) of held lock terms after a trace containing the lock events"""
    held = []
    for e in trace:
        if e.kind != "call": continue
        if e.name in LOCKS and LOCKS[e.name] != "t": held.append(e.args[0])
        elif e.name in UNLOCKS and e.args[0] in held: held.remove(e.args[0])
    return held

def where(fn, ev=None):
    return fn.where(ev.inst if ev is not None else None)

def fld(t, struct=None, name=None):
    """is t the address of struct.name"""
    return isinstance(t, tuple) and t[0] == "f" and (struct is None or t[2] == struct) and (name is None or t[3] == name)

def ld_fld(t, struct=None, name=None):
    return isinstance(t, tuple) and t[0] == "ld" and fld(t[1], struct, name)

def call_of(t, *names):
    return isinstance(t, tuple) and t[0] == "call" and (not names or t[1] in names)

def find_sub(t, pred):
    if pred(t): return t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                r = find_sub(x, pred)
                if r is not None: return r
    return None

def lock_all_loops(f):
    """loops that acquire (release) one lock of a class per iteration without the
    opposite operation: 'lock every element of a list' idiom.
    -> ({head: label} acquiring, {head: label} releasing, inst ids inside)"""
    heads = {}
    for b in range(len(f.blocks)):
        for s in f.succ(b):
            if b in f.doms() and f.back_edge(b, s): heads[s] = f.loop_body(s)
    acq, rel, inside = {}, {}, set()
    for h, body in heads.items():
        l = {}; u = {}
        for b in body:
            for i in f.blocks[b]:
                if i.op == "call" and i.f[0] == "g" and (i.f[1] in LOCKS or i.f[1] in UNLOCKS):
                    lab = inst_lock_label(f, i)
                    if lab: (l if i.f[1] in LOCKS else u).setdefault(lab, set()).add(i.id)
        for lab in l:
            if lab not in u: acq[h] = lab; inside |= l[lab]
        for lab in u:
            if lab not in l: rel[h] = lab; inside |= u[lab]
    return acq, rel, inside

def inst_lock_label(f, i):
    o = i.a[0]
    if o[0] == "gep": g = o[2]
    elif o[0] == "i" and f.insts[o[1]].op == "getelementptr": g = f.insts[o[1]].raw["gf"]
    else: return None
    if not g or g[-1][0] == "[]": return None
    return "%s.%s" % (g[-1][0], g[-1][1])

# ------------------------------------------------------------------ lockset
def observe(P, f, on, cap=8, loads=True, want_br=False, maxstates=60000, pub=False):
    """run the abstract execution of f keeping only the set of held locks as the
    property state; on(ev, held, st) is called for every abstract event, held is a
    tuple of (lock term, mode, lock event)"""
    acq, rel, inside = lock_all_loops(f)
    def want(ev, st, eng):
        return True
    def fold(trace, e, st):
        if e.kind == "loop":
            if e.name == "enter" and e.extra in acq: return trace + ((("all", acq[e.extra]), "x", e),)
            if e.name == "enter" and e.extra in rel: return tuple(x for x in trace if x[0] != ("all", rel[e.extra]))
            return trace
        on(e, trace, st)
        if pub:
            n = published(e)
            if n:
                new = tuple((x, "pub", None) for x in n if not any(y[0] == x and y[1] == "pub" for y in trace))
                trace = trace + new
        if e.kind != "call" or e.inst.id in inside: return trace
        if e.name in LOCKS and LOCKS[e.name] != "t":
            a = norm(e.args[0])
            if any(x[0] == a and x[1] != "pub" for x in trace): return trace
            return trace + ((a, LOCKS[e.name], e),)
        if e.name in UNLOCKS:
            a = norm(e.args[0])
            return tuple(x for x in trace if x[0] != a or x[1] == "pub")
        return trace
    e = engine.Engine(P, f, want=want, fold=fold, cap=cap, track_br=want_br, track_store=True, track_load=loads, maxstates=maxstates)
    e.run(None)
    return e

ALLOC = ("dex_object_create_instance", "g_malloc", "g_malloc0", "g_malloc_n", "g_malloc0_n", "g_object_new", "g_source_new", "g_memdup2", "calloc", "malloc", "g_aligned_alloc", "g_aligned_alloc0", "aligned_alloc", "g_slice_alloc", "g_slice_alloc0", "g_atomic_rc_box_alloc0", "g_atomic_rc_box_alloc")

def root_of(t):
    while isinstance(t, tuple) and t[0] in ("f", "ix"): t = t[1]
    return t

def is_fresh(t, fn=None):
    """an object created by this very function (or returned by a constructor)"""
    t = root_of(t)
    if t[0] == "alloca": return True
    return t[0] == "call" and isinstance(t[1], str) and (t[1] in ALLOC or t[1].endswith("_new") or "_new_" in t[1])

PUBLISH = {"dex_future_chain": (1,), "dex_scheduler_push": (2,), "g_source_attach": (0,), "g_queue_push_tail_link": (1,), "g_queue_push_head_link": (1,),
           "g_queue_push_tail": (1,), "g_queue_push_head": (1,), "g_thread_new": (2,), "g_thread_try_new": (2,), "g_ptr_array_add": (1,), "dex_work_queue_push": (2,),
           "g_thread_pool_push": (1,), "g_main_context_invoke_full": (3,), "g_source_set_callback": (2,), "g_cancellable_connect": (2,)}

def published(e):
    """objects that may be seen by other threads after this event"""
    out = []
    if e.kind == "call" and e.name in PUBLISH:
        for k in PUBLISH[e.name]:
            if k < len(e.args):
                r = root_of(e.args[k])
                while r[0] == "call" and r[1] in ("dex_ref", "g_object_ref") and r[2]: r = root_of(r[2][0])
                if r[0] == "call": out.append(r)
    return out

def locks_in(held): return tuple(x for x in held if x[1] != "pub")
def is_pub(held, t): return any(x[1] == "pub" and x[0] == t for x in held)

def labels(held):
    return sorted({(lock_label(x[0]) if x[0][0] != "all" else x[0][1]) for x in held if x[1] != 'pub'})
