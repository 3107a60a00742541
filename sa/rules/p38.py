"""P38: values are defined before they are used, and nothing keeps the address of a local beyond its function"""
from spec import *
from engine import show, Limit
from lib import roots
import own
import multiprocessing as mp

# what initialises the memory it is given
KEEPERS = {"g_queue_push_tail": 1, "g_queue_push_head": 1, "g_queue_push_tail_link": 1, "g_queue_push_head_link": 1, "g_ptr_array_add": 1, "g_thread_pool_push": 0, "g_private_set": 1, "g_private_replace": 1, "g_source_set_callback": 2, "g_task_set_task_data": 1, "g_object_set_data": 2, "g_list_append": 1, "g_list_prepend": 1, "io_uring_sqe_set_data": 1, "dex_scheduler_push": 2, "dex_scheduler_spawn": 3, "dex_fiber_new": 1}

READERS = ("g_queue_", "g_clear_", "dex_clear", "g_value_", "g_mutex_lock", "g_mutex_clear", "g_cond_")
WRITERS = ("g_queue_init", "g_value_init_", "g_cond_init")

_err = {}
def errarg(P, nm, i, n):
    """is argument i a GError** (its target has to be NULL)"""
    if nm not in _err:
        _err[nm] = {k - 1 for f in P.funcs.values() if f.base == nm for k, t in enumerate(f.ptypes) if "GError**" in str(t).replace(" ", "")}
    return i in _err[nm] or i == n - 1 and nm.endswith("_finish") or i == 0 and nm.startswith("g_set_error")

def undef(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and x[0] == "u": return True
            if x and x[0] == "ins":         # an aggregate put together piece by piece starts out as nothing
                st.append(x[3])
                if x[1][0] != "u": st.append(x[1])
                continue
            st.extend(x[1:] if x and isinstance(x[0], str) else x)
    return False

def base(a):
    """the local an address lies in"""
    while isinstance(a, tuple) and a[0] in ("f", "ix"): a = a[1]
    return a if isinstance(a, tuple) and a[0] == "alloca" else None

def local_in(t):
    """locals whose address is (part of) a value: through pointer arithmetic only, not through what was loaded from them"""
    return base(t)

_P = None
def _scan(name):
    P = _P; f = P.funcs[name]
    try: ps = table(P, f, K=1, loads=own.ALL, locs=True, maxstates=60000)
    except Limit: return name, None, 0
    bad = {}; npaths = 0; nread = nsto = 0
    def kept(name, args):
        out = [KEEPERS[name]] if name in KEEPERS else []
        n = len(args)
        if name.startswith("g_") and name.endswith("_async") and n > 2: out.append(n - 1)
        return out
    for p in ps:
        if misuse(p): continue
        npaths += 1
        given = set(); whole = set(); left = {}
        for e in p.events:
            if e.kind in ("load",):
                a = e.args[0] if e.args else None
                if isinstance(e.res, tuple) and e.res[0] == "ld": a = e.res[1]
                b = base(a)
                if b is not None:
                    nread += 1
                    if b not in whole and canon(a) not in given and not any(canon(a) == g or inside(a, g) or inside(g, a) for g in given):
                        bad.setdefault(("init", show(a), "reads"), (where(f, e), "%s is read before it was given a value" % show(a)))
            elif e.kind in ("store", "rmw", "cmpxchg"):
                a, v = e.args[0], e.args[1]; b = base(a)
                if b is not None and v[0] == "u": continue
                if b is not None: given.add(canon(a))
                if undef(a): bad.setdefault(("init", "address", "store"), (where(f, e), "stores through an address never computed"))
                r = root_of(a)
                if local_in(v) is not None:
                    if b is None and e.kind == "store": nsto += 1; left[canon(a)] = (local_in(v), where(f, e), show(a), r)
                elif canon(a) in left: del left[canon(a)]
                # the lists a local is in are known through its own fields
            elif e.kind == "call":
                nm = str(e.name)
                if nm.startswith("llvm.lifetime") or nm.startswith("llvm.dbg"): continue
                for i, a in enumerate(e.args):
                    if undef(a): bad.setdefault(("init", nm, i), (where(f, e), "argument %d of %s has never been given a value" % (i, nm)))
                    b = base(a)
                    if b is not None:
                        if i == 0 and nm.startswith(READERS) and nm not in WRITERS or errarg(P, nm, i, len(e.args)):
                            nread += 1
                            if b not in whole and canon(a) not in given and not any(inside(canon(a), g) or inside(g, canon(a)) or g == canon(a) for g in given):
                                bad.setdefault(("init", show(a), nm), (where(f, e), "%s looks at %s, which was not given a value" % (nm, show(a))))
                        whole.add(b)
                for i in kept(nm, e.args):
                    if i < len(e.args) and local_in(e.args[i]) is not None and not (e.args[0] is not None and base(e.args[0]) is not None):
                        bad.setdefault(("escape", nm, i), (where(f, e), "%s keeps the address of a local" % nm))
        for l in p.facts:
            if undef(l): bad.setdefault(("init", "condition", ""), (where(f), "a condition depends on a value never computed"))
        if p.kind == "ret":
            if p.ret is not None and undef(p.ret): bad.setdefault(("init", "result", ""), (where(f), "returns a value never computed"))
            if p.ret is not None and local_in(p.ret) is not None: bad.setdefault(("escape", "result", ""), (where(f), "returns the address of a local"))
            for c, (b, w, sh, r) in left.items(): bad.setdefault(("escape", sh, ""), (w, "%s still holds the address of a local when the function returns" % sh))
    return name, bad, (npaths, nread, nsto)

def inside(a, b):
    while isinstance(a, tuple) and a[0] in ("f", "ix"):
        a = a[1]
        if canon(a) == b: return True
    return False

def run(ctx):
    global _P
    P = _P = ctx.prog("uninit")
    ctx.rule("init", "on every path, a value is computed or stored before it is read, passed, compared or returned")
    ctx.rule("escape", "on every path, an address of a local given to longer-lived memory is taken back before the function returns; it is never returned or handed to what keeps it")
    fs = [f.name for f in P.defined.values() if "class_intern_init" not in f.name]
    with mp.get_context("fork").Pool(8) as pool: R = pool.map(_scan, fs, chunksize=4)
    for n, bad, cnt in R:
        f = P.funcs[n]
        if bad is None: ctx.skipped.append(f.base); continue
        ctx.count("functions"); ctx.count("abstract_paths", cnt[0]); ctx.count("reads_of_locals", cnt[1]); ctx.count("addresses_of_locals_stored", cnt[2])
        for rule in ("init", "escape"):
            b = {k: v for k, v in bad.items() if k[0] == rule}
            if not b: ctx.ob(rule, f.base, True, where(f), "")
            for k, (w, msg) in sorted(b.items(), key=str): ctx.ob(rule, "%s: %s %s" % (f.base, k[1], k[2]), False, w, msg)
