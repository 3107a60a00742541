"""ownership ledger: per abstract path, what each reference obtained is given to"""
from spec import *
from engine import show, Limit
import re

# functions returning their argument with one more reference
REF = {"dex_ref": 0, "g_object_ref": 0, "g_source_ref": 0, "g_main_context_ref": 0, "g_atomic_rc_box_acquire": 0, "g_bytes_ref": 0, "g_variant_ref": 0, "g_ptr_array_ref": 0, "dex_work_stealing_queue_ref": 0, "dex_thread_pool_worker_set_ref": 0, "g_object_ref_sink": 0, "g_error_ref": 0}
# functions giving a reference (or allocation) to the caller
NEW = set("""g_error_new g_error_new_literal g_error_new_valist g_error_copy g_source_new g_idle_source_new g_timeout_source_new g_unix_signal_source_new g_main_context_new
 g_main_context_ref_thread_default g_malloc g_malloc0 g_malloc_n g_malloc0_n g_memdup2 g_memdup g_strdup g_strdup_printf g_strconcat g_value_dup_boxed g_value_dup_object g_value_dup_string g_value_dup_variant
 g_ptr_array_new g_ptr_array_new_with_free_func g_ptr_array_new_full g_array_new g_bytes_new g_bytes_new_take g_cancellable_new g_object_new g_main_loop_new g_thread_new g_thread_try_new g_atomic_rc_box_alloc0 g_atomic_rc_box_alloc
 g_list_copy_deep g_aligned_alloc0 g_aligned_alloc g_realloc g_realloc_n realloc g_type_create_instance g_file_read_finish
 dex_object_create_instance dex_weak_ref_get dex_scheduler_ref_thread_default dex_async_result_dup_future dex_delayed_dup_future dex_thread_pool_scheduler_new dex_future_new_infinite
 io_uring_cqe_get_data dex_await_boxed dex_await_object dex_await_variant dex_await_string""".split())
NEWRE = re.compile(r"^(g_.*_finish|dex_.*_new(_.*)?)$")
NOTNEW = {"dex_async_pair_new_x", "dex_fd_peek", "g_subprocess_wait_check_finish", "g_file_copy_finish", "g_file_make_directory_finish", "g_file_load_contents_finish", "g_output_stream_close_finish", "g_input_stream_close_finish", "g_io_stream_close_finish",
          "g_input_stream_read_finish", "g_input_stream_skip_finish", "g_output_stream_write_finish", "g_output_stream_splice_finish"}
# functions consuming arguments
EAT = {"dex_unref": (0,), "g_object_unref": (0,), "g_free": (0,), "g_error_free": (0,), "g_source_unref": (0,), "g_main_context_unref": (0,), "g_main_loop_unref": (0,), "g_bytes_unref": (0,), "g_variant_unref": (0,),
       "g_ptr_array_unref": (0,), "g_ptr_array_free": (0,), "g_slice_free1": (1,), "g_list_free_full": (0,), "g_thread_join": (0,), "g_thread_unref": (0,), "g_atomic_rc_box_release_full": (0,), "g_atomic_rc_box_release": (0,), "g_aligned_free": (0,), "free": (0,), "g_realloc": (0,), "g_realloc_n": (0,), "realloc": (0,), "io_uring_sqe_set_data": (1,),
       "g_type_free_instance": (0,), "dex_work_stealing_queue_unref": (0,), "dex_thread_pool_worker_set_unref": (0,),
       "dex_await": (0,), "dex_await_borrowed": (), "dex_future_disown": (0,), "dex_block_new": (0,), "dex_future_then": (0,), "dex_future_catch": (0,), "dex_future_finally": (0,), "dex_future_then_loop": (0,), "dex_future_catch_loop": (0,), "dex_future_finally_loop": (0,),
       "dex_channel_send": (1,), "dex_async_result_await": (1,), "dex_future_new_for_error": (0,), "dex_future_new_take_string": (0,), "dex_future_new_take_boxed": (1,), "dex_future_new_take_variant": (0,), "dex_future_new_take_object": (0,),
       "dex_promise_reject": (1,), "dex_promise_resolve_string": (1,), "dex_promise_resolve_object": (1,), "dex_promise_resolve_variant": (1,), "dex_promise_resolve_boxed": (2,), "dex_value_take_object": (1,),
       "dex_async_pair_return_object": (1,), "dex_async_pair_return_error": (1,), "dex_async_pair_return_string": (1,), "dex_async_pair_return_boxed": (2,), "dex_async_pair_return_variant": (1,),
       "g_value_take_object": (1,), "g_value_take_boxed": (1,), "g_value_take_string": (1,), "g_value_take_variant": (1,), "g_ptr_array_add": (1,), "g_bytes_new_take": (0,), "g_propagate_error": (1,), "g_task_return_error": (1,),
       "dex_future_complete": (2,), "dex_future_new_for_error_": (),}
VAREAT = {"dex_future_all", "dex_future_any", "dex_future_first", "dex_future_all_race"}
CLEAR = {"g_clear_error": 0, "g_clear_pointer": 0, "g_clear_object": 0, "dex_clear": 0}
for k in ("pointer", "fd", "int", "uint", "int64", "uint64", "double", "float", "boxed", "variant", "object", "boolean", "string", "enum", "flags"): EAT["dex_await_" + k] = (0,)

class At(str):
    """a source position that remembers the instruction"""
    inst = None
def at(f, e):
    s = At(where(f, e)); s.inst = e.inst.id if e.inst is not None else None
    return s

class AllFields:
    locals = True
    def __contains__(self, x): return True
ALL = AllFields()

def alias(t):
    while isinstance(t, tuple):
        if t[0] == "call" and t[1] in REF: t = t[2][REF[t[1]]]
        else: break
    return t

def last_field(a):
    """(structure, field) an address finally names, array elements included"""
    while isinstance(a, tuple):
        if a[0] == "f": return (a[2], a[3])
        if a[0] == "ix":
            b = a[1]
            if b[0] == "ld": a = b[1]
            else: a = b
            continue
        return None
    return None

KNOWNNULL = (NULL, ZERO)
FULL = set("""dex_aio_read dex_aio_write dex_channel_send dex_channel_receive dex_channel_receive_all dex_future_then dex_future_then_loop dex_future_catch_loop dex_future_finally_loop dex_future_catch dex_future_finally
 dex_future_all dex_future_any dex_future_all_race dex_future_first dex_future_firstv dex_future_anyv dex_future_all_racev dex_future_allv dex_input_stream_read_bytes dex_output_stream_write_bytes dex_file_read dex_file_replace
 dex_input_stream_read dex_input_stream_skip dex_output_stream_write dex_output_stream_close dex_input_stream_close dex_output_stream_splice dex_file_query_info dex_file_make_directory dex_file_enumerate_children
 dex_file_enumerator_next_files dex_file_copy dex_socket_listener_accept dex_socket_client_connect dex_io_stream_close dex_resolver_lookup_by_name dex_file_load_contents_bytes dex_dbus_connection_send_message_with_reply
 dex_dbus_connection_call dex_dbus_connection_call_with_unix_fd_list dex_bus_get dex_subprocess_wait_check dex_file_query_exists dex_scheduler_spawn""".split())
FREES = ("g_free", "g_slice_free1", "g_type_free_instance", "g_aligned_free", "free", "g_atomic_rc_box_release_full", "g_atomic_rc_box_release", "*_DexObjectClass.finalize", "*_GObjectClass.finalize", "g_source_destroy_")
DEALLOC = ("g_free", "g_slice_free1", "g_type_free_instance", "g_aligned_free", "free")
RELEASE = ("dex_unref", "g_object_unref", "g_free", "g_error_free", "g_source_unref", "g_main_context_unref")
POPLINK = ("g_queue_pop_head_link", "g_queue_pop_tail_link"); POP = ("g_queue_pop_head", "g_queue_pop_tail")
PUSHLINK = ("g_queue_push_head_link", "g_queue_push_tail_link"); UNLINK = ("g_queue_unlink",)

def link_owner(a):
    """the item an embedded list link belongs to"""
    if isinstance(a, tuple) and a[0] == "f" and a[2] not in ("GList", "_GList"): return a[1]
    return None

def reachable(f, b):
    seen = set(); work = list(f.succ(b))
    while work:
        k = work.pop()
        if k not in seen: seen.add(k); work.extend(f.succ(k))
    return seen

def through(a, call):
    """the object an address lies in"""
    while isinstance(a, tuple) and a[0] in ("f", "ix"): a = a[1]
    return a if isinstance(a, tuple) and a[0] in ("a", "ld", "call", "tok") else None

class Ledger:
    """replays one path: bal[resource] = references obtained minus given away"""
    def __init__(self, L, fn, path):
        self.L = L; self.bal = {}; self.why = {}; self.slot = {}; self.epoch = {}; self.moved = set(); self.freed = []; self.outs = {}; self.links = set(); self.insl = {}; self.loc = {}; self.lval = {}; self.arr = set(); self.seen = set(); self.stolen = {}; self.lastld = {}; self.fuzzy = 0; self.dead = {}
        self.kind, self.ret, self.events, self.facts = path
        self.fn = fn; self.gone = {}; self.misuse = []
        for ev in self.events: self.step(*ev)
        self.leaving = self.res(self.ret) if self.ret is not None and self.ret not in KNOWNNULL else None
        self.known = {}
        for l, v in self.facts.items():
            if l[0] == "eq" and l[2] in KNOWNNULL:
                self.known[self.res(l[1])] = v
                if l[1][0] == "phi" and v: self.fuzzy += 1
        for r, (name, call) in list(self.outs.items()):
            # GLib convention: an error was set, so there is no result
            if self.known.get(r) is False and call is not None and name.endswith("_finish"): self.known.setdefault(call, True)
            elif call is not None and self.known.get(call) is True and name == "dex_future_get_value": self.known.setdefault(r, False)

    def null(self, t): return t in KNOWNNULL or self.known.get(t) is True
    def nonnull(self, t): return self.known.get(t) is False

    def res(self, t):
        """the resource a value stands for"""
        t = alias(t)
        if isinstance(t, tuple) and t[0] == "ld":
            if t in self.slot: return self.slot[t]
            c = canon(t[1]); r = self.slot[t] = ("slot", c, self.epoch.get(c, 0)); return r
        return t

    def feasible(self):
        """a link popped from a queue carries an item"""
        return not any(r[0] == "slot" and self.known.get(r) for r in self.links)

    def balance(self, r):
        """references of r left over: what went into a slot and out again with its container counts as given away once"""
        b = self.bal.get(r, 0)
        for c, ep in self.insl.get(r, ()):
            if b < 0 and self.released_slot(("slot", c, ep)): b += 1
        return b

    def released_slot(self, r):
        if r in self.moved: return True
        t = r[1]
        while isinstance(t, tuple) and t[0] in ("f", "ix", "ld"):
            t = t[1]
            if any(canon(x) == t for x in self.freed): return True
        return False

    def add(self, r, n, w, what):
        if not isinstance(r, tuple) or r[0] not in ("call", "slot", "a", "tok"):
            if isinstance(r, tuple) and r[0] in ("phi", "sel", "op", "i") and n < 0: self.fuzzy += 1
            return
        self.bal[r] = self.bal.get(r, 0) + n
        self.why.setdefault(r, []).append((n, w, what))

    def eat(self, v, w, what):
        if v in KNOWNNULL: return
        self.add(self.res(v), -1, w, what)

    def over(self, c):
        self.moved.add(("slot", c, self.epoch.get(c, 0))); self.epoch[c] = self.epoch.get(c, 0) + 1

    def step(self, kind, name, args, res, w, rt=None):
        L = self.L
        if self.dead or self.gone:
            # what is read or written through an address inside something already released
            for a in (args[:1] if kind in ("load", "store") else args if kind == "call" and not str(name).startswith("llvm.lifetime") else ()):
                if kind == "load" and isinstance(res, tuple) and res[0] == "ld": a = res[1]
                x = through(a, kind == "call")
                if x is not None:
                    if x in self.gone and self.gone[x] != w and self.L.after(self.fn, self.gone[x], w, x): self.misuse.append((x, w, "access after it was freed")); continue
                    r = self.res(x)
                    if kind != "call" and self.dead.get(r) is not None and self.L.after(self.fn, self.dead[r], w, r): self.misuse.append((r, w, "access after its last reference was released"))
        if kind == "load":
            if isinstance(res, tuple) and res[0] == "ld":
                self.seen.add(self.res(res)); self.lastld[canon(res[1])] = res
        elif kind == "store":
            a, v = args[0], args[1]
            lf = last_field(a); c = canon(a); rv = self.res(v) if isinstance(v, tuple) else v
            rt = root_of(a)
            if lf in L.owning:
                r = ("slot", c, self.epoch.get(c, 0))
                if (r in self.seen or v in KNOWNNULL and a[0] == "f" and root_of(a)[0] in ("a", "ld")) and v != self.lastld.get(c): self.stolen.setdefault(r, w)
            if a[0] == "alloca":
                self.over(c); self.lval[a] = v
            elif rt[0] == "g" or a[0] in ("a", "call") or a[0] in ("f", "ix") and lf is None and rt[0] != "alloca":
                if self.bal.get(rv, 0) > 0: self.eat(v, w, "stored in %s" % show(a))
                self.over(c)
            elif rt[0] == "alloca":
                if lf: self.loc.setdefault(rt, {})[lf] = v
                elif a[0] == "ix" and self.bal.get(rv, 0) > 0: self.arr.add(rv)
                self.over(c)
            elif lf in L.owning and rt != rv and v not in KNOWNNULL:
                self.over(c); self.eat(v, w, "stored in %s" % show(a)); self.insl.setdefault(rv, []).append((c, self.epoch[c]))
            else: self.over(c)
        elif kind == "call":
            if name in REF: self.add(self.res(args[REF[name]]), 1, w, name); return
            ptr = rt in (None, "ptr")
            if res is not None and ptr and L.news(name): self.add(alias(res), 1, w, name)
            if name in POP and res is not None: self.add(alias(res), 1, w, name)
            if name in POPLINK and res is not None:
                r = ("slot", canon(("f", res, "_GList", "data")), 0); self.links.add(r); self.add(r, 1, w, name); self.links.add(res)
            if name in PUSHLINK:
                o = link_owner(args[1])
                if o is not None: self.eat(o, w, name)
                else:
                    for r in list(self.links):
                        if r[0] == "slot" and r[1][1] == canon(args[1]): self.add(r, -1, w, name)
            if name in UNLINK:
                o = link_owner(args[1])
                if o is not None: self.add(self.res(o), 1, w, name)
            if name in ("g_memdup2", "g_memdup") and args[0][0] == "alloca":
                for lf, v in self.loc.get(args[0], {}).items():
                    if lf in L.owning: self.eat(v, w, "copied with %s.%s" % lf)
            if self.dead:
                for a in args:
                    r = alias(a) if isinstance(a, tuple) else None
                    r = root_of(r) if r is None or self.res(r) not in self.dead else self.res(r)
                    if r in self.dead and self.dead[r] is not None: self.misuse.append((r, w, name))
            for i in L.eats(name, args):
                if name in ("g_once_init_leave", "g_once_init_leave_pointer") and self.bal.get(self.res(args[i]), 0) <= 0: continue
                if i < len(args):
                    self.eat(args[i], w, "%s argument %d" % (name, i))
                    r = self.res(args[i])
                    if name in RELEASE and isinstance(r, tuple) and (r[0] == "call" or r[0] == "slot" and self.why[r][0][0] > 0) and self.bal.get(r) == 0 and not any(x[2].startswith(("stored", "copied")) or "push" in x[2] for x in self.why.get(r, ())): self.dead[r] = w
            if name in CLEAR:
                c = canon(args[CLEAR[name]])
                if args[CLEAR[name]] in self.lval: self.eat(self.lval.pop(args[CLEAR[name]]), w, name)
                else: self.add(("slot", c, self.epoch.get(c, 0)), -1, w, name); self.over(c)
            elif not name.startswith("llvm."):
                for a in args:
                    if isinstance(a, tuple) and a[0] == "alloca":
                        c = canon(a); self.over(c); self.lval.pop(a, None)
                        self.outs[("slot", c, self.epoch[c])] = (name, alias(res) if res is not None else None)
            if name in FREES and args:
                self.freed.append(args[0])
                if name in DEALLOC:
                    x = args[1] if name == "g_slice_free1" else args[0]
                    if isinstance(x, tuple) and x[0] in ("a", "ld", "call", "tok"): self.gone[x] = w

DBUS = ("g_dbus_connection_call", "g_dbus_connection_call_with_unix_fd_list", "g_dbus_connection_send_message_with_reply", "g_bus_get")

DESTROY = {"g_source_set_callback": 3, "dex_block_new": 5, "dex_future_then": 3, "dex_future_catch": 3, "dex_future_finally": 3, "dex_future_then_loop": 3, "dex_future_catch_loop": 3, "dex_future_finally_loop": 3, "dex_scheduler_spawn": 4, "dex_fiber_new": 2, "g_cancellable_connect": 3}

class Owners:
    def __init__(self, P): self.P = P; self.owning = set(); self.infer = {}; self.cb = {}
    def after(self, fn, first, then, x):
        """can the second instruction follow the first without x being obtained anew in between"""
        f = self.P.funcs[fn]; a, b = getattr(first, "inst", None), getattr(then, "inst", None)
        if a not in f.insts or b not in f.insts: return False
        st = [x]; avoid = set(); mem = False
        while st:
            t = st.pop()
            if t[0] == "call" and len(t) > 3: avoid.add(t[3])
            if t[0] == "alloca": return False
            if t[0] == "ld": mem = True
            st.extend(y for y in t[1:] if isinstance(y, tuple) and y and isinstance(y[0], str))
        A, B = f.insts[a], f.insts[b]
        def clear(bb, lo, hi): return not any(i.id in avoid for i in f.blocks[bb][lo:hi])
        ia, ib = [i.id for i in f.blocks[A.bb]].index(a), [i.id for i in f.blocks[B.bb]].index(b)
        if A.bb == B.bb and ia < ib: return clear(A.bb, ia + 1, ib)
        if not clear(A.bb, ia + 1, None): return False
        seen = set(); work = list(f.succ(A.bb))
        while work:
            k = work.pop()
            if k == B.bb and clear(k, 0, ib):
                # a value read from memory may be another one the next time round
                return not (mem and not avoid and A.bb in reachable(f, B.bb))
            if k in seen or not clear(k, 0, None): continue
            seen.add(k); work.extend(f.succ(k))
        return False
    def callbacks(self, name, args):
        """(callback, parameter that receives the data given away with it)"""
        n = len(args); out = []
        if (name.startswith("g_") and (name.endswith("_async") or name in DBUS) or name == "*_DexAsyncPairInfo.async") and n > 2 and args[n - 1] not in KNOWNNULL: out.append((args[n - 2], 2))
        if name == "g_thread_new" and args[2] not in KNOWNNULL: out.append((args[1], 0))
        if name == "dex_scheduler_push" and args[2] not in KNOWNNULL: out.append((args[1], 0))
        # destroy notifies
        for nm, d in DESTROY.items():
            if name == nm and n > d and args[d - 1] not in KNOWNNULL: out.append((args[d], 0))
        return out
    def news(self, name):
        if name in NOTNEW: return False
        if name in NEW or name in FULL or NEWRE.match(name) or name in ("*_DexBlock.callback", "*_DexFiber.func", "*_DexAioBackendClass.create_context"): return True
        return self.infer.get(name, {}).get("ret") == 1
    def eats(self, name, args):
        if name in EAT: out = list(EAT[name])
        elif name in VAREAT: out = list(range(len(args)))
        elif name in self.cb: out = [self.cb[name]]
        else: out = [i for i, n in self.infer.get(name, {}).get("args", {}).items() if n == 1]
        n = len(args)
        if name == "g_source_set_callback" and n == 4 and args[3] not in KNOWNNULL: out.append(2)
        if name == "g_cancellable_connect" and args[-1] not in KNOWNNULL: out.append(2)
        if name.startswith("g_") and (name.endswith("_async") or name in DBUS): out.append(n - 1)
        if name in ("*_DexAsyncPairInfo.async",): out.append(n - 1)
        if name == "g_thread_new": out.append(2)
        if name in ("g_thread_pool_push",): out.append(1)
        if name in ("g_once_init_leave", "g_once_init_leave_pointer"): out.append(1)
        if name == "dex_scheduler_set_default": out.append(0)
        if name == "dex_block_new" and n > 5 and args[5] not in KNOWNNULL: out.append(4)
        if name in ("dex_future_then", "dex_future_catch", "dex_future_finally", "dex_future_then_loop", "dex_future_catch_loop", "dex_future_finally_loop") and n > 3 and args[3] not in KNOWNNULL: out.append(2)
        if name == "dex_fiber_new" and args[2] not in KNOWNNULL: out.append(1)
        if name == "dex_scheduler_spawn" and n > 4 and args[4] not in KNOWNNULL: out.append(3)
        if name in ("dex_scheduler_push",): out.append(2)
        if name in ("g_queue_push_tail", "g_queue_push_head", "g_private_set", "g_private_replace"): out.append(1)
        return out

def nullfact(l): return l[0] == "eq" and l[2] == NULL and l[1][0] in ("call", "ld", "phi", "a")

def _paths(P, f, maxstates=60000):
    try:
        return [(p.kind, p.ret, [(e.kind, e.name, e.args, e.res, at(f, e), e.inst.raw.get("t") if e.inst is not None else None)
                 for e in p.events if not (e.kind == "call" and (e.name in ("g_mutex_lock", "g_mutex_unlock") or e.name.startswith("llvm.")))], dict(p.facts))
                for p in table(P, f, K=1, loads=ALL, locs=True, maxstates=maxstates, keepfact=nullfact)]
    except Limit: return None

_P = None
def _work(name):
    f = _P.funcs[name]
    return name, _paths(_P, f)

def enumerate_all(P, names, procs=8):
    """{function: paths or None}, computed in parallel"""
    import multiprocessing as mp
    global _P; _P = P
    with mp.get_context("fork").Pool(procs) as pool: return dict(pool.map(_work, names, chunksize=4))

def split(ctx, P, R):
    """a function with more paths than the bound, once more with the local functions it is made of kept apart: each is
    enumerated by itself, and what it does with references is inferred as for any other function"""
    import build, os, tempfile
    from ir import Program
    big = [n for n in R if R[n] is None]
    more = {n: {P.funcs[c].base for c in P.funcs[n].callees0 if c in P.funcs and not P.funcs[c].decl and P.funcs[c].base in P.inlined} for n in big}
    extra = sorted(set().union(*more.values())) if more else []
    if not extra: return
    with tempfile.TemporaryDirectory(prefix="sa-keep-") as d:
        k = os.path.join(d, "keep.txt")
        with open(k, "w") as o: o.write(open(os.path.join(build.HERE, "keep.txt")).read() + "\n".join(extra) + "\n")
        P2 = Program(build.build("main", keep=k))
    todo = {b for n in big for b in more[n]} | {P.funcs[n].base for n in big if more[n]}
    for n in big:
        if more[n]: del R[n]
    for b in sorted(todo):
        for f in P2.by_base.get(b, []):
            if not f.file.startswith("src/") or f.file.endswith(".h"): continue
            P.funcs[f.name] = f; R[f.name] = _paths(P2, f)
