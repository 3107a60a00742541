"""whole-program effect summaries over the (partially inlined) call graph"""
from lib import *
import engine

# external functions that run code the library does not control, synchronously in the caller
EXT_USER = {"g_cancellable_cancel", "g_object_unref", "g_clear_object", "g_signal_emit", "g_signal_emit_by_name", "g_main_context_iteration", "g_main_loop_run", "g_main_context_dispatch",
            "g_main_context_invoke", "g_main_context_invoke_full", "g_source_destroy", "g_object_notify", "g_object_set", "g_object_run_dispose", "g_object_set_property", "g_closure_invoke",
            "g_cancellable_connect", "g_cancellable_disconnect", "g_source_remove"}
# external functions that may block the calling thread
EXT_BLOCK = {"g_thread_join", "g_cond_wait", "g_cond_wait_until", "poll", "ppoll", "select", "usleep", "g_usleep", "sleep", "nanosleep", "sem_wait", "pthread_join", "waitpid",
             "io_uring_wait_cqe", "io_uring_submit_and_wait", "__io_uring_get_cqe", "swapcontext", "g_async_queue_pop", "pread", "pwrite", "read", "write", "preadv", "pwritev", "readv", "writev",
             "g_main_context_wait", "pread64", "pwrite64", "sched_yield", "g_thread_yield", "eventfd_read"}
# external functions that only remember the callback they are given
EXT_STORES_CB = {"g_thread_new", "g_thread_try_new", "g_source_set_callback", "g_idle_add", "g_idle_add_full", "g_timeout_add", "g_timeout_add_full", "g_source_new", "g_ptr_array_new_with_free_func",
                 "g_type_register_static_simple", "g_thread_pool_new", "g_private_replace", "g_unix_signal_add_full", "g_object_set_data_full", "g_signal_connect_data", "g_boxed_type_register_static",
                 "g_type_add_interface_static", "g_atomic_rc_box_release_full", "g_main_context_invoke_full", "g_cancellable_connect", "g_bytes_new_with_free_func", "atexit", "g_child_watch_add",
                 "g_array_set_clear_func", "makecontext", "g_ptr_array_set_free_func"}
# slots that are part of the library's own plumbing and never leave it
INTERNAL_SLOTS = {"create_context", "read", "write", "get_main_context", "get_aio_context", "get_default", "class_init", "instance_init"}

class Effects:
    def __init__(self, P):
        self.P = P
        self.direct = {}        # fn name -> set of (kind, text)
        self.calls = {}         # fn name -> set of callee names
        self.acq = {}           # fn name -> set of lock labels acquired directly
        vt = P.vtables()
        self.slot = {}
        for (S, s), m in vt.items():
            self.slot.setdefault("*%s.%s" % (S, s), set()).update(m.values())
        for f in P.defined.values(): self.scan(f)
        self.user = self.close("user"); self.block = self.close("block")
        self.acquires = self.close_acq()

    def label(self, f, i):
        """callee name or '*Struct.field' / '*'"""
        if i.f[0] == "g":
            g = self.P.funcs.get(i.f[1]); return (g.base if g else i.f[1]), (i.f[1] if g is not None and not g.decl else None)
        o = i.f
        if o[0] == "i":
            d = f.insts[o[1]]
            if d.op == "load":
                a = d.a[0]
                gf = a[2] if a[0] == "gep" else f.insts[a[1]].raw.get("gf") if a[0] == "i" and f.insts[a[1]].op == "getelementptr" else None
                if gf and gf[-1][0] != "[]": return "*%s.%s" % (gf[-1][0], gf[-1][1]), None
        return "*", None

    def scan(self, f):
        d = set(); c = set(); q = set()
        for b in f.blocks:
            for i in b:
                if i.op not in ("call", "invoke"): continue
                n, tgt = self.label(f, i)
                if tgt: c.add(tgt)
                elif n.startswith("*"):
                    if n in self.slot and n.split(".")[-1] not in ("finalize", "propagate", "discard"):
                        c |= self.slot[n]
                    if n.split(".")[-1] not in INTERNAL_SLOTS: d.add(("user", n))
                    if n in self.slot: c |= self.slot[n]
                else:
                    if n in EXT_USER: d.add(("user", n))
                    if n in EXT_BLOCK: d.add(("block", n))
                    if n not in EXT_STORES_CB and not n.startswith("llvm."):
                        for a in i.a:
                            if a[0] == "g" and a[1] in self.P.defined and n not in LOCKS: c.add(a[1])
                    if n in LOCKS:
                        l = inst_lock_label(f, i)
                        q.add(l or "?")
        self.direct[f.name] = d; self.calls[f.name] = c; self.acq[f.name] = q

    def close(self, kind):
        """fn -> witness chain (list of names) or absent"""
        out = {n: [t for k, t in d if k == kind][:1] for n, d in self.direct.items() if any(k == kind for k, t in d)}
        ch = True
        while ch:
            ch = False
            for n, cs in self.calls.items():
                if n in out: continue
                for c in cs:
                    if c in out:
                        g = self.P.funcs[c]
                        out[n] = [g.base] + out[c]; ch = True; break
        return out

    def close_acq(self):
        out = {n: {l: [] for l in q} for n, q in self.acq.items()}
        ch = True
        while ch:
            ch = False
            for n, cs in self.calls.items():
                for c in cs:
                    for l, w in out.get(c, {}).items():
                        if l not in out[n]:
                            out[n][l] = [self.P.funcs[c].base] + w; ch = True
        return out

def fresh_target(e):
    """the call works on an object that this function has just created and nobody else can know"""
    if not e.args: return False
    t = e.args[0]
    while True:
        t = root_of(t)
        if call_of(t, "dex_ref", "g_object_ref") and t[2]: t = t[2][0]; continue
        return t[0] == "call" and isinstance(t[1], str) and (t[1] in ALLOC or t[1] in ("dex_promise_new", "dex_object_create_instance"))
