"""shared facts about schedulers, their queues and sources"""
from spec import *
from engine import subst
A0, A1, A2 = ("a", 0), ("a", 1), ("a", 2)
def num(t): return ev(t, lambda x: None) if t is not None else None

def off(P, a, base):
    """byte offset of an address within the object at base (None: not a constant place in it)"""
    k = 0
    while a != base:
        if a[0] == "ix":
            if a[2][0] != "c": return None
            k += a[2][1]; a = a[1]
        elif a[0] == "f":
            o = P.foff(a[2], a[3])
            if o is None:
                if a[2] == "" and str(a[3]).startswith("f"): o = 8 * int(a[3][1:])
                else: return None
            k += o
            a = a[1]
        else: return None
    return k

def item_push(P, p, fn, dt):
    """how a path queues a work item: (push operation, link term, item term, offset of func, offset of data), None if it does not"""
    for o in qops(p):
        if not o.op.startswith(("push", "insert")) or len(o.e.args) < 2: continue
        l = o.e.args[1]; it = root_of(l)
        w = {}
        for e in p.events[:o.i]:
            if e.kind == "store" and root_of(e.args[0]) == it:
                k = off(P, e.args[0], it)
                if k is not None: w[k] = e.args[1]
        fo = [k for k, v in w.items() if v == fn]; do = [k for k, v in w.items() if v == dt]; lo = [k for k, v in w.items() if v == it]
        return (o, l, it, fo[0] if len(fo) == 1 else None, do[0] if len(do) == 1 else None, lo)
    return None

class Items:
    """work items in the layout of item_push: answers loads from them"""
    def __init__(self, P, push):
        self.P, (_, self.link, self.root, self.fo, self.do, _) = P, push; self.all = []
    def make(self, name):
        t = tok("item" + name); self.all.append(t); return t
    def l(self, it): return subst(self.link, self.root, it)
    def func(self, it): return tok("func-" + it[1])
    def data(self, it): return tok("data-" + it[1])
    def ld(self, a, st):
        it = root_of(a)
        if it not in self.all: return None
        k = off(self.P, a, it)
        return self.func(it) if k == self.fo else self.data(it) if k == self.do else None
    def element(self, l): return root_of(l)

def invocations(p):
    """indirect calls of a path: [(position, what, arguments)]"""
    return [(i, e.name[1:], e.args) for i, e in enumerate(p.events) if e.kind == "call" and str(e.name).startswith("*")]

def main_setup(P):
    """the paths creating a main scheduler, with names for what it consists of"""
    MS, MC, AIO, FS, TLS = tok("scheduler"), tok("context"), tok("aio"), tok("fibers"), tok("tls")
    f = P.fn("dex_main_scheduler_new")
    src = {}
    def new(ar, st):
        if ar[0][0] == "g": src.setdefault(ar[0][1], tok("source-" + ar[0][1]))
        return src.get(ar[0][1])
    calls = {"dex_object_create_instance": MS, "dex_aio_backend_get_default": tok("backend"), "dex_aio_backend_create_context": AIO, "dex_fiber_scheduler_new": FS,
             "dex_thread_storage_get": TLS, "g_main_context_ref": MC, "g_source_new": new}
    ps = case(P, f, {}, calls, args={0: MC})
    return f, ps, dict(MS=MS, MC=MC, AIO=AIO, FS=FS, TLS=TLS, src=src)

def stored(p, base):
    """{field: value} a path has stored in an object"""
    return {e.args[0][3]: e.args[1] for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == base}
