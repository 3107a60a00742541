"""a concrete model of the work-stealing queue: ring contents along a path, other threads' steals"""
from spec import *
A0, A1 = ("a", 0), ("a", 1)
WQS, WAS = "_DexWorkStealingQueue", "_DexWorkStealingArray"
STRONG = ("release", "acq_rel", "seq_cst"); ACQ = ("acquire", "acq_rel", "seq_cst")

def slot(a):
    """(ring, index) of the address of a slot"""
    a = canon(a); k = 0
    while a[0] == "ix":
        if a[2][0] != "c": return None
        k += a[2][1]; a = a[1]
    return (a[1], k) if a[0] == "f" and a[2] == WAS and a[3] == "S" else None

def local_pair(a, st):
    """the two words of an item in local memory"""
    def rd(*addrs):
        for x in addrs:
            for h, v in st.heap.items():
                if canon(h) == canon(x): return v
            v = last_store(st, x)
            if v is not None: return v
        return None
    return (rd(("f", a, "", "f0"), ("f", a, "_DexWorkItem", "func"), a), rd(("f", a, "", "f1"), ("f", a, "_DexWorkItem", "func_data"), ("ix", a, ("c", 8))))

class Ring:
    """queue WQ with a ring of capacity C and live items [t, b); steals(trace, addr) -> how many items other threads have taken by now"""
    def __init__(self, WQ, t, b, C, name="", steals=None):
        self.WQ, self.t, self.b, self.C = WQ, t, b, C; self.R = tok("ring" + name); self.garbage = tok("garbage" + name); self.name = name
        self.steals = steals; self.slots = {i & (C - 1): self.item(i) for i in range(t, b)}
    def item(self, i): return (tok("func%s%d" % (self.name, i)), tok("data%s%d" % (self.name, i)))
    def at(self, trace):
        """contents of all rings: {(ring, index): pair}"""
        d = {(self.R, k): v for k, v in self.slots.items()}
        for e in trace:
            if e.kind == "call" and e.name == "__atomic_store" and slot(e.args[1]): d[slot(e.args[1])] = e.extra
        return d
    def first(self, a, st):
        if a == ("f", self.WQ, WQS, "top") and self.steals is not None:
            own = sum(1 for e in st.trace if e.kind == "cmpxchg" and e.args[0] == a and e.res[0] == "agg" and e.res[1][1] == ("c", 1))
            return self.t + own + self.steals(st.trace, a)
        return None
    def ld(self, a, st):
        if a[0] != "f": return None
        if a[1] == self.WQ and a[2] == WQS: return {"top": self.t, "bottom": self.b, "array": self.R, "garbage": self.garbage}.get(a[3])
        if a[1] == self.R and a[2] == WAS: return {"C": self.C, "M": self.C - 1}.get(a[3])
        return None
    def calls(self, mine=()):
        """models of the 16-byte atomic accesses; further rings are read the same way"""
        rings = (self,) + tuple(mine)
        def aload(ar, st):
            s = slot(ar[1])
            if s is None: return None
            for r in rings:
                v = r.at(st.trace).get(s)
                if v is not None:
                    d = ar[2]; f, x = v
                    return [None, [(d, f), (("ix", d, ("c", 8)), x), (("f", d, "", "f0"), f), (("f", d, "", "f1"), x), (("f", d, "_DexWorkItem", "func"), f), (("f", d, "_DexWorkItem", "func_data"), x)]]
            return [None, []]
        def astore(ar, st): return [None, [], local_pair(ar[2], st)]
        return {"__atomic_load": aload, "__atomic_store": astore}

def touches_field(P, f, S, fields):
    for b in f.blocks:
        for i in b:
            for g in i.raw.get("gf", ()):
                if g[0].lstrip("_") == S.lstrip("_") and g[1] in fields: return True
    return False

def stores_field(P, f, S, field):
    return any(fn is f for fn, i in writers(P, S, field))

def sources(P):
    """(table of the owner's queue, table of the stealing source)"""
    own = steal = None
    for k, t in P.source_tables().items():
        d = P.funcs.get(t[2])
        if d is None or not touches_field(P, d, WQS, ("top",)): continue
        if stores_field(P, d, WQS, "bottom"): own = t
        else: steal = t
    return own, steal

def pow2(x): return x is not None and x > 0 and x & (x - 1) == 0
