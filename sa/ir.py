"""In-memory model of the dumped program."""
import json, re
from functools import lru_cache

class Inst:
    __slots__ = ("id", "op", "ty", "a", "f", "loc", "raw", "bb")
    def __init__(self, o, bb):
        self.id = o["i"]; self.op = o["op"]; self.ty = o.get("t"); self.a = o.get("a", [])
        self.f = o.get("f"); self.loc = o.get("l"); self.raw = o; self.bb = bb

class Func:
    def __init__(self, name, o, prog):
        self.name = name; self.base = o["base"]; self.decl = o["decl"]; self.addr = o["addr"]; self.prog = prog
        self.file = o.get("file", ""); self.line = o.get("line", 0); self.local = o.get("local", False)
        self.vis = o.get("vis"); self.callees0 = o.get("callees0", []); self.ptypes = o.get("ptypes", [])
        self.pnames = o.get("pnames", []); self.args = o.get("args", []); self.ret = o.get("ret")
        self.vararg = o.get("vararg", False)
        self.blocks = []
        self.insts = {}
        if not self.decl:
            for bi, b in enumerate(o["blocks"]):
                l = [Inst(x, bi) for x in b]
                self.blocks.append(l)
                for i in l:
                    self.insts[i.id] = i
        self._dom = None
        self._live = None

    # --- CFG
    def succ(self, b):
        t = self.blocks[b][-1]
        if t.op == "br":
            return t.raw["succ"]
        if t.op == "switch":
            return [c[1] for c in t.raw["cases"]] + [t.raw["def"]]
        return []

    def preds(self):
        p = {i: [] for i in range(len(self.blocks))}
        for b in range(len(self.blocks)):
            for s in self.succ(b):
                p[s].append(b)
        return p

    def doms(self):
        if self._dom is None:
            n = len(self.blocks)
            pr = self.preds()
            reach = set(); st = [0]
            while st:
                x = st.pop()
                if x in reach: continue
                reach.add(x); st.extend(self.succ(x))
            dom = {b: set(reach) for b in reach}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in sorted(reach):
                    if b == 0: continue
                    ps = [p for p in pr[b] if p in reach]
                    new = set.intersection(*[dom[p] for p in ps]) | {b}
                    if new != dom[b]:
                        dom[b] = new; ch = True
            self._dom = dom
        return self._dom

    def back_edge(self, p, b):
        return b in self.doms().get(p, ())

    def loop_body(self, head):
        """blocks of the natural loop(s) with this header"""
        body = {head}
        pr = self.preds()
        st = [p for p in pr[head] if self.back_edge(p, head)]
        while st:
            x = st.pop()
            if x in body: continue
            body.add(x); st.extend(pr[x])
        return body

    def live_in(self):
        """SSA ids live at the entry of each block (phi operands count as uses
        at the end of the predecessor)"""
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
            phi_use = [set() for _ in range(n)]
            def ops(i):
                r = []
                def rec(o):
                    if isinstance(o, list):
                        if len(o) == 2 and o[0] == "i" and isinstance(o[1], int): r.append(o[1])
                        else:
                            for x in o: rec(x)
                rec(i.a)
                if i.f: rec(i.f)
                if "gf" in i.raw: rec(i.raw["gf"])
                return r
            for b in range(n):
                for i in self.blocks[b]:
                    if i.op == "phi":
                        for pb, v in i.raw["phi"]:
                            if v[0] == "i": phi_use[pb].add(v[1])
                        dfn[b].add(i.id)
                        continue
                    for u in ops(i):
                        if u not in dfn[b]: use[b].add(u)
                    dfn[b].add(i.id)
            live = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for b in range(n - 1, -1, -1):
                    out = set(phi_use[b])
                    for s in self.succ(b): out |= live[s] - {i.id for i in self.blocks[s] if i.op == "phi"}
                    new = use[b] | (out - dfn[b]) 
                    if new != live[b]:
                        live[b] = new; ch = True
            self._live = live
        return self._live

    def where(self, inst=None):
        if inst is None or not inst.loc:
            return "%s:%d (%s)" % (self.file, self.line, self.base)
        l = inst.loc[0]
        return "%s:%d (%s)" % (l[0], l[1], self.base)

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.enums = d["enums"]; self.structs = d["structs"]; self.globals = d["globals"]
        self.inlined = set(d["inlined"])
        self.funcs = {n: Func(n, o, self) for n, o in d["funcs"].items()}
        self.defined = {n: f for n, f in self.funcs.items() if not f.decl}
        self.by_base = {}
        for f in self.defined.values():
            self.by_base.setdefault(f.base, []).append(f)
        # bitfields: struct -> {(bitoff,width): name}
        self.bitfields = {}
        for s, o in self.structs.items():
            for f in o["f"]:
                if f["bf"]:
                    self.bitfields.setdefault(s, {})[f["off"]] = (f["size"], f["n"])
        self.enumval = {}
        for e, o in self.enums.items():
            for k, v in o.items():
                self.enumval[k] = v
        self._vt = None

    def fn(self, base):
        """the (single) defined function with this source name"""
        l = self.by_base.get(base, [])
        if not l:
            raise AnchorError("function %s not found" % base)
        return l[0]

    def has(self, base):
        return base in self.by_base

    def field(self, struct, name):
        o = self.structs.get(struct)
        if o:
            for f in o["f"]:
                if f["n"] == name: return f
        return None

    def foff(self, struct, name):
        """byte offset of a field as the IR names it (also of unnamed structures)"""
        m = self.__dict__.get("_foff")
        if m is None:
            m = self._foff = {}
            def rec(o):
                if isinstance(o, list):
                    if len(o) == 3 and isinstance(o[0], str) and isinstance(o[1], str) and isinstance(o[2], int) and o[0] != "[]": m.setdefault((o[0], o[1]), o[2])
                    for x in o: rec(x)
            for f in self.defined.values():
                for b in f.blocks:
                    for i in b: rec(i.raw.get("gf")); rec(i.a)
        r = m.get((struct, name))
        if r is None:
            f = self.field(struct, name); r = f["off"] // 8 if f else None
        return r

    def vtables(self):
        """{(Class struct, slot): {instance type prefix: function name}} from *_class_init stores"""
        if self._vt is None:
            vt = {}
            for f in self.defined.values():
                if not f.base.endswith("_class_init"):
                    continue
                pre = f.base[:-len("_class_init")]
                g = {}
                for b in f.blocks:
                    for i in b:
                        if i.op == "getelementptr" and i.raw["gf"]:
                            g[i.id] = i.raw["gf"][-1]
                        if i.op == "store" and i.a[0][0] == "g" and i.a[1][0] == "i" and i.a[1][1] in g:
                            s = g[i.a[1][1]]
                            vt.setdefault((s[0], s[1]), {})[pre] = i.a[0][1]
            self._vt = vt
        return self._vt

    def source_tables(self):
        """GSourceFuncs tables: name -> (prepare, check, dispatch, finalize) function names or None"""
        out = {}
        for k, g in self.globals.items():
            i = g.get("init")
            if isinstance(i, dict) and i.get("st") in ("_GSourceFuncs", "GSourceFuncs"):
                out[k] = [x[1] if x[0] == "g" else None for x in i["v"][:4]]
        return out

    def finalizers(self):
        """functions installed as a type's finalize or a source's finalize"""
        s = set()
        for (st, slot), m in self.vtables().items():
            if slot == "finalize": s |= set(m.values())
        for t in self.source_tables().values():
            if t[3]: s.add(t[3])
        return s

    def instance_inits(self):
        s = set()
        for f in self.defined.values():
            for b in f.blocks:
                for i in b:
                    if i.op == "call" and i.f[0] == "g" and i.f[1] == "g_type_register_static_simple" and len(i.a) > 5 and i.a[5][0] == "g": s.add(i.a[5][1])
        return s

class AnchorError(Exception):
    pass
