"""Path-sensitive, k-limited event-trace dataflow over one function.

The abstract state at a program point is (environment of symbolic terms for live
SSA values, branch facts, store-forwarding heap, event trace).  States are
propagated over the CFG to a fixpoint; an event from the same instruction is
recorded at most K times, loop-carried values become opaque, so the state space
is finite and every path is covered up to that abstraction.  No solver is
involved: facts are syntactic literals, a branch is pruned only when the very
literal (or an equality contradicting it) is already known.
"""
from ir import Func

MAXDEPTH = 10

def depth(t):
    if not isinstance(t, tuple): return 0
    d = 0
    for x in t:
        if isinstance(x, tuple):
            k = depth(x)
            if k > d: d = k
    return d + 1

def contains(t, pred):
    if pred(t): return True
    if isinstance(t, tuple):
        return any(contains(x, pred) for x in t if isinstance(x, tuple))
    return False

def has_sub(t, s):
    if t == s: return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and has_sub(x, s): return True
    return False

NULL = ("n",)
ZERO = ("c", 0)

def ids_in(t, acc=None):
    if acc is None: acc = set()
    if isinstance(t, tuple):
        if t and t[0] in ("i", "ld", "call", "phi", "alloca", "rmw", "cx"):
            acc.add(t[-1])
        for x in t:
            if isinstance(x, tuple): ids_in(x, acc)
    return acc

class Event:
    """kind: call store br ret load fence end"""
    __slots__ = ("kind", "name", "args", "res", "inst", "facts", "extra", "_k")
    def __init__(self, kind, name, args=(), res=None, inst=None, extra=None):
        self.kind = kind; self.name = name; self.args = args; self.res = res; self.inst = inst; self.extra = extra
        self._k = (kind, name, args, res, inst.id if inst else None, extra)
    def key(self): return self._k
    def __hash__(self): return hash(self._k)
    def __eq__(self, o): return self._k == o._k
    def __repr__(self):
        return "%s %s(%s)%s%s" % (self.kind, self.name, ", ".join(show(a) for a in self.args),
                                  " -> " + show(self.res) if self.res is not None else "",
                                  "" if self.extra is None else " {%s}" % (self.extra,))

def show(t):
    if t is None: return "-"
    if not isinstance(t, tuple): return str(t)
    k = t[0]
    if k == "a": return "arg%d" % t[1]
    if k == "c": return str(t[1])
    if k == "n": return "NULL"
    if k == "g": return "@" + t[1]
    if k == "s": return repr(t[1])
    if k == "gtype": return "TYPE(%s)" % t[1]
    if k == "f": return "&%s->%s" % (show(t[1]), t[3])
    if k == "ix": return "&%s[%s]" % (show(t[1]), show(t[2]))
    if k == "ld":
        s = show(t[1])
        return (s[1:] if s.startswith("&") else "*" + s)
    if k == "call": return "%s#%d(%s)" % (t[1] if isinstance(t[1], str) else show(t[1]), t[3], ",".join(show(x) for x in t[2]))
    if k == "tok": return "<%s>" % t[1]
    if k == "alloca": return "local%d" % t[1]
    if k == "phi": return "phi%d" % t[1]
    if k == "op": return "%s(%s)" % (t[1], ",".join(show(x) for x in t[2]))
    if k in ("eq", "ltu", "lts"): return "(%s %s %s)" % (show(t[1]), {"eq": "==", "ltu": "<u", "lts": "<s"}[k], show(t[2]))
    return "%s(%s)" % (k, ",".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]))

INVERSE = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}

class State:
    __slots__ = ("env", "facts", "heap", "trace", "esc")
    def __init__(self, env, facts, heap, trace, esc=frozenset()):
        self.env = env; self.facts = facts; self.heap = heap; self.trace = trace
        self.esc = esc          # allocations of this function that somebody else may know by now
    def copy(self):
        return State(dict(self.env), dict(self.facts), dict(self.heap), self.trace, self.esc)
    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()), frozenset(self.heap.items()), self.trace, self.esc)

class Limit(Exception):
    pass

# external calls that may run arbitrary code / modify shared memory
CLOBBER_EXT = ("g_object_unref", "g_source_destroy", "g_source_unref", "g_clear_object", "g_main_context_iteration", "g_main_loop_run",
               "g_thread_join", "g_list_free_full", "g_queue_clear_full", "g_queue_free_full", "g_slist_free_full", "g_ptr_array_unref",
               "g_array_unref", "g_hash_table_remove", "g_hash_table_unref", "g_cond_wait", "g_mutex_lock", "g_mutex_unlock",
               "g_rw_lock_reader_lock", "g_rw_lock_writer_lock", "g_rw_lock_reader_unlock", "g_rw_lock_writer_unlock",
               "g_boxed_free", "swapcontext", "setcontext", "g_main_context_invoke_full", "g_queue_foreach", "g_list_foreach")

class Engine:
    first = None
    widths = False      # keep widening conversions of unknown values in the terms
    def __init__(self, prog, fn, want=None, K=2, maxstates=60000, track_br=True, track_store=True, track_load=False, fold=None, cap=24, keepfact=None, trunc=False, oracle=None, argv=None):
        # oracle(kind, x, args, st): value of a load / of a call result (table mode: a finite case is propagated exactly)
        self.oracle = oracle; self.argv = argv
        self.p = prog
        self.fn = fn if isinstance(fn, Func) else prog.fn(fn)
        self.want = want; self.K = K; self.maxstates = maxstates
        self.track_br = track_br; self.track_store = track_store; self.track_load = track_load
        self.results = []
        self.live = self.fn.live_in()
        self.nstates = 0
        self.cap = cap; self.fold = fold; self.keepfact = keepfact; self.trunc = trunc
        self._cnt = {}; self._joined = {}
        self._loops = {}

    # ---------------------------------------------------------------- terms
    def opnd(self, st, o):
        k = o[0]
        if k == "a": return self.argv[o[1]] if self.argv and o[1] in self.argv else ("a", o[1])
        if k == "i": return st.env.get(o[1], ("i", o[1]))
        if k == "c": return ("c", o[1])
        if k == "n": return NULL
        if k == "g": return ("g", o[1])
        if k == "s": return ("s", o[1])
        if k == "u": return ("u",)
        if k == "gep":
            return self.gep(st, self.opnd(st, o[1]), o[2])
        if k == "ce" and o[1] in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext") and len(o[2]) == 1:
            return self.opnd(st, o[2][0])
        if k == "ce":
            return ("op", o[1], tuple(self.opnd(st, x) for x in o[2]))
        if k in ("agg",): return ("agg", tuple(self.opnd(st, x) for x in o[1]))
        if k == "zero": return ("c", 0)
        if k == "fp": return ("fp", o[1])
        return ("x", str(o[1:]))

    def gep(self, st, base, gf):
        t = base
        for x in gf:
            if x[0] == "[]":
                idx = self.opnd(st, x[1])
                if idx == ZERO and x is not gf[0]:
                    continue
                if t[0] == "ix" and t[2][0] == "c" and idx[0] == "c" and (t[1][0] == "tok" or self.oracle is not None and t[1][0] in ("f", "alloca")): t = ("ix", t[1], ("c", t[2][1] + idx[1]))
                else: t = ("ix", t, idx)
            else:
                # an embedded parent at offset 0 is the same pointer
                if x[2] == 0 and self.embedded(x[0], x[1]):
                    continue
                t = ("f", t, x[0], x[1])
        return t

    def embedded(self, S, name):
        """an embedded parent/base structure at offset 0: same pointer"""
        k = (S, name)
        c = self.p.__dict__.setdefault("_emb", {})
        if k not in c:
            f = self.p.field(S, name)
            t = f["t"] if f else ""
            isst = t in self.p.structs or ("_" + t) in self.p.structs
            c[k] = bool(isst and (not t.startswith("G") or t in ("GTypeInstance", "GSource", "GTypeClass", "GObject")))
        return c[k]

    def cut(self, t, iid):
        return t if depth(t) <= MAXDEPTH else ("i", iid)

    # bitfields -----------------------------------------------------------
    def bf_lookup(self, addr, shift, width):
        """addr = ('f', base, S, 'bits@N')"""
        S = addr[2]; byte = int(addr[3][5:])
        b = self.p.bitfields.get(S, {}).get(byte * 8 + shift)
        if b and (width is None or b[0] == width): return ("f", addr[1], S, b[1])
        return None

    @staticmethod
    def is_bits(t):
        return t[0] == "ld" and t[1][0] == "f" and isinstance(t[1][3], str) and t[1][3].startswith("bits@")

    def bitop(self, op, a, b, width, iid):
        """recognise bit-field reads/writes; returns a term or None"""
        def low(m):
            if m <= 0: return None
            w = m.bit_length()
            return w if m == (1 << w) - 1 else None
        def unsh(t):
            if self.is_bits(t): return t, 0
            if t[0] == "op" and t[1] == "lshr" and self.is_bits(t[2][0]) and t[2][1][0] == "c": return t[2][0], t[2][1][1]
            return None, 0
        if op == "and" and b[0] == "c":
            L, sh = unsh(a)
            if L:
                m = b[1] & ((1 << width) - 1)
                w = low(m)
                if w:
                    r = self.bf_lookup(L[1], sh, w)
                    if r: return ("bfr", r, L[2])
                inv = (~m) & ((1 << width) - 1)
                if inv and sh == 0:
                    s = (inv & -inv).bit_length() - 1
                    w = low(inv >> s)
                    if w:
                        r = self.bf_lookup(L[1], s, w)
                        if r: return ("bfclr", L, s, w, r)
        if op == "lshr" and self.is_bits(a) and b[0] == "c":
            r = self.bf_lookup(a[1], b[1], width - b[1])
            if r: return ("bfr", r, a[2])
        if op == "or":
            x, y = (a, b) if a[0] == "bfclr" else (b, a)
            if x[0] == "bfclr":
                v = y
                if v[0] == "c": v = ("c", (v[1] >> x[2]) & ((1 << x[3]) - 1))
                else:
                    if v[0] == "op" and v[1] == "shl": v = v[2][0]
                    if v[0] == "op" and v[1] == "and": v = v[2][0]
                    while v[0] == "op" and v[1] in ("trunc", "zext"): v = v[2][0]
                return ("bfset", x[1], x[4], v)
        return None

    # literals ------------------------------------------------------------
    def strip(self, t):
        while t[0] == "op" and t[1] in ("zext", "sext", "freeze"):
            t = t[2][0]
        return t

    def literal(self, t):
        """term of a condition -> (literal, positive)"""
        neg = True
        while True:
            t = self.strip(t)
            if t[0] == "op" and t[1] == "xor" and t[2][1] in (("c", -1), ("c", 1)):
                t = t[2][0]; neg = not neg; continue
            if t[0] == "op" and t[1] == "trunc":
                t = t[2][0]; continue
            if t[0] == "cmp":
                p, a, b = t[1], self.strip(t[2]), self.strip(t[3])
                if p in ("eq", "ne"):
                    if a[0] in ("c", "n") and b[0] not in ("c", "n"): a, b = b, a
                    pos = (p == "eq") == neg
                    if b in (ZERO, NULL) and a[0] in ("cmp",) or (b == ZERO and a[0] == "op" and a[1] == "xor"):
                        l, q = self.literal(a)
                        return l, (q != pos)
                    # sub(a,b)==0 etc. left opaque
                    if b[0] not in ("c", "n") and repr(a) > repr(b): a, b = b, a
                    return ("eq", a, b), pos
                s = "s" if p[0] == "s" else "u"
                q = p[1:]
                if q == "lt": return ("lt" + s, a, b), neg
                if q == "gt": return ("lt" + s, b, a), neg
                if q == "ge": return ("lt" + s, a, b), not neg
                if q == "le": return ("lt" + s, b, a), not neg
                return t, neg
            return ("eq", t, ZERO), not neg

    def width(self, o):
        """bits of an integer operand"""
        if o[0] == "c": return o[2] if len(o) > 2 else None
        t = self.fn.insts[o[1]].ty if o[0] == "i" else self.fn.args[o[1]] if o[0] == "a" and o[1] < len(self.fn.args) else None
        return int(t[1:]) if isinstance(t, str) and t[:1] == "i" and t[1:].isdigit() else None

    def truth(self, st, lit):
        """known truth of a literal or None"""
        v = st.facts.get(lit)
        if v is not None: return v
        k = lit[0]
        if k == "eq":
            a, b = lit[1], lit[2]
            if a == b: return True
            if a[0] == "tok" and b[0] == "tok": return False
            if "tok" in (a[0], b[0]) and {a[0], b[0]} <= {"tok", "f", "alloca", "ix"}:   # an object of its own is no part of another
                t, r = (a, b) if a[0] == "tok" else (b, a)
                while r[0] in ("f", "ix"): r = r[1]
                if r != t and r[0] in ("a", "tok", "alloca"): return False
            if a[0] == "ix" and b[0] == "ix" and a[1] == b[1] and a[2][0] == "c" and b[2][0] == "c": return a[2][1] == b[2][1]
            if a[0] == "ix" and a[1] == b and a[2][0] == "c" and a[2][1] or b[0] == "ix" and b[1] == a and b[2][0] == "c" and b[2][1]: return False
            if a[0] == "tok" and b[0] == "c" or a[0] == "gtype" and b[0] == "c" and b[1] < 1024: return False
            if a[0] in ("c", "n") and b[0] in ("c", "n"):
                return (a[1] if a[0] == "c" else 0) == (b[1] if b[0] == "c" else 0)
            if b[0] in ("c", "n"):
                # known equal to another constant?
                for l, tv in st.facts.items():
                    if tv and l[0] == "eq" and l[1] == a and l[2][0] in ("c", "n"):
                        return (l[2][1] if l[2][0] == "c" else 0) == (b[1] if b[0] == "c" else 0)
                if b in (NULL, ZERO):
                    if a[0] in ("tok", "f", "alloca", "g", "s", "ix") : return False
                    if a[0] == "call" and a[1] in NONNULL: return False
                    if a[0] == "f": return False
                if a[0] == "isa" and b == ZERO:
                    if self.truth(st, ("eq", a[1], NULL)): return True
            if b in (NULL, ZERO) and a[0] not in ("c", "n"):
                # isa(x,T) true implies x non-null
                for l, tv in st.facts.items():
                    if not tv and l[0] == "eq" and l[2] == ZERO and l[1][0] == "isa" and l[1][1] == a: return False
        else:
            a, b = lit[1], lit[2]
            if a == b: return False
            if a[0] == "c" and b[0] == "c":
                if k == "lts": return a[1] < b[1]
                return (a[1] & (2**64 - 1)) < (b[1] & (2**64 - 1))
            if k == "ltu" and b == ZERO: return False
            if k == "ltu" and "ix" in (a[0], b[0]):
                # two places in one array
                (pa, ia), (pb, ib) = ((x[1], x[2]) if x[0] == "ix" else (x, ZERO) for x in (a, b))
                if pa == pb and ia[0] == "c" and ib[0] == "c": return ia[1] < ib[1]
            # constant knowledge
            ca, cb = self.const(st, a), self.const(st, b)
            if ca is not None and cb is not None:
                return ca < cb if k == "lts" else (ca & (2**64 - 1)) < (cb & (2**64 - 1))
            if k == "ltu" and a == ZERO:
                z = self.truth(st, ("eq", b, ZERO))
                if z is not None: return not z
        return None

    def const(self, st, t):
        if t[0] == "c": return t[1]
        if t[0] == "n": return 0
        for l, tv in st.facts.items():
            if tv and l[0] == "eq" and l[1] == t and l[2][0] in ("c", "n"):
                return l[2][1] if l[2][0] == "c" else 0
        return None

    # --------------------------------------------------------------- heap
    def kill_id(self, st, iid):
        # terms produced by a previous execution of this instruction
        if iid in self._multi:
            for l in [l for l in st.facts if iid in ids_in(l)]: del st.facts[l]
            for a in [a for a, v in st.heap.items() if iid in ids_in(a) or iid in ids_in(v)]: del st.heap[a]

    @staticmethod
    def root(t):
        while t[0] in ("f", "ix"): t = t[1]
        return t

    def clobber_all(self, st, args=()):
        esc = {self.root(a) for a in args if isinstance(a, tuple)}
        for a in list(st.heap):
            r = self.root(a)
            if r[0] == "alloca" and r not in esc and r[1] not in self._escaped: continue
            if r[0] == "call" and r[1] in FRESH and r not in st.esc and r not in esc: continue
            del st.heap[a]

    def escape(self, st, t):
        r = self.root(t)
        if r[0] == "call" and r[1] in FRESH and r not in st.esc:
            st.esc = st.esc | {r}
            for a, v in list(st.heap.items()):
                if self.root(a) == r: self.escape(st, v)

    def clobber_args(self, st, args):
        pref = [a for a in args if isinstance(a, tuple) and a[0] in ("f", "alloca", "ix", "a", "ld", "call", "phi", "i")]
        for a in list(st.heap):
            for q in pref:
                if q[0] in ("f", "alloca", "ix"):
                    if has_sub(a, q): del st.heap[a]; break
                # pointers to dex objects handed to external code: field values may change
        # nothing else

    def store(self, st, addr, val):
        if addr[0] == "f":
            lab = (addr[2], addr[3])
            r = self.root(addr)
            for a in list(st.heap):
                if a != addr and a[0] == "f" and (a[2], a[3]) == lab:
                    ra = self.root(a)
                    if r[0] == "alloca" or ra[0] == "alloca":
                        continue
                    del st.heap[a]
        elif addr[0] not in ("alloca", "g"):
            # store through an arbitrary pointer
            for a in list(st.heap):
                if a != addr and self.root(a)[0] != "alloca": del st.heap[a]
        st.heap[addr] = val

    # ----------------------------------------------------------- execution
    def run(self, init_facts=None):
        fn = self.fn
        self._multi = set()
        heads = set()
        for b in range(len(fn.blocks)):
            for s in fn.succ(b):
                if b in fn.doms() and fn.back_edge(b, s):
                    heads.add(s)
        self._loops = {h: fn.loop_body(h) for h in heads}
        self._loopids = {h: {i.id for b in body for i in fn.blocks[b]} for h, body in self._loops.items()}
        for ids in self._loopids.values(): self._multi |= ids
        self._phiconst = {("c", v[1]) for b in fn.blocks for i in b if i.op == "phi" for pb, v in i.raw["phi"] if v[0] == "c"}
        # escaped allocas: address stored somewhere or passed to a call
        self._escaped = set()
        for b in fn.blocks:
            for i in b:
                if i.op == "store" and i.a[0][0] == "i" and fn.insts[i.a[0][1]].op == "alloca":
                    self._escaped.add(i.a[0][1])
        st = State({}, dict(init_facts or {}), {}, ())
        work = [(0, None, st)]
        seen = set()
        while work:
            b, prev, st = work.pop()
            outs = self.block(b, prev, st)
            for (nb, ns) in outs:
                lv = self.live[nb]
                phis = {v[1] for i in fn.blocks[nb] if i.op == "phi" for pb, v in i.raw["phi"] if pb == b and v[0] == "i"}
                ns.env = {k: v for k, v in ns.env.items() if k in lv or k in phis}
                self.prune(ns)
                key = (nb, b if any(i.op == "phi" for i in fn.blocks[nb]) else None, ns.key())
                if key in seen: continue
                # widening: many variants of one (point, trace) are joined
                wk = (key[0], key[1], ns.trace)
                c = self._cnt.get(wk, 0) + 1
                self._cnt[wk] = c
                if c > self.cap:
                    j = self._joined.get(wk)
                    if j is not None:
                        ns = self.join(j, ns)
                        if ns is None: continue
                    self._joined[wk] = ns.copy()
                    key = (nb, key[1], ns.key())
                    if key in seen: continue
                seen.add(key)
                self.nstates += 1
                if self.nstates > self.maxstates:
                    raise Limit("%s: more than %d abstract states" % (fn.name, self.maxstates))
                work.append((nb, b, ns))
        return self.results

    def join(self, a, b):
        """least upper bound; None when b is already covered by a"""
        env = {}
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None: continue
            env[k] = v if v == w else ("i", k)
        facts = {l: tv for l, tv in a.facts.items() if b.facts.get(l) == tv}
        heap = {k: v for k, v in a.heap.items() if b.heap.get(k) == v}
        if env == a.env and facts == a.facts and heap == a.heap and b.esc <= a.esc: return None
        return State(env, facts, heap, a.trace, a.esc | b.esc)

    def prune(self, st):
        if not st.facts: return
        alive = set()
        for v in st.env.values(): alive |= ids_in(v)
        for a, v in st.heap.items(): alive |= ids_in(v); alive |= ids_in(a)
        for l in list(st.facts):
            ids = ids_in(l)
            if ids and not (ids <= alive):
                # keep facts whose ids may still be mentioned
                if self.keepfact is not None and self.keepfact(l): continue
                del st.facts[l]

    def block(self, b, prev, st):
        fn = self.fn
        insts = fn.blocks[b]
        if b in self._loops and self.want is not None:
            self.emit(st, Event("loop", "iter" if prev is not None and fn.back_edge(prev, b) else "enter", (), None, insts[-1], b))
        # phis simultaneously
        new = {}
        back = prev is not None and b in self._loops and fn.back_edge(prev, b)
        for i in insts:
            if i.op != "phi": break
            for pb, v in i.raw["phi"]:
                if pb == prev:
                    t = self.opnd(st, v)
                    if self.oracle is not None and t[0] in ("c", "tok"): new[i.id] = (t, None)
                    elif back and (ids_in(t) & self._loopids[b]):
                        nt = ("phi", i.id)
                        # transfer facts
                        tr = {}
                        for l, tv in st.facts.items():
                            if l[0] == "eq" and l[1] == t: tr[("eq", nt, l[2])] = tv
                        new[i.id] = (nt, tr)
                    elif back and (t[0] == "op" or (t[0] == "c" and t not in self._phiconst)):
                        new[i.id] = (("phi", i.id), {})
                    else:
                        new[i.id] = (t, None)
                    break
        for k, (t, tr) in new.items():
            if t == ("phi", k):
                for l in [l for l in st.facts if has_sub(l, t)]: del st.facts[l]
                for a in [a for a, v in st.heap.items() if has_sub(a, t) or has_sub(v, t)]: del st.heap[a]
        for k, (t, tr) in new.items():
            st.env[k] = t
            if tr: st.facts.update(tr)
        sts = [st]
        for i in insts:
            if i.op == "phi": continue
            if i.op in ("br", "switch", "ret", "unreachable", "indirectbr"):
                out = []
                for s in sts: out += self.term(s, i, b)
                return out
            for s in sts:
                self.step(s, i)
        return []

    def emit(self, st, ev):
        if self.want is not None:
            r = self.want(ev, st, self)
            if r is None or r is False: return
            if isinstance(r, Event): ev = r
        if self.fold is not None:
            st.trace = self.fold(st.trace, ev, st)
            return
        n = 0
        for e in st.trace:
            if e.inst is not None and ev.inst is not None and e.inst.id == ev.inst.id and e.kind == ev.kind and (ev.kind != 'loop' or e.name == ev.name): n += 1
        if n >= self.K + (ev.kind == "load"):
            if self.trunc and ev.kind not in ("load", "loop") and not any(e.kind == "trunc" for e in st.trace): st.trace = st.trace + (Event("trunc", "trunc", ()),)
            return
        st.trace = st.trace + (ev,)

    def constant(self, st, addr):
        """value of a cell of a constant table"""
        path = []; a = addr
        while a[0] in ("f", "ix"): path.append(a); a = a[1]
        if a[0] != "g": return None
        g = self.p.globals.get(a[1])
        if not g or not g.get("const") or g.get("init") is None: return None
        x = g["init"]
        for s in reversed(path):
            if not isinstance(x, dict): return None
            if s[0] == "ix":
                if "arr" not in x or s[2][0] != "c" or not 0 <= s[2][1] < len(x["arr"]): return None
                x = x["arr"][s[2][1]]
            else:
                if "v" not in x or x.get("st") != s[2]: return None
                n = s[3]; k = int(n[1:]) if n[:1] == "f" and n[1:].isdigit() else next((j for j, m in enumerate((self.p.structs.get(s[2]) or {}).get("f", ())) if m["n"] == n and not any(q["bf"] for q in self.p.structs[s[2]]["f"])), None)
                if k is None or k >= len(x["v"]): return None
                x = x["v"][k]
        return self.opnd(st, x) if isinstance(x, list) and x and x[0] in ("c", "n", "s", "g") else None

    def step(self, st, i):
        op = i.op
        self._cur = i
        if op == "alloca":
            st.env[i.id] = ("alloca", i.id); return
        self.kill_id(st, i.id) if i.id in self._multi else None
        if op == "getelementptr":
            st.env[i.id] = self.cut(self.gep(st, self.opnd(st, i.a[0]), i.raw["gf"]), i.id); return
        if op == "load":
            addr = self.opnd(st, i.a[0])
            if addr[0] == "g" and addr[1].endswith("_type") and addr[1].startswith("dex_"):
                st.env[i.id] = ("gtype", addr[1][:-5]); return
            known = v = self.first(addr, st) if self.first is not None else None
            if v is None: known = v = self.constant(st, addr)
            if v is None: v = st.heap.get(addr)
            if v is None and self.oracle is not None: known = v = self.oracle("ld", addr, None, st)
            if v is None:
                v = self.cut(("ld", addr, i.id), i.id)
            if known is None: st.heap[addr] = v
            st.env[i.id] = v
            if self.track_load: self.emit(st, Event("load", "load", (addr,), v, i, i.raw.get("ord")))
            return
        if op == "store":
            v = self.opnd(st, i.a[0]); addr = self.opnd(st, i.a[1])
            if addr[0] == "f" and isinstance(addr[3], str) and addr[3].startswith("bits@"):
                pend = v
                sets = []
                if pend[0] == "bfset": sets.append((pend[2], pend[3]))
                elif pend[0] == "bfclr": sets.append((pend[4], ZERO))
                st.heap.pop(addr, None)
                # any cached bits word of an aliasing object is stale too
                for a in [a for a in st.heap if a[0] == "f" and a[2] == addr[2] and a[3] == addr[3]]: del st.heap[a]
                for ad, val in sets:
                    self.store(st, ad, val)
                    if self.track_store: self.emit(st, Event("store", "store", (ad, val), None, i))
                if not sets:
                    if self.track_store: self.emit(st, Event("store", "store", (addr, v), None, i))
                return
            self.store(st, addr, v)
            ra = self.root(addr)
            if not (ra[0] == "alloca" or (ra[0] == "call" and ra[1] in FRESH and ra not in st.esc)): self.escape(st, v)
            if self.track_store: self.emit(st, Event("store", "store", (addr, v), None, i, i.raw.get("ord")))
            return
        if op == "call" or op == "invoke":
            self.call(st, i); return
        if op in ("icmp", "fcmp"):
            if op == "icmp" and self.oracle is not None:
                t = ("cmp", i.raw["p"], self.opnd(st, i.a[0]), self.opnd(st, i.a[1]))
                if all(x[0] in ("c", "n", "tok") for x in t[2:]):
                    lit, ps = self.literal(t); tv = self.truth(st, lit)
                    if tv is not None: st.env[i.id] = ("c", int(tv == ps)); return
            x, y, pr = self.opnd(st, i.a[0]), self.opnd(st, i.a[1]), i.raw["p"]
            if pr in ("eq", "ne") and y == ZERO:
                # a truth value made a number and compared with 0 again
                while x[0] == "op" and x[1] in ("zext", "sext", "freeze"): x = x[2][0]
                if x[0] == "cmp" and x[1] in INVERSE: st.env[i.id] = x if pr == "ne" else ("cmp", INVERSE[x[1]], x[2], x[3]); return
                x = self.opnd(st, i.a[0])
            st.env[i.id] = self.cut(("cmp", pr, x, y), i.id); return
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            t = self.opnd(st, i.a[0])
            if op == "inttoptr" and t == ZERO: t = NULL
            if op == "ptrtoint" and t == NULL: t = ZERO
            st.env[i.id] = t; return
        if op in ("zext", "sext", "trunc", "freeze", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui"):
            t = self.opnd(st, i.a[0])
            if t[0] == "c" and op in ("zext", "sext"):
                w = self.width(i.a[0]); v = t[1]
                if w == 1: v &= 1
                elif w: 
                    v &= (1 << w) - 1
                    if op == "sext" and v >> (w - 1): v -= 1 << w
                st.env[i.id] = ("c", v)
                return
            if op == "trunc" and t[0] == "c" and i.ty.startswith("i"):
                w = int(i.ty[1:]); v = t[1] & ((1 << w) - 1)
                st.env[i.id] = ("c", v - (1 << w) if v >> (w - 1) and w > 1 else v); return
            if op == "trunc" and t[0] == "bfr": st.env[i.id] = self.bfload(st, t); return
            if t[0] == "bfr": t = self.bfload(st, t)
            if op in ("zext", "sext"):
                # ints: width changes keep identity, i1 stays recognisable
                st.env[i.id] = t if t[0] != "cmp" and not self.widths else ("op", op, (t,))
                return
            st.env[i.id] = self.cut(("op", op, (t,)), i.id); return
        if op in ("and", "or", "xor", "shl", "lshr", "ashr", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "fadd", "fsub", "fmul", "fdiv", "fneg"):
            ts = [self.opnd(st, x) for x in i.a]
            try: w = int(i.ty[1:])
            except Exception: w = 64
            if len(ts) == 2:
                r = self.bitop(op, ts[0], ts[1], w, i.id)
                if r is not None:
                    if r[0] == "bfr": r = self.bfload(st, r)
                    st.env[i.id] = r; return
                if ts[0][0] == "c" and ts[1][0] == "c":
                    x, y = ts[0][1], ts[1][1]
                    v = {"and": x & y, "or": x | y, "xor": x ^ y, "add": x + y, "sub": x - y, "mul": x * y}.get(op)
                    if op == "shl": v = (x << y) if 0 <= y < 64 else None
                    if op in ("udiv", "urem") and y != 0:
                        ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1); v = ux // uy if op == "udiv" else ux % uy
                        if v >> (w - 1): v -= 1 << w
                    if op == "lshr": v = ((x & ((1 << w) - 1)) >> y) if 0 <= y < 64 else None
                    if v is not None:
                        st.env[i.id] = ("c", v & 1 if w == 1 else v); return
                if op in ("add", "mul", "and", "or", "xor") and ts[0][0] in ("c",) and ts[1][0] != "c":
                    ts = [ts[1], ts[0]]
                if op == "sub" and ts[1][0] == "c":
                    op = "add"; ts = [ts[0], ("c", -ts[1][1])]
                if op in ("and", "or", "xor", "add") and ts[1][0] == "c" and ts[0][0] == "op" and ts[0][1] == op and ts[0][2][1][0] == "c":
                    x, y = ts[0][2][1][1], ts[1][1]
                    ts = [ts[0][2][0], ("c", {"and": x & y, "or": x | y, "xor": x ^ y, "add": x + y}[op])]
            st.env[i.id] = self.cut(("op", op, tuple(ts)), i.id); return
        if op == "select":
            c, a, b = (self.opnd(st, x) for x in i.a)
            lit, pos = self.literal(c)
            tv = self.truth(st, lit)
            if tv is not None:
                st.env[i.id] = a if (tv == pos) else b
            else:
                st.env[i.id] = self.cut(("sel", c, a, b), i.id)
            return
        if op == "atomicrmw":
            addr = self.opnd(st, i.a[0]); v = self.opnd(st, i.a[1])
            r = ("rmw", i.raw["rmw"], addr, v, i.id)
            old = None
            if self.oracle is not None:
                old = st.heap.get(addr)
                if old is None or old[0] not in ("c", "tok", "n"): old = self.oracle("ld", addr, None, st)
            new = None
            if old is not None and (old[0] == "c" and v[0] == "c" or i.raw["rmw"] == "xchg"):
                new = v if i.raw["rmw"] == "xchg" else {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "or": lambda a, b: a | b, "and": lambda a, b: a & b}.get(i.raw["rmw"], lambda a, b: None)(old[1], v[1])
                if isinstance(new, int): new = ("c", new)
            st.env[i.id] = old if old is not None and new is not None else self.cut(r, i.id)
            st.heap.pop(addr, None)
            if new is not None: st.heap[addr] = new
            self.emit(st, Event("rmw", i.raw["rmw"], (addr, v), st.env[i.id], i, i.raw.get("ord"))); return
        if op == "cmpxchg":
            addr, a, b = (self.opnd(st, x) for x in i.a[:3])
            st.env[i.id] = ("cx", addr, a, b, i.id)
            old = self.oracle("ld", addr, None, st) if self.oracle is not None else None
            st.heap.pop(addr, None)
            if old is not None and (old == a or old[0] == a[0] and old[0] in ("c", "tok")):
                ok = int(old == a); st.env[i.id] = ("agg", (old, ("c", ok)))
                if ok: st.heap[addr] = b
            self.emit(st, Event("cmpxchg", "cmpxchg", (addr, a, b), st.env[i.id], i, i.raw.get("ord"))); return
        if op == "fence":
            self.emit(st, Event("fence", "fence", (), None, i, i.raw.get("ord"))); return
        if op == "extractvalue":
            t = self.opnd(st, i.a[0])
            ix = i.raw["ix"]
            if t[0] == "agg" and len(ix) == 1: st.env[i.id] = t[1][ix[0]]; return
            if t[0] == "ins" :
                q = t
                while q[0] == "ins":
                    if list(q[2]) == list(ix): st.env[i.id] = q[3]; return
                    q = q[1]
                t = q
            st.env[i.id] = self.cut(("xv", t, tuple(ix)), i.id); return
        if op == "insertvalue":
            t = self.opnd(st, i.a[0]); v = self.opnd(st, i.a[1])
            st.env[i.id] = self.cut(("ins", t, tuple(i.raw["ix"]), v), i.id); return
        st.env[i.id] = ("i", i.id)

    def bfload(self, st, t):
        addr, iid = t[1], t[2]
        v = st.heap.get(addr)
        if v is None and self.oracle is not None: v = self.oracle("ld", addr, None, st)
        if v is None:
            v = ("ld", addr, iid)
            st.heap[addr] = v
        if self.track_load: self.emit(st, Event("load", "load", (addr,), v, self._cur, None))
        return v

    def callee(self, st, i):
        f = i.f
        if f[0] == "g":
            fn = self.p.funcs.get(f[1])
            return (fn.base if fn is not None else f[1]), fn
        t = self.opnd(st, f)
        if t[0] == "g":
            fn = self.p.funcs.get(t[1])
            return (fn.base if fn is not None else t[1]), fn
        if t[0] == "tok": return "*" + t[1], None
        if t[0] == "ld" and t[1][0] == "f":
            return "*%s.%s" % (t[1][2], t[1][3]), None
        return "*", None

    def call(self, st, i):
        name, fn = self.callee(st, i)
        args = tuple(self.opnd(st, x) for x in i.a)
        if name.startswith("llvm."):
            if name.startswith("llvm.expect"):
                st.env[i.id] = args[0]; return
            if name.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")):
                dst = args[0]
                for a in [a for a in st.heap if has_sub(a, dst)]: del st.heap[a]
                if name.startswith("llvm.memcpy"):
                    for a, v in list(st.heap.items()):
                        if has_sub(a, args[1]) and a != args[1]:
                            st.heap[subst(a, args[1], dst)] = v
                        elif a == args[1]:
                            st.heap[dst] = v
                self.emit(st, Event("call", name.split(".p0")[0], args, None, i)); return
            st.env[i.id] = ("i", i.id)
            return
        if name.startswith("__uninit."): st.env[i.id] = ("u", i.id); return      # a local before its first assignment
        if self.oracle is not None and name in ("g_type_check_value_holds", "g_type_check_instance_is_a"):
            r = self.oracle("call", name, args, st)
            if r is not None: st.env[i.id] = r; return
        if name == "g_type_check_instance_is_a" and len(args) == 2:
            st.env[i.id] = ("isa", args[0], args[1]); return
        if name == "g_type_check_value_holds" and len(args) == 2:
            st.env[i.id] = ("holds", args[0], args[1]); return
        if name.endswith("_get_type") and not args:
            st.env[i.id] = ("gtype", name[:-9]); return
        res = None; outp = (); extra = None
        if self.oracle is not None:
            r = self.oracle("call", name, args, st)
            if isinstance(r, list): r, outp, extra = (r + [None])[:3]
            if r is not None: res = r; st.env[i.id] = r
        if i.ty != "void" and res is None:
            lim = 8 if name in ("dex_ref", "g_object_ref", "g_source_ref") or self.oracle is not None else 5
            sa = tuple(a if depth(a) <= lim else ("i", "deep") for a in args)
            res = self.cut(("call", name, sa, i.id), i.id)
            st.env[i.id] = res
        self.emit(st, Event("call", name, args, res, i, extra))
        if not name.startswith(("g_mutex_", "g_rw_lock_", "g_cond_", "g_value_init", "g_type_check")):
            for x in args: self.escape(st, x)
        if fn is not None and fn.decl or (fn is None and not name.startswith("*")):
            if name in CLOBBER_EXT: self.clobber_all(st, args)
            else: self.clobber_args(st, args)
        elif name in ("dex_ref",): pass
        else:
            self.clobber_all(st, args)
        for a, v in outp: st.heap[a] = v

    def assume(self, st, lit, val):
        """returns a refined copy or None if contradictory"""
        tv = self.truth(st, lit)
        if tv is not None:
            return st if tv == val else None
        n = st.copy()
        n.facts[lit] = val
        # x == c : nothing else to derive; opaque bool cmp
        return n

    def term(self, st, i, b):
        if i.op == "ret":
            v = self.opnd(st, i.a[0]) if i.a else None
            self.emit(st, Event("ret", "ret", (v,) if v is not None else (), None, i))
            self.results.append(Path(self.fn, st.trace, v, st.facts, "ret", st.heap))
            return []
        if i.op == "unreachable":
            self.results.append(Path(self.fn, st.trace, None, st.facts, "abort", st.heap))
            return []
        if i.op == "br":
            ss = i.raw["succ"]
            if not i.a: return [(ss[0], st.copy())]
            c = self.opnd(st, i.a[0])
            if c[0] == "c":
                return [(ss[0] if c[1] else ss[1], st.copy())]
            c = self.simp(st, c)
            if c[0] == "c":
                return [(ss[0] if c[1] else ss[1], st.copy())]
            if ss[0] == ss[1]: return [(ss[0], st.copy())]
            # sel(c, a, b) as boolean: and/or chains
            out = []
            for want, tgt in ((True, ss[0]), (False, ss[1])):
                for n in self.assume_cond(st, c, want):
                    lit, pos = self.literal(c)
                    n = n.copy() if n is st else n
                    if self.track_br:
                        self.emit(n, Event("br", "br", (lit, ("c", int(want == pos))), None, i))
                    out.append((tgt, n))
            return out
        if i.op == "switch":
            v = self.strip(self.opnd(st, i.a[0]))
            out = []
            neg = st.copy()
            dead = False
            for cv, tgt in i.raw["cases"]:
                lit = ("eq", v, ("c", cv))
                n = self.assume(neg, lit, True)
                if n is not None:
                    n = n.copy()
                    if self.track_br: self.emit(n, Event("br", "br", (lit, ("c", 1)), None, i, tgt))
                    out.append((tgt, n))
                m = self.assume(neg, lit, False)
                if m is None: dead = True; break
                neg = m
            if not dead:
                n = neg.copy()
                if self.track_br: self.emit(n, Event("br", "switch-default", (v,), None, i, i.raw["def"]))
                out.append((i.raw["def"], n))
            return out
        raise Limit("terminator %s" % i.op)

    def simp(self, st, t):
        lit, pos = self.literal(t)
        tv = self.truth(st, lit)
        if tv is None: return t
        return ("c", int(tv == pos))

    def assume_cond(self, st, c, want):
        c = self.strip(c)
        # boolean connectives over i1
        if c[0] == "op" and c[1] in ("and", "or") and all(self.boolish(x) for x in c[2]):
            a, b = c[2]
            if (c[1] == "and") == want:
                return [n2 for n in self.assume_cond(st, a, want) for n2 in self.assume_cond(n, b, want)]
            r = self.assume_cond(st, a, want)
            for n in self.assume_cond(st, a, not want): r += self.assume_cond(n, b, want)
            return r
        if c[0] == "sel" and self.boolish(c[2]) and self.boolish(c[3]):
            r = []
            for n in self.assume_cond(st, c[1], True): r += self.assume_cond(n, c[2], want)
            for n in self.assume_cond(st, c[1], False): r += self.assume_cond(n, c[3], want)
            return r
        if c[0] == "c": return [st] if bool(c[1]) == want else []
        # cmp(ne/eq, X, 0) where X is a select/bool chain
        if c[0] == "cmp" and c[1] in ("eq", "ne") and c[3] in (ZERO, NULL):
            x = self.strip(c[2])
            if x[0] in ("sel",) and (c[3] == NULL or self.boolish(x[2]) or x[2][0] == "c" or x[3][0] == "c"):
                r = []
                for n in self.assume_cond(st, x[1], True): r += self.assume_cond(n, ("cmp", c[1], x[2], c[3]), want)
                for n in self.assume_cond(st, x[1], False): r += self.assume_cond(n, ("cmp", c[1], x[3], c[3]), want)
                return r
            if x[0] == "cmp" or (x[0] == "op" and x[1] in ("and", "or") and all(self.boolish(y) for y in x[2])):
                return self.assume_cond(st, x, want == (c[1] == "ne"))
        lit, pos = self.literal(c)
        n = self.assume(st, lit, want == pos)
        return [n] if n is not None else []

    def boolish(self, t):
        t = self.strip(t)
        return t[0] in ("cmp", "isa", "holds") or t in (("c", 0), ("c", 1), ("c", -1)) or \
            (t[0] == "op" and t[1] in ("and", "or", "xor") and all(self.boolish(x) for x in t[2])) or \
            (t[0] == "sel" and self.boolish(t[2]) and self.boolish(t[3]))

def subst(t, a, b):
    if t == a: return b
    if isinstance(t, tuple): return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t

FRESH = {"g_malloc", "g_malloc0", "g_malloc_n", "g_malloc0_n", "g_object_new", "g_source_new", "dex_object_create_instance", "g_aligned_alloc0", "g_atomic_rc_box_alloc0"}
NONNULL = {"g_malloc", "g_malloc0", "g_malloc_n", "g_malloc0_n", "g_object_new", "g_strdup_printf", "g_error_new", "g_error_new_literal",
           "g_source_new", "dex_object_create_instance", "g_idle_source_new", "g_main_context_new", "g_ptr_array_new", "g_array_new",
           "g_timeout_source_new", "dex_ref"}

class Path:
    __slots__ = ("fn", "events", "ret", "facts", "kind", "heap")
    def __init__(self, fn, events, ret, facts, kind, heap):
        self.fn = fn; self.events = events; self.ret = ret; self.facts = facts; self.kind = kind; self.heap = heap
    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and e.name in names]
    def has(self, *names):
        return any(e.kind == "call" and e.name in names for e in self.events)
    def __repr__(self):
        return "PATH[%s]\n  " % self.kind + "\n  ".join(repr(e) for e in self.events)

def explore(prog, fn, init=None, prepare=None, **kw):
    """runs the engine; a function with too many states is explored with fewer loop iterations, then with earlier joins"""
    while True:
        e = Engine(prog, fn, **kw)
        if prepare: prepare(e)
        try: return e.run(init)
        except Limit:
            if kw.get("K", 2) > 1: kw["K"] = kw.get("K", 2) - 1
            elif kw.get("cap", 24) > 4: kw["cap"] = 4
            else: raise

def paths(prog, fn, **kw):
    init = kw.pop("init_facts", None)
    rs = explore(prog, fn, init, **kw)
    seen = set(); out = []
    for r in rs:
        k = (r.kind, r.events, r.ret)
        if k in seen: continue
        seen.add(k); out.append(r)
    return out

if __name__ == "__main__":
    import sys, build
    from ir import Program
    P = Program(build.build("main"))
    for n in sys.argv[1:]:
        for q in paths(P, n, K=int(__import__("os").environ.get("K", "1"))): print(q)
