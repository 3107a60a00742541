"""helpers to state rules over the event traces of a function"""
import engine
from engine import NULL, ZERO
from lib import *

def fact_fields(lit, out=None):
    """labels Struct.field read by a literal"""
    out = set() if out is None else out
    if isinstance(lit, tuple):
        if lit and lit[0] == "f" and len(lit) == 4: out.add("%s.%s" % (lit[2].lstrip("_"), lit[3]))
        for x in lit:
            if isinstance(x, tuple): fact_fields(x, out)
    return out

def lab(addr):
    """Struct.field of an address"""
    t = addr
    while isinstance(t, tuple) and t[0] == "ix": t = t[1]
    return "%s.%s" % (t[2].lstrip("_"), t[3]) if isinstance(t, tuple) and t[0] == "f" else None

def labs(addr):
    out = []
    t = addr
    while isinstance(t, tuple) and t[0] in ("f", "ix"):
        if t[0] == "f": out.append("%s.%s" % (t[2].lstrip("_"), t[3]))
        t = t[1]
    return out

WARN = ("g_return_if_fail_warning", "g_log", "g_log_structured_standard", "g_assertion_message_expr", "g_assertion_message")

def traces(P, fn, calls=(), fields=(), facts=True, allcalls=False, K=1, cap=24, maxstates=200000, locks=True, skip=(), loads=False, br=False, also=None, keep=None, factfields=None, trunc=False):
    """paths of fn; events kept: the named calls (all calls when allcalls), every store/atomic on the given fields,
    calls that are handed the address of such a field, lock operations; each event carries in .extra the branch facts
    that hold there (a tuple of (literal, truth))"""
    calls = set(calls); fields = set(fields)
    def touches(args):
        for x in args:
            if isinstance(x, tuple) and x[0] in ("f", "ix") and set(labs(x)) & fields: return True
        return False
    def want(ev, st, eng):
        k = ev.kind
        keep = False
        if k == "ret" or k == "loop": keep = True
        elif k in ("store", "rmw", "cmpxchg"): keep = touches(ev.args[:1])
        elif k == "load": keep = loads and touches(ev.args)
        elif k == "br": keep = br
        elif k == "call":
            n = ev.name
            if n in skip: keep = False
            elif allcalls: keep = True
            elif n in calls or n in WARN: keep = True
            elif locks and (n in LOCKS or n in UNLOCKS): keep = True
            elif fields and touches(ev.args): keep = True
            elif n.startswith("*") and "*" in calls: keep = True
        if also and also(ev, st, eng): keep = True
        if not keep: return False
        fx = tuple(sorted(st.facts.items(), key=repr)) if facts else ()
        return engine.Event(k, ev.name, ev.args, ev.res, ev.inst, fx)
    ff = fields if factfields is None else set(factfields)
    cache = {}
    def keepfact(l):
        r = cache.get(l)
        if r is None:
            r = cache[l] = bool(keep is True or isa_arg(l) or fact_fields(l) & ff or (keep and keep(l)))
        return r
    rs = engine.explore(P, fn, want=want, K=K, keepfact=keepfact, cap=cap, maxstates=maxstates, track_br=br, track_store=bool(fields) or also is not None, track_load=loads, trunc=trunc)
    seen = set(); out = []
    for r in rs:
        k = (r.kind, r.events, r.ret)
        if k in seen: continue
        seen.add(k); out.append(r)
    return out

def misuse(p):
    """the path on which a precondition check failed"""
    return p.has("g_return_if_fail_warning") or any(misfact(l, v) for l, v in p.facts.items())

def isa_arg(l):
    return l[0] == "eq" and l[2] == ZERO and l[1][0] == "isa" and l[1][1][0] == "a"

def misfact(l, v):
    """an argument is known not to be of the type it should be"""
    return v and isa_arg(l)

def fx(ev): return dict(ev.extra or ())

def holds(ev_or_facts, pred):
    """some fact (literal,truth) satisfies pred"""
    d = ev_or_facts if isinstance(ev_or_facts, dict) else fx(ev_or_facts)
    return any(pred(l, v) for l, v in d.items())

def known_eq(ev, valp, const):
    """truth of  term == const  for some term satisfying valp: True/False/None"""
    d = ev if isinstance(ev, dict) else fx(ev)
    no = None
    for l, v in d.items():
        if l[0] == "eq" and l[2][0] in ("c", "n"):
            c = l[2][1] if l[2][0] == "c" else 0
            if valp(l[1]):
                if v: return c == const
                if c == const: no = False
    return no

def known_field(ev, base, S, f, const):
    """truth of base->f == const at the event (base None: any object)"""
    return known_eq(ev, lambda t: t[0] == "ld" and fld(t[1], S, f) and (base is None or norm(t[1][1]) == norm(base)), const)

def idx(p, e): return p.events.index(e)

def held_at(p, i):
    """normalised lock terms held before event i"""
    held = []
    for e in p.events[:i]:
        if e.kind != "call": continue
        if e.name in LOCKS and LOCKS[e.name] != "t": held.append(norm(e.args[0]))
        elif e.name in UNLOCKS:
            n = norm(e.args[0])
            if n in held: held.remove(n)
    return held

def sections(p, lockp):
    """index ranges (i,j) of critical sections of locks satisfying lockp(term)"""
    out = []; open_ = {}
    for i, e in enumerate(p.events):
        if e.kind != "call": continue
        if e.name in LOCKS and lockp(e.args[0]): open_[norm(e.args[0])] = i
        elif e.name in UNLOCKS and norm(e.args[0]) in open_:
            s = open_.pop(norm(e.args[0])); out.append((s, i, norm(e.args[0])))
    for k, s in open_.items(): out.append((s, len(p.events), k))
    return out

def objlock(base): return norm(("f", base, "_DexObject", "mutex"))

def iteration(p, e):
    """events from e up to the end of the loop iteration e is in"""
    i = next(k for k, x in enumerate(p.events) if x is e)
    out = []
    for x in p.events[i:]:
        out.append(x)
        if x.kind == "loop" and x.name == "iter":
            f = p.fn
            if e.inst.bb in f.loop_body(x.inst.bb): break
    return out

def known_after(p, e, valp, const):
    """truth of term == const once event e has happened, within the same loop iteration"""
    i = next(k for k, x in enumerate(p.events) if x is e)
    r = None
    for x in p.events[i:]:
        if x is not e and x.inst is e.inst and x.kind == e.kind: break
        r2 = known_eq(x, valp, const)
        if r2 is not None: r = r2
        if x.kind == "loop" and x.name == "iter" and x is not e: return r
        if r is not None and x.kind != "loop": return r
    if r is None: r = known_eq(p.facts, valp, const)
    return r

# ---------------------------------------------------------------- evaluation
def ev(t, env):
    """value of a term for given values of its leaves (env: term -> int or None); None when unknown"""
    r = env(t)
    if r is not None: return r
    k = t[0]
    if k == "c": return t[1]
    if k == "n": return 0
    if k in ("eq", "ltu", "lts"):
        a, b = ev(t[1], env), ev(t[2], env)
        if a is None or b is None: return None
        return int(a == b if k == "eq" else a < b)
    if k == "cmp":
        a, b = ev(t[2], env), ev(t[3], env)
        if a is None or b is None:
            for x, y in ((t[2], b), (t[3], a)):
                # an address within an object that exists is not NULL
                if y == 0 and x[0] in ("f", "ix") and root_of(x)[0] in ("tok", "g", "alloca") and t[1] in ("eq", "ne"): return int(t[1] == "ne")
            return None
        p = t[1]
        return int({"eq": a == b, "ne": a != b}.get(p, {"lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}.get(p[1:], False)))
    if k == "op":
        xs = [ev(x, env) for x in t[2]]
        if t[1] == "and" and 0 in xs: return 0
        if any(x is None for x in xs): return None
        if t[1] in ("zext", "sext", "trunc", "freeze"): return xs[0]
        if t[1] == "and": return xs[0] & xs[1]
        if t[1] == "or": return xs[0] | xs[1]
        if t[1] == "xor":
            return int(not xs[0]) if xs[1] in (-1,) and xs[0] in (0, 1) else xs[0] ^ xs[1]
        if t[1] == "add": return xs[0] + xs[1]
        if t[1] == "mul": return xs[0] * xs[1]
        if t[1] == "shl": return xs[0] << xs[1]
        if t[1] == "lshr": return xs[0] >> xs[1] if xs[0] >= 0 else None
        return None
    if k == "sel":
        c = ev(t[1], env)
        if c is None:
            a, b = ev(t[2], env), ev(t[3], env)
            return a if a == b else None
        return ev(t[2] if c else t[3], env)
    return None

def consistent(facts, env):
    for l, v in facts.items():
        r = ev(l, env)
        if r is not None and bool(r) != v: return False
    return True

def returns_for(ps, leafp, values):
    """value -> set of return terms/ints on the paths consistent with leaf==value"""
    out = {}
    for val in values:
        env = lambda t: val if leafp(t) else None
        s = set()
        for p in ps:
            if p.kind != "ret" or not consistent(p.facts, env): continue
            r = ev(p.ret, env) if p.ret is not None else None
            s.add(r if r is not None else p.ret)
        out[val] = s
    return out

def only(xs): 
    xs = list(xs)
    return xs[0] if len(xs) == 1 else None

def unref_strip(t):
    """identity through dex_ref/g_object_ref"""
    while isinstance(t, tuple) and t[0] == "call" and t[1] in ("dex_ref", "g_object_ref", "g_source_ref") and t[2]: t = t[2][0]
    return t

# ---------------------------------------------------------------- loops
def in_loop(f, inst):
    """innermost natural loop (header, body) containing the instruction"""
    best = None
    for b in range(len(f.blocks)):
        if b not in f.doms(): continue
        for s in f.succ(b):
            if f.back_edge(b, s):
                body = f.loop_body(s)
                if inst.bb in body and (best is None or len(body) < len(best[1])): best = (s, body)
    return best

def slice_ops(f, o, depth=6, seen=None):
    """field labels and callee names an operand is computed from"""
    out = set(); seen = set() if seen is None else seen
    def rec(o, d):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == "i" and isinstance(o[1], int):
                if o[1] in seen or d <= 0: return
                seen.add(o[1]); i = f.insts[o[1]]
                if i.op == "call":
                    out.add("call:%s" % (i.f[1] if i.f[0] == "g" else "*")); 
                    return
                if i.op == "getelementptr":
                    for g in i.raw["gf"]:
                        if g[0] != "[]": out.add("%s.%s" % (g[0].lstrip("_"), g[1]))
                if i.op == "phi":
                    out.add("phi")
                    for pb, v in i.raw["phi"]: rec(v, d - 1)
                    return
                out.add(i.op)
                for a in i.a: rec(a, d - 1)
                return
            if o and o[0] == "gep":
                for g in o[2]:
                    if g[0] != "[]": out.add("%s.%s" % (g[0].lstrip("_"), g[1]))
                rec(o[1], d); return
            for x in o: rec(x, d)
    rec(o, depth)
    return out

def loop_exits(f, loop):
    """slices of the conditions under which the loop is left"""
    head, body = loop
    out = []
    for b in body:
        t = f.blocks[b][-1]
        if any(s not in body for s in f.succ(b)):
            dead = [s for s in f.succ(b) if s not in body and f.blocks[s][-1].op == "unreachable"]
            if len(dead) == len([s for s in f.succ(b) if s not in body]): continue
            out.append((b, slice_ops(f, t.a)))
    return out

LISTY = {"GQueue.head", "GQueue.tail", "GQueue.length", "_GList.next", "GList.next", "GList.prev", "GSList.next", "call:g_queue_pop_head", "call:g_queue_pop_tail", "call:g_queue_pop_head_link", "call:g_queue_pop_tail_link",
         "call:g_queue_is_empty", "call:g_queue_peek_head", "call:g_queue_get_length", "call:g_queue_peek_tail"}
def drains(f, inst):
    """the instruction is in a loop that is left only when a list is exhausted"""
    l = in_loop(f, inst)
    if l is None: return False
    ex = loop_exits(f, l)
    return bool(ex) and all(s & LISTY for b, s in ex)

# ---------------------------------------------------------------- queues
QPUSH = {"g_queue_push_tail_link": "push_tail", "g_queue_push_tail": "push_tail", "g_queue_push_head_link": "push_head", "g_queue_push_head": "push_head",
         "g_queue_pop_head_link": "pop_head", "g_queue_pop_head": "pop_head", "g_queue_pop_tail_link": "pop_tail", "g_queue_pop_tail": "pop_tail",
         "g_queue_unlink": "unlink", "g_queue_delete_link": "unlink", "g_queue_remove": "unlink", "g_queue_remove_all": "unlink",
         "g_queue_init": "clear", "g_queue_clear": "clear", "g_queue_clear_full": "clear"}

def qname(t):
    """Struct.field of a queue embedded in an object, or None"""
    l = lab(t)
    return l if l and not l.startswith(("GQueue.", "_GQueue.")) else None

class QOp:
    __slots__ = ("i", "op", "q", "term", "elem", "e")
    def __init__(s, i, op, q, term, elem, e): s.i, s.op, s.q, s.term, s.elem, s.e = i, op, q, term, elem, e

def elem_of(x):
    """the element an inserted link belongs to"""
    if isinstance(x, tuple) and x[0] == "f" and x[3].startswith(("link", "where")): return x[1]
    return x

def qops(p):
    """operations on queues along a path, in order; stealing the whole list by overwriting its head is 'steal'"""
    out = []
    for i, e in enumerate(p.events):
        if e.kind == "call" and isinstance(e.name, str) and e.name.startswith("g_queue_") and e.args:
            k = QPUSH.get(e.name)
            if k is None:
                if e.name.startswith(("g_queue_peek", "g_queue_is_empty", "g_queue_get_length", "g_queue_index", "g_queue_find", "g_queue_foreach", "g_queue_copy", "g_queue_link_index")): continue
                k = "other"
            el = elem_of(e.args[1]) if k in ("push_tail", "push_head", "unlink") and len(e.args) > 1 else e.res
            out.append(QOp(i, k, qname(e.args[0]), e.args[0], el, e))
        elif e.kind == "store":
            a = e.args[0]
            if a[0] == "f" and a[2] in ("GQueue", "_GQueue") and a[3] == "head":
                if e.args[1] in (NULL, ZERO): out.append(QOp(i, "steal", qname(a[1]), a[1], None, e))
                else: out.append(QOp(i, "set", qname(a[1]), a[1], e.args[1], e))
        elif e.kind == "call" and e.name in ("llvm.memset", "llvm.memcpy"):
            q = qname(e.args[0]) if e.args[0][0] == "f" else None
            if q: out.append(QOp(i, "steal" if e.name == "llvm.memset" else "set", q, e.args[0], e.args[1], e))
    return out

def pops_elem(t, op):
    """t is (derived from) the element this operation took out"""
    return op.e.res is not None and has_sub(t, op.e.res)

_MODELS = {}
class Model:
    """values of a few integer quantities that are consistent with what a path knows at an event.
    vars: name -> (domain, leaf) where leaf(term) says 'v' (the value), 'p' (a pointer that is NULL iff the value is 0),
    'z' (a truth value: value is 0); a term read before the last mutation of the quantity is not believed (mut(p,i,name))"""
    def __init__(self, p, vars, mut):
        self.p = p; self.vars = vars; self.memo = {}; self.stored = {}
        self.loads = {}; self.muts = {n: [] for n in vars}
        for i, e in enumerate(p.events):
            if e.res is not None and e.kind in ("load", "call", "rmw"): self.loads.setdefault(e.res, []).append(i)
            for n in vars:
                if mut(e, n):
                    self.muts[n].append(i)
                    if e.kind == "store" and len(e.args) > 1 and e.args[1][0] not in ("c", "n") and vars[n][1](("ld", e.args[0], -1)): self.stored.setdefault(e.args[1], []).append((i, n))
    def when(self, t, i):
        l = [k for k in self.loads.get(t, ()) if k <= i]
        return l[-1] if l else None
    def at(self, i, facts=None):
        """list of assignments (dicts) possible just before event i (or at the end with i=len)"""
        import itertools
        p = self.p
        if facts is None and i in self.memo: return self.memo[i]
        d = facts if facts is not None else (fx(p.events[i]) if i < len(p.events) else p.facts)
        names = list(self.vars)
        use = {}
        def leaf(t):
            if t in use: return use[t]
            r = None
            for w, n in self.stored.get(t, ()):
                if w < i and w == max((m for m in self.muts[n] if m < i), default=-1): r = (n, "v")
            for n in names if r is None else ():
                k = self.vars[n][1](t)
                if k:
                    w = self.when(t, i)
                    lm = [m for m in self.muts[n] if m < i]
                    if w is not None and (not lm or w > lm[-1]): r = (n, k)
                    break
            use[t] = r
            return r
        rel = {l: v for l, v in d.items() if find_sub(l, lambda t: leaf(t) is not None) is not None}
        out = []
        key = (tuple(names), frozenset((l, v) for l, v in rel.items()), tuple(sorted((t, r) for t, r in use.items() if r)) if rel else ())
        if key in _MODELS: out = _MODELS[key]; return out
        for combo in itertools.product(*[self.vars[n][0] for n in names]):
            m = dict(zip(names, combo))
            def env(t):
                r = leaf(t)
                if r is None: return None
                v = m[r[0]]
                return v if r[1] == "v" else int(v != 0) if r[1] == "p" else int(v == 0)
            if consistent(rel, env): out.append(m)
        _MODELS[key] = out
        if facts is None: self.memo[i] = out
        return out

def qleaf(label):
    """leaf function of a queue's length"""
    S, f = label.rsplit(".", 1)
    def leaf(t):
        if t[0] == "ld" and t[1][0] == "f" and qname(t[1][1]) == label and t[1][2] in ("GQueue", "_GQueue"):
            return "v" if t[1][3] == "length" else "p"
        if t[0] == "call" and t[2] and isinstance(t[2][0], tuple) and qname(t[2][0]) == label:
            if t[1] == "g_queue_get_length": return "v"
            if t[1] == "g_queue_is_empty": return "z"
            if t[1].startswith(("g_queue_peek", "g_queue_pop")): return "p"
        return None
    return leaf

def fleaf(S, f):
    return lambda t: "v" if t[0] == "ld" and fld(t[1], S, f) else None

def qmut(e, label):
    """event changes the queue"""
    if e.kind == "store": return any(l == label for l in labs(e.args[0]))
    if e.kind == "call" and isinstance(e.name, str):
        if e.name.startswith(("g_queue_peek", "g_queue_is_empty", "g_queue_get_length", "g_queue_index", "g_queue_find")): return False
        return any(isinstance(x, tuple) and x[0] == "f" and label in labs(x) for x in e.args)
    return False

def data_null(p):
    """the path assumes that a queue element carries no data (links always point to their element)"""
    return any(v and l[0] == "eq" and l[2] in (NULL, ZERO) and l[1][0] == "ld" and l[1][1][0] == "f" and l[1][1][2] in ("GList", "_GList") and l[1][1][3] == "data" for l, v in p.facts.items())

def folded(p): return any(e.kind == "trunc" for e in p.events)

# ---------------------------------------------------------------- decision tables
def tok(n): return ("tok", n)

ZEROED = ("dex_object_create_instance", "g_malloc0", "g_malloc0_n", "g_aligned_alloc0", "g_slice_alloc0", "g_source_new", "g_atomic_rc_box_alloc0")

def canon(a):
    """access path with constant array offsets merged"""
    if not isinstance(a, tuple): return a
    if a and a[0] == "ld": return ("ld", canon(a[1]))
    if a and a[0] == "ix":
        b, k = canon(a[1]), a[2]
        if b[0] == "ix" and b[2][0] == "c" and k[0] == "c": b, k = b[1], ("c", b[2][1] + k[1])
        return b if k == ZERO else ("ix", b, canon(k))
    return tuple(canon(x) if isinstance(x, tuple) else x for x in a)

def under(t, k):
    while isinstance(t, tuple) and t and t[0] in ("f", "ix"):
        t = t[1]
        if t == k: return True
    return False

def copied_from(n, e):
    """the place the (canonical) address n had in the source of this copy, if the copy covers n"""
    d, s = canon(e.args[0]), canon(e.args[1])
    if n == d: return s
    if n[0] == "ix" and n[2][0] == "c":
        b, k = (d[1], d[2]) if d[0] == "ix" else (d, ZERO)
        if n[1] == b and k[0] == "c":
            j = n[2][1] - k[1]; sz = e.args[2]
            if j >= 0 and (sz[0] != "c" or j * 8 < sz[1]): return canon(("ix", s, ("c", j)))
            return None
    if n[0] in ("f", "ix") and n[1] != n:
        up = copied_from(n[1], e)
        if up is not None: return canon((n[0], up) + n[2:])
    return None

def last_store(st, addr):
    """value a path has itself stored at addr (through any alias of the same access path)"""
    n = canon(addr); local = root_of(addr)[0] == "alloca"
    for k in range(len(st.trace) - 1, -1, -1):
        e = st.trace[k]
        if e.kind == "call" and e.name in ("llvm.memcpy", "llvm.memmove"):
            src = copied_from(n, e)
            if src is not None:
                if root_of(src)[0] in ("g", "zero", "s"): return None
                class Before: trace = st.trace[:k]
                return last_store(Before, src)
        if local and e.kind == "call" and e.name in ("g_value_init", "g_value_unset") and n[0] == "f" and n[3] in ("f0", "g_type") and canon(e.args[0]) == n[1]: return e.args[1] if e.name == "g_value_init" else ZERO
        # a local variable whose address a call was given may have changed there
        if local and e.kind == "call" and not e.name.startswith(("llvm.", "g_value_", "dex_value_", "g_queue_", "dex_future_complete", "dex_promise_resolve")) and e.name not in LOCKS and any(isinstance(a, tuple) and a[:1] in (("alloca",), ("f",), ("ix",)) and (a == addr or under(addr, a)) for a in e.args): return None
        if e.kind == "store" and canon(e.args[0]) == n: return e.args[1]
        if e.kind == "cmpxchg" and e.res is not None and e.res[0] == "agg" and e.res[1][1] == ("c", 1) and canon(e.args[0]) == n: return e.args[2]
    r = root_of(addr)
    if r[0] == "call" and r[1] in ("g_realloc_n", "g_realloc") and r[2]:
        a = addr
        if a == r: return None
        def sub(t): return r[2][0] if t == r else (t[0], sub(t[1])) + t[2:]
        return last_store(st, sub(a))
    if r[0] == "call" and r[1] in ZEROED: return ZERO
    return None

ERRNEW = {"g_set_error": "g_error_new", "g_set_error_literal": "g_error_new_literal"}

def table(P, fn, ld=None, call=None, K=4, maxstates=20000, args=None, only=None, locs=False, first=None, loads=(), keepfact=None, widths=False):
    """paths of fn for one concrete case: ld(addr) gives the value of a memory cell (None: unknown), call(name, args) the
    result of a call (None: unknown, [res, [(addr, value)]]: with stores); values are ints, NULL or tokens"""
    def val(x): return ("c", x) if isinstance(x, int) else x
    def orc(kind, x, a, st):
        if kind == "ld":
            if first is not None:
                v = first(x, st)
                if v is not None: return val(v)
            v = last_store(st, x)
            if v is not None: return v
            return val(ld(x, st)) if ld else None
        r = call(x, a, st) if call is not None else None
        if r is None and x in ERRNEW and root_of(a[0])[0] == "alloca": return [ZERO, [(a[0], ("call", ERRNEW[x], tuple(a[1:]), len(st.trace)))]]
        if r is None and x == "g_value_init" and root_of(a[0])[0] == "alloca": return [a[0], [(norm(("f", a[0], "", "f0")), a[1])]]
        if r is None and x == "g_value_unset" and root_of(a[0])[0] == "alloca": return [ZERO, [(norm(("f", a[0], "", "f0")), ZERO)]]
        if call is None: return None
        if isinstance(r, list): return [val(r[0]), [(p, val(v)) for p, v in r[1]]] + r[2:]
        return val(r)
    def want(e, st, g):
        if e.kind == "load": return e.args[0][0] == "f" and e.args[0][3] in loads or e.args[0][0] == "alloca" and getattr(loads, "locals", False)
        if e.kind == "br": return False
        if e.kind == "store" and not locs and root_of(e.args[0])[0] == "alloca" and not (e.args[0][0] == "f" and e.args[0][2] in ("GQueue", "_GQueue", "")): return False
        return only is None or e.kind != "call" or e.name in only or e.name in LOCKS or e.name in UNLOCKS or e.name in WARN
    kw = dict(want=want, K=K, maxstates=maxstates, keepfact=keepfact, track_br=False, track_store=True, track_load=bool(loads), oracle=orc, argv={k: val(v) for k, v in (args or {}).items()})
    prepare = None
    if first is not None:
        def ask(x, st):
            v = first(x, st)
            return None if v is None else val(v)
        def prepare(e): e.first = ask; e.widths = widths
    elif widths:
        def prepare(e): e.widths = True
    if ld is not None or first is not None:
        e = engine.Engine(P, fn, **kw)
        if prepare: prepare(e)
        rs = e.run(None)
    else: rs = engine.explore(P, fn, prepare=prepare, **kw)
    seen = set(); out = []
    for r in rs:
        k = (r.kind, r.events, r.ret)
        if k in seen: continue
        seen.add(k); out.append(r)
    return out

def bits_value(P, S, name, p, default=0):
    """final value of a bit-field (or plain member) a path has stored"""
    v = default
    for e in p.events:
        if e.kind != "store": continue
        a = e.args[0]
        if a[0] != "f" or a[2] != S: continue
        if a[3] == name: v = e.args[1][1] if e.args[1][0] == "c" else None
        elif str(a[3]).startswith("bits@") and e.args[1][0] == "c":
            byte = int(a[3][5:])
            for off, b in P.bitfields.get(S, {}).items():
                if b[1] == name and off >= byte * 8: v = (e.args[1][1] >> (off - byte * 8)) & ((1 << b[0]) - 1)
    return v

def va_oracle(items):
    """loads of a va_list that yields the given terms"""
    def ld(a, st):
        if a[0] == "f" and a[3] in ("gp_offset", "fp_offset", "overflow_arg_area", "reg_save_area"): return {"gp_offset": 48, "fp_offset": 304, "overflow_arg_area": tok("va")}.get(a[3])
        if root_of(a) == tok("va"):
            c = canon(a); k = c[2][1] // 8 if c[0] == "ix" and c[2][0] == "c" else 0
            return items[k] if k < len(items) else tok("overrun")
        return None
    return ld

def thresholds(P, fn, terms=(), lo=4, hi=300, depth=3):
    """sizes at which fn (or what it calls) may change its mind: constants it compares with, and those among terms"""
    out, seen, todo = set(), set(), [(fn, depth)]
    while todo:
        f, d = todo.pop()
        if f is None or f in seen: continue
        seen.add(f)
        for b in f.blocks:
            for i in b:
                if i.op == "icmp":
                    out |= {x[1] for x in i.a if x[0] == "c" and isinstance(x[1], int)}
                elif i.op == "call" and d and i.f[0] == "g": todo.append((P.funcs.get(i.f[1]), d - 1))
    out |= {x[1] for x in terms if isinstance(x, tuple) and x[:1] == ("c",) and isinstance(x[1], int)}
    return sorted(x for x in out if lo <= x <= hi)

def sizes(P, fn, terms=(), most=3, depth=3):
    """list lengths just past those thresholds"""
    return [x + 2 for x in thresholds(P, fn, terms, depth=depth)][:most]

def case(P, fn, mem=None, calls=None, status=None, K=4, args=None, only=None, default=None, queues=None, kinds=("ret",), locs=False, first=None, loads=(), arrays=None, widths=False):
    """table() for one case given as data. mem: {(base term, field): value}; calls: {name: value | list | function(args, st)};
    status: {term: status} answers the status getters; default(addr, st) for everything else"""
    mem = mem or {}; calls = calls or {}; status = status or {}
    PEN, RES, REJ = (P.enumval["DEX_FUTURE_STATUS_" + x] for x in ("PENDING", "RESOLVED", "REJECTED"))
    def ld(a, st):
        if queues is not None:
            v = queues.ld(a, st)
            if v is not None: return v
        if arrays is not None:
            v = arrays.ld(a, st)
            if v is not None: return v
        if a[0] == "f":
            v = mem.get((a[1], a[3]))
            if v is not None: return v(st) if callable(v) else v
            if a[3] == "status" and a[1] in status: return status[a[1]]
        elif a[0] == "g" and ("g", a[1]) in mem: return mem[("g", a[1])]
        return default(a, st) if default else None
    def call(nm, ar, st):
        if nm in calls:
            v = calls[nm]
            return v(ar, st) if callable(v) else v
        if queues is not None:
            v = queues.call(nm, ar, st)
            if v is not None: return v
        if arrays is not None:
            v = arrays.call(nm, ar, st)
            if v is not None: return v
        if ar and ar[0] in status:
            s = status[ar[0]]
            if nm == "dex_future_get_status": return s
            if nm == "dex_future_is_resolved": return int(s == RES)
            if nm == "dex_future_is_rejected": return int(s == REJ)
            if nm == "dex_future_is_pending": return int(s == PEN)
        if nm in ("dex_ref", "g_object_ref", "g_source_ref", "g_main_context_ref", "g_main_loop_ref", "g_bytes_ref", "g_variant_ref") and ar and ar[0][0] in ("tok", "a"): return ar[0]
        return None
    return [p for p in table(P, fn, ld, call, K=K, args=args, only=only, locs=locs, first=first, loads=loads, widths=widths) if not misuse(p) and p.kind in kinds]

def pcalls(p, *names): return [e for e in p.events if e.kind == "call" and e.name in names]
def nrel(p, t):
    """how often a path drops a reference to t"""
    return sum(1 for e in p.events if e.kind == "call" and e.name in ("dex_unref", "g_object_unref") and e.args[0] == t)
def nref(p, t):
    return sum(1 for e in p.events if e.kind == "call" and e.name in ("dex_ref", "g_object_ref") and e.args[0] == t)
def pos(p, e): return next(i for i, x in enumerate(p.events) if x is e)
def stores_to(p, base, field): return [e for e in p.events if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == base and e.args[0][3] == field]
def final(p, base, field, default=None):
    s = stores_to(p, base, field)
    return s[-1].args[1] if s else default
def is0(t): return t in (NULL, ZERO)

def struct_of(st, ptr):
    """fields of a local structure: {name: value}"""
    out = {}
    for a, v in st.heap.items():
        if a[0] == "f" and a[1] == ptr: out[a[3]] = v
    return out

def writers(P, S, f):
    """(function, instruction) storing to S.f, helpers counted once"""
    out = []
    for fn in P.defined.values():
        for b in fn.blocks:
            for i in b:
                if i.op != "store": continue
                a = i.a[1]
                gf = a[2] if a[0] == "gep" else fn.insts[a[1]].raw.get("gf") if a[0] == "i" and fn.insts[a[1]].op == "getelementptr" else None
                if gf and gf[-1][0] != "[]" and gf[-1][0].lstrip("_") == S.lstrip("_") and gf[-1][1] == f: out.append((fn, i))
    return out

class Queues:
    """contents of queues along a path of a concrete case. init: {queue term: [link terms]}; data(link) -> element"""
    Q = ("GQueue", "_GQueue"); L = ("GList", "_GList")
    def __init__(self, init=None, data=None, effect=None):
        self.effect = effect
        self.init = {canon(k): list(v) for k, v in (init or {}).items()}
        self.datafn = data or (lambda l: l[1] if l[0] == "f" else l)
    def at(self, trace):
        q = {k: list(v) for k, v in self.init.items()}
        self.node = node = {}; self.over = over = {}; gone = []
        def get(k): return q.setdefault(canon(k), [])
        for e in trace:
            if self.effect is not None: self.effect(e, q)
            if e.kind == "call" and isinstance(e.name, str) and e.name.startswith("g_queue_") and e.args:
                n = e.name; a = canon(e.args[0]); over.pop(a, None); l = get(a); x = canon(e.args[1]) if len(e.args) > 1 else None
                if n == "g_queue_push_tail_link": l.append(x)
                elif n == "g_queue_push_head_link": l.insert(0, x)
                elif n in ("g_queue_push_tail", "g_queue_push_head"):
                    nd = ("tok", "node%d" % len(node)); node[nd] = x
                    l.insert(len(l) if n.endswith("tail") else 0, nd)
                elif n in ("g_queue_pop_head_link", "g_queue_pop_head"): l[:1] = []
                elif n in ("g_queue_pop_tail_link", "g_queue_pop_tail"): l[-1:] = []
                elif n in ("g_queue_unlink", "g_queue_delete_link"):
                    if x in l: l.remove(x)
                elif n in ("g_queue_init", "g_queue_clear"): l[:] = []
                elif n == "g_queue_remove": l[:] = [y for y in l if self.data(y) != x]
            elif e.kind == "call" and e.name == "llvm.memset": 
                if canon(e.args[0]) in q or root_of(e.args[0])[0] == "alloca": get(e.args[0])[:] = []
            elif e.kind == "call" and e.name in ("llvm.memcpy", "llvm.memmove"):
                if canon(e.args[1]) in q: q[canon(e.args[0])] = list(q[canon(e.args[1])])
                elif e.args[1][0] in ("g", "zero", "s"): get(e.args[0])[:] = []
            elif e.kind == "store":
                a = e.args[0]; v = canon(e.args[1]); k = fld = None
                if a[0] == "f" and a[2] in self.Q: k, fld = canon(a[1]), a[3]
                elif a[0] == "alloca": k, fld = a, "head"
                elif a[0] in ("f", "ix") and a[1][0] == "alloca" and (a[0] == "ix" or a[2] == ""): k, fld = a[1], {("c", 8): "tail", ("c", 16): "length", "f0": "head", "f1": "tail", "f2": "length"}.get(a[2] if a[0] == "ix" else a[3])
                if fld is None: continue
                src = next((l for l in list(q.values()) + gone if l and l[0] == v), None) if fld == "head" else None
                if k[0] == "alloca" and k not in q and src is None: continue
                o = over.setdefault(k, {})
                if fld == "head":
                    l = get(k)
                    # what the other fields still say, until they are written too
                    if l: o.setdefault("tail", l[-1]); o.setdefault("length", ("c", len(l))); gone.append(list(l))
                    q[k] = list(src) if src is not None else []; o.pop("head", None)
                    if src is not None and k[0] == "alloca": o.clear()
                    if "tail" in o and "length" in o and is0(o["tail"]) and is0(o["length"]) and not q[k]: o.clear()
                elif k[0] != "alloca":
                    o[fld] = v
                    if not q.get(k) and all(is0(x) for x in o.values()): o.clear()
        return q
    def data(self, l): return self.node[l] if l in self.node else self.datafn(l)
    def ld(self, a, st):
        if a[0] == "alloca" or a[0] == "ix" and a[1][0] == "alloca" and a[2] in (("c", 8), ("c", 16)): a = ("f", a if a[0] == "alloca" else a[1], "", {ZERO: "f0", ("c", 8): "f1", ("c", 16): "f2"}[ZERO if a[0] == "alloca" else a[2]])
        if a[0] != "f": return None
        if a[2] == "" and a[1][0] == "alloca" and a[3] in ("f0", "f1", "f2"):
            # a local queue without its type's name
            if any(e.kind == "call" and str(e.name).startswith("g_queue_") and e.args and e.args[0] == a[1] for e in st.trace) or canon(a[1]) in self.at(st.trace): a = ("f", a[1], "_GQueue", {"f0": "head", "f1": "tail", "f2": "length"}[a[3]])
        if a[2] in self.Q:
            q = self.at(st.trace); k = canon(a[1])
            if k not in q and root_of(k)[0] != "alloca": return None
            l = q.get(k, [])
            if a[3] in self.over.get(k, {}): return self.over[k][a[3]]
            return len(l) if a[3] == "length" else (l[0] if a[3] == "head" else l[-1]) if l else NULL
        if a[2] in self.L:
            k = canon(a[1]); q = self.at(st.trace)
            if a[3] == "data": return self.data(k) if any(k in l for l in q.values()) or any(k in l for l in self.init.values()) or k in self.node else None
            for l in q.values():
                if k in l:
                    i = l.index(k) + (1 if a[3] == "next" else -1)
                    return l[i] if 0 <= i < len(l) else NULL
            if any(k in l for l in self.init.values()): return NULL
        return None
    def call(self, nm, ar, st):
        if not nm.startswith("g_queue_") or not ar: return None
        q = self.at(st.trace); k = canon(ar[0])
        if k not in q and root_of(k)[0] != "alloca": return None
        l = q.get(k, [])
        if nm in ("g_queue_get_length",): return len(l)
        if nm == "g_queue_is_empty": return int(not l)
        if nm in ("g_queue_pop_head_link", "g_queue_peek_head_link"): return l[0] if l else NULL
        if nm in ("g_queue_pop_tail_link", "g_queue_peek_tail_link"): return l[-1] if l else NULL
        if nm in ("g_queue_pop_head", "g_queue_peek_head"): return self.data(l[0]) if l else NULL
        if nm in ("g_queue_pop_tail", "g_queue_peek_tail"): return self.data(l[-1]) if l else NULL
        return None

class PtrArrays:
    """pointer arrays created on a path of a concrete case: <array0>, <array1>, ... in order of creation"""
    NEW = ("g_ptr_array_new", "g_ptr_array_new_with_free_func", "g_ptr_array_new_full", "g_ptr_array_sized_new")
    def at(self, trace):
        out = {}
        for e in trace:
            if e.kind != "call" or not str(e.name).startswith("g_ptr_array_"): continue
            if e.name in self.NEW: out[e.res] = []; continue
            l = out.get(e.args[0]) if e.args else None
            if l is None: continue
            n = e.name
            if n == "g_ptr_array_add": l.append(e.args[1])
            elif n == "g_ptr_array_insert" and e.args[1][0] == "c": l.insert(e.args[1][1] if e.args[1][1] >= 0 else len(l), e.args[2])
            elif n in ("g_ptr_array_remove_index", "g_ptr_array_steal_index") and e.args[1][0] == "c": del l[e.args[1][1]]
            elif n == "g_ptr_array_set_size" and e.args[1] == ZERO: l[:] = []
        return out
    def ld(self, a, st):
        if a[0] == "f" and a[1][0] == "tok" and a[1][1].startswith("array") and a[2] in ("GPtrArray", "_GPtrArray"):
            l = self.at(st.trace).get(a[1])
            if l is None: return None
            return len(l) if a[3] == "len" else tok(a[1][1] + "-data")
        b, i = (a[1], a[2]) if a[0] == "ix" else (a, ZERO)
        if b[0] == "tok" and b[1].endswith("-data") and i[0] == "c":
            l = self.at(st.trace).get(tok(b[1][:-5]))
            if l is not None and 0 <= i[1] < len(l): return l[i[1]]
        return None
    def call(self, nm, ar, st):
        if nm in self.NEW: return tok("array%d" % len(self.at(st.trace)))
        l = self.at(st.trace).get(ar[0]) if ar else None
        if l is None: return None
        if nm in ("g_ptr_array_remove_index", "g_ptr_array_steal_index") and ar[1][0] == "c" and ar[1][1] < len(l): return l[ar[1][1]]
        return None

# ---------------------------------------------------------------- GValue and GError
GT = {n: i << 2 for i, n in enumerate("invalid none interface char uchar boolean int uint long ulong int64 uint64 enum flags float double string pointer boxed param object variant".split())}
FDTYPE = ("gtype", "dex_fd")
def gtype_is_a(t, x):
    """is the type t (a number of GT or a term standing for a type derived from derived[t]) an x?"""
    if t == x: return 1
    par = {FDTYPE: ("c", GT["boxed"])}.get(t)
    if par is None and t[0] == "tok" and t[1].startswith("derived-"): par = ("c", GT[t[1][8:]])
    return gtype_is_a(par, x) if par else 0

def value_oracle(V, T):
    """answers type questions about the GValue V, which holds a value of exactly type T"""
    def fund(t):
        if t[0] == "c": return t
        if t == FDTYPE: return ("c", GT["boxed"])
        if t[0] == "tok" and t[1].startswith("derived-"): return ("c", GT[t[1][8:]])
        return None
    return {"g_type_check_value_holds": lambda a, st: gtype_is_a(T, a[1]) if a[0] == V and (a[1][0] == "c" or a[1] == FDTYPE) else None,
            "g_type_is_a": lambda a, st: gtype_is_a(a[0], a[1]) if a[0] == T else None,
            "g_type_fundamental": lambda a, st: fund(a[0])}

ERRSET = ("g_set_error", "g_set_error_literal", "g_propagate_error", "g_propagate_prefixed_error")
def error_set(p, err):
    """events by which a path sets the caller's error"""
    out = []
    for e in p.events:
        if e.kind == "call" and e.name in ERRSET and e.args[0] == err: out.append(e)
        elif e.kind == "store" and e.args[0] == err and not is0(e.args[1]): out.append(e)
    return out
def error_code(e):
    """(domain function, code) of an error a path sets or creates, when they are constants"""
    a = e.args[1:] if e.name in ("g_set_error", "g_set_error_literal") else e.args
    if len(a) < 2: return None
    d = a[0]
    return (d[1] if d[0] == "call" else d, a[1][1] if a[1][0] == "c" else None)

class GVal:
    """what a local GValue holds at some point of a path"""
    __slots__ = ("type", "payload", "how", "inits", "sets", "unset", "copyof")
    def __init__(s): s.type = s.payload = s.how = s.copyof = None; s.inits = s.sets = s.unset = 0
    def __repr__(s): return "type %s, payload %s (%s)" % (show(s.type) if s.type else "unset", show(s.payload) if s.payload else "none", s.how)

def gval(p, i, addr):
    """contents of the GValue at addr before event i of path p (a path with the stores to locals)"""
    v = GVal(); at = canon(addr)
    def under(a):
        a = canon(a); n = 0
        while a[0] in ("f", "ix"):
            if a[0] == "f" and a[1] == at: return a[3]
            a = a[1]
        return None
    for e in p.events[:i]:
        if e.kind == "store":
            f = under(e.args[0])
            if f in ("g_type", "f0"): v.type = e.args[1]
            elif f in ("data", "f1"):
                c = canon(e.args[0]); off = 0
                a = c
                while a[0] in ("f", "ix") and not (a[0] == "f" and a[1] == at):
                    if a[0] == "ix" and a[2] != ZERO: off = 1
                    a = a[1]
                if not off: v.payload, v.how = e.args[1], "raw"; v.sets += 1
            continue
        if e.kind != "call" or not e.args or not isinstance(e.name, str): continue
        if canon(e.args[0]) != at: continue
        n = e.name
        if n in ("llvm.memset", "llvm.memcpy", "llvm.memmove"):
            v.type = v.payload = v.how = None
            if n != "llvm.memset" and e.args[1][0] not in ("g", "zero"): v.copyof = e.args[1]
        elif n == "g_value_init": v.type = e.args[1]; v.inits += 1
        elif n == "g_value_init_from_instance": v.type = ("of", e.args[1]); v.payload = e.args[1]; v.how = "set_instance"; v.inits += 1; v.sets += 1
        elif n == "g_value_unset": v.unset += 1; v.type = v.payload = None
        elif n == "g_value_reset": v.payload = None
        elif n == "g_value_copy": pass
        elif n.startswith(("g_value_set_", "g_value_take_", "dex_value_set_", "dex_value_take_")) and at[0] == "alloca" and v.type is None and v.copyof is None: v.how = "before the value was initialised"
        elif n.startswith(("g_value_set_", "g_value_take_", "dex_value_set_", "dex_value_take_")): v.payload = e.args[1]; v.how = n.split("value_", 1)[1]; v.sets += 1
    for e in p.events[:i]:
        if e.kind == "call" and e.name == "g_value_copy" and canon(e.args[1]) == at: v.copyof = e.args[0]; v.sets += 1
    return v

def type_of_instance(t, inst):
    """the term is the type of the instance"""
    if t == ("of", inst): return True
    return t == ("ld", ("f", ("ld", ("f", inst, "_GTypeInstance", "g_class")), "_GTypeClass", "g_type")) or \
        (t[0] == "ld" and t[1][0] == "f" and t[1][3] == "g_type" and t[1][1][0] == "ld" and t[1][1][1][0] == "f" and t[1][1][1][3] == "g_class" and t[1][1][1][1] == inst)


SLOTS = {"_GAsyncResultIface": ("g_iface", "get_user_data", "get_source_object", "is_tagged")}
def slot_stores(P, struct):
    """functions stored in the slots of an interface or class structure: {slot: function name}"""
    out = {}; names = SLOTS.get(struct)
    for f in P.defined.values():
        for b in f.blocks:
            for i in b:
                if i.op == "store" and i.a[0][0] == "g" and i.a[1][0] == "i":
                    for st, fl, off in (f.insts[i.a[1][1]].raw.get("gf") or ())[-1:]:
                        if st.lstrip("_") == struct.lstrip("_"):
                            if names and fl.startswith("f") and fl[1:].isdigit(): fl = names[int(fl[1:])] if int(fl[1:]) < len(names) else fl
                            out[fl] = i.a[0][1]
    return out

def va_misuse(P, f):
    """uses of a va_list outside va_start .. va_end: [(call instruction, why)], and how many uses there are"""
    def base(o):
        while o and o[0] == "i":
            i = f.insts.get(o[1])
            if i is None: return None
            if i.op == "alloca": return i.id
            if i.op not in ("getelementptr", "bitcast"): return None
            o = i.a[0]
        return None
    ev = []
    for bi, b in enumerate(f.blocks):
        for k, i in enumerate(b):
            if i.op == "call" and i.f and i.f[0] == "g": ev.append((bi, k, i, i.f[1]))
    lists = {base(i.a[0]) for bi, k, i, n in ev if n.startswith(("llvm.va_start", "llvm.va_end")) and i.a} - {None}
    bad = []; uses = 0
    def flow(starts, stops, to):
        """is `to` reachable from the entry (starts None) or from one of starts without passing one of stops"""
        def scan(bi, k):
            for i in f.blocks[bi][k:]:
                if i.id == to: return True
                if i.id in stops: return False
            return None
        work = [(0, 0)] if starts is None else [(bi, k + 1) for bi, k in starts]; seen = set()
        while work:
            bi, k = work.pop(); r = scan(bi, k)
            if r: return True
            if r is False: continue
            for s in f.succ(bi):
                if s not in seen: seen.add(s); work.append((s, 0))
        return False
    for bi, k, i, n in ev:
        if n.startswith("llvm.va_"): continue
        for o in i.a:
            x = base(o)
            if x is None or x not in lists: continue
            if n.startswith("llvm.lifetime"): continue
            uses += 1
            st = {j.id for _, _, j, m in ev if m.startswith("llvm.va_start") and base(j.a[0]) == x}
            en = [(a, c) for a, c, j, m in ev if m.startswith("llvm.va_end") and base(j.a[0]) == x]
            if flow(None, st, i.id): bad.append((i, "uses its argument list before va_start"))
            elif flow(en, st, i.id): bad.append((i, "uses its argument list after va_end"))
    return bad, uses
