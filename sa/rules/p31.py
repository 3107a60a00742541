"""P31: misuse of the public API is rejected before anything is touched"""
import glob, os, re
from spec import *
from engine import Limit
WARN = ("g_return_if_fail_warning", "g_log", "g_log_structured_standard", "g_warn_message", "g_assertion_message", "g_assertion_message_expr")
# GLib object classes appearing in libdex's public prototypes (opaque in its IR)
GOBJ = set("GObject GFile GInputStream GOutputStream GDBusConnection GCancellable GIOStream GSocketClient GSocketListener GResolver GSubprocess GFileEnumerator GSocketConnectable GTlsConnection GUnixFDList GBufferedInputStream GAsyncResult".split())
UNCHECKED = ("dex_ref",)     # documented fast path: the caller holds a reference
SRC = os.environ.get("SA_REPO", "/repo") + "/src"

def public_names():
    out = set()
    for h in sorted(glob.glob(SRC + "/*.h")):
        if h.endswith("-private.h"): continue
        s = re.sub(r"/\*.*?\*/", "", open(h, errors="replace").read(), flags=re.S)
        for m in re.finditer(r"(?:DEX_AVAILABLE_IN_\w+|DEX_DEPRECATED\w*(?:\([^)]*\))?)\s([^;{}]*?)\b(dex_\w+)\s*\)?\s*\(", s): out.add(m.group(2))
    return out

def nullable_params():
    """{function: {parameter name}} documented '(nullable)' in the gtk-doc blocks"""
    out = {}
    for c in sorted(glob.glob(SRC + "/*.c")):
        for m in re.finditer(r"/\*\*(.*?)\*/", open(c, errors="replace").read(), flags=re.S):
            t = m.group(1); n = re.search(r"^\s*\*\s*(dex_\w+)\s*:", t, re.M)
            if not n: continue
            for q in re.finditer(r"^\s*\*\s*@(\w+)\s*:((?:\s*\([^)]*\))*)", t, re.M):
                if "(nullable)" in q.group(2): out.setdefault(n.group(1), set()).add(q.group(1))
    return out

def norm_type(t): return t.rstrip("*").replace("_", "").lower()

def is_object(P, t):
    """pointer to an object class of libdex or GIO"""
    if not t.endswith("*") or t.endswith("**"): return False
    b = t[:-1]
    if b in GOBJ: return True
    if not b.startswith("Dex"): return False
    if b == "DexObject": return True
    get = re.sub(r"(?<!^)([A-Z])", r"_\1", b).lower() + "_get_type"
    s = P.structs.get("_" + b)
    if not s: return get in P.funcs
    for _ in range(8):
        if not s or not s["f"]: break
        t = s["f"][0]["t"]
        if t in ("GTypeInstance", "GObject"): return True
        s = P.structs.get("_" + t)
    return get in P.funcs or get in P.by_base

def isa_facts(p, A):
    """[(known truth, type)] of the type checks of A on path p"""
    out = []
    for l, v in p.facts.items():
        neg = False
        while isinstance(l, tuple) and len(l) == 3 and l[0] in ("eq", "ne") and is0(l[2]): neg ^= l[0] == "eq"; l = l[1]
        if isinstance(l, tuple) and l[0] == "isa" and l[1] == A: out.append((bool(v) ^ neg, l[2]))
    return out

def object_field(P, b):
    """the address names a field of an object structure"""
    fs = []
    def rec(t):
        if isinstance(t, tuple):
            if t and t[0] in ("f", "field", "fld"): fs.append(t)
            for x in t: rec(x)
    rec(b)
    for t in fs:
        for x in t:
            if isinstance(x, str) and x.startswith("_Dex") and is_object(P, x[1:] + "*"): return True
    return False

def harmless(e):
    """reads nothing but its own frame and constants, and creates nothing"""
    if e.name.endswith("_get_type") or e.name.endswith("_quark") or e.name in ("g_get_monotonic_time", "dex_scheduler_get_thread_default", "dex_scheduler_get_default", "g_main_context_default"): return True
    return e.name.startswith("llvm.") and local_addr(e.args[0])

def type_name(t):
    return str(t[1]) if isinstance(t, tuple) and len(t) > 1 else str(t)

def run(ctx):
    P = ctx.P
    ctx.rule("reject", "on a path where a parameter fails its type check, the function only warns and returns its neutral value: no store, no lock, no other call involving shared state")
    ctx.rule("guard", "a parameter is dereferenced, locked, or handed to a class method, an internal function or a registration only on paths where it passed the check of its declared type; public functions that check it themselves may receive it as is")
    ctx.rule("type", "the type a parameter is checked against is its declared type")
    ctx.rule("nullable", "NULL for a parameter documented nullable is accepted without a warning and never dereferenced")
    pub = public_names(); ctx.count("public functions", len(pub))
    ctx.need(len(pub) > 100, "found no exported functions")
    doc = nullable_params()
    params = {}
    for f in roots(P):
        if f.base in pub and f.base not in UNCHECKED:
            for i, t in enumerate(f.ptypes[1:]):
                if t.endswith("*") or t in ("ptr", "gpointer"): params[(f.base, i)] = (f, t)
    S = St(ctx, P, params, pub)
    nf = 0
    for (name, i), (f, t) in sorted(params.items()):
        A = ("a", i); obj = is_object(P, t); who = "%s argument %d" % (name, i)
        rel, probs = S.param(f, i, t)
        names = f.pnames; label = names[i] if i < len(names) else None
        if obj or rel:
            nf += 1
            for r in ("guard", "reject", "type"):
                bad = [x for x in probs if x[0] == r]
                if not bad: ctx.ob(r, who, True)
                for _, w, txt in bad: ctx.ob(r, who, False, w, txt)
        if (obj or rel) and label in doc.get(name, ()):
            qs = table(P, f, K=1, args={i: NULL}, loads=ALL)
            ctx.ob("nullable", who, [q for q in qs if not warned(q) and not any(v for v, ty in isa_facts(q, NULL))], where(f), "NULL is rejected for '%s', which is documented nullable" % label)
            for q in qs:
                for e in q.events:
                    if e.kind in ("store", "load", "rmw") and root_of(e.args[0]) == NULL: ctx.ob("nullable", who, False, where(f, e), "NULL is dereferenced although '%s' is documented nullable" % label)
    ctx.count("object parameters", nf)
    ctx.need(nf > 100, "only %d object parameters found" % nf)

class All:
    def __contains__(self, x): return True
ALL = All()
def warned(p): return any(e.kind == "call" and e.name in WARN for e in p.events)
def neutral(r): return r is None or is0(r) or r in (("c", 0), ("c", -1), NULL, ZERO) or (isinstance(r, tuple) and r[0] in ("fp", "c") )

class St:
    def __init__(self, ctx, P, params, pub): self.ctx = ctx; self.P = P; self.params = params; self.pub = pub; self.memo = {}

    def param(self, f, i, t, depth=0):
        """(is the parameter used or checked as an object, [(rule, where, what)])"""
        k = (f.name, i)
        if k in self.memo: return self.memo[k]
        self.memo[k] = (True, [])
        P = self.P; A = ("a", i); obj = is_object(P, t); out = []; rel = obj
        try: ps = table(P, f, K=1, loads=ALL)
        except Limit as x: self.ctx.skipped.append(str(x)); return (True, [])
        self.ctx.count("paths", len(ps))
        for p in ps:
            known = isa_facts(p, A)
            bad = [ty for v, ty in known if not v]; good = [ty for v, ty in known if v]
            null = p.facts.get(A) is False or A == NULL
            for v, ty in known:
                rel = True
                if obj and norm_type(type_name(ty)) != norm_type(t): out.append(("type", where(f), "checked to be a %s instead of a %s" % (type_name(ty), t[:-1])))
            if bad and not good and not null:
                for e in p.events:
                    if e.kind in ("store", "rmw") and not local_addr(e.args[0]): out.append(("reject", where(f, e), "%s is written although the argument is not of its type" % show(e.args[0])[:80]))
                    elif e.kind in ("lock", "unlock"): out.append(("reject", where(f, e), "a lock is taken although the argument is not of its type"))
                    elif e.kind == "call" and e.name not in WARN and not harmless(e): out.append(("reject", where(f, e), "%s is called although the argument is not of its type" % e.name))
                if not warned(p): out.append(("reject", where(f), "a wrong argument is not reported"))
                if p.kind == "ret" and not neutral(p.ret): out.append(("reject", where(f), "a wrong argument yields %s" % show(p.ret)[:80]))
            if good: continue
            for e in p.events:
                if obj and t.startswith("Dex") and not null and e.kind == "store" and A in e.args[1:] and not local_addr(e.args[0]): out.append(("guard", where(f, e), "kept in %s without the type check" % show(e.args[0])[:80]))
                if e.kind in ("store", "load", "rmw", "lock"):
                    b = e.args[0]
                    if b != A and root_of(b) == A and (obj or object_field(P, b)):
                        rel = True
                        out.append(("guard", where(f, e), "%s is accessed without the type check" % show(b)[:80]))
                elif e.kind == "call" and e.name not in WARN and not null and any(x == A or root_of(x) == A for x in e.args):
                    for j, x in enumerate(e.args):
                        if x != A:
                            if isinstance(x, tuple) and root_of(x) == A and x[0] == "f" and (obj or object_field(P, x)):
                                rel = True; out.append(("guard", where(f, e), "%s is handed to %s without the type check" % (show(x)[:80], e.name)))
                            continue
                        if e.name.startswith("*"):
                            if obj: out.append(("guard", where(f, e), "handed to %s without the type check" % e.name))
                            continue
                        h = P.funcs.get(e.name) or (P.by_base.get(e.name) or [None])[0]
                        if not h or not h.blocks: continue          # GLib and libc check their own arguments
                        pt = h.ptypes[1 + j] if 1 + j < len(h.ptypes) else ""
                        if ((e.name, j) in self.params or e.name in UNCHECKED) and e.name in self.pub: continue   # judged as a public function itself
                        if not pt: continue
                        if obj or is_object(P, pt):
                            r2, o2 = self.param(h, j, pt, depth + 1)
                            rel = rel or r2
                            out += [(r, w, "%s (through %s)" % (x, h.base)) for r, w, x in o2 if r in ("guard",)]
        out = sorted(set(out))
        self.memo[k] = (rel, out)
        return self.memo[k]

def local_addr(a):
    r = root_of(a)
    return isinstance(r, tuple) and r[0] in ("al", "alloca", "loc")
