"""P14: every completion carries exactly one outcome, with a usable error"""
from spec import *

SINKS = {"dex_future_complete": (1, 2), "dex_static_future_new_resolved": (0, None), "dex_static_future_new_rejected": (None, 0), "dex_future_new_for_value": (0, None), "dex_future_new_for_error": (None, 0),
         "dex_promise_resolve": (1, None), "dex_promise_reject": (None, 1), "dex_async_pair_return_error": (None, 1)}
MAKE = {"g_error_new": 0, "g_error_new_literal": 0, "g_error_new_valist": 0, "g_set_error": 1, "g_set_error_literal": 1, "dex_future_new_reject": 0}
NN = {"g_error_new", "g_error_new_literal", "g_error_new_valist", "g_error_copy"}

def run(ctx):
    P = ctx.P
    ctx.rule("one", "every call that settles a future, on every path: exactly one of value and error is there (shown non-NULL, the other NULL, or both parts of one outcome read with dex_future_get_value or a finish function)")
    ctx.rule("code", "every error made by the library: a constant error domain known to be registered, a code that is an enumerator of that domain, and a message")
    dex = {v for k, v in P.enumval.items() if k.startswith("DEX_ERROR_")}
    gio = {0, 19}      # the library itself makes cancellations (and could make plain failures); everything else is translated from errno
    ctx.rule("format", "the arguments of a formatted message are read between va_start and va_end only")
    for f in P.defined.values():
        bad, uses = va_misuse(P, f)
        if uses and f.base in ("dex_future_new_reject",) or bad and any(i.f[1].startswith(("g_error", "g_strdup_v", "g_logv")) for i, w in bad):
            ctx.ob("format", f.base, not bad, f.where(bad[0][0]) if bad else where(f), bad[0][1] if bad else "")
    ctx.need(len(dex) >= 8, "no error codes of the library")
    sites = nf = npaths = 0
    statics = set()
    for name, f in sorted(P.defined.items()):
        used = {i.f[1] for b in f.blocks for i in b if i.op == "call" and i.f and i.f[0] == "g"}
        if not used & (set(SINKS) | set(MAKE)): continue
        nf += 1
        ps = traces(P, f, set(SINKS) | set(MAKE) | NN, facts=True, locks=False, K=1, keep=relevant)
        npaths += len(ps)
        api = f.base in SINKS
        seen = {}
        for p in ps:
            if misuse(p) or settled_without_error(p.facts): continue
            for e in p.events:
                if e.kind != "call": continue
                if e.name in SINKS:
                    if e.name == f.base: continue
                    vi, ei = SINKS[e.name]; fa = fx(e)
                    v = e.args[vi] if vi is not None else NULL
                    er = e.args[ei] if ei is not None else NULL
                    k = (e.inst.id, e.name)
                    ok, why = one(P, f, v, er, vi, ei, fa, p, e)
                    s = seen.setdefault(k, [True, "", e]); 
                    if not ok: s[0], s[1] = False, why
                if e.name in MAKE:
                    o = MAKE[e.name]
                    if len(e.args) < o + 2: continue
                    d, c = e.args[o], e.args[o + 1]; m = e.args[o + 2] if len(e.args) > o + 2 else None
                    s = seen.setdefault((e.inst.id, "code"), [True, "", e])
                    if d[0] == "a" and c[0] == "a": continue    # the caller's own error, passed through
                    dn = d[1] if d[0] == "call" else None
                    ok = True; why = ""
                    if dn is None or not dn.endswith("_quark"): ok, why = False, "the error domain is %s" % show(d)
                    elif c[0] == "call" and c[1] == "g_io_error_from_errno" and dn == "g_io_error_quark": pass
                    elif dn == "dex_error_quark" and not (c[0] == "c" and c[1] in dex): ok, why = False, "%s is not a code of the library's error domain" % show(c)
                    elif dn == "g_io_error_quark" and not (c[0] == "c" and c[1] in gio): ok, why = False, "%s is no cancellation, which is all the library itself reports in the I/O error domain besides errno" % show(c)
                    if ok and m is not None and is0(m): ok, why = False, "the error has no message"
                    if not ok: s[0], s[1] = False, why
                for a in e.args:
                    if a[0] == "g" and e.name == "g_error_copy": statics.add(a[1])
        for (iid, what), (ok, why, e) in sorted(seen.items(), key=lambda x: str(x[0])):
            sites += 1
            ctx.ob("code" if what == "code" else "one", "%s: %s at %s" % (f.base, e.name, loc(e)), ok, where(f, e), why)
    # constant errors are filled in before use
    for g in sorted(statics):
        dom = []
        for name, f in P.defined.items():
            for b in f.blocks:
                for i in b:
                    if i.op == "store" and i.a[1][:2] == ["g", g] or i.op == "store" and i.a[1][0] == "gep" and i.a[1][1] == ["g", g]: dom.append((f, i))
        gl = P.globals.get(g) if hasattr(P, "globals") else None
        ctx.ob("code", "constant error %s has a domain" % g, dom or gl, g, "the domain of the shared error is never set")
    ctx.count("functions_analysed", nf); ctx.count("completion_and_error_sites", sites); ctx.count("paths", npaths)
    ctx.need(sites > 20, "hardly any completion sites were found")

def relevant(l):
    """facts that can matter for which outcome is given"""
    t = l[1]
    if t[0] == "cmp": t = t[2]
    if t[0] == "op" and t[2]: t = t[2][0]
    if t[0] == "call": return not t[1].startswith(("g_queue", "g_mutex", "g_type", "g_weak"))
    if t[0] == "ld": return t[1][0] == "alloca" or t[1][0] == "f" and t[1][3] in ("status", "rejected")
    return t[0] in ("a", "phi")

def settled_without_error(facts):
    """a path on which a future that is settled but not resolved holds no error: excluded by what completing stores"""
    for l, v in facts.items():
        if v and l[0] == "eq" and l[2] in (NULL, ZERO) and l[1][0] == "ld" and l[1][1][0] == "f" and l[1][1][3] == "rejected":
            x = l[1][1][1]
            if any(not tv and k[0] == "eq" and k[1][0] == "ld" and k[1][1][0] == "f" and k[1][1][3] in ("status",) and k[1][1][1] == x for k, tv in facts.items()): return True
            if x[0] == "a": return True
    return False

def loc(e):
    l = getattr(e.inst, "loc", None)
    return "call %d" % e.inst.id

def nullness(P, f, t, fa, p):
    """True: NULL, False: something, None: unknown"""
    while t[0] == "call" and t[1] == "g_steal_pointer": t = t[2][0]
    if is0(t): return True
    if t[0] in ("alloca", "g", "f", "s"): return False
    if t[0] == "call" and t[1] in NN: return False
    for d in (fa, p.facts):
        for k, v in d.items():
            if k == ("eq", t, NULL): return v
            if k[0] == "eq" and k[1] == t and k[2] == ZERO: return v
    return None

def one(P, f, v, er, vi, ei, fa, p, e):
    v, er = unsel(v, fa), unsel(er, fa)
    if v[0] == "sel" or er[0] == "sel":
        c = v[1] if v[0] == "sel" else er[1]
        pick = lambda t, b: t[2 if b else 3] if t[0] == "sel" and t[1] == c else t
        r = [one(P, f, pick(v, b), pick(er, b), vi, ei, fa, p, e) for b in (True, False)]
        return (all(x[0] for x in r), next((x[1] for x in r if not x[0]), "")) if pick(v, True) != v or pick(er, True) != er else (False, "cannot be shown to be one outcome")
    nv, ne = nullness(P, f, v, fa, p), nullness(P, f, er, fa, p)
    if nv is True and ne is True: return False, "neither a value nor an error is given"
    if nv is False and ne is False: return False, "both a value and an error are given"
    if (nv, ne) in ((True, False), (False, True)): return True, ""
    # both halves of one reported outcome
    cv = v if v[0] == "call" else None
    if cv is None and nv is True:
        # the failed half: value known NULL because the call failed
        for l, tv in fa.items():
            if tv and l[0] == "eq" and l[2] in (NULL, ZERO) and l[1][0] == "call" and errloc(l[1], er): return True, ""
    if cv is not None and errloc(cv, er): return True, ""
    if cv is not None and cv[1] == "dex_future_get_value" and is0(er): return False, "the outcome of another future is copied without its error"
    if nv is None and ne is True:
        if v[0] == "a": return True, ""   # the caller's own value: its presence is a precondition, see P31
        return False, "%s may be NULL while no error is given" % show(v)
    if ne is None and nv is True:
        if er[0] == "a": return True, ""
        if er[0] == "ld" and er[1][0] == "alloca":
            for x in p.events:
                pass
            # an error location some call was given, and that is not known to be still empty
            for l, tv in list(fa.items()) + list(p.facts.items()):
                if l[0] == "eq" and l[1] == er and l[2] in (NULL, ZERO): return (not tv), "the error is not set"
            if any(l[0] == "eq" and l[1][0] in ("call",) and errarg(l[1], er[1]) for l in fa): return True, ""
        return False, "%s may be NULL while no value is given" % show(er)
    return False, "%s and %s: cannot be shown to be one outcome" % (show(v), show(er))

def unsel(t, fa):
    """a choice whose condition is known on this path"""
    if t[0] != "sel": return t
    c = t[1]; env = lambda x: next((0 for l, v in fa.items() if v and l == ("eq", x, ZERO)), next((1 for l, v in fa.items() if not v and l == ("eq", x, ZERO)), None))
    r = ev(c, env)
    return t if r is None else unsel(t[2] if r else t[3], fa)

def errarg(c, addr): return any(a == addr for a in c[2])
def errloc(c, er):
    return er[0] == "ld" and errarg(c, er[1])
