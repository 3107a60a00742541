"""the channel as a finite case table: every operation in every small reachable state, against a reference model of the three queues"""
from spec import *

CH = tok("channel"); SENT = tok("sent"); SENDF = tok("send-of-newitem"); NEWR = tok("newreceiver"); NEWI = tok("newitem")
QS = ("queue", "sendq", "recvq")

def states(tier, CS, CR):
    """reachable (buffered, blocked, receivers, capacity, flags): senders block only behind a full buffer, receivers wait only for an empty one"""
    big = tier == "thorough"; out = []
    for cap in (1, 2, 3) if big else (1, 2):
        for q in range(cap + 1):
            for s in range(4 if big else 3) if q == cap else (0,):
                for r in range(5 if big else 4) if q == 0 else (0,):
                    for fl in (CS | CR, CR): 
                        if fl == CR and r: continue
                        out.append((q, s, r, cap, fl))
        out += [(0, 0, 0, cap, CS), (0, 0, 0, cap, 0)]
    return out

def text(st, CS, CR): return "buffered %d, blocked %d, receivers %d, capacity %d, %s" % (st[0], st[1], st[2], st[3], {CS | CR: "open", CR: "send end closed", CS: "receive end closed", 0: "closed"}[st[4]])

def closed_error(P, t):
    """a new GError in the channel-closed code"""
    if call_of(t, "g_error_copy") and t[2][0] == ("g", "channel_closed_error"): return True
    if call_of(t, "g_error_new", "g_error_new_literal") and t[2][1] == ("c", P.enumval["DEX_ERROR_CHANNEL_CLOSED"]): return True
    return False

def closed_reject(P, t):
    if call_of(t, "dex_future_new_reject"): return t[2][1] == ("c", P.enumval["DEX_ERROR_CHANNEL_CLOSED"])
    if call_of(t, "dex_future_new_for_error"): return closed_error(P, t[2][0])
    return False

class World:
    def __init__(self, st):
        q, s, r, cap, fl = st
        self.items = [tok("item%d" % i) for i in range(q)]; self.blocked = [tok("blocked%d" % i) for i in range(s)]; self.recv = [tok("receiver%d" % i) for i in range(r)]
        self.mem = {(CH, "capacity"): ("c", cap), (CH, "flags"): fl}
        for x in self.items + self.blocked: self.mem[(x, "future")] = self.fut(x); self.mem[(x, "send")] = self.snd(x)
        lk = lambda x, S: ("f", x, S, "link")
        self.Q = Queues({("f", CH, "_DexChannel", "queue"): [lk(x, "_DexChannelItem") for x in self.items],
                         ("f", CH, "_DexChannel", "sendq"): [lk(x, "_DexChannelItem") for x in self.blocked],
                         ("f", CH, "_DexChannel", "recvq"): [lk(x, "_DexChannelReceiver") for x in self.recv]})
    def fut(self, x): return SENT if x == NEWI else tok("future-of-" + x[1])
    def snd(self, x): return SENDF if x == NEWI else tok("send-of-" + x[1])

def obj(ar, st):
    n = str(ar[0][1]) if ar and len(ar[0]) > 1 else ""
    return NEWR if "receiver" in n else SENDF if "promise" in n else tok("new-" + n)

def run_case(P, f, w, fl=None):
    calls = {"g_malloc0": NEWI, "g_malloc0_n": NEWI, "g_malloc": NEWI, "g_malloc_n": NEWI, "g_slice_alloc0": NEWI, "g_slice_alloc": NEWI, "dex_object_create_instance": obj, "g_type_create_instance": obj, "dex_promise_new": SENDF, "dex_promise_new_cancellable": SENDF, "dex_channel_receiver_new": NEWR}
    w.mem[(("f", NEWR, "_DexChannelReceiver", "link"), "data")] = NEWR
    return case(P, f, w.mem, calls, args={0: CH, 1: SENT}, queues=w.Q, K=10 + 2 * len(w.items + w.blocked + w.recv), locs=True, first=w.Q.ld, arrays=PtrArrays(), loads=("flags", "capacity", "length", "head", "tail"))

def flags_after(p, v):
    """the flags a path leaves behind"""
    for e in p.events:
        if e.kind == "store" and e.args[0][0] == "f" and e.args[0][1] == CH and (e.args[0][3] == "flags" or str(e.args[0][3]).startswith("bits@")):
            r = ev(e.args[1], lambda t, v=v: v if t[0] == "ld" and (fld(t[1], "_DexChannel", "flags") or t[1][0] == "f" and str(t[1][3]).startswith("bits@")) else None)
            v = None if r is None else r & 3
            if v is None: return None
    return v

class Out:
    """what one path did"""
    def __init__(self, P, w, p, fl):
        self.p = p; q = w.Q.at(p.events)
        name = lambda l: l[1] if l[0] == "f" else l
        self.q = [[name(l) for l in q.get(canon(("f", CH, "_DexChannel", k)), [])] for k in QS]
        self.flags = flags_after(p, fl)
        self.resolved = [unref_strip(e.args[0]) for e in p.events if e.kind == "call" and str(e.name).startswith("dex_promise_resolve_")] + \
            [unref_strip(e.args[0]) for e in pcalls(p, "dex_future_complete") if not is0(e.args[1]) and e.args[0][0] == "tok" and e.args[0][1].startswith("send-of")]
        rej = [e for e in pcalls(p, "dex_promise_reject")] + [e for e in pcalls(p, "dex_future_complete") if is0(e.args[1])]
        self.rejected = [unref_strip(e.args[0]) for e in rej]
        self.badcode = [e for e in rej if not closed_error(P, e.args[-1])]
        self.other = [e for e in pcalls(p, "dex_future_complete") if not is0(e.args[1]) and not (e.args[0][0] == "tok" and e.args[0][1].startswith("send-of"))]
        self.chained = [(unref_strip(e.args[0]), unref_strip(e.args[1])) for e in pcalls(p, "dex_future_chain")]
        self.freed = [e.args[0] for e in pcalls(p, "g_free", "g_slice_free1", "g_free_sized") if e.args and e.args[0][0] == "tok"] + [e.args[1] for e in pcalls(p, "g_slice_free1")]
        arr = PtrArrays().at(p.events); self.lists = arr
        gone = [a for e in pcalls(p, "g_ptr_array_unref", "g_ptr_array_free") for a in arr.get(e.args[0], ())]
        self.net = lambda t: nref(p, t) - nrel(p, t) - sum(1 for x in gone if x == t)
        self.sections = 0; self.torn = None; self.naked = None
        depth = 0; used = False; touched = [0]
        for i, e in enumerate(p.events):
            if e.kind == "call" and e.name in LOCKS and e.args and norm(e.args[0]) == objlock(CH): depth += 1; touched.append(0); continue
            if e.kind == "call" and e.name in UNLOCKS and e.args and norm(e.args[0]) == objlock(CH): depth -= 1; continue
            t = e.args[0] if e.args else None
            mine = isinstance(t, tuple) and t[0] == "f" and (t[1] == CH and t[2] == "_DexChannel" or t[1][0] == "f" and t[1][1] == CH and t[1][2] == "_DexChannel")
            if mine and (e.kind == "store" or e.kind == "load" and t[3] != "capacity" or e.kind == "call" and str(e.name).startswith("g_queue_")):
                if not depth: self.naked = self.naked or e
                elif e.kind != "load": touched[-1] += 1
                elif e.kind == "load": touched[-1] += 0
        self.sections = sum(1 for x in touched if x)

def model(op, st, w, CS, CR):
    """reference model: (queues, flags, resolved, rejected, chained, freed items, accepted)"""
    q, s, r, cap, fl = st
    Q, S, R = list(w.items), list(w.blocked), list(w.recv)
    resolved, rejected, chained, freed = [], [], [], []; ok = True
    def pair():
        if Q and R:
            i, x = Q.pop(0), R.pop(0); chained.append((w.fut(i), x)); freed.append(i)
            if S and len(Q) < cap: y = S.pop(0); Q.append(y); resolved.append(w.snd(y))
    if op == "send":
        ok = fl & (CS | CR) == CS | CR
        if ok:
            if not S and len(Q) < cap: Q.append(NEWI); resolved.append(SENDF); pair()
            else: S.append(NEWI)
        else: freed.append(NEWI)
    elif op == "receive":
        ok = bool(fl & CR) and (bool(fl & CS) or len(Q) + len(S) > len(R))
        if ok: R.append(NEWR); pair()
        else: rejected.append(NEWR)
    elif op == "receive_all":
        ok = bool(fl & CR)
        if ok and Q:
            freed += Q; Q[:] = []
            while S and len(Q) < cap: y = S.pop(0); Q.append(y); resolved.append(w.snd(y))
    elif op in ("close_send", "close_receive", "finalize"):
        if op != "close_receive":
            fl &= ~CS
            while len(R) > len(Q) + len(S): rejected.append(R.pop())
        if op != "close_send":
            fl &= ~CR; rejected += R + [w.snd(x) for x in S]; freed += Q + S; Q[:] = []; S[:] = []; R[:] = []
    return [Q, S, R], fl, resolved, rejected, chained, freed, ok

OPS = ("send", "receive", "receive_all", "close_send", "close_receive", "finalize")
def sweep(ctx, P, judge):
    CS, CR = P.enumval.get("DEX_CHANNEL_STATE_CAN_SEND", 1), P.enumval.get("DEX_CHANNEL_STATE_CAN_RECEIVE", 2)
    fin = P.vtables().get(("_DexObjectClass", "finalize"), {}).get("dex_channel")
    n = rows = 0
    for op in OPS:
        f = P.funcs.get(fin) if op == "finalize" else P.fn("dex_channel_" + op)
        if f is None: ctx.ob("release", "channel finaliser", False, "src/dex-channel.c", "the channel has no finaliser"); continue
        more = [x for k in sizes(P, f, depth=2) for x in ((k, 0, 0, k + 1, CS | CR), (1, k, 0, 1, CS | CR), (k, k, 0, k, CS | CR), (0, 0, k, 1, CS | CR), (k, k, 0, k, CR))]
        for st in states(ctx.tier, CS, CR) + more:
            if op == "finalize" and st[2]: continue      # whoever waits in receive holds the channel only by its caller: allowed
            w = World(st); rows += 1
            ps = run_case(P, f, w)
            n += len(ps)
            judge(op, f, st, w, ps, model(op, st, w, CS, CR), "%s with %s" % (op, text(st, CS, CR)), CS, CR)
    ctx.count("decision_table_rows", rows); ctx.count("abstract_paths", n)
