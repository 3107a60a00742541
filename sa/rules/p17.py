"""channel: order, capacity, progress"""
from rules.chan import *

def run(ctx):
    P = ctx.P
    ctx.rule("queues", "after every operation the buffer, the blocked senders and the waiting receivers are exactly those of a first-in-first-out channel of that capacity")
    ctx.rule("resolved", "exactly the sends whose items entered the buffer are resolved, once each; nothing else is settled")
    ctx.rule("pair", "an item and a waiting receiver that meet are paired in order: the receiver is chained once to the item's future")
    ctx.rule("identity", "send returns the future that is resolved for its own item, receive the receiver it queued, receive-all the buffered futures in order")
    ctx.rule("release", "every item that leaves the channel is freed once and its references balance")
    ctx.rule("atomic", "an operation reads and changes the channel inside one critical section")
    ctx.rule("capacity", "the capacity asked for is the one used, 0 meaning unlimited")
    def judge(op, f, st, w, ps, want, txt, CS, CR):
        if op not in ("send", "receive", "receive_all"): return
        (Q, S, R), fl, resolved, rejected, chained, freed, okay = want
        if not okay: return                              # decided by P18
        ctx.ob("queues", txt + " (handled)", ps, where(f), "no path handles this case")
        for p in ps:
            o = Out(P, w, p, st[4])
            nm = lambda l: "[%s]" % ", ".join(show(x) for x in l)
            for k, a, b in zip(QS, o.q, (Q, S, R)): ctx.ob("queues", txt + ": " + k, a == b, where(f), "%s: %s becomes %s instead of %s" % (txt, k, nm(a), nm(b)))
            ctx.ob("queues", txt + ": flags", o.flags == fl, where(f), "the channel changes its state flags")
            ctx.ob("resolved", txt, sorted(o.resolved) == sorted(resolved), where(f), "%s: resolves %s instead of %s" % (txt, nm(o.resolved), nm(resolved)))
            ctx.ob("resolved", txt + ": nothing rejected", not o.rejected and not o.other, where(f), "%s: %s is rejected" % (txt, nm(o.rejected)))
            ctx.ob("pair", txt, o.chained == chained, where(f), "%s: chains %s" % (txt, "; ".join("%s to %s" % (show(b), show(a)) for a, b in o.chained) or "nothing"))
            ctx.ob("atomic", txt, o.naked is None and o.sections <= 1, where(f, o.naked) if o.naked else where(f), "%s: the channel is touched outside its lock or in two critical sections" % txt)
            new = op == "send"
            alli = w.items + w.blocked + ([NEWI] if new else [])
            ctx.ob("release", txt + ": items", sorted(x for x in o.freed if x in alli) == sorted(freed), where(f), "%s: frees %s instead of %s" % (txt, nm(o.freed), nm(freed)))
            for x in alli:
                gone = x in freed
                # the future of an item goes with it, or to the caller
                if op == "receive_all" and gone:
                    kept = sum(1 for l in o.lists.values() for y in l if y == w.fut(x))
                    ctx.ob("release", txt + ": futures", o.net(w.fut(x)) == -1, where(f), "%s: the reference on the future of %s becomes %+d" % (txt, show(x), o.net(w.fut(x))))
                else: ctx.ob("release", txt + ": futures", o.net(w.fut(x)) == (-1 if gone else 0), where(f), "%s: the reference on the future of %s becomes %+d" % (txt, show(x), o.net(w.fut(x))))
                b = (0 if gone else 1) if x == NEWI else (-1 if gone else 0)
                ctx.ob("release", txt + ": sends", o.net(w.snd(x)) == b, where(f), "%s: the reference on the send future of %s becomes %+d" % (txt, show(x), o.net(w.snd(x))))
            for x in w.recv + ([NEWR] if op == "receive" else []):
                gone = x not in R
                b = (0 if gone else 1) if x == NEWR else (-1 if gone else 0)
                ctx.ob("release", txt + ": receivers", o.net(x) == b, where(f), "%s: the reference on %s becomes %+d" % (txt, show(x), o.net(x)))
            for i, e in enumerate(p.events):
                if e.kind == "call" and e.name == "dex_future_chain":
                    dead = [x for x in p.events[:i] if x.kind == "call" and x.name == "dex_unref" and x.args[0] in (unref_strip(e.args[0]), unref_strip(e.args[1])) and nref(p, x.args[0]) == 0]
                    ctx.ob("pair", txt + ": alive", not dead, where(f, e), "%s: chains what it has already released" % txt)
            if op == "send": ctx.ob("identity", txt, unref_strip(p.ret) == SENDF, where(f), "%s: returns %s" % (txt, show(p.ret)))
            elif op == "receive": ctx.ob("identity", txt, unref_strip(p.ret) == NEWR, where(f), "%s: returns %s" % (txt, show(p.ret)))
            else:
                r = p.ret
                if w.items:
                    ok = call_of(r, "dex_future_allv") and r[2][0][0] == "tok" and r[2][0][1].endswith("-data") and o.lists.get(tok(r[2][0][1][:-5])) == [w.fut(x) for x in w.items] and r[2][1] == ("c", len(w.items))
                    ctx.ob("identity", txt, ok, where(f), "%s: returns %s" % (txt, show(r)))
                    ctx.ob("identity", txt + ": kept until collected", not [x for x in w.items if any(e.kind == "call" and e.name == "dex_unref" and e.args[0] == w.fut(x) and nref(p, w.fut(x)) == 0 for e in p.events)], where(f), "an item's future is released before it is returned")
                else:
                    rc = pcalls(p, "dex_channel_receive")
                    ok = len(rc) == 1 and rc[0].args[0] == CH and call_of(r) and r[1] in ("dex_future_all", "dex_future_allv") 
                    ctx.ob("identity", txt, ok, where(f), "%s: does not wait for the next item but returns %s" % (txt, show(r)))
    sweep(ctx, P, judge)
    f = P.fn("dex_channel_new"); CS, CR = P.enumval.get("DEX_CHANNEL_STATE_CAN_SEND", 1), P.enumval.get("DEX_CHANNEL_STATE_CAN_RECEIVE", 2)
    for v in (0, 1, 2, 7, 0x7fffffff, 0x80000000, 0xffffffff):
        ps = case(P, f, {}, {"dex_object_create_instance": CH}, args={0: ("c", v)})
        ctx.ob("capacity", "dex_channel_new(%d) (handled)" % v, ps, where(f), "no path")
        for p in ps:
            got = ev(final(p, CH, "capacity", ZERO), lambda t: None); want = 0xffffffff if v == 0 else v
            ctx.ob("capacity", "dex_channel_new(%d)" % v, got is not None and got & 0xffffffff == want, where(f), "capacity becomes %s" % show(final(p, CH, "capacity", ZERO)))
            ctx.ob("capacity", "new channel returned", unref_strip(p.ret) == CH, where(f), "returns %s" % show(p.ret))
