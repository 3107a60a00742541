"""channel: closing"""
from rules.chan import *

def run(ctx):
    P = ctx.P
    ctx.rule("refused", "send is accepted only while both ends are open, receive only while the receive end is open and an item can still arrive, receive-all only while the receive end is open; a refused operation changes nothing and is rejected as closed")
    ctx.rule("accepted", "no operation an open channel can serve is refused")
    ctx.rule("flags", "each close clears its own flag (the finaliser both) and no operation ever sets one again")
    ctx.rule("close", "closing leaves exactly the elements that can still be served: the receive end takes everything, the send end the newest receivers in excess of the items")
    ctx.rule("settle", "every waiting receiver and blocked sender taken by a close is rejected exactly once as closed, after the lock is released; a send that was already accepted is not rejected")
    ctx.rule("release", "everything taken by a close is released and freed exactly once, and nothing else")
    ctx.rule("atomic", "the flag changes and the elements are taken inside one critical section")
    ctx.rule("getters", "can_send and can_receive report their own flag")
    def judge(op, f, st, w, ps, want, txt, CS, CR):
        (Q, S, R), fl, resolved, rejected, chained, freed, okay = want
        nm = lambda l: "[%s]" % ", ".join(show(x) for x in l)
        ctx.ob("flags", txt + " (handled)", ps, where(f), "no path handles this case")
        for p in ps:
            o = Out(P, w, p, st[4])
            ctx.ob("flags", txt, o.flags == fl, where(f), "%s: the state flags become %s instead of %s" % (txt, o.flags, fl))
            closing = op in ("close_send", "close_receive", "finalize")
            if closing or not okay:
                rule = "close" if closing else "refused"
                for k, a, b in zip(QS, o.q, (Q, S, R)): ctx.ob(rule, txt + ": " + k, a == b, where(f), "%s: %s becomes %s instead of %s" % (txt, k, nm(a), nm(b)))
                ctx.ob("atomic", txt, o.naked is None and o.sections <= 1, where(f, o.naked) if o.naked else where(f), "%s: the channel is touched outside its lock or in two critical sections" % txt)
                ctx.ob("settle", txt + ": nothing served", not o.resolved and not o.chained and not o.other, where(f), "%s: serves something" % txt)
                mine = w.recv + [w.snd(x) for x in w.items + w.blocked] + ([NEWR] if op == "receive" else []) + ([SENDF] if op == "send" else [])
                ctx.ob("settle" if closing else "refused", txt, sorted(x for x in o.rejected if x in mine) == sorted(rejected), where(f), "%s: rejects %s instead of %s" % (txt, nm(o.rejected), nm(rejected)))
                for e in o.badcode: ctx.ob("settle", txt + ": code", False, where(f, e), "%s: rejects with another error than channel-closed" % txt)
                for i, e in enumerate(p.events):
                    if e.kind == "call" and e.name in ("dex_promise_reject", "dex_future_complete"):
                        ctx.ob("settle", txt + ": unlocked", not held_at(p, i), where(f, e), "%s: rejects while holding the lock" % txt)
                        t = unref_strip(e.args[0])
                        ctx.ob("settle", txt + ": alive", not [x for x in p.events[:i] if x.kind == "call" and x.name in ("dex_unref", "g_free") and x.args[0] == t] or nref(p, t) > 0, where(f, e), "%s: rejects what it has already released" % txt)
                alli = w.items + w.blocked + ([NEWI] if op == "send" else [])
                made = NEWI in [e.res for e in p.events if e.kind == "call" and e.res is not None]
                if op == "send" and not made: alli.remove(NEWI); freed = [x for x in freed if x != NEWI]; ctx.ob("release", txt + ": future", o.net(SENT) == -1, where(f), "%s: the future passed in is not released" % txt)
                ctx.ob("release", txt + ": items", sorted(x for x in o.freed if x in alli + [NEWI]) == sorted(freed), where(f), "%s: frees %s instead of %s" % (txt, nm(o.freed), nm(freed)))
                for x in alli:
                    gone = x in freed
                    ctx.ob("release", txt + ": futures", o.net(w.fut(x)) == (-1 if gone else 0), where(f), "%s: the reference on the future of %s becomes %+d" % (txt, show(x), o.net(w.fut(x))))
                    ctx.ob("release", txt + ": sends", o.net(w.snd(x)) == (-1 if gone else 0), where(f), "%s: the reference on the send future of %s becomes %+d" % (txt, show(x), o.net(w.snd(x))))
                for x in w.recv:
                    ctx.ob("release", txt + ": receivers", o.net(x) == (-1 if x not in R else 0), where(f), "%s: the reference on %s becomes %+d" % (txt, show(x), o.net(x)))
            if not closing:
                rej = closed_reject(P, p.ret) or unref_strip(p.ret) == NEWR and NEWR in o.rejected and not o.badcode
                if okay: ctx.ob("accepted", txt, not rej, where(f), "%s: refused although it can be served" % txt)
                else: ctx.ob("refused", txt + ": rejected", rej, where(f), "%s: a refused operation returns %s" % (txt, show(p.ret)))
                if op == "receive" and rej: ctx.ob("refused", txt + ": reference", o.net(NEWR) == 0, where(f), "%s: the refused receiver's reference becomes %+d" % (txt, o.net(NEWR)))
    sweep(ctx, P, judge)
    CS, CR = P.enumval.get("DEX_CHANNEL_STATE_CAN_SEND", 1), P.enumval.get("DEX_CHANNEL_STATE_CAN_RECEIVE", 2)
    for fn, bit in (("dex_channel_can_send", CS), ("dex_channel_can_receive", CR)):
        f = P.fn(fn)
        for v in range(4):
            ps = case(P, f, {(CH, "flags"): v}, args={0: CH})
            for p in ps: ctx.ob("getters", "%s(flags=%d)" % (fn, v), ev(p.ret, lambda t: None) == int(bool(v & bit)), where(f), "returns %s" % show(p.ret))
            ctx.ob("getters", "%s(flags=%d) (handled)" % (fn, v), ps, where(f), "no path")
    f = P.fn("dex_channel_new")
    for p in case(P, f, {}, {"dex_object_create_instance": CH}, args={0: ("c", 4)}):
        ctx.ob("flags", "new channel is open at both ends", flags_after(p, 0) == CS | CR, where(f), "flags start as %s" % flags_after(p, 0))
