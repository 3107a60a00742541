"""P16: each wrapper of a GIO asynchronous call pairs start, finish, cancellation and reference correctly"""
from spec import *
from rules.p15 import made_error

A0, A1, A2 = ("a", 0), ("a", 1), ("a", 2)
FI, INET, BYTES = ("gtype", "dex_file_info_list"), ("gtype", "dex_inet_address_list"), ("gtype", "g_bytes")
# wrapper: (operation started, what its finish function yields)
T = {
 "dex_input_stream_read": ("g_input_stream_read_async", "int64"), "dex_input_stream_read_bytes": ("g_input_stream_read_bytes_async", ("boxed", BYTES)),
 "dex_input_stream_skip": ("g_input_stream_skip_async", "int64"), "dex_input_stream_close": ("g_input_stream_close_async", "boolean"),
 "dex_output_stream_write": ("g_output_stream_write_async", "int64"), "dex_output_stream_write_bytes": ("g_output_stream_write_bytes_async", "int64"),
 "dex_output_stream_splice": ("g_output_stream_splice_async", "int64"), "dex_output_stream_close": ("g_output_stream_close_async", "boolean"),
 "dex_io_stream_close": ("g_io_stream_close_async", "boolean"), "dex_file_read": ("g_file_read_async", "object"), "dex_file_replace": ("g_file_replace_async", "object"),
 "dex_file_copy": ("g_file_copy_async", "boolean"), "dex_file_make_directory": ("g_file_make_directory_async", "boolean"), "dex_file_query_info": ("g_file_query_info_async", "object"),
 "dex_file_query_exists": ("g_file_query_info_async", "exists"), "dex_file_enumerate_children": ("g_file_enumerate_children_async", "object"),
 "dex_file_enumerator_next_files": ("g_file_enumerator_next_files_async", ("boxed", FI)), "dex_file_load_contents_bytes": ("g_file_load_contents_async", "contents"),
 "dex_dbus_connection_call": ("g_dbus_connection_call", "variant"), "dex_dbus_connection_call_with_unix_fd_list": ("g_dbus_connection_call_with_unix_fd_list", "variant+fds"),
 "dex_dbus_connection_send_message_with_reply": ("g_dbus_connection_send_message_with_reply", "object"), "dex_bus_get": ("g_bus_get", "object"),
 "dex_resolver_lookup_by_name": ("g_resolver_lookup_by_name_async", ("boxed", INET)), "dex_socket_client_connect": ("g_socket_client_connect_async", "object"),
 "dex_socket_listener_accept": ("g_socket_listener_accept_async", "object"), "dex_subprocess_wait_check": ("g_subprocess_wait_check_async", "boolean"),
}
SET = {"dex_async_pair_return_error": "error", "dex_promise_reject": "error", "dex_async_pair_return_object": "object", "dex_async_pair_return_boolean": "boolean", "dex_async_pair_return_int64": "int64",
       "dex_async_pair_return_uint64": "uint64", "dex_async_pair_return_boxed": "boxed", "dex_async_pair_return_variant": "variant", "dex_async_pair_return_string": "string",
       "dex_promise_resolve_object": "object", "dex_promise_resolve_boolean": "boolean", "dex_promise_resolve_int64": "int64", "dex_promise_resolve_variant": "variant", "dex_promise_resolve_string": "string"}

def run(ctx):
    P = ctx.P
    ctx.rule("start", "every wrapper: its operation is started exactly once, all arguments of the wrapper are passed on in order and unchanged, the rest are constants, the cancellable is that of the future returned, and the callback is handed a reference of its own to that future")
    ctx.rule("finish", "every callback: the finish function of the operation its wrapper started is called exactly once, with the source object (if it takes one) and the result")
    ctx.rule("settle", "every callback, success and failure: the future is settled exactly once, with the very value finished (zero and end-of-list included) as the right type, or with the reported error")
    ctx.rule("release", "every callback: the operation's reference is dropped exactly once after settling; error and result have exactly one owner afterwards")
    n = nw = 0
    found = {}
    for name in T: found[name] = P.funcs.get(name)
    cbs = {}
    for name, f in found.items():
        if not ctx.need(f and name in P.defined or f, "no function %s" % name): continue
        op, kind = T[name]
        NEW, PROM, ALL = tok("pair"), tok("promise"), tok("both"); C = {NEW: tok("cancel-pair"), PROM: tok("cancel-promise")}
        calls = {"dex_object_create_instance": NEW, "dex_promise_new_cancellable": PROM, "dex_promise_new": PROM, "dex_promise_get_cancellable": lambda a, st: C.get(a[0]), "dex_async_pair_get_cancellable": lambda a, st: C.get(a[0]),
                 "dex_future_all": ALL, "dex_future_allv": ALL, "g_type_check_instance_is_fundamentally_a": 1}
        ps = case(P, f, {(NEW, "cancellable"): C[NEW], (PROM, "cancellable"): C[PROM]}, calls, K=3); n += len(ps); nw += 1
        ctx.ob("start", name + " (handled)", ps, where(f), "no path")
        for p in ps:
            s = [e for e in p.events if e.kind == "call" and any(a[0] == "g" and a[1] in P.defined for a in e.args)]
            ctx.ob("start", name + ": started once", len(s) == 1 and s[0].name == op, where(f), "starts %s" % ([e.name for e in s] or "nothing"))
            if len(s) != 1: continue
            e = s[0]; fut = p.ret
            ctx.ob("start", name + ": returns its future", fut in (NEW, PROM, ALL), where(f), "returns %s" % (show(fut) if fut else "nothing"))
            nargs = len(f.args)
            mine = [a for a in e.args if a[0] == "a"]
            ctx.ob("start", name + ": passes its arguments on", [a[1] for a in mine] == list(range(nargs)), where(f, e), "passes on arguments %s of %d" % ([a[1] for a in mine], nargs))
            rest = [a for a in e.args if a[0] not in ("a", "c", "n", "s", "g")]
            can = [a for a in rest if a in C.values()]; ud = [a for a in rest if a in (NEW, PROM, ALL)]
            ctx.ob("start", name + ": nothing else is passed", len(rest) == len(can) + len(ud), where(f, e), "passes %s" % ", ".join(show(a) for a in rest))
            parts = {fut} | ({x for c in pcalls(p, "dex_future_all", "dex_future_allv") for x in c.args} if fut == ALL else set())
            ctx.ob("start", name + ": cancellable of its own future", len(can) == 1 and any(C.get(x) == can[0] for x in parts), where(f, e), "the operation is given %d cancellables of its future" % len(can))
            ctx.ob("start", name + ": callback gets the future", ud == [fut] and e.args[-1] == fut, where(f, e), "the callback is given %s" % [show(x) for x in ud])
            refs = nref(p, fut) - nrel(p, fut)
            rp = [pos(p, x) for x in pcalls(p, "dex_ref") if x.args[0] == fut]
            ctx.ob("start", name + ": a reference for the callback", refs == 1 and rp and rp[0] < pos(p, e), where(f, e), "the operation holds %d references" % refs)
            ctx.ob("start", name + ": not settled early", not [x for x in p.events if x.kind == "call" and x.name in SET], where(f), "settles the future before the operation has finished")
            cb = [a[1] for a in e.args if a[0] == "g" and a[1] in P.defined]
            if len(cb) == 1: cbs.setdefault(cb[0], set()).add(name)
    for cbn, ws in sorted(cbs.items()):
        f = P.funcs[cbn]; ops = {T[w][0] for w in ws}; kinds = {T[w][1] for w in ws}
        ctx.ob("finish", cbn + ": one operation per callback", len(ops) == 1 and len(kinds) == 1, where(f), "completes %s" % sorted(ops))
        if len(ops) != 1 or len(kinds) != 1: continue
        op, kind = only(ops), only(kinds)
        fin = (op[:-6] if op.endswith("_async") else op) + "_finish"
        SRC, RES, FUT = tok("source"), tok("result"), tok("future")
        ok = {"object": [tok("object")], "boolean": [1], "int64": [0, 1, tok("size")], "variant": [tok("variant")], "exists": [tok("object")], "contents": [1], "variant+fds": [tok("variant")]}.get(kind, [tok("boxed")] + ([NULL] if kind[1] in (FI,) else []))
        bad = {"boolean": 0, "contents": 0, "int64": -1}.get(kind, NULL)
        for val in ok + ["error"]:
            E = tok("reported"); fails = val == "error"; DATA, LEN, FDS = tok("contents"), tok("length"), tok("fds")
            def finish(a, st):
                outs = []
                outs.append((a[-1], E if fails else NULL))
                if not fails and kind == "contents":
                    outs += [(a[2], DATA)] if a[2] != NULL else []
                    outs += [(a[3], LEN)] if a[3] != NULL else []
                elif not fails and kind == "variant+fds": outs += [(a[1], FDS)] if a[1] != NULL else []
                return [bad if fails else val, [o for o in outs if o[0] != NULL]]
            P0, P1 = tok("pair"), tok("promise"); BY = tok("bytes"); EC = tok("error-copy")
            calls = {fin: finish, "dex_future_set_get_future_at": lambda a, st: {0: P0, 1: P1}.get(a[1][1]) if a[0] == FUT and a[1][0] == "c" else None,
                     "g_bytes_new_take": lambda a, st: BY if a == (DATA, LEN) else None, "g_error_copy": lambda a, st: EC if a[0] == E else None, "g_type_check_instance_is_fundamentally_a": 1}
            ps = case(P, f, {}, calls, args={0: SRC, 1: RES, 2: FUT}, K=3); n += len(ps)
            txt = "%s, %s" % (cbn, "failure" if fails else "result %s" % (val if isinstance(val, int) else show(val)))
            ctx.ob("settle", txt + " (handled)", ps, where(f), "no path for this case")
            for p in ps:
                fc = [e for e in p.events if e.kind == "call" and (e.name.endswith("_finish") or e.name.endswith("_finish_sync"))]
                ctx.ob("finish", txt, len(fc) == 1 and fc[0].name == fin, where(f), "calls %s, expected %s" % ([e.name for e in fc], fin))
                if len(fc) != 1: continue
                e = fc[0]; at = [i for i, a in enumerate(e.args) if a == RES]
                ctx.ob("finish", txt + ": arguments", len(at) == 1 and (at[0] == 0 or e.args[0] == SRC), where(f, e), "is called with %s" % ", ".join(show(a) for a in e.args))
                ss = [x for x in p.events if x.kind == "call" and x.name in SET]
                ctx.ob("settle", txt + ": after finishing", all(pos(p, x) > pos(p, e) for x in ss), where(f), "settles before the operation is finished")
                rel = [x for x in pcalls(p, "dex_unref") if x.args[0] == FUT]; refs = [x for x in pcalls(p, "dex_ref") if x.args[0] == FUT]
                ctx.ob("release", txt, len(rel) - len(refs) == 1, where(f), "the operation's reference is dropped %d times" % (len(rel) - len(refs)))
                if rel: ctx.ob("release", txt + ": after settling", not [x for x in p.events[pos(p, rel[-1]) + 1:] if x.kind == "call" and (FUT in x.args or P0 in x.args or P1 in x.args)], where(f), "the future is used after its reference was dropped")
                for x in ss:
                    if x.name.endswith("boxed"): pass
                def sett(x): return (SET[x.name], x.args[0], x.args[1:])
                got = [sett(x) for x in ss]
                one = len(ss) == 1
                if kind == "variant+fds":
                    tg = sorted(str(x[1]) for x in got)
                    ctx.ob("settle", txt + ": both once", sorted([x[1] for x in got], key=str) == sorted([P0, P1], key=str), where(f), "settles %d futures" % len(got))
                    for k, t, a in got:
                        if fails: ctx.ob("settle", txt + ": error", k == "error" and a[0] in (E, EC), where(f), "settles with %s %s" % (k, [show(x) for x in a]))
                        elif t == P0: ctx.ob("settle", txt + ": reply", (k, a[0]) == ("variant", val), where(f), "settles with %s %s" % (k, [show(x) for x in a]))
                        else: ctx.ob("settle", txt + ": descriptors", (k, a[0]) == ("object", FDS), where(f), "settles with %s %s" % (k, [show(x) for x in a]))
                    if fails: ctx.ob("release", txt + ": one owner per error", sorted(str(a[0]) for k, t, a in got) == sorted([str(E), str(EC)]), where(f), "an error has %d owners" % len(got))
                    owners = [x for x in p.events if x.kind == "call" and x.name in ("g_object_unref", "g_variant_unref", "g_error_free", "g_clear_error")]
                    ctx.ob("release", txt + ": not released besides", not [x for x in owners if set(x.args) & {val, FDS, E, EC}], where(f), "what was handed on is released as well")
                    continue
                ctx.ob("settle", txt + ": once", one and ss[0].args[0] == FUT, where(f), "settles %d times" % len(ss))
                if not one: continue
                k, t, a = got[0]
                if fails:
                    good = k == "error" and (a[0] == E or a[0] == EC)
                    if kind == "exists" and not good:
                        good = (k, a[0]) == ("boolean", ZERO)   # telling that the file is not there is an answer too
                    ctx.ob("settle", txt, good, where(f, ss[0]), "settles with %s %s" % (k, [show(x) for x in a]))
                    fr = [x for x in pcalls(p, "g_error_free", "g_clear_error") if E in x.args]
                    ctx.ob("release", txt + ": one owner of the error", len(fr) + (a[0] == E) == 1, where(f), "the error has %d owners" % (len(fr) + (a[0] == E)))
                else:
                    v = ("c", val) if isinstance(val, int) else val
                    un = [x for x in p.events if x.kind == "call" and x.name in ("g_object_unref", "g_variant_unref", "g_bytes_unref", "g_free", "g_list_free", "g_list_free_full") and v in x.args]
                    if kind == "boolean": good = k == "boolean" and a[0][0] == "c" and a[0][1] != 0
                    elif kind == "exists": good = k == "boolean" and ev(a[0], lambda t: 7 if t == val else None) == 1
                    elif kind == "contents": good = k == "boxed" and a == (BYTES, BY)
                    elif isinstance(kind, tuple): good = k == "boxed" and a[0] == kind[1] and (a[1] == v or is0(v) and is0(a[1]))
                    else: good = k == kind and a[0] == v
                    ctx.ob("settle", txt, good, where(f, ss[0]), "settles with %s %s" % (k, [show(x) for x in a]))
                    if kind == "exists": ctx.ob("release", txt + ": result", len(un) == 1, where(f), "the finished object is released %d times" % len(un))
                    else: ctx.ob("release", txt + ": result", not un, where(f), "the result handed on is released as well")
    # list types
    for t in ("dex_file_info_list", "dex_inet_address_list"):
        for nm, lib, fn in (("_copy", "g_list_copy_deep", "g_object_ref"), ("_free", "g_list_free_full", "g_object_unref")):
            f = P.funcs.get(t + nm)
            if f is None: continue
            for p in case(P, f):
                n += 1
                c = pcalls(p, lib)
                if c: ctx.ob("release", t + nm, len(c) == 1 and c[0].args[0] == A0 and c[0].args[1] == ("g", fn), where(f), "handles its elements with %s" % ", ".join(show(a) for a in c[0].args[1:]))
    ctx.count("abstract_paths", n); ctx.count("wrappers", nw); ctx.count("callbacks", len(cbs))
