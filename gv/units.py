import re
from driver import Unit as U
PROPERTIES = {}
def prop(pid, units, **kw):
    PROPERTIES[pid] = dict(units=units, **kw)

DI = "harness/dispatch.c"
WG = "g_stage, g_job, g_len, g_taken, g_done, g_shutdown, x_lock, x_locks, x_invokes, x_cleanups, x_inv_m, x_cln_m, worker->state, job"
WI = "g_taken == g_done && g_stage == 0 && (worker->state == WORKER_SHUTDOWN_REQUEST) == (g_shutdown != 0)"
WL = [dict(file="runtime/dispatch_generic.c", function="worker_dowork", ordinal=0, count=3,
           contract=f"__CPROVER_assigns({WG}) __CPROVER_loop_invariant(x_lock == 0 && {WI})"),
      dict(file="runtime/dispatch_generic.c", function="worker_dowork", ordinal=1, count=3,
           contract=f"__CPROVER_assigns(g_stage, g_job, g_len, g_taken, g_shutdown, worker->state, job) __CPROVER_loop_invariant(x_lock == (void*)&worker->sync_object && job == 0 && {WI})"),
      dict(file="runtime/dispatch_generic.c", function="worker_dowork", ordinal=2, count=3,
           contract="__CPROVER_assigns(g_stage, g_job, g_len, g_taken, g_done, x_cleanups, x_cln_m, job) __CPROVER_loop_invariant(x_lock == 0 && g_shutdown && ((job == 0 && g_stage == 0 && g_len == 0 && g_taken == g_done) || (job != 0 && (void*)job == g_job && g_stage == 1 && g_taken == g_done + 1)))")]
prop("C03", [
    U("q_enqueue", "harness/queue.c", "h_enqueue", ["gr_queue_enqueue"], mode="dfcc", enforce="gr_queue_enqueue", fallback=["q_enqueue_b"]),
    U("q_dequeue", "harness/queue.c", "h_dequeue", ["gr_queue_dequeue"], mode="dfcc", enforce="gr_queue_dequeue", fallback=["q_dequeue_b"]),
    U("q_construct", "harness/queue.c", "h_construct", ["gr_queue_construct", "gr_queue_destroy"]),
    U("d_dispatch", DI, "h_dispatch", ["gracht_worker_pool_dispatch"], unwind=4, fallback=["d_pool"], what="any pool size, any turn: queued once+signalled or run inline"),
    U("d_worker", DI, "h_worker", ["worker_dowork", "initialize_worker"], mode="dfcc", loops=WL, fallback=["d_worker_b"], what="a worker's whole life, any number of messages"),
    U("d_pool", DI, "h_pool", ["gracht_worker_pool_create", "gracht_worker_pool_destroy", "initialize_worker", "cleanup_worker"], unwind=5, defines=["GV_N=2"], bound="up to 2 workers"),
    U("d_pool3", DI, "h_pool", ["gracht_worker_pool_create", "gracht_worker_pool_destroy", "initialize_worker", "cleanup_worker"], unwind=6, tier="thorough", bound="up to 3 workers"),
    U("d_worker_b", DI, "h_worker", ["worker_dowork"], unwind=4, cbmc=["--no-unwinding-assertions"], bound="3 iterations of each worker loop", fallback_only=True),
    U("q_enqueue_b", "harness/queue.c", "h_enqueue", ["gr_queue_enqueue"], defines=["GV_SMALL"], bound="capacity 2..16", fallback_only=True),
    U("q_dequeue_b", "harness/queue.c", "h_dequeue", ["gr_queue_dequeue"], defines=["GV_SMALL"], bound="capacity 2..16", fallback_only=True),
])

ST = "harness/stack.c"
prop("C04", [
    U("st_push", ST, "h_push", ["stack_push", "stack_resize"], unwind=4, fallback=["st_life"]),
    U("st_pop", ST, "h_pop", ["stack_pop"], unwind=4, fallback=["st_life"]),
    U("st_construct", ST, "h_construct", ["stack_construct", "stack_destroy"], unwind=4, fallback=["st_life"]),
    U("st_life", ST, "h_life", ["stack_construct", "stack_push", "stack_pop", "stack_destroy"], defines=["GV_REALCPY"], unwind=9, bound="6 operations, initial room 1..2", fallback_only=True),
])
CR = "harness/crc.c"
def crcloop(fn, f):
    d = "num_bytes" if fn == "crc32_generate" else "length"
    src = "input_str" if fn == "crc32_generate" else "data"
    return [dict(file="runtime/crc.c", function=fn, ordinal=0, count=1,
        contract=f"__CPROVER_assigns(crc, ptr, a, g_f{f}, g_n) __CPROVER_loop_invariant(a <= {d} && ptr == {src} + a && g_n == a && crc == g_f{f}) __CPROVER_decreases({d} - a)",
        body=f"g_f{f} = spec{f}(g_f{f}, g_src[g_n]); g_n++;")]
CRW = ["crc32_initialize.0:9", "crc32_initialize.1:257", "crc16_initialize.0:9", "crc16_initialize.1:257", "spec32.0:9", "spec16.0:9"]
prop("C17", [
    U("crc_update32", CR, "h_update32", ["crc32_update", "crc32_initialize"], unwind=258, what="one byte fed, any state, first and later use"),
    U("crc_update16", CR, "h_update16", ["crc16_update", "crc16_initialize"], unwind=258, what="one byte fed, any state, first and later use"),
    U("crc_gen32", CR, "h_gen32", ["crc32_generate"], mode="dfcc", loops=crcloop("crc32_generate", 32), unwind=258, fallback=["crc_str32"]),
    U("crc_gen16", CR, "h_gen16", ["crc16_generate"], mode="dfcc", loops=crcloop("crc16_generate", 16), unwind=258, fallback=["crc_str16"]),
    U("crc_modbus", CR, "h_modbus", ["crc_modbus"], mode="dfcc", loops=crcloop("crc_modbus", 16), unwind=258, fallback=["crc_strmb"]),
    U("crc_str32", CR, "h_str32", ["crc32_generate"], unwind=258, bound="strings up to 2 bytes", fallback_only=True),
    U("crc_str16", CR, "h_str16", ["crc16_generate"], unwind=258, bound="strings up to 2 bytes", fallback_only=True),
    U("crc_strmb", CR, "h_strmb", ["crc_modbus"], unwind=258, bound="strings up to 2 bytes", fallback_only=True),
])
SS, SC = "harness/sock_server.c", "harness/sock_client.c"
prop("C05", [
    U("ss_recv_client", SS, "h_recv_client", ["socket_link_recv_client", "socket_link_accept", "get_socket_flags"], unwind=130),
])
prop("C06", [
    U("sc_recv_stream", SC, "h_recv_stream", ["socket_link_recv", "socket_link_recv_stream"], unwind=130),
    U("sc_recv_packet", SC, "h_recv_packet", ["socket_link_recv", "socket_link_recv_packet"], unwind=130),
])
prop("C07", [
    U("ss_recv_packet", SS, "h_recv_packet", ["socket_link_recv_packet", "get_socket_flags"], unwind=130),
    U("ss_identity", SS, "h_identity", ["socket_link_recv_packet"], unwind=130),
    U("ss_send_packet", SS, "h_send_packet", ["socket_link_send_packet"], unwind=130),
    U("ss_packet_client", SS, "h_packet_client", ["socket_link_create_client", "socket_link_send_client", "socket_link_destroy_client"], unwind=130),
    U("ss_misuse", SS, "h_misuse", ["socket_link_create_client", "socket_link_destroy_client", "socket_link_accept"], unwind=130),
])
prop("C19", [
    U("ss_stream_client", SS, "h_stream_client", ["socket_link_accept", "socket_link_send_client", "socket_link_destroy_client"], unwind=130),
    U("ss_packet_client", SS, "h_packet_client", ["socket_link_create_client", "socket_link_send_client", "socket_link_destroy_client"], unwind=130),
    U("ss_send_packet", SS, "h_send_packet", ["socket_link_send_packet"], unwind=130),
    U("sc_send", SC, "h_send", ["socket_link_send", "socket_link_send_stream", "socket_link_send_packet"], unwind=130),
    U("sc_connect", SC, "h_connect", ["socket_link_connect"], unwind=130),
])

SV = "harness/server.c"
SVU = {}
SVFP = {k: ["l_" + v] for k, v in dict(accept_client="accept", create_client="create", destroy_client="destroy_client", recv_client="recv_client",
        send_client="send_client", recv="recv", send="send", setup="setup", destroy="destroy").items()}
SVFP.update(address=["app_f0", "app_f1", "app_g0", "__gracht_subscribe_internal", "__gracht_unsubscribe_internal"], clientConnected=["cb_connected"], clientDisconnected=["cb_disconnected"])
def svfp(m, ctl=1): return dict(SVFP, dispatch=["dispatch_" + m], get_incoming_buffer=["get_in_buffer_" + m], put_message=["put_message_" + m],
                         gv_ht_enumerate=["client_enum_broadcast", "client_enum_destroy"], x_cmp=["client_cmp", "protocol_cmp"], **({} if ctl else dict(address=["app_f0", "app_f1", "app_g0"])))
def sv(h, fns, modes=("st", "mt"), other=1, symh=False, unwind=9, defs=(), suffix="", msgs=1, **kw):
    for m in modes:
        n = "sv_" + h[2:] + suffix + "_" + m
        SVU[n] = U(n, SV, h, fns, unwind=unwind, defines=["GV_MSGS=%d" % msgs, "GV_MT=%d" % (m == "mt"), "GV_OTHER=%d" % other] + list(defs) + (["GV_SYMH"] if symh else []), fp=svfp(m, "GV_NOCTL" not in defs), **kw)
sv("h_connect", ["gracht_server_create", "gracht_server_handle_event", "handle_connection", "gracht_server_add_link"])
for k in (0, 1): sv("h_client_event", ["gracht_server_handle_event", "handle_client_event", "client_destroy", "get_link_by_conn", "dispatch_st", "dispatch_mt"], defs=["GV_KIND=%d" % k, "GV_NOCTL"], suffix=str(k))
for k in (0, 1, 2, 3): sv("h_invoke", ["server_invoke_action", "get_protocol_action", "gracht_control_event_error_single"], defs=["GV_KIND=%d" % k] + (["GV_NOCTL"] if k < 3 else ["GV_SID=0"]), suffix=str(k))
sv("h_register", ["gracht_server_register_protocol", "gracht_server_unregister_protocol", "server_invoke_action", "get_protocol_action"], modes=("st",))
sv("h_action", ["get_protocol_action"], unwind=258, modes=("st",))
sv("h_respond", ["gracht_server_respond", "gracht_server_get_buffer"], modes=("mt",))
sv("h_send_event", ["gracht_server_send_event"], modes=("mt",))
sv("h_broadcast", ["gracht_server_broadcast_event", "client_enum_broadcast", "client_is_subscribed"], modes=("mt",))
for k in (0, 1, 2):
    sv("h_subscription", ["gracht_control_subscribe_invocation", "gracht_control_unsubscribe_invocation", "client_subscribe", "client_unsubscribe", "client_destroy", "handle_packet"], defs=["GV_SID=0", "GV_KIND=%d" % k], suffix=str(k))
sv("h_subscribe_unknown", ["gracht_control_subscribe_invocation", "gracht_control_unsubscribe_invocation"], modes=("st",))
sv("h_packet", ["handle_packet", "get_in_buffer_st", "get_in_buffer_mt", "put_message_st", "put_message_mt", "dispatch_st", "dispatch_mt"], defs=["GV_NOCTL"])
for k in (0, 2):
    sv("h_client_event", ["handle_client_event", "dispatch_st", "dispatch_mt"], defs=["GV_KIND=0", "GV_NOCTL"], suffix="_%dmsg" % k, msgs=k)
    sv("h_packet", ["handle_packet", "get_in_buffer_st", "get_in_buffer_mt", "put_message_st", "put_message_mt", "dispatch_st", "dispatch_mt"], defs=["GV_NOCTL"], suffix="_%dmsg" % k, msgs=k)
sv("h_buffers", ["gracht_server_get_buffer"], modes=("st",))
sv("h_shutdown", ["gracht_server_shutdown", "gracht_server_request_shutdown", "client_enum_destroy"])
sv("h_defer", ["gracht_server_defer_message"], defs=["GV_DEFER"], modes=("st",))
for n, k in list(SVU.items()):  # the same units with arbitrary handles
    if re.match(r"sv_(connect|client_event[01]|subscription\d|respond|send_event|broadcast|shutdown|invoke\d)_", n):
        u = U(n.replace("sv_", "svh_"), SV, k.entry, k.functions, unwind=k.unwind, defines=k.defines + ["GV_SYMH"], fp=k.fp, tier="thorough", timeout=800)
        SVU[u.name] = u
def svs(*names): return [u for n in names for u in SVU.values() if re.fullmatch("svh?_" + n + r"\d*(_\dmsg)?_(st|mt)", u.name)]
prop("C11", svs("invoke", "register", "action", "client_event", "packet"))
prop("C12", svs("respond", "send_event", "broadcast"))
prop("C13", svs("broadcast", "subscription", "connect"))
prop("C14", svs("connect", "client_event", "subscription", "subscribe_unknown", "packet", "shutdown", "respond", "send_event", "broadcast"))
prop("C16", svs("client_event", "packet", "invoke", "subscription"))
prop("C18", svs("defer"))
PROPERTIES["C04"]["units"] += svs("buffers", "respond", "send_event", "broadcast", "shutdown")
PROPERTIES["C03"]["units"] += svs("invoke0")

RW = "harness/rwlock.c"
RWL = [dict(file="include/rwlock.h", function="rwlock_w_lock", ordinal=0, count=1,
            contract="__CPROVER_assigns(g_oth, lock->readers) __CPROVER_loop_invariant(g_held == 1 && g_mine == 0 && g_op == WLOCK && (uint32_t)lock->readers == g_oth)")]
prop("C15", [
    U("rw_init", RW, "h_init", ["rwlock_init"], defines=["GV_MON"], fallback=["rw_excl"]),
    U("rw_rlock", RW, "h_rlock", ["rwlock_r_lock"], defines=["GV_MON"], fallback=["rw_excl"]),
    U("rw_runlock", RW, "h_runlock", ["rwlock_r_unlock"], defines=["GV_MON"], fallback=["rw_excl"]),
    U("rw_wlock", RW, "h_wlock", ["rwlock_w_lock"], mode="dfcc", loops=RWL, defines=["GV_MON"], fallback=["rw_excl"]),
    U("rw_wunlock", RW, "h_wunlock", ["rwlock_w_unlock"], defines=["GV_MON"], fallback=["rw_excl"]),
    U("rw_excl", RW, "h_excl", ["rwlock_init", "rwlock_r_lock", "rwlock_r_unlock", "rwlock_w_lock", "rwlock_w_unlock"], unwind=6, unwindset=[],
      cbmc=["--no-unwinding-assertions"], bound="3 threads, 5 operations, 2 more interleaved with one of them", fallback_only=True),
])
HT = "harness/hashtable.c"
HTB = "capacity and home slot of the unit (table content, other keys and their hashes arbitrary)"
def ht(h, cap, homes, cap2=None, **kw):
    us = []
    for o in homes:
        d = ["GV_CAP=%d" % cap, "GV_HOME=%d" % o, "GV_MIN=8", "GV_HI=%d" % (o * 37 & 127)] + (["GV_CAP2=%d" % cap2] if cap2 else [])
        us.append(U("ht_%s_%d%s_%d" % (h, cap, "to%d" % cap2 if cap2 else "", o), HT, "h_" + h, ["gr_hashtable_" + h], defines=d, unwind=max(cap, cap2 or 0) + 2, objbits=12,
                    solver=["--sat-solver", "cadical"], timeout=800, bound=HTB, fp=dict(hash=["kv_hash"], cmp=["kv_cmp"]), gi=["--replace-calls", "hashtable_resize:gv_resize"], **kw))
    return us
def htr(cap, cap2): return U("ht_resize_%dto%d" % (cap, cap2), HT, "h_resize", ["hashtable_resize", "__hashtable_clone"], defines=["GV_CAP=%d" % cap, "GV_CAP2=%d" % cap2, "GV_MIN=8"], unwind=max(cap, cap2) + 2, objbits=12,
                             solver=["--sat-solver", "cadical"], bound="from capacity %d to %d" % (cap, cap2), fp=dict(hash=["kv_hash"], cmp=["kv_cmp"]), gi=["--replace-calls", "gr_hashtable_set:gv_set"], fallback=["ht_life"])
def htall(**kw):
    f = dict(fallback=["ht_life"])
    r = ht("set", 8, range(8), **f) + ht("get", 8, range(8), **f) + ht("remove", 8, range(8), **f) + ht("set", 8, [0, 7, 15], 16, **f) + ht("remove", 16, [0, 7], 8, **f) \
     + ht("get", 16, [0, 9, 15], **f) + ht("set", 16, [0, 15], **f) + [htr(8, 16), htr(16, 32), htr(16, 8), htr(32, 16)]
    th = dict(tier="thorough")
    r += ht("set", 16, range(1, 15), **th) + ht("get", 16, [h for h in range(16) if h not in (0, 9, 15)], **th) + ht("remove", 16, range(16), **th) + ht("set", 8, [h for h in range(16) if h not in (0, 7, 15)], 16, **th) \
      + ht("remove", 16, range(1, 7), 8, **th) + ht("get", 32, range(0, 32, 3), **th) + ht("set", 32, [3, 31], **th)
    return r
prop("C02", htall() + [
    U("ht_enumerate", HT, "h_enumerate", ["gr_hashtable_enumerate"], defines=["GV_CAP=16"], unwind=18, objbits=12, bound="capacity 16", fallback=["ht_life"]),
    U("ht_construct", HT, "h_construct", ["gr_hashtable_construct", "gr_hashtable_destroy"], defines=["GV_REALMEM"], unwind=18, objbits=12, bound="requested capacity up to 40", fallback=["ht_life"]),
    U("ht_life", "harness/hashtable_life.c", "h_life", ["gr_hashtable_set", "gr_hashtable_get", "gr_hashtable_remove", "gr_hashtable_enumerate", "gr_hashtable_construct", "hashtable_resize"], mode="native", timeout=120,
      bound="6000 pseudo-random histories of 120 operations, up to 40 keys", fallback_only=True),
], level="other", explain="inductive contract proof from any well-formed table, per capacity (8, 16, resizes between 8, 16 and 32) and home slot; bounded in those, so not counted as an unbounded proof")
CL = "harness/client.c"
CLFP = dict(recv=["l_recv"], send=["l_send"], address=["app_event", "__gracht_error_internal"])
CLU = {}
def cl(h, fns, st=None, msgs=0, mk=None, short=None, n=2, env=0, other=0, at=0, all=None, defs=(), **kw):
    name = "cl_" + h + ("_s%d%d" % (st % 4, st // 4) if st is not None else "") + "_m%d" % msgs + ("_k%s" % mk if mk is not None else "") + ("_short%d" % short if short is not None else "") + ("_n%d" % n if n != 2 else "") + ("_e%d%d_%d" % (env, other, at) if env else "") + ("" if all is None else ("_any", "_all")[all])
    d = ["GV_MSGS=%d" % msgs, "GV_N=%d" % n] + (["GV_ST=%d" % st] if st is not None else []) + (["GV_MK=%d" % int(mk[::-1])] if mk is not None else []) + (["GV_SHORT=%d" % short] if short is not None else []) + (["GV_ENV=%d" % env, "GV_OTHER=%d" % other, "GV_AT=%d" % at] if env else []) + ([] if all is None else ["GV_ALL=%d" % all]) + list(defs)
    CLU[name] = U(name, CL, "h_" + h, fns, unwind=9, defines=d, fp=CLFP, objbits=12, solver=["--sat-solver", "cadical"], bound="%d messages received per call" % msgs, **kw)
    return CLU[name]
ALL2 = [a + 4 * b for a in range(4) for b in range(4)]; SYM2 = [a + 4 * b for a in range(4) for b in range(4) if a <= b]
W = ["gracht_client_wait_message", "gracht_client_get_status_buffer", "gracht_client_status_finalize", "gracht_control_error_invocation"]
prop("C09", [cl("invoke", ["gracht_client_invoke", "gracht_client_get_buffer", "get_message_id"], st) for st in range(4)] + [cl("oneway", ["gracht_client_invoke"], 1)]
    + [cl("wait", W, st, 1, mk) for st in SYM2 for mk in "01"] + [cl("wait", W, st, 1, mk) for st in (9,) for mk in "234"] + [cl("wait", W, 9, 0), cl("wait", W, 9, 1, "0", short=0), cl("wait", W, 9, 1, "0", short=1), cl("wait", W, 5, 2, "00")]
    + [cl("wait_for", W, st, 1, mk) for st in ALL2 if st % 4 == 1 for mk in "01"] + [cl("wait_for", W, st, 0) for st in (0, 2, 3)] + [cl("wait_for", W, 5, 2, mk) for mk in ("77", "75", "65", "66", "68", "78", "10", "20", "30", "95")]
    + [cl("wait", W, st, 2, a + b, tier="thorough") for st in SYM2 for a in "5678" for b in "5678"] + [cl("wait_for", W, st, 2, a + b, tier="thorough") for st in (1, 5, 9, 13) for a in "6789" for b in "5678" if a + b not in ("66", "65", "68", "77", "75", "78", "95")],
    level="other", note="contract proof by cases over request states and message kinds; at most 2 requests in play and 2 messages per call, ids and lengths arbitrary; callees by contract", explain="case-wise contract proof: every pair of request states times every kind of message, one or two messages per call; bounded in those, so not counted as an unbounded proof")
AW = ["gracht_client_await_multiple", "gracht_client_await", "mark_awaiters", "gracht_control_error_invocation"]
prop("C10", [cl("wait_for", W, 5, 1, mk, env=e, other=o) for mk in ("5", "6", "8") for e, o in ((1, 0), (2, 0), (2, 1))]
    + [cl("await", AW, st, 0, all=a) for st in ALL2 for a in (0, 1)] + [cl("await", AW, st, 1, mk, all=a) for st in (5, 9, 6) for mk in "5678" for a in (0, 1)]
    + [cl("await", AW, 5, 2, mk, all=a) for mk in ("56", "65", "68", "86", "76", "96", "26") for a in (0, 1)] + [cl("await", AW, 1, 1, mk, n=1, all=0) for mk in ("5", "8", "9")]
    + [cl("await", AW, 5, 1, "6", all=1, short=s) for s in (0, 1)]
    + [cl("await_async", AW, 5, 2, mk, env=3, at=t, all=a) for mk in ("56", "65", "68", "76") for t in (0, 1, 2, 99) for a in (0, 1) if not (mk == "76" and a)]
    + [cl("await_async", AW, 9, 1, "5", env=3, at=t, all=1) for t in (0, 1, 2, 99)] + [cl("await_async", AW, 10, 0, env=3, at=99, all=1)]
    + [cl("await", AW, st, 3, mk, n=3, all=a, tier="thorough") for st in (21, 22, 37, 25) for mk in ("567", "765", "658", "876", "658") for a in (0, 1)]
    + [cl("await_async", AW, st, 2, mk, n=3, env=3, at=t, all=0, tier="thorough") for st in (21, 53) for mk in ("56", "68", "87") for t in (0, 1, 2, 99)],
    level="other", note="contract proof by cases over request states and message kinds; at most 2 requests in play and 2 messages per call, ids and lengths arbitrary; callees by contract", explain="case-wise contract proof: every pair of request states times every kind of message, one or two messages per call; bounded in those, so not counted as an unbounded proof")
