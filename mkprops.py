#!/usr/bin/env python3
"""writes properties.jsonl (kept as code so that the text stays reviewable)"""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Message-memory arena never hands out overlapping or foreign memory",
  "Every block handed out by the message-memory arena lies entirely inside the arena's storage, is at least as large as the size asked for, and shares no byte with another block still in use, whose contents no other allocation, trim or release changes. A request that does not fit is answered with nothing, never with memory that is too small or outside the arena. Released memory (whole blocks and trimmed tails) becomes available again: once every block has been released, in any order, a single request for the full usable size succeeds.",
  ["inputs", "histories"], "for every arena size, every request and trim size, and every interleaved sequence of allocate, extend, trim and release calls",
  "The tests allocate a handful of equally sized message buffers and release them at once; they never reach exhaustion, the last block, a trim followed by out-of-order releases, or odd sizes.",
  ["runtime/arena.c", "include/arena.h"],
  [("gracht_arena_create", "runtime/arena.c"), ("gracht_arena_allocate", "runtime/arena.c"), ("gracht_arena_free", "runtime/arena.c"), ("find_free_header", "runtime/arena.c")],
  state=[{"name": "block chain", "meaning": "headers tile the arena storage; each says how long its block is and whether it is in use"}])

p("C02", "Hash table is a map: lookups return exactly what was last stored",
  "After any sequence of insertions, replacements, removals and lookups, a lookup of a key returns the element most recently stored under that key and not since removed, and nothing otherwise; inserting returns the replaced element or nothing, and removing returns the removed element or nothing. This holds for any hash values, including all keys colliding or wrapping around the end of the table, and across growing and shrinking, while memory is available. Enumeration visits every stored element exactly once and nothing else.",
  ["inputs", "histories"], "for every sequence of operations, every assignment of hash values to keys, and every table occupancy",
  "Tests only ever store a few sequential file descriptors and protocol ids, so collisions, displacement, wrap-around, resize in either direction and removal inside a chain are never reached.",
  ["runtime/hashtable.c", "include/hashtable.h"],
  [("gr_hashtable_set", "runtime/hashtable.c"), ("gr_hashtable_get", "runtime/hashtable.c"), ("gr_hashtable_remove", "runtime/hashtable.c"), ("gr_hashtable_enumerate", "runtime/hashtable.c"), ("hashtable_resize", "runtime/hashtable.c")])

p("C03", "Worker queue and pool: every request is run exactly once, in order per worker",
  "Messages queued for a worker come out in the order they went in, none lost, duplicated or altered, for as long as the server runs (including after the queue's internal counters wrap), and a full queue refuses instead of overwriting. Every message handed to the worker pool is executed exactly once and its memory released exactly once afterwards, also when the chosen worker's queue is full or a worker wakes without work; messages still queued at shutdown are released exactly once without being executed. Work is spread over all workers in turn.",
  ["histories", "schedules", "inputs"], "for every sequence of dispatches and worker steps, every queue fill level and counter value, and spurious or early wake-ups",
  "The multi-threaded test keeps at most a few requests outstanding, so a full queue, a spurious wake-up, wrapped counters or shutdown with queued work never occur.",
  ["runtime/queue.c", "runtime/dispatch_generic.c", "include/queue.h"],
  [("gr_queue_enqueue/gr_queue_dequeue", "runtime/queue.c"), ("gracht_worker_pool_dispatch", "runtime/dispatch_generic.c"), ("worker_dowork", "runtime/dispatch_generic.c")])

p("C04", "Outgoing-buffer pool: a buffer is lent to at most one user at a time",
  "A pointer put into the pool of outgoing buffers is handed back exactly once, last in first out, and the pool never hands out anything that was not put in, however often it has to grow. When the pool is empty it says so. Buffers lent for building responses and events are always large enough for the configured maximum message and are either taken from the pool or freshly allocated, never shared between two users.",
  ["histories", "inputs"], "for every sequence of put and take operations, any pool fill level, growth at any point, and allocation failure at any point",
  "Tests never have more buffers in flight than the initial pool size, so growth, and taking after growth, are never exercised.",
  ["runtime/stack.c", "include/stack.h", "runtime/server.c"],
  [("stack_push/stack_pop/stack_resize", "runtime/stack.c"), ("gracht_server_get_buffer", "runtime/server.c")])

p("C05", "Server reassembles stream messages exactly, whatever the segmentation",
  "On a stream connection the server delivers each message exactly as the client sent it (header and payload bytes, length, originating client), at exactly the right message boundaries, however the transport splits or delays the bytes. An incomplete message is never delivered, and bytes already received are not lost so that a later message would be misread. A declared length shorter than the header or larger than the receive buffer never makes the server read or write outside that buffer: the connection is given up instead. Asking for a message when none has arrived does not block the server.",
  ["inputs", "histories", "fault_sequences"], "for every byte stream, every segmentation of it, every declared length and every receive error",
  "The tests use well-behaved local clients whose header always arrives in one piece with a correct length.",
  ["runtime/link/socket/server.c"],
  [("socket_link_recv_client", "runtime/link/socket/server.c"), ("gracht_link_server_socket_api", "runtime/link/socket/server.c")])

p("C06", "Client receives exactly one whole message per read, within its buffer",
  "When the client's socket link reports a received message, its buffer holds exactly one whole message as the server sent it and the read position is at the start of its header, for stream and datagram connections alike and for any segmentation. Bytes outside the supplied buffer are never touched, whatever length the message declares: impossible lengths, truncated messages and receive errors are reported as failures.",
  ["inputs", "histories", "fault_sequences"], "for every byte stream and segmentation, every declared length, every datagram size and every receive error, blocking and non-blocking",
  "Test servers only send small correct messages that arrive in one piece.",
  ["runtime/link/socket/client.c"],
  [("socket_link_recv (stream and packet)", "runtime/link/socket/client.c"), ("gracht_link_client_socket_api", "runtime/link/socket/client.c")])

p("C07", "Datagram link: only whole messages, tied to and answered to their sender",
  "A datagram is delivered to the server only if it holds at least a complete message header, with its bytes unchanged and located where the dispatcher will read them, and nothing is ever written outside the receive buffer. Two datagrams get the same client identity exactly when identity is computed from the same sender address, and a reply to a datagram (or an event for a client registered from it) is sent as one datagram to the address the request came from. Registering or dropping such a client never closes or reads from an unrelated descriptor.",
  ["inputs", "histories"], "for every datagram size (including zero, shorter than a header, and larger than the buffer), every sender-address length and content, and every link address length",
  "No test client uses the datagram link, so this code does not run at all under test.",
  ["runtime/link/socket/server.c", "runtime/crc.c"],
  [("socket_link_recv_packet/send_packet/create_client/destroy_client/send_client", "runtime/link/socket/server.c")])

p("C08", "Generated serializers round-trip every value and stay in step",
  "For every parameter type a protocol can declare (all integer widths, bool, float, double, enum, string, arrays of them, structs, nested structs, arrays of structs, variants), what the generated deserializer yields equals what was serialized, and it consumes exactly the bytes that were written, so that following parameters are read from the right place. Copying a generated struct yields an independent deep copy equal to the original, and destroying it releases everything exactly once. This holds for every value, every array length including zero, and every string including the empty one.",
  ["inputs", "programs"], "for every field value, every array length and every string, over protocols that use each supported type and combination",
  "The tests send a few fixed values of a few types; most types, empty and unequal-length arrays, and multi-parameter combinations after variable-length data never occur.",
  ["generator/languages/langc.py", "generator/languages/shared.py", "tests/protocols/test_service.gr"],
  [("serializer/deserializer emission", "generator/languages/langc.py")])

p("C09", "Client matches each response to the request that asked for it, exactly once",
  "Each request a client sends with a context gets a message id different from every outstanding request's, carries that id and its true length on the wire, and is completed only by a response or error that carries the same id. A result can be collected exactly once and yields the bytes of that response; asking before it has arrived reports in-progress and loses nothing. A response nobody waits for, or a failed send, leaves no trace: no other request changes state and the memory taken for it is given back.",
  ["histories", "inputs", "fault_sequences"], "for every set of outstanding requests, every order and content of incoming messages, every send or receive error",
  "Tests have at most a few requests outstanding, answered in order, with no unsolicited or failing traffic.",
  ["runtime/client.c"],
  [("gracht_client_invoke", "runtime/client.c"), ("gracht_client_wait_message", "runtime/client.c"), ("gracht_client_get_status_buffer", "runtime/client.c"), ("gracht_control_error_invocation", "runtime/client.c")])

p("C10", "Awaiting requests returns when, and only when, the asked-for ones are done",
  "Awaiting a set of requests in wait-for-all mode returns success only when every one of them has been answered, failed or is no longer outstanding; in wait-for-any mode it returns as soon as at least one of them is, no matter which thread received the answer. If the connection fails while the call itself receives messages, it reports failure instead of waiting forever. Requests that are already done are recognised without waiting for further traffic.",
  ["histories", "fault_sequences"], "for every number of distinct awaited requests (each awaited by one thread at a time), every initial completion state, every sequence of incoming messages and receive errors, and another thread receiving at any point",
  "Tests await one request, or all of a few, always answered, never with a failing connection or in any-mode with a partial answer.",
  ["runtime/client.c"],
  [("gracht_client_await_multiple/gracht_client_await", "runtime/client.c")])

p("C11", "Server runs exactly the addressed handler once, or reports the request unknown",
  "Every complete request the server receives invokes the handler registered for the addressed service and action exactly once, with its payload positioned right after the header, and no other handler. If the service or the action is not registered, no handler runs and exactly one error event carrying the request's message id is sent to the requesting client if that client is connected or registered. Registering a service that is already registered is refused without changing anything, and an unregistered service is no longer reachable.",
  ["inputs", "histories"], "for every registered set of services, every service and action id (0..255) and every message id",
  "Tests only call registered actions; unknown services and actions, duplicate registration and unregistration are never tried.",
  ["runtime/server.c", "runtime/shared.c", "runtime/control.c"],
  [("server_invoke_action", "runtime/server.c"), ("get_protocol_action", "runtime/shared.c"), ("gracht_control_event_error_single", "runtime/control.c"), ("gracht_server_register_protocol", "runtime/server.c")])

p("C12", "Responses and events reach exactly their addressee, and buffers come back",
  "A response is sent exactly once, to the client whose request it answers (over its connection, or back through the datagram link it came from), with that request's message id and the true message length; a targeted event goes to exactly the named client. If the addressee no longer exists nothing is sent and an error is returned. On every path, including failures, the buffer lent for the message goes back to the pool exactly once and the locks taken are released.",
  ["inputs", "histories", "fault_sequences"], "for every message id, length, client and link state, with send failures at any point",
  "Tests only respond to live clients over working connections.",
  ["runtime/server.c"],
  [("gracht_server_respond", "runtime/server.c"), ("gracht_server_send_event", "runtime/server.c")])

p("C13", "Events reach exactly the clients subscribed to that service",
  "After any sequence of subscribe and unsubscribe requests, a client counts as subscribed to a service exactly if its last request affecting that service was a subscription; subscribing or unsubscribing one service never changes another, and the all-services request affects all of them. A broadcast event is sent exactly once to each registered client subscribed to the event's service, to no other, and with the true length. New stream clients start subscribed to everything.",
  ["histories", "inputs"], "for every service id 0..255, every subscription state and every set of clients",
  "Tests subscribe to a single service with one client, so neighbouring ids, block boundaries and partial unsubscription never occur.",
  ["runtime/server.c", "runtime/control.c"],
  [("gracht_control_subscribe_invocation/gracht_control_unsubscribe_invocation", "runtime/server.c"), ("gracht_server_broadcast_event", "runtime/server.c"), ("handle_connection", "runtime/server.c")])

p("C14", "Client registry: connect, disconnect and failure keep it exact, locks balanced",
  "A client is registered exactly from its connection (or first subscription on a connectionless link) until its disconnection, fatal receive error or unsubscribe-all on a connectionless link; the connect and disconnect callbacks are invoked once each with its handle, and its link resources are released exactly once. Events for one client never affect another client's registration, and application callbacks run while no registry lock is held exclusively. Every server entry point releases every lock it takes on every path, including allocation failure and unknown links.",
  ["histories", "fault_sequences"], "for every sequence of connection, data, disconnect and control events, with failures of accept, receive and allocation at any point",
  "Tests connect and disconnect one well-behaved client at a time.",
  ["runtime/server.c"],
  [("gracht_server_handle_event", "runtime/server.c"), ("client_destroy", "runtime/server.c"), ("gracht_control_subscribe_invocation", "runtime/server.c")])

p("C15", "Reader/writer lock excludes writers from readers and other writers",
  "While a reader holds the lock no writer does, and while a writer holds it no reader and no other writer does, for any number of threads and any interleaving of the lock's atomic steps; releasing as a reader undoes exactly one acquisition. The last reader leaving wakes a waiting writer, and a writer leaving lets the next one in.",
  ["schedules", "histories"], "for every number of readers and writers and every interleaving of lock operations, including spurious wake-ups",
  "Tests cannot choose interleavings, and in them the orchestrator is nearly always alone.",
  ["include/rwlock.h"],
  [("rwlock_r_lock/rwlock_r_unlock/rwlock_w_lock/rwlock_w_unlock", "include/rwlock.h")])

p("C16", "Server gives each incoming message its own memory, released exactly once",
  "Each message being received or handled has memory of its own that is large enough for whatever the link may write into it, and that is not released, reused or trimmed below the message's own bytes before its handler has finished. It is released exactly once when handling ends or when nothing was received, in single- and multi-threaded mode. If no memory is available the server reports the shortage and keeps running without losing a lock or touching invalid memory.",
  ["inputs", "histories", "fault_sequences", "configurations"], "for every message size up to the configured maximum, every declared length, both threading modes, and memory exhaustion at any receive",
  "Tests never exhaust message memory and send messages much smaller than the buffers.",
  ["runtime/server.c", "runtime/arena.c"],
  [("get_in_buffer_*/dispatch_*/put_message_*", "runtime/server.c"), ("handle_packet/handle_client_event", "runtime/server.c"), ("server_cleanup_message", "runtime/server.c")])

p("C17", "Checksums equal the published CRC-16, Modbus and CRC-32 definitions",
  "The checksum of any byte string equals the one defined by the published reflected polynomial (CRC-16/ARC, CRC-16/MODBUS, CRC-32), for every string and length, the first time it is computed and every time after. The incremental update functions advance the same computation by one byte, so that feeding a string byte by byte gives the whole-string result.",
  ["inputs"], "for every byte string of every length and every intermediate checksum value",
  "No test computes a checksum with a known answer.",
  ["runtime/crc.c", "include/crc.h"],
  [("crc16_generate/crc_modbus/crc16_update/crc32_generate/crc32_update", "runtime/crc.c")])

p("C18", "A deferred request can be answered later exactly as if answered at once",
  "Deferring a request copies everything needed to answer it: a response to the copy carries the same message id and goes to the same client and link as a response to the original would, and the request's payload can still be read from the copy. The copy is independent of the original, touches no memory outside the advertised size, and the original is unchanged.",
  ["inputs"], "for every message size, payload and offset of the message header within the payload (stream and datagram)",
  "Tests defer one small stream request.",
  ["runtime/server.c", "include/gracht/types.h", "include/gracht/server.h"],
  [("gracht_server_defer_message", "runtime/server.c"), ("GRACHT_MESSAGE_DEFERRABLE_SIZE", "include/gracht/types.h")])

p("C19", "A send either transmits the whole message unchanged or reports failure",
  "When a link reports a message as sent, exactly its bytes, all of them and nothing else, were handed to the transport once, on the connection of the addressed peer. If the transport takes fewer bytes or fails, the send is reported as failed. Requested blocking behaviour is passed on, so that a non-blocking send never blocks.",
  ["inputs", "fault_sequences"], "for every message length and content and every result the transport can return",
  "In tests the transport always accepts the whole message.",
  ["runtime/link/socket/server.c", "runtime/link/socket/client.c"],
  [("socket_link_send_client", "runtime/link/socket/server.c"), ("socket_link_send_stream/socket_link_send_packet", "runtime/link/socket/client.c")])

p("C20", "Protocol compiler rejects ambiguous or out-of-range protocol definitions",
  "For every protocol text, the compiler either rejects it or generates code in which service, function and event ids are unique, fit the wire format's one byte and do not collide with reserved ids, and every referenced type is defined.",
  ["programs"], "for every protocol definition text",
  "Tests compile one fixed protocol.",
  ["generator/parser.py", "generator/passes"], [("validation passes", "generator/passes")])

p("C21", "No data races or lost wake-ups between client threads and server workers",
  "For every schedule of application threads, message pump and workers, shared state is accessed only under its lock and no waiting thread misses the event it waits for.",
  ["schedules"], "for every interleaving of threads",
  "Tests run few threads under whatever schedule the machine picks.",
  ["runtime/client.c", "runtime/dispatch_generic.c", "runtime/server.c"], [("gracht_client_await_multiple asynchronous mode", "runtime/client.c"), ("worker state flags", "runtime/dispatch_generic.c")])

import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
