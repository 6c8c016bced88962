#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Server-to-client messages arrive exactly once, in order, intact",
 "Every message (text or binary) the server application successfully emits on a session reaches that session's client byte-for-byte, at most once, and in emission order (an emit that returned before another began comes first, even from different goroutines), over websocket, over long-polling in every client encoding (binary, base64, JSONP), and across a transport upgrade. "
 "While the session lives and the client keeps receiving, nothing is skipped: each accepted message arrives after a bounded delay; only messages inside a polling response the network destroyed, or accepted but not yet sent when the session ended, may be missing.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "every interleaving of emitting goroutines, the writer, poll requests and upgrades; every payload and burst size; every network delay, fragmentation, stall, reset and poll abort",
 "Unit tests send a handful of packets through in-memory buffers or one localhost websocket; the hand-over between emitter, polling queue, HTTP response and upgrade depends on which goroutine runs at which moment.",
 ["engine/emitter.go", "engine/socket.go", "engine/polling.go", "engine/payload.go", "engine/websocket.go", "engine/server.go"],
 [("per-session emitter goroutine draining a bounded queue", "engine/emitter.go"), ("polling out queue handed to GET responses", "engine/polling.go: ReadPacketOut/WritePacket"), ("FlushOut hand-over on upgrade", "engine/server.go: upgrade")],
 [("emitter.packets", "messages accepted but not yet written to a transport", "engine/emitter.go"), ("pollingConn.out", "packets waiting for the next poll", "engine/polling.go")],
 ["engine.Socket.Emit/Send return value on the server", "polling response bodies and websocket frames at the client"])

prop("C02", "Client-to-server messages are handled exactly once, in order, intact",
 "Every message a client sends on a live session is handed to the server's message handler exactly once, byte-for-byte with its text/binary type, in sending order and one at a time per session, over websocket, over polling POSTs (binary and base64/text payloads of any number of packets), across a transport upgrade, and starting with messages sent immediately after the handshake. "
 "This holds however the network fragments, coalesces or delays the bytes; a POST that is malformed or not received in full is never answered with success and never delivers a message that differs from what was sent.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "every split of the request/frame bytes into reads, every delay and schedule, every payload mix, every moment of an upgrade, truncation at every byte",
 "payload tests decode from a bytes.Buffer that always returns everything asked for; no test fragments a body, truncates one, or sends while the session is opening or upgrading.",
 ["engine/payload.go", "engine/polling.go", "engine/websocket.go", "engine/server.go", "engine/session.go"],
 [("payload decoding from the request body", "engine/payload.go"), ("bounded in queue between POST handler and the session reader", "engine/polling.go"), ("one reader goroutine per session", "engine/server.go: NewServer")],
 [("pollingConn.in", "packets received but not yet handled", "engine/polling.go")],
 ["engine.EventMessage callback", "status of POST responses"])

prop("C03", "Transport upgrade is seamless, and a failed upgrade is harmless",
 "A polling session whose client completes the websocket upgrade handshake (probe ping, probe pong, upgrade packet) switches to that websocket in bounded time, keeping its session id and the response headers the application sets on it, with messages flowing both ways; the upgrade is notified once, and afterwards the session id is no longer served over polling. "
 "An upgrade attempt that fails at any point (silent, slow, garbage, disconnected before, during or after the probe, or a second concurrent attempt) leaves the session open on its old transport with heartbeats and messages continuing promptly in both directions, never blocks the application, and its websocket is given up by the inactivity deadline.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of upgrade, polls, POSTs, emits and closes; failure of the upgrading websocket at every step",
 "No test performs an upgrade; the hand-over involves the reader, the emitter, a pending poll, a pending POST and the upgrading request at once.",
 ["engine/server.go", "engine/polling.go", "engine/emitter.go", "engine/socket.go", "engine/barrier.go"],
 [("upgrade handshake", "engine/server.go: upgrade"), ("Pause/Resume of the polling transport", "engine/polling.go"), ("barrier between emitter/reader and upgrade", "engine/barrier.go")],
 [("Socket.Conn, Socket.transportName", "the transport in use", "engine/socket.go")],
 ["websocket frames, polling responses, engine.EventUpgrade/EventMessage callbacks"])

prop("C04", "Heartbeat keeps healthy sessions and ends silent ones",
 "The server answers every ping with a pong carrying the same data, after earlier output; a session whose client sends a packet at least every ping interval (with network delay below the ping timeout) is never ended for inactivity. "
 "A session whose client sends nothing is closed by the server no later than ping interval + ping timeout after its last packet was handled, on every transport and for any kind of silence (idle, vanished without FIN, stalled in mid-request, only polling); its session id is rejected and its connections closed from then on.",
 ["schedules", "fault_sequences", "configurations", "histories"],
 "every interval/timeout configuration, every arrival pattern of pings and messages, every point at which the peer goes silent",
 "Existing tests never advance a clock through a heartbeat period; timing depends on deadlines armed and re-armed by several goroutines.",
 ["engine/server.go", "engine/socket.go", "engine/polling.go", "engine/websocket.go", "engine/session.go"],
 [("read deadline of interval+timeout per read", "engine/socket.go: Read"), ("ping answered by pong", "engine/server.go: handle")],
 [("Socket.readTimeout", "inactivity limit", "engine/socket.go")],
 ["pong packets at the client, EventClose callback, status of requests with a dead sid"])

prop("C05", "Session end is reported exactly once and is final",
 "Every session the server opened ends with exactly one close notification to the server application once the peer closes (close packet, disconnect, reset, timeout) or the application closes it, in bounded time and whatever the order in which those happen; socket.io applications see exactly one disconnect per connected namespace. "
 "After the close notification no message, ping or event of that session is delivered to any handler, and before it the open/connect notification has been delivered.",
 ["schedules", "fault_sequences", "histories"],
 "every combination and race of peer close packet, connection loss, timeout, server-side close and upgrade, at every moment including during the handshake",
 "Tests close once, in a quiet system; double notifications and lost notifications need two endings racing or an ending racing the opening.",
 ["engine/server.go", "engine/socket.go", "server.go", "socket.go"],
 [("read-loop exit fires EventClose", "engine/server.go: NewServer"), ("close packet handling", "engine/server.go: handle"), ("detachall", "socket.go")],
 [("Server.sockets", "live socket.io sockets", "server.go"), ("sessionManager", "live sids", "engine/session.go")],
 ["EventClose / OnConnect / OnDisconnect callbacks"])

prop("C06", "Close is bounded, idempotent, flushing, and releases everything",
 "Closing a session from any goroutine, callback or number of goroutines at once, in any state (idle, backlogged, peer stalled, mid-handshake, mid-upgrade), returns within a small multiple of the ping timeout and never deadlocks; afterwards emits fail instead of blocking, the session id is refused, its connections are closed, every goroutine it used ends and the memory it held is released. "
 "On a websocket session with a receiving peer, every message whose emit succeeded before the close began is delivered before the connection ends.",
 ["schedules", "fault_sequences", "histories"],
 "every placement of one or more closes relative to emits, polls, upgrades, peer stalls and resets",
 "No test closes under load, with a stalled peer, or concurrently with an upgrade or another close.",
 ["engine/socket.go", "engine/emitter.go", "engine/server.go", "engine/client.go", "engine/polling.go"],
 [("once-guarded close stopping the emitter, flushing, then closing the transport", "engine/socket.go: Close, engine/emitter.go: flush")],
 [("emitter.done", "closing signal", "engine/emitter.go")],
 ["return of Close and Emit, goroutine count, connection table of the simulated network, requests with the dead sid"])

prop("C07", "Sessions are isolated from one another",
 "Session ids are unique, and what is sent on one session is only ever delivered on that session, for any number of concurrent sessions, clients and requests. "
 "A slow, stalled, dead or misbehaving client, or an application callback that blocks for one session, does not delay or fail the handshakes, messages, heartbeats or closing of any other session.",
 ["schedules", "fault_sequences", "histories"],
 "any number of sessions of any transport mix opening, talking and dying concurrently, with any of them stalled or with a blocked callback",
 "Tests run one session at a time.",
 ["engine/server.go", "engine/session.go", "server.go", "socket.go"],
 [("session map keyed by random sid", "engine/session.go"), ("per-session goroutines and queues", "engine/server.go, engine/emitter.go")],
 [("sessionManager.ß", "sid to session", "engine/session.go")],
 ["per-session message logs, latency of unaffected sessions"])

prop("C08", "Hostile or corrupted input never crashes or wedges the server",
 "No sequence of bytes, requests, frames or packets from a peer - malformed, truncated, oversized-length, out-of-protocol, or out of order, under either parser - makes the process panic, abort, spin, allocate memory out of proportion to what was received, or deadlock. "
 "At worst the offending request is refused or the offending session ends; other sessions and new handshakes are unaffected, and the offender's resources are released by the inactivity deadline.",
 ["inputs", "schedules", "fault_sequences"],
 "every byte string in every position of the protocol, at every point of a session's life",
 "Parser tests feed valid or a few invalid strings to one function; crashes need particular lengths, placements or repetition at the system boundary.",
 ["engine/payload.go", "engine/polling.go", "engine/websocket.go", "engine/server.go", "parser_default.go", "parser_msgp.go", "packet.go", "server.go"],
 [("payload and packet decoders", "engine/payload.go"), ("socket.io decoders", "parser_default.go, parser_msgp.go")],
 [], ["process survival, allocation sizes, probes by an innocent session"])

prop("C09", "Socket.io events arrive whole, once, in order, with their arguments",
 "An event emitted by one peer on a connected namespace invokes the handler registered for that name on the other peer exactly once with equal arguments, including any number of binary attachments, under both parsers and both directions, in emission order. "
 "Concurrent emits, acks and connects on one socket, with or without attachments and on any namespaces, never mix, split, reorder or lose each other's parts.",
 ["schedules", "inputs", "histories"],
 "every interleaving of concurrent emitters and acks on a socket, every argument mix, every network timing",
 "Parser tests encode and decode single packets; the assembly of text and binary frames of concurrent emitters on a shared connection is never exercised.",
 ["socket.go", "server.go", "client.go", "parser_default.go", "parser_msgp.go", "handle.go", "callback.go"],
 [("emitPacket writes the text frame and its attachments", "socket.go"), ("decoder reassembly", "parser_default.go: Add")],
 [("defaultDecoder.lastp", "packet waiting for attachments", "parser_default.go")],
 ["OnEvent callbacks, frames received by the client"])

prop("C10", "Acknowledgements reach exactly the right callback, at most once",
 "When an emit carries an acknowledgement callback and the peer answers it, that callback - and no other - runs exactly once with the answered values (including none, and binary values); duplicate, unknown or foreign-namespace acknowledgements run nothing. "
 "An event received with an acknowledgement request is answered exactly once, with its id, its namespace and its handler's return values, under both parsers and in both directions, for any number of emits in flight.",
 ["schedules", "inputs", "histories"],
 "every interleaving of concurrent emits-with-ack and answers, answers in any order, repeated, delayed or never sent",
 "No test has two acknowledgements in flight or a duplicate answer.",
 ["socket.go", "handle.go", "server.go", "client.go", "parser_default.go", "parser_msgp.go"],
 [("ack id allocation and map", "handle.go: onAck/fireAck"), ("answering events that carry an id", "server.go: process")],
 [("ackHandle.ackmap", "callbacks waiting for an answer", "handle.go")],
 ["ack callbacks, ack packets on the wire"])

prop("C11", "Namespace membership gates events and pairs connect with disconnect",
 "Per socket and namespace, connect and disconnect notifications strictly alternate starting with connect: one connect when the client joins (the root namespace is joined automatically on opening), one disconnect when it leaves or the session ends, none for a repeated join or leave. "
 "Events reach only handlers of their own namespace while the client is connected to it; joining or addressing a namespace the server does not have is answered with an error packet and changes nothing, and emitting on a namespace not connected returns an error and sends nothing.",
 ["histories", "schedules"],
 "every sequence of join, leave, event, ack and error packets over several namespaces, racing server-side emits and session end",
 "No test drives namespaces through joins, leaves and reconnections, or sends out-of-state packets.",
 ["server.go", "socket.go", "client.go", "handle.go"],
 [("attachnsp/detachnsp/detachall", "socket.go"), ("packet dispatch", "server.go: process")],
 [("socket.acks", "connected namespaces", "socket.go")],
 ["OnConnect/OnDisconnect/OnEvent callbacks, packets on the wire, Emit results"])

prop("C12", "Callbacks may use the library freely without deadlock",
 "From inside any callback (open/connect, disconnect/close, message/event, ack, ping, upgrade, error) the application may emit on this or another session, with or without acknowledgement, close this or another session, look up namespaces, or register engine.io handlers, and every such call returns in bounded time while the peer is responsive. "
 "Afterwards the session (or its orderly end) proceeds as if the call had been made from another goroutine.",
 ["schedules", "histories"],
 "every callback kind combined with every call, under load, during upgrade and during close",
 "Test callbacks only record their arguments.",
 ["server.go", "socket.go", "client.go", "handle.go", "engine/server.go", "engine/socket.go", "engine/emitter.go", "engine/client.go"],
 [("callbacks run on the session's reader goroutine", "engine/server.go, server.go"), ("locks released around callbacks", "socket.go: detachall, handle.go")],
 [], ["return of every call made inside a callback"])

prop("C13", "The public API is free of data races",
 "Concurrent use of servers, sessions, sockets and clients through their public API - serving requests, registering namespaces and handlers of the engine, emitting, acknowledging, reading or setting headers and addresses, upgrading, closing - by any number of goroutines performs no unsynchronised conflicting memory access.",
 ["schedules"],
 "every interleaving of public calls and network events",
 "The race detector only sees the interleavings a test happens to run, and tests are almost single-threaded.",
 ["engine/server.go", "engine/socket.go", "engine/polling.go", "engine/client.go", "server.go", "client.go", "socket.go", "handle.go"],
 [("RWMutex around Conn, sessions, sockets, acks", "engine/socket.go, engine/session.go, server.go, socket.go")],
 [], ["race detector reports on simulated schedules"])

prop("C14", "The Go client keeps, detects and ends its session correctly",
 "A socket.io client that dialled successfully delivers every packet the server sent from the first one on to its handlers, keeps the session alive with pings at the announced interval, and detects a vanished or closed server within ping interval + ping timeout. "
 "However the session ends (server close, connection loss, silence, own Close, in any order or at once), each connected namespace gets exactly one disconnect notification, pending calls return, and connections and goroutines are released; a dial that fails returns an error and leaves nothing open.",
 ["schedules", "fault_sequences", "histories"],
 "every server behaviour during and after the handshake, every network fault, every placement of Close",
 "Example-style tests dial a cooperative localhost server.",
 ["client.go", "engine/client.go", "engine/websocket.go", "engine/transport.go", "socket.go"],
 [("reader and ping goroutines", "engine/client.go: Dial"), ("event wiring", "client.go: Dial")],
 [("Client.closeChan", "close signal", "engine/client.go")],
 ["client callbacks, frames at the (simulated) server, open connections, goroutines"])

prop("C15", "Only valid handshakes create sessions, and they open correctly",
 "A request with a wrong protocol version, unknown transport, unknown or ended session id, disallowed origin, or a broken websocket handshake is refused with an error status and creates no session and no callback, and after the server is closed no new session is admitted. "
 "Every admitted handshake is answered first by exactly one open packet with a fresh session id, the configured interval and timeout and the available upgrades, followed (socket.io) by the root connect packet, before any other packet; the open callback runs exactly once.",
 ["inputs", "schedules", "configurations"],
 "every request form, every origin policy, every interleaving of handshakes with each other, with early client packets, with immediate disconnects and with server close",
 "Tests perform one successful handshake.",
 ["engine/server.go", "engine/transport.go", "engine/polling.go", "engine/session.go", "server.go"],
 [("request validation", "engine/server.go: ServeHTTP"), ("origin check", "engine/transport.go"), ("open packet", "engine/server.go: NewServer")],
 [("sessionManager", "live sids", "engine/session.go")],
 ["HTTP statuses, first packets, open callbacks"])

prop("C16", "Errors are reported once, where they belong, and have no other effect",
 "What one peer sends and the other cannot process is reported exactly once: what is no packet to Server.OnError or Client.OnError; a packet of a connected namespace whose event name, data or values cannot be used (a broken or missing argument list, values that fit neither the event handler nor the acknowledgement callback, an unknown packet type) to the OnError callback of that namespace with that session's socket; an error packet of the peer there too, with the data it carries. "
 "An error sent with EmitError arrives once, in its namespace, with its data. Nothing else comes of it: no handler or acknowledgement callback runs with values nobody sent, nothing is answered, no error is reported that did not happen, the session stays open and what follows on it is handled as usual - also where no error, connect or disconnect callbacks are registered at all.",
 ["inputs", "histories", "schedules"],
 "every kind of unusable packet at every point of a session's history, mixed with good packets, joins, leaves, acknowledgements and closes, under both parsers, for server and Go client, over every transport and network timing",
 "Tests check error returns of single decoder calls; whether an error reaches its callback, once, and leaves the decoder, the acknowledgements and the session intact depends on what came before and after.",
 ["server.go", "client.go", "socket.go", "handle.go", "parser_default.go", "parser_msgp.go", "callback.go"],
 [("packet dispatch and error reporting", "server.go: process, client.go: process"), ("decoder errors", "parser_default.go: Add, parser_msgp.go: Add")],
 [("defaultDecoder.lastp", "packet waiting for attachments", "parser_default.go")],
 ["OnError callbacks of server, client and namespaces; events and acknowledgements after them"])

prop("N01", "Parsers and payload codecs round-trip",
 "Encoding any valid packet or payload and decoding the result yields an equal packet, for both socket.io parsers and all three engine.io encodings.",
 ["inputs"], "every packet value", "Tests sample a few packets.",
 ["parser_default.go", "parser_msgp.go", "packet.go", "engine/payload.go"],
 [("encoders and decoders", "parser_default.go, parser_msgp.go, engine/payload.go")])

prop("N02", "Callback argument binding follows the callback's signature",
 "Event data is bound to a callback's parameters by position and type, a Socket parameter receives the socket, missing data leaves zero values, and unsupported signatures are rejected at registration.",
 ["inputs", "programs"], "every callback signature and argument list", "Tests sample a few signatures.",
 ["callback.go", "parser_default.go", "parser_msgp.go"],
 [("reflection-based binding", "callback.go: newCallback/Call")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
