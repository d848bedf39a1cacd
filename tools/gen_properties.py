#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay diffable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Every request is handled once and answered by exactly one matching reply",
  "On an open connection of a running server, every well-formed request a client sends is handed to the request handler exactly once with exactly the identifier, name, encoding and payload that were sent, and the client receives exactly one reply carrying that identifier. The reply conveys exactly the handler's outcome: its payload and encoding, or its explicit error code and message, or, for any other error, an internal-error reply that carries no text of the error. An outcome that cannot be represented on the wire (message larger than the message buffer, odd-length UTF16, missing, too long or non-printable error code) is also answered, by an internal-error reply, and the connection stays usable.",
  ["inputs", "schedules", "histories"],
  "All request contents and sizes up to the message buffer, all handler outcomes, any number of pipelined requests on any number of connections, every concurrency limit and interleaving.",
  "The tests send one request at a time with one or two fixed payloads and never a reply the transport refuses to write.",
  ["handleConnection.go", "handleMessage.go", "handleRequest.go", "fulfillMsg.go", "failMsg.go", "message/parseRequest.go", "message/writeMsgReply.go", "message/writeMsgErrorReply.go", "transport/memchan/buffer.go"],
  [("reply identifier echoed from the parsed request", "fulfillMsg.go, failMsg.go"), ("outcome-to-reply mapping", "handleRequest.go"), ("writer lock released when the message was written or refused", "transport/memchan/buffer.go, socket.go")],
  observe=["request handler invocations", "messages received by the client"])

p("C02", "Signals are delivered exactly once, intact, and never answered",
  "Every well-formed signal a client sends on an open connection of a running server invokes the signal handler exactly once with exactly the name, encoding and payload that were sent, and never causes a reply. Every server-side signal call either returns nil and delivers exactly that name, encoding and payload to exactly that client exactly once, or returns an error and delivers nothing, which it does for signals that are not well-formed (neither name nor payload, a name longer than 255 bytes or not in 7-bit ASCII, an odd-length UTF16 payload) or too large for the message buffer; after an error the connection remains fully usable.",
  ["inputs", "schedules", "histories"],
  "All signal contents and sizes, valid and invalid, in both directions, concurrent with requests, replies and other signals on any number of connections.",
  "The tests send single valid signals, one encoding each; no test uses a connection again after a refused signal, and none sends a name-only UTF16 signal.",
  ["connection.go", "handleSignal.go", "handleMessage.go", "message/writeMsgSignal.go", "message/parseSignal.go", "message/parseSignalUtf16.go", "message/calcMsgLen.go"],
  [("size check before writing", "connection.go Signal"), ("exclusive writer", "Socket.GetWriter"), ("signal parsing", "message/parseSignal*.go")],
  observe=["signal handler invocations", "messages received by the client", "return value of Connection.Signal"])

p("C03", "Handler concurrency limit, ordering and independence of connections",
  "Per connection, the number of request and signal handlers executing at once never exceeds the configured limit (0 means 1, negative means unlimited), and with a limit of one the messages are handled one after another in the order they were sent. The limit stays reachable for the life of the connection: finished, refused, ignored or session-related messages never consume capacity permanently. A blocked handler never delays the handling of messages on other connections, nor on its own connection while capacity is free.",
  ["configurations", "schedules", "histories"],
  "Every limit value, every mix of message types and handler durations, any number of connections.",
  "No test sets a concurrency limit at all.",
  ["registerHandler.go", "deregisterHandler.go", "handleMessage.go", "connection.go", "connectionOptions.go"],
  [("per-connection weighted semaphore", "registerHandler.go, deregisterHandler.go"), ("inline handling when the limit is 0 or 1", "handleMessage.go")],
  observe=["handler entry and exit"])

p("C04", "A handler's message stays stable and isolated until the handler returns",
  "What a handler reads from its message (identifier, name, encoding, payload) equals what its client sent from the moment the handler is entered until it returns, however many other messages the server receives, answers or rejects meanwhile. Bytes of another message or of another connection are never visible through it, even though message buffers are pooled and reused.",
  ["schedules", "histories", "inputs"],
  "Every interleaving of concurrently handled messages of different sizes and types on any number of connections.",
  "The tests handle one message at a time; buffer reuse while a handler runs needs concurrent traffic.",
  ["message/syncPool.go", "message/message.go", "message/read.go", "handleRequest.go", "handleSignal.go", "handleMessage.go", "handleConnection.go"],
  [("buffer returned to the pool only after the handler finished", "handleRequest.go, handleSignal.go, message/message.go Close"), ("all message fields reset on close", "message/message.go Close")],
  observe=["message accessors at handler entry and exit"])

p("C05", "Graceful server shutdown",
  "Shutting the server down returns only after every request and signal handler that was started has returned and its reply was handed to the connection, and it does return, for every concurrent caller, once they have. From the moment the shutdown has begun no further request or signal handler starts: requests, including session requests, that reach the server while it still waits for running handlers are each answered by a shutdown reply, signals are dropped without effect on the shutdown, and new connections are refused.",
  ["schedules", "histories", "configurations"],
  "Every number of running, queued and late messages of every type, every concurrency limit, every moment of shutdown, disconnects during it, any number of callers.",
  "The single test shuts down with one signal and one request running, with no late signal, no concurrency limit and one late request.",
  ["server.go", "registerHandler.go", "deregisterHandler.go", "failMsg.go", "isShuttingDown.go", "transport/memchan/transport.go"],
  [("operation counter and shutdown flag under one lock", "server.go, registerHandler.go, deregisterHandler.go"), ("shutdown-ready channel", "deregisterHandler.go")],
  state=[("currentOps", "number of registered handlers of the whole server", "server.go")],
  observe=["handler entry/exit", "return of Shutdown", "replies", "outcome of dialing"])

p("C06", "Graceful closing of a single connection",
  "Closing a connection on the server side never interrupts work: its socket is closed only after every running handler of that connection has returned and its reply was sent, and then it is always closed, after which the connection has no session and is in no session's list of connections. Once closing was requested no handler starts for messages arriving on that connection: requests arriving while it still waits for running handlers are answered by a shutdown reply and signals are dropped. Closing is idempotent and leaves other connections untouched.",
  ["schedules", "histories", "configurations"],
  "Every number of running and queued messages, every concurrency limit, closing from inside and outside of handlers and hooks, concurrently with client disconnects.",
  "No test closes a connection with work in progress.",
  ["connection.go", "registerHandler.go", "deregisterHandler.go", "handleMessage.go"],
  [("per-connection task counter and active flag under one lock", "connection.go Close, registerTask, deregisterTask")],
  state=[("tasks/isActive", "running handlers of a connection and whether it accepts messages", "connection.go")],
  observe=["socket close", "handler entry/exit", "replies", "session registry getters"])

p("C07", "Session creation and closure are in sync between server, client and storage",
  "A successful session creation gives the connection exactly one new session, tells the client exactly once, with the same key, creation time and info the server-side getters report, and calls the storage's creation hook exactly once; creating one over an active session, on a closed connection, with sessions disabled or when the client cannot be notified fails and changes nothing. Closing a session, by either side, removes it from the connection, informs the client exactly once (a notification, or the confirmation of its own request), and calls the storage's closing hook exactly once, not before the creation hook of that session has returned, and only if no other connection still has that session; closing without a session is a no-op. Losing or closing a connection never destroys its session.",
  ["histories", "schedules", "configurations"],
  "Every sequence of create, close, restore, disconnect and server-level close operations over any number of connections and sessions, sequential and concurrent.",
  "The tests run a handful of fixed two- or three-step sequences on one or two connections.",
  ["connection.go", "server.go", "sessionRegistry.go", "handleSessionClosure.go", "session.go", "message/writeMsgSessionCreated.go", "message/writeMsgSessionClosed.go"],
  [("session field guarded by the session lock", "connection.go"), ("last-connection detection", "sessionRegistry.go deregister")],
  observe=["client messages", "session manager hooks", "connection getters"])

p("C08", "The session registry mirrors the sessions of the open connections",
  "Whenever no operation is in progress, the number of active sessions, the number of connections of each session and the connections listed for it are exactly those of the open connections that currently have that session: none missing, none stale, none listed twice or under two sessions. Closing a session by key affects exactly the listed connections and leaves every other session and connection untouched.",
  ["histories", "schedules"],
  "Every history of creations, restorations (also over an already assigned session), closures by either side, disconnects and concurrent combinations of them.",
  "Tests exercise the registry with single-threaded registrations; no test restores over an active session, closes twice or concurrently.",
  ["sessionRegistry.go", "connection.go", "handleSessionRestore.go", "handleSessionClosure.go", "server.go"],
  [("registry map under its lock", "sessionRegistry.go"), ("register/deregister paired with setting/resetting the session", "connection.go, handleSessionRestore.go, handleSessionClosure.go")],
  observe=["ActiveSessionsNum", "SessionConnectionsNum", "SessionConnections", "Connection.SessionKey"])

p("C09", "The per-session connection limit is exact and refusing is harmless",
  "With a maximum of M connections per session, no interleaving of restorations ever gives more than M connections the same session; M simultaneous ones are always admitted, each one in excess is answered by the limit-reached reply, keeps no session and stays usable, and the server keeps running. A slot freed by a closed session or connection can be taken again; a maximum of zero means no limit.",
  ["schedules", "configurations", "histories"],
  "Every limit, every number of connections racing to restore the same and different sessions, with slow storage lookups.",
  "One test restores five connections strictly one after another with limit four.",
  ["handleSessionRestore.go", "sessionRegistry.go"],
  [("limit check at registration under the registry lock", "sessionRegistry.go register")],
  observe=["replies to restoration requests", "session registry getters"])

p("C10", "Session restoration is faithful and all-or-nothing",
  "Restoring a session by key succeeds exactly when the session storage returns a session for precisely that key; the connection then has that key and that session's creation time and (parsed) info, and the reply carries the same key, creation time, last lookup time and info. If the storage knows no such session, fails, or the session cannot be sent, the client gets respectively a not-found or an internal-error reply carrying no internal detail; with sessions disabled it gets the sessions-disabled reply; in all failing cases the connection keeps the session state it had, and stays usable.",
  ["inputs", "histories", "schedules"],
  "All key byte strings, all JSON-representable infos, all storage outcomes, before and after reconnects, concurrent restorations.",
  "Tests restore one fixed key with a nil info and compare creation times only.",
  ["handleSessionRestore.go", "session.go", "sessionLookupResult.go", "message/parseRestoreSession.go", "genericSessionInfo.go"],
  [("lookup result copied into the session and the JSON reply", "handleSessionRestore.go")],
  observe=["restoration replies", "connection getters", "lookup hook arguments"])

p("C11", "The default session storage is durable, exact and atomic",
  "A session created with the default file-based storage can be restored with identical key, creation time and info by any later server instance using the same directory, any number of times and by any number of concurrent connections, also when the server runs as an ordinary user and created the directory itself; each lookup reports the time of the previous lookup and records its own. A process crash or a failed or partial write at any moment never loses or corrupts a session that was stored before. Once a session was closed it is never found again, even if its closure raced with lookups.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "Every crash or write-failure point inside a storage operation, every interleaving of lookups and closures, all JSON-representable infos.",
  "No test uses the default session storage.",
  ["defaultSessionManager.go", "sessionInfoToVarMap.go"],
  [("session file per key, JSON encoded", "defaultSessionManager.go")],
  observe=["OnSessionLookup results", "session directory after crash"])

p("C12", "Client-supplied session keys cannot reach outside the session directory",
  "Whatever key a client sends in a restoration request, the default file-based session storage reads, creates, modifies and deletes nothing outside its own directory and never returns a session from a file outside of it or for a key other than the requested one. Such a request is answered like an unknown or failed lookup and the server keeps running.",
  ["inputs"],
  "All byte strings as keys, in particular path separators, dot segments, NUL bytes, over-long and non-UTF8 names.",
  "No test uses the default session storage, nor a malicious key.",
  ["defaultSessionManager.go", "handleSessionRestore.go"],
  [("key to file path mapping", "defaultSessionManager.go filePath")],
  observe=["file system tree around the session directory", "lookup results"])

p("C13", "Everything the writers accept is parsed back unchanged",
  "For every kind of message, what a message writer accepts for transmission is a byte sequence of the documented format whose parsing yields the same type, identifier, name or error code, encoding and payload, and whose length equals the computed message length. Inputs outside the format (name or code too long, non-printable name or code in safe mode, odd-length UTF16 payload, request or signal without name and payload, unknown special reply) are refused with an error and put no message on the wire.",
  ["inputs"],
  "All names of 0..255 bytes and beyond, all encodings, all payload lengths and contents, all identifiers and server configurations.",
  "Tests use a few random names and payloads per writer and compare against hand-written bytes, never writer against parser, and no name-only UTF16 message.",
  ["message/writeMsgRequest.go", "message/writeMsgSignal.go", "message/writeMsgReply.go", "message/writeMsgErrorReply.go", "message/writeMsgSpecialRequestReply.go", "message/writeMsgNamelessRequest.go", "message/newAcceptConfMessage.go", "message/calcMsgLen.go", "message/parse.go", "message/messageParts.go"],
  [("writers and parsers per message type", "message/")],
  observe=["bytes written", "parsed message fields"])

p("C14", "Parsing is total, exact and independent of history and fragmentation",
  "Parsing any byte sequence never panics and either fails or yields fields that are exactly the slices of the input prescribed by the documented format: sequences shorter than the minimum for their type, with a name or code length flag pointing beyond the message, unaligned UTF16 or an unknown type are rejected, and every documented valid message is accepted. The result depends only on those bytes: not on messages previously parsed into the same pooled message, nor on how a reader fragments them. A message larger than the message buffer is always rejected and never truncated or overwritten into a valid one.",
  ["inputs", "histories"],
  "All byte sequences up to and beyond the buffer size, all histories of pooled message reuse, all legal reader behaviours (short reads, empty reads, data together with EOF, errors).",
  "Tests parse fresh messages from one-shot byte slices of selected lengths.",
  ["message/parse.go", "message/parseRequest.go", "message/parseRequestUtf16.go", "message/parseSignal.go", "message/parseSignalUtf16.go", "message/parseReply.go", "message/parseReplyUtf16.go", "message/parseErrorReply.go", "message/buffer.go", "message/read.go", "message/syncPool.go", "message/message.go"],
  [("length checks before slicing", "message/parse*.go"), ("bounded buffer read", "message/buffer.go"), ("reset on close", "message/message.go")],
  observe=["parsed message fields and errors"])

p("C15", "UTF16 payloads convert to exactly the UTF8 text they encode",
  "Reading a payload as UTF8 yields, for UTF16 payloads (little endian), the UTF8 encoding of precisely the same sequence of code points, including characters outside of the basic multilingual plane, with U+FFFD for unpaired surrogates; an odd-length UTF16 payload yields an error. Binary and UTF8 payloads pass through unchanged. The payload itself is never modified.",
  ["inputs"],
  "All Unicode strings and all byte sequences of all lengths, for received messages and replies.",
  "The test converts one ASCII string.",
  ["payload/payload.go", "message/message.go", "requestManager/reply.go"],
  [("UTF16 decoding", "payload/payload.go Utf8")],
  observe=["PayloadUtf8 results"])

p("C16", "No client can crash the server or disturb other connections",
  "Whatever bytes a client sends and whenever it disconnects, the server neither crashes nor deadlocks, and all other connections keep being served correctly. A malformed message closes only the connection it came from, without invoking any handler for it; well-formed messages of types a server does not process are ignored and the connection remains usable.",
  ["inputs", "fault_sequences", "schedules"],
  "All byte sequences, all message type mixes, disconnects at every moment including while handlers run, replies are written or a shutdown is in progress.",
  "One test sends two malformed messages; no test disconnects while work is in progress.",
  ["handleConnection.go", "handleMessage.go", "registerHandler.go", "failMsg.go", "message/parse.go", "transport/memchan/socket.go"],
  [("read errors close the connection", "handleConnection.go"), ("unexpected types deregistered", "handleMessage.go")],
  observe=["process survival", "service on other connections", "state of the offending connection"])

p("C17", "Connection handshake and lifecycle hooks are exact and ordered",
  "The first message on every accepted connection is the configuration message, stating exactly the protocol version, read timeout, message buffer size and sub-protocol name the server was set up with. For every connection whose handshake succeeded the connected hook runs exactly once, with the options the transport assigned, and completes before any message of that connection is handled; the disconnected hook then runs exactly once, after the end of the connection, whoever caused it. For refused connections or failed handshakes neither hook runs, and the connection's info, creation time and remote address never change.",
  ["histories", "schedules", "configurations", "fault_sequences"],
  "Every server configuration, connection outcome, cause of disconnection and interleaving of eager client messages with the connected hook.",
  "Tests check the hooks on single, well-behaved connections and one configuration.",
  ["handleConnection.go", "newServer.go", "message/newAcceptConfMessage.go", "message/parseAcceptConf.go", "connection.go", "serverOptions.go", "transport/memchan/transport.go"],
  [("handshake before the hook, hook before the read loop", "handleConnection.go")],
  observe=["first client message", "lifecycle hooks", "handler entry"])

p("C18", "The public server and connection interface is free of data races and deadlocks",
  "All exported server and connection operations (signalling, creating, reading and closing sessions, closing connections, querying the registry, shutting down) may be called concurrently from any number of goroutines, from inside handlers and hooks and in parallel with client activity, without data race, crash or deadlock.",
  ["schedules"],
  "Every interleaving of concurrent API calls with each other and with client traffic, session requests and disconnects.",
  "Tests run without the race detector here and hardly call anything concurrently.",
  ["connection.go", "server.go", "sessionRegistry.go", "handleSessionRestore.go", "handleSessionClosure.go", "handleConnection.go"],
  [("state, session, registry and operation locks", "connection.go, sessionRegistry.go, server.go")],
  observe=["race detector reports", "progress of every call"],
  hook="delay points between critical sections (build tag verif)")

p("C19", "The in-memory transport delivers every message exactly once, intact and in order",
  "Over an open in-memory connection each message written by one side is read by the other exactly once, byte for byte, never merged or interleaved with concurrently written ones and in the order the writers were acquired; a write that reports success has been received. A write that reports an error (too large, nothing written, closed) leaves the connection usable by the next writer if it is still open and its message is not delivered; any message up to the configured buffer size can be transferred.",
  ["schedules", "inputs", "histories"],
  "Any number of concurrent readers and writers on both sides, every message size around the buffer limit, every chunking of writes.",
  "Tests write a constant message; 128 concurrent writers write the same bytes so loss or duplication of content cannot be seen.",
  ["transport/memchan/socket.go", "transport/memchan/buffer.go"],
  [("writer lock held until the reader confirmed", "transport/memchan/socket.go onBufferFlush"), ("read lock", "transport/memchan/socket.go Read")],
  observe=["bytes read", "results of writes"])

p("C20", "The in-memory transport connects, closes and times out cleanly",
  "Closing an in-memory connection from either side at any moment, any number of times, ends every pending and future read and write on both sides with an error, without hanging, panicking or racing, and a later dial gives a fresh connection with no leftovers of the earlier one, even if the server is still finishing work of it. A dial that is refused, by the accept callback, a shutdown or a stopped server, leaves the socket disconnected; after the transport was stopped no connection is or becomes open. A read returns a timeout error if and only if its deadline has passed without a message, and never without a deadline.",
  ["schedules", "histories", "fault_sequences"],
  "Every interleaving of read, write, close, dial and stop from any number of goroutines on both ends.",
  "Tests sleep until an operation is blocked and then close once; no test races closing with reading, writing, dialing or stopping.",
  ["transport/memchan/socket.go", "transport/memchan/transport.go", "transport/memchan/newSocket.go"],
  [("shared connection status", "transport/memchan/socket.go Close, Dial"), ("connection table", "transport/memchan/transport.go")],
  observe=["return of every read, write, dial and close", "IsConnected"],
  hook="delay points around closing and flushing (build tag verif)")

p("C21", "Each tracked request gets a unique identifier and exactly one outcome",
  "Concurrently created requests always have distinct, consecutive identifiers and are pending until their outcome. Of all attempts to fulfil or fail a request at most one reports success, none ever blocks, and the awaiting caller gets exactly that attempt's reply or error, or its own context's cancellation or deadline error; once it got an outcome, later attempts report failure and the request is no longer pending.",
  ["schedules", "histories"],
  "Every interleaving of create, fulfil, fail, await, cancel and deadline over any number of requests, including duplicate and late replies.",
  "Tests fulfil or fail one request once, sequentially, and never cancel.",
  ["requestManager/requestManager.go", "requestManager/request.go", "requestManager/reply.go", "translateContextError.go"],
  [("atomic identifier counter", "requestManager/requestManager.go Create"), ("pending map under lock", "requestManager/requestManager.go")],
  state=[("pending", "requests without outcome", "requestManager/requestManager.go")],
  observe=["return values of Create, Fulfill, Fail, AwaitReply, IsPending, PendingRequests"])

p("C22", "Session info handed out is an exact and independent copy",
  "For generic session info of any JSON-like shape, every field value, copy and session object handed out equals the stored data in value and type and shares no mutable memory with it: modifying a returned value, a copied info or a returned session never changes what the session reports afterwards. The reported field names are exactly those of the data, and unknown fields yield nil.",
  ["inputs", "histories"],
  "All nestings of maps, slices and scalars, including nil and empty ones, with and without typed element types.",
  "The test copies one fixed map and compares it without mutating it.",
  ["genericSessionInfo.go", "session.go", "sessionInfoToVarMap.go", "connection.go"],
  [("recursive reflective copy", "genericSessionInfo.go deepCopy")],
  observe=["values before and after mutation"])

p("C23", "A finished connection leaves nothing behind in the server",
  "After a connection has ended and its handlers have returned, the running server holds no goroutine, session registration, handler capacity or reference to the connection, its socket or its options. Serving any number of consecutive connections therefore takes bounded memory and goroutines, whatever happened on them (requests, errors, sessions, refused handshakes, abnormal closure), and after a shutdown no goroutine of the server remains.",
  ["histories", "fault_sequences"],
  "Every history of connections, however each of them ended.",
  "No test observes resources after a disconnect.",
  ["handleConnection.go", "connection.go", "sessionRegistry.go", "newServer.go", "transport/memchan/transport.go"],
  [("unlinking", "connection.go unlink, handleConnection.go")],
  observe=["finalisation of per-connection objects", "goroutine census", "session registry getters"])

p("C24", "Default session keys are unique, unpredictable and URL-safe",
  "Every key produced by the default session key generator is a non-empty URL-safe string carrying at least 256 bits from a cryptographically secure source. No two keys ever coincide, across goroutines, generators, servers and processes, and no part of a key is constant or predictable from others.",
  ["inputs", "schedules", "configurations"],
  "All keys ever generated, concurrently and in different processes.",
  "Tests never look at generated keys.",
  ["session.go"],
  [("48 random bytes, base64url", "session.go generateSessionKey")],
  observe=["generated keys"])

p("C25", "Connections live exactly as long as the client keeps them alive",
  "A connection is never closed for inactivity before the configured read timeout has elapsed since the server last received a message on it, of whatever type, heartbeats included, and it is closed once it has. Heartbeats have no other effect: they invoke no handler, cause no reply and consume no handler capacity. Read timeouts below one second are replaced by the documented default, and the advertised timeout is the one applied.",
  ["histories", "schedules", "configurations"],
  "Every sequence of messages and heartbeats and every configured timeout.",
  "No test sends a heartbeat to a server or waits for a read timeout.",
  ["handleConnection.go", "handleMessage.go", "serverOptions.go", "transport/memchan/socket.go", "message/parseHeartbeat.go"],
  [("read deadline renewed before each read", "handleConnection.go"), ("read timer", "transport/memchan/socket.go readWithDeadline")],
  observe=["deadline passed to each socket read", "time of closure"])

p("C26", "Failures of storage hooks and of the transport are contained",
  "A storage hook that returns an error or, on session closure, panics, and a transport whose writer acquisition, write, flush or close fails at any point, never crash or block the server and never affect other connections; errors of hooks are logged, and failures of the transport and of lookups are never reported to the caller or client as success. After the failure the state of the session is consistent: a failed creation notification leaves no session, a failed creation hook leaves the session active, a failed or panicking closing hook leaves the session closed, and the failing connection can be used or closed normally as far as its transport permits.",
  ["fault_sequences", "schedules"],
  "A fault at every single hook and transport call of every operation, and random combinations of them.",
  "No test lets a hook or the transport fail.",
  ["connection.go", "sessionRegistry.go", "newServer.go", "fulfillMsg.go", "failMsg.go", "handleConnection.go", "handleSessionRestore.go"],
  [("errors logged and mapped to replies", "fulfillMsg.go, failMsg.go, handleSessionRestore.go"), ("recover around the closing hook", "sessionRegistry.go deregister")],
  observe=["process survival", "return values", "session getters", "subsequent requests"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)
print(len(P))
