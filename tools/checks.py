"""Configuration of the checks."""

DEFAULT = dict(
    shards=8, procs=[4, 1, 2, 8, 3, 4, 2, 6], limit=dict(quick=400, thorough=3000), min_evals=1,
    level='exploration', assumptions=[], mult=1,
    technique='', note='',
    rule='cases are generated from the seed; distinct ones are counted by their signature')

CHECKS = {
    'C01': dict(technique='runtime monitor: exactly-once and content oracle over recorded executions, race detector',
                note='Random pipelined requests of all encodings, sizes up to the exact buffer size and handler outcomes over the in-memory and a recording transport, all concurrency limits, seeded delay points. Trusts the reference codec and the goroutine-dump quiescence test. Sampled schedules.',
                rule='one evaluation is one request whose handler calls and replies were compared with the plan; distinct: '
                     'transport, concurrency limit, outcome kind, encoding, size classes of name and payload', min_evals=3000),
    'C02': dict(technique='runtime monitor: multiset equality of sent, handled, accepted and received signals, race detector',
                note='Random signals in both directions by several goroutines mixed with requests, over both transports. Calls with non-printable names may succeed or fail. Sampled schedules.',
                rule='one evaluation is one signal sent or one signal call; distinct: direction, transport, validity kind, '
                     'encoding, size classes of name and payload', min_evals=3000),
    'C03': dict(technique='runtime monitor: online counting of gated handlers at quiescent points, race detector',
                note='Handlers block on gates; at points where no goroutine can run the number of running handlers must be exactly min(unhandled, limit), entries of serial connections in the order of sending, other connections answered; after mixes of every other message type.',
                rule='one evaluation is one connection examined at a quiescent point; distinct: transport, limit, number of '
                     'unhandled messages, phase and kinds of messages sent before', min_evals=1000),
    'C05': dict(technique='runtime monitor: ordering oracle over recorded handler, reply and shutdown events, race detector',
                note='Shutdowns by several callers with gated handlers running, requests and signals before and after, forced pauses at the delay points of registration, deregistration and shutdown, free races, dials during the shutdown, shutdowns from hooks. Sampled schedules; what is sent concurrently with the beginning may go either way.', rule='one evaluation is one request whose outcome was judged after a shutdown; distinct: mode or forced '
                     'delay point, kind of request, whether it was sent before or after the beginning, whether it reached the '
                     'server in time, handled, replies', min_evals=1000),
    'C06': dict(technique='runtime monitor: ordering oracle over recorded handler, reply and socket events, race detector',
                note='Closures by several callers with gated handlers running on the connection, messages before and after, forced pauses at the delay points, free races, other connections probed. Sampled schedules; what is sent concurrently with the closure may go either way.', rule='one evaluation is one request whose outcome was judged after its connection was closed; distinct: as for C05', min_evals=1000),
    'C07': dict(technique='runtime monitor: sequential reference model and accounting of concurrent histories over notifications, hooks and getters, race detector',
                note='Random session operations by clients, handlers and other goroutines: after each operation all messages, hook calls and getters are compared with a model; concurrent and forced interleavings are judged by accounting at quiescent points. Sampled schedules; the in-memory session manager of the harness stands in for the storage.',
                rule='one evaluation is one session operation judged; distinct: kind, variant, executor, state of the connection, connections of the session, limit, transport, outcome', min_evals=3000),
    'C08': dict(technique='runtime monitor: registry compared with the sessions of all connections at quiescent points, race detector',
                note='Same workloads as C07; at every quiescent point the registry getters must equal what the open connections report; closures by key paused after listing their connections; crowds of up to 300 connections. Sampled schedules.',
                rule='as for C07', min_evals=3000),
    'C09': dict(technique='runtime monitor: exact admission counts of simultaneous restorations, race detector',
                note='Simultaneous restorations, held at the delay points between check and registration, with limits 0 to 4 and up to 8 connections, slots freed in all ways; generators that return keys in use; crowds; plus the workloads of C07. Restoring a session the connection already has is not judged at the limit.',
                rule='one evaluation is one set of simultaneous restorations or one session operation; distinct: limit, connections, taken slots, transport, otherwise as for C07', min_evals=2000),
    'C10': dict(technique='runtime monitor: sequential reference model of restorations over replies, lookups and getters, race detector',
                note='Restorations of stored, unknown, mangled, failing, unencodable, too large, exactly fitting and unwritable sessions on connections with and without session. Trusts encoding/json. Sampled.',
                rule='as for C07', min_evals=3000),
    'C11': dict(technique='runtime monitor: storage model over restarts, races, crashes and faults injected at every system call, race detector',
                note='Histories over several server instances on one directory, concurrent lookups and closures, writes cut off at every byte by a file size limit, processes killed or failed at every system call of an operation (strace on own children, skipped and counted if not available) and at random moments, servers run by an ordinary user, keys of custom generators, hundreds of sessions. Process crashes only, no power loss; one process per directory at a time.',
                rule='one evaluation is one operation, history, kill or fault judged; distinct: kind, sizes of info, instances, fault point', min_evals=1500),
    'C12': dict(technique='runtime monitor: file system watch (inotify) and snapshots around hostile restorations',
                note='A server in a child process run by an ordinary user, on a directory in a nested scratch tree with decoy session files; traversal, absolute, dotted, NUL, backslash, long and random keys, near misses of stored keys of all shapes. Existence tests of files (stat) are not observed.',
                rule='one evaluation is one hostile key; distinct: key with known names abstracted, reply', min_evals=1500),
    'C13': dict(technique='differential runtime monitor: real writers against an independent reference codec',
                note='Every message kind is written by the real writers into a recording writer and decoded by an independent codec and by the real parser; all name lengths 0-599, all characters, random payloads up to 70000 bytes, failing writers. Trusts the reference codec. Finite sample of payloads.',
                rule='one evaluation is one message written; distinct: message kind, classes of name and payload length, '
                     'encoding, safe mode, validity', min_evals=10000),
    'C14': dict(technique='differential runtime monitor: real parser against an independent reference codec, hostile readers and pooled histories',
                note='Exhaustive for sequences of up to two bytes, all types x lengths up to 299 x length flags, plus mutated messages through fragmenting and failing readers on dirty pooled messages. Trailing bytes of special replies are not judged.',
                rule='one evaluation is one parsed byte sequence; distinct: way of delivery, reference verdict, type byte and '
                     'length relative to the buffer, or type/length/length flag in the exhaustive part', min_evals=10000),
    'C15': dict(technique='differential runtime monitor: conversion against unicode/utf16 on the whole sequence',
                note='All code points, all single units, random sequences rich in surrogates, through payload, message and reply accessors. Trusts unicode/utf16 of the Go library.',
                rule='one evaluation is one string of UTF16 units converted through payload, message and reply accessors; '
                     'distinct: the unit sequence', min_evals=3000),
    'C19': dict(technique='runtime monitor: exactly-once, order and content oracle over recorded writes and reads, race detector',
                note='Several writers and a reader per direction of the real in-memory transport, chunked, oversized and empty writes, unread and closed connections, seeded delay points; the successful writes in acquisition order must equal the reads. Further writes on a writer after a failed one are not judged. Sampled schedules.',
                rule='one evaluation is one write compared with the reads of the other side; distinct: direction, kind, result, size class', min_evals=3000),
    'C20': dict(technique='runtime monitor: liveness at quiescent points and state oracle around close, dial, shutdown and deadlines, race detector',
                note='Pending and late operations around closures from both sides, forced pauses between critical sections, redials while operations of the old connection are pending or unfinished, simultaneous dials of one socket, hundreds of redials and pending reads, refused dials of every cause, dials racing with shutdowns, deadlines against the wall clock with generous upper bounds. Sampled schedules.',
                rule='one evaluation is one closure, refused dial, shutdown race or deadline history; distinct: numbers of readers, '
                     'writers, closers, dialers, forced delay point, earlier connections', min_evals=1000),
    'C21': dict(technique='runtime monitor: outcome accounting of competing attempts and contexts, race detector',
                note='Up to six simultaneous attempts per request with awaiting callers and ending contexts in all orders, storms over many requests, concurrent creations. A success that coincides with the end of the context may be answered either way. Sampled schedules.',
                rule='one evaluation is one request, storm or batch of creations; distinct: order, way of ending, attempts, winners', min_evals=1500),
    'C23': dict(technique='runtime monitor: finalizers, goroutine census and heap growth over finished connections, race detector',
                note='16 kinds of connection lives over both transports, 16 lives each: tokens reachable only through the options, the socket or the session of a connection must be collected, library goroutines return to their idle number; 250 consecutive lives of each kind must not grow the heap (0.7 objects or 200 bytes per connection, three times in a row). Leaks below that are not detected.',
                rule='one evaluation is one series of connection lives or shutdown; distinct: kind, transport, numbers', min_evals=250),
    'C25': dict(technique='runtime monitor: deadlines of all socket reads against the time of the last reception, heartbeat accounting, real clock',
                note='Every deadline the server passes to a read after every kind of message and for timeouts of every class, heartbeats against handler starts, replies and capacity also during closure and shutdown, in-memory connections timing out by the real clock. Not explored: wall clock changes, timeouts of other transports.',
                rule='one evaluation is one read deadline, timeout, heartbeat series or timed connection; distinct: kind of message, '
                     'limit, class of timeout, phase', min_evals=1500),
    'C04': dict(technique='runtime monitor: all message accessors and retained slices compared with what was sent, at entry, during and at the end of handlers, race detector',
                note='Handlers blocked in their middle look again after other messages were received, handled, ignored, rejected or malformed, after disconnects, closures, shutdown, server-side calls and garbage collections, over both transports and small buffers. Sampled schedules.',
                rule='one evaluation is one look of a running handler after another event, or one handler of a storm; distinct: kind of event, size class', min_evals=2000),
    'C16': dict(technique='runtime monitor: probe connections and reference verdicts under generated hostile bytes and disconnects, crash detection, race detector',
                note='Mutated messages of all types around the buffer size with a verdict of the independent parser, disconnects at 14 moments and forced delay points, storms of hostile clients, clients that never read, over both transports; other connections are probed all the time. Sampled inputs and schedules.',
                rule='one evaluation is one hostile message, disconnect, connection of a storm or unread client series; distinct: type, verdict, length class, moment, kind, limit', min_evals=4000),
    'C17': dict(technique='runtime monitor: hook traces and configuration messages against the configuration, the caused ends and an order specification, race detector',
                note='Configurations of all classes on both sides of the representable timeouts, eager clients against blocked connected hooks, eight causes of the end also during the hook, refused dials, handshakes failing at every step, storms of coming and going connections. Sampled schedules.',
                rule='one evaluation is one configuration received, one life of a connection or one failed handshake; distinct: transport, '
                     'sizes, cause, limit, actions of the hook', min_evals=1500),
    'C18': dict(technique='race detector and deadlock monitor under enumerated pairs of operations and stress from handlers, hooks and goroutines',
                note='All ordered pairs of 22 operations of the interface and of clients, from random ones of eight places (free, handlers, hooks) with the first paused at one of 26 points between critical sections; the same operation many times at once; storms. At rest every call must have returned, the registry must match the connections, the server must serve. Operations called by key generators and session info objects (under locks) are not explored. Sampled places and schedules.',
                rule='one evaluation is one pair, series or storm; distinct: operations, places, pause', min_evals=1500),
    'C22': dict(technique='mutation-isolation monitor: copies and values are compared with an independently generated twin of the data after scribbling over everything handed out; race detector',
                note='Random nested data of maps, slices (typed and untyped, nil and empty, with spare capacity) and scalars. Everything handed out (values, copies, clones, server sessions of created and restored sessions) is overwritten in place, including beyond slice lengths, and all other objects and values are then compared by type and value. Pointers, arrays and structs in session info are outside of the property (not JSON-like).',
                rule='one evaluation is one info object or session with its history; distinct: by data', min_evals=4000),
    'C24': dict(technique='tap of the secure random source plus statistical monitor (entropy per character, linear rank, mutual information, coincidences) over keys of goroutines, servers and processes',
                note='The source crypto/rand.Reader is tapped before any other package is initialized: keys have to be covered by 32 drawn bytes each (64 KiB of read-ahead allowed), also with short reads, and no keys may appear when it fails. Statistical limits are far outside of the noise of random keys. A source that draws enough secure bytes but stretches fewer of them cryptographically could not be noticed. Child processes run with the automatic seeding of math/rand disabled.',
                rule='one evaluation is one batch of keys', min_evals=100),
    'C26': dict(technique='fault injection at every transport call and hook with monitors of results, sessions, registry, writers, error log and bystander connections; race detector',
                note='Every acquisition, write and flush (one or all from the n-th on) of every operation of the server and of clients fails, with other connections probed meanwhile; reads and closing fail; closing hooks panic in eight ways or return errors on every path, also while the creation hook runs; random histories against the session model and storms. Transports that panic or that deliver a message although they reported a failure are out of scope, as are panics of hooks other than the closing one.',
                rule='one evaluation is one operation with its fault, one step of a history or one storm; distinct: operation, fault, path', min_evals=4000),
}

# factors of the numbers of cases of the quick tier
for _p, _m in dict(C01=2, C02=3, C03=3, C04=2, C05=2, C07=2, C08=2, C09=2, C10=2, C11=3, C12=3, C13=2, C14=2, C15=3, C16=3, C17=4, C18=2, C21=3, C22=3, C23=2, C26=2).items():
    CHECKS[_p].setdefault('mult', _m)
