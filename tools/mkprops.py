#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

SEND = [("queue", "frames accepted and not yet written", "connector.go Sender"), ("output", "current connection or nil", "connector.go Sender")]
p("C01", "Concurrent logging is written exactly once and in order",
  "While the destination stays healthy, every message accepted before End is called - from any number of goroutines, through Send, a channel's Log or Write, or a Logger - has been written to the connection exactly once, as one intact transport frame, when End returns. A message whose logging call returned before another one's began is written before it. Nothing else is ever written to the connection.",
  ["schedules", "histories"], "every interleaving of producer goroutines, flush ticks, slow writes and End; every transport and message mix",
  "TestBurst has a single producer, one schedule per run chosen by the Go runtime, and never ends the sender while others log; lost updates need a particular preemption point.",
  ["connector.go", "channel.go", "transport.go", "message.go"],
  [("queue lock", "connector.go Send/flushQueue"), ("final drain", "connector.go runQueue")], ["bytes given to the connection's Write"], SEND)
p("C02", "Broken connections never tear, lose, reorder or repeat whole messages",
  "When a write fails after any number of bytes, every message accepted before End is still written whole, in the accepted order, to some connection before End returns. The bytes written to any one connection are whole frames, of which only the last may be cut short, and only by the failure that ended that connection. A message is written again only if the failure cut its frame.",
  ["schedules", "fault_sequences", "histories"], "every byte position and number of write failures, on every schedule of producers, ticks and End, every transport",
  "No test lets a write fail; the tests' clients exit the process on the first error.",
  ["connector.go"], [("error handling of a failed flush", "connector.go flushQueue")], ["bytes given to each connection's Write"], SEND)
p("C03", "An outage of the destination loses and reorders nothing",
  "While the destination refuses connections, accepted messages are kept in order, however long the outage lasts and however often it recurs, and every failure is delivered on the error channel to an application that looks at it at least once per flush delay. Once connections succeed again, everything accepted meanwhile is written, exactly once and in order, at the first flush that follows, without any action of the application.",
  ["schedules", "fault_sequences", "histories"], "every pattern of refused connects and outage durations, also before the first connect and during End; every schedule",
  "The tests always have a listening server before they dial.",
  ["connector.go", "dialer.go"], [("reconnect on next flush", "connector.go flushQueue")], ["bytes given to the connection's Write", "error channel"], SEND)
p("C04", "Ending a sender always completes and never crashes",
  "End returns once the destination accepts connections and writes, whatever it finds: nothing logged yet, no flush done yet, a backlog, an outage, or a write in progress; it never crashes the process. When End has returned, the messages accepted before it are written, the connection is closed, the error channel is closed (after any errors still held in it), and no goroutine of the sender remains.",
  ["schedules", "fault_sequences", "histories"], "End at every instant of every schedule, with every connection state and fault history",
  "Tests call End once, after traffic, with a live server; never before the first connection.",
  ["connector.go"], [("endAsked/endCompleted handshake", "connector.go End/runQueue")], ["return of End", "closing of connection and error channel"], SEND)
p("C05", "Ignoring the error channels never blocks logging or receiving",
  "An application that never reads a sender's or a receiver's error channel is never blocked by that: after any number of errors logging calls still return, kept messages are written once the destination is back, End returns, and the receiver still accepts peers and delivers their messages.",
  ["schedules", "fault_sequences"], "any number and timing of connect, write, accept and read errors with nobody (or a reader that stops) reading the error channels",
  "Every test reads the error channel and exits on the first error; the README's own example ignores it.",
  ["connector.go", "listener.go"], [("error reporting", "connector.go flushQueue; listener.go runQueue/tokenize")], ["return of logging calls", "messages from Receive"])
p("C06", "A sender holds one connection at a time and closes each one it opened",
  "At any instant a sender has at most one open connection; after a failed write (other than ENOBUFS) it never uses that connection again and closes it no later than it opens the next one. When End has returned, every connection it ever opened has been closed, and nothing is written to a connection after it was closed.",
  ["schedules", "fault_sequences", "histories"], "every sequence of connect and write failures, every schedule, End at any point",
  "Tests never fail a write, so the second connection never exists; a leaked descriptor makes no test fail.",
  ["connector.go"], [("output replaced after failure", "connector.go flushQueue")], ["Connect, Write and Close calls on the connections"], SEND)
p("C07", "ENOBUFS only delays messages; one write is one frame",
  "When a write fails with ENOBUFS the sender keeps the connection and everything unsent, reports no error and tries again at a later flush (or at once when ending). After buffers are available again every accepted message has been written exactly once and in order by the time End returns, and on a datagram socket each datagram carries exactly one whole frame.",
  ["schedules", "fault_sequences"], "every number, position and duration of ENOBUFS failures mixed with other failures and all schedules",
  "ENOBUFS comes from the kernel under memory pressure (BSD/macOS datagram sockets); no test can make it happen.",
  ["connector.go", "connector-local.go"], [("ENOBUFS case", "connector.go flushQueue"), ("unixgram wrapper", "connector-local.go")], ["Write calls on the connection", "error channel"])
p("C08", "The flush delay bounds how long a message waits",
  "With a flush delay above one millisecond and a destination that accepts at once, every accepted message has been written no later than one flush delay after its logging call returned. With a flush delay of one millisecond or less, nothing is written before End, which then writes everything.",
  ["schedules", "histories", "configurations"], "every flush delay, every arrival pattern of messages relative to the ticks, every schedule, on a simulated clock",
  "Tests only look at what has arrived in the end; how long a message waited is invisible to them and depends on real timers.",
  ["dialer.go", "connector.go"], [("ticker choice", "dialer.go Dial"), ("tick handling", "connector.go runQueue")], ["simulated time of Write calls"])
p("C09", "Received messages do not depend on how the stream is cut into reads",
  "However a peer's byte stream is cut into reads - any chunk sizes, several messages in one read, messages of any length (also beyond the read buffer), end of stream reported with or after the last bytes - Receive yields exactly the messages of that stream, each once, byte for byte and in order, for every transport. A complete message is delivered without waiting for bytes that follow it.",
  ["inputs", "schedules", "fault_sequences"], "all segmentations of all streams of well-formed frames over the three transports and all consumer speeds; datagrams likewise",
  "transport_test checks single calls on whole buffers; TestBurst sends 80-byte messages in whatever chunks the local kernel makes.",
  ["listener.go", "transport.go", "message-immutable.go", "listener-unixdgram.go"],
  [("read buffer management", "listener.go tokenize"), ("frame splitting", "transport.go PrefixStrip/SuffixStrip; message-immutable.go Parse")], ["results of Receive"])
p("C10", "Messages of simultaneous peers are never mixed, lost or delivered twice",
  "Each message Receive yields is byte for byte one message sent by one peer. Every peer's messages are yielded exactly once and in that peer's order, however connects, reads, disconnects and a slow consumer interleave and however many goroutines call Receive, and a peer that stalls does not hold up the others.",
  ["schedules", "histories"], "all interleavings of any number of connections with partial reads, any queue length, one or more consumers",
  "Every test has exactly one client connection.",
  ["listener.go"], [("one goroutine and one buffer per connection", "listener.go tokenize"), ("pipeline channel", "listener.go Receive")], ["results of Receive"])
p("C11", "A failing accept or connection is contained, reported and cleaned up",
  "When accepting or reading fails, the messages that had arrived completely are still delivered, the failure is delivered on the error channel to an application that reads it, the failed connection is closed and not read again, and the receiver goes on serving the other peers and accepting new ones; the process never crashes. A message cut off by the end of its connection is never delivered as a complete one, except that on the NUL-terminated transport a regular end of stream counts as the terminator.",
  ["schedules", "fault_sequences", "histories"], "every accept error, read error, reset and early close, at every byte position and in every order among several connections",
  "The tests exit on the first error from the channel; none makes accept or read fail.",
  ["listener.go"], [("accept loop", "listener.go runQueue"), ("read loop", "listener.go tokenize")], ["results of Receive", "error channel", "Close calls on connections"])
p("C12", "Hostile or corrupted input cannot crash, hang or derail the receiver",
  "Whatever bytes a peer sends, the receiver and the accessors of every message delivered without an error never crash, other peers are served normally, and after the peer disconnects its connection is closed. On each connection the results of Receive follow the frames of the stream one by one in order: a well-formed frame gives exactly that message, one whose priority, fields or structured data cannot be decoded an error (an empty frame may be skipped). After a frame header that cannot be decoded an error is delivered and nothing else from that stream connection (or datagram).",
  ["inputs", "fault_sequences", "schedules"], "all byte streams, in particular valid streams with flipped, dropped, duplicated or inserted bytes, cut into reads in every way",
  "Tests parse well-formed messages only, one at a time; the space of corrupted streams and segmentations is unbounded.",
  ["listener.go", "transport.go", "message-immutable.go", "sdata/sd-unknown.go", "sdata/sd-generic.go", "sdata/tokens.go", "sdata/timequality/tq.go"],
  [("frame splitting", "transport.go"), ("field indexing", "message-immutable.go Parse")], ["results of Receive and accessors of the messages"])
p("C13", "Ending a receiver stops it completely and never crashes",
  "After End, in whatever state it finds the receiver - waiting for a peer, reading, delivering to a full queue, no peer ever - the listener and every accepted connection get closed within a bounded time, Receive yields what arrived up to then at most - whole, each once and in order - and then reports the end, and no goroutine of the receiver remains. It never crashes the process, for stream and datagram listeners alike.",
  ["schedules", "histories"], "End at every instant of every schedule with any number of idle, active and stalled connections and consumers",
  "Tests call End as the last statement and never look at what happens after it.",
  ["listener.go", "listener-tcp.go", "listener-unix.go", "listener-unixdgram.go"], [("end channel", "listener.go End/runQueue"), ("close of pipeline", "listener.go runQueue")], ["results of Receive", "Close calls on listener and connections"])
p("C14", "A received message never changes afterwards",
  "A message returned by Receive keeps the same text, fields and structured data for as long as the application keeps it, whatever the receiver reads later on the same or other connections and whatever the application does with other messages.",
  ["schedules", "histories"], "all read segmentations and buffer turn-overs after delivery, for any number of kept messages and connections",
  "Tests compare each message at once and drop it; a shared buffer overwritten later is invisible to them.",
  ["listener.go", "message-immutable.go", "listener-unixdgram.go"], [("buffer hand-over", "listener.go tokenize"), ("datagram buffer", "listener-unixdgram.go fakeConn.Read")], ["accessors of kept messages"])
p("C15", "Channels emit exactly the enabled severities, whoever asks for them",
  "Whichever goroutines ask a Syslog (or one obtained with SubSyslog) for channels, and whenever, a channel for a severity at or above the configured threshold emits everything logged to it and a channel for a lower one emits nothing and reports IsDevNull. Each emitted message carries exactly that severity, the configured facility, application name, host and process id, and the names given with SubSyslog, AppName and Msgid (made valid for RFC 5424: cut to the longest allowed length, each byte that is not allowed shown as %).",
  ["schedules", "configurations", "histories"], "all concurrent first and later uses of Channel, SubSyslog, AppName and Msgid, all thresholds and facilities",
  "Tests ask for one channel from one goroutine.",
  ["syslog.go", "channel.go"], [("lazy channel table", "syslog.go Channel"), ("derived channels", "channel.go AppName/Msgid")], ["bytes written by the sender"])
p("C16", "Messages, channels and syslogs derived from a shared one stay independent",
  "Deriving a message (any setter, StructuredData included), a channel (AppName, Msgid) or a syslog (SubSyslog) from a shared one yields exactly the original with that change (header fields made valid as C15 says). It never alters the original or anything else derived from it, whichever goroutines derive, use and send them in whatever order.",
  ["schedules", "histories"], "all interleavings of derivations, marshalling and sends over a shared tree of values",
  "Tests build each value once and use it at once on one goroutine; aliasing shows only when two derivations of one value coexist.",
  ["message.go", "sdata/list.go", "channel.go", "syslog.go"], [("copy on derive", "message.go setters"), ("list append", "sdata/list.go Add")], ["marshalled form of the values"])
p("C17", "A message carries the time at which it was logged",
  "The timestamp received with a message logged through a channel is, to the microsecond, an instant between the start and the return of the logging call as read from the logging clock, in whatever time zone (of whole minutes). Queueing, flush delay, retries, outages, transmission and jumps of the clock after the call do not change it.",
  ["schedules", "fault_sequences", "histories"], "all delays between logging and receiving, all clock jumps and zones, all schedules",
  "Tests pin the clock to one constant, so any reading of it at any moment gives the same value.",
  ["channel.go", "message.go", "message-immutable.go"], [("Now at logging", "channel.go Log/Write"), ("timestamp format", "message.go Marshal5424"), ("timestamp parse", "message-immutable.go TimeStamp")], ["timestamp on the wire and from the received message"])
p("C18", "Year-less and relative stamps are dated right at any clock time",
  "A BSD-style stamp (no year) taken from a clock at most 30 days before it is applied to a message dates that message in the year in which the stamp was taken, also across a new year. A message set to the current time, to an epoch stamp, or to a delay since boot carries exactly that instant, whatever the clock did before.",
  ["histories", "schedules"], "every clock value and jump, every stamp age up to 30 days, across year ends and leap days",
  "Tests would run at one real date; the year inference depends on today's date.",
  ["message.go"], [("year inference", "message.go stampToTs"), ("epoch and delta", "message.go epochToTs/deltaBootToTs")], ["timestamp of the marshalled message"])
p("C19", "A TCP sender finds a reachable address and never hangs in name lookup",
  "A TCP sender connects to the first address of the named host, of the requested family, that accepts, trying them all before it reports failure; messages are delivered there. A name lookup that fails or never answers, or gives no address of that family, or an address that means nothing, is reported as an error within a bounded time and retried at later flushes, never crashing or hanging the sender.",
  ["fault_sequences", "configurations", "schedules"], "all address lists with any subset refusing, tcp/tcp4/tcp6, lookup failures, delays and stalls, changing from one attempt to the next",
  "The test dials a literal loopback address; resolver behaviour and multi-address hosts need a controllable network.",
  ["connector-tcp.go", "connector.go"], [("family filter and address loop", "connector-tcp.go Connect"), ("lookup timeout", "connector-tcp.go Connect")], ["connections arriving at the simulated hosts", "error channel"])
p("C20", "Creating a listener replaces only a stale socket, and always returns",
  "Creating a unix or unix datagram listener succeeds at a free path and at a path left behind by a dead listener, which it replaces. It returns an error, leaving the path and its owner untouched, when the path is a regular file, a directory, or the socket of a listener still running (as long as nobody else changes the path meanwhile). It always returns, also when system calls fail or another process races for the path. A TCP listener, likewise, is created at any address that is free, also by a name or for all addresses of a machine and again after an earlier one has ended, and is reached at that address only; at an address that is taken or means nothing there is an error, and whoever has the address keeps it and serves on.",
  ["fault_sequences", "histories", "schedules"], "all contents of the path, failures of bind, stat, unlink and connect, and concurrent creators or crashes between the calls",
  "Tests remove the socket file first, so the recovery path never runs.",
  ["listener-unix.go", "listener-unixdgram.go", "listener-tcp.go", "listener-guess.go"], [("stale socket recovery", "listener-unix.go UnixListener; listener-unixdgram.go UnixgramListener"), ("creation at an address", "listener-tcp.go TCPListener")], ["simulated file system and socket table", "return values"])
p("C21", "End to end, what is logged is what is received, across server restarts",
  "Between a client made with Dial and this library's own receiver, over tcp, unix stream or unix datagram and any transport, everything logged is received exactly once, in order and field for field equal while connection and server stay up. When the server crashes or is restarted at the same address, the client reconnects by itself: within a bounded number of flush delays newly logged messages arrive again, and what arrives is always whole, in order and without duplicates.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "all schedules, latencies, segmentations, buffer sizes and crash/restart points of the server, all networks and transports",
  "Tests run one healthy session over the loopback; a server crash in mid-stream never occurs.",
  ["connector.go", "connector-tcp.go", "connector-local.go", "connector-local_unix.go", "dialer.go", "listener.go", "listener-tcp.go", "listener-unix.go", "listener-unixdgram.go", "message.go", "message-immutable.go", "transport.go", "channel.go"],
  [("whole client path", "dialer.go, connector*.go"), ("whole server path", "listener*.go, message-immutable.go")], ["results of Receive against what was logged"])
p("C22", "Structured-data definitions can be registered while messages are decoded",
  "Registering structured-data definitions while other goroutines decode or register never crashes and never disturbs their results. Once Register has returned, every later decoding of an element that a registered definition recognises yields that definition's value, and the first definition registered under a name is kept; an element no definition recognises is still decoded generically and re-encodes to the same text.",
  ["schedules", "histories"], "all interleavings of Register, RegisterGroup and decoding on any number of goroutines, any iteration order of the definitions",
  "The only registration in the tests happens in an init function before anything else runs.",
  ["sdata/list.go", "sdata/sd-unknown.go", "message-immutable.go"], [("registry lock", "sdata/list.go")], ["structured data of parsed messages"])
p("C26", "A local sender finds the system's log socket, and finds it again",
  "A sender dialled with network local connects to a server listening at the given path, or without a path at one of /var/run/syslog, /var/run/log, /dev/log, be it a stream or a datagram socket, whatever stale sockets, files or directories lie at the other paths. While there is none it reports errors and keeps the messages; within a few flush delays after a server listens at any of these paths (again), as either type, what is logged is delivered there whole, in order and once.",
  ["fault_sequences", "histories", "configurations"], "all placements of servers, crashes and restarts of them at the same or another path or type, stale sockets and other files at the paths, all schedules",
  "No test dials local: the result depends on the system's own sockets, and none restarts a server.",
  ["connector-local.go", "connector-local_unix.go", "dialer.go", "connector.go"], [("guessing the socket", "connector-local_unix.go osGuessConnnector"), ("reconnect", "connector.go flushQueue")], ["messages received by the servers", "error channel"])
p("C27", "Senders and receivers of one process do not affect one another",
  "However many senders, receivers and syslogs one process has, over whatever transports, each behaves as if it were alone: what is logged through one is written to its own destination only, once, in order and within its own flush delay, and its failures are told on its own error channel only; what peers send to a receiver is yielded by that receiver only. Failures, stalls, refused connections, hostile input, abandoned channels and the end of any of them never affect the others.",
  ["schedules", "histories", "fault_sequences"], "all combinations of healthy, failing, stalled, refused, ended, attacked and abandoned senders and receivers in one process, all schedules, including flushes at the same instant",
  "Every test has one sender and at most one receiver; state shared by two of them would never show.",
  ["connector.go", "listener.go", "transport.go", "message.go", "channel.go", "syslog.go"], [("state of a sender", "connector.go Sender"), ("state of a receiver", "listener.go Receiver"), ("package variables", "message.go, priority.go, transport.go")], ["bytes written per destination", "results of Receive", "error channels"])
p("C23", "Every single message survives encoding and decoding",
  "For every message built from valid field values, structured data and text, decoding its encoded form gives back the same fields, structured data and text.",
  ["inputs"], "all messages", "The tests sample ten messages.",
  ["message.go", "message-immutable.go"], [("Marshal5424/Parse", "message.go, message-immutable.go")], ["return values"])
p("C24", "Structured data is encoded with every reserved character escaped",
  "For every Go value accepted as structured data, the encoded element is valid RFC 5424: parameter values have quote, backslash and closing bracket escaped, and map keys appear in a deterministic order.",
  ["inputs"], "all values", "The tests sample three values.",
  ["sdata/structured-data-encoder.go"], [("PrefixedWrite", "sdata/structured-data-encoder.go")], ["return values"])
p("C25", "Priority text and number forms convert without loss",
  "Every facility.severity text and every priority number in range converts to the other form and back to itself.",
  ["inputs"], "all strings and numbers", "The tests sample five strings, and 256 numbers in one direction.",
  ["priority.go"], [("Set/String/Marshal5424/Unmarshal5424", "priority.go")], ["return values"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
