#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

H1 = "src/proto/h1/"
p("C01", "HTTP/1 server decodes the request stream independently of fragmentation",
  """An HTTP/1 server connection hands its service exactly the requests (method, target, version, header
  fields, body bytes, trailers) that the received byte stream denotes, in order, no matter how the transport
  splits, delays or interleaves those bytes with writes. No byte of one message is lost, duplicated, or shows
  up in another message, and pipelined requests are not merged or skipped.""",
  ["inputs", "schedules"],
  """every request stream of the scenario corpus (1-3 pipelined requests, all body framings), every position at
  which the stream can be cut (short read, or read that would block first), every combination of up to two such
  cuts and write stalls""",
  """The unit tests feed whole messages or a handful of hand-picked splits; which byte offset a read ends at, and
  whether that read blocks, is a quantifier over all schedules of the transport.""",
  [H1+"role.rs", H1+"io.rs", H1+"decode.rs", H1+"conn.rs", H1+"dispatch.rs"],
  [("incremental head parse with a fast completeness scan", H1+"role.rs is_complete_fast/parse_headers"),
   ("buffered IO and partial-length memo", H1+"io.rs Buffered::parse"),
   ("body decoder state machine", H1+"decode.rs Decoder")],
  [("read buffer", "bytes received and not yet consumed", H1+"io.rs")],
  ["the Service call: request parts, body frames, trailers"])

p("C02", "Ambiguous or malformed HTTP/1 request framing is refused, never guessed",
  """A request whose body length is not determined unambiguously (differing or malformed Content-Length values, a
  Transfer-Encoding whose final coding is not chunked, any Transfer-Encoding in an HTTP/1.0 request) never reaches
  the service, and neither does any byte after it; the peer gets a 400 and the connection is closed. When both
  Transfer-Encoding: chunked and Content-Length are present, chunked framing is used, the service does not see the
  Content-Length, and the connection is not reused; an unparsable head is likewise answered with the matching 4xx
  and closed.""",
  ["inputs", "schedules"],
  """every sequence of up to three framing header lines drawn from a 20-value alphabet of Content-Length and
  Transfer-Encoding lines, in every order, for HTTP/1.0 and HTTP/1.1, each followed by bytes that would be read as
  a second (smuggled) request under a different interpretation; every single mutation of a valid request head""",
  """Request smuggling lives in combinations of framing headers the tests do not enumerate; each combination needs
  an independent RFC 9112 oracle.""",
  [H1+"role.rs", "src/headers.rs", H1+"conn.rs", "src/body/length.rs"],
  [("framing decision while collecting headers", H1+"role.rs Server::parse"),
   ("automatic error response", H1+"role.rs Server::on_error, "+H1+"conn.rs on_parse_error")],
  observe=["Service calls", "bytes written", "connection result"])

p("C03", "Chunked bodies: exactly the grammar is accepted, decoded exactly, or an error",
  """For every byte sequence following the head of a chunked message, the receiver delivers exactly the data the
  chunked grammar denotes and ends the body cleanly only where the terminating chunk and trailer section end; any
  other sequence yields an error and the body is never reported as complete. This is independent of how the bytes
  are split, holds for chunk sizes up to the 64-bit limit (overflow is an error), and the octets after the body
  belong to the next message.""",
  ["inputs", "schedules"],
  """every byte string up to the length bound over an alphabet covering each character class of the chunked grammar,
  plus every single-byte mutation/deletion/insertion of a set of valid chunked bodies, each under every
  single-cut fragmentation, on both the server and client side""",
  """The decoder has one state per grammar position; the tests visit a few dozen strings, the quantifier is over all
  strings and splits.""",
  [H1+"decode.rs", H1+"conn.rs"],
  [("chunked state machine", H1+"decode.rs ChunkedState")],
  observe=["body frames and errors seen by the consumer"])

p("C04", "HTTP/1 client decides response body length by the RFC rules",
  """A client connection returns, for each request, exactly the final response the byte stream denotes: interim 1xx
  responses are skipped (reported to the informational callback once each, in order) and never become the result;
  responses to HEAD, and 204/304, have no body; otherwise chunked, Content-Length, or read-until-close applies in
  that order, and contradictory or malformed lengths are errors. The outcome does not depend on fragmentation.""",
  ["inputs", "schedules"],
  """every combination of request method, interim responses, status, HTTP version and up to two framing headers of
  the alphabet, each followed by surplus bytes and end of stream, under every single cut of the byte stream""",
  """Response framing is a decision table over method x status x version x headers; tests sample its cells and
  almost never vary the fragmentation of a cell.""",
  [H1+"role.rs", H1+"conn.rs", "src/headers.rs", "src/ext/informational.rs"],
  [("response framing decision", H1+"role.rs Client::decoder"),
   ("1xx skipping loop", H1+"role.rs Client::parse")],
  observe=["send_request result, body frames, informational callback"])

p("C05", "Written HTTP/1 messages are self-delimiting and carry exactly the body given",
  """Every message hyper writes, request or response, parses back (by the RFC rules for that method, status and
  version) as exactly one message with the start line, header fields and body bytes the user supplied, followed by
  the next message or end of connection. At most one framing mechanism is on the wire, it agrees with the bytes
  that follow, bodies are suppressed where the protocol forbids them, a response carries exactly one Date field
  (none when disabled), and never more bytes than a declared Content-Length are sent.""",
  ["inputs", "schedules", "configurations"],
  """every combination of method, version, status, user-set framing headers, body shape (length hints, frame splits
  including empty and pending frames, trailers) and writer configuration of the corpus, under every placement of up
  to two short, blocked or vectored-partial writes""",
  """The encoder's branches depend jointly on user headers, body hint, method, status, version and write strategy;
  the tests check some fixed tuples with a cooperative transport.""",
  [H1+"role.rs", H1+"encode.rs", H1+"io.rs", H1+"conn.rs", H1+"dispatch.rs"],
  [("head serialisation and encoder choice", H1+"role.rs Server::encode, Client::encode/set_length"),
   ("body framing", H1+"encode.rs Encoder"), ("write buffer strategies", H1+"io.rs WriteBuf")],
  observe=["bytes accepted by the transport"])

p("C06", "A truncated or aborted HTTP/1 body is never presented as complete",
  """If an incoming message stops (end of stream, transport error, or the connection being dropped) before its framing
  says it is complete, the consumer of its body gets an error and never a clean end. If an outgoing body fails or
  ends before the length it promised, the bytes on the wire never form a complete message: no terminating chunk, no
  padding, and nothing further is sent on that connection.""",
  ["inputs", "fault_sequences", "schedules"],
  """for every message of the corpus, every byte offset at which the incoming stream can stop (clean EOF or error) or
  the connection be dropped; for every outgoing body, failure, early end or abort after every frame, under every
  placement of a blocked or short write""",
  """Truncation is a crash-point quantifier: every prefix of every message; tests stop at one or two offsets.""",
  [H1+"decode.rs", H1+"conn.rs", H1+"encode.rs", H1+"dispatch.rs", "src/body/incoming.rs"],
  [("EOF handling of each decoder kind", H1+"decode.rs"), ("end_body/error paths", H1+"conn.rs"),
   ("abort on connection drop", "src/body/incoming.rs Sender")],
  observe=["body consumer", "bytes written", "connection result"])

p("C07", "HTTP/1 connections persist exactly when both sides agreed, responses in order",
  """A server answers requests strictly in order and processes another request on a connection only if neither side
  asked to close (HTTP/1.1 without close, HTTP/1.0 only with keep-alive), the previous request was completely
  consumed and the previous response was self-delimiting; otherwise it closes after the response. What the
  response says about persistence agrees with what hyper then does, and the client reuses a connection under the
  mirror-image rule. Whatever went before on a persistent connection, each exchange comes out as on a fresh one.""",
  ["inputs", "histories", "schedules"],
  """every combination of request version, up to two Connection header lines per side (each of an alphabet of
  token lists), body consumption behaviour, response framing and keep-alive configuration, over histories of two
  pipelined or sequential exchanges; histories of up to three (thorough: four) exchanges of nine request and six
  response kinds (client: seven and eight), each compared with the same exchange on a fresh connection""",
  """Persistence is the conjunction of a dozen facts from both messages; the tests cover isolated ones with single
  header lines.""",
  [H1+"conn.rs", H1+"role.rs", H1+"dispatch.rs", "src/headers.rs"],
  [("keep-alive bookkeeping", H1+"conn.rs State/KA, try_keep_alive, enforce_version/fix_keep_alive")],
  observe=["Service calls, bytes written, connection end"])

p("C08", "HTTP/1 connections always make progress and never spin",
  """Whenever the transport, the user's body, or the user's service becomes ready and says so, an HTTP/1 connection that
  can make progress is woken and does; it never waits for an event that has already happened, and every exchange
  whose parts all eventually become ready runs to completion with everything flushed. It also never busy-loops: a
  poll returns after work bounded by the input available.""",
  ["schedules"],
  """for every exchange of the corpus (server and client, all body directions), every schedule with up to two
  deviations: any read, write, flush, shutdown, body or service poll blocking first, wake-ups delivered before,
  between or after task polls, in every order of runnable tasks""",
  """A lost wake-up or missed flush needs one specific poll to return Pending at one specific moment; tests use
  runtimes where almost everything is ready.""",
  [H1+"dispatch.rs", H1+"conn.rs", H1+"io.rs", "src/body/incoming.rs", "src/client/dispatch.rs"],
  [("poll loop and yields", H1+"dispatch.rs poll_loop"), ("read-ahead notification", H1+"conn.rs maybe_notify")],
  observe=["state at quiescence of a closed system"])

p("C09", "Every client request has exactly one outcome, and it is its own",
  """Each request given to an HTTP/1 client connection resolves exactly once: with the response to that very request, or
  an error; it never hangs once the connection is gone and never yields another request's response. A request that
  was never written is reported as such (handed back by the recovering API), a request cancelled before being
  written is never written, nothing is written after the connection closed, and bytes arriving with no request
  outstanding are an error rather than a response to a later request.""",
  ["histories", "schedules", "fault_sequences"],
  """every interleaving (within the deviation bound) of two requests, cancellation of either, dropping the sender, the
  peer's responses, early/unsolicited bytes, end of stream and transport errors at every step""",
  """The outcome depends on the race between caller, connection task and peer; tests pin one order each.""",
  ["src/client/dispatch.rs", "src/client/conn/http1.rs", H1+"dispatch.rs", H1+"conn.rs"],
  [("callback guard", "src/client/dispatch.rs Callback/Envelope"),
   ("idle read detection", H1+"conn.rs require_empty_read/mid_message_detect_eof"),
   ("client dispatch", H1+"dispatch.rs Client")],
  observe=["futures returned to callers; bytes written"])

p("C10", "HTTP/1 upgrades hand over every byte, once, in order",
  """After a successful upgrade (101, or 2xx to CONNECT) the upgraded stream yields exactly the bytes the peer sent
  after the message head, in order, whether they arrived with the head or later, and bytes written to it follow the
  head on the wire; hyper itself writes nothing more. Every pending upgrade future resolves: with the stream when the
  exchange upgraded, with an error otherwise; and taking the connection apart yields the same unread bytes.""",
  ["inputs", "schedules"],
  """server and client, upgrade and CONNECT, accepted and refused, with surplus bytes of every tested length split from
  the head at every offset, upgrade future polled before/after the connection, dropped at any time""",
  """Which bytes are already buffered when the upgrade happens depends on the read schedule.""",
  ["src/upgrade.rs", "src/common/io/rewind.rs", H1+"conn.rs", H1+"dispatch.rs", H1+"role.rs"],
  [("rewind buffer", "src/common/io/rewind.rs"), ("pending upgrade", "src/upgrade.rs")],
  observe=["upgraded stream reads; transport writes; OnUpgrade result"])

p("C11", "HTTP/1 graceful shutdown finishes the exchange in flight and takes no more",
  """When graceful shutdown is requested at any moment, an exchange whose request has begun to be processed still completes normally, its
  response announces the close where the head was not yet written, no later request on that connection reaches the
  service, and the connection then finishes; an idle connection finishes promptly.""",
  ["schedules", "histories"],
  """graceful shutdown requested at every scheduling step of every scenario of up to two pipelined requests, with up to
  one further deviation""",
  """The request for shutdown can fall between any two steps; tests trigger it at one.""",
  ["src/server/conn/http1.rs", H1+"dispatch.rs", H1+"conn.rs"],
  [("disable_keep_alive", H1+"conn.rs, "+H1+"dispatch.rs")], observe=["Service calls, wire bytes, connection result"])

p("C12", "Header read timeout fires exactly for heads that are late",
  """With a header read timeout and timer configured, a connection whose next request head is not completely received
  within the timeout (counted from when hyper starts waiting for it) is ended with a timeout error and the service is
  not called; a connection whose heads arrive in time is never ended by it, however slow bodies, services or writes
  are.""",
  ["schedules", "inputs"],
  """every arrival time pattern of head fragments, body fragments, service and write delays over a discrete virtual
  clock up to the horizon, for one to two requests per connection""",
  """Time is a schedule: deadlines race with every other event; tests use real sleeps with one pattern each.""",
  [H1+"conn.rs", "src/common/time.rs", "src/server/conn/http1.rs"],
  [("header read timer", H1+"conn.rs read_head/poll_read_head")], observe=["connection result, Service calls, virtual clock"])

p("C13", "Exactly one 100 Continue, sent only when the body is wanted in time",
  """For an HTTP/1.1 request with Expect: 100-continue the server writes exactly one 100 Continue before any other
  response byte if the body is asked for before the response has started, and none otherwise; other requests never get one.
  The final response always follows intact, and body bytes or the next request are interpreted correctly either way.""",
  ["schedules", "inputs"],
  """every combination of expectation header, version, body framing, when the service polls the body relative to
  responding, whether the client sends the body early, with up to two transport deviations""",
  """Depends on the relative order of the body poll, response head and read buffer state.""",
  [H1+"conn.rs", H1+"decode.rs", H1+"role.rs", H1+"dispatch.rs"],
  [("Reading::Continue state", H1+"conn.rs")], observe=["wire bytes, Service body"])

p("C14", "HTTP/1 buffering is bounded and back-pressured",
  """For any peer, an HTTP/1 connection never holds more unparsed head bytes than the configured buffer limit (larger
  heads, more headers than allowed, or over-long targets get 431/414 and a close), and never reads ahead of a
  body consumer that has stopped by more than a bounded amount. If the transport accepts nothing, the outgoing body
  is not pulled beyond a bounded amount.""",
  ["inputs", "configurations", "schedules"],
  """every limit configuration of the corpus x head sizes and header counts straddling the limit by one x
  fragmentations; streaming bodies in both directions against a consumer or transport that stalls at each step""",
  """The bound must hold on every path that buffers; tests check a few sizes.""",
  [H1+"io.rs", H1+"conn.rs", H1+"dispatch.rs", H1+"role.rs", H1+"decode.rs", "src/body/incoming.rs"],
  [("max_buf_size and read strategy", H1+"io.rs"), ("body channel of one", "src/body/incoming.rs")],
  observe=["bytes pulled from transport/body versus delivered"])

p("C15", "Dropping any piece at any time leaves everyone else with a definite answer",
  """If the HTTP/1 connection, a request sender, a response future, an incoming body or an upgrade future is dropped at
  any moment, then nothing panics, every remaining future and body resolves (with an error where its data can no
  longer come), and the connection either continues correctly or closes; an unread or half-read body never
  corrupts the following message. A peer that ends its sending side while its request is being served ends the
  connection with an error and the service's work is dropped, unless half-close is enabled: then the answer is completed.""",
  ["schedules", "fault_sequences"],
  """every component dropped at every scheduling step of every scenario of the corpus, server and client""",
  """Drop points are crash points: every step x every component.""",
  [H1+"dispatch.rs", H1+"conn.rs", "src/body/incoming.rs", "src/client/dispatch.rs", "src/upgrade.rs"],
  [("poll_drain_or_close_read", H1+"conn.rs"), ("sender drop handling", "src/body/incoming.rs")],
  observe=["all futures at quiescence; wire bytes"])

p("C16", "Incoming bodies report truthful size hints and end-of-stream",
  """At every moment of reading an incoming body (HTTP/1 or HTTP/2), the lower bound of its size hint never exceeds and
  an upper bound is never below the data still to be delivered if the body completes, and once it says it is at
  the end no further data or trailers come out. After its end it keeps returning end; after an error it never yields
  data or trailers again and does not hang.""",
  ["inputs", "schedules"],
  """every framing of the corpus, every fragmentation within the bound, hint and end-of-stream sampled before and after
  every frame poll""",
  """A per-step invariant over all read schedules.""",
  ["src/body/incoming.rs", "src/body/length.rs"],
  [("length bookkeeping", "src/body/length.rs sub_if, src/body/incoming.rs poll_frame")], observe=["Body trait methods"])

p("C17", "Header fields cross hyper unchanged",
  """Every header field the peer sends is delivered to the user with its exact value, multiplicity and per-name order, and every field the
  user sets (other than those hyper is documented to manage) is put on the wire likewise; with case preservation on,
  original name spelling survives a proxying round trip, and title-casing changes only name case. A custom reason phrase
  is preserved.""",
  ["inputs", "configurations"],
  """every sequence of up to four header lines from an alphabet of names (repeated names in different case) and values
  (empty, padded, obs-text, long), for every header-case configuration, both roles""",
  """Per-name iteration state in the writers makes errors depend on combinations of repeated names.""",
  [H1+"role.rs", "src/ext/mod.rs", "src/ext/h1_reason_phrase.rs"],
  [("case map", "src/ext/mod.rs HeaderCaseMap"), ("writers", H1+"role.rs OrigCaseWriter, write_headers_*")],
  observe=["received HeaderMap; wire bytes"])

p("C18", "HTTP/2 exchanges are delivered faithfully under every schedule",
  """Between an HTTP/2 client and server connection every request and response arrives exactly once at the right partner with
  its head, body bytes in order and trailers intact, for any number of concurrent streams and any window sizes, and
  every exchange whose parts become ready completes without anyone having to be polled again from outside.""",
  ["schedules", "configurations", "inputs"],
  """two concurrent exchanges over an in-memory pipe, every body shape of the corpus, window sizes from tiny to default,
  every schedule with up to two deviations in task order, blocked or short transport operations, body readiness""",
  """Completion depends on wake-ups between the connection task, per-stream tasks and flow control.""",
  ["src/proto/h2/mod.rs", "src/proto/h2/server.rs", "src/proto/h2/client.rs", "src/body/incoming.rs"],
  [("body pump", "src/proto/h2/mod.rs PipeToSendStream"), ("client task/conn task split", "src/proto/h2/client.rs")],
  observe=["client results, service calls"])

p("C19", "HTTP/2 stream failures and cancellations stay on their stream and are visible",
  """Cancelling a request, dropping a body, a failing body or service, or a reset by the peer on one HTTP/2 stream
  never disturbs another stream, and is made visible to the other side as a stream reset (never as a clean end of
  the body). A stream whose response completed is not turned into a failure, and cancelled work is not left
  running or holding the connection open.""",
  ["schedules", "fault_sequences"],
  """two concurrent exchanges, one of them cancelled / dropped / failed at every scheduling step, in both directions,
  with one further deviation""",
  """The fault can fall at any step of the other stream's life.""",
  ["src/proto/h2/mod.rs", "src/proto/h2/server.rs", "src/proto/h2/client.rs", "src/body/incoming.rs"],
  [("reset on error", "src/proto/h2/mod.rs, server.rs H2Stream"), ("cancel channel", "src/proto/h2/client.rs PipeMap")],
  observe=["both sides' futures and bodies; raw frames"])

p("C20", "HTTP/2 graceful shutdown drains accepted streams and then ends",
  """After graceful shutdown of an HTTP/2 server connection, every stream already accepted still completes, the peer is
  told to stop, streams opened afterwards are not served, and the connection future then resolves; dropping the last
  request sender of a client does the same for its streams in flight. Requests the peer is told were not processed fail with an
  error rather than hang.""",
  ["schedules"],
  """graceful shutdown (or last-sender drop) at every scheduling step of scenarios with up to two streams, with one
  further deviation""",
  """Shutdown races the handshake, accepted streams and in-flight opens.""",
  ["src/proto/h2/server.rs", "src/proto/h2/client.rs", "src/server/conn/http2.rs"],
  [("State::Handshaking/Serving/Closed", "src/proto/h2/server.rs")], observe=["connection futures, service calls, results"])

p("C21", "HTTP/2 keep-alive kills exactly the connections that stopped answering",
  """With keep-alive pings configured, a connection whose peer answers each ping within the timeout is never
  ended by the keep-alive, and one whose peer stays silent (or takes no more bytes) is ended with a timeout error no
  later than interval plus timeout after the last sign of life, with all its pending requests and bodies failing (never
  looking complete) and everything it held dropped; without configuration no keep-alive ping is sent, and a client
  does not ping a connection without open streams unless asked to.""",
  ["schedules", "configurations"],
  """every pattern of peer liveness (data, ping acks, silence) over a discrete virtual clock up to the horizon, for each
  interval/timeout/while-idle configuration of the corpus, both roles""",
  """Interleavings of timer expiry with frames; tests use one real-time pattern.""",
  ["src/proto/h2/ping.rs", "src/proto/h2/client.rs", "src/proto/h2/server.rs"],
  [("ping state machine", "src/proto/h2/ping.rs KeepAlive")], observe=["frames on the wire, connection result, virtual time"])

p("C22", "HTTP/2 messages carry no connection-specific fields and correct lengths",
  """hyper never sends connection-specific header fields over HTTP/2 (Connection, every field any Connection line
  names, Keep-Alive, Proxy-Connection, Transfer-Encoding, Upgrade, TE other than trailers), leaves all other fields
  untouched, and a content-length it adds equals the body's exact length and is never added where the user set one
  or where it would be wrong; an answer to HEAD, a 204 and a 304 are sent without a body.""",
  ["inputs", "configurations"],
  """every sequence of up to four header lines from an alphabet including multiple and multi-token Connection lines, both
  roles, every method/status/body-length class""",
  """Combinations of Connection lines and named fields.""",
  ["src/proto/h2/mod.rs", "src/proto/h2/client.rs", "src/proto/h2/server.rs", "src/headers.rs"],
  [("strip_connection_headers", "src/proto/h2/mod.rs")], observe=["fields received by a raw peer"])

p("C23", "HTTP/2 CONNECT tunnels are reliable byte pipes",
  """After an accepted (extended or plain) CONNECT over HTTP/2, bytes written on either end arrive at the other exactly
  once and in order for any chunking and window size, shutdown of one direction is seen as end-of-stream (after the
  last byte, even if the writer is dropped right after it) and leaves the other usable, a reset other than NO_ERROR or
  CANCEL (which hyper deliberately reads as the end) or the loss of the connection is seen as an error, neither end
  blocks forever while the other is making room, and what is accepted beyond the window is bounded; an end dropped
  while the other still sends ends or resets the tunnel, like closing a socket; a CONNECT answered with any 2xx opens
  the tunnel and any other answer is delivered with its body and resolves the upgrade with an error; a failed tunnel or
  refused CONNECT does not disturb other streams.""",
  ["schedules", "inputs"],
  """every script of up to four write/read/flush/shutdown/drop operations per end, tiny and default windows, every
  schedule with up to two deviations""",
  """Backpressure and close notification are races between the user half, the pump task and the connection.""",
  ["src/proto/h2/upgrade.rs", "src/proto/h2/server.rs", "src/proto/h2/client.rs"],
  [("pump task", "src/proto/h2/upgrade.rs")], observe=["Upgraded IO on both ends"])

p("C24", "HTTP/2 flow control is honoured and bounded by consumption",
  """A receiver that does not read its body is never sent (and never buffers) more than its advertised stream and
  connection windows, reading frees exactly that capacity so the sender can always finish, and an abandoned body
  returns its share of the connection window to the other streams. The sender never pulls more from the user's
  body than one frame beyond what the window admits.""",
  ["schedules", "configurations"],
  """bodies larger than the window by every tested amount, consumer reading 0..n frames then stopping, resuming or
  dropping at every step, windows of several sizes, adaptive or not""",
  """Leaks of capacity only show after particular read/drop orders.""",
  ["src/proto/h2/mod.rs", "src/body/incoming.rs", "src/proto/h2/ping.rs"],
  [("release_capacity on read", "src/body/incoming.rs"), ("reserve/poll capacity", "src/proto/h2/mod.rs")],
  observe=["bytes sent per window; completion"])

p("C25", "Cross-thread hand-offs never lose a wake-up, a message or an end",
  """When the parts of a connection run on different threads (the connection's task, the caller sending requests, the
  threads reading and producing bodies, a handler, both ends of an upgraded tunnel, spawned helper tasks), every
  exchange still gives the result it gives on one thread: body data and trailers arrive whole and in order, a cut body
  ends in an error, a request is answered, or fails, or is given back when it was not sent, everything accepted by a
  tunnel's write arrives before its end, and whoever waits for a state change or a closing by another part is woken.
  This holds under every interleaving of the individual operations on the shared state, and whichever part is dropped
  or closed at whatever moment; in the end every task that has nothing left to do finishes.""",
  ["schedules"],
  """every schedule with up to the reported number of deviations (preemptions or changed turns) of the threads of an
  HTTP/1 client, HTTP/1 server or HTTP/2 client and server exchange, with scheduling points before every lock, atomic
  and channel operation""",
  """Needs particular instruction-level interleavings that no ordinary test can force.""",
  ["src/common/watch.rs", "src/body/incoming.rs", "src/client/dispatch.rs", "src/upgrade.rs", "src/proto/h2/upgrade.rs",
   "src/proto/h2/client.rs", "src/proto/h2/ping.rs"],
  [("store-then-wake / register-then-load", "src/common/watch.rs"), ("close notify", "src/proto/h2/upgrade.rs"),
   ("want / give and callbacks", "src/client/dispatch.rs"), ("body channel", "src/body/incoming.rs")],
  observe=["results of the public API on every thread; every thread ends"],
  hook="none: a generated copy of the working tree is built, with the paths of the synchronization primitives redirected")

p("C26", "The read-buffer cursor API never exposes or loses bytes",
  """Through any sequence of safe operations on the public read buffer and cursor (create initialised or uninitialised, put, initialise,
  fill), the filled part is exactly the bytes put so far in order, already written bytes are never overwritten or
  reset, remaining capacity is consistent, and operations that would overflow panic instead of writing.""",
  ["histories"],
  """every operation sequence up to the depth bound over a buffer of up to four bytes""",
  """A state-machine contract over all call sequences.""",
  ["src/rt/io.rs"], [("filled/init cursors", "src/rt/io.rs")], observe=["filled(), remaining()"])

p("C27", "The C API runs the same exchanges correctly and frees what it owns",
  """Driving an exchange through the C API (HTTP/1, or HTTP/2 for the parts that do not concern header case) with any order of executor polls, wakes and readiness, every task
  pushed is returned exactly once with the right type and value, the response (status, reason, headers with original
  case and order, body bytes) equals what the peer sent, request headers go out in the order their names were first inserted and in their original case, body
  callbacks see every byte once, errors come back as error tasks, and memory is neither leaked nor freed twice.""",
  ["schedules", "inputs"],
  """every schedule with up to four deviations of a C client exchange (header sets with repeated names, request body
  callback pending/ready/error, foreach/data consumption, informational callback)""",
  """No test in the repository drives the C executor at all beyond header iteration.""",
  ["src/ffi/task.rs", "src/ffi/client.rs", "src/ffi/body.rs", "src/ffi/io.rs", "src/ffi/http_types.rs"],
  [("executor", "src/ffi/task.rs"), ("header order map", "src/ext/mod.rs OriginalHeaderOrder")],
  observe=["C API results; allocation counts"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
