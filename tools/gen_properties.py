#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


CLOCK = "cfg(p2p_verif): virtual clock in place of the timer driver and Instant"
RT = "cfg(p2p_verif): runtime module backed by a controlled scheduler, virtual clock and in-memory network"

# ---------------------------------------------------------------- multiplexer
p("Y01", "Multiplexed streams deliver exactly the bytes written, in order, unmixed",
  "Over one multiplexed connection, the bytes read from a stream are always a prefix of the bytes the other end wrote to that same stream, and when the writer closes or drops the stream while the connection stays up, the reader obtains every byte before it sees the end. No byte is lost, duplicated, reordered or moved to another stream, in either direction.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of the two sessions, stream readers and writers, every fragmentation of the transport, every write-size and read-size pattern and window size within the bounds",
  "The unit tests run one tokio schedule over a loopback socket that delivers whole frames; short reads, short writes, tiny windows and task orders are never varied.",
  ["yamux/src/session.rs", "yamux/src/stream.rs", "yamux/src/frame.rs"],
  [("frame distribution with per-stream blocking set", "yamux/src/session.rs distribute_to_substream"),
   ("single-frame read buffer", "yamux/src/stream.rs handle_data/poll_read"),
   ("frame codec with saved header", "yamux/src/frame.rs FrameCodec::decode")],
  ["StreamHandle AsyncRead/AsyncWrite"], CLOCK)

p("Y02", "Flow control: the window is never overrun and never wedges the sender",
  "A sender never has more unacknowledged payload in flight on a stream than the receive window its peer has granted, and a receiver grants credit only for bytes its application has read. As long as the receiving application keeps reading (and the sending side keeps its read half polled), every blocked writer is eventually resumed and all data gets through, for every window size.",
  ["schedules", "inputs", "configurations"],
  "every schedule, transport fragmentation, write/read size pattern and window size within the bounds; granted credit is recomputed from the frames on the wire",
  "Tests use the 256 KiB default window with data that rarely exhausts it, so credit accounting at the boundary and the writer wake-up path are hardly exercised.",
  ["yamux/src/stream.rs", "yamux/src/session.rs"],
  [("send window accounting", "yamux/src/stream.rs poll_write/handle_window_update"),
   ("receive window replenishment", "yamux/src/stream.rs send_window_update"),
   ("writer waker", "yamux/src/stream.rs writeable_wake")],
  ["frames on the wire", "StreamHandle AsyncRead/AsyncWrite"], CLOCK)

p("Y03", "A stalled stream never blocks the other streams of its connection",
  "If the application stops reading one stream while its peer keeps sending on it within the window, all other streams of the connection still deliver their data, new streams can still be opened, and pings are still answered. When the stalled stream is read again it delivers everything, in order.",
  ["schedules", "inputs"],
  "every schedule and every interleaving of frames for the stalled and the live streams within the bounds, including more frames than the per-stream queue holds",
  "No test leaves a stream unread while others progress past the per-stream frame queue.",
  ["yamux/src/session.rs"],
  [("per-stream pending frames", "yamux/src/session.rs distribute_to_substream/read_pending_frames")],
  ["StreamHandle AsyncRead/AsyncWrite"], CLOCK)

p("Y04", "Stream open/close: unique ids, close seen by the peer, resources released",
  "Every successfully opened stream surfaces exactly once at the peer, with an id no live stream shares and with the parity of its opener. After a side closes, resets or drops a stream the peer's reads end and its writes fail instead of hanging, operations on an already closed stream fail, and once both ends are done neither session counts the stream against its limits any more.",
  ["schedules", "histories"],
  "every sequence of open, write, read, close and drop operations on both ends up to the depth bound and every schedule within the deviation bound",
  "Tests follow a few scripted open/close orders; simultaneous close, drop before accept and close with unread data are not covered.",
  ["yamux/src/session.rs", "yamux/src/stream.rs"],
  [("stream state machine", "yamux/src/stream.rs close/process_flags/Drop"),
   ("id allocation", "yamux/src/session.rs create_stream"),
   ("stream removal", "yamux/src/session.rs handle_event(Closed)")],
  ["Session stream of StreamHandle", "StreamHandle AsyncRead/AsyncWrite"], CLOCK)

p("Y05", "Ending a multiplexed session always terminates it and every waiter",
  "When either side closes the session, the transport ends or fails, or the peer never answers the close, the session finishes within the configured close timeout. Every read, blocked write, pending open and pending close on it then completes; nothing hangs, no new stream can be opened afterwards, and streams the peer opens after this side asked to close are refused.",
  ["schedules", "fault_sequences", "crash_points"],
  "every point of the exchange at which either side closes or the transport ends or errors, every schedule within the bound, peers that answer and peers that never answer",
  "Tests close at one quiet moment; closing at each step of an ongoing exchange and with blocked readers, writers and openers is not tried.",
  ["yamux/src/session.rs", "yamux/src/control.rs", "yamux/src/stream.rs"],
  [("go-away exchange and timer", "yamux/src/session.rs send_go_away_with_code/handle_go_away"),
   ("channel closure towards streams", "yamux/src/stream.rs recv_frames")],
  ["Session end of stream", "Control::open_stream/close", "StreamHandle I/O results"], CLOCK)

p("Y06", "Keepalive: answered pings never disconnect, unanswered ones always do",
  "Every ping request of the peer is answered exactly once with the same value. A session whose pings are answered is never ended by keepalive however long it lives, and an enabled keepalive ends the session within a bounded time once the peer stops answering.",
  ["schedules", "histories", "configurations"],
  "every placement of answers and silences over the keepalive ticks up to the horizon, ping values from a boundary set over the full 32-bit range, keepalive intervals from a boundary set",
  "The tests never run longer than one interval: time, ping counters beyond a few and silent peers are out of reach for wall-clock tests.",
  ["yamux/src/session.rs", "yamux/src/frame.rs"],
  [("ping bookkeeping", "yamux/src/session.rs keep_alive/handle_ping"),
   ("keepalive timer registration", "yamux/src/session.rs poll_next")],
  ["frames on the wire", "Session end of stream"], CLOCK)

p("Y07", "Multiplexer frame codec: lossless, fragmentation-proof, rejects malformed input",
  "Decoding the encoding of any frame yields that frame, and a byte stream decodes to the same frames wherever it is cut. Malformed headers (wrong version, unknown type, data length beyond the limit) are rejected with an error, and no byte sequence makes the decoder panic or buffer beyond the limit.",
  ["inputs"],
  "all frames over boundary values of every header field, all concatenations up to the depth bound, all cut positions, all single-byte header values",
  "One round trip of one frame is tested.",
  ["yamux/src/frame.rs"],
  [("codec", "yamux/src/frame.rs FrameCodec")],
  ["FrameCodec Decoder/Encoder"])

p("Y08", "A misbehaving multiplexer peer is contained",
  "Whatever frames a peer sends, the session never panics and never delivers bytes the peer did not send on that stream; overrunning a receive window or opening a stream id that is already open ends the session with a protocol error. Streams beyond the configured stream-count or backlog limit are refused with a reset and never surface, without disturbing other streams.",
  ["inputs", "histories", "configurations"],
  "all sequences of frames over a boundary alphabet (types, flags, ids, lengths) up to the depth bound, against a reference model of the session",
  "Tests exercise three hand-written bad sequences.",
  ["yamux/src/session.rs", "yamux/src/stream.rs"],
  [("limit checks", "yamux/src/session.rs distribute_to_substream"),
   ("receive window check", "yamux/src/stream.rs handle_data"),
   ("go-away on protocol error", "yamux/src/session.rs send_go_away_with_code")],
  ["frames on the wire", "Session stream items", "StreamHandle reads"], CLOCK)

# ---------------------------------------------------------------- secure channel
p("S01", "Handshake agreement: both ends agree or both fail",
  "For every pair of honest configurations, a handshake over an intact transport succeeds on both ends exactly when they share a key agreement, a cipher and a digest, and each end then holds the other's true public key and can exchange data with it. The algorithms used are supported by both, and are the first choice of one designated side among the common ones.",
  ["configurations", "schedules"],
  "all ordered non-empty subsets of agreements, ciphers and digests on both sides, both orders of precedence, all transport fragmentations within the bound",
  "Three fixed configurations are tested.",
  ["secio/src/handshake/procedure.rs", "secio/src/support.rs", "secio/src/handshake/handshake_context.rs"],
  [("negotiation", "secio/src/support.rs select_*"), ("key derivation and order", "secio/src/handshake/procedure.rs"),
   ("ordering by hash", "secio/src/handshake/handshake_context.rs with_remote")],
  ["handshake::Config::handshake result"])

p("S02", "Handshake authenticity against an active network attacker",
  "If a handshake completes on one end with some remote public key, then the holder of that key took part in this very handshake with the same view of it; any modification, truncation, loss, duplication, replay or reflection of handshake messages makes the affected end fail instead. Connecting to oneself is refused, and every failure is an error, never a panic or a hang while the transport is live.",
  ["inputs", "fault_sequences"],
  "every single byte-position modification of every handshake message, every truncation, drop, duplication, swap and cross-session replay of messages, and forged messages including short or empty final confirmations",
  "Only honest handshakes are tested.",
  ["secio/src/handshake/procedure.rs", "secio/src/handshake/handshake_context.rs", "secio/src/codec/secure_stream.rs"],
  [("signature over both proposals and ephemeral key", "secio/src/handshake/procedure.rs"),
   ("nonce confirmation", "secio/src/codec/secure_stream.rs verify_nonce")],
  ["handshake::Config::handshake result"])

p("S03", "Secure channel delivers an untampered prefix of the plaintext or an error",
  "Over an established secure channel the reader always obtains a prefix of the bytes the peer wrote, for every read size and fragmentation, and everything written before a clean end is delivered. If any encrypted byte is changed, or an encrypted message is dropped, duplicated, replayed, reordered or reflected, the reader gets an error no later than at that message and no altered byte before it.",
  ["inputs", "fault_sequences", "schedules"],
  "every fragmentation pattern and read/write size pattern within the bound for every cipher, every single-byte modification and every message-level drop, duplication, swap and reflection",
  "One write and one read of one message over an intact socket are tested.",
  ["secio/src/codec/secure_stream.rs", "secio/src/crypto/mod.rs", "secio/src/crypto/ring_impl.rs", "secio/src/crypto/openssl_impl.rs"],
  [("per-message authenticated encryption with counter nonce", "secio/src/crypto"),
   ("receive buffer", "secio/src/codec/secure_stream.rs poll_read")],
  ["SecureStream AsyncRead/AsyncWrite"])

p("S04", "Ciphers: decryption inverts encryption and no nonce is ever reused",
  "For every cipher and message sequence, the receiving state decrypts exactly what the sending state encrypted, in order, including empty messages and beyond nonce byte carries. Two messages encrypted in one direction never share a nonce, and all cipher implementations offered for the same suite interoperate.",
  ["inputs", "histories"],
  "all cipher suites, message lengths from a boundary set, all positions of the message counter up to the bound covering carry boundaries",
  "Encrypt/decrypt of a single message per cipher is tested.",
  ["secio/src/crypto/mod.rs", "secio/src/crypto/cipher.rs"],
  [("nonce_advance", "secio/src/crypto/mod.rs"), ("stream ciphers", "secio/src/crypto")],
  ["crypto::new_stream encrypt/decrypt"])

p("S05", "Identities: peer ids are a faithful, canonical name of the public key",
  "The peer id of a public key is a fixed function of it and differs for different keys; its byte and text forms parse back to the same id, and every malformed form is refused without panic. An encoded public key decodes to the same key, only the canonical serialisation of a valid key is accepted from a peer, and so no key holder can obtain a second identity.",
  ["inputs"],
  "all truncations, extensions and single-byte changes of valid encodings, and a set of distinct keys",
  "Round trips of single random keys are tested; near-miss encodings are not.",
  ["secio/src/peer_id.rs", "secio/src/handshake/handshake_struct.rs", "secio/src/lib.rs"],
  [("PeerId", "secio/src/peer_id.rs"), ("PublicKey encode/decode", "secio/src/handshake/handshake_struct.rs")],
  ["PeerId/PublicKey API"])

# ---------------------------------------------------------------- addresses
p("A01", "Addresses: text and binary forms round-trip, malformed input is refused",
  "Every address built from components (names without '/') prints to text and encodes to bytes that parse back to an equal address with the same components in the same order. Text and bytes that do not spell out such a sequence of components (unknown or incomplete components, numbers out of range, text that is not UTF-8, a peer id that is not one, a missing leading '/') are refused with an error; whatever is accepted has exactly the components that are written there and re-encodes to itself; nothing panics, and component access on an accepted address never fails.",
  ["inputs"],
  "all component sequences up to the depth bound over boundary component values, and all truncations, extensions and single-byte changes of their encodings",
  "A table of about thirty literals is tested.",
  ["multiaddr/src/lib.rs", "multiaddr/src/protocol.rs"],
  [("protocol codec", "multiaddr/src/protocol.rs"), ("validation on construction", "multiaddr/src/lib.rs TryFrom")],
  ["Multiaddr API"])

p("A02", "What is read out of an address is what it says",
  "A socket address turned into a multiaddr and back is the same socket address. The socket address read from a multiaddr is that of an IP component with a TCP component right behind it, the peer id that of its first peer component, whatever other components stand around them, and nothing is read where there is none. A DNS component with a TCP component right behind it resolves to the address of the name with the same port, transport and peer id. An IP address counts as reachable exactly if it is not unspecified, loopback, private (IPv6: unique local or site local), link local, broadcast, reserved for documentation, or an IPv6 multicast address of less than global scope.",
  ["inputs"],
  "all component sequences up to the depth bound, all ports, all IPv4 addresses, all first segments of IPv6 addresses",
  "Tests try half a dozen literals.",
  ["tentacle/src/utils.rs", "tentacle/src/utils/dns.rs"],
  [("conversions", "tentacle/src/utils.rs"), ("names", "tentacle/src/utils/dns.rs DNSResolver")],
  ["tentacle::utils"])

# ---------------------------------------------------------------- priority channel
p("C01", "Priority channel: no loss, no duplication, order kept, urgent first",
  "Every message accepted by a sender is received exactly once or, if the receiver is dropped, discarded; messages of one sender and class arrive in the order sent. Whenever the receiver takes a normal message, no urgent message is waiting whose sending had completed before that receive began.",
  ["schedules", "programs"],
  "every interleaving and every memory-model-permitted reordering of up to three sender threads and one receiver within the preemption bound, over all small send programs",
  "Tests run on real threads a few times; lock-free queue interleavings and weak-memory effects are sampled by chance.",
  ["tentacle/src/channel/queue.rs", "tentacle/src/channel/bound.rs", "tentacle/src/channel/unbound.rs"],
  [("lock-free queue", "tentacle/src/channel/queue.rs"), ("message counters", "tentacle/src/channel/bound.rs")],
  ["channel API"], "source included in the harness crate with synchronisation primitives replaced by loom's")

p("C02", "Priority channel: bounded, and no wake-up is ever lost",
  "A bounded channel never holds more than its capacity plus one message per sender; a task waiting for room is woken as the receiver takes messages, at the latest when everything sent so far has been taken. A waiting receiver is woken when a message arrives or the last sender goes away, and waiting senders are woken when the receiver closes; after closing, remaining messages are still drained and new sends fail.",
  ["schedules", "programs"],
  "every interleaving of up to three threads of senders and receiver, including close and drop at every point, within the preemption bound",
  "A lost wake-up needs a precise race between parking and waking that tests hit only by chance, and shows as a rare hang.",
  ["tentacle/src/channel/bound.rs", "tentacle/src/channel/unbound.rs"],
  [("sender parking", "tentacle/src/channel/bound.rs park/unpark_one"), ("receiver task slot", "tentacle/src/channel/bound.rs next_message/poll_next")],
  ["channel API"], "source included in the harness crate with synchronisation primitives replaced by loom's")

# ---------------------------------------------------------------- service
p("T01", "Service messages arrive exactly once, in order, at the right protocol",
  "While a session and a protocol on it stay open at both ends, every message handed to the service for that session and protocol is delivered to the peer's handler for that protocol exactly once, unmodified, messages of equal priority arrive in the order they were submitted, and a quick message is never overtaken by a normal one submitted after it; a configured transformation before sending or receiving is applied exactly once. Messages never show up at another protocol or session, and broadcast or filtered sends reach exactly the addressed sessions on which the protocol is open.",
  ["schedules", "programs", "configurations"],
  "every schedule of the two or three services' tasks within the deviation bound, all small send programs (targets, priorities, sizes), encrypted and plain transports, small and default windows",
  "End-to-end tests run one real-time schedule; ordering across tasks, queue limits and broadcast during session changes are not controlled.",
  ["tentacle/src/service.rs", "tentacle/src/session.rs", "tentacle/src/substream.rs", "tentacle/src/buffer.rs", "tentacle/src/protocol_handle_stream.rs"],
  [("message routing", "tentacle/src/service.rs handle_message"), ("substream write buffers", "tentacle/src/substream.rs send_data"),
   ("event distribution", "tentacle/src/session.rs handle_session_event")],
  ["ServiceProtocol/SessionProtocol callbacks", "ServiceHandle events"], RT)

p("T02", "Protocol callbacks: connected, received and disconnected are properly nested",
  "For each session and protocol a handler sees strict alternation: one connected, then received messages, then at most one disconnected before the next connected, and never a received outside that span. Whenever the protocol stream ends while the service runs (closed by either side, remote reset, protocol error, session end or connection loss), a service-wide handler gets its disconnected, and the protocol can be opened again while the session lives. A message that cannot be decoded, or that the protocol's step before receiving refuses, is not delivered, is reported once as a protocol error and ends the stream.",
  ["schedules", "fault_sequences", "histories"],
  "every schedule within the deviation bound of scenarios that open and close protocols from both sides, reset streams, feed undecodable data and cut the connection at every point of the exchange",
  "Tests check a few happy orders; a lost or doubled disconnected depends on races between writes, resets and closes.",
  ["tentacle/src/substream.rs", "tentacle/src/protocol_handle_stream.rs", "tentacle/src/session.rs"],
  [("substream close path", "tentacle/src/substream.rs close_proto_stream/error_close"),
   ("handler event loop", "tentacle/src/protocol_handle_stream.rs handle_event")],
  ["ServiceProtocol/SessionProtocol callbacks", "ServiceHandle::handle_proto"], RT)

p("T03", "Session events: each session opens once, closes once, with a unique id",
  "The service reports exactly one open for every established session and, after it ends for whatever reason while the service keeps running, exactly one close for the same session; ids are never shared by live sessions and no event refers to a session outside its open-close span. If one end's session ends or the connection is lost, the other end's session also ends and reports its close.",
  ["schedules", "fault_sequences", "crash_points"],
  "every schedule within the deviation bound; connection cut at every transport operation; disconnects issued by either or both sides at every step",
  "Tests cut connections at one quiet moment.",
  ["tentacle/src/service.rs", "tentacle/src/session.rs"],
  [("session table", "tentacle/src/service.rs session_open/session_close"), ("session state machine", "tentacle/src/session.rs poll_next")],
  ["ServiceHandle::handle_event"], RT)

p("T04", "Every dial and listen request gets exactly one outcome",
  "Each dial request the service accepts is answered by exactly one event: a session opened to that address or a dial error naming it; each listen request by a listen-started or a listen error (a request for an address that is already being dialled or listened on shares the answer of the earlier one). This holds for unsupported or unreachable addresses, refused, silent or failing peers, identity mismatches and duplicate connections, and a failed address can be dialled again with the same guarantee.",
  ["schedules", "fault_sequences", "histories"],
  "all sequences of dial and listen requests up to the depth bound over an address alphabet (good, unreachable, unsupported, silent, wrong identity, already connected), every schedule within the bound",
  "Tests dial good addresses and one bad one, once.",
  ["tentacle/src/service.rs", "tentacle/src/service/helper.rs", "tentacle/src/transports/mod.rs"],
  [("pending-dial table", "tentacle/src/service.rs dial_inner/handle_session_event"), ("handshake task", "tentacle/src/service/helper.rs")],
  ["ServiceHandle::handle_event/handle_error"], RT)

p("T05", "Peer identity is enforced and a peer has at most one live session",
  "With encryption enabled, a session reported as open carries the public key proven by the peer, and dialling an address that names a peer id never yields a session with a different peer. At no time does a service report two open sessions to the same public key; the surplus connection is refused with an error and the existing session is unaffected.",
  ["schedules", "configurations"],
  "all dial patterns among two or three services (repeated, simultaneous in both directions, via different listen addresses, wrong peer id) and every schedule within the bound",
  "Simultaneous dials and wrong ids are tested once each in one schedule.",
  ["tentacle/src/service.rs"],
  [("duplicate and peer-id check", "tentacle/src/service.rs session_open")],
  ["ServiceHandle::handle_event/handle_error"], RT)

p("T06", "Protocol negotiation: same protocol, highest common version, or a clean error",
  "When a protocol opens on a session, both ends report the same protocol name and the same version, which is the highest version both support (version lists are given in ascending order) unless the side asked has a rule of its own for choosing among the shared ones. A dial or a request to open protocols opens exactly those it names that both ends have. A protocol or version not shared is reported as a selection error on the side that asked for it and opens on neither. A protocol is never open twice on one session, the ends agree at rest whether it is open, and a failed or stalled negotiation does not disturb other protocols of the session.",
  ["configurations", "inputs", "schedules"],
  "all pairs of supported version lists up to the bound, all truncations and single-byte changes of negotiation messages, simultaneous opens from both sides, every schedule within the bound",
  "A few version pairs are tested in one schedule; malformed negotiation input is not.",
  ["tentacle/src/protocol_select/mod.rs", "tentacle/src/session.rs"],
  [("version selection", "tentacle/src/protocol_select/mod.rs select_version"), ("open bookkeeping", "tentacle/src/session.rs open_protocol")],
  ["ServiceProtocol::connected", "ServiceHandle::handle_error"], RT)

p("T07", "Shutting a service down always completes",
  "After a graceful or immediate shutdown is requested, at whatever moment and with whatever in progress, the service's event loop ends, all tasks it spawned end, its listeners stop accepting and its connections are closed. A graceful shutdown reports the close of every listener and of every session it had reported open; afterwards requests through a control handle fail instead of hanging.",
  ["schedules", "crash_points"],
  "shutdown requested at every step of dialling, listening, handshaking, protocol opening and data exchange; every schedule within the deviation bound",
  "Tests shut down idle services.",
  ["tentacle/src/service.rs", "tentacle/src/service/future_task.rs", "tentacle/src/session.rs", "tentacle/src/service/control.rs"],
  [("shutdown handling", "tentacle/src/service.rs handle_service_task(Shutdown)/poll_next"), ("task manager", "tentacle/src/service/future_task.rs")],
  ["Service stream end", "ServiceHandle events", "live task set", "ServiceControl results"], RT)

p("T08", "Backpressure: slow handlers and peers stall only themselves",
  "A protocol handler or a remote peer that stops consuming never holds up messages of other protocols or sessions (other than those the same handler serves), nor the service's control operations on them; when it resumes, everything still queued for it is delivered in order. Data queued for a session is limited: a session whose queues are full and hold more than the configured send buffer is reported once as blocked and closed, and no session is closed for this without the report, or while its data stays within the limit. The pending data size of a session counts only what is still queued: it is zero when everything has been sent or dropped.",
  ["schedules", "configurations", "fault_sequences"],
  "every schedule within the bound of scenarios with one stalled protocol, handler or peer and small queue limits; counters compared with the messages actually outstanding",
  "Real-time tests cannot hold a peer exactly at a queue boundary.",
  ["tentacle/src/session.rs", "tentacle/src/substream.rs", "tentacle/src/service.rs", "tentacle/src/context.rs"],
  [("pending size accounting", "tentacle/src/context.rs"), ("bounded event queues", "tentacle/src/buffer.rs"), ("stream distribution", "tentacle/src/session.rs distribute_to_substream")],
  ["callbacks", "ServiceHandle::handle_error"], RT)

p("T09", "Notify timers fire on schedule, until removed or the owner goes away",
  "A notification registered for a protocol fires once per interval with its token, no earlier than the interval and repeatedly, until it is removed; setting a token that is already set changes nothing, and a removed token can be set again. After a removal has taken effect or the protocol's session has closed it never fires again. Tokens of different protocols and sessions are independent, and closing and opening a protocol changes nothing about them.",
  ["schedules", "histories"],
  "all set/remove sequences over two tokens and protocols up to the depth bound, interleaved with ticks of a virtual clock, every schedule within the bound",
  "Tests wait for one or two real-time ticks.",
  ["tentacle/src/protocol_handle_stream.rs", "tentacle/src/service.rs"],
  [("notify table and delay tasks", "tentacle/src/protocol_handle_stream.rs set_notify")],
  ["ServiceProtocol/SessionProtocol notify"], RT)

p("T10", "A hostile or broken remote never takes a service down",
  "Whatever bytes a remote sends on a connection, before, during or after the handshake, and whatever negotiation or protocol frames an authenticated remote sends, the service does not panic, keeps serving its other sessions and keeps accepting new ones, hands nothing malformed to its user (a reported name is text), and reports the end of every session whose connection is gone. A connection that never completes the handshake is dropped after the configured timeout; so is a session that has no protocol open when the timeout since its start has passed, whatever was open before, and one that has a protocol open stays.",
  ["inputs", "fault_sequences"],
  "all byte-level and frame-level attack scripts up to the depth bound from boundary alphabets at each stage of the connection, every schedule within the bound",
  "One oversized-frame test exists.",
  ["tentacle/src/service/helper.rs", "tentacle/src/session.rs", "tentacle/src/protocol_select/mod.rs", "tentacle/src/substream.rs"],
  [("handshake timeout", "tentacle/src/service/helper.rs"), ("session timeout check", "tentacle/src/session.rs TimeoutCheck"), ("abnormal close", "tentacle/src/session.rs open_protocol")],
  ["ServiceHandle events", "other sessions' callbacks"], RT)

p("T11", "A service that need not run forever ends exactly when it has nothing left to do",
  "A service not set to run forever keeps running as long as it has a listener, an open session or a dial or listen request it has not answered, and its event loop ends, with all its tasks, as soon as none of these is left. A service set to run forever ends only when it is told to.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences of up to three dial and listen requests, incoming connections, closes, losses and listener failures, back to back and at every gap, every schedule within the deviation bound",
  "Tests check the counter on its own and services that are stopped by their control.",
  ["tentacle/src/service.rs", "tentacle/src/service/config.rs", "tentacle/src/service/helper.rs"],
  [("requests in progress", "tentacle/src/service/config.rs State"), ("end of the loop", "tentacle/src/service.rs poll_next")],
  ["end of the Service stream", "ServiceHandle events"], RT)

p("T12", "A service never has more sessions than its connection limit",
  "With a maximum number of connections n, at no time are more than n sessions open, whether they were dialled or accepted; a surplus connection is refused, a dialled one with a dial error, and does not affect the open sessions. A connection made while fewer than n sessions are open (and, for a service that need not run forever, requests in progress) is not refused for the limit, also after sessions have closed.",
  ["histories", "schedules", "configurations"],
  "limits 0 to 3, all sequences of connections in and out, silent dials and closes, each at rest, back to back and at every gap, encrypted and plain, every schedule within the deviation bound",
  "No test sets a limit.",
  ["tentacle/src/service.rs"],
  [("limit", "tentacle/src/service.rs reached_max_connection_limit")],
  ["ServiceHandle events"], RT)

p("T13", "Handlers are shown the listen addresses there are",
  "Once a listener has been reported started or closed and the service has come to rest, the listen addresses a protocol handler is shown in its callbacks are exactly those of the listeners reported started and not closed, for service-wide and session handlers, on old and new sessions. A listener that can accept no more is reported with an error and as closed once, and neither that nor sessions ending meanwhile ends the service.",
  ["histories", "schedules"],
  "all sequences of up to three listen requests, listener failures, sessions coming and going and messages, at every gap, every schedule within the deviation bound",
  "Tests look at the listen addresses of a service with one listener.",
  ["tentacle/src/service.rs", "tentacle/src/protocol_handle_stream.rs", "tentacle/src/service/helper.rs"],
  [("update of the handlers", "tentacle/src/service.rs try_update_listens")],
  ["ServiceContext::listens in callbacks", "ServiceHandle events"], RT)

p("T14", "Futures and handler polls given to a service are run",
  "A future handed to a service runs until it ends, exactly once, whatever else the service does meanwhile: futures that are ready at once, give way, wait for timers or for another task, hand in more futures or panic do not hold each other up and do not end the service. When the service ends, those still waiting are dropped, and none is accepted any more. A protocol handler's poll is called once the handler is up, again after it answered that there is more, again when it is woken after it answered that it waits, and never again after it answered that it is done; its messages and notifications arrive regardless.",
  ["histories", "schedules"],
  "all sequences of up to three futures of eight kinds with disconnects and stops among them, all scripts of up to three poll answers with two wakes, messages, notifications and closes, at every gap, every schedule within the deviation bound",
  "One test counts the polls of a handler that always has more; futures appear only as helpers.",
  ["tentacle/src/service.rs", "tentacle/src/service/future_task.rs", "tentacle/src/protocol_handle_stream.rs"],
  [("running the futures", "tentacle/src/service/future_task.rs"), ("polling the handlers", "tentacle/src/protocol_handle_stream.rs handle_poll")],
  ["ServiceControl::future_task", "ServiceProtocol::poll", "SessionProtocol::poll"], RT)

p("T15", "A protocol handler that panics is reported and takes only its own service down",
  "When a protocol handler, service-wide or for one session, panics in any of its callbacks (connected, received, disconnected, notify, poll), its service reports a handler error naming the protocol and the session concerned and then shuts down gracefully: sessions and listeners are reported closed and all tasks end. The other services see their sessions with it close and go on.",
  ["crash_points", "schedules"],
  "a panic at the first or second call of every callback, at either end, with one or two handlers, during 12 kinds of activity, every schedule within the deviation bound",
  "Tests cover a panic in one callback, with nothing else going on.",
  ["tentacle/src/protocol_handle_stream.rs", "tentacle/src/service.rs", "tentacle/src/session.rs"],
  [("noticing a panic", "tentacle/src/protocol_handle_stream.rs Drop"), ("reporting it", "tentacle/src/service.rs ProtocolHandleError")],
  ["ServiceHandle::handle_proto", "ServiceHandle events"], RT)

p("T16", "A request means the same however it is made",
  "Every request to a service (listen, dial, disconnect, send and broadcast in normal and quick form, run a future, open and close protocols, set and remove notifications, close, shut down) has exactly the effect it describes and no other: on the sessions and protocols named, once, with the payload given. That holds for the control, its async form, and the contexts given to protocol handlers and to the service handler, from any of their callbacks; a reply from a handler goes to the session and protocol the message came from.",
  ["histories", "configurations", "schedules"],
  "all sequences of up to two (thorough: three) of 41 requests, each made in seven ways, compared with a model of sessions, protocols, messages, notifications and listeners; single requests under every schedule within the deviation bound",
  "Tests use the control, and single calls of a context, with one session and one protocol.",
  ["tentacle/src/service/control.rs", "tentacle/src/context.rs", "tentacle/src/service.rs"],
  [("requests", "tentacle/src/service/control.rs"), ("requests from callbacks", "tentacle/src/context.rs"), ("carrying them out", "tentacle/src/service.rs handle_service_task")],
  ["ServiceControl", "ServiceAsyncControl", "ServiceContext", "ProtocolContextMutRef"], RT)

p("W01", "WebSocket connections carry the byte stream unchanged",
  "Over a WebSocket transport, however a peer cuts the byte stream into messages and whatever ping, pong, text or empty messages lie between them, the bytes arrive at the service exactly once and in order, none is held back once it has been received, and pings are answered. What the service sends is the same byte stream a TCP connection would carry.",
  ["inputs", "schedules"],
  "all cuts of a session's byte stream into up to three messages and fragments, all placements of one or two messages without data between them, every schedule within the deviation bound",
  "Tests connect two services over WebSocket, which always send whole frames as messages.",
  ["tentacle/src/transports/ws.rs"],
  [("stream over messages", "tentacle/src/transports/ws.rs WsStream poll_read/poll_write")],
  ["ServiceProtocol callbacks", "bytes at a raw WebSocket peer"], RT)

PR = "The handlers are linked with the versions of their dependencies that are installed here; the crates' own manifests point at a place that no longer exists."

p("P01", "The ping protocol keeps peers that answer and reports peers that do not",
  "A node with the ping handler of protocols/ping pings every peer that has an identity once per interval, but not again while a ping is unanswered. A pong with the nonce of the unanswered ping is reported once, with the time since that ping, and the peer stays connected; any other pong disconnects the peer that sent it. A peer whose ping has been unanswered for longer than the timeout is reported as timed out at the next check, and no other peer ever is. Every ping of a peer is answered at once with one pong with its nonce and reported. Data that is no message is reported as an error and never ends the service or affects other peers. A peer without an identity is disconnected.",
  ["histories", "schedules", "inputs"],
  "all sequences of up to four (five) of 11 acts of one peer, three (four) of 5 acts of two peers, with a user that disconnects timed out peers and one that does not; short ones under every schedule within the deviation bound; messages cut and changed at every byte; molecule and flatbuffers messages",
  "The protocol has no tests and is not built with the others.",
  ["protocols/ping/src/lib.rs"],
  [("pings and timeouts", "protocols/ping/src/lib.rs notify"), ("answers", "protocols/ping/src/lib.rs received")],
  ["messages at the peer", "Callback of tentacle-ping", "sessions"], PR)

p("P02", "The identify protocol exchanges identities once and reports peers that do not",
  "A node with the identify handler of protocols/identify sends every peer, when the protocol opens, exactly one message: its reachable listen addresses (at most ten; any with a socket address if that is allowed), the address it sees the peer at without the peer id, and the user's own bytes. Of a peer's message the user is told, in this order and only until they want the peer disconnected, which then happens: that it is a repetition, the peer's own bytes, that there are more than ten addresses or else the reachable ones among them, and the observed address if it is reachable. Data that is no message is reported as invalid. A peer that has sent no message eight seconds after the protocol opened is reported as timed out within about a second, one that has sent its message never. No peer affects what is reported of another, or ends the service. A peer without an identity is disconnected.",
  ["histories", "inputs", "schedules", "configurations"],
  "every decision of the user; all sequences of up to three (four) of 11 acts of one peer, two (three) of 5 acts of two peers; five lists of own addresses, both address policies, early and late peers; short ones under every schedule within the deviation bound; messages cut and changed at every byte; molecule and flatbuffers messages",
  "The protocol has no tests and is not built with the others.",
  ["protocols/identify/src/lib.rs", "protocols/identify/src/protocol.rs"],
  [("messages", "protocols/identify/src/lib.rs received"), ("own message", "protocols/identify/src/lib.rs connected"), ("timeout", "protocols/identify/src/lib.rs notify")],
  ["messages at the peer", "Callback of tentacle-identify", "sessions"], PR)

p("P03", "The discovery protocol answers and announces addresses within its limits",
  "A node with the discovery handler of protocols/discovery asks every peer it dialled, once, for at most 1000 addresses, giving the port it listens on. A peer's request is answered with one message of distinct addresses from the user's store, as many as there are but no more than asked for and no more than 1000; the address it listens on, if it gave a port, is handed to the user. A peer's addresses are handed to the user, but of those not announced only its first answer. A second request, a second answer, more than 1000 addresses in an answer or ten in an announcement, more than three addresses of one node, and data that is no message are reported, and the peer is disconnected if the user wants that. The listen addresses of connected peers that the user accepts are announced to its other peers (up to three) within the announcement cycle and two checks, at most ten in a message, never to the peer itself, only once to each, and not to peers that come after it left. Nodes that all use the handler never report each other. No peer ends the service.",
  ["histories", "inputs", "schedules"],
  "all sequences of up to three (four) of 11 acts of one peer, one (two) of 20 acts at every limit with five sizes of the store, three (four) of 5 acts of two and two (three) of three peers, dialled and dialling, with a user that disconnects and one that does not; three nodes with the handler in three shapes; one to four peers that left before others came; short ones under every schedule within the deviation bound; messages cut and changed at every byte; molecule and flatbuffers messages",
  "The protocol has no tests of its behaviour and is not built with the others.",
  ["protocols/discovery/src/lib.rs", "protocols/discovery/src/state.rs", "protocols/discovery/src/protocol.rs", "protocols/discovery/src/addr.rs"],
  [("requests and answers", "protocols/discovery/src/lib.rs received"), ("limits", "protocols/discovery/src/lib.rs verify_nodes_message"), ("announcements", "protocols/discovery/src/lib.rs notify, state.rs check_timer/send_messages")],
  ["messages at the peer", "AddressManager", "sessions"], PR)

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
