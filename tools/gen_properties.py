#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing this file)."""
import json, os

P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

ENC = "spop/src/frame/encode.rs"; DEC = "spop/src/frame/decode.rs"; FRM = "spop/src/frame/framer.rs"
BUF = "spop/src/data/buf.rs"; VAR = "spop/src/data/varint.rs"; FRG = "spop/src/frame/fragment.rs"
CONN = "spoa/src/conn.rs"; AG = "spoa/src/agent.rs"; CNT = "spoa/src/state/connect.rs"
HS = "spoa/src/state/handshake.rs"; PRC = "spoa/src/state/process.rs"; RT = "spoa/src/runtime/runtime.rs"
ERR = "spoa/src/error.rs"

p("C01", "Every frame written is read back equal",
  """Any frame the library writes to a byte stream is read back by the library at the other end as an equal frame,
  for every kind of frame (hello, disconnect, notify, ack) and all contents the format can express: any stream id, any non-zero frame id,
  any names and texts, every typed value, empty or long lists (for a hello: at least one version, any capability list including an empty one).
  The write reports exactly the number of bytes it put on the stream, and the read consumes exactly those bytes.""",
  ["inputs"], "all frames of the six exchangeable kinds within the configured frame size, alone and in sequences",
  """The unit tests round-trip seven fixed frames and 14 fixed values; integers near the varint boundaries, empty lists, long strings,
  negative integers and sequences of frames are not sampled.""",
  [ENC, DEC, BUF, VAR, FRM, "spop/src/frame/kv.rs"],
  [("encoder", ENC), ("decoder", DEC), ("typed data and varint codecs", BUF)], ["Framer::write_frame", "Framer::read_frame"])

p("C02", "Written bytes follow the SPOP 2.0 wire format",
  """The bytes written for a frame are what the SPOP 2.0 specification prescribes: a 4-byte big-endian length of what follows, the frame type code,
  4-byte big-endian flags (final unless the frame is fragmented, abort exactly when aborted), stream and frame ids and all lengths in HAProxy's
  variable-length integer encoding, values with their specified type codes, and the specified item names, action, scope and status codes.
  A decoder written independently from the specification recovers the same contents from them with no byte left over.""",
  ["inputs"], "all frames of the six exchangeable kinds",
  """The tests compare the encoder mostly with itself (expected bytes are built with the same helpers), so a symmetric change to both
  directions passes them while breaking every real HAProxy peer.""",
  [ENC, BUF, VAR, "spop/src/frame/ty.rs", "spop/src/frame/kv.rs", "spop/src/action.rs", "spop/src/data/ty.rs", "spop/src/error.rs"],
  [("frame encoder", ENC), ("varint put", VAR), ("typed data put", BUF)], ["bytes accepted by the transport in Framer::write_frame"])

p("C03", "Conformant frames from other implementations are understood",
  """Every well-formed frame another SPOP implementation may send is read with exactly the contents it carries, including the freedoms the format
  allows: hello and disconnect items in any order, additional unknown items, blanks (spaces, tabs) around the entries of version and capability lists, an
  empty capability list, capabilities unknown to the library (which are left out), any integer type for an integer item, a negative 32-bit value with or without its sign extended to 64 bits, and reserved flag bits set.""",
  ["inputs"], "all conformant payloads produced by an independent encoder, with the format's freedoms exercised",
  "The tests decode only what the library's own encoder produced, in one item order and one spelling.",
  [DEC, BUF, VAR, "spop/src/caps.rs", "spop/src/version.rs"], [("key-value list lookup", DEC), ("typed data get", BUF)], ["Framer::read_frame"])

p("C04", "Reading frames is total: no panic, hang or memory blow-up",
  """Whatever bytes a peer sends, reading a frame ends with a frame or an error: it never panics or aborts, never loops forever, never consumes
  bytes beyond the announced frame, and never uses memory out of proportion to the configured maximum frame size, or processor time out of proportion to the frame's.""",
  ["inputs"], "all byte strings, in particular mutated valid frames, over-long integers, huge announced lengths and counts",
  "No test decodes a malformed frame; arithmetic overflow and length handling on hostile input are never reached.",
  [VAR, BUF, DEC, FRM], [("varint get", VAR), ("bounded reads", BUF), ("length check before buffering", FRM)], ["Framer::read_frame", "allocator"])

p("C05", "A malformed frame is refused as a whole, never partly accepted",
  """A frame whose payload is truncated or malformed anywhere (cut or over-long integer, length or argument count that exceeds what follows, unknown
  type, action or scope code, invalid text, wrong ids for its kind, unknown frame type) is refused with an error.
  A frame is accepted only if its contents account for every byte of the payload, so no message, argument or action is ever silently dropped.""",
  ["inputs"], "all payloads obtained by truncating or corrupting conformant frames, judged by an independent strict decoder",
  "No test feeds a damaged frame to the decoder.",
  [DEC, BUF, VAR], [("message and action list decoding", DEC), ("key-value list decoding", BUF)], ["Framer::read_frame"])

p("C06", "Transport segmentation, buffering and cuts never change frames",
  """The frames read from a stream depend only on its bytes, not on how the transport splits, delays or buffers them, and a payload refused as malformed does
  not disturb the frames that follow it.
  A stream that ends inside a frame yields an I/O error and never a frame, and a failing transport makes the write fail with an I/O error.
  A frame whose write completed has been handed over entirely, in one piece and flushed, also when the transport takes a few bytes at a time.""",
  ["inputs", "schedules", "fault_sequences"], "all frame sequences, all segmentations and pending points, a cut or write error at every byte offset",
  "The tests never use the framing layer over a stream at all.",
  [FRM, "spop/src/frame/codec.rs"], [("length-prefixed reads and writes", FRM), ("buffered codec", "spop/src/frame/codec.rs")], ["Framer", "Codec", "BufCodec over a simulated transport"])

p("C07", "Frames above the size limit are refused before being buffered",
  """A frame whose announced length exceeds the reader's maximum frame size is refused with the bad-frame-size error without reading or
  buffering its payload; a valid frame whose length is at most the maximum, including exactly the maximum, is accepted.""",
  ["inputs", "configurations"], "all limits and all announced lengths, especially around the limit and the 32-bit maximum",
  "No test uses a reader with a limit.",
  [FRM], [("length check", FRM)], ["Framer::read_frame", "bytes consumed", "allocator"])

p("C08", "A frame that cannot be sent faithfully is not sent at all",
  """Writing a frame larger than the writer's maximum frame size, or holding a message with more arguments than the format's one-octet count can
  express (255), fails with an error and puts no byte on the stream; the stream stays usable for further frames.
  Any frame within these limits, including exactly at them, is written.""",
  ["inputs", "configurations"], "all frames around the size limit and around 255 arguments, all limits",
  "No test writes a frame through a size-limited writer or a message with more than two arguments.",
  [FRM, ENC], [("size check on write", FRM), ("argument count", ENC)], ["Framer::write_frame", "Codec::write_frame"])

p("C09", "Fragments are reassembled exactly, per stream and frame",
  """Feeding fragments to the reassembler yields nothing until the final fragment of a (stream id, frame id) pair arrives, and then exactly the concatenation, in arrival
  order, of all items of that pair since its last completion.
  Fragments of other pairs, interleaved in any way, have no influence, an unfragmented frame passes through unchanged, and a pair can be reused after completion.
  A clone of a reassembler goes on by itself from what the original held.""",
  ["inputs", "histories"], "all interleavings of fragments over few and many pairs, empty and non-empty fragments, ids reused, for messages and actions",
  "There is no test of reassembly.",
  [FRG], [("reassembly table", FRG)], ["Reassembly::reassemble", "Reassembly as frame handler"],
  [("table", "items received so far per (stream, frame)", FRG)])

p("C10", "Concurrent reassembly is linearizable",
  """When several threads feed fragments to one shared reassembler at the same time, the results are those of some one-at-a-time order of
  the calls that respects the order of non-overlapping calls: no item is lost, duplicated or delivered under another pair, and the items of one fragment stay together.""",
  ["schedules", "histories"], "all interleavings of concurrent calls on shared and distinct pairs",
  "There is no test of reassembly, let alone a concurrent one.",
  [FRG], [("sharded map entry held during the update", FRG)], ["Reassembly::reassemble called from several threads"])

p("C11", "Dispatched notifications reach the processor exactly once, in order",
  """Each distinct (stream id, frame id) notification given to the dispatcher produces exactly one work item, whose acknowledgement receiver is returned to the caller
  of the first fragment only; later fragments return none.
  The work item's message stream yields exactly the messages of all its fragments in order and ends after the final fragment, unaffected by other notifications
  and by dispatching from several threads or through clones of the dispatcher, which act as one.""",
  ["schedules", "histories", "inputs"], "all interleavings of fragmented and unfragmented notifications, sequential and from several threads, ids reused after completion",
  "There is no test of the dispatcher.",
  ["spoa/src/runtime/dispatch.rs", "spoa/src/runtime/processor.rs"], [("receiving table", "spoa/src/runtime/dispatch.rs")], ["Dispatcher", "Processor stream"],
  [("receiving", "message channel of each unfinished notification", "spoa/src/runtime/dispatch.rs")])

p("C12", "A waiting work or message consumer is always woken",
  """A task waiting on the processor's stream of work items or on a work item's stream of messages is woken when an item arrives or when the stream ends;
  it receives every item and the end, without polling, whatever the order in which producer and consumer run.""",
  ["schedules"], "all orders of producer and consumer steps, on single- and multi-threaded executors",
  "There is no test of the processor stream; lost wake-ups depend on the schedule.",
  ["spoa/src/runtime/processor.rs"], [("stream polling", "spoa/src/runtime/processor.rs")], ["Processor and message streams awaited in tasks"])

p("C13", "Each acknowledgement is delivered exactly once with what was recorded",
  """For each acknowledgement handle, the receiver gets exactly one ACK, with the handle's stream id and frame id and exactly the set/unset
  actions recorded before it was completed, aborted or dropped (whichever comes first), in order; it is marked aborted only by an explicit abort.
  Completing or aborting again is reported as closed and changes nothing, and so is completing when the receiver is gone.""",
  ["histories", "schedules"], "all sequences of record, complete, abort and drop, also with handle and receiver on different threads",
  "There is no test of the acknowledgement handle.",
  ["spoa/src/runtime/acker.rs"], [("one-shot sender taken once", "spoa/src/runtime/acker.rs")], ["Acker", "ack receiver"])

p("C14", "The handshake settles on the best values both sides support",
  """For every agent configuration and every hello that lists at least one of the agent's versions, the agent answers with exactly one AGENT-HELLO
  carrying the highest version listed by both sides, the smaller of the two maximum frame sizes, and each capability listed by both sides exactly once, whatever else the hello lists.
  An agent built without settings offers version 2.0, no capabilities and 16384-byte frames.""",
  ["inputs", "configurations"], "all combinations of versions, sizes and capabilities on both sides, in any order and with repetitions",
  "The agent crate has no tests.",
  [HS, CNT, "spoa/src/runtime/builder.rs"], [("negotiation", HS), ("configuration defaults", "spoa/src/runtime/builder.rs")], ["Connection over an in-memory transport"])

p("C15", "A failed handshake is refused with its reason and nothing else happens",
  """If the first frame is not a hello, cannot be read, lacks its version, size or capability item, or shares no version with the agent, the agent sends exactly one
  AGENT-DISCONNECT with the matching status code (4 invalid, 9 bad frame size, 5, 6 or 7 for the missing item, 8 unsupported version), closes, and never creates a service for that connection.""",
  ["inputs", "configurations"], "all first frames that are not an acceptable hello, all agent configurations",
  "The agent crate has no tests.",
  [CNT, HS, CONN, DEC, ERR], [("connecting state", CNT), ("hello decoding errors", DEC), ("error to disconnect mapping", ERR)], ["Connection over an in-memory transport", "service factory calls"])

p("C16", "A health check is answered and closed without creating a service",
  """A hello that asks for a health check gets the same AGENT-HELLO as any other hello, after which the agent closes the connection without creating a service,
  processing anything further or sending anything else; a hello with the health-check item false or absent opens a normal connection.""",
  ["inputs", "configurations"], "all hellos with the item true, false or absent, with arbitrary frames pipelined behind them",
  "The agent crate has no tests.",
  [CNT, CONN], [("connecting state", CNT), ("disconnecting state", CONN)], ["Connection over an in-memory transport", "service factory calls"])

p("C17", "Each notification is processed once and acknowledged once, in order",
  """Every complete NOTIFY received on an established connection is handed to that connection's service exactly once, with exactly its messages and
  arguments in order, and is answered by exactly one ACK with the same stream id and frame id and exactly the actions the service returned, in order.
  ACKs leave in the order the NOTIFYs arrived, also when many are pipelined, ids repeat, or messages are empty, and nothing else is sent.""",
  ["inputs", "histories", "schedules"], "all sessions of NOTIFY frames, all segmentations and service delays",
  "The agent crate has no tests.",
  [CONN, PRC], [("serve loop", CONN), ("processing state", PRC)], ["Connection over an in-memory transport", "service call log"])

p("C18", "Fragmented notifications are processed once, or refused if not negotiated",
  """When both sides support fragmentation, a NOTIFY sent in several fragments is handed to the service once, when its final fragment arrives, with the
  messages of all its fragments in order, and gets one ACK, while other notifications interleaved with it are processed on their own.
  When fragmentation was not negotiated, a fragmented NOTIFY is never processed: the agent answers AGENT-DISCONNECT with status 10 and closes.""",
  ["inputs", "histories", "configurations"], "all interleavings of fragments of several notifications, capability on or off on either side",
  "The agent crate has no tests.",
  [PRC, CNT, FRG], [("reassembly in the processing state", PRC)], ["Connection over an in-memory transport", "service call log"])

p("C19", "A protocol violation ends the connection with one truthful disconnect",
  """On an established connection, a malformed frame, an over-long frame, or a frame an agent must not receive (a second hello, agent-side frames, unknown types)
  makes the agent answer everything received before it, then send exactly one AGENT-DISCONNECT with the status code of the violation (4 invalid, 9 for
  an over-long frame) and close, without processing or answering anything received after it.""",
  ["inputs", "histories"], "all violating frames at all positions in a session, with further valid frames behind them",
  "The agent crate has no tests.",
  [CONN, PRC, ERR], [("serve loop error paths", CONN), ("error to disconnect mapping", ERR)], ["Connection over an in-memory transport"])

p("C20", "A peer's disconnect is answered by a normal disconnect and a close",
  """When HAProxy sends HAPROXY-DISCONNECT on an established connection, with any status and message, the agent has answered every NOTIFY received before it, answers
  with exactly one AGENT-DISCONNECT carrying status 0 and closes; nothing received after the disconnect is processed or answered.""",
  ["inputs", "histories"], "all positions of the disconnect in a session, all status codes, with and without frames behind it",
  "The agent crate has no tests.",
  [PRC, CONN], [("processing state", PRC)], ["Connection over an in-memory transport"])

p("C21", "Processing time is bounded by the configured limit",
  """A NOTIFY whose processing does not finish within the configured maximum processing time (15 seconds by default) is given up exactly then: its processing is
  cancelled, no ACK is sent for it, and the agent sends one AGENT-DISCONNECT with status 2 (timeout) and closes.
  Processing that finishes within the limit, however many NOTIFYs came before, is acknowledged; the limit applies to each NOTIFY separately.""",
  ["schedules", "configurations", "inputs"], "all limits and all processing durations below and above them, on a virtual clock",
  "The agent crate has no tests; timing needs a controlled clock.",
  [PRC, "spoa/src/runtime/builder.rs"], [("timeout around the service call", PRC)], ["Connection on a paused clock", "service call log"])

p("C22", "Service and factory failures are reported to the peer",
  """If the service returns an error for a NOTIFY, the agent sends no ACK for it but exactly one AGENT-DISCONNECT with status 99 whose message contains the service's error text, then closes,
  processing nothing further; a message too large for a frame is replaced by a shorter one rather than dropping the disconnect.
  If creating the service fails, the agent does the same instead of the AGENT-HELLO, with the factory's error text (and with
  status 99, unless the error is an SPOP status itself, which is kept).""",
  ["inputs", "fault_sequences"], "all error texts, the failure at any NOTIFY of a session or in the factory",
  "The agent crate has no tests.",
  [PRC, CNT, ERR, CONN], [("error context", ERR), ("serve loop error path", CONN)], ["Connection over an in-memory transport"])

p("C23", "Services are created, called and released by the book",
  """Exactly one service is created per established connection, from a copy of the configured state, and is released when the connection ends, however it ends.
  The factory and the service are only called after they reported readiness, a service is never called while its previous call is unfinished, and a service that delays or
  refuses readiness delays or fails the NOTIFY like a slow or failing call.""",
  ["schedules", "histories", "fault_sequences"], "all sessions and endings, services whose readiness comes late, fails or never comes",
  "The agent crate has no tests; the tests of the codec crate use services that are always ready.",
  [PRC, CNT, RT], [("service call", PRC), ("service maker", RT)], ["monitoring service and factory that assert the contract"])

p("C24", "Connections do not affect one another",
  """Whatever happens on one connection (garbage, a stalled or vanished peer, a panicking, failing or never-ending service call, a stuck service
  creation, unfinished fragments with the same ids), every other connection of the same agent is accepted, negotiated, processed and acknowledged as if it were alone,
  and never sees another connection's messages or actions.""",
  ["schedules", "histories", "fault_sequences"], "all combinations of well-behaved and misbehaving connections sharing one agent runtime, on one and several threads",
  "The agent crate has no tests.",
  [CONN, AG, RT, CNT, PRC], [("task and state per connection", AG), ("shared service maker lock", RT)], ["several Connections over one runtime", "Agent over loopback TCP"])

p("C25", "Shutdown is prompt, complete and loses no accepted work",
  """After shutdown is requested the agent accepts no new connection, idle connections are closed at once, whatever a peer has sent or goes on sending that is not being processed yet does not put that off, a NOTIFY already being processed is still acknowledged before its connection closes,
  and serving returns only when every connection has ended, then without further delay.
  Shutdown works in any phase: before serving starts, while connections are idle, mid-frame, mid-processing, flooded or already closed.""",
  ["schedules", "histories"], "all phases of any number of connections at the moment of shutdown, one and several threads, peers that keep reading, and send nothing, little or without end",
  "The agent crate has no tests.",
  [AG, CONN], [("cancellation token and task tracker", AG), ("serve loop select", CONN)], ["Agent over loopback TCP"])

p("C26", "The agent keeps accepting connections after transient failures",
  """An agent given an ordinary bound listener serves every connection made to it, and keeps doing so after accepting fails temporarily
  (for example because file descriptors ran out) or after any number of peers connect and vanish: once the cause is gone, pending and new connections are served, also those of a peer that comes again
  from the address and port it had.""",
  ["fault_sequences", "configurations"], "descriptor exhaustion of varying length, aborted connections, blocking and non-blocking listeners",
  "The agent crate has no tests; exhausting descriptors needs fault injection.",
  [AG], [("accept loop", AG), ("listener set-up", AG)], ["Agent over loopback TCP with a lowered descriptor limit"])

p("C27", "A connection cut at any byte processes only what fully arrived",
  """If a peer vanishes or the transport fails after any byte of a session, the agent processes exactly the NOTIFYs that had fully
  arrived (and whose predecessors could be answered), what it sent is a prefix of what it would have sent without the cut, the connection ends by itself, and its service is released.""",
  ["crash_points", "fault_sequences"], "a cut of the incoming or a failure of the outgoing direction at every byte offset of generated sessions",
  "The agent crate has no tests.",
  [CONN, FRM, PRC], [("serve loop", CONN), ("exact reads", FRM)], ["Connection over a fault-injecting transport", "service call log and drop count"])

p("C28", "Binary request headers are decoded completely and exactly",
  """Decoding HAProxy's binary header block yields every header of the block with its exact value and, for repeated names, all values in order, for names and values of any length
  (the lengths are variable-length integers), up to the terminating empty pair.
  A block with a header that HTTP does not allow (one without a name, for example) is an error, never a part of the headers.
  Any other bytes yield a header map or an error, never a panic.""",
  ["inputs"], "all header lists, value lengths across the one-octet limit, repeated names, arbitrary and truncated bytes",
  "There is no test of header decoding.",
  ["spoa/src/req.rs"], [("length-prefixed strings", "spoa/src/req.rs")], ["req::hdrs_bin"])

p("C29", "Typed values, versions, capabilities and status codes convert losslessly",
  """Converting a value to typed data and back to its own kind gives the same value, and converting typed data to a different kind fails instead of coercing.
  Versions and capabilities print as the protocol spells them ("major.minor", "fragmentation", "pipelining", "async") and parse back to themselves; messages, actions and frames built through the
  convenience constructors hold exactly what was given, in order; every status maps to its SPOP code and back.""",
  ["inputs"], "all values of all kinds, all pairs of kinds, all versions, all status codes",
  "The tests use the conversions only incidentally on fixed values.",
  ["spop/src/data/typed.rs", "spop/src/version.rs", "spop/src/caps.rs", "spop/src/error.rs", "spop/src/action.rs", "spop/src/frame/msg.rs", "spop/src/frame/frames.rs"],
  [("conversions", "spop/src/data/typed.rs")], ["public value API"])

p("C30", "The negotiated frame size binds both directions",
  """After the handshake the agent never sends a frame larger than the negotiated maximum frame size (the smaller of the two), and refuses with status 9 a frame larger than it, even when its own configured maximum is bigger.
  An ACK that would exceed it is not sent, in whole or part; the agent sends AGENT-DISCONNECT with status 3 (too big) and closes.""",
  ["inputs", "configurations"], "all pairs of sizes, frames and ACKs around the negotiated size",
  "The agent crate has no tests.",
  [CONN, "spop/src/frame/codec.rs", FRM], [("codec limit after handshake", CONN)], ["Connection over an in-memory transport"])

p("C31", "No undefined behaviour or data race under concurrent load",
  """Running the codec, the reassembler, the dispatcher and full agent sessions from several threads under hostile load causes no invalid memory access
  and no data race.""",
  ["schedules", "inputs"], "the executions driven by the stress workloads, under address and thread sanitizers",
  "The tests run single-threaded without instrumentation.",
  [FRG, "spoa/src/runtime/dispatch.rs", AG, FRM], [("safe Rust and synchronized maps", FRG)], ["sanitizer reports"])

p("C32", "Finished work leaves nothing behind",
  """What the library holds in memory does not depend on how much it has handled: once fragment pairs are completed, notifications acknowledged or aborted, frames read or written (or refused),
  sessions and connections ended - in whatever way - the memory, items, services and references they used are released. A process can therefore handle any number of them without growing.""",
  ["histories", "fault_sequences"], "histories of thousands of pairs, notifications, frames, sessions and connections with ever new ids, ended in every way (completed, aborted, dropped, failed, cut, cancelled)",
  "The tests handle one frame or pair each; growth shows only after many.",
  [FRG, "spoa/src/runtime/dispatch.rs", "spoa/src/runtime/acker.rs", CONN, AG, FRM],
  [("entry removed on completion", FRG), ("entry removed on the last fragment", "spoa/src/runtime/dispatch.rs"), ("task tracking", AG)],
  ["live bytes of the process", "counted items", "Arc::strong_count of the runtime"],
  [("partials", "fragments of unfinished pairs", FRG), ("receiving", "senders of unfinished notifications", "spoa/src/runtime/dispatch.rs")])

p("C33", "Variable-length integers are exact for every 64-bit number",
  """Every 64-bit number is written in HAProxy's variable-length encoding in its one shortest form, with exactly the length that is announced for it, and reads back as itself, leaving what follows
  untouched, whether the bytes lie in one piece or several. Bytes that are cut short or stand for more than 64 bits are no number: reading them yields nothing.""",
  ["inputs"], "all numbers, in particular around every length boundary; all short byte strings, random and over-long ones; buffers of several pieces",
  "The tests use a table of a few numbers; a length wrong by one at some boundary, or an overflow in the last byte, passes them.",
  [VAR, BUF], [("put, get, size_of", VAR)], ["varint::put", "varint::get", "varint::size_of"])

p("C34", "What a frame says about itself agrees with its bytes",
  """A frame's type, its is_... and try_unwrap_... answers and its metadata (flags, fragmented, final, aborted, stream id, frame id and size) agree with the frame's contents and with the bytes it has on
  the wire; a frame that is not of the kind asked for is handed back unchanged. Only NOTIFY and ACK have metadata.""",
  ["inputs"], "all frames of all kinds, fragmented and aborted in every combination, all ids",
  "No test asks a frame about itself.",
  ["spop/src/frame/frames.rs", "spop/src/frame/ty.rs", "spop/src/frame/metadata.rs", ENC], [("frame type and metadata", "spop/src/frame/frames.rs")], ["Frame::frame_type", "Frame::is_*", "Frame::try_unwrap_*", "Frame::metadata"])

p("C35", "Errors keep their status and text through layers of context",
  """An agent error that carries an SPOP status keeps it however many layers of context are wrapped around it, and its text names every layer in order, outermost first. The disconnect made of
  an error has that status (99, unknown, if the error has none) and, with a status, the outermost context as its message (the status's own text if there is none), without one, the whole text.
  A connection told to disconnect with a status and a text sends exactly one AGENT-DISCONNECT with both, or fails with "too big" and sends nothing if that does not fit.""",
  ["inputs"], "all errors of all kinds under up to 30 layers of context, all status codes and texts, several frame sizes",
  "The agent crate has no tests.",
  [ERR, CONN, "spop/src/error.rs"], [("status lookup through context", ERR), ("disconnect from an error", ERR), ("disconnect", CONN)], ["Error::status", "Error's Display", "Disconnect::from", "Connection::disconnect"])

p("C36", "Logging observes and never interferes",
  """With every log record formatted in full, the library reads and writes the same frames, reports the same results, makes the same calls and sends the same bytes at the same times as
  without any logging, for hostile input too; formatting a record never panics.""",
  ["inputs", "configurations"], "valid, random, cut and hostile frames; sessions of every kind; with and without a subscriber that formats every field",
  "The tests run without a subscriber, so no log argument is ever evaluated.",
  [FRM, CONN, CNT, HS, PRC, AG], [("trace and debug records", FRM), ("trace and debug records", CONN)], ["a tracing subscriber", "Framer", "Codec", "Connection over an in-memory transport"])

p("C37", "A reassembler handles frames as it handles their contents",
  """A reassembler of messages given NOTIFY frames, and one of actions given ACK frames, answers each exactly as if the frame's contents had been given to it directly, in any mixture of both. A disconnect
  of the frame's own side (HAPROXY-DISCONNECT or AGENT-DISCONNECT) is answered with status 0 (normal), and every other frame with status 4 (invalid); neither changes what is being reassembled.""",
  ["histories"], "all histories of frames of all kinds and direct calls on overlapping pairs",
  "The tests give fragments to the reassembler directly, in one order, and no frame of another kind.",
  ["spop/src/handler.rs", FRG], [("frame handlers", FRG)], ["AsyncHandler::handle_frame", "Reassembly::reassemble"])

p("C38", "Agents sharing a runtime and tasks sharing an agent do not interfere",
  """Agents that share one runtime are independent: shutting one down ends its own connections only; the others keep their connections and accept new ones. One agent served from several tasks
  serves each connection exactly once, stopping one of the tasks ends none of its connections, and after a shutdown no serving task returns while a call on one of the agent's connections is unfinished; then all return.
  Serving an agent again after its shutdown returns at once.""",
  ["schedules", "histories", "configurations"], "1 to 3 agents of one runtime, 1 to 4 serving tasks each, any number of connections and unfinished calls, shutdowns in any order",
  "The agent crate has no tests.",
  [AG, CONN], [("task tracker and cancellation token", AG)], ["Agents over loopback TCP", "service log"])

p("C39", "A busy or unread connection stops taking from its peer",
  """While a call is unfinished, or its ACK cannot be sent because the peer does not read, the agent makes no further call on that connection and takes no more than a bounded amount
  (at most one further frame and a read buffer) from the peer, however much it sends and for however long. Once the call ends or the peer reads again, everything sent meanwhile is answered, in order.""",
  ["schedules", "inputs"], "calls held open and peers that stop reading at any byte of any answer, with hundreds of kilobytes sent meanwhile, frame sizes from 256 bytes to 200 kB",
  "The agent crate has no tests.",
  [CONN, "spop/src/frame/codec.rs", PRC], [("serve loop: read, process, write", CONN)], ["bytes consumed from a simulated transport", "service call log"])

p("C40", "Dispatching without a processor fails every time and keeps nothing",
  """Once the processor of a dispatcher is gone, every fragment of every notification that had not been handed over before is refused with an error, first and later fragments alike, and nothing of it is kept.
  Work handed over before goes on: its later fragments are delivered, and its stream of messages ends after the last.""",
  ["histories", "fault_sequences"], "all histories of notifications with the processor dropped at any point",
  "The agent crate has no tests.",
  ["spoa/src/runtime/dispatch.rs", "spoa/src/runtime/processor.rs"], [("entry and hand-over of a first fragment", "spoa/src/runtime/dispatch.rs")], ["Dispatcher::recieve_messages", "Processor"],
  [("receiving", "senders of unfinished notifications", "spoa/src/runtime/dispatch.rs")])

p("C41", "A codec's reads, writes and size changes are independent",
  """On one codec (buffered or not), reads and writes in any order, with changes of the maximum frame size between them, give the frames the peer sent and the bytes of the frames written, in order.
  A new maximum applies to the next frame in each direction, larger or smaller, also to frames that had arrived before the change, and loses nothing already buffered.""",
  ["histories", "schedules"], "histories of reads, writes and size changes on one codec, with the peer sending any number of frames ahead, over rough transports",
  "The tests never use a codec.",
  ["spop/src/frame/codec.rs", FRM], [("buffered transport with a changing limit", "spop/src/frame/codec.rs")], ["Codec", "BufCodec"])

p("C42", "Waiting takes no work",
  """While a connection waits (for bytes, between or inside frames, for its factory or service, for a call's end, or for a peer that does not read), its task is not run and nothing wakes it, however long it lasts;
  so it is with a reader or writer of frames, with the consumers of a processor's work, messages and acknowledgements, and with an agent that has no new connection.
  An agent that cannot accept tries again at intervals and does not spin.""",
  ["schedules", "histories"], "all points at which a connection, consumer or agent can wait, for minutes to weeks",
  "The tests never wait for anything.",
  [CONN, AG, FRM, "spoa/src/runtime/processor.rs", "spoa/src/runtime/acker.rs"], [("serve loop", CONN), ("accept loop and its delay", AG)],
  ["runs of the connection's task", "wake-ups of a waiting consumer", "tokio's poll counts", "processor time"])

p("C43", "Serving a connection reports how it ended, and only once",
  """Serving a connection returns success when the agent ended it (health check, refusal, answered disconnect, violation, service failure, timeout) or it was cancelled,
  and an error with status 1 (I/O) when the peer closed or reset it or reading, writing or flushing failed, at any byte of either direction; it returns nothing before.
  Serving it again returns at once, and neither reads, writes nor calls anything.""",
  ["histories", "fault_sequences"], "all sessions, cut or made to fail at any byte, cancelled or left alone",
  "The agent crate has no tests.",
  [CONN, "spoa/src/error.rs"], [("serve loop's returns", CONN)], ["result of Connection::serve", "reads and writes of the transport after it"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
