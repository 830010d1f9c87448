SPEC = "The oracle is a codec written independently from the SPOP specification; trusted: that codec, the simulated transport, the seeded generators. Says nothing about inputs not generated."
RE = "Reference models and seeded generators are trusted; nothing is said about inputs and schedules not generated."
SES = "Sessions run the real Connection or Agent; the reference agent, simulated transport and generators are trusted; nothing is said about sessions not generated."
MON = "runtime monitoring: "
T = {
"C01": ("exploration", MON + "round-trip monitor on generated frames over simulated transports", SPEC),
"C02": ("exploration", MON + "independent decoder as oracle on every byte written", SPEC),
"C03": ("exploration", MON + "independent encoder exercising the format's freedoms, result compared field by field", SPEC),
"C04": ("exploration", MON + "hostile input under panic, termination, consumption and allocation monitors", "Debug assertions and overflow checks on. " + SPEC),
"C05": ("exploration", MON + "strict independent decoder judges every mutated, truncated or altered payload", SPEC),
"C06": ("exploration", MON + "simulated transport with seeded segmentation, buffering, cuts and write failures", SPEC),
"C07": ("exploration", MON + "consumption and allocation monitor around the size limit", SPEC),
"C08": ("exploration", MON + "output monitor around the size and argument-count limits", SPEC),
"C28": ("exploration", MON + "independently encoded header blocks, result compared; arbitrary bytes under a panic monitor", SPEC),
"C29": ("exploration", MON + "conversion monitor on generated and boundary values", SPEC),
"C09": ("exploration", MON + "reference reassembler fed the same generated fragment sequences, results compared call by call", RE),
"C10": ("exploration", MON + "recorded call/return histories of racing threads checked for linearizability offline", "Interleavings are those the scheduler and injected delays produced; the checker decides each recorded history completely. " + RE),
"C11": ("exploration", MON + "exactly-once and order monitor over the dispatcher's work items and message streams, single- and multi-threaded", "Interleavings are sampled. " + RE),
"C12": ("exploration", MON + "wake-up monitor: consumers polled only when woken, under seeded producer/consumer schedules", "Schedules are sampled on a deterministic executor plus real threads. " + RE),
"C13": ("exploration", MON + "exactly-once monitor on acknowledgement handles under generated operation sequences and races", RE),
"C14": ("exploration", MON + "independent negotiation oracle on recorded sessions", SES),
"C15": ("exploration", MON + "status oracle on recorded sessions with refused handshakes, service creations counted", SES),
"C16": ("exploration", MON + "session monitor on health checks, service creations counted", SES),
"C17": ("exploration", MON + "exactly-once and order checker over recorded sessions (frames in, calls, frames out)", SES),
"C18": ("exploration", MON + "reference agent on sessions with interleaved fragments, negotiated or not", "Two recorded findings are tolerated, each only for its own shape of input. " + SES),
"C19": ("exploration", MON + "reference agent on sessions with one violation at a random point, consumption after it watched", SES),
"C20": ("exploration", MON + "reference agent on sessions ended by HAPROXY-DISCONNECT", SES),
"C21": ("exploration", MON + "deadline monitor in virtual time on sessions with slow calls, cancellation observed", "Time is tokio's paused clock. " + SES),
"C22": ("exploration", MON + "reference agent with failing services and factories", SES),
"C23": ("exploration", MON + "life-cycle monitor inside the factory and service (creation, readiness, overlap, release)", SES),
"C24": ("exploration", MON + "isolation monitor: well-behaved sessions beside hostile ones, in memory and over TCP, compared with the session alone", SES),
"C25": ("exploration", MON + "shutdown monitor over TCP and simulated transports in every phase", SES),
"C26": ("exploration", MON + "fault injection (descriptor exhaustion, resets) on a real listener, liveness monitored", "Liveness is judged after 2500 ticks of 10 ms. " + SES),
"C27": ("fault_enumeration", MON + "every byte position of recorded sessions cut, on both directions, calls and output compared with the uncut run", "Enumerates all cut positions of the generated sessions; the sessions themselves are sampled. " + SES),
"C30": ("exploration", MON + "size monitor on every frame after the handshake, both directions, around the negotiated limit", SES),
"C31": ("exploration", "sanitizers: ThreadSanitizer (with instrumented std), AddressSanitizer and Miri watch the monitors' workloads, threaded ones included", "Judged by the sanitizers' reports alone, on the executions that happened. Miri runs the single-threaded part only. TSan reports inside tokio's I/O driver are suppressed (synchronisation through epoll is invisible to it)."),
"C32": ("exploration", MON + "live-byte accounting in the allocator, item and reference counts, before and after thousands of units of work", "A slack of 4 to 8 kB (48 kB over TCP) for tables and channels that keep their capacity: a leak below about 5 bytes per unit is not seen. " + RE),
"C33": ("exploration", MON + "128-bit reference for numbers around every boundary, random ones and byte strings, exhaustively up to two bytes", RE),
"C34": ("exploration", MON + "every answer of a frame compared with its independently encoded bytes", SPEC),
"C35": ("exploration", MON + "status and text oracle on generated errors under layers of context; bytes sent by disconnects", RE),
"C36": ("exploration", MON + "differential runs with and without a subscriber that formats every field", SES),
"C37": ("exploration", MON + "reference reassembler beside histories of frames of all kinds", RE),
"C38": ("exploration", MON + "life-cycle monitor over agents, serving tasks and connections on loopback TCP", "Liveness is judged after 2500 ticks of 10 ms. " + SES),
"C39": ("exploration", MON + "consumption monitor on a flooded connection in virtual time", SES),
"C40": ("exploration", MON + "result oracle on histories with the processor dropped, live-byte accounting", RE),
"C41": ("exploration", MON + "reference model of one codec's history of reads, writes and limits", SPEC),
"C42": ("exploration", MON + "run and wake-up counters on connections, consumers and agents that wait in virtual time, processor time of one that cannot accept", "What an idle agent does is counted by tokio's own poll counters, with a tolerance of 50 runs per half hour. " + SES),
"C43": ("exploration", MON + "result oracle on sessions cut, cancelled or made to fail at any byte, and served again", SES),
}
