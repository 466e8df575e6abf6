HOOKS = None
NOTES = "All checks are sub-commands of one harness (harness/), built from /repo's working tree by run.sh."
PROPS = []

def P(id, title, statement, over, qtext, why, files, mech, technique=None, level_note=None, observe=None, na=None, state=None, rule="", assume=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a)
    if na: d["na"] = na
    else:
        d["technique"] = technique
        d["level_note"] = level_note
    d["rule"] = rule
    d["assume"] = list(assume)
    PROPS.append(d)

S = "crates/transport/serde/src/"
P("C01", "Encoding and decoding are inverse, self-delimiting and sized as announced",
  "Every value that travels on the wire decodes back to itself (tick fractions: to their documented 8-bit quantisation), decoding consumes exactly the bytes encoding wrote and exactly the announced length, whatever follows. A strict prefix of an encoding never decodes, bytes already handed over by a reused writer do not change, and variable-length integers use the RFC 9000 layout in its shortest form.",
  ["inputs"], "all values of all wire types, all sequences of them, all truncation points",
  "Unit tests round-trip a handful of literals per type; sizes near the 1/2/4/8-byte varint borders combined with nesting, maps, marked entities and reused writers are not reached.",
  [S+"lib.rs", S+"varint.rs", S+"reader.rs", S+"writer.rs", S+"entity_map.rs", S+"postcard_utils.rs", "crates/core/core/src/id.rs", "crates/core/core/src/time.rs", "crates/connection/connection/src/network_target.rs", "crates/core/sync/src/ping/message.rs"],
  [("ToBytes implementations", S+"lib.rs"), ("varint coding", S+"writer.rs WriteInteger::write_varint"), ("entity coding", S+"entity_map.rs")],
  "property-based round-trip testing against an independent RFC 9000 decoder",
  "Random values biased to size borders for all 24 public wire types, plus serde messages; crate-private packet structures are covered through C13/C15 on datagrams. Assumes nothing about the layout except varints and byte order.",
  observe=["ToBytes::{bytes_len,to_bytes,from_bytes}", "Reader/Writer"],
  rule="values of every wire type drawn around size boundaries, integers and varints, serde messages; a case is non-trivial when a value encodes to more than one byte (or the sequence has more than one message)",
  assume=["socket addresses carry no IPv6 flow label or scope id (neither is sent)", "entity generations stay below 2^31 (the top bit is the documented mapping marker)"])
P("C02", "Decoders are total: any bytes give a value or an error, within bounded memory",
  "Decoding any byte string as any wire type returns a value or an error: it never panics, never reads past its input and never allocates more than a small multiple of the input. An accepted value re-encodes to bytes that decode to the same value.",
  ["inputs"], "all byte strings, as every wire type",
  "Tests decode one truncated literal; forged lengths and damaged encodings come from the network and are unbounded in number.",
  [S+"lib.rs", S+"reader.rs", S+"entity_map.rs", S+"postcard_utils.rs", "crates/core/core/src/id.rs", "crates/connection/connection/src/network_target.rs"],
  [("bounds checks while reading", S+"reader.rs"), ("length prefixes", S+"lib.rs")],
  "structure-aware fuzzing of decoders under an allocation guard",
  "Random, length-forging and mutated-valid inputs; an allocation guard turns any single request above 64 KiB + 256x input into a failure.",
  observe=["ToBytes::from_bytes"],
  rule="random and length-forging byte strings, and damaged valid encodings, decoded as every wire type; non-trivial when longer than two bytes",
  assume=["a single allocation above 64 KiB for an input of a few hundred bytes counts as unbounded"])

U = "crates/core/utils/src/"
C = "crates/core/core/src/"
P("C03", "Wrapping sequence ids keep order, difference and windows across the wrap",
  "For every pair of packet, message or ping ids less than half the id circle apart, comparison and subtraction agree with their distance on an unwrapped line, adding then subtracting returns to the start, and rotating both around the circle changes nothing. A sequence-indexed window holds exactly the last value stored under each id of one window, through the wrap.",
  ["inputs", "histories"], "all pairs of 16-bit ids, all store/remove/look-up sequences within a window",
  "Ids wrap after 65536 packets; tests compare a few literals, while an error at the wrap only shows after minutes of traffic.",
  [U+"wrapping_id.rs", U+"sequence_buffer.rs"],
  [("wrapping comparison", U+"wrapping_id.rs wrapping_diff"), ("sequence-indexed ring", U+"sequence_buffer.rs")],
  "property-based testing of algebraic laws; model-based testing of the window",
  "Oracle: unwrapped 64-bit positions and a hash map. Covers PacketId, MessageId, PingId.",
  observe=["PacketId/MessageId/PingId ordering", "SequenceBuffer"],
  rule="sets of ids within half the circle of a random base, and operation sequences on one 64-id window; non-trivial with at least two ids / four operations")
P("C04", "Tick, instant and delta arithmetic is exact where exact, bounded where rounded",
  "Ticks are totally ordered and saturate instead of wrapping, and so do oversteps that accumulate. Instants and deltas, read as multiples of 2^-16 tick, add, subtract, negate and compare exactly as integers do, rounding goes to the nearest tick, and conversion to and from durations is monotone, sign-preserving and accurate to float precision. The shared minimum-tick cell ends at the minimum of everything offered, whatever the interleaving.",
  ["inputs", "schedules"], "all ticks, oversteps, deltas, durations and tick lengths; all interleavings of minimum updates",
  "Tests check single sums; sign handling of fractional deltas and saturation interact only for particular value pairs.",
  [C+"tick.rs", C+"time.rs"],
  [("saturating tick operators", C+"tick.rs"), ("fixed-point instants and deltas", C+"time.rs TickInstant, TickDelta")],
  "property-based testing against integer arithmetic in 2^-16 tick units",
  "Oracle: i128 fixed-point arithmetic; durations to relative 1e-6. Thread interleavings of AtomicTick are sampled, not enumerated.",
  observe=["Tick, TickInstant, TickDelta, TimeDelta operators", "AtomicTick"],
  rule="pairs of instants and signed deltas with boundary-biased parts; all instant cases count, tick cases when the two ticks differ")
P("C05", "A history answers, for any tick, the last state recorded at or before it",
  "After any sequence of additions, removals, truncations and shifts, a history buffer answers every tick with the value or removal recorded last at or before that tick, and with nothing before its first entry; truncating at a tick keeps what that tick and every later one answers.",
  ["histories"], "all operation sequences, all queried ticks",
  "Tests walk a few fixed sequences; rollback relies on every combination of truncation, popping and shifting.",
  [C+"history_buffer.rs"],
  [("lookup", C+"history_buffer.rs HistoryBuffer::get"), ("truncation", C+"history_buffer.rs clear_until_tick, pop_until_tick, clear_after_tick")],
  "model-based property testing against an ordered map",
  "Oracle: BTreeMap of explicit entries; every tick around the stored range is queried after every step.",
  observe=["HistoryBuffer methods"],
  rule="random operation sequences; non-trivial when entries were stored and truncated")
P("C06", "A confirmed history answers with the server state known for each tick",
  "A confirmed history answers, for any tick, the authoritative value or removal of the latest update at or before it, distinguishes unknown from known, and reports the bracketing updates used for interpolation; the answer does not depend on the order in which updates for distinct ticks arrived.",
  ["histories"], "all sequences of updates, confirmations, truncations, in any arrival order",
  "Tests insert in one order with distinct values; arrival order and repeated values are combinatorial.",
  [C+"confirmed_history.rs"],
  [("insertion", C+"confirmed_history.rs ConfirmedHistory::insert")],
  "model-based property testing against an ordered map",
  "Oracle: BTreeMap of explicit updates. One known finding (late update before a merged entry) is recorded and excluded by signature.",
  observe=["ConfirmedHistory methods"],
  rule="random operation sequences; non-trivial when several updates were stored")
P("C35", "Containers of the utility crates behave as the collections they stand for",
  "The ready buffer releases each item once, in key order and only when its key is reached; the free list hands out each live slot once and keeps other slots' contents; the buffer pool returns cleared buffers, never more than it may retain and never one still in use; type maps give one stable id per type and the inverse of that id.",
  ["histories"], "all operation sequences on each container",
  "Tests use a few pushes; slot reuse and out-of-order keys are combinatorial.",
  [U+"ready_buffer.rs", U+"free_list.rs", U+"registry.rs", C+"buffer_pool.rs"],
  [("ready buffer heap", U+"ready_buffer.rs"), ("slot reuse", U+"free_list.rs"), ("type ids", U+"registry.rs TypeMapper"), ("buffer reuse", C+"buffer_pool.rs")],
  "model-based property testing against standard collections",
  "Oracle: sorted vectors, maps. Single-threaded histories.",
  observe=["ReadyBuffer, FreeList, TypeMapper, BufferPool methods"],
  rule="random operation sequences; non-trivial when items were both stored and taken out")

T = "crates/transport/transport/src/"
SIMTECH = "model-based property testing of two transports over a simulated faulty network"
SIMNOTE = "Two real apps exchange datagrams through a generated network (loss, duplication, reordering, delay, MTU and RTT changes, several connections); an independent parser and model predict every observable. Load is bounded: at most a few hundred unacknowledged packets in flight, message ids and packet ids carried through the 16-bit wrap."
SIMRULE = "random channel sets, sends, reads, clocks and datagram fates over up to 50 frames; "
P("C08", "Packet acknowledgements and losses reported to the sender are truthful",
  "Packet ids count up by one per datagram. Every outgoing header acknowledges exactly the packets received among the newest and the 32 before it; a packet is reported acknowledged at most once, exactly when a header naming it arrives, with the true elapsed time; it is reported lost exactly when the configured timeout has passed without acknowledgement, and never both. If data arrived and nothing else is sent, a header-only packet carries the acknowledgement, and these do not elicit others.",
  ["histories", "schedules", "faults"], "all interleavings of sends, losses, duplications and reorderings, through the id wrap",
  "Tests drive the header manager with short lossless sequences; reordering, duplication and wrap combine in ways no fixed list covers.",
  [T+"packet/header.rs", T+"packet/nack.rs", T+"plugin.rs"],
  [("acknowledgement bitfield", T+"packet/header.rs"), ("loss timeout", T+"packet/nack.rs")],
  SIMTECH, SIMNOTE, observe=["outgoing datagrams", "PacketAcked, PacketLost, PacketReceived"],
  rule=SIMRULE+"non-trivial when packets were acknowledged and some datagrams dropped, delayed or duplicated",
  assume=["fewer than 10000 packets are unacknowledged at a time"])
P("C09", "Unordered reliable channels deliver every message exactly once, unaltered",
  "On an unordered reliable channel every message sent is delivered exactly once with its exact bytes, as soon as all of it has arrived, with the tick of a packet that carried it; it is resent until acknowledged and no longer, and once the network stops losing packets everything sent is delivered and acknowledged.",
  ["histories", "schedules", "faults"], "all network behaviours that eventually deliver",
  "Tests lose one chosen packet; exactly-once must survive any loss of data and acknowledgements, with fragments and id wrap.",
  [T+"channel/send_reliable.rs", T+"channel/receive.rs", T+"plugin.rs"],
  [("resend and ack", T+"channel/send_reliable.rs"), ("duplicate suppression", T+"channel/receive.rs RecvState::ReliableUnordered")],
  SIMTECH, SIMNOTE, observe=["ChannelReceive::read_message", "outgoing datagrams"],
  rule=SIMRULE+"non-trivial when messages were resent and delivered",
  assume=["reliable settings with zero RTT and zero minimum delay never resend (documented); such channels are excluded from eventual delivery"])
P("C10", "Ordered reliable channels deliver every message exactly once, in send order",
  "On an ordered reliable channel messages are delivered in exactly the order they were sent, without gaps or repetitions and unaltered, each as soon as it and all earlier ones have arrived; once the network stops losing packets everything sent is delivered.",
  ["histories", "schedules", "faults"], "all network behaviours that eventually deliver",
  "Tests reorder two or three messages; ordering must survive any loss pattern, fragments and id wrap.",
  [T+"channel/send_reliable.rs", T+"channel/receive.rs"],
  [("in-order release", T+"channel/receive.rs RecvState::ReliableOrdered"), ("resend", T+"channel/send_reliable.rs")],
  SIMTECH, SIMNOTE, observe=["ChannelReceive::read_message"],
  rule=SIMRULE+"non-trivial when messages were resent and delivered")
P("C11", "Sequenced channels deliver only ever newer messages, and the newest that arrives",
  "On a sequenced channel each delivered message is newer than every message delivered before, is the newest that started to arrive, is complete and unaltered, and is delivered at most once. A completely arrived newest message is delivered. On the reliable variant the last message sent is delivered once the network stops losing packets. Fragments of superseded messages never surface.",
  ["histories", "schedules", "faults"], "all reorderings, losses and duplications, through the id wrap",
  "Tests swap two messages; mixing fragments, duplicates and wrap-around needs histories of tens of thousands of messages.",
  [T+"channel/receive.rs", T+"channel/fragments/receive.rs"],
  [("newest-only filter", T+"channel/receive.rs RecvState::{UnreliableSequenced,ReliableSequenced}")],
  SIMTECH, SIMNOTE, observe=["ChannelReceive::read_message"],
  rule=SIMRULE+"non-trivial when a message was superseded")
P("C12", "Unreliable channels deliver each arrival unaltered, complete and never invented",
  "On an unordered unreliable channel every delivered message is byte for byte one that was sent and of which all parts arrived; it is delivered once per complete arrival, and everything that arrived completely is delivered. Each message is put on the network exactly once.",
  ["histories", "schedules", "faults"], "all network behaviours",
  "Tests deliver in order without loss; partial fragment sets under duplication and reordering are unbounded.",
  [T+"channel/send.rs", T+"channel/receive.rs", T+"channel/fragments/receive.rs"],
  [("unreliable queue", T+"channel/send.rs UnreliableSendState"), ("delivery", T+"channel/receive.rs RecvState::UnreliableUnordered")],
  SIMTECH, SIMNOTE, observe=["ChannelReceive::read_message", "outgoing datagrams"],
  rule=SIMRULE+"non-trivial when messages were delivered over a faulty network")
P("C13", "Every datagram fits the MTU; large messages are split and reassembled exactly",
  "No datagram exceeds the link's current MTU for any message sizes, channel ids and MTU changes; every message is sent whole or as fragments that partition its bytes (or their compression) in order; small messages fill datagrams without loss; reassembly from any arrival order gives the original bytes, and nothing that is due stays unsent.",
  ["inputs", "histories", "faults"], "all message sizes, MTUs, channel ids and packings",
  "Sizes around the fragment and datagram borders times channel-id and length-prefix sizes form a space tests only touch at a point or two.",
  [T+"packet/packet_builder.rs", T+"channel/fragments/send.rs", T+"channel/fragments/receive.rs", T+"packet/message.rs", T+"packet/packet.rs"],
  [("packet packing", T+"packet/packet_builder.rs build_next_packet"), ("fragment size", T+"packet/packet.rs fragment_size_for_min_mtu"), ("reassembly", T+"channel/fragments/receive.rs")],
  SIMTECH, SIMNOTE, observe=["Link.send datagrams", "ChannelReceive::read_message"],
  rule=SIMRULE+"non-trivial when fragments were sent and messages delivered")
P("C14", "Message acknowledgement and loss notifications are exact",
  "A channel that watches acknowledgements reports a message acknowledged exactly once, exactly when the last of its parts is acknowledged, and never if a part of an unreliable message was lost; it reports a loss for each lost packet carrying a part of it. Ids returned by sending count up by one, and the ids reported as sent in a frame are exactly those put on the network.",
  ["histories", "schedules", "faults"], "all interleavings of losses and acknowledgements of the parts",
  "Tests acknowledge one message in one packet; fragments spread over lost, resent and duplicated packets need generated histories.",
  [T+"channel/send.rs", T+"channel/send_reliable.rs", T+"channel/fragments/ack.rs", T+"channel/builder.rs", T+"plugin.rs"],
  [("packet to message map", T+"channel/builder.rs PacketMessageAckTracker"), ("fragment acknowledgement", T+"channel/fragments/ack.rs")],
  SIMTECH, SIMNOTE, observe=["ChannelSend::{message_acks,message_nacks,messages_sent}", "send_mut return value"],
  rule=SIMRULE+"non-trivial when packets were acknowledged and messages reported lost")
P("C15", "Malformed datagrams are dropped alone: no panic, no memory, no disturbance",
  "Whatever bytes arrive as datagrams, receiving never panics and never allocates more than a small bound, compressed content beyond the configured limit is refused, and every other datagram of the same or later frames is processed exactly as if the malformed one had not arrived.",
  ["inputs", "histories"], "all datagram contents, mixed into all valid traffic",
  "Tests feed well-formed packets; anyone on the network can send anything.",
  [T+"plugin.rs", T+"packet/header.rs", T+"packet/message.rs", T+"packet/compression.rs", T+"channel/receive.rs", T+"channel/fragments/receive.rs"],
  [("receive system", T+"plugin.rs TransportPlugin::buffer_receive"), ("fragment validation", T+"channel/fragments/receive.rs"), ("decompression limit", T+"packet/compression.rs decompress_payload")],
  "structure-aware fuzzing of the receive system with a metamorphic oracle (with and without the malformed datagrams)",
  "Malformed kinds: cut or unknown header, cut body, unknown channel, wrong counts and lengths, impossible fragments, decompression bombs; plus random damage and noise under a 256 KiB single-allocation guard.",
  observe=["ChannelReceive::read_message", "PacketReceived"],
  rule="frames of valid and malformed datagrams; non-trivial when malformed ones arrived and messages were delivered (isolation), or any hostile bytes arrived (survival)",
  assume=["a malformed body may still deliver the well-formed messages before the damage, and its header still counts as received"])
P("C16", "Sending obeys the bandwidth cap, priority order, cadence and retention rules",
  "Data sent never exceeds the configured burst plus rate; while quota for a full datagram remains nothing is held back. Within a flush nothing is sent before, or instead of, a message of higher priority (message times channel priority, accumulating for reliable ones). What does not fit is kept, except on channels set to drop unsent messages, and started fragmented messages are always finished. Messages leave only when their channel's timer fires, and reliable ones are resent only after the resend delay.",
  ["inputs", "histories", "schedules"], "all mixes of channels, priorities, sizes, caps and clocks",
  "Tests use one or two messages with distinct priorities; starvation, partial fragment admission and timers interact over whole histories.",
  [T+"packet/priority_manager.rs", T+"packet/packet_builder.rs", T+"plugin.rs", T+"channel/send.rs", T+"channel/send_reliable.rs"],
  [("quota", T+"packet/priority_manager.rs BandwidthLimiter"), ("ordering", T+"packet/priority_manager.rs PriorityManager::prioritize"), ("retention", T+"channel/send.rs finish_send")],
  "model-based property testing of the send scheduler against a token-bucket and priority model",
  "The quota uses wall-clock time: bounds are taken over measured windows, and one variant uses a rate of 1 byte/s so that time hardly matters. Priority comparisons allow 1e-4 relative rounding.",
  observe=["Link.send datagrams"],
  rule="random channels, priorities, sizes and caps over up to 8 flushes plus refills; non-trivial when a flush ran out of quota; plus the network simulation for timers and resend delays")
P("C17", "A new connection starts clean: nothing of an earlier one leaks into it",
  "After a disconnection the transport of that connection behaves like a new one: ids restart, no earlier message, fragment, acknowledgement or resend appears, and all delivery guarantees hold from then on; other connections of the same app are unaffected.",
  ["histories", "faults"], "all points at which a connection breaks and is re-established",
  "Tests disconnect an idle connection; leaks need pending fragments, resends and acknowledgements at the moment of the break.",
  [T+"channel/builder.rs", T+"plugin.rs"],
  [("reset", T+"channel/builder.rs Transport::reset")],
  SIMTECH, SIMNOTE, observe=["outgoing datagrams", "ChannelReceive::read_message"],
  rule=SIMRULE+"non-trivial when a reconnection happened and messages were delivered")
P("C36", "Compression is transparent, never enlarges a datagram and respects its limits",
  "With compression enabled, datagrams decompress to exactly the content that would be sent uncompressed, are compressed only when smaller and within the configured minimum and maximum, still fit the MTU, and everything is delivered as without compression.",
  ["inputs", "histories"], "all contents, sizes and thresholds, compressible or not",
  "Tests compress one repetitive payload; thresholds times MTU times packing are not sampled.",
  [T+"packet/compression.rs", T+"packet/packet_builder.rs", T+"channel/fragments/send.rs"],
  [("packet compression", T+"packet/compression.rs compress_packet"), ("packing with compression", T+"packet/packet_builder.rs try_append_single_candidate"), ("message compression", T+"channel/fragments/send.rs")],
  SIMTECH, SIMNOTE+" Compressed bodies are decoded by an LZ4 decoder written for this harness.", observe=["Link.send datagrams"],
  rule=SIMRULE+"non-trivial when a packet was compressed")

N = "crates/connection/connection/src/"
P("C07", "Entity references keep their meaning between two worlds",
  "An entity named in data sent from one peer to another denotes, on arrival, the receiver's own entity for it whenever either end knows the correspondence, and the placeholder entity otherwise; it never denotes a different entity. The two directions of an entity map stay exact inverses of each other through every sequence of additions, removals (by either form of reference) and clears.",
  ["inputs", "histories"], "all entity ids (equal numbers on both sides included), all sequences of learning, forgetting and sending in both directions",
  "Tests map one or two entities with distinct small ids; marked references combined with removals, reused ids and both peers numbering differently need generated histories.",
  [S+"entity_map.rs"],
  [("marking already-mapped references", S+"entity_map.rs SendEntityMap, ReceiveEntityMap"), ("bidirectional map", S+"entity_map.rs RemoteEntityMap")],
  "model-based property testing of two entity maps against logical entities, through the wire encoding",
  "Two ends with independent numbering, up to 6 shared entities and histories of up to 40 operations, including references in flight while the maps change.",
  observe=["RemoteEntityMap", "SendEntityMap/ReceiveEntityMap::get_mapped", "EntityMap"],
  rule="two maps with random, overlapping entity numbers and operation sequences; non-trivial when some references were mapped by the sender and some were not",
  assume=["maps are injective: an entity is not entered under two remote entities without removing the first"])
P("C21", "Network targets select exactly the peers they describe",
  "A target accepts exactly the peers its form describes (all, none, listed, all but listed), however it was built, extended or transmitted. Resolving it against the connected clients yields exactly the connected entities whose peer it accepts, each once; peers that are unknown or connected elsewhere are neither selected nor do they exclude anyone.",
  ["inputs"], "all target forms with all lists (duplicates, any length), all peer-to-entity maps and client lists",
  "Inline and hashed code paths switch at four entries on either side; tests cover few combinations of form, length, duplicates and unknown peers.",
  [N+"network_target.rs"],
  [("membership", N+"network_target.rs Target::targets"), ("resolution", N+"network_target.rs NetworkTargetResolver::resolve"), ("extension", N+"network_target.rs Target::extend")],
  "property-based testing against finite and cofinite sets",
  "Random targets, peers, maps and client lists up to 20; the crate-private set operations that no public function reaches are out of scope.",
  observe=["NetworkTarget::targets", "NetworkTargetResolver::resolve", "NetworkTarget::apply_targets"],
  rule="random targets over 14 peers with partial peer-to-entity maps; non-trivial when some but not all connected clients are selected")

MS = "crates/transport/messages/src/"
MSGTECH = "model-based property testing of whole apps (one server, up to three clients, optionally a host client) against a message model"
MSGNOTE = "Random apps, ticks, sends through all send APIs, reads and skipped reads, entity mapping, undecodable messages, disconnections and delayed delivery; links deliver datagrams in order, since loss is covered by C09 to C13."
MSGRULE = "histories of up to 30 frames with up to 6 operations each plus a quiet phase, 8 channels, 4 message and 3 event types; "
P("C18", "Typed messages and events reach exactly their targets, once, unaltered",
  "Every message or event sent to connected peers is readable at each of its targets, and nowhere else, exactly once, in the frame its data arrives, with its contents, sender, channel and sender tick intact and its entities translated; per type and channel in send order on ordered channels. One that cannot be encoded or decoded is dropped alone. Unread messages are gone after the frame, and after a disconnection nothing of the earlier connection appears.",
  ["inputs", "histories"], "all histories of sends, reads, mappings and disconnections between a server and its clients",
  "Tests send one or two messages between two ends; targets, several types and channels, failures in the middle of a batch and reconnection interact.",
  [MS+"send.rs", MS+"send_trigger.rs", MS+"receive.rs", MS+"receive_event.rs", MS+"multi.rs", MS+"server.rs", MS+"plugin.rs", MS+"registry.rs"],
  [("receive system", MS+"receive.rs MessagePlugin::recv"), ("send system", MS+"send.rs MessagePlugin::send"), ("reset on disconnection", MS+"plugin.rs handle_disconnection")],
  MSGTECH, MSGNOTE, observe=["MessageReceiver", "RemoteEvent observers", "MessageSender/EventSender/ServerMultiMessageSender"],
  rule=MSGRULE+"non-trivial when more than two messages were delivered",
  assume=["messages of one flush on a sequenced channel may overtake each other in the datagrams, so some may be dropped as old", "messages sent in the same frame through different send APIs have no order between them"])
P("C19", "Messages bound to a timeline appear exactly when it reaches their tick",
  "A message or event on a timeline channel becomes visible in the first frame in which the receiver's timeline has reached the tick it was sent at, never earlier, exactly once, in tick order and send order within a tick, each timeline on its own. At most the documented number wait per type and timeline; those too far in the future, over the limit, or without a timeline are dropped alone.",
  ["inputs", "histories", "schedules"], "all movements of timelines (forward, backward, absent, advanced within the frame) and arrival patterns",
  "Tests move one timeline past one tick; lag limits, the pending limit, two timelines and messages from different ticks need histories.",
  [MS+"receive.rs", MS+"receive_event.rs", MS+"plugin.rs", "crates/core/utils/src/ready_buffer.rs"],
  [("pending buffers", MS+"receive.rs TimelineMessageBuffer"), ("release", MS+"plugin.rs release_timeline")],
  MSGTECH, MSGNOTE+" Timelines are set directly and through the timeline-advance set of the frame.", observe=["MessageReceiver", "RemoteEvent observers"],
  rule=MSGRULE+"non-trivial when more than one message was held back")
P("C20", "A host client exchanges messages with its server as a remote client would",
  "A client living in the server's app receives everything targeted at it, and its own sends, exactly once, unaltered, with the current tick, channel and timeline gating as over a network; a message that fails is dropped alone, and the other clients are unaffected.",
  ["inputs", "histories"], "all histories of sends to and from a host client next to remote clients",
  "The local path bypasses serialization and transport; tests check single messages on it.",
  [MS+"send.rs", MS+"send_trigger.rs", MS+"receive.rs", N+"host.rs", T+"plugin.rs"],
  [("local delivery", MS+"send.rs send_local"), ("buffer of the host client", T+"plugin.rs buffer_send")],
  MSGTECH, MSGNOTE, observe=["MessageReceiver", "RemoteEvent observers"],
  rule=MSGRULE+"non-trivial when more than two messages were delivered")

L = "crates/io/link/src/"
P("C22", "Connection lifecycle states exclude one another and peer lookups are exact",
  "At every point a connection entity is in at most one of the states connecting, connected, disconnecting, disconnected; what put it there last wins. Servers follow the same rule, and are marked as hosts exactly while one of their clients is the connected host client. Looking up a peer id gives the entity that connected last under that id while it stays connected, whatever happens to older ones, and never one that is disconnected or gone.",
  ["histories"], "all orders of connecting, connected, disconnecting, disconnected transitions, despawns and reconnections of several entities with overlapping peer ids",
  "Tests walk the states once in the usual order; reconnections that overlap the end of the old connection, despawns and failures half way are histories.",
  [N+"client.rs", N+"server.rs", N+"host.rs", N+"client_of.rs", N+"lib.rs"],
  [("state components and their hooks", N+"client.rs"), ("peer map", N+"client.rs NetworkingMetadata"), ("disconnection of clients with the server", N+"server.rs")],
  "model-based property testing of connection entities against a state-machine model",
  "Histories of up to 40 operations over up to 5 client and server entities; in-between values of the peer map while connecting or disconnecting are not specified.",
  observe=["Connecting/Connected/Disconnecting/Disconnected components", "NetworkingMetadata::peer_map", "NetworkTargetResolver"],
  rule="random histories over several connection entities; non-trivial when at least two entities were connected and one reconnected")
P("C23", "The reported network topology is the one the entities form",
  "After every update the topology of the app (none, client, server, host server, peer-to-peer) and the entity it names are those its connection entities form at that time, whatever the order in which they were spawned, connected, disconnected and despawned.",
  ["histories"], "all histories of spawning, starting, connecting, stopping and despawning clients and servers",
  "Tests check each topology once from a fresh app; transitions between them are histories.",
  [N+"network_topology.rs", N+"host.rs", N+"server.rs", N+"client.rs"],
  [("topology resource", N+"network_topology.rs")],
  "model-based property testing against the topology recomputed from the entities",
  "Histories of up to 40 operations over several client and server entities.",
  observe=["NetworkTopology resource and run conditions"],
  rule="random histories; non-trivial when the topology changed at least twice")
P("C28", "The link conditioner loses, delays and reorders as configured and nothing else",
  "Each packet given to the conditioner is either dropped, with the configured probability and burst structure, or comes out once, unaltered, no earlier than its latency minus jitter and no later than its latency plus jitter (to a millisecond) after it was given, in the order in which they become due. Nothing is invented or lost otherwise, and any configuration is accepted.",
  ["inputs", "schedules"], "all configurations, packet sequences and polling times",
  "Tests check one latency; jitter below the clock resolution, burst loss parameters and irregular polling are not reached.",
  [L+"conditioner.rs", L+"lib.rs"],
  [("delay queue", L+"conditioner.rs LinkConditioner"), ("loss models", L+"conditioner.rs")],
  "property-based testing against delay bounds, with statistical tests of loss at a false-alarm rate below 1e-9",
  "Loss statistics use thousands of packets per case with bounds of more than six standard deviations, so only gross deviations of the rate are visible.",
  observe=["Link.recv", "LinkReceiver::push/pop"],
  rule="random configurations, packets and polling times on a mock clock; non-trivial when several packets were in flight at once")
P("C29", "Links carry state and payloads consistently, and a server's links follow it",
  "A link is in at most one of the states unlinked, linking, linked. What is pushed to a linked link is received once, in order and unaltered; nothing is received or sent while unlinked, and nothing from before an unlink appears after it. A server entity lists exactly the links that name it, unlinking or despawning the server ends all of them, and none survives it.",
  ["histories"], "all histories of linking, unlinking, despawning and pushing packets on links and servers",
  "Tests link and unlink once; packets in flight at an unlink, servers stopping with several links and failures while linking are histories.",
  [L+"lib.rs", L+"server.rs"],
  [("state markers and triggers", L+"lib.rs"), ("server side", L+"server.rs")],
  "model-based property testing of links and servers",
  "Histories of up to 40 operations over several servers and links.",
  observe=["Linked/Linking/Unlinked", "Link::push/recv", "Server collection"],
  rule="random histories; non-trivial when packets were delivered and an unlink happened")

NC = "crates/connection/netcode/src/"
NCTECH = "model-based property testing of whole netcode sessions against a reference implementation of the protocol"
NCNOTE = "One server app and three client apps run frame by frame; the reference decodes every datagram with its own ChaCha20-Poly1305 code and predicts every datagram, state, payload and time-out. Virtual time in steps of 1/64 s; link entities appear per address as the UDP server creates them."
NCRULE = "random histories of connections, disconnections, payloads, address changes, server stops and faults of the network; "
P("C24", "Netcode sessions authenticate, connect, carry payloads and end as specified",
  "A client with a valid token gets connected once its handshake passes both ways, under the identity, key and user data of its token, on the link it answered from, with both ends agreeing. Payloads of connected peers arrive at most once, unaltered and encrypted, in both directions, others are neither sent nor delivered. Disconnecting or stopping either end ends the session on both and never another one, and a new connection can follow.",
  ["inputs", "histories", "schedules", "faults"], "all histories of connecting, sending, disconnecting, renewing tokens, changing address, stopping the server, under loss, duplication, delay and reordering",
  "Tests connect one client over a perfect link; lost handshake datagrams, one identity on two links, reconnections and server stops need histories.",
  [NC+"server.rs", NC+"client.rs", NC+"server_plugin.rs", NC+"client_plugin.rs", NC+"packet.rs"],
  [("server state machine", NC+"server.rs Server::process_packet"), ("client state machine", NC+"client.rs Client::update_state"), ("ECS side", NC+"server_plugin.rs NetcodeServerPlugin"), ("ECS side", NC+"client_plugin.rs NetcodeClientPlugin")],
  NCTECH, NCNOTE, observe=["datagrams in Link", "Connected/Connecting/Disconnected markers", "RemoteId, TokenUserData"],
  rule=NCRULE+"non-trivial when a session was established and lasted more than three frames",
  assume=["a token is used for one connection attempt at a time (sequence numbers restart with every request)", "payloads that arrive in the frame in which the session ends may be lost with it"])
P("C25", "Forged, damaged, replayed and misplaced datagrams never affect a netcode session",
  "Datagrams that were not sealed under the session's key, and replays of payloads, keep-alives and disconnections, change nothing at either end: no payload, no state change, no identity, no answer beyond what a genuine request earns, no panic. A peer that holds a token but does not follow the protocol cannot act as another client or stop the server.",
  ["inputs", "histories", "faults"], "all injections of forged, bit-flipped, truncated, replayed, redirected datagrams and authentic ones of unexpected kinds, at any time",
  "Tests decode well-formed packets; attackers choose prefix bytes, sequences, lengths and moments freely.",
  [NC+"packet.rs", NC+"replay.rs", NC+"server.rs", NC+"client.rs", NC+"crypto.rs"],
  [("decoding and decryption", NC+"packet.rs Packet::read"), ("replay window", NC+"replay.rs"), ("kinds a peer may send", NC+"server.rs Server::process_packet")],
  NCTECH+", with injected datagrams", NCNOTE+" Half of the operations inject: replays from the whole history to any peer, flips, truncations, changed prefixes, random bytes, and datagrams sealed by a client of any kind and body.", observe=["Link payloads", "connection states"],
  rule=NCRULE+"half of the operations inject datagrams; non-trivial when a session was established and more than two datagrams were injected")
P("C26", "Netcode capacity, refusals, expiry and time-outs act on exactly whom they should",
  "Never more clients than the maximum are connected; clients beyond it and clients the request handler refuses get the matching denial and nothing more. Expired tokens, tokens for other servers, keys or protocols never connect. A silent peer is dropped once its token's time-out has passed and not before, at both ends; a client moves through its token's addresses and gives up after the last.",
  ["inputs", "histories", "schedules", "faults"], "all capacities, refusals, token time-outs and expiries, silences and frame lengths",
  "Tests use one client below capacity; limits are reached by combinations of clients, timings and losses.",
  [NC+"server.rs", NC+"client.rs", NC+"token.rs", NC+"server_plugin.rs"],
  [("capacity and refusal", NC+"server.rs process_connection_request"), ("time-outs", NC+"server.rs check_for_timeouts"), ("client deadlines", NC+"client.rs update_state")],
  NCTECH, NCNOTE, observe=["datagrams in Link", "Connected/Disconnected markers"],
  rule=NCRULE+"small capacities, refusals, short time-outs and long frames; non-trivial when a session was established and a limit acted",
  assume=["half-open sessions of the server do not time out (documented as open)", "token reuse detection is not claimed (documented as unfinished)"])
P("C27", "Connect tokens carry what they were built for, and any alteration is refused",
  "A connect token built for a client id, protocol, addresses, time-outs, expiry and user data decodes to exactly these, publicly and for the server's key, with the private part sealed and both parts agreeing on the session keys. Encoding and decoding are inverse, decoding is total, and bytes that do not follow the layout are refused. A client with a token altered in any bit gets connected only if the alteration left intact what the server checks.",
  ["inputs", "faults"], "all token contents, address lists up to and over the maximum of 32, all damages",
  "Tests build one token with two addresses; lists at the limit, negative times and altered bits are unbounded.",
  [NC+"token.rs", NC+"auth.rs", NC+"crypto.rs", NC+"client.rs"],
  [("builder and layout", NC+"token.rs ConnectTokenBuilder::generate"), ("decoding", NC+"token.rs ConnectToken::read_from"), ("ways to get a token", NC+"auth.rs Authentication::get_token")],
  "property-based round-trip and differential testing against an independent token decoder, and session testing with altered tokens",
  "The independent decoder opens private parts with its own XChaCha20-Poly1305 code; sessions with altered tokens use the reference of C24.",
  observe=["ConnectToken::{generate,try_into_bytes,try_from_bytes}", "connection states"],
  rule="random token contents and damages, and session histories with one-bit alterations; non-trivial with several addresses, internal addresses or damage, or a connection attempt with an altered token",
  assume=["at least one server address (an empty list is refused by the client)"])

SY = "crates/core/sync/src/"
P("C30", "P2P peers start a session together, at one tick with one roster, or not at all",
  "A peer-to-peer start is a barrier. Every peer that starts does so at the same start tick with the same roster, and only after every member of its cohort learned that tick; the session exists from the fixed step before that tick on and never before its timeline is synchronised. A start that cannot complete times out within its bound, a stop or loss of peers leads back to a state from which a rematch works, and an undisturbed start always completes, whatever the frame lengths and the latency, loss, duplication and reordering of messages.",
  ["histories", "schedules", "faults"], "all meshes of 2 to 4 peers, frame schedules, latencies, losses, stalls, dropped and late links, roster differences, stops, despawns and rematches",
  "Tests exercise two peers with hand-delivered messages; agreement between peers depends on message and clock interleavings over whole sessions.",
  ["crates/connection/p2p/src/session.rs", "crates/connection/connection/src/network_topology.rs", SY+"timeline/remote.rs", "crates/connection/raw_connection/src/client.rs"],
  [("barrier", "crates/connection/p2p/src/session.rs P2PSession::receive, advance"), ("start and stop", "crates/connection/p2p/src/session.rs drive_session, start_session, stop_session"), ("fixed-step start", "crates/connection/p2p/src/session.rs start_session_before_agreed_tick"), ("peers' clocks", SY+"timeline/remote.rs RemoteTimeline::update")],
  "property-based simulation of whole meshes of peers in virtual time, with agreement and liveness invariants over the recorded history",
  "Two to four complete apps over a simulated network with mocked time. Which tick is agreed is free within the documented lead; agreement, order, bounds and liveness are checked.",
  observe=["P2PSession state", "P2PStarted, P2PStopped, abort events", "NetworkingMetadata, NetworkTopology", "LocalTimeline, LocalTimelineShift"],
  rule="random meshes, networks and operation histories; non-trivial when at least one session started",
  assume=["peers run the same settings and tick duration", "links form a full mesh when a start is declared undisturbed"])
P("C31", "Latency estimates follow the network, resist outliers and forged replies",
  "Round-trip and jitter estimates stay within the samples seen since the connection started, follow a lasting change within a few hundred samples from any state, including latencies too small to measure, and move by at most a fraction per outlier. Over a real link, whatever is lost, duplicated, reordered or delayed by frames, the estimate lies within the round trips the link can produce, starts afresh with each connection, and forged replies neither crash the receiver nor carry it outside these bounds upwards.",
  ["inputs", "histories", "schedules", "faults"], "all sample sequences; all frame lengths, latencies, losses, duplications and forged replies",
  "Tests feed a handful of samples; degenerate early samples, reordered replies and forged processing times need sequences.",
  [SY+"ping/estimator.rs", SY+"ping/manager.rs", SY+"ping/plugin.rs", SY+"ping/store.rs"],
  [("estimator", SY+"ping/estimator.rs RttEstimatorEwma::update_with_new_sample"), ("samples", SY+"ping/manager.rs PingManager::process_pong"), ("exchange", SY+"ping/plugin.rs PingPlugin")],
  "property-based testing with invariants over generated sample sequences and simulated links in virtual time",
  "Bounds are derived from the generated latencies, jitter and frame lengths, not from the code's formula; a drift inside them is not seen. Two apps run frame by frame over a simulated network with mocked time.",
  observe=["RttEstimatorEwma::final_stats", "PingManager::{rtt,jitter,latency_samples_recv}", "Link::stats"],
  rule="random stretches of samples followed by a constant one, and sessions over steady and rough links; non-trivial with more than two samples before the constant ones, or more than 100 packets",
  assume=["a reply's reported processing time is what the replying peer measured, except where forged"])
P("C32", "Local time follows the remote clock smoothly, early enough, and without jumps",
  "A client becomes synchronised only after its handshake, and then its tick leads the server so that inputs arrive before the server simulates their tick, within the configured margins, for any latency, frame lengths, tick duration and start. Its clock moves by fixed steps and announced shifts alone, runs within the configured speed bounds, jumps no more on a steady network, recovers from stalls, blackouts and reconnections. Peers align once to the slowest, never speed up or shift while running, and report divergence.",
  ["inputs", "histories", "schedules", "faults"], "all latencies, jitters, losses, frame lengths, tick durations, offsets, margins, stalls, blackouts, reconnections and cohorts of peers",
  "Tests run one scripted sequence of estimates; the closed loop of estimator, controller and fixed time only shows over thousands of frames on varied networks.",
  [SY+"timeline/sync.rs", SY+"timeline/input.rs", SY+"timeline/remote.rs", SY+"client.rs", "crates/core/core/src/timeline.rs"],
  [("speed controller", SY+"timeline/sync.rs SyncContext::speed_adjustment"), ("topology and cohort", SY+"timeline/sync.rs LocalTimelineSyncPlugin::sync_timelines"), ("objective", SY+"timeline/input.rs sync_objective"), ("estimate of the remote clock", SY+"timeline/remote.rs RemoteTimeline::update")],
  "property-based simulation of client and server in virtual time with closed-loop invariants, and model-based testing of the controller against scripted clocks",
  "After a settling time derived from the settings, estimate and lead must lie within what the network leaves unobservable plus 0.6 ticks. The controller model checks readiness, shifts, divergence, direction and bounds of the speed, not its exact formula.",
  observe=["LocalTimeline", "LocalTimelineSync", "Time<Virtual>", "LocalTimelineShift, P2PTimelineDiverged", "RemoteTimeline::current_estimate"],
  rule="random settings, networks and disturbances, and random histories of scripted remote clocks; non-trivial when more than 100 packets were exchanged or a shift happened",
  assume=["frames are at most one tick long where the lead is measured", "inputs count as late only beyond what the configured margins cover"])
IO = "crates/io/"
P("C33", "IO backends carry exactly the queued payloads between exactly the right links",
  "Every payload queued on a linked entity reaches the peer of that link once, unaltered and in order over channels, loopback sockets and sessions; a payload that was handed over stays unaltered however many arrive after it. A UDP server has one link per remote address, makes it when that address first sends, never mixes addresses and lets an address whose link is gone link again. The state of a link, its reason and addresses follow the channel, socket or session, ending a link ends its transport with the same reason, and a stopped endpoint frees its address and can start again.",
  ["inputs", "histories", "faults"], "all payloads; all histories of sends, receives, frames, link starts and ends, despawns, new addresses, sessions and restarts",
  "Tests send three payloads over one link; aliasing of pooled buffers, addresses that come back and sessions that end in every state need histories.",
  [IO+"crossbeam/src/lib.rs", IO+"udp/src/lib.rs", IO+"udp/src/server.rs", IO+"aeronet/src/lib.rs", IO+"aeronet/src/server.rs"],
  [("channels", IO+"crossbeam/src/lib.rs CrossbeamPlugin::send, receive"), ("sockets", IO+"udp/src/lib.rs UdpPlugin"), ("server socket", IO+"udp/src/server.rs ServerUdpPlugin::receive, send"), ("sessions", IO+"aeronet/src/lib.rs AeronetPlugin"), ("server sessions", IO+"aeronet/src/server.rs ServerAeronetPlugin")],
  "model-based property testing: generated histories against queues, real loopback sockets and fake sessions",
  "WebSocket, WebTransport and Steam are reached only through the session bridge; their sockets are not exercised. The kernel must deliver loopback datagrams; a case is retried before it counts.",
  observe=["Link::send, Link::recv", "Linked, Linking, Unlinked", "LocalAddr, PeerAddr", "UDP sockets", "aeronet_io::Session"],
  rule="random histories over up to three links; non-trivial when payloads were delivered (and, for sessions, one ended)",
  assume=["datagrams are at most 1472 bytes", "datagrams that arrive in the frame in which their address is first seen may be dropped"])
P("C34", "Equal registrations give equal protocols; settings and directions are kept",
  "Channel, message and event ids follow registration order, are unique and translate both ways; registering a type again changes nothing but adds directions. A channel keeps its registered settings, and a side gets senders and receivers for exactly the directions registered. With equal registrations everything sent on a permitted channel arrives as the type and value it was. Protocol hashes are stable, equal for equal registrations and different when the kinds, their order or a channel's timeline differ.",
  ["inputs", "configurations"], "all sequences of channel, message and event registrations, with every mode, setting, timeline, direction, serialiser and repetition; all messages",
  "Tests register a few types in one order; ids, directions and hashes depend on the whole sequence on both sides.",
  [T+"channel/registry.rs", T+"client.rs", T+"server.rs", "crates/transport/messages/src/registry.rs", "crates/transport/messages/src/client.rs", "crates/transport/messages/src/server.rs", "crates/core/utils/src/registry.rs"],
  [("channels", T+"channel/registry.rs ChannelRegistry::add_channel, finish"), ("messages", "crates/transport/messages/src/registry.rs MessageRegistry"), ("directions", T+"client.rs, server.rs TransportPlugin; ChannelRegistration::add_direction"), ("ids", "crates/core/utils/src/registry.rs TypeMapper")],
  "model-based property testing: generated registration sequences on two apps against a list",
  "Nothing that builds here compares the hashes of two peers; they are checked as values.",
  observe=["ChannelRegistry", "MessageRegistry", "Transport senders and receivers", "MessageSender, EventSender components", "received messages and events"],
  rule="random registration sequences, equal or with one edit between the sides; non-trivial when they differ or a message was delivered",
  assume=["messages that share a sequenced channel may replace each other, so one is sent on each"])
P("C37", "Input delay and the prediction window cover the latency exactly as configured",
  "The input delay is never below the configured minimum, never adds delay beyond the latency, keeps to its limit while prediction covers the rest, and together with the permitted prediction always covers the round trip with its jitter margin; it grows with latency, and peers sharing an input stream use the largest. The prediction window never lets the simulation run further ahead of confirmed input than permitted, resumes with hysteresis, and never waits when there is nothing to wait for.",
  ["inputs", "histories"], "all configurations, round trips and jitters; all histories of confirmations",
  "Tests check three latencies of one configuration and one wait; the arithmetic has borders for every configuration, up to the largest windows.",
  [SY+"timeline/input.rs"],
  [("input delay", SY+"timeline/input.rs InputDelayConfig::input_delay_ticks"), ("all links", SY+"timeline/input.rs LocalTimelineSync::recompute_input_delay"), ("window", SY+"timeline/input.rs PredictionWindowWait::update")],
  "property-based testing of the documented inequalities, and model-based testing of the window over generated histories",
  "The inequalities are those of the documentation; between them several delays may be right. Delays beyond 65535 ticks saturate.",
  observe=["LocalTimelineSync::input_delay", "PredictionWindowWait"],
  rule="random configurations and links, and random confirmation histories; non-trivial when a delay was needed or the window closed",
  assume=["the configured minimum is at most the limit before prediction (asserted by the code)"])
IN = "crates/inputs/inputs/src/"
P("C38", "The input buffer and the sequences built from it keep every tick's input",
  "An input buffer returns for each tick the value set for it, or the last value before it where none was set, whatever setting, clearing, extending, clipping and popping came before, from tick 0 on and over gaps of any length. A sequence built from it says exactly what was recorded for its ticks. Applied to another buffer it yields those values, keeps earlier ticks, discards predictions that disagree, and reports the first tick that was predicted wrongly; a sequence with nothing newer changes nothing.",
  ["inputs", "histories"], "all histories of operations; all sequences, overlaps, gaps, losses and reorderings of them",
  "Tests set a handful of consecutive ticks; compressed repeats, ticks before the buffer, gaps and late sequences need histories.",
  [IN+"input_buffer.rs", IN+"input_message.rs", "crates/inputs/inputs_native/src/input_message.rs"],
  [("buffer", IN+"input_buffer.rs InputBuffer"), ("merge", IN+"input_message.rs ActionStateSequence::update_buffer"), ("sequence", "crates/inputs/inputs_native/src/input_message.rs NativeStateSequence")],
  "model-based property testing: generated histories against a map from tick to value",
  "Inputs do not decay (the default). The crates are built from /repo's sources with thin manifests, because their own dependencies are not available offline.",
  observe=["InputBuffer::{get,get_raw,get_last,pop,end_tick}", "NativeStateSequence", "last_remote_tick"],
  rule="random histories; non-trivial when values were popped, clipped or extended over, or a sequence was merged",
  assume=["gaps longer than a sequence stay filled with the last value known before them"])
P("C39", "Inputs reach the simulation of their tick whatever the network does",
  "The server simulates every tick with the input the player gave for that tick if a message with it arrived in time, and otherwise repeats the last known one, under any loss, duplication, delay and reordering, redundancy and input delay. The player's own simulation uses its delayed input. Rebroadcast inputs give other clients the same values. Messages outside the accepted window of ticks, and inputs for entities their sender does not control where that is validated, have no effect.",
  ["inputs", "histories", "schedules", "faults"], "all input histories, frame schedules, leads, delays, redundancies, network faults and message orders",
  "Tests send each input in its own frame over a perfect link; late, lost and reordered messages against buffers that are consumed meanwhile need schedules.",
  [IN+"client.rs", IN+"server.rs", IN+"input_message.rs", IN+"input_buffer.rs"],
  [("sending", IN+"client.rs prepare_input_message, buffer_action_state, get_action_state"), ("receiving", IN+"server.rs receive_input_message, update_action_state"), ("remote players", IN+"client.rs receive_remote_player_input_messages"), ("validation", IN+"server.rs authorize_controlled_targets")],
  "model-based simulation: two client apps and a server app over a simulated network against a map of inputs per tick",
  "Native inputs over the real message, transport, sync and prediction plugins; the clients' lead is fixed and bevy_replicon is replaced by a stub, so entity maps are made by the harness. The crates are built from /repo's sources with thin manifests.",
  observe=["ActionState at FixedUpdate of each tick on all apps", "InputBuffer of remote players"],
  rule="random schedules and networks; non-trivial when the server had an input in time",
  assume=["inputs older than the redundancy that arrive after newer ones may stay repeats", "of several messages in one packet any may be read first"])
PRD = "crates/replication/prediction/src/"
P("C40", "Prediction rolls back exactly when needed and replays what happened",
  "When the server's state for a completed tick differs from what a client predicted for that tick, the client rolls back to it, within its limits; after the rollback every predicted entity has the state that follows from the server's state at that tick, later confirmed values and the simulation's steps, for networked and local components, whatever order and loss the updates had. Where the prediction was right nothing is rolled back and nothing changes. Forced and input rollbacks go to the tick they name. Replays see the time of the tick replayed, and end at the current tick.",
  ["inputs", "histories", "schedules", "faults"], "all simulations, server changes, splits, losses, delays and orders of updates, frame schedules, leads, limits and rollback modes",
  "Tests insert one confirmed value on an ideal link; partial, late and reordered updates over several components and entities need histories.",
  [PRD+"rollback.rs", PRD+"predicted_history.rs", PRD+"registry.rs", PRD+"manager.rs"],
  [("check", PRD+"rollback.rs check_rollback"), ("restore", PRD+"rollback.rs prepare_rollback"), ("replay", PRD+"rollback.rs run_rollback"), ("histories", PRD+"predicted_history.rs"), ("compare", PRD+"registry.rs check_rollback_for_unchanged_component")],
  "model-based simulation: a client app against a native model of the server, its messages and the replay, over generated schedules and faults",
  "The real prediction, replication receive and timeline plugins run; bevy_replicon is replaced by a stub, and the harness writes what its client would have written. The lead over the server is fixed. Visual correction and resimulated despawns are not covered. One rule of replay is a known finding.",
  observe=["components before and after PredictionSystems::Rollback", "PredictionMetrics", "Time in FixedLast of live and replayed ticks"],
  rule="random schedules, changes and faults; non-trivial when a rollback happened",
  assume=["the simulation is deterministic", "components a client has not simulated yet at the completed tick are not compared"])
RC = "crates/connection/raw_connection/src/"
P("C41", "A raw connection begins and ends with its link",
  "Where the link is the connection (RawClient, RawServer): a client is Connected exactly while its link is Linked, a server Started exactly while it is linked, and each ends up Disconnected (with the link's reason) or Stopped, with no other state left, however the link ended. A raw server's client entities carry their peer's address as id, are in the peer map while connected, are disconnected before they go, and go with their own server only. Disconnecting or stopping also ends an attempt under way, and both can start again.",
  ["histories"], "all histories of connecting, linking, failing, unlinking, disconnecting, stopping, despawning and restarting over several servers and clients",
  "Tests link one client and stop one server that never started; stopping while linked or starting, restarts and several servers are histories.",
  [RC+"client.rs", RC+"server.rs"],
  [("client side", RC+"client.rs RawConnectionPlugin"), ("server side", RC+"server.rs RawConnectionPlugin::on_stop")],
  "model-based property testing of raw clients and servers over a scripted transport",
  "Histories of up to 60 operations on up to 8 servers, server-side clients and clients; markers, ids, the peer map and the number of connections and disconnections seen by observers are compared with a model after every operation.",
  observe=["Connected/Disconnected/Started/Stopped markers", "LocalId, RemoteId, peer map", "observers of the markers"],
  rule="random histories; non-trivial when something connected or started",
  assume=["the transport marks links as linked and unlinked like lightyear's own transports"])
IPD = "crates/replication/interpolation/src/"
P("C42", "Interpolated components blend the confirmed samples around the presentation time",
  "At the presentation time, an interpolated component is the blend, by the rule that applies to its entity, of the confirmed value before that time and the one after, in proportion to the time between them; it holds the last value when nothing newer is known or a removal follows, and never goes beyond it. It is absent before its first sample and from the tick of its removal on. A despawn takes effect when the presentation time reaches it. The order and loss of updates change only what is known.",
  ["inputs", "histories", "schedules", "faults"], "all histories of changes, removals and despawns, splits, losses, delays and orders of updates, and advances of the presentation time",
  "Tests sample a hand-made history with two or three points; late samples between others, removals and reinsertions, and confirmations of unchanged values meet only in histories.",
  [IPD+"interpolate.rs", IPD+"registry.rs", IPD+"despawn.rs", IPD+"rules.rs"],
  [("histories and presence", IPD+"interpolate.rs update_interpolation_history"), ("sampling", IPD+"registry.rs sample_history_with_interpolation"), ("despawns", IPD+"despawn.rs"), ("rule selection", IPD+"archetypes.rs")],
  "model-based simulation: a client app against a model of what it was told, over generated schedules and faults",
  "The real interpolation and replication receive plugins run over the stub of bevy_replicon; the harness sets the presentation time. Values do not return to earlier ones (see C06's finding). Diff-based components, bundle rules and the synchronisation of the presentation timeline are not covered.",
  observe=["components after Update", "entities"],
  rule="random schedules, changes and faults; non-trivial when a value between two different samples was shown")
