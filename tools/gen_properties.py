#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only because JSON lines are unreadable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "src/mqtt_serde/"
C = "src/mqtt_client/"

p("C01", "Variable byte integers are encoded minimally and decode back",
  "Every integer from 0 to 268435455 is encoded as a Variable Byte Integer in the fewest bytes MQTT allows (1 to 4) and decoding those bytes, whatever follows them, returns the same integer and exactly that length. For any other byte sequence the decoder asks for more bytes when the encoding is cut short, rejects a fourth byte with the continuation bit and (in strict mode) any non-minimal encoding, and never panics.",
  ["inputs"], "All 2^28 values and every byte sequence offered to the decoder.",
  "Unit tests sample a dozen values at length boundaries; round trip and rejection are claims over 2^28 integers and all byte prefixes.",
  [S+"base_data.rs", S+"mod.rs"], [("VariableByteInteger::encode / decode", S+"base_data.rs")],
  ["VariableByteInteger::encode", "VariableByteInteger::decode", "MqttPacket::to_bytes length fields"])

p("C02", "Fixed-width, binary and text wire fields decode back to what was encoded",
  "Two- and four-byte integers are big-endian; a length-prefixed binary or UTF-8 field of at most 65535 bytes is its two-byte length followed by its bytes, and decoding it, with any bytes after it, returns the original value and the exact number of bytes used. Decoding returns an error, never a panic or an out-of-range read, when the buffer is shorter than the field, and text that is not valid UTF-8 is refused.",
  ["inputs"], "All u16/u32 values, all byte strings and texts up to 65535 bytes, all buffers (truncated, extended, not UTF-8).",
  "Tests use a few literal strings; truncation at every offset, the 65535 boundary and arbitrary invalid UTF-8 are not sampled.",
  [S+"base_data.rs", S+"mod.rs"], [("TwoByteInteger, FourByteInteger, BinaryData, Utf8String, Utf8StringPair", S+"base_data.rs")],
  ["encode/decode of each field type"])

p("C03", "MQTT 5 properties survive the wire, with identifiers and types of the standard",
  "For every one of the 27 MQTT 5 properties and every value its wire type can carry, the encoded form is the standard's identifier byte followed by the value in the standard's type, and decoding a property section returns the same properties in the same order and consumes exactly the section. An unknown identifier, a value cut short by the end of the section or a section longer than the buffer is an error; text or binary too long for the wire and text the strict mode forbids is refused when encoding.",
  ["inputs"], "All property values, all lists of properties, all byte strings offered as a property section.",
  "The suite encodes selected properties with fixed values; identifier/type agreement over all 27 kinds, arbitrary order and arbitrary truncated sections are outside its reach.",
  [S+"mqttv5/common/properties.rs"], [("Property::encode, parse_property, parse_properties(_hdr), encode_properities_hdr", S+"mqttv5/common/properties.rs")],
  ["bytes of the property section", "decoded Vec<Property>"])

p("C04", "MQTT 5 packets decode back to exactly the packet that was encoded",
  "For every well-formed MQTT 5 packet of each of the fifteen types, encoding succeeds and decoding the bytes under version 5 returns an equal packet and reports exactly the encoded length; the first byte carries the standard's type code and flags and the remaining length is the number of bytes that follow. A packet holding a text or binary field that does not fit the wire is refused by the encoder instead of being written in a damaged form.",
  ["inputs"], "All packet values (all flag combinations, identifiers, reason codes, property lists, payloads) of all fifteen MQTT 5 packet types.",
  "Per-type tests cover a few hand-built packets; field combinations, boundary lengths (127/128, 16383/16384 remaining length, 65535-byte strings) and over-long fields are not enumerated.",
  [S+"control_packet.rs", S+"mqttv5/"], [("MqttControlPacket::to_bytes / from_bytes per packet type", S+"mqttv5/*.rs"), ("MqttPacket::to_bytes / from_bytes_with_version", S+"control_packet.rs")],
  ["MqttPacket::to_bytes", "MqttPacket::from_bytes_with_version(_, 5)"])

p("C05", "MQTT 3.1.1 packets decode back to exactly the packet that was encoded",
  "For every well-formed MQTT 3.1.1 packet of each of the fourteen types, encoding succeeds and decoding the bytes under version 3.1.1 returns an equal packet and reports exactly the encoded length; the first byte carries the standard's type code and flags and the remaining length is the number of bytes that follow. A packet holding a text or binary field that does not fit the wire is refused by the encoder instead of being written in a damaged form.",
  ["inputs"], "All packet values of all fourteen MQTT 3.1.1 packet types.",
  "Per-type tests cover a few hand-built packets; combinations of optional CONNECT fields, boundary lengths and over-long fields are not enumerated.",
  [S+"control_packet.rs", S+"mqttv3/"], [("MqttControlPacket::to_bytes / from_bytes per packet type", S+"mqttv3/*.rs")],
  ["MqttPacket::to_bytes", "MqttPacket::from_bytes_with_version(_, 4)"])

p("C06", "Decoding arbitrary bytes never panics and never looks past the frame",
  "Whatever bytes arrive and whichever protocol version is selected, decoding a packet terminates with a packet, an error or a request for more bytes, without panicking. When it yields a packet it reports exactly the length of the first frame (fixed header plus remaining length), and the packet is the one obtained from that frame alone: bytes after the frame change nothing.",
  ["inputs"], "Every byte string and every protocol version 3, 4 and 5.",
  "A fuzz target exists but is not run by the tests; the tests decode well-formed buffers holding one packet, so reads beyond the frame and arithmetic on hostile lengths are not exercised.",
  [S+"control_packet.rs", S+"mqttv3/", S+"mqttv5/", S+"parser/mod.rs"], [("MqttPacket::from_bytes_with_version and the per-type from_bytes", S), ("parse_remaining_length, parse_packet_id and the other bounded readers", S+"parser/mod.rs")],
  ["MqttPacket::from_bytes_with_version"])

p("C07", "The packet stream does not depend on how the bytes were chunked",
  "Feeding a byte stream to the stream parser in any division into chunks yields the same sequence of packets as feeding it at once, in order, with nothing lost or repeated; while a packet is incomplete (even cut inside its fixed header) the parser waits without reporting an error and without discarding bytes. The same holds for the protocol engine fed through its incoming-bytes entry point.",
  ["inputs", "schedules"], "Every concatenation of packets, every partition of its bytes into chunks, protocol versions 3.1.1 and 5.",
  "Tests split streams at one or two hand-picked points; the property is about all 2^(n-1) partitions.",
  [S+"parser/stream.rs", S+"parser/leveled.rs", C+"engine.rs"], [("MqttParser::feed / next_packet", S+"parser/stream.rs"), ("packet_frame_len", S+"parser/leveled.rs"), ("MqttEngine::handle_incoming", C+"engine.rs")],
  ["MqttParser::next_packet", "events of MqttEngine::handle_incoming"])

p("C08", "All parse levels see the same frames and agree on header fields",
  "For every byte stream the type-only, raw-body, headers and full parse levels delimit the same frames: each consumes exactly the bytes the full parse consumes and the body reported by the raw level is the frame's body. Whenever the full parse of a frame succeeds, the packet type and every header field reported by the cheaper levels (packet identifier, topic, QoS, retain, dup, reason codes, CONNECT fields) equal those of the full packet.",
  ["inputs"], "Every frame accepted by the full parser, in both protocol versions, followed by arbitrary bytes, at each of the four levels.",
  "Tests compare levels on a handful of fixed packets per type.",
  [S+"parser/leveled.rs", S+"parser/stream.rs"], [("parse_type_only, parse_raw_body, parse_headers_only, packet_frame_len", S+"parser/leveled.rs"), ("MqttParser::next_parsed", S+"parser/stream.rs")],
  ["ParsedPacket at each ParseLevel"])

p("C09", "Strict mode rejects every malformed packet its compliance list names",
  "With strict protocol compliance (the default) decoding refuses an MQTT 5 packet that has a forbidden fixed-header flag (PUBREL, SUBSCRIBE, UNSUBSCRIBE, PINGREQ, PINGRESP, DISCONNECT, AUTH), a PUBLISH with QoS 3, DUP at QoS 0 or a wildcard in its topic, a zero identifier or empty payload in SUBSCRIBE, SUBACK, UNSUBSCRIBE or UNSUBACK, reserved subscription-option, CONNACK or CONNECT flag bits, inconsistent Will flags, or a PINGREQ/PINGRESP with a body. It accepts the corresponding packet without the defect.",
  ["inputs"], "Every packet obtained from a valid one by setting any of the named bits or fields, for all values of the remaining fields.",
  "Tests exercise one example per rule; the rule must hold for every value of the other bits and fields.",
  [S+"mqttv5/", "docs/PROTOCOL_COMPLIANCE.md"], [("cfg(feature = \"strict-protocol-compliance\") checks in from_bytes", S+"mqttv5/*.rs")],
  ["MqttPacket::from_bytes_with_version(_, 5)"])

p("C10", "Topic filters are accepted exactly when the MQTT grammar allows them",
  "An MQTT 5 SUBSCRIBE topic filter is accepted when decoding exactly when it is not empty, '#' appears only as the whole last level, and '+' only as a whole level. A filter starting with \"$share/\" is accepted only in the form \"$share/<name>/<filter>\" with a non-empty name free of wildcards and a non-empty valid filter, and never with the No Local option.",
  ["inputs"], "All texts of up to 65535 bytes as topic filters, with all subscription options.",
  "Tests list some good and bad filters; the claim is an equivalence over all texts.",
  [S+"mod.rs", S+"mqttv5/subscribe.rs"], [("validate_topic_filter, validate_shared_subscription", S+"mod.rs"), ("TopicSubscription decoding", S+"mqttv5/subscribe.rs")],
  ["MqttSubscribe::from_bytes"])

p("C11", "Encoders never emit text MQTT forbids",
  "In strict mode no packet encoder of either protocol version writes a text field that contains U+0000, starts with U+FEFF or is longer than 65535 bytes: encoding such a packet returns an error. Every other text is written unchanged.",
  ["inputs"], "Every text in every text field of every packet type of both versions.",
  "Tests check the validator on a few strings and a few MQTT 5 fields; whether every field of every packet goes through it is not tested.",
  [S+"mod.rs", S+"mqttv3/", S+"mqttv5/"], [("encode_utf8_string, validate_mqtt_utf8_string", S+"mod.rs")],
  ["MqttPacket::to_bytes"])

p("C12", "The priority queue is a bounded stable priority queue",
  "The queue never holds more than its capacity; removing yields the highest priority present and, within a priority, the oldest element; peeking shows exactly the element removal would return. Inserting into a full queue evicts exactly one element, the oldest of the lowest priority present after the insertion, and no other operation loses, duplicates or reorders elements; saving and loading preserves contents and order.",
  ["histories", "inputs"], "Every sequence of operations, all priorities, all capacities including zero.",
  "Tests run short fixed scripts; the claim is over all operation histories.",
  ["src/priority_queue.rs"], [("enqueue / dequeue / peek / drop_lowest_priority / len", "src/priority_queue.rs")],
  ["PriorityQueue public methods"], [("map", "priority -> FIFO of elements", "src/priority_queue.rs"), ("size", "number of elements", "src/priority_queue.rs")])

p("C13", "Inflight publishes never exceed the peer's receive maximum and slots never leak",
  "At every moment the number of QoS 1/2 exchanges that are neither acknowledged by PUBACK nor completed by PUBCOMP (or a failing PUBREC) equals the number counted against the window, and no PUBLISH is admitted while that number has reached the receive maximum then in force; a receive maximum of zero means 65535. Exactly the acknowledged packet leaves the queue and frees its slot; an acknowledgement for an unknown identifier changes nothing, and clearing frees everything.",
  ["histories", "inputs"], "Every history of pushes, acknowledgements, timeouts, receive-maximum updates and clears.",
  "Tests fill windows of one or two entries; leaks and off-by-one errors need longer histories mixing packet kinds.",
  [C+"inflight.rs", C+"engine.rs"], [("InflightQueue push/acknowledge/can_push_publish/update_receive_maximum/clear", C+"inflight.rs"), ("MqttEngine::process_queue, publish_encoded", C+"engine.rs")],
  ["InflightQueue", "bytes produced by MqttEngine"], [("publish_count", "PUBLISH packets in the window", C+"inflight.rs"), ("entries", "unacknowledged packets", C+"inflight.rs")])

p("C14", "Retransmission happens only for unacknowledged MQTT 3 packets past the timeout",
  "On an MQTT 5 connection nothing is ever retransmitted on a timer. On MQTT 3.1.1 every packet still unacknowledged when its timeout has passed since it was last sent is retransmitted exactly once per expiry on the channel it was first sent on, a PUBLISH with the DUP flag set and otherwise unchanged; acknowledged packets and packets whose timeout has not passed never are. Retransmissions leave in the order in which they fell due, the retransmission call always terminates, and the announced next expiry is never later than the earliest packet due.",
  ["histories", "schedules"], "Every history of sends, acknowledgements and clock readings, for all timeouts and both versions.",
  "Tests advance a clock over one or two entries; the deadline queue holds stale entries whose interleavings are not enumerated.",
  [C+"inflight.rs", C+"engine.rs"], [("get_expired_with_stream, next_expiration", C+"inflight.rs"), ("handle_retransmissions", C+"engine.rs")],
  ["get_expired_with_stream", "MqttEngine::handle_tick + take_outgoing / take_stream_retransmissions"])

p("C15", "Allocated packet identifiers are never zero and cycle through all 65535 values",
  "Each identifier the client session or the engine allocates is between 1 and 65535, is the successor of the previous one, and 65535 is followed by 1, so no identifier repeats within 65535 consecutive allocations.",
  ["histories"], "Every number of allocations from every reachable counter state.",
  "Tests look at the first few identifiers and one wrap.",
  ["src/mqtt_session/client_session.rs", C+"engine.rs"], [("ClientSession::next_packet_id", "src/mqtt_session/client_session.rs"), ("MqttEngine::next_packet_id", C+"engine.rs")],
  ["next_packet_id"], [("packet_id_counter", "last identifier handed out", "src/mqtt_session/client_session.rs")])

p("C16", "Incoming packets get exactly the acknowledgement the protocol prescribes",
  "With automatic acknowledgement every incoming PUBLISH is delivered once with its topic, payload, QoS and flags unchanged and answered by exactly PUBACK (QoS 1), PUBREC (QoS 2) or nothing (QoS 0) with the same identifier, every PUBREL by PUBCOMP, and, of our own QoS 2 publishes, every successful PUBREC by PUBREL; without automatic acknowledgement an incoming PUBLISH or PUBREL is answered by nothing. A PUBREC reporting failure ends the exchange: it is reported to the application and no PUBREL is sent. Answers go out in the order of the packets they answer and in the version of the connection.",
  ["histories", "inputs"], "Every sequence of incoming packets of both versions, in every inflight state, whatever the fill of the outgoing buffer.",
  "Tests follow single happy-path exchanges; interleaved exchanges, failing reason codes and duplicate packets are not covered.",
  [C+"engine.rs"], [("MqttEngine::handle_packet, ingest_stream_packet", C+"engine.rs")],
  ["events and outgoing bytes of MqttEngine"])

p("C17", "Only operations that were acknowledged are reported complete, once each",
  "A QoS 1 publish is reported complete exactly when its PUBACK arrives and a QoS 2 publish exactly when its PUBCOMP (or a failing PUBREC) arrives, with the identifier and reason code received; an acknowledgement whose identifier is not in flight is not reported as a publish completion and repeated acknowledgements report nothing more. SUBACK and UNSUBACK are reported with their identifier and reason codes, and after completion the identifier no longer counts as in flight.",
  ["histories"], "Every interleaving of application publishes, subscribes and broker acknowledgements of the kind that belongs to the exchange, including duplicates and unknown identifiers.",
  "Tests send one acknowledgement per operation.",
  [C+"engine.rs", C+"inflight.rs"], [("MqttEngine::handle_packet", C+"engine.rs"), ("InflightQueue::acknowledge", C+"inflight.rs")],
  ["MqttEvent::Published / Subscribed / Unsubscribed"])

p("C18", "Reconnect delays follow capped exponential backoff and stop at the limit",
  "The n-th consecutive reconnect attempt (counting from zero) is scheduled exactly min(base * 2^min(n,10), max) after the moment of scheduling, is announced once with its number and delay, and asks for reconnection once when due and never earlier; with an attempt limit of k > 0, no attempt is scheduled after k. A successful CONNACK resets the sequence; no configuration makes the computation overflow or panic.",
  ["histories", "configurations"], "All base, maximum and limit settings, all attempt counts and clock readings.",
  "Tests use small settings; 64-bit extremes and long failure sequences are not run.",
  [C+"engine.rs"], [("MqttEngine::schedule_reconnect, handle_tick, reset_reconnect_state", C+"engine.rs")],
  ["MqttEvent::ReconnectScheduled / ReconnectNeeded", "next_tick_at"], [("reconnect_attempts", "attempts since last success", C+"engine.rs")])

p("C19", "Keep-alive pings and timeouts fire exactly when due and wake-ups cover them",
  "While connected with a keep-alive of k > 0 and automatic keep-alive on, a tick sends one PINGREQ exactly when nothing was sent for at least k (packets resent at session resumption aside), no PINGREQ is unanswered and the outgoing buffer has room, and declares the connection lost exactly when a PINGREQ has been unanswered for at least k times the configured multiplier; with k = 0 neither ever happens. The announced next wake-up is never later than the first moment at which a tick would act, and a tick before it does nothing.",
  ["schedules", "histories", "configurations"], "All keep-alive settings, all sequences of sends, receipts and clock readings.",
  "Tests use real sleeps with one setting; the relation between the wake-up time and the tick's behaviour is not tested over schedules.",
  [C+"engine.rs"], [("MqttEngine::handle_tick, next_tick_at, send_ping_at", C+"engine.rs")],
  ["outgoing PINGREQ", "MqttEvent::ReconnectNeeded", "next_tick_at"], [("ping_sent_at", "unanswered PINGREQ", C+"engine.rs"), ("last_packet_sent", "last outgoing packet", C+"engine.rs")])

p("C20", "Outgoing buffers are bounded and queued publishes leave in priority order",
  "Application calls and queue processing never raise the number of packets waiting for the transport above the configured limit: a direct call is refused with a buffer-full error and changes nothing on the wire, and publishes stay queued. Queued publishes leave in priority order and first-in first-out within a priority, each exactly once and unchanged, as soon as the connection is up and both the buffer and the receive-maximum window have room; nothing is sent from the queue while disconnected.",
  ["histories", "configurations"], "Every history of publishes with all priorities and QoS levels, drains of the outgoing buffer, acknowledgements, connects and disconnects, for all limits.",
  "Tests use limits of one or two and a single priority.",
  [C+"engine.rs", "src/priority_queue.rs"], [("MqttEngine::enqueue_packet, process_queue, publish", C+"engine.rs")],
  ["MqttEngine::take_outgoing", "errors of publish/subscribe/unsubscribe"])

p("C21", "Session resumption resends exactly the unacknowledged packets",
  "When a successful CONNACK reports a resumed session, every packet still unacknowledged is sent again exactly once in the order first sent, each PUBLISH with DUP set and otherwise unchanged and each QoS 2 exchange past PUBREC as PUBREL; when the session is not resumed nothing is resent. Resetting the transport discards bytes queued for the old connection and partial input but keeps unacknowledged packets.",
  ["histories", "crash_points"], "Every history of publishes and acknowledgements before the loss of the connection, at every point of loss, both versions.",
  "Tests resume with one pending publish.",
  [C+"engine.rs", C+"inflight.rs"], [("MqttEngine::handle_packet (CONNACK), reset_for_new_transport", C+"engine.rs"), ("InflightQueue::get_all_for_reconnect", C+"inflight.rs")],
  ["MqttEngine::take_outgoing after CONNACK"])

p("C22", "The client session remembers exactly what must be resent",
  "A session's resend list is exactly the QoS 1/2 publishes recorded as sent and not yet acknowledged (PUBACK for QoS 1, PUBREC for QoS 2) and the PUBRELs recorded as sent and not yet confirmed by PUBCOMP, each once, where a PUBREL supersedes the publish with the same identifier. QoS 0 publishes are never kept, an identifier already pending is not overwritten, the answers to incoming PUBLISH, PUBREC and PUBREL are those the protocol prescribes, and clearing empties the session.",
  ["histories"], "Every history of session operations over all packet identifiers and QoS levels.",
  "Tests walk through single exchanges.",
  ["src/mqtt_session/client_session.rs"], [("ClientSession handle_* and resend_pending_messages", "src/mqtt_session/client_session.rs")],
  ["ClientSession public methods"])

p("C23", "The server session queues, orders and limits deliveries to the client",
  "A server session keeps one subscription per topic filter (the latest) until it is unsubscribed, queues an incoming publish once per subscription, and hands out queued publishes in the order they arrived, each exactly once, never more messages in one batch than the client's receive maximum leaves room for. Unacknowledged publishes and PUBRELs are dropped exactly when acknowledged, and the number of messages considered in flight never exceeds the receive maximum nor goes below zero.",
  ["histories"], "Every history of subscriptions, publishes, acknowledgements and resend batches, for every receive maximum.",
  "Tests use one or two pending messages, which hides ordering and skipping.",
  ["src/mqtt_session/server_session.rs"], [("ServerSession handle_* and resend_pending_messages", "src/mqtt_session/server_session.rs")],
  ["ServerSession public methods"])

p("C24", "Results and errors are classified by reason code exactly as documented",
  "A connection succeeds exactly with reason code 0; a subscription result succeeds exactly when every code is a granted QoS (0, 1 or 2) and counts exactly those; an unsubscription succeeds exactly when every code is 0 or 17; a publish succeeds exactly when there is no code or it is below 0x80; authentication is success, continue or re-authenticate exactly for 0x00, 0x18 and 0x19. No error is both fatal and recoverable, errors that call for reconnection are recoverable, and exactly the authentication failures and refusals 0x86, 0x87 and 0x8C are authentication errors.",
  ["inputs"], "All 256 reason codes, all lists of reason codes, all error values.",
  "Tests check a few codes.",
  [C+"client.rs", C+"error.rs"], [("is_success and its kin", C+"client.rs"), ("is_recoverable, should_reconnect, is_fatal, is_auth_error", C+"error.rs")],
  ["public predicates"])

p("C25", "Commands turn into packets without losing or inventing anything",
  "A publish, subscribe or unsubscribe command becomes, in the connection's protocol version, one packet carrying exactly the command's topic(s), payload, QoS, retain and dup flags, options, properties (version 5) and identifier; a QoS 0 publish carries no identifier on the wire and a QoS 1/2 publish the identifier returned to the caller. The CONNECT packet carries the configured client identifier, keep-alive, clean-start flag, credentials and Will, and builder setters change only the field they name.",
  ["inputs", "configurations"], "All commands, all option values, both protocol versions.",
  "Tests inspect individual fields of hand-built commands.",
  [C+"commands.rs", C+"opts.rs", C+"engine.rs"], [("to_mqtt_publish / to_mqttv3_publish and the command builders", C+"commands.rs"), ("MqttEngine::publish, subscribe, unsubscribe, connect", C+"engine.rs")],
  ["decoded outgoing bytes of MqttEngine"])

p("C26", "Acknowledgements and retransmissions stay on the stream of their exchange",
  "When packets are exchanged over several logical streams, the answer to a packet is returned for the stream the packet arrived on and never placed in the shared output, and a timed retransmission is routed to the stream the packet was sent on, or to the shared output exactly when it was not sent on a stream. Packet identifiers, the receive-maximum window and completion events are shared by all streams.",
  ["histories", "inputs"], "Every interleaving of publishes and subscribes on any set of streams with incoming packets on any streams.",
  "Tests use two streams and one exchange.",
  [C+"engine.rs", C+"inflight.rs"], [("publish_encoded, subscribe_encoded, ingest_stream_packet, handle_retransmissions", C+"engine.rs")],
  ["returned bytes, take_outgoing, take_stream_retransmissions"])

p("C27", "MQTT to protobuf conversion and back loses nothing",
  "For every MQTT packet of either version that the gRPC bridge supports, converting it to its protobuf message and back yields an equal packet, up to the documented encoding of absent fields (no identifier as 0, no credentials as empty) and of boolean-valued properties.",
  ["inputs"], "All packets of both versions with all property kinds.",
  "Tests convert a few example packets.",
  ["mqtt_grpc_duality/src/lib.rs"], [("From/TryFrom conversions", "mqtt_grpc_duality/src/lib.rs")],
  ["conversion functions"])

p("C28", "Concurrent use of the Tokio client loses no command and no response",
  "However many tasks use an asynchronous client concurrently and wherever the network fails, every command is either carried out once or reported failed, each waiter receives the response to its own operation, and no waiter hangs past its timeout.",
  ["schedules", "fault_sequences", "crash_points"], "All task interleavings, all network failures.",
  "Tests run one schedule per execution.",
  [C+"tokio_async_client.rs", C+"async_client.rs"], [("worker task, pending-operation maps and timeouts", C+"tokio_async_client.rs")],
  ["public async methods"])

p("C29", "QUIC 0-RTT early data is replayed exactly when rejected, on replacement streams",
  "If the peer rejects early data and replay is enabled, exactly the early bytes are sent again as ordinary data, in order and once, on streams standing for the original ones; if early data is accepted or replay is disabled nothing is replayed.",
  ["histories", "fault_sequences"], "All sequences of early commands and handshake outcomes.",
  "Needs a live QUIC peer; tests cover the happy path.",
  [C+"engine.rs"], [("EarlyStreamJournal and zero_rtt handling of QuicMqttEngine", C+"engine.rs")],
  ["QUIC streams"])

p("C30", "The C/Swift/Kotlin bindings never expose freed or misread memory",
  "Every sequence of calls through the foreign-function interface that respects the documented ownership rules is free of undefined behaviour and gives the same results as the Rust engine.",
  ["programs", "histories"], "All call sequences by foreign code.",
  "Rust tests cannot enumerate foreign callers.",
  ["flowsdk_ffi/src/engine.rs", "flowsdk_ffi/src/lib.rs"], [("UniFFI-exported objects", "flowsdk_ffi/src/engine.rs")],
  ["exported functions"])

p("C31", "The TLS engine carries the MQTT byte streams unchanged",
  "What the server's TLS stream decrypts to, however the socket data is cut and however much arrives at once, reaches the MQTT engine exactly once, in order and no later than the next tick, and the MQTT engine's output is handed to TLS completely, once and in order whatever its size, until the TLS session fails. Commands, connection state and events are those of the MQTT engine: a command has the effect and the result it has there, and each tick reports every event of the bytes fed and of the tick, in order and once.",
  ["inputs", "histories"], "Every cutting of the socket data, every amount of data, every order of calls.",
  "The only test creates an engine.",
  [C+"tls_engine.rs"], [("TlsMqttEngine", C+"tls_engine.rs")],
  ["TlsMqttEngine's public methods against a TLS server in memory"])
p("C32", "The foreign-language bindings do and report what the Rust engine does",
  "Every session option given to a binding object reaches its engine unchanged; connecting, publishing, subscribing, unsubscribing and disconnecting give the engine exactly the command of the arguments and return its packet identifier (0 for a QoS 0 publish, -1 if the engine refuses), and bytes pass unchanged in both directions. Every engine event that has a counterpart (all but PublishReceived, PubRelReceived, TransportClosed and ZeroRttStatusChanged) is reported with the same values, in order, and by take_events exactly once; the C getters return the values of the events of a list. next_tick_ms is the engine's next wake-up in whole milliseconds since the object was made, 0 if it has passed, -1 if there is none.",
  ["inputs", "histories"], "Every event, option set, command and order of calls.",
  "The tests map a handful of events; none follows the bytes, options and commands through an object.",
  ["flowsdk_ffi/src/engine.rs", "flowsdk_ffi/src/engine/ffi_types.rs"], [("MqttEngineFFI", "flowsdk_ffi/src/engine.rs"), ("TlsMqttEngineFFI", "flowsdk_ffi/src/engine.rs"), ("QuicMqttEngineFFI", "flowsdk_ffi/src/engine.rs"), ("map_event", "flowsdk_ffi/src/engine.rs")],
  ["The public methods of the three objects and the extern C functions"])
p("C33", "MQTT over QUIC: every packet whole and in order on its own stream",
  "On an established QUIC connection every accepted command's packet is written whole, once and in order on the stream it is for: the one the caller named, the default publish or subscribe stream (each opened once), the stream a message came on for its answers and the stream of the exchange for an MQTT 3.1.1 retransmission; what flow control does not take now is kept and sent later. The bytes of each stream are parsed on their own, so that its messages are reported once and in order whatever arrives on the others. The end of a stream and a graceful close (after DISCONNECT) come only after everything queued before them, while a reset, the peer's refusal or a plain close discards it; a stream that is finished, unknown or full refuses a command and sends none of it. A new connection begins with nothing of the one before it.",
  ["inputs", "histories"], "Every order of calls, every cutting of the bytes, every partial write and every state of the streams.",
  "The tests call the engine without a connection or over the happy path of one.",
  [C+"engine.rs"], [("QuicMqttEngine", C+"engine.rs"), ("QuicStream", C+"engine.rs")],
  ["QuicMqttEngine's public methods against a QUIC server in memory"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    n = x["statement"].count(". ") + 1
    if n > 3: print("sentences", x["id"], n)
print(len(P), "properties")
