#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

ST = "src/transport/stream/transport.rs"; UT = "src/transport/unix/transport.rs"
PE = "src/peer.rs"; RT = "src/request_tracker.rs"; RQ = "src/request.rs"; PH = "src/peer_handle.rs"

prop("P01", "Messages cross a byte stream intact, complete and in order",
 "Messages written to a byte-stream connection (Unix stream or TCP) arrive at the other end as exactly the same sequence of messages: same type, request ID, service ID and body bytes, in the same order, with nothing lost, duplicated, merged or altered. This holds however the operating system splits, shortens or delays the individual reads and writes, for every header byte order and every body length within the limits, including empty bodies.",
 ["schedules", "inputs", "configurations"], "all message sequences up to a bound, all ways of splitting the bytes into partial writes, partial reads and not-ready results",
 "The unit test sends small messages over a local socket pair where every write and read completes in one piece, so partial transfers never occur.",
 ["src/transport/stream/transport.rs", "src/transport/stream/mod.rs"],
 [("resumable write of header and body", ST+" poll_write_msg"), ("resumable read of frame, header and body", ST+" poll_read_msg")],
 ["bytes on the stream", "messages returned by read_msg"], "construct the stream transport halves over an in-memory stream",
 [("bytes_written/bytes_read", "progress inside the current message", ST)])

prop("P02", "Hostile or truncated stream input gives an error, never a panic or message",
 "Whatever bytes arrive on a byte-stream connection, every complete well-formed message before the first defect is delivered unchanged, and the defect (a length smaller than the header, a body longer than the limit, an unknown message type, or the stream ending at any point) is then reported as an error that ends the connection. No input makes the receiver panic, loop, deliver a partial or invented message, or allocate more memory for a message than the configured receive limit.",
 ["inputs", "fault_sequences", "configurations"], "all truncation points and all boundary values of every header field, in every position of a message sequence, for all limits and byte orders, delivered in any pieces",
 "No existing test feeds malformed bytes at all.",
 ["src/transport/stream/transport.rs", "src/message.rs", "src/error.rs", "src/peer.rs"],
 [("frame length check", ST+" poll_read_msg"), ("message type check", "src/message.rs MessageHeader::decode"), ("end of stream detection", ST+" poll_read")],
 ["results of read_msg / recv_message", "allocations"], "construct the stream read half over an in-memory stream")

prop("P03", "Body size limits are exact per direction and refusals are harmless",
 "A body may be sent exactly when its length is at most the configured send limit (and representable in the length field or, for a datagram, transmissible by the operating system), and is accepted on reception exactly when its length is at most the configured receive limit, independently per direction. Sending a larger body fails with an error before any byte of it is transmitted, and the connection remains fully usable. A larger incoming datagram is reported as an error and dropped without harming later messages; a larger incoming stream frame is reported as an error and ends the connection.",
 ["inputs", "configurations"], "all combinations of send and receive limits, and body lengths around each limit, in any order of accepted and refused messages",
 "Existing tests only use the default limits and bodies of a few bytes.",
 ["src/transport/stream/transport.rs", "src/transport/stream/mod.rs", "src/transport/stream/config.rs", "src/transport/unix/transport.rs", "src/transport/unix/mod.rs", "src/transport/unix/config.rs", "src/error.rs"],
 [("payload size check", "src/error.rs check_payload_too_large"), ("limits handed to the halves", "src/transport/*/mod.rs split")],
 ["results of sends", "received messages", "bytes on the wire"])

prop("P04", "Each datagram on a seqpacket connection is exactly one intact message",
 "A message sent over a Unix seqpacket connection arrives as exactly one message with the same type, request ID, service ID, body bytes and order, for every body length within the limits and every sequence of messages of varying length, with no bytes of another message mixed in. A datagram that is too short for a header or has an unknown message type is reported as an error and never delivered as a message, and the end of the connection is reported as an aborted connection.",
 ["inputs", "histories", "configurations"], "all sequences of messages over a set of boundary body lengths and header values, all malformed datagram shapes, all byte orders",
 "The existing test sends one fixed body length of a few bytes with the default configuration.",
 ["src/transport/unix/transport.rs", "src/transport/unix/mod.rs", "src/transport/unix/body.rs"],
 [("one recvmsg per message", UT+" poll_read_msg"), ("one sendmsg per message", UT+" poll_write_msg"), ("buffer resized to actual length", UT)],
 ["results of read_msg", "datagrams on the socket"])

prop("P05", "Attached file descriptors arrive exactly once and never leak",
 "File descriptors attached to a message over a seqpacket connection arrive with that message, each exactly once, in order and referring to the same open file, and the sender's copies are closed once the message is sent or refused. Descriptors of messages that are refused, rejected, never received or dropped are closed too, so no descriptor ever leaks in either process. More descriptors than the configured send or receive limit, than the kernel passes or than the receiving process can still open are refused with an error (never delivered in part) without harming the connection or later messages.",
 ["inputs", "histories", "configurations"], "all descriptor counts from zero to beyond the limits, all limits per direction, all fates of a message (received, dropped unread, refused, malformed, unknown request, connection closed), and exhaustion of descriptors",
 "The existing test passes two descriptors in valid messages only and never counts open descriptors.",
 ["src/transport/unix/transport.rs", "src/transport/unix/body.rs", "src/peer.rs", "src/request_tracker.rs"],
 [("received descriptors wrapped immediately", UT+" poll_read_msg"), ("descriptor limits", UT), ("owned descriptors in the body", "src/transport/unix/body.rs")],
 ["/proc/self/fd", "received message bodies"])

prop("P06", "The message header has one fixed wire format that round-trips",
 "The header is encoded as three 32-bit fields, type (0 request, 1 response, 2 requester update, 3 responder update, 4 stream), request ID and service ID, in the configured byte order, preceded on byte streams by a 32-bit length counting header and body in that same byte order. Decoding returns exactly what was encoded for every type, request ID, service ID and byte order, and every other type value is rejected with an error.",
 ["inputs", "configurations"], "all 2^32 values of each header field, all types, all byte orders",
 "Existing tests sample one or two values of the integer helpers and never look at a whole header or at invalid types.",
 ["src/message.rs", "src/transport/endian.rs", "src/transport/stream/transport.rs", "src/transport/unix/transport.rs"],
 [("encode/decode", "src/message.rs MessageHeader"), ("byte order helpers", "src/transport/endian.rs")],
 ["bytes on the wire", "MessageHeader::encode/decode"])

prop("P07", "Updates and responses reach exactly the request they belong to, in order",
 "Every update and response that arrives for an open request is delivered to that request's handle exactly once, in arrival order, with its contents unchanged, and to no other request, no matter how many requests in both directions are open at once and how their messages interleave. Incoming requests and stream messages are delivered by the peer exactly once in arrival order with their IDs and bodies unchanged, and requests in opposite directions that share an ID never affect each other.",
 ["histories", "schedules"], "all interleavings of requests, updates, responses and stream messages in both directions over a small set of concurrently open requests",
 "Existing tests have one request open at a time and one fixed order of messages.",
 ["src/request_tracker.rs", "src/peer.rs", "src/request.rs"],
 [("lookup by request ID per direction", RT+" process_incoming_*"), ("forwarding to the handle's queue", RT)],
 ["recv_update", "recv_response", "recv_message"], None,
 [("sent_requests / received_requests", "open requests per direction", RT)])

prop("P08", "Concurrently open sent requests never share a request ID",
 "Two requests sent by the same peer that are open at the same time always have different request IDs, both as reported by their handles and on the wire, for any history of requests, responses and failed or abandoned sends, including when the ID counter wraps around. IDs of finished requests become available again; if no free ID is found the send fails with an error and nothing is transmitted.",
 ["histories", "inputs"], "all histories of sends, responses and failures from any counter position, in particular around wrap-around and with long runs of occupied IDs",
 "Reaching the wrap-around takes four billion requests; the tests send a handful.",
 ["src/request_tracker.rs", "src/peer.rs"],
 [("search for a free ID", RT+" allocate_sent_request"), ("ID freed on response or failure", RT+" remove_sent_request")],
 ["request_id()", "wire messages"], "set the next request ID of a peer",
 [("next_sent_request_id", "next candidate", RT)])

prop("P09", "Nothing is transmitted for a request after its response",
 "Once a response for a received request has been transmitted, no further update or response for that request is ever transmitted: later or concurrent attempts through any handle of that request fail with an error. Likewise, once the response to a sent request has been processed, no further update for it is transmitted, even if its ID is in use again by a newer request. So the remote peer sees at most one response per request and no message of a finished request.",
 ["schedules", "histories"], "all interleavings of concurrent updates and responses through any number of handles of the same request, with arrival of responses and with ID re-use",
 "The existing test only tries a send strictly after the response in one task; concurrent sends that pass a check before the response goes out are never tried.",
 ["src/request.rs", "src/request_tracker.rs", "src/peer.rs"],
 [("closed flag checked by handles", RQ), ("closed state set when the response passes", RT), ("ordering in the command loop", PE+" send_raw_message")],
 ["messages on the wire", "results of send_update/send_response"])

prop("P10", "A send reports success exactly if its message was handed to the transport",
 "Every send (request, update, response, error response, stream message) completes, and it reports success exactly when its message was handed to the transport completely, once and unchanged; a send that reports an error transmitted nothing, except possibly an incomplete message when the connection itself failed. Messages are transmitted in the order in which the sends were issued, with the right message type, request ID and service ID.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of concurrent senders with transport delays, refusals and failures at any message",
 "Existing tests only await one send at a time on a transport that never fails.",
 ["src/peer.rs", "src/peer_handle.rs", "src/request.rs"],
 [("result channel per command", PE+" send_request/send_raw_message"), ("FIFO command queue", PE)],
 ["results of sends", "messages on the wire"], "create transport errors in a test transport")

prop("P11", "When a connection ends, every pending and later operation completes",
 "When a connection ends for whatever reason (the remote closes, reading or writing fails, it is closed locally, or its background task is dropped), every pending and every later receive and send on every handle of that peer completes instead of waiting forever, provided a write in progress finishes or fails. Messages received before the end are still delivered first; after that receives of messages and responses return an error recognisable as an aborted connection (at most preceded by the error that ended the connection), receives of updates return nothing, and sends return an error.",
 ["schedules", "fault_sequences", "crash_points"], "every point of every interleaving as the moment at which the connection ends, for each cause",
 "No test ends a connection while operations are pending.",
 ["src/peer.rs", "src/peer_handle.rs", "src/request.rs", "src/request_tracker.rs", "src/util/select.rs"],
 [("stop after flushing queued commands", PE+" Peer::run"), ("channels closed when the task ends", PE), ("aborted error on closed channel", PH+", "+RQ)],
 ["results of all operations"], "create transport errors in a test transport")

prop("P12", "A connection lives exactly as long as someone can use it",
 "The background task of a connection keeps running, with the remaining handles fully functional, as long as the read handle or any write handle (including clones) exists and nobody closed it and the transport works. It stops and releases the transport as soon as the read handle and all write handles are dropped, or any handle or close handle is closed, once a write in progress finishes or fails. Request handles and close handles alone do not keep it alive, and dropping or cloning them never stops it.",
 ["histories", "schedules"], "all sequences of splitting, cloning, dropping and closing handles, interleaved with traffic",
 "Existing tests drop complete handles once at the end.",
 ["src/peer.rs", "src/peer_handle.rs"],
 [("write handle count and read handle flag", PE+" CommandLoop::run"), ("register/unregister on clone/drop", PH), ("close", PH)],
 ["completion of the background task", "transport dropped"], None,
 [("write_handles, read_handle_dropped", "live handles", PE)])

prop("P13", "Requests nobody can receive are answered with exactly one error",
 "When the local read handle has been dropped but the connection is still open, every incoming request that arrives from then on is answered with exactly one error response carrying its request ID, including requests that re-use an ID answered earlier, and incoming stream messages are ignored. Meanwhile requests sent through remaining write handles, their updates and their responses, and requests received earlier keep working.",
 ["histories"], "all sequences of incoming requests (with fresh and repeated IDs), streams, updates and responses before and after dropping the read handle",
 "No test drops the read handle of a live peer.",
 ["src/peer.rs", "src/request_tracker.rs"],
 [("error response for undeliverable requests", PE+" process_incoming_message")],
 ["messages on the wire"])

prop("P14", "Peers never deadlock under back-pressure",
 "Two peers connected by a link that can buffer only a bounded amount of data always make progress: whatever both applications send, in any mixture and concurrently in both directions, every send eventually completes and every message arrives, even if the applications do not receive messages while they are sending. In particular a blocked write never stops a peer from reading, and every wait is woken when it can proceed.",
 ["schedules", "configurations"], "all interleavings of two peers and their applications for small link capacities and small sets of messages",
 "Existing tests never fill a socket buffer.",
 ["src/peer.rs", "src/util/select.rs", "src/transport/stream/transport.rs"],
 [("concurrent read loop and command loop", PE+" Peer::run"), ("unbounded internal queues", PE), ("wake-ups", "src/util/select.rs, "+ST)],
 ["completion of sends", "received messages"], "construct the stream transport halves over an in-memory stream")

prop("P15", "Cancelling a pending operation loses and corrupts nothing",
 "Dropping the future of a pending receive (messages, updates, response, or an incoming connection) at any point loses nothing: the next receive returns what the cancelled one would have. Dropping the future of a pending send leaves its message transmitted either completely and once or not at all, never affects other operations, and an abandoned request's ID becomes free again without disturbing any other request.",
 ["schedules", "crash_points"], "every await point of every operation as cancellation point, in all interleavings with traffic",
 "No test cancels anything.",
 ["src/peer_handle.rs", "src/request.rs", "src/peer.rs", "src/util/accept.rs", "src/transport/mod.rs"],
 [("state kept outside the futures", RQ+", "+PH), ("request removed if its receiver is gone", PE+" send_request")],
 ["results of later operations", "messages on the wire"])

prop("P16", "Receiving updates and the response never loses, repeats or reorders them",
 "For every sequence of receive-update and receive-response calls on a sent request, each update and the response are returned exactly once and in arrival order. Receiving an update when the response is next returns nothing and keeps the response available; receiving the response when an update is next fails with an unexpected-message-type error and keeps the update available. After the response has been received there are no more updates and further attempts to receive a response fail; a received request yields its updates in order and then nothing once it is answered.",
 ["histories", "schedules"], "all call sequences interleaved in all ways with the arrival of updates and responses",
 "Existing tests try two fixed call orders.",
 ["src/request.rs", "src/request_tracker.rs"],
 [("one-message peek buffer", RQ+" SentRequestHandle"), ("close command after the response", RT)],
 ["recv_update", "recv_response"])

prop("P17", "A listener serves every client, whatever other clients do",
 "Every client that connects to a listener gets its own working peer that uses the listener's configuration and is independent of all other connections, with connection information describing that remote client. A client that disconnects, aborts or misbehaves at any moment, even before it is accepted, never stops the listener from accepting and serving the others. This holds for Unix stream, Unix seqpacket and TCP listeners.",
 ["histories", "fault_sequences", "configurations"], "all sequences of connect, abort, misbehave, exchange and disconnect actions of a few clients, for each transport and configuration",
 "No test uses a listener at all except indirectly.",
 ["src/listener.rs", "src/util/accept.rs", "src/util/connect.rs", "src/util/into_transport.rs", "src/transport/stream/mod.rs", "src/transport/unix/mod.rs"],
 [("accept loop", "src/listener.rs"), ("configuration cloned per connection", "src/listener.rs accept"), ("connection info", "src/transport/*/mod.rs info")],
 ["accept/run results", "client exchanges"])

prop("P18", "The typed interface delivers declared messages as declared, else an error",
 "For every interface definition, a call on the generated client reaches the generated server as the declared service, update or stream with an equal body value, and the server's response, updates or error message reach the client likewise; an error response becomes a remote error with the same text. A request, update or stream message with an undeclared service ID, any message with an undecodable body, or an encode failure, is reported as the corresponding error (with the message or request handle still available so that it can be answered) and is never mistaken for another message, nor does it disturb later messages.",
 ["programs", "inputs", "histories"], "all declared and undeclared service IDs (including negative and extreme ones), message kinds and decodable/undecodable bodies, in any order",
 "Existing tests exercise the successful path of one interface.",
 ["macros/src/interface/generate/services.rs", "macros/src/interface/generate/server.rs", "macros/src/interface/generate/client.rs", "macros/src/interface/generate/streams.rs", "macros/src/interface/generate/message_enum.rs", "src/error.rs", "src/format.rs"],
 [("generated encode/dispatch code", "macros/src/interface/generate/*")],
 ["generated client and server API", "raw messages on the wire"])

prop("P19", "Introspection equals the definition; ambiguous interfaces do not compile",
 "For every interface definition the runtime introspection returns exactly what was defined: names, documentation, hidden flags, service IDs, body types, and the services, streams and updates in the order of definition, with request and response updates kept apart. A definition in which two services, two streams, two request updates or two response updates of one service share an ID or a name is rejected at compile time, as is an ID that is not a 32 bit signed integer or an attribute other than documentation and `hidden`, with an error at an entry that is to blame; every unambiguous definition is accepted (given names that make distinct Rust identifiers and do not collide with those of the generated code) and gives a client and a server with the functions and messages that were defined, with exactly the defined types. Names may be raw identifiers, types may be named relative to the module of the interface, and items of the standard library may be hidden by others there.",
 ["programs"], "all interface definitions up to a bounded number of services, streams and updates over small sets of IDs, names, types, docs and attributes",
 "Existing tests introspect two fixed definitions and never try an invalid one.",
 ["macros/src/interface/parse.rs", "macros/src/interface/generate/interface_struct.rs", "macros/src/util.rs", "src/introspection.rs"],
 [("duplicate detection", "macros/src/interface/parse.rs from_raw"), ("generated definition", "macros/src/interface/generate/interface_struct.rs")],
 ["Interface::definition()", "compiler diagnostics"])

prop("P20", "A message the transport refuses affects nothing but itself",
 "When the transport refuses to send a message without failing itself (for example because it is too large), only that send fails: its request stays open as if the send had never been tried, so updates can still be exchanged and a received request can still be answered, exactly once, with another response. A refused new request leaves no trace and its ID can be used again. All other requests, streams and later messages are unaffected.",
 ["fault_sequences", "histories"], "all histories of sends with a refusal at any subset of them",
 "No test makes a send fail.",
 ["src/peer.rs", "src/request_tracker.rs", "src/transport/mod.rs"],
 [("non-fatal write errors", PE+" write_message"), ("request removed only for good reason", PE+" send_raw_message/send_request")],
 ["results of sends", "messages on the wire"], "create transport errors in a test transport")

prop("P21", "Protocol violations by the remote are reported and stay isolated",
 "A remote message that fits no open request (an update or response for an unknown or finished request or in the wrong direction, a second response, or a new request with the ID of a request still open) and a message the transport rejects without failing are each reported to the local application as exactly one error in arrival order. They change nothing else: no request handle sees them, all open requests, including the one whose ID was duplicated, keep working, the connection stays open and nothing is transmitted. Once a received request has been answered its ID can be used for a new request.",
 ["inputs", "histories"], "all sequences of valid and invalid messages over small sets of request IDs, service IDs and message types",
 "Existing tests send a single stray update to the tracker.",
 ["src/request_tracker.rs", "src/peer.rs"],
 [("unknown and duplicate ID errors", RT), ("errors forwarded to the read handle", PE+" process_incoming_message")],
 ["recv_message", "request handles", "messages on the wire"])

prop("P22", "Binding a Unix listener only ever replaces a stale socket",
 "Binding a Unix stream or seqpacket listener to a path that holds a socket replaces that socket and then accepts connections at the path; binding to a free path creates the socket there. If the path holds anything else (a regular file, directory, fifo, or a symbolic link to such), binding fails with an error and that object and its contents are left untouched.",
 ["configurations", "histories"], "all kinds of objects at the path (including links and missing parents) and sequences of binds, for both listener kinds",
 "No test binds to an existing path.",
 ["src/transport/stream/mod.rs", "src/transport/unix/mod.rs", "src/listener.rs"],
 [("unlink only sockets before bind", "src/transport/*/mod.rs Bind::bind")],
 ["file system", "accepted connections"])

prop("P23", "Boxed, pinned and borrowed transports and listeners act as the original",
 "A transport half or listener used through a mutable reference, a box or a pinned pointer, nested in any way, gives exactly the same results, the same data and the same readiness and wake-up behaviour as when it is used directly. Every poll is forwarded exactly once to the wrapped object with the same header and body.",
 ["configurations", "schedules"], "all wrapper nestings up to a depth, over all poll outcomes and short sequences of them",
 "No test uses the wrappers.",
 ["src/transport/mod.rs", "src/util/accept.rs"],
 [("forwarding implementations", "src/transport/mod.rs, src/util/accept.rs")],
 ["poll results"])

prop("P24", "Error responses carry their message unchanged",
 "An error response sent for a received request arrives at the requester as a response with service ID -1 and a body that is exactly the given text, for every text including empty and non-ASCII, on every transport, and closes the request like any other response. Reading a body as error text returns exactly the UTF-8 text, or a decode error if it is not valid UTF-8.",
 ["inputs", "configurations"], "all byte strings up to a small length as error bodies and a set of texts through every transport",
 "No existing test sends an error response.",
 ["src/message.rs", "src/request.rs", "src/transport/stream/body.rs", "src/transport/unix/body.rs"],
 [("error body conversions", "src/transport/*/body.rs"), ("error response header", "src/message.rs")],
 ["received response"])

prop("P25", "All built-in transports behave alike end to end",
 "The same sequence of operations by two connected applications gives the same observable results over Unix stream, Unix seqpacket and TCP connections as the protocol prescribes: every request, update, response and stream message sent by one side is received by the other, in order, and connection end is observed by both. A small, valid message is never rejected, altered or lost by one transport but not by another.",
 ["histories", "configurations"], "all operation sequences up to a depth over two real connected peers, for each built-in transport and byte order",
 "Existing tests run one or two fixed exchanges, mostly over Unix streams.",
 ["src/peer.rs", "src/transport/stream/mod.rs", "src/transport/unix/mod.rs", "src/transport/stream/transport.rs", "src/transport/unix/transport.rs"],
 [("transport trait implementations", "src/transport/*/mod.rs")],
 ["public API results on both sides"])

prop("P26", "Nothing accumulates in a long running peer or server",
 "What a peer or server keeps (memory, tasks, file descriptors) depends only on what is in progress: open requests, messages that nobody has received yet, handles in use. Repeating any sequence of operations after which every request is answered, every message received or discarded and every temporary handle dropped, any number of times, does not make it grow. This includes sends that are refused or cancelled, invalid and unexpected messages, dropped handles, and clients of a listener that connect, misbehave and disconnect.",
 ["histories", "configurations"], "all sequences of operations up to a depth, each repeated many times, on a peer and on real connections and listeners",
 "A leak of a few bytes per request is invisible in a test that does each thing once.",
 ["src/request_tracker.rs", "src/peer.rs", "src/peer_handle.rs", "src/request.rs", "src/listener.rs", "src/transport/stream/transport.rs", "src/transport/unix/transport.rs"],
 [("removal of closed requests", "src/request_tracker.rs"), ("run of the server spawns a task per client", "src/listener.rs"), ("command queue", "src/peer.rs")],
 ["live allocations", "alive tasks", "open file descriptors"])

prop("P27", "An idle connection or listener uses no processor time",
 "Once everything that was sent is delivered, nothing is woken or polled again until the application or the remote does something, whatever the state is: open requests, unread messages, partial messages received, blocked writes, dropped handles, cancelled futures, waiting accept calls. In particular no future wakes itself again and again while it can make no progress.",
 ["histories", "schedules", "configurations"], "all sequences of events up to a depth on connections and listeners of every built-in transport, after each of which the number of polls must stop growing",
 "A busy loop gives the right results, only at full processor load, so no functional test sees it.",
 ["src/peer.rs", "src/listener.rs", "src/transport/stream/transport.rs", "src/transport/unix/transport.rs", "src/util/accept.rs", "src/util/select.rs"],
 [("select of the peer", "src/util/select.rs"), ("readiness of the transports", "src/transport/*/transport.rs")],
 ["number of polls"])

prop("P28", "Errors say what happened",
 "Every error says what happened: it is recognisable as an aborted connection exactly if the connection ended (or an I/O error of that kind occurred), as a remote error with the same text exactly if the remote answered with an error response, as an unexpected message type exactly if an update arrived where a response was expected, and as none of these otherwise, however it is wrapped. Its text contains the IDs, sizes or messages concerned, and the Debug output of errors of generated interfaces names the variant. The request handle is available from exactly the errors about requests that the interface does not know or cannot decode.",
 ["inputs", "configurations"], "every kind of error, source and wrapping with extreme values, and the errors that really occur on connections of every transport",
 "Existing tests check no error text and few classifications.",
 ["src/error.rs", "src/peer.rs", "src/request.rs", "src/util/mod.rs"],
 [("error type and classification", "src/error.rs")],
 ["classification predicates", "Display of errors"])

prop("P29", "Every combination of cargo features works",
 "With every combination of its cargo features the library builds and provides exactly the selected transports (and the macros). Each of them works the same as with all features enabled, and what needs no feature works without any.",
 ["configurations"], "all 16 combinations of the features, each built and exercised",
 "The tests are run with one set of features.",
 ["Cargo.toml", "src/lib.rs", "src/transport/mod.rs", "src/util/mod.rs", "src/listener.rs", "src/util/into_transport.rs"],
 [("conditional compilation", "src/**")],
 ["build result", "public API results"])

prop("P30", "A connection follows its configuration, however it is made",
 "However a connection is made (from a socket or a transport, spawned or run by the application, by connecting, or by any use of a listener, as the first or a later connection, alone or beside others), it follows exactly the configuration it was given: the byte order and the limits for bodies and file descriptors of each direction. What is made without a configuration follows the default one, and whatever a connection with the default configuration may send is accepted by another one. The socket of a transport, looked at or taken out of it, is the one that was put in.",
 ["configurations", "histories"], "every way to make a connection with every configuration, alone and in pairs, and every sequence of messages at the limits",
 "Existing tests make connections in one or two ways and with the default configuration.",
 ["src/peer.rs", "src/listener.rs", "src/util/into_transport.rs", "src/util/connect.rs", "src/transport/stream/mod.rs", "src/transport/unix/mod.rs"],
 [("construction of transports", "src/transport/**"), ("configuration of accepted connections", "src/listener.rs")],
 ["wire bytes at a raw socket", "public API results"])

prop("P31", "A flood from one side starves nobody",
 "While the remote keeps on sending without pause and reads what it is sent (its messages being valid, fitting no request, or being rejected), received messages are delivered, local sends are transmitted, and closing the connection or dropping its handles takes effect, each after a bounded number of further messages; nothing piles up for an application that keeps receiving. While the application sends without pause, from any number of tasks that each wait for their result, incoming messages are delivered. While clients connect to a listener without pause, those that were accepted are served.",
 ["histories", "schedules"], "every kind of flood and scheduler with every sequence of operations during the flood",
 "A flood that never ends cannot be a unit test, and tests with a few messages never use up the time slice of a task.",
 ["src/peer.rs", "src/util/select.rs", "src/listener.rs", "src/transport/stream/transport.rs", "src/transport/unix/transport.rs"],
 [("turns of the read loop and the command loop", "src/peer.rs"), ("accept loop", "src/listener.rs")],
 ["messages transmitted and delivered", "results of sends"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
