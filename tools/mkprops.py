#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the single source of the property texts).
import json, os
P = "socket-io-protocol/src/"
C = "socket-io-client/src/"
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n,m,w in state],
            mechanism=[dict(name=n, where=w) for n,w in mech],
            observe_at=observe, hook_needed=None))
props = [
prop("C01","Built packets decode back to what was built",
 "Decoding the websocket frames produced for any event or acknowledgement (any event name, any namespace that starts with '/' and contains no comma, any 64-bit id or none, any list of serializable arguments nested less than 100 deep and without the reserved map key \"_placeholder\", text or binary mode) yields a packet of the same kind, namespace and id with the same number of arguments, and reading each argument back gives a value equal to the one supplied, byte strings included. Connect and disconnect packets decode back to the same kind and namespace. Every frame is valid UTF-8 text or a binary engine message.",
 ["inputs"],"all event names, namespaces, ids, modes and argument lists over the whole serde data model",
 "The encoder tests compare four literal frames and the decoder tests parse other literals; no test feeds encoder output to the decoder, and none uses escapes, several attachments, ids next to namespaces, empty acks or non-trivial values.",
 [P+"socket/ser.rs",P+"socket/de.rs",P+"socket/args/mod.rs",P+"engine.rs"],
 [("PacketBuilder / serialize_header",P+"socket/ser.rs"),("parse_text",P+"socket/de.rs"),("BinaryDeserializer",P+"socket/args/deserialize_attachments.rs")],
 ["PacketBuilder::finish","serialize_connect/serialize_disconnect","engine::Decoder::decode","socket::deserialize(_partial)","Arg::to_json_value","Arg::deserialize"]),
prop("C02","Text packets are accepted exactly when they follow the grammar",
 "A socket.io text packet is accepted exactly when it consists, in this order, of a kind digit (0,1,2,3,5,6), an optional attachment count and '-', an optional namespace (from '/' up to the first comma), an optional decimal id without leading zeros that fits 64 bits, and an optional JSON array, with the parts its kind needs (an event needs an argument, an acknowledgement an id, a binary kind a count) and, for connect and disconnect, nothing but the namespace; any other text is rejected with an error. An accepted packet reports exactly the kind, namespace (default '/'), id, and the argument texts in order that were written, whatever commas, brackets, digits, escapes or whitespace occur inside the arguments. Access by index and by iteration see the same arguments.",
 ["inputs"],"all texts: well-formed packets in any JSON writing style, and arbitrary or mutated malformed texts",
 "Tests parse about ten literals; none combines a namespace with array or comma-rich arguments, none tries malformed text, and the grammar is unbounded.",
 [P+"socket/de.rs",P+"socket/mod.rs",P+"socket/args/mod.rs"],
 [("DESERIALIZE_RE, parse_text, parse_args",P+"socket/de.rs"),("deserialize_dataless/deserialize_event/deserialize_binary",P+"socket/de.rs")],
 ["socket::deserialize","Packet::namespace","Packet::data","Args::{len,get,iter}"]),
prop("C03","No server input can make decoding or reading panic",
 "Whatever text and binary messages a server sends, decoding them at the engine and socket layer, assembling attachments, printing the decoded packet or its arguments, and reading arguments as JSON or as typed values never panics: every step returns a value or an error.",
 ["inputs"],"all byte strings and texts, all attachment lists, including out-of-range numbers, lone surrogates, extreme nesting and bad placeholder indices",
 "Tests only use benign literals; panics hide in unwraps reached by rare values (numbers over 64 bits, numbers or escapes that validate lazily, indices out of range).",
 [P+"socket/de.rs",P+"socket/mod.rs",P+"socket/args/mod.rs",P+"socket/args/deserialize_attachments.rs",P+"engine.rs"],
 [("Result-returning parsers",P+"socket/de.rs"),("Display for Packet/Data/Args/Arg",P+"socket/args/mod.rs"),("Decoder::decode",P+"engine.rs")],
 ["Decoder::decode","deserialize","deserialize_partial","Display","Arg::to_json_value","Arg::deserialize"]),
prop("C04","Binary packets complete with exactly their own attachments",
 "A packet announcing N > 0 attachments reports N as needed and becomes a packet only when exactly N binary messages are supplied; fewer, more, or a text message among them gives an error. In the packet, a placeholder numbered k reads as exactly the bytes of the k-th supplied attachment, as often and wherever it occurs, as JSON and as typed value, and a number outside 0..N gives an error. A typed read never silently drops or adds bytes: a fixed-size target of another length gives an error.",
 ["inputs"],"all packets with placeholders anywhere, all attachment lists (contents, order, count, text intruders) and target sizes",
 "Tests use one 4-byte attachment numbered 0, always with the right count.",
 [P+"socket/de.rs",P+"socket/args/mod.rs",P+"socket/args/deserialize_attachments.rs"],
 [("deserialize_partial, deserialize_event count check",P+"socket/de.rs"),("fill_placeholders_value",P+"socket/args/mod.rs"),("BinaryVisitor::visit_map",P+"socket/args/deserialize_attachments.rs")],
 ["Partial::attachments","deserialize_partial","Arg::to_json_value","Arg::deserialize"]),
prop("C05","Typed and JSON reads of an argument agree, with attachments or without",
 "Reading an argument into a Rust type gives the same outcome as plain JSON deserialization of that argument, whether or not the packet happens to carry attachments; in a packet with attachments each placeholder stands for the array of its bytes. In particular the JSON view and the typed view of the same argument never disagree, for any map key, nesting, enum representation or optional, borrowed, flattened or newtype field; only where the target asks for text or raw JSON at the place of a placeholder, or takes a kind of value it did not ask for, is the outcome left open.",
 ["inputs"],"all JSON arguments (any writing style), all attachment positions, a broad family of target types",
 "Tests read three tiny structs with unescaped keys; the attachment-aware reader re-implements about 30 serde entry points, of which the tests reach a handful.",
 [P+"socket/args/deserialize_attachments.rs",P+"socket/args/mod.rs"],
 [("BinaryDeserializer/BinaryVisitor/BinaryMapAccess/BinarySeqAccess/BinaryEnumAccess",P+"socket/args/deserialize_attachments.rs"),("fill_placeholders_value",P+"socket/args/mod.rs")],
 ["Arg::deserialize","Arg::to_json_value"]),
prop("C06","Binary mode moves each byte string into its own attachment, nothing else",
 "In binary mode every byte string and every non-empty sequence consisting only of u8 values, at any depth of any argument, is sent as one attachment with exactly those bytes, in order of appearance, and is replaced by one placeholder; placeholder numbers run 0,1,2,... across all arguments and the header's attachment count equals the number of attachments sent. Everything else is written as the same JSON as in text mode, and text mode sends one frame, with the JSON that plain serialization gives and no attachments; whether serialization of an argument succeeds does not depend on the mode.",
 ["inputs"],"all values of the serde data model in all positions, mixed sequences, several arguments, both modes",
 "Tests serialize four small values; sequences that start with u8 values and continue with something else, maps, variants, byte strings inside keys or options are never tried.",
 [P+"socket/args/serialize_attachments.rs",P+"socket/ser.rs"],
 [("Wrapper, SeqWrapper/BytesState, Placeholder",P+"socket/args/serialize_attachments.rs"),("serialize_arg, finish",P+"socket/ser.rs")],
 ["PacketBuilder::serialize_arg","PacketBuilder::finish"],
 [("buffers","attachments collected so far",P+"socket/args/serialize_attachments.rs")]),
prop("C07","A failed argument leaves the packet untouched",
 "When serializing an argument fails, the error is returned and the packet is as if that argument had never been offered: after any interleaving of failing and succeeding arguments, in event or acknowledgement, text or binary mode, the frames finally produced are those of a builder given only the succeeding arguments.",
 ["inputs","histories","fault_sequences"],"all sequences of succeeding arguments and arguments failing at any point inside them (first argument included)",
 "No test makes an argument fail.",
 [P+"socket/ser.rs",P+"socket/args/serialize_attachments.rs",C+"emit.rs"],
 [("rollback of buffer, attachments and separator",P+"socket/ser.rs: serialize_arg")],
 ["PacketBuilder::serialize_arg","PacketBuilder::finish"],
 [("first","whether the argument list has been opened",P+"socket/ser.rs")]),
prop("C08","The engine session order is enforced over any message history",
 "Over any sequence of websocket messages given to one engine decoder: until a well-formed open packet has been accepted every other message is rejected; then messages, pings, pongs and one close are accepted and a second open is rejected; after a close everything is rejected. Empty messages, unknown packet types and websocket control messages are always rejected. A rejected message does not change what is accepted later.",
 ["histories","inputs"],"all sequences of engine packets, malformed and control messages",
 "Tests feed one open twice and one control message; orderings are never explored.",
 [P+"engine.rs"],[("Decoder::{decode,decode_text,decode_binary}, State",P+"engine.rs")],["engine::Decoder::decode"],
 [("state","Initial, Active or Closed",P+"engine.rs")]),
prop("C09","Engine framing carries payloads unchanged",
 "Any text or byte payload encoded as an engine message, by copying or by packaging a buffer that already starts with the header, is decoded to exactly that payload and kind, including empty payloads; encoded pings and pongs decode as ping and pong; an accepted open packet reports exactly the session id and the two timing values it contained, whatever other members it has.",
 ["inputs"],"all texts, byte strings and open packets",
 "Only one literal open packet is decoded; message payloads are never round-tripped.",
 [P+"engine.rs"],[("encode_message/package_message/encode_binary/package_binary/encode_ping/encode_pong, Decoder",P+"engine.rs")],
 ["engine::encode_*","engine::package_*","engine::Decoder::decode"]),
prop("C10","An owned subslice behaves exactly like the slice it denotes",
 "An owned subslice built from a container and a range, and any chain of further subslicing within it, reads, compares, prints, clones and (when mutable) writes exactly like the corresponding slice of the container, never exposing anything outside the range; a subslice end beyond the current end is clamped to it.",
 ["inputs","histories"],"all strings and vectors, ranges, and sequences of subslice, clone, mutate and compare operations",
 "The only test takes one range of one string; subslicing, mutation and equality are untested.",
 ["owned_subslice/src/lib.rs"],[("OwnedSubslice::{new,subslice}, Deref, DerefMut, PartialEq, Display, Debug","owned_subslice/src/lib.rs")],
 ["OwnedSubslice public API"]),
prop("C11","Each received event runs exactly the right handler, once, in order",
 "For every event received on an open connection, exactly one handler runs: the one most recently set for that namespace and event name if not cleared, else that namespace's current fallback, else none; handlers of other namespaces or names never run. Handlers run once per event in arrival order and see exactly the event's arguments (name first, attachments included). Setting, replacing and clearing handlers at any time affects exactly the later events of that namespace and name; a change made from another thread takes effect at one instant, so every event sees either the old handlers or the new.",
 ["histories","inputs","schedules"],"all histories of set/clear/replace calls and received events over several namespaces and names, text and binary, any read chunking, and the changes made on any thread while events arrive",
 "The callback test does four lookups in the table itself; no test delivers an event through a connection.",
 [C+"callbacks.rs",C+"receiver.rs",C+"lib.rs",C+"connection.rs"],
 [("Callbacks::get_event and set/clear",C+"callbacks.rs"),("Receiver::process_packet, InProgress",C+"receiver.rs")],
 ["Client::set_*_callback / clear_*_callback","handler invocations"],
 [("namespaces","handlers per namespace",C+"callbacks.rs")]),
prop("C12","Ack callbacks run at most once, for their own ack only",
 "The callback given to an emit runs exactly once, when the first acknowledgement with that emit's namespace and id arrives, with exactly that acknowledgement's arguments (none included); it never runs for another namespace or id, for events, twice, or for an emit that was not sent. The ids of all emits of one client that ask for an acknowledgement are distinct, and emits without a callback carry no id.",
 ["histories","inputs","schedules"],"all histories of emits (with and without callback, dropped before sending, from several threads) and acknowledgements in any order, duplicated, foreign or binary",
 "One test inserts and removes one ack in the table; ids, wire matching and argument delivery are untested.",
 [C+"callbacks.rs",C+"emit.rs",C+"receiver.rs"],
 [("next_id in EventBuilder::callback",C+"emit.rs"),("Callbacks::{set_ack,get_and_clear_ack}",C+"callbacks.rs"),("Data::Ack in process_packet",C+"receiver.rs")],
 ["EventBuilder::callback","ack callback invocations","wire frames"],
 [("next_id","next acknowledgement id",C+"lib.rs"),("acks","pending callbacks",C+"callbacks.rs")]),
prop("C13","Sent packets reach the wire once, in order, never interleaved",
 "While the connection is up, every packet the user sends (emits and acknowledgement replies, also those sent from inside handlers) is written to the websocket exactly once, in the order of the send calls, with namespace, event name, id and arguments as given, as text unless binary was asked for, and the header of a binary packet is directly followed by its attachments with no other message in between. This holds however the transport splits, delays or blocks writes and whatever is received meanwhile; a packet that is built but not sent is never written, and sending never has to wait for the server to fall silent.",
 ["schedules","histories","inputs"],"all histories of sends, received packets and pings, all write chunkings and back-pressure patterns",
 "No test opens a connection.",
 [C+"connection.rs",C+"emit.rs",C+"receiver.rs"],
 [("one channel of whole frame lists, drained by one task",C+"connection.rs: process_websocket"),("EventArgsBuilder::send/AckArgsBuilder::send",C+"emit.rs")],
 ["frames read by the peer"],[("send","outgoing channel",C+"connection.rs")]),
prop("C14","Every engine ping is answered by exactly one pong",
 "While the connection is up, each engine ping received is answered by exactly one engine pong, and no pong is sent otherwise, regardless of what else is being received or sent, including in the middle of a binary packet's attachments; pings and pongs never disturb the packet being assembled, and a pong never has to wait for the server to fall silent.",
 ["histories","schedules"],"all positions of pings and pongs in all inbound histories and chunkings",
 "No test covers the receive loop.",
 [C+"receiver.rs",C+"connection.rs",P+"engine.rs"],[("EnginePacket::Ping arm, in_progress",C+"receiver.rs")],["frames read by the peer","handler invocations"],
 [("in_progress","binary packet being assembled",C+"receiver.rs")]),
prop("C15","Outcome does not depend on how inbound bytes are chunked",
 "What the client does (which handlers run with which arguments, which packets and pongs are sent while the connection stays up, whether and how the connection ends) depends only on the sequence of websocket messages received, not on how their bytes are split over or merged into transport reads (including merged with the handshake response), fragmented into websocket frames, or interleaved with websocket-level pings and pongs.",
 ["schedules","inputs"],"all byte-level chunkings, fragmentations and control-frame interleavings of any inbound message sequence",
 "No test reads from a transport.",
 [C+"connection.rs",C+"receiver.rs"],[("select loop in process_websocket",C+"connection.rs"),("process_websocket_packet",C+"receiver.rs")],["handler invocations","frames read by the peer","Client::close result"]),
prop("C16","Connecting succeeds on handshake plus open, else fails cleanly in time",
 "Connecting over a transport succeeds exactly when, within ten seconds of being given the transport, the peer completes the websocket handshake and its first engine packet is a valid open; in every other case (connector error, refusal, garbage, wrong first message, transport error, end of stream or silence at any byte) it returns an error by then, never panicking, hanging or reporting success. A failed or abandoned attempt releases the transport.",
 ["fault_sequences","crash_points","schedules","inputs"],"a fault (end of stream, error, stall, corruption, wrong message, the attempt dropped) at every byte of the server's handshake and open, any delays under a virtual clock",
 "No test connects to anything.",
 [C+"lib.rs",C+"connection.rs"],[("Connection::new: select with one timeout over handshake and open",C+"connection.rs")],["Client::connect","Client::from_stream"]),
prop("C17","Closing flushes, says goodbye, reports the outcome, and never hangs",
 "Closing a live connection first writes every packet sent before the call, then a websocket close frame and nothing after it, and returns success once the peer has answered with a close frame and ended the stream; if the peer does not finish within ten seconds close returns a timeout error. Closing a connection that already ended reports how it ended: success after an orderly close by the peer (whatever was sent or received around it), an error after a protocol violation or transport failure. A further close returns an already-closed error, and dropping the client, closed or not, releases the transport even while reply handles are still held. A server that keeps sending does not keep the close frame from being written.",
 ["schedules","histories","fault_sequences"],"all amounts of unsent packets, all peer reactions (prompt, slow, silent, error, data before closing) and orders of close, death and drop",
 "No test closes a connection.",
 [C+"connection.rs",C+"lib.rs"],[("Connection::close, closing part of process_websocket, RemoteHandle",C+"connection.rs")],["Client::close","frames read by the peer","transport drop"],
 [("handle, close","taken on first close",C+"connection.rs")]),
prop("C18","A protocol violation by the server ends the connection with an error",
 "When an open connection receives a message that violates the protocol (unknown or malformed engine or socket packet, second open, anything but websocket closing after an engine close, binary message without a header announcing it, text where an attachment is due, event without a string name, acknowledgement nobody waits for), everything before it is handled normally, no handler runs for it or for anything after it, nothing panics, and closing the client reports an error; text in place of an attachment may be noticed only when the packet's last attachment is due. Without a violation the connection stays up.",
 ["inputs","histories"],"all violating messages at all positions of all inbound histories, with logging enabled",
 "No test sends a bad message to a client.",
 [C+"receiver.rs",C+"connection.rs",P+"engine.rs",P+"socket/de.rs"],[("Receiver errors propagated by ? out of the task",C+"receiver.rs"),("process_websocket",C+"connection.rs")],["handler invocations","Client::close result"]),
prop("C19","Handlers may use the client: no lock is held while they run",
 "While an event handler or ack callback is running, every other use of the client (setting or clearing handlers of any namespace, emitting with or without a callback), from the handler itself or from another thread, completes without waiting for the handler to return, and takes effect for later packets. A handler that panics does not make these calls panic afterwards.",
 ["schedules","histories"],"all client operations performed during a running event handler or ack callback, from the same or another thread",
 "No test runs a handler through the receiver.",
 [C+"receiver.rs",C+"callbacks.rs"],[("EventCallback is Arc<Mutex<..>> so the table lock can be released before the call",C+"callbacks.rs"),("process_packet",C+"receiver.rs")],["Client methods called during a handler"]),
prop("C20","The URL given is the endpoint contacted",
 "For every http, https, ws or wss URL the connector is asked for exactly the URL's host (usable for a socket connection, IPv6 literals included) and its port or the scheme's default; https and wss start TLS for the URL's host on the transport and send nothing in clear, http and ws use no TLS. The upgrade request asks for the URL's path and query with EIO=4 and transport=websocket added and everything else unchanged, and names the URL's host and explicit port. Any other scheme, or a string that is not such a URL, gives a URL error without contacting anything.",
 ["inputs"],"all schemes, hosts, ports, paths, queries, user-infos and fragments, and malformed URLs",
 "The test parses three literal URLs and never looks at the request.",
 [C+"lib.rs",C+"connection.rs"],[("parse_url, add_socketio_query_params, Client::connect",C+"lib.rs")],["connector arguments","bytes of the upgrade request"]),
prop("C21","Acknowledgement replies go to the event that asked for them",
 "A handler is given the means to reply exactly when its event carried an id; a reply sent through it, immediately, later, or after other events, is one acknowledgement packet with that event's namespace and id and exactly the given arguments, as text unless binary was asked for; nothing is sent if it is dropped unused, and the client never replies on its own.",
 ["histories","inputs"],"all histories of events with and without ids over several namespaces, with replies sent at once, delayed, reordered, dropped",
 "No test delivers an event with an id to a handler.",
 [C+"receiver.rs",C+"emit.rs"],[("AckBuilder::new in process_packet",C+"receiver.rs"),("AckBuilder/AckArgsBuilder",C+"emit.rs")],["handler's ack argument","frames read by the peer"]),
prop("C22","Handlers and callbacks are released when they are done",
 "A handler or callback given to the client is kept exactly as long as it may still be due: an event or fallback handler is dropped when it is replaced or cleared (at once, or when its running call returns), an ack callback when it has run or when its emit is dropped unsent, and every remaining one when the client is dropped, whatever state the connection is in and whatever reply handles are still held. None is dropped while it is still due.",
 ["histories"],"all histories of setting, replacing and clearing handlers, emitting with callbacks (sent and unsent), receiving events and acknowledgements, the connection dying, closing and dropping the client",
 "No test looks at the lifetime of a handler.",
 [C+"callbacks.rs",C+"emit.rs",C+"lib.rs",C+"receiver.rs"],
 [("set_*/clear_*/get_and_clear_ack",C+"callbacks.rs"),("callback stored by the builder until send",C+"emit.rs"),("Callbacks shared by client and receiver",C+"connection.rs")],
 ["drop of the closures handed to the client"],[("namespaces, acks","who owns each closure",C+"callbacks.rs")]),
prop("C23","A client whose connection has ended stays safe to use",
 "Once a connection has ended, in whatever way (closed by the peer, end of stream, transport error, protocol violation, or a close that succeeded, failed, timed out or was abandoned), every further use of the client (setting and clearing handlers, emitting with or without a callback) and every reply through a handle received earlier, even after the client is dropped, still returns without panicking, writes nothing, runs no handler or callback and does not change what close reports; after the first close each further close returns an already-closed error.",
 ["histories","fault_sequences"],"all ways a connection can end after any history, followed by any sequence of client calls, replies and late messages, with the client dropped at any point among them",
 "No test uses a client at all, let alone one whose connection is gone.",
 [C+"emit.rs",C+"connection.rs",C+"lib.rs",C+"callbacks.rs"],
 [("results of unbounded_send ignored",C+"emit.rs"),("Connection::close takes handle and sender once",C+"connection.rs")],
 ["return of client calls and replies","frames read by the peer","handler invocations","Client::close result"]),
prop("C24","Clients in one process do not affect each other",
 "When a program runs several clients, each behaves exactly as it would alone: its events run only its own handlers, its acknowledgements only its own callbacks, its packets, replies and pongs go only to its own transport, and the end of one connection, orderly or not, leaves the others untouched.",
 ["histories","schedules"],"all interleavings of the histories of two or three clients, including protocol violations on some of them",
 "No test creates even one client.",
 [C+"lib.rs",C+"callbacks.rs",C+"receiver.rs",C+"connection.rs"],
 [("Callbacks, channels and ids owned by each Client",C+"lib.rs: Client::new")],
 ["handler invocations","frames read by each peer","Client::close result"]),
prop("C25","Packets and arguments print as what they contain",
 "The printed form (Display) of any received packet names its kind, its id as received and its arguments in order: Connect, Disconnect, Event { id: None or Some(n), args: [a, b] } or Ack { id: n, args: [a, b] }; each argument, reached by index, iteration or inside the list, prints as the compact JSON of its value with every attachment written out as an array of bytes, and as exactly the text received when it has no such value (placeholder out of range or without a number, lone surrogate, number or nesting beyond what can be read). Printing never fails unless the destination does, and never panics.",
 ["inputs"],"all packets of every kind, with all arguments, attachment lists and ids, and destinations failing after any number of bytes",
 "No test prints a packet.",
 [P+"socket/mod.rs",P+"socket/args/mod.rs"],
 [("impl Display for Packet and Data",P+"socket/mod.rs"),("impl Display for Args and Arg",P+"socket/args/mod.rs")],
 ["to_string of Packet, Data, Args and Arg"]),
prop("C26","A long-lived connection keeps nothing of what is done with",
 "Once a received message has been handled, or a packet written (and, with a callback, acknowledged), the client keeps nothing of it: however many events, acknowledgements, pings, namespace connects and disconnects, in whatever namespaces and under whatever names, a server sends, and however many packets are sent, and handlers set and cleared again, the memory held is bounded by the handlers in place, the emits still unanswered, the reply handles still held and the largest message so far. No message makes the client claim memory out of proportion to the bytes received, whatever number of attachments it announces.",
 ["histories","inputs"],"all histories of messages, emits and handler changes repeated without limit; all announced attachment counts",
 "No test keeps a connection open for more than one message, and none looks at memory.",
 [C+"callbacks.rs",C+"receiver.rs",C+"emit.rs",P+"socket/de.rs"],
 [("namespaces, acks",C+"callbacks.rs"),("Receiver::receive",C+"receiver.rs"),("Partial",P+"socket/de.rs")],
 ["bytes held by the client after rounds of the same traffic","peak bytes claimed while a message is handled"]),
prop("C27","Messages that arrive while closing are handled like any others",
 "From the call of close until it returns, whatever arrives before the peer's close frame is handled as before: each event runs its handler and each acknowledgement its callback, once, in order, with exactly its arguments, also when the message was unread or partly read when close was called, arrives in one piece with the peer's close frame, or comes while the client cannot write. A protocol violation among these messages makes close return an error at once. What handlers send meanwhile does not follow the close frame.",
 ["histories","schedules","inputs"],"all histories of inbound messages around the call of close, all ways to chunk them, back-pressure at any of these points, and all ways for the peer to end",
 "No test closes a connection.",
 [C+"connection.rs",C+"receiver.rs",C+"lib.rs"],
 [("process_websocket, the loop after the close frame is sent",C+"connection.rs"),("Receiver::process_websocket_packet",C+"receiver.rs")],
 ["handler and callback invocations","frames read by the peer","Client::close result"]),
prop("C28","A waiting client sleeps until something happens",
 "While nothing happens (the connection open and silent, the transport not taking writes, close waiting for the peer, the connection ended) neither the client's task nor the future the user waits on is woken, for however long; the number of polls is in proportion to the bytes moved and packets exchanged. An arrival, room to write, a call of the user or the end of a deadline wakes it at once, and being polled for no reason changes nothing.",
 ["schedules","histories"],"all histories with silences of any length at any point, with or without back-pressure, and with needless polls anywhere",
 "No test runs the client's task.",
 [C+"connection.rs",C+"lib.rs"],
 [("select! over next, send_rx and closed",C+"connection.rs"),("the ten second Delays",C+"connection.rs")],
 ["polls of the spawned task and of the close future","timers armed","frames read by the peer","handler invocations"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in props:
        assert len(p["title"])<=80, p["id"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
