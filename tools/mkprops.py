#!/usr/bin/env python3
# Generates /verif/properties.jsonl (the source of truth for property texts).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))
def m(name,where): return dict(name=name,where=where)
def st(name,meaning,where): return dict(name=name,meaning=meaning,where=where)

# ---------------------------------------------------------------- serialization
p("S01","Objects survive encode/decode in the exact Service Fabric object layout",
 "For every struct built from the supported field kinds (booleans, 8- to 64-bit integers, floats, Unicode strings, pointers, slices, maps, nested and embedded structs, GUIDs and other self-encoding types), decoding what was encoded yields an equal value, with nil and empty slices or maps identified (values of recursive types nested more than 4000 deep may be refused). The bytes are exactly those of the Service Fabric object format (type tags, empty markers, element counts, object sizes and scope markers), with only the order of map entries free. A struct containing a field of an unsupported kind is refused with an error instead of being encoded partially.",
 ["inputs"],"every combination of supported field kinds nested to a bounded depth, and every value from per-kind boundary alphabets",
 "Tests round-trip a dozen hand-written structs with one value each and never look at the bytes, so a symmetric encoder/decoder change or a boundary value (surrogate pairs, -0, sign bits, empty elements inside slices) is invisible.",
 ["serialization/marshal.go","serialization/unmarshal.go","serialization/common.go","serialization/fabricserializationtype.go","serialization/guid.go"],
 [m("recursive reflective encoder with object scope buffers","serialization/marshal.go value/objectScopeBegin/objectScopeEnd"),m("recursive reflective decoder","serialization/unmarshal.go value"),m("field flattening","serialization/common.go allFields")],
 observe=["serialization.Marshal output bytes","serialization.Unmarshal result"])
p("S02","Compressed integers are exact, canonical and bounds-checked",
 "Every integer of every width (16, 32, 64 bits, signed and unsigned) and every element count decodes to exactly the value that was encoded. Its encoding is the shortest big-endian 7-bit-group sequence whose leading group carries the sign, never longer than the width allows. A sequence that is truncated or longer than the width allows is rejected with an error.",
 ["inputs"],"all 65536 values of the 16-bit kinds, all 2^32 values of the 32-bit kinds (thorough), all 64-bit values over a group alphabet and around every power of two, and all byte sequences up to a bounded length over a group alphabet",
 "The tests try about twenty constants; off-by-one errors at one group boundary or one sign pattern need the whole range.",
 ["serialization/bytecompress.go","serialization/marshal.go","serialization/unmarshal.go"],
 [m("group writer and reader with sign extension","serialization/bytecompress.go writeCompressed/readCompressed")],
 observe=["bytes of a struct holding one integer field"])
p("S03","Readers and writers of different object versions interoperate",
 "A reader whose struct has fewer trailing fields than the writer's obtains exactly the common leading fields and skips the rest; a reader with more trailing fields obtains the common ones and leaves the others untouched; slice elements, map entries and pointed-to objects are always new ones, and a decoded map or slice holds exactly the encoded entries whatever the variable held before. This holds at every nesting level (nested structs, behind pointers, as slice elements and map values), and everything encoded after the version-skewed object is still decoded correctly. Optional type information in an object header is skipped without affecting the fields.",
 ["inputs","programs"],"every pair (writer prefix length, reader prefix length) of field lists over all field kinds, in every container position",
 "Tests cover one V1/V2 pair at the top level; skew inside nested objects, slices and pointers, where the reader's position matters for later data, is not exercised.",
 ["serialization/unmarshal.go","serialization/marshal.go"],
 [m("object size used to seek to the end of scope","serialization/unmarshal.go readObjectBegin/consumeObjectEnd"),m("early scope end detection","serialization/unmarshal.go value, struct case")],
 observe=["serialization.Unmarshal result across type pairs"])
p("S04","Decoding arbitrary bytes is total, bounded and never accepts truncation",
 "Decoding any byte string into any supported struct type either succeeds or returns an error: it never panics, never hangs and never exhausts the stack. The memory it uses stays proportional to the length of the input, whatever counts or sizes the input claims. Every proper prefix of a valid encoding is rejected with an error.",
 ["inputs"],"all byte strings up to a bounded length over a tag/length alphabet as object content, all single-byte substitutions, selected pairs of substitutions, and all truncations of a corpus of valid encodings, for target types covering every field kind",
 "Tests only decode bytes produced by the encoder; hostile or damaged peers send the rest.",
 ["serialization/unmarshal.go","serialization/bytecompress.go","serialization/guid.go","federation/nodeid.go","federation/nodeid_range.go"],
 [m("tag checks before each read","serialization/unmarshal.go value"),m("count read before allocation","serialization/unmarshal.go slice and string cases")],
 observe=["panic / error / allocated bytes of serialization.Unmarshal"])
p("S05","GUID text form is a bijection and generated GUIDs are version 4",
 "Formatting any GUID gives the canonical 36-character lowercase form and parsing it gives the same GUID back; upper-case digits parse to the same value. Every string that is not 32 hexadecimal digits grouped 8-4-4-4-12 by hyphens is rejected with an error. Every generated GUID has version 4 and the RFC 4122 variant and is non-empty.",
 ["inputs"],"every byte value in every byte position of a GUID, every single-character substitution of valid texts over all 256 byte values, every insertion, deletion and truncation",
 "No test parses or prints a GUID; GUIDs identify messages and requests.",
 ["serialization/guid.go"],[m("String and GUIDFromString","serialization/guid.go"),m("version and variant bits","serialization/guid.go NewGuidV4")],
 observe=["serialization.GUID.String","serialization.GUIDFromString","serialization.NewGuidV4"])

# ---------------------------------------------------------------- transport
p("T01","Messages arrive intact, in order, however the stream is fragmented",
 "Every message sent on a connection is delivered to the peer exactly once, in sending order, with identical identity, correlation id, actor, action, flags, fault, retry count, custom headers (all values, in order per header type) and body. This holds for every way the byte stream is split into reads and for every combination of checksum settings, and the bytes on the wire are exactly the Service Fabric frame, header and body layout. A message whose headers do not fit the wire format's 16-bit sizes is refused with an error and nothing is sent.",
 ["inputs","fault_sequences"],"all combinations of header-field values from boundary alphabets, custom header lists, bodies and checksum settings; all read fragmentations up to a bounded number of cuts; header sizes around the 16-bit limits",
 "Tests send one or two tiny messages over loopback TCP; short reads, header overflow, multi-valued headers and wire-level exactness are never exercised.",
 ["transport/frame.go","transport/message.go","transport/messageheaders.go","transport/conn.go"],
 [m("frame writer/reader","transport/frame.go writeFrame/nextFrame"),m("header encoder/parser","transport/messageheaders.go writeTo/parseFabricMessageHeaders"),m("message marshal","transport/message.go")],
 observe=["message callback of a connection fed through an in-memory conn","bytes written to the conn"])
p("T02","Checksummed frames are never accepted damaged",
 "With header checksums checked (the default), no frame whose length, security, header-length or header-checksum fields were altered in one, two or three bits is delivered; with body checksums checked, no frame whose body was altered in up to three bits or in one burst of up to 32 bits is delivered. Damage always ends the connection's receive loop with an error and everything received before it has been delivered. Checksums are generated exactly when configured and a disabled check never causes rejection.",
 ["inputs","fault_sequences"],"every 1-, 2- and 3-bit alteration of the checked fields of frame headers, every 1-, 2- and 3-bit alteration and every burst up to 32 bits of small bodies, truncation at every byte",
 "The test flips two fixed bytes.",
 ["transport/frame.go","transport/conn.go"],
 [m("crc8 over the header with zeroed checksum fields, crc32 over the body","transport/frame.go nextFrame/writeFrame"),m("per-connection checksum configuration","transport/conn.go newConnection")],
 observe=["messages delivered and receive-loop result for damaged streams"])
p("T03","A hostile byte stream can only end its own connection",
 "Whatever bytes a peer sends, the receive loop of that connection ends with an error or keeps waiting for input: it never panics, never reads outside a frame, and never allocates more than the frame length the peer actually committed to. Well-formed messages received before the malformed data are still delivered. Headers of unknown types are preserved as opaque values rather than rejected, erased (invalid-type) headers are skipped, and a header block cut inside a header is refused.",
 ["inputs","fault_sequences"],"all frame-length/header-length combinations over boundary alphabets, all header TLV streams over a type/size alphabet to a bounded depth, all truncations and single-byte substitutions of valid streams, on plain client, server and proxy connections",
 "Tests feed only frames produced by the library itself.",
 ["transport/frame.go","transport/message.go","transport/messageheaders.go","transport/conn.go","transport/piper.go"],
 [m("frame length and header length handling","transport/frame.go nextFrame, transport/message.go nextMessageHeaderAndBodyFromFrame, transport/piper.go copy"),m("TLV header loop","transport/messageheaders.go parseFabricMessageHeaders")],
 observe=["panic / error of the receive loop"])
p("T04","Concurrent senders never interleave or lose messages",
 "When several goroutines use one connection at once (one-way sends, requests, heartbeats and the automatic heartbeat replies), the bytes on the wire are always a sequence of whole valid frames. Every message whose send reported success appears exactly once and intact, and the messages of one goroutine appear in the order it sent them.",
 ["schedules"],"all interleavings of 2-3 concurrent senders with the receive loop, at every synchronisation, shared-memory access and socket operation, up to a preemption bound",
 "Tests send from one goroutine at a time; interleaved header/body writes need a preemption between two writes.",
 ["transport/conn.go","transport/frame.go","transport/message.go"],
 [m("serialisation of frame writes on a connection","transport/conn.go writeMessageWithFrame")],
 observe=["bytes seen by the peer, parsed by an independent frame parser"])
p("T05","Each reply reaches exactly the request it relates to",
 "A message that relates to a pending request completes that request and no other, exactly once; a request only ever returns the message relating to it. A message that relates to nothing pending (unsolicited, unknown, duplicate or late) goes to the message callback set at that time instead, exactly once, whatever its actor and action, unless it is one of the transport's own. Requests complete correctly whatever the order of replies.",
 ["schedules","histories"],"all interleavings (to a preemption bound) of 2-3 concurrent requests with every order and duplication of replies, unsolicited messages and foreign ids",
 "Tests issue one request at a time and always reply once, in order.",
 ["transport/requesttable.go","transport/conn.go"],
 [m("pending-request table keyed by message id","transport/requesttable.go Put/Feed/Wait"),m("feed before callback","transport/conn.go Wait")],
 observe=["results of RequestReply","message callback invocations"])
p("T06","Every request terminates and cancellation never wedges the connection",
 "A request returns as soon as its reply arrives, its context is cancelled or the connection ends, in whatever order and at whatever moment these happen, and it returns the reply or an error, never both or neither. Cancelling a request at any moment, including while its reply is being delivered, never stops the connection from delivering later messages. However late the reply is, nothing but these ends the request, and a connection is as good after any silence as before. No goroutine stays blocked once the connection is closed. Once a call has returned, changing the message passed to it changes nothing that is sent.",
 ["schedules"],"all interleavings (to a preemption bound) of request, reply, cancellation, local close and peer close, followed by a further request on the same connection",
 "The tests cancel one second after sending with no reply in flight; the cancel/reply and close/reply races need specific schedules.",
 ["transport/requesttable.go","transport/conn.go"],
 [m("hand-over between receive loop and waiter","transport/requesttable.go Feed/Wait/Close"),m("connection close fan-out","transport/conn.go Close")],
 observe=["RequestReply results","later deliveries","blocked goroutines after close"])
p("T07","Heartbeats measure the right echo and survive timeouts, strays and close",
 "A ping succeeds exactly when the peer echoes that ping's own token and never because of an earlier or foreign echo; a ping returns once its context is done, even while it waits for another one, and does not make later pings fail then; until then it waits, however long the echo takes. Every heartbeat request received is answered once with the same payload. Stray, late or malformed heartbeat responses and closing at any moment never crash the process, never block message delivery, and make waiting pings return an error.",
 ["schedules","histories"],"all interleavings (to a preemption bound) of pings, cancellations, late, stray and malformed responses, incoming heartbeat requests and close",
 "The test does one ping against a well-behaved peer.",
 ["transport/conn.go"],
 [m("heartbeat token matching","transport/conn.go Ping"),m("asynchronous handling of transport messages","transport/conn.go handleTransportMessage, Close")],
 observe=["Ping results","frames written in answer to heartbeat requests","process panics"])
p("T08","Message identities are unique, non-empty and preserved",
 "Every message sent without an identity is given one that is non-empty and different from every other identity generated by the process, under any concurrency. A message that already has an identity keeps it, and a request's identity on the wire is the one its reply must relate to. Generated identities of one generator share a random prefix and differ in their index.",
 ["schedules","histories"],"all interleavings (to a preemption bound) of 2-3 goroutines drawing identities from one generator and one connection, and all short sequences of sends with and without preset identities over several generators",
 "Tests never compare two identities.",
 ["transport/message.go","transport/conn.go"],
 [m("atomic index plus random prefix","transport/message.go messageFactory"),m("fill only when empty","transport/message.go fillMessageId")],
 observe=["identities on the wire and returned by generators"])
p("T09","Closing and authentication rejection are final and release everything",
 "Closing a connection from any goroutine, any number of times, never panics; once it is closed every pending and later request, ping and send returns an error, also those stalled because the peer takes no data. When the peer reports that authentication was refused, the connection is closed, pending requests fail and every later send or request reports that refusal with its error code and message. A notification of success with the same action does not close the connection.",
 ["schedules","histories"],"all interleavings (to a preemption bound) of close, repeated close, peer close, rejection, requests, pings and sends; all error codes from an alphabet with well-formed and malformed bodies",
 "One test closes four times sequentially; rejection is not tested at all.",
 ["transport/conn.go","transport/requesttable.go"],
 [m("once-only close","transport/conn.go Close"),m("recorded fatal error","transport/conn.go Wait, SendOneWay")],
 observe=["results of calls before and after close or rejection"])
p("T10","The proxy relays every message faithfully in both directions",
 "For every sequence of messages from client and upstream, each message is relayed exactly once, in order, to the other side with identical headers and body, unless the filter drops or replaces it, in which case exactly the filter's result is relayed. The opening message is consumed by the secure handshake on secured proxies and passed upstream unchanged on plain ones. When either side ends, or sends something malformed, both sides are closed and only that pairing is affected; silence, however long, ends nothing.",
 ["schedules","inputs","histories"],"all message sequences to a bounded length in each direction over a message alphabet, each filter policy, interleavings to a preemption bound, every early-termination and malformed-input point",
 "The proxy has no tests at all.",
 ["transport/piper.go"],
 [m("opening exchange","transport/piper.go handle"),m("two copy loops","transport/piper.go pipe/copy")],
 observe=["bytes seen by the client and upstream ends"])
p("T11","Secure connections work under any fragmentation and report handshake failure",
 "A client and a server configured with TLS establish a connection and exchange messages identically to an unsecured pair, however the underlying stream fragments reads, and also through the proxy; during the handshake every TLS byte travels inside framed messages with identities of their own, of which only the first announces the negotiation, and afterwards none does. If the handshake cannot complete (peer closes or an underlying read or write fails at any step, or certificate verification refuses) connecting returns an error instead of an unusable connection. No application data is ever written to the underlying stream in clear.",
 ["fault_sequences","inputs"],"every read-chunk size from an alphabet, a failure injected at every underlying read and write of the handshake on each side, TLS 1.2 and 1.3, accepting and refusing verification",
 "One test performs one successful handshake over loopback.",
 ["transport/tls.go","transport/conn.go","transport/piper.go"],
 [m("framing adapter under crypto/tls","transport/tls.go fabricSecureConn"),m("switch to raw mode after the handshake","transport/tls.go markHandshakeComplete")],
 observe=["result of Connect / server side accept","raw bytes on the underlying conn"])
p("T12","A server serves every connection completely and independently",
 "For every accepted connection the server announces itself first and invokes its callback exactly once for each application message received, passing a handle whose sends reach that same connection. A slow or blocked callback, or a broken, malformed or closed connection or one that never completes its secure handshake, never affects the delivery of other messages or connections. A temporary accept failure does not stop the server; closing it ends serving with an error.",
 ["schedules","histories"],"all interleavings (to a preemption bound) of 2 connections with up to 2 messages each, blocking callbacks, malformed input, disconnects, temporary accept errors and close",
 "Tests use one connection at a time with prompt callbacks.",
 ["transport/server.go","transport/conn.go"],
 [m("accept loop with a goroutine per connection","transport/server.go Serve/handle"),m("callback dispatch in its own goroutine","transport/server.go onMessage")],
 observe=["callback invocations and replies per connection"])
p("T13","Custom headers behave as a typed multi-map",
 "For every header type other than those of the message's own fields, and for every sequence of operations, setting a type that is absent stores it and reports success, setting one that is present changes nothing and reports refusal, and appending adds all given values after the existing ones. Lookup returns exactly the stored values in order, and the first one when asked for a single value. A copy of a message made for sending has headers of its own. Values sent are received in the same order, decoded into the registered type when one is registered and as raw bytes otherwise.",
 ["histories","inputs"],"all operation sequences up to a bounded length over two header types and two values, followed by a trip over a connection",
 "The test performs one set and one lookup.",
 ["transport/messageheaders.go"],
 [m("set/append/get","transport/messageheaders.go SetCustomHeader/AppendCustomHeader/GetCustomHeaders"),m("activators","transport/messageheaders.go RegisterHeaderActivator")],
 observe=["return values and lookups; received headers"])

# ---------------------------------------------------------------- lease
p("L01","Lease frames and messages follow the exact lease wire layout",
 "Every ping put on the wire is one whole frame whose sizes, offsets and counts describe exactly its contents, carrying the session's instance, the configured lease duration, the peer instance learned from its last answer and the agent's own listen endpoint. Every well-formed lease message takes effect exactly as its bytes say (its type, the listen endpoint it names and the instance it carries), however the stream is fragmented and wherever the endpoint lies in the message; this includes messages produced by other agents of this library.",
 ["inputs","histories"],"all combinations of addresses, ports, durations and instances from boundary alphabets; every message type; messages with and without bytes after the endpoint; every fragmentation with a bounded number of cuts",
 "The lease package has no tests.",
 ["lease/serialize.go","lease/frame.go","lease/agent.go"],
 [m("header and list descriptors","lease/serialize.go marshal/unmarshal"),m("frame writer/reader","lease/frame.go")],
 observe=["bytes written by a session","sessions woken by crafted messages"])
p("L02","A hostile lease peer can only end its own connection",
 "Whatever bytes arrive on an agent's listening side, the agent never panics, never exhausts its stack and never allocates more than the frame length the peer committed to; at worst that one connection ends. Valid messages received before the malformed data, and messages on other connections, still take effect.",
 ["inputs","fault_sequences"],"all frame types and sizes and all endpoint offset/size descriptor values from boundary alphabets, all truncations and single-byte substitutions of a valid message, long runs of keep-alive frames",
 "The lease package has no tests.",
 ["lease/frame.go","lease/serialize.go","lease/agent.go"],
 [m("frame size handling","lease/frame.go nextLtFrame"),m("descriptor bounds checks","lease/serialize.go dataAtList/unmarshal")],
 observe=["panic / progress of the listening side"])
p("L03","Lease pings complete on a pong, and only on a pong",
 "A ping returns success only if a ping response for its session's endpoint arrived after the ping was issued; every ping waiting when such a response arrives is completed by it, and no response arriving after the ping was sent is missed. Closing the session or agent makes waiting pings return an error, and cancelling the context makes them return its error; until then they wait, however late the answer. The last-answer time of a session is when the latest such response arrived. Concurrent pings put only whole frames on the wire. The ping loop keeps pinging, answered or not, until its context ends and then returns the context's error.",
 ["schedules"],"all interleavings (to a preemption bound) of 2 pings, responses, cancellation, session close and agent close, at every synchronisation, memory access and socket operation",
 "The lease package has no tests; lost wake-ups need a response between the write and the wait.",
 ["lease/agent.go"],
 [m("broadcast by channel replacement","lease/agent.go boardcastPong/Ping"),m("frame write serialisation","lease/agent.go Ping")],
 observe=["Ping results versus responses injected","bytes on the session's conn"])
p("L04","Agents route answers to the right session and shut down cleanly",
 "An incoming answer affects exactly the session last established to the endpoint it names and no other; closing a session only unregisters that session, even when a newer one to the same endpoint exists. Closing an agent closes its listener and every session, ends its accept loop and makes later attempts to establish sessions fail. A temporary accept failure does not stop the agent. Closing anything repeatedly is harmless.",
 ["histories","schedules"],"all operation sequences to a bounded length over two endpoints (establish, answer, close session, close agent), and interleavings (to a preemption bound) of establish, answer and close",
 "The lease package has no tests.",
 ["lease/agent.go"],
 [m("session registry keyed by endpoint","lease/agent.go Establish/handleIncoming/Close"),m("accept loop","lease/agent.go Wait")],
 observe=["ping results and last pong times per session","accept loop result"])

# ---------------------------------------------------------------- federation
p("F01","Ring ranges contain exactly the ids between their ends",
 "A range contains exactly the ids met when walking upwards on the 128-bit ring from its begin to its end, both included, wrapping past the maximum when the end is below the begin. Ranges and ids are transmitted unchanged.",
 ["inputs"],"all triples (begin, end, id) over an alphabet of 128-bit values around 0, 2^64 carries, the sign bit and the maximum; all such ids and ranges through encode/decode",
 "The federation package has no tests.",
 ["federation/nodeid_range.go","federation/nodeid.go"],
 [m("containment","federation/nodeid_range.go Contains"),m("128-bit compare","federation/nodeid.go cmp")],
 observe=["NodeIdRange.Contains","Marshal/Unmarshal"])
p("F02","Node id text and name hashing are exact, total and deterministic",
 "The text of any id is its 32 hexadecimal digits, most significant first, and parsing it returns the same id; text that is not a hexadecimal number of at most 128 bits is rejected. Deriving an id from a name never fails or panics for any string, depends on the name only, and gives the ids Service Fabric assigns: nodes of one role with consecutive indices differ in their top 24 bits, pairwise distinct for any 2^24 consecutive indices.",
 ["inputs"],"every nibble value in every position, all short strings over a hex/sign/separator alphabet, all names up to a bounded length over a separator/digit/letter alphabet, compared with an independent implementation",
 "The federation package has no tests.",
 ["federation/nodeid_generator.go","federation/nodeid.go"],
 [m("NodeIDFromHex, NodeIDFromMD5, NodeIDFromV4Generator","federation/nodeid_generator.go")],
 observe=["generator results"])
p("F03","Partner knowledge only moves forward and is gossiped in full",
 "After any set of partner announcements, arriving in any order, duplicated, over any number of connections and concurrently, the node knows exactly every announced partner with the details of its highest announced instance, at the furthest phase announced for it; knowledge of a newer instance is never replaced by an older one. Every message the node sends, also one sent before, announces the node itself first and then every known partner with a real instance, exactly once each.",
 ["schedules","histories"],"all orders of announcement sets over 2 partners x 3 instances, and all interleavings (to a preemption bound) of 2-3 concurrent announcements with readers and senders",
 "The federation package has no tests.",
 ["federation/sitenode_parteners.go","federation/sitenode_sender.go","federation/sitenode.go"],
 [m("instance comparison under lock","federation/sitenode_parteners.go updatePartnerNode"),m("gossip headers","federation/sitenode_sender.go appendPartnerInfo")],
 observe=["KnownPartnerNodes","headers of outgoing messages"])
p("F04","Routing picks the nearest known partner on the ring, never itself",
 "A routed message goes to the known partner, other than the node itself and whatever its phase, whose id is the target or else the first one met walking upwards on the ring from the target, independent of the order in which partners were learned or are stored. A direct message goes only to the exact partner and fails without sending when that partner is unknown.",
 ["inputs","configurations"],"all subsets of up to 3 partners and all targets over an alphabet of ring positions including wrap-around, adjacent and extreme distances, under every table iteration order",
 "The federation package has no tests; map iteration order hides errors.",
 ["federation/sitenode_parteners.go","federation/sitenode_sender.go"],
 [m("ring distance minimisation","federation/sitenode_parteners.go closestPartnerNode"),m("exact match check","federation/sitenode_sender.go connectToNode")],
 observe=["address dialled and headers sent for each Route/SendOneWay"])
p("F05","Bootstrap finishes once a routing partner is known, under any timing",
 "Bootstrap returns success as soon as some partner has been announced as routing, no matter whether the announcement arrives before, during or after the probing of seeds, and whether several arrive at once; otherwise it keeps probing every seed periodically and returns only the context's error when cancelled. A seed that cannot be reached, or hangs when dialled or written to, does not prevent the others from being probed, and no partner in another phase ends bootstrapping. Phases only move forward.",
 ["schedules","fault_sequences"],"all interleavings (to a preemption bound) of Bootstrap with 1-2 routing/non-routing announcements and cancellation, with every subset of seeds failing to dial, over a virtual clock with a bounded number of probe rounds",
 "The federation package has no tests; the lost wake-up needs an announcement between probe and wait.",
 ["federation/sitenode_boot.go","federation/sitenode.go"],
 [m("phase change broadcast","federation/sitenode.go changePhase"),m("probe loop","federation/sitenode_boot.go Bootstrap")],
 observe=["Bootstrap result and time","probes seen by seeds"])
p("F06","Connections to partners are shared, replaced when broken and closed at the end",
 "Concurrent sends to one partner share a single connection: the partner is dialled at most once while a connection to it is alive. When dialling fails every waiting sender gets the error and the next send dials again; when a connection breaks the next send uses a new one. Closing the node closes every connection it opened, also one whose dialling ends later, and sends after the close open none. Serving the node serves its transport and its lease connections, through temporary accept failures, and returns an error as soon as either half ends or the node is closed.",
 ["schedules","fault_sequences"],"all interleavings (to a preemption bound) of 2-3 sends to the same or different partners with dial failure, peer disconnect and node close",
 "The federation package has no tests.",
 ["federation/sitenode_sender.go","federation/sitenode.go"],
 [m("connection pool with once-only dial","federation/sitenode_sender.go cachedConn/getConn"),m("node close","federation/sitenode.go Close")],
 observe=["dial count and open connections per address","send results"])
p("F07","Routed requests return their own reply or an error, on any connection",
 "A routed request returns the reply that relates to it, whichever connection it arrives on, and returns an error when that reply carries a fault code, when its context is cancelled (also while the partner is still being dialled or takes no data), when the node is closed or when it cannot be sent, but never merely because the reply is late; other incoming messages never complete it. Direct and routed messages, also a message object sent once more, carry the node's own instance as sender, the chosen partner's current instance as receiver (to be met exactly by direct ones, not by routed ones), and routed ones the request's identity in the routing header. A cancelled routed request never stops the node from processing later messages.",
 ["schedules","inputs"],"all interleavings (to a preemption bound) of 1-2 routed requests with replies (same or different connection, with or without fault), strays, duplicates and cancellation",
 "The federation package has no tests.",
 ["federation/sitenode_sender.go","federation/sitenode.go","transport/requesttable.go"],
 [m("node-wide pending table","federation/sitenode_sender.go Route, federation/sitenode.go onMessage")],
 observe=["Route results","headers on the wire"])

p("F08","Discovery probes every node found and returns each of them once",
 "Discovery probes the seeds and every partner found so far in rounds, goes on while partners are newly found, and ends after a few rounds without news, also when partners cannot be reached or hang. It returns every seed and every partner announced with an instance, each exactly once with its highest announced instance, and never the node itself. When its context is done it ends promptly with the context's error. Once it has ended it probes nothing any more.",
 ["schedules","histories","fault_sequences"],"all interleavings (to a preemption bound) of discovery with announcements over two connections, chains of partners each revealed by probing the previous one, unreachable nodes, and cancellation at every point",
 "The federation package has no tests.",
 ["federation/sitenode_boot.go","federation/sitenode_parteners.go"],
 [m("probe rounds","federation/sitenode_boot.go Discover")],
 observe=["probes seen by partners","Discover result"])

# ---------------------------------------------------------------- naming + cross-cutting
p("N01","Naming calls return the gateway's answer, its failure, or cancellation",
 "Each naming operation (ping, filter registration, application listing) sends the documented request and returns exactly what the gateway's reply contains. A failure reply, a reply with an error code in its headers or in its result, an answer to a ping with another action and a reply body cut short are returned as errors, never as a result, an empty success or a crash. Every operation returns promptly with the context's error once its context is cancelled, and until then waits for its answer.",
 ["inputs","schedules"],"all replies over an alphabet of actions, error codes, well-formed, empty, absent and malformed bodies for each operation; cancellation before and after sending at every interleaving to a preemption bound",
 "The naming package has no tests.",
 ["naming/naming.go"],
 [m("reply classification","naming/naming.go requestReply, Ping, GetApplicationList, RegisterFilter")],
 observe=["operation results versus scripted gateway replies"])
p("N02","Every service notification is delivered once and acknowledged correctly",
 "Each decodable service notification is handed to the registered handler exactly once with its full content and acknowledged exactly once as successful with a reply relating to it; a notification that cannot be decoded, or a message that contains none, is neither delivered nor acknowledged as successful. Unrelated messages produce neither. A handler that takes its time, or calls the client itself, holds up no other notification or reply. Filter ids handed out are distinct, also under concurrency, each registration carries the requested match options, and is preceded by a connection request of the same client that claims to know no versions yet.",
 ["histories","schedules","inputs"],"all sequences to a bounded length over decodable, undecodable and unrelated messages, with and without a handler; all option combinations; interleavings (to a preemption bound) of concurrent registrations and notifications",
 "The naming package has no tests.",
 ["naming/naming.go"],
 [m("notification handling","naming/naming.go onMessage"),m("filter ids","naming/naming.go RegisterFilter")],
 observe=["handler invocations and frames sent by the client"])
p("R01","Documented concurrent use is free of data races and deadlocks",
 "Using one connection, server, lease session, lease agent or federation node from several goroutines at once, in every combination of sends, requests, pings, callbacks, announcements, callback replacement and close, never performs two conflicting unsynchronised accesses to the same memory. No such use ever deadlocks.",
 ["schedules"],"all interleavings (to a preemption bound) of every pair of concurrent public operations on one object, with a happens-before check on every instrumented access",
 "The tests are not run under a race detector and a sampled run only sees the races its own schedule exposes.",
 ["transport/conn.go","transport/server.go","transport/requesttable.go","lease/agent.go","federation/sitenode.go","federation/sitenode_sender.go","federation/sitenode_boot.go","federation/sitenode_parteners.go","naming/naming.go"],
 [m("locks, atomics and channels guarding shared fields","all listed files")],
 observe=["vector-clock race detector over instrumented field, global and map accesses","threads blocked at quiescence"])
p("M01","Durations and wire time spans convert exactly and monotonically",
 "Converting a duration to a time span and back gives the duration truncated to 100 nanoseconds; larger inputs never give smaller results in either direction. A span too long for a duration, including the largest span used as infinite, converts to the largest duration instead of wrapping round.",
 ["inputs"],"all values around zero, every power of two, every unit boundary and the extremes, both directions",
 "The common package has no tests.",
 ["common/time.go"],[m("conversions","common/time.go TimeSpanFromDuration/ToDuration")],
 observe=["conversion results"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
