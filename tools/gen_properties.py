#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

STREAM="src/mqtt/transport/mqtt_bytes_stream.rs"; DEC="src/mqtt/transport/packet_decoder.rs"
ENC="src/mqtt/transport/packet_encoder.rs"; LIS="src/mqtt/listener.rs"
H="src/broker/client_packet_handler.rs"; MS="src/broker/messaging/messaging_service.rs"
SUB="src/broker/messaging/subscriptions_repository.rs"; AUTH="src/broker/authentication.rs"
APP="src/application.rs"; SET="src/settings/mod.rs"; PW="ratelmq-passwd/src/main.rs"
SE="src/broker/session/session_entity.rs"; SR="src/broker/session/session_repository.rs"
PK="src/mqtt/packets/mod.rs"; EV="src/mqtt/events.rs"

prop("C01","Valid packets decode to exactly what was sent",
 "Every well-formed MQTT 3.1.1 client packet is decoded to exactly the fields its sender encoded, whatever its size (remaining length up to 268,435,455) and content. The result does not depend on how the bytes were split or merged by the transport, on what packets came before it on the connection, or on how many bytes the connection has already carried.",
 ["inputs","histories","schedules"],"all packet values of all client packet types, all sequences of packets on one connection, all segmentations of the byte stream",
 "The 15 decoder tests read one short hand-written packet each, in one write, on a fresh connection; none has a second packet, a split read, a payload above 10 bytes or a remaining length above one byte.",
 [STREAM,DEC,PK],[("read buffer refill and split","%s MqttBytesReadStream::{get_u8,get_u16,get_string,get_bytes,wait_for_data}"%STREAM),("per-type decoders","%s read_packet, decode_*"%DEC),("remaining length","%s decode_remaining_length"%DEC)],
 ["packets returned by read_packet over a real socket pair","end to end: topic and payload seen by a subscriber"],
 [("read_buffer","bytes received and not yet consumed",STREAM)])

prop("C02","Malformed input is refused, never misread or hung on",
 "Reading any byte sequence yields only packets whose declared length and content agree, then an error: a malformed packet (bad fixed-header flags, reserved or server-only type, QoS 3, content longer or shorter than the remaining length, over-long length field, contradictory or reserved CONNECT flags, invalid UTF-8, empty filter list, wildcard or empty topic name in a PUBLISH) is never accepted and nothing after it on the connection is interpreted. Decoding never panics, never loops without consuming input, and a connection that sends a malformed packet is closed.",
 ["inputs","histories"],"all byte sequences, including truncations and mutations of valid streams, in all segmentations",
 "No existing test feeds malformed bytes at all; every decoder test unwraps a success.",
 [DEC,STREAM,PK,LIS],[("fixed header validation","%s validate_first_byte, read_packet"%DEC),("length accounting","%s decode_publish/subscribe/unsubscribe/connect"%DEC),("connection closed on decode error","%s connection_read_loop"%LIS)],
 ["result of read_packet per packet","EOF on the client socket","panic output of the broker process"])

prop("C03","Outgoing packets are complete and exactly encoded",
 "Every packet the broker sends appears on the wire as exactly its MQTT 3.1.1 encoding, whole and contiguous, whatever its size, the packets sent before it and how slowly the peer reads. No byte of a packet is held back until a later packet is sent.",
 ["inputs","histories","schedules"],"all server packet values and sizes, all sequences on one connection, all read paces and socket buffer sizes of the peer",
 "The 10 encoder tests write one packet of at most 20 bytes to a fresh, empty socket; partial writes, multi-byte lengths and buffer reuse never occur.",
 [ENC,STREAM],[("length encoding","%s encode_remaining_length"%ENC),("buffered writing and flush","%s MqttBytesWriteStream::{put_*,finish_packet,write_buffer_if_too_small}"%STREAM)],
 ["bytes read from the peer socket"],[("write_buffer","encoded bytes not yet written",STREAM)])

prop("C04","Topic filters match exactly the topics MQTT says they match",
 "A client holding a subscription receives a message if and only if its filter matches the message's topic under MQTT 3.1.1 rules: exact level-by-level comparison, '+' matches exactly one level (also an empty one), a final '#' matches the parent level and any number of levels below, and a filter starting with a wildcard does not match a topic starting with '$'. The result for one subscription does not depend on which other subscriptions exist.",
 ["inputs","configurations"],"all pairs of topic filter and topic name, in all populations of other subscriptions",
 "The tests try about 25 fixed filter/topic pairs, none with empty levels, '$' topics, multi-byte characters, deep nesting or a bare '#'.",
 [SUB,MS],[("subscription tree walk","%s subscribed_clients"%SUB),("tree insertion","%s subscribe"%SUB)],
 ["deliveries at a subscriber holding the filter"],[("SubscriptionNode.children/clients","tree of filters by level",SUB)])

prop("C05","Published messages reach every matching subscriber",
 "Every message a connected client publishes after another (or the same) client's subscription was acknowledged, and before that subscription is removed or its client's connection ends, is delivered to that client if the subscription matches. This holds for any number of clients, listeners, messages and payload sizes, and for any interleaving of their traffic, as long as the subscriber keeps reading.",
 ["schedules","histories","inputs"],"all histories of concurrent connects, subscriptions, publications and disconnects of other clients; all interleavings of connection tasks",
 "No existing test runs the broker: routing, sessions, channels and socket tasks are never executed together.",
 [H,MS,SUB,SR,LIS],[("routing","%s on_publish; %s senders_to_publish"%(H,MS)),("bounded queues with back-pressure","%s mpsc channels"%LIS)],
 ["PUBLISH packets received by subscribers, against recorded publish and SUBACK events"],
 [("sessions","live sessions by client id",SR),("server_event channel","per-connection outbound queue",LIS)])

prop("C06","No phantom, altered, misrouted or repeated deliveries",
 "Every message a client receives was published by some client with the same topic and the same payload bytes, and at some moment between its publication and its receipt the receiver had a matching subscription. One publication is delivered to one client at most once per distinct matching filter it subscribed to.",
 ["schedules","histories","inputs"],"all histories of concurrent publishers and subscribers with overlapping and repeated subscriptions",
 "No existing test runs the broker; the tree tests never subscribe the same client twice.",
 [H,MS,SUB],[("recipient computation","%s subscribed_clients"%SUB),("fan-out","%s on_publish"%H)],
 ["PUBLISH packets received by every client, each payload carrying a unique publication id"])

prop("C07","Messages from one publisher arrive in publication order",
 "For each publisher connection, topic and subscriber, the subscriber receives that publisher's messages on that topic in the order they were published. This holds under any load, message sizes and interleaving with other clients.",
 ["schedules","histories"],"all interleavings of concurrent publishers and subscribers, with small and large messages mixed",
 "Order needs several messages and concurrent tasks; the tests never send two messages.",
 [H,LIS,MS,STREAM],[("FIFO event queue and a single dispatcher","%s run"%H),("FIFO outbound queue, single writer","%s connection_write_loop"%LIS)],
 ["sequence numbers in payloads as received by each subscriber"])

prop("C08","Subscribe and unsubscribe change exactly what they name",
 "A SUBSCRIBE adds exactly the valid filters it lists to that client's subscriptions, a filter already held being replaced rather than added again, and its SUBACK carries one return code per filter, in order, with failure for exactly the invalid filters. An UNSUBSCRIBE removes exactly the listed filters from that client, compared as strings. From the acknowledgement on, deliveries follow the new set, and no other client's subscriptions are affected.",
 ["histories","inputs"],"all sequences of subscribe/unsubscribe requests by several clients with shared, repeated, overlapping, multi-filter and invalid filters",
 "Unsubscribe is not tested at all, and the tree tests only ever add one subscription per filter.",
 [SUB,MS,H],[("tree update","%s subscribe, unsubscribe"%SUB),("acknowledgement after the update","%s on_subscribe, on_unsubscribe"%H)],
 ["SUBACK/UNSUBACK contents, and the deliveries of probe messages after each acknowledgement"],
 [("SubscriptionNode.clients","clients subscribed to a filter",SUB)])

prop("C09","Each request gets exactly its answer, in request order",
 "On an accepted connection every SUBSCRIBE, UNSUBSCRIBE and PINGREQ is answered by exactly one SUBACK, UNSUBACK or PINGRESP, carrying the request's packet identifier, in the order the requests were sent, and an accepted CONNECT by exactly one CONNACK before anything else. The broker sends nothing unsolicited except messages the client subscribed to, even when requests are pipelined or interleaved with publications.",
 ["histories","schedules"],"all sequences and pipelinings of requests on many concurrent connections",
 "The request handlers are never run by a test.",
 [H,LIS],[("handlers send one response","%s on_subscribe,on_unsubscribe,on_ping_req,on_connect"%H),("per-connection sender travels with each event","%s connection_read_loop"%LIS)],
 ["packets received on each connection against requests sent"])

prop("C10","A connection does nothing until it has sent a valid CONNECT",
 "A connection whose first packet is not a well-formed CONNECT for a supported protocol level (MQTT 3.1 or 3.1.1) is never accepted: it is closed, and none of its packets changes what any client holds or receives. A second CONNECT on an accepted connection closes it.",
 ["inputs","histories"],"all first packets and packet sequences before or without CONNECT, with other clients active",
 "No test opens a connection to the listener.",
 [LIS,DEC,H],[("first packet check","%s connection_read_loop"%LIS),("CONNECT decoding","%s decode_connect"%DEC)],
 ["packets and EOF on the connection; deliveries to a bystander"])

prop("C11","Credentials are accepted exactly when the password file says so",
 "A CONNECT carrying a user name is accepted if and only if the password file has an entry for exactly that user name whose hash verifies exactly that password; otherwise it is answered with a not-authorized return code and closed. The decision does not depend on other entries, on earlier attempts or on concurrent connections, and a missing password is a refusal.",
 ["inputs","configurations","histories"],"all password files, user names and passwords, including prefixes, case variants, empty, long, non-ASCII and delimiter-bearing values",
 "No test exercises authentication.",
 [AUTH,H],[("password lookup and argon2 verification","%s FileIdentityManager"%AUTH),("refusal","%s on_connect"%H)],
 ["CONNACK return code for each attempt"],[("passwords_by_username","entries of the password file",AUTH)])

prop("C12","A refused connection has no effect on the broker",
 "After a refused CONNECT nothing sent on that connection, before, with or after the refusal being received, has any effect: it receives no messages, nothing it publishes is delivered, it changes no subscription, and the client that legitimately holds the same client id keeps its session. The broker closes the connection.",
 ["histories","schedules"],"all packet sequences pipelined behind a refused CONNECT, with and without a legitimate client of the same id, in all interleavings",
 "No test exercises authentication or the listener, let alone requests racing with a refusal.",
 [H,LIS],[("refusal and disconnect","%s on_connect"%H),("event dispatch for a connection","%s on_packet"%H),("closing","%s connection_write_loop, connection_read_loop"%LIS)],
 ["packets and EOF on the refused connection; deliveries and subscriptions of bystanders and of the id's holder"])

prop("C13","A client id belongs to one live connection at a time",
 "When a client connects with an id that is already connected, the older connection is closed and from then on nothing it sends and nothing about its ending affects the new connection's session or subscriptions, and messages go only to the new connection. Clients that connect with an empty id never share a session with anyone.",
 ["histories","schedules"],"all histories with reused and empty client ids, including late packets, disconnects and resets from the replaced connection racing with the new one",
 "Needs two live connections with the same id; no test opens any.",
 [LIS,H,MS,SR],[("generated ids","%s connection_read_loop"%LIS),("session insertion","%s on_connect; %s insert"%(H,SR))],
 ["EOF on the older connection; deliveries and answers on the newer one"],
 [("sessions","one entry per client id",SR)])

prop("C14","An ended connection leaves nothing behind",
 "When a connection ends, by DISCONNECT, by the peer closing or resetting it at any byte, or by a protocol error, the client's session and all its subscriptions are removed: nothing more is sent for it, and a later connection with the same id starts with session-present 0 and no subscriptions. Packets following a DISCONNECT have no effect.",
 ["histories","crash_points","schedules"],"all points at which a connection can end (every packet boundary, inside packets, with data queued in either direction), and all later reconnections",
 "Only the tree's removal of a client is tested, once; nothing tests that ending a connection triggers it.",
 [LIS,H,MS,SUB],[("end of the read loop","%s connection_read_loop"%LIS),("session and subscription removal","%s disconnect, connection_lost; %s remove_client"%(MS,SUB))],
 ["deliveries and CONNACK flags after reconnecting; number of broker sockets"])

prop("C15","No client can stop the broker from serving the others",
 "Whatever bytes any number of clients send, in any order, and however they close, reset or abandon their connections, the broker process keeps running, none of its tasks panics, and every well-behaved client continues to be served: new clients can connect, and requests and messages of others go through. Once the hostile clients are gone the broker comes to rest.",
 ["inputs","histories","fault_sequences"],"all byte sequences and connection endings, valid, malformed and random, from many concurrent hostile clients, up to exhausting the broker's file descriptors",
 "The tests run no broker and feed no hostile input.",
 [H,LIS,DEC,STREAM,PK,MS],[("error returns instead of panics","%s, %s"%(DEC,LIS)),("dispatcher survives closed client queues","%s run, on_*"%H)],
 ["a canary client's round trips, process liveness, panic output, CPU use at rest"])

prop("C16","A stalled client does not hold up other clients",
 "A client that is idle, that stops in the middle of a packet, or that stops reading does not prevent other clients from connecting, being answered and exchanging messages, and does not affect the content they receive.",
 ["schedules","histories"],"all ways and moments at which some clients stop sending or reading, under traffic between the others",
 "Needs stalled peers and concurrent traffic against a running broker.",
 [H,LIS],[("a task per connection direction","%s handle_connection"%LIS),("outbound queues","%s handle_connection; %s on_publish"%(LIS,H))],
 ["round trips of bystanders while others are stalled"])

prop("C17","Forwarded messages carry the granted QoS and clean flags",
 "A message forwarded to a subscriber is sent with a QoS not above the one granted to it in the SUBACK, without a packet identifier when sent at QoS 0, and with the RETAIN and DUP flags clear, whatever flags and QoS the publisher used. Topic and payload are unaffected by the publisher's QoS and flags.",
 ["inputs","histories"],"all combinations of publisher QoS, RETAIN, DUP, packet identifier, payload and requested subscription QoS",
 "The encoder tests check the flags of hand-built packets; no test forwards a message.",
 [H,ENC,SUB],[("forwarding","%s on_publish"%H),("granted QoS","%s subscribe"%SUB),("fixed header encoding","%s write_publish"%ENC)],
 ["fixed header and body of PUBLISH packets received by subscribers"])

prop("C18","An interrupt stops the broker cleanly and promptly",
 "On SIGINT the broker stops accepting, ends all its parts and exits with status 0 within a bounded time, without a panic, whatever clients are connected and whatever traffic is in flight. A broker that failed to start because of its configuration does not linger half-started.",
 ["histories","crash_points"],"all numbers of clients and listeners and all moments of the interrupt relative to connects, traffic and disconnects",
 "run() and the shutdown path are executed by no test.",
 [APP,LIS,H,MS],[("broadcast of the interrupt","%s run"%APP),("select on the interrupt","%s start_accepting; %s run"%(LIS,H)),("joining all tasks","%s run"%APP)],
 ["exit status, time to exit and panic output of the process"])

prop("C19","Settings take effect, and environment overrides the file",
 "The broker listens on every address configured, all listeners serve the same broker (a message published through one reaches subscribers of any other), and each setting takes the RATELMQ_ environment value when one is given (in the environment itself or, if not there, in a .env file) and the configuration file's value otherwise. A configuration that is missing a setting or cannot be read prevents the broker from starting rather than being replaced by something else.",
 ["configurations"],"all combinations of file and environment values, numbers of listeners, and missing or malformed settings",
 "Settings have no tests at all (the source says 'todo: tests for envs precedence').",
 [SET,APP,"src/main.rs"],[("layered configuration","%s Settings::new"%SET),("one listener per address","%s run"%APP)],
 ["which addresses accept MQTT connections, cross-listener deliveries, which password file is in force, exit status"])

prop("C20","The password tool changes exactly the named user's entry",
 "Setting a user's password leaves every other entry of the password file byte for byte as it was, leaves that user's entry or entries with the new password only (one entry is added if there was none), and makes the broker accept that user with exactly that password; deleting a user removes exactly that user's entry. The file keeps its place, owner and permissions. User names are compared exactly, whatever characters they contain and whatever other names are in the file.",
 ["inputs","histories","configurations"],"all password files and all sequences of set and delete operations over user names that are prefixes, suffixes, case variants or regular-expression look-alikes of each other",
 "The tool has no tests.",
 [PW,AUTH],[("entry search and replacement","%s main"%PW),("hashing","%s build_entry"%PW),("verification","%s"%AUTH)],
 ["password file contents before and after; authentication outcomes against the broker's identity provider"])

prop("C21","A failed or interrupted password update never loses entries",
 "If the password tool is killed, or its file operations fail, at any point of an update, the password file afterwards holds either the complete old or the complete new contents. In particular other users' entries are never lost.",
 ["crash_points","fault_sequences"],"every system call of the update as a point of death or of failure",
 "The tool has no tests and crash points are not reachable from unit tests.",
 [PW],[("file replacement","%s main (std::fs::write)"%PW)],
 ["password file contents after each injected crash or fault"])

prop("C22","Keep-alive expiry is decided at one and a half times the interval",
 "A session with a keep-alive of zero never expires; any other session is reported as expired exactly when the time since its last recorded activity, in whole seconds, has reached one and a half times its keep-alive interval (rounded down to whole seconds). The broker's list of expired sessions is exactly the set of sessions for which this is true.",
 ["inputs","histories"],"all keep-alive values 0..65535, activity times and clock readings, and all populations of sessions",
 "Nothing tests expiry.",
 [SE,MS],[("expiry test","%s is_keep_alive_expired"%SE),("collection","%s session_get_keep_alive_expired"%MS)],
 ["the public session and messaging API"],[("last_activity","time of last activity",SE)])

prop("C23","No memory error, data race or undefined behaviour is reachable",
 "No input, workload or interleaving makes the broker or its codec access memory out of bounds or after free, read uninitialised memory, race on unsynchronised data, or execute other undefined behaviour.",
 ["inputs","schedules","histories"],"all packet streams and all interleavings of connection, dispatcher and messaging tasks",
 "The tests run without sanitizers and never run concurrent tasks.",
 ["src/"],[("safe Rust throughout; ownership of sessions by one task","%s run; %s run"%(MS,H))],
 ["ThreadSanitizer, AddressSanitizer and Miri reports while the real broker and codec run hostile and concurrent workloads"])

prop("C24","Broker resources are bounded by live connections",
 "After any history of connections, however they ended, the broker holds no more sockets than there are live connections, and repeating the same connect, subscribe, publish, end cycle does not make its memory or its per-connection state grow without bound.",
 ["histories","fault_sequences"],"all histories of connection churn: graceful, abrupt, refused, malformed, taken over, half-closed",
 "Leaks only show over many connections against a running broker.",
 [LIS,H,MS,SUB,SR],[("connection task ends and drops both socket halves","%s handle_connection"%LIS),("session drop releases the outbound queue","%s delete"%SR),("subscription removal","%s remove_client"%SUB)],
 ["open descriptors and memory of the broker process against live connections"])

prop("C25","The messaging core behaves as one atomic state machine",
 "Concurrent requests to the messaging core (insert, look up, count and end sessions; subscribe, unsubscribe; compute recipients) take effect one at a time, each between its submission and its reply, and their results are those of a simple map of sessions and set of (client, filter) subscriptions. The recipients computed for a topic are exactly the queues of those clients that have both a session and a matching subscription at that moment.",
 ["schedules","histories"],"all concurrent histories of requests from many tasks",
 "The messaging service has no test; its parts are tested only sequentially and one operation deep.",
 [MS,SUB,SR],[("single owner task draining a request queue","%s run"%MS)],
 ["requests and replies through the public request channel"],
 [("sessions, subscriptions","the broker's shared state",MS)])

prop("C26","Overlapping runs of the password tool all take effect",
 "When several runs of the password tool on one file overlap, in whatever way their steps interleave, the file afterwards is what the runs leave when they take effect one after another, each at some moment between its start and its end: the change of every run that reported success is there, unless a run that took effect later changed the same user again, and no other entry changes. Whoever reads the file meanwhile finds complete contents. A run that is killed or paused does not keep later runs from taking effect once it is gone or goes on.",
 ["schedules","crash_points"],"all interleavings of two or more runs of the tool, for equal and different users, with runs paused or killed at any system call",
 "The tool has no tests, and a lost update needs two processes between whose steps the other comes.",
 [PW],[("runs wait for each other","%s lock_file"%PW),("file replacement","%s replace_file"%PW)],
 ["password file contents and exit statuses of the runs, with one run held at each of its system calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
