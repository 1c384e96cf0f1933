#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS

L, C, PR = "src/lib.rs", "src/client.rs", "src/protocol/"
ACK = [PR + x for x in ("connack.rs", "puback.rs", "suback.rs", "unsuback.rs", "disconnect.rs")]
T_CODEC = "Inputs: the unit tests decode a handful of fixed packets; the claim is about every byte string."
T_LOOP = ("Schedules, histories and inputs: no existing test runs the event loop at all; the claim is about every order of events, "
          "every split of the byte stream and every packet content.")

P = []


def p(id, title, st, over, q, why, files, mech, obs, state=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=hook)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a))


HK = "cfg(ruq_verif) re-exports the codec, packet types and the id allocator (src/lib.rs, mod verif)"
p("C01", "No bytes can crash or hang the packet decoder",
  "Whatever bytes are handed to the packet decoder, it returns a packet, asks for more bytes, or returns an error. It never panics, "
  "never overflows an integer, never reads outside the bytes it was given and always terminates, for every packet type, including "
  "the ones the client does not support.",
  ["inputs"], "all byte strings", T_CODEC, ["src/mqtt_codec.rs", PR + "mod.rs"] + ACK + [PR + "publish.rs", PR + "properties.rs"],
  [("MqttCodec::decode", "src/mqtt_codec.rs"), ("parse_pkt and FromMqttBytes impls", PR)], ["MqttCodec::decode"], hook=HK)
p("C02", "The decoder takes exactly one packet's bytes, no more and no less",
  "As long as a packet is incomplete the decoder consumes nothing and reports that it needs more; once it is complete, exactly the "
  "bytes its fixed header announces are consumed, and the result does not depend on any byte behind them. Consecutive packets in one "
  "buffer are returned one after the other. A remaining length that continues past four bytes is an error.",
  ["inputs", "histories"], "all buffers and all bytes following a packet",
  "Inputs: the unit tests hand over exactly one complete packet each, never a partial one, never two, never a long one.",
  ["src/mqtt_codec.rs", PR + "mod.rs"], [("length check and advance in decode", "src/mqtt_codec.rs"), ("VBI", PR + "mod.rs")],
  ["MqttCodec::decode", "the buffer after it"], hook=HK)
p("C03", "Variable byte integers: shortest form, and back",
  "Every length from 0 to 268435455 is written in the shortest form of the MQTT variable byte integer and read back as the same value "
  "with the number of bytes it took. Any bytes that are read yield the value the specification gives them; unfinished ones ask for more, "
  "and those that continue past the fourth byte are rejected.",
  ["inputs"], "all 268435456 values; all byte sequences", "Inputs: tests try a few values.", [PR + "mod.rs"],
  [("VBI::convert_to_mqtt, VBI::convert_from_mqtt", PR + "mod.rs")], ["VBI conversions"], hook=HK)
p("C04", "A received PUBLISH means what its bytes say",
  "Every well formed PUBLISH is decoded to exactly the topic, payload, DUP, QoS, retain flag, packet id and properties (in order) its "
  "bytes carry, the payload as text if and only if the payload format indicator is 1. A PUBLISH that is malformed (QoS 3, packet id 0, "
  "lengths that do not fit, topic or text that is not UTF-8) is refused with an error, never accepted as something else.",
  ["inputs"], "all PUBLISH packets with the properties the client knows (ids 1, 2, 8, 9, 38)", T_CODEC,
  [PR + "publish.rs", PR + "properties.rs", PR + "mod.rs"],
  [("FromMqttBytes for Publish", PR + "publish.rs"), ("FromMqttBytes for Vec<Property>", PR + "properties.rs")],
  ["MqttCodec::decode", "Notification::Message"], hook=HK)
p("C05", "Acknowledgements and DISCONNECT mean what their bytes say",
  "Every well formed CONNACK, PUBACK, SUBACK, UNSUBACK, PINGRESP and DISCONNECT is decoded to the packet type, packet id, reason code "
  "(of an UNSUBACK all of them) and properties its bytes carry, a missing reason code meaning success. Unknown reason codes, packet id 0, invalid CONNACK flags and lengths "
  "that do not fit are refused with an error.",
  ["inputs"], "all such packets with the properties the client knows (reason string, user property)", T_CODEC, ACK + [PR + "pingresp.rs"],
  [("FromMqttBytes impls and TryFrom<u8> of the reason codes", PR)], ["MqttCodec::decode"], hook=HK)
p("C06", "Properties survive the codec",
  "A list of PUBLISH properties of any kinds and values is encoded with its correct length as the specification says and decoded to the "
  "same properties in the same order. Decoding a property list consumes exactly the announced length and yields what the bytes say; "
  "malformed lists are refused.",
  ["inputs"], "all lists of the five supported kinds, all values", "Inputs: tests cover single fixed properties.",
  [PR + "properties.rs"], [("ToMqttBytes/FromMqttBytes for properties", PR + "properties.rs")], ["property codec", "PUBLISH bytes"], hook=HK)
p("C07", "A PUBLISH that is sent says what was asked",
  "For every topic, payload, QoS, retain flag, packet id and list of properties the encoded PUBLISH is exactly one well formed MQTT 5 "
  "packet carrying just those, with the shortest length encoding, and a packet id if and only if the QoS is above 0. It is appended to "
  "the output buffer, and what was in the buffer stays as it was.",
  ["inputs"], "all publishes whose parts fit the length fields of MQTT", "Inputs: the tests encode a few fixed messages.",
  [PR + "publish.rs", PR + "mod.rs", "src/mqtt_codec.rs"], [("ToMqttBytes for Publish", PR + "publish.rs"), ("Encoder", "src/mqtt_codec.rs")],
  ["MqttCodec::encode", "bytes written to the socket"], hook=HK)
p("C08", "Control packets that are sent are well formed and say what was asked",
  "CONNECT, SUBSCRIBE, UNSUBSCRIBE, PUBACK, PINGREQ and DISCONNECT are each encoded as exactly one well formed MQTT 5 packet with the "
  "required fixed header flags, carrying just the client id, keep alive, topic filters, QoS, packet id and reason code that were asked for; "
  "a PUBACK or DISCONNECT with reason string and user properties is written with exactly those.",
  ["inputs"], "all packet ids, keep alive values, QoS, reason codes and texts of up to 65535 bytes", "Inputs: tests encode fixed examples; PUBACK and DISCONNECT are not encoded by any.",
  [PR + x for x in ("connect.rs", "subscribe.rs", "unsubscribe.rs", "puback.rs", "pingreq.rs", "disconnect.rs")],
  [("ToMqttBytes impls", PR)], ["MqttCodec::encode", "bytes written to the socket"], hook=HK)
p("C09", "The packet id allocator never hands out an id that is in use",
  "Over every history of allocations and returns, an allocated packet id is non-zero, within the range and not in use, and an id can be "
  "allocated whenever at least one is free. When none is free the allocator says so; returning an id that is not in use changes nothing.",
  ["histories", "inputs"], "all histories of allocate and return, all 65535 ids",
  "Histories: the tests run a few fixed sequences, never returning foreign ids and never exhausting the range.",
  ["src/pktids.rs"], [("free list of ranges", "src/pktids.rs")], ["PktIds::next_id", "PktIds::return_id"],
  [("free list", "ids not in use, as linked ranges", "src/pktids.rs")], hook=HK)
p("C10", "Requests in flight have distinct packet ids, and ids come back",
  "On one connection the packet ids of all requests that are not acknowledged yet (QoS above 0 publishes, subscribes, unsubscribes) are "
  "pairwise distinct and non-zero. An acknowledgement from the server frees exactly its id for later requests, an acknowledgement of an "
  "id not in flight changes nothing, and with no id left a request fails with an error instead of reusing one.",
  ["histories", "inputs"], "all histories of requests and acknowledgements", T_LOOP, [L, "src/pktids.rs"],
  [("next_id and return_id in poll", L)], ["packets on the wire", "result of the event loop"],
  [("pktids", "ids in use", L), ("queue", "unacknowledged QoS 1 messages", L)],
  hook="limit_pktids makes the id range small; the full range is covered as well")
p("C11", "CONNECT first, and nothing more before a successful CONNACK",
  "The first packet on every connection is one CONNECT, and nothing else is sent before the server's CONNACK, whatever commands are "
  "waiting. A CONNACK is notified; a success goes on, while a refusal, any other first packet, a connection that fails or ends before "
  "CONNACK makes the event loop finish with an error, without sending anything further and without waiting forever.",
  ["inputs", "schedules", "fault_sequences"], "all first packets, all failures before CONNACK, all arrival patterns", T_LOOP, [L, PR + "connack.rs"],
  [("start of poll", L)], ["bytes written", "notifications", "result of the event loop"])
p("C12", "Every message from the server is notified and acknowledged once, in order",
  "Every packet the server sends on an established connection leads to its notification exactly once (message, SUBACK, UNSUBACK; none "
  "for PUBACK and PINGRESP), in the order of arrival. Every QoS 1 message is acknowledged with exactly one PUBACK carrying its packet "
  "id, in order, and nothing else is acknowledged.",
  ["histories", "inputs", "schedules"], "all sequences of server packets, together or apart", T_LOOP, [L, PR + "puback.rs"],
  [("incoming branch of poll", L)], ["bytes written", "notifications"])
p("C13", "A slow or absent notification consumer loses nothing and breaks nothing",
  "When notifications are not consumed, none is dropped, duplicated or reordered: the event loop waits and goes on when they are "
  "consumed. When the receiver of notifications is gone, the event loop keeps running and still acknowledges messages.",
  ["schedules", "histories"], "all points at which the consumer stops, resumes or goes away", T_LOOP, [L, C],
  [("sender.send().await", L), ("bounded channel", C)], ["notifications", "bytes written"])
p("C14", "Every accepted command is sent exactly once, in order, as given",
  "Each command the client accepts (publish, subscribe, unsubscribe) leads to exactly one packet with exactly the topic, payload, "
  "properties, QoS and flags given to the client API, in the order the commands were accepted, regardless of traffic from the server in "
  "between. A command that cannot be accepted (queue full, event loop gone, a text or message too long for MQTT's length fields) is reported as an "
  "error to the caller and never sent.",
  ["histories", "inputs", "schedules"], "all sequences of commands, contents, interleavings with server traffic", T_LOOP, [L, C],
  [("command branch of poll", L), ("Client and PublishBuilder", C)], ["bytes written", "result of the client calls"])
p("C15", "The client keeps its keep alive promise, and a live server is not given up",
  "While the event loop is polled whenever a timer is due, an established connection never stays without a client packet for longer than "
  "the keep alive interval announced in CONNECT, and no more than one PINGREQ is sent per interval, even while the consumer of "
  "notifications takes none. As long as the server takes what is sent, however slowly, and answers each PINGREQ before the next is due, "
  "the event loop does not end. (A packet the server is still taking counts as sent.)",
  ["schedules", "histories"], "all points in time, all traffic", T_LOOP, [L, PR + "connect.rs"],
  [("ping interval and keep_alive in poll", L)], ["bytes written over time", "result of the event loop"])
p("C16", "A server that stops answering pings is detected",
  "While notifications are taken: if a PINGREQ is not answered until the next one is due, the event loop ends with a time out error within two keep alive intervals "
  "(plus the time packets have to wait until the server takes them), whatever other traffic there is. An answer at any moment before that keeps the connection, and one answer serves one PINGREQ only. A server that takes none of "
  "the bytes sent to it for two keep alive intervals is detected in the same way.",
  ["schedules", "histories"], "all moments of an answer, all numbers of answered pings, other traffic", T_LOOP, [L],
  [("pingresp_received", L)], ["result of the event loop over time"], [("pingresp_received", "whether the last ping was answered", L)])
p("C17", "The connection ends properly, whoever ends it",
  "After the client's disconnect everything accepted before is sent, DISCONNECT is the last packet, the connection is closed and the "
  "event loop ends without error. A normal DISCONNECT of the server or the end of the stream between packets ends it without error; any other reason, the stream ending "
  "inside a packet, read and write errors end it with an error. Dropping all clients neither ends nor busy-loops it, and commands after the "
  "end fail.",
  ["histories", "fault_sequences", "schedules"], "all points of failure, all reason codes, commands before", T_LOOP, [L, C, PR + "disconnect.rs"],
  [("Disconnect handling, None branches in poll", L)], ["result of the event loop", "bytes written", "number of polls"])
p("C18", "How the byte stream is cut makes no difference",
  "However the server's bytes are cut into pieces and however little the socket takes per write, the same packets are sent and the same "
  "notifications are delivered, once and in the same order. A write that has to wait is finished later, without loss or repetition.",
  ["schedules", "inputs"], "all cuts of the stream in both directions", T_LOOP, [L, "src/mqtt_codec.rs"],
  [("FramedRead, FramedWrite, select! in poll", L)], ["bytes written", "notifications"])
p("C19", "Nothing the server sends can crash or hang the event loop",
  "Whatever bytes the server sends, before or after CONNACK, the event loop never panics and never spins: it goes on waiting or ends with "
  "a result. Packet types the client cannot handle (including QoS 2 messages and packets only a client may send) end in an error or are ignored, not in a panic.",
  ["inputs", "schedules"], "all byte strings from the server", T_LOOP, [L, "src/mqtt_codec.rs", PR],
  [("incoming branch of poll", L)], ["result of the event loop"])
p("C20", "Notification texts report the packet's content",
  "The text of a message notification shows the topic, payload, QoS, retain and DUP flag, packet id and properties of the packet it was "
  "made from, and the text of SUBACK and UNSUBACK notifications its packet id, reason and properties, for every reason code.",
  ["inputs"], "all reason codes, kinds of payload and properties", T_LOOP, [L, PR + "publish.rs", PR + "suback.rs", PR + "unsuback.rs"],
  [("format! of the packet in poll, derived Debug", L)], ["notifications"])

p("C21", "Nothing is left behind when the event loop goes, whenever that is",
  "The event loop can be dropped at any point - before it is polled, while it connects, inside the handshake, with packets partly sent, "
  "with notifications waiting - or end by itself: the connection is closed once, nothing more is sent, every command of every clone of "
  "the client is refused with an error, and the notifications made before can still be taken, after which their stream ends.",
  ["crash_points", "histories"], "all points at which it is dropped or ends, all histories before",
  "Crash points and histories: no existing test runs the event loop, let alone drops it midway.", [L, C],
  [("ownership of the socket halves and channel ends by EventLoop and poll", L), ("try_send in the methods of Client", C)],
  ["the socket", "results of the client's methods", "the stream of notifications"])
p("C22", "Any way of polling the event loop gives the same result",
  "The event loop is a future that may be polled at any time, whether something has happened or not, and by one task after the other "
  "(only the waker of the latest poll counts). Additional polls and changes of the task, at any point of the handshake, of a session, "
  "with a blocked socket or a full notification queue, change nothing: the same bytes are sent, the same notifications are delivered, "
  "at the same points in time, and it ends in the same way. No event is left waiting for another one.",
  ["schedules", "histories"], "all histories of events, polls in between, changes of the waker",
  "Schedules: no existing test polls the event loop.", [L],
  [("Future for EventLoop, Future for MQTTFuture, select! in poll", L)],
  ["bytes written", "notifications", "result of the event loop"])
p("C23", "A flood does not fill the memory",
  "While the consumer takes no notifications, or the server takes no bytes, the event loop stops reading from the server after at most "
  "1000 packets, and the client accepts at most 1000 commands before it refuses with an error. Once they go on, everything read, "
  "acknowledged or accepted is delivered, none lost.",
  ["histories", "schedules"], "all kinds of messages, servers and consumers that stop",
  "Histories: no existing test sends more than one packet.", [L, C],
  [("bounded channels in Client::new", C), ("send, notify before the next read in poll", L)],
  ["bytes taken from the socket", "results of the client's methods", "notifications"])

assert {x["id"] for x in P} == set(PROPS), "props.py and mkmeta.py differ"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
NOTE = ("All values within the stated bounds are decided by symbolic execution of the LLVM IR of /repo's current tree with Z3; every "
        "counterexample and a sample of the paths are replayed natively. Trusted: rustc/LLVM IR semantics as implemented in engine/, Z3, "
        "the net/time stand-in in shim-tokio/, the reference reader in harness/src/refm.rs. Bounds: ")
M = dict(version=1, setup_cmd="python3 build.py",
         hooks=dict(guard="cfg(ruq_verif)", enable="RUSTFLAGS=--cfg ruq_verif (done by build.py; cfg(ruq_verif_no_packets, _parts, _reasons, _limit, _ids) leave out parts of the hook that do not fit a changed tree)", source_commits=["ad21257", "ec77a84", "8254c59", "e44ff89"]),
         checks=[dict(property=x["id"], quick_cmd="python3 check.py %s quick" % x["id"],
                      thorough_cmd="python3 check.py %s thorough" % x["id"],
                      technique="symbolic execution of the real code's LLVM IR, SMT (Z3) decides every assertion",
                      level="model_checking", level_note=NOTE + PROPS[x["id"]]["bounds"] + ".") for x in P],
         not_applicable=[])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
