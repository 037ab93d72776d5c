#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so the texts stay readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
CODEC=["mqttp/packet.go","mqttp/header.go","mqttp/property.go","mqttp/routines.go","mqttp/publish.go","mqttp/connect.go",
 "mqttp/connack.go","mqttp/puback.go","mqttp/subscribe.go","mqttp/suback.go","mqttp/unsubscribe.go","mqttp/unsuback.go",
 "mqttp/disconnect.go","mqttp/auth.go","mqttp/pingreq.go","mqttp/pingresp.go","mqttp/types.go","mqttp/reasonCodes.go"]
p("C01","Packets survive any fragmented byte stream unchanged",
 "Any sequence of control packets whose contents are legal for the connection's protocol version (3.1, 3.1.1 or 5.0), encoded by one peer and carried over a reliable byte stream that fragments, coalesces and delays it arbitrarily, is decoded by the other peer as the same sequence of packets. Type, header flags, packet identifier, every field, every property (repeated user properties and subscription identifiers in their order) and the payload come out equal to what was put in.",
 ["inputs","schedules","fault_sequences","histories"],
 "all packet types, versions, legal contents and sizes; all sequences of them; all ways of cutting the stream",
 "The tests round-trip a few literal packets per type, almost only version 3.1.1, one packet at a time from one whole buffer; the property tests (property_test.go) are empty bodies, and no test carries a sequence through a stream or crosses a length-encoding boundary.",
 CODEC,[("encoding","mqttp/header.go Encode/Size and each packet's encodeMessage/size"),("decoding","mqttp/packet.go Decode, mqttp/header.go decode and each packet's decodeMessage"),("properties","mqttp/property.go")],
 ["Encode, Decode and the exported getters on both ends of a simulated connection"])
p("C02","Frame length is reported exactly and the receiver always makes progress",
 "For every proper prefix of a packet, decoding yields no packet and reports that there is not enough data, and once the length field has arrived it also reports exactly the total length of that packet; for a buffer that holds more than one packet it yields no packet and reports exactly the length of the first. A receiver guided by these answers alone therefore extracts every packet as soon as its bytes have arrived, however the stream was cut. A length field longer than four bytes is rejected as invalid instead of being reported as incomplete.",
 ["inputs","schedules","fault_sequences"],
 "all packets, all cut points and arrival schedules, all overlong length fields",
 "Tests look at four short literal buffers; progress of a receiver is a statement about every cut point of every packet and every arrival order, and about lengths at the 1/2/3/4 byte boundaries.",
 ["mqttp/header.go","mqttp/packet.go"],[("remaining length","mqttp/header.go uvarint, decode")],
 ["the byte count and error returned by Decode, as seen by a simulated stream reader"])
p("C03","Any byte sequence is decoded safely and within bounds",
 "Decoding any byte sequence (a valid packet that was corrupted, cut, spliced or forged in transit, or plain noise), for any protocol version, returns normally with either one packet or one error, never both and never neither, using work and memory proportional to the input's length and without modifying the input. A packet it returns accounts for every byte of the input and can be encoded again, and decoding that encoding gives the same contents.",
 ["inputs","fault_sequences"],
 "all byte strings and versions, reached by faults on legal traffic",
 "Tests feed about forty literal malformed packets; hangs, out-of-bounds accesses, oversized allocations and half-parsed packets hide in combinations of nested length prefixes and property encodings nobody wrote down.",
 CODEC,[("panic guard","mqttp/packet.go Decode"),("length checks","mqttp/routines.go ReadLPBytes, mqttp/property.go decode, mqttp/header.go decode")],
 ["Decode's results, the input buffer, step and allocation counters around the call"])
p("C04","Packets that break protocol rules are never accepted",
 "A received packet is never accepted when it violates the rules of its protocol version on: fixed-header flags, QoS and DUP; presence of packet identifiers; topic names, topic filters and subscription options; connect flags, protocol name and level, will and credentials; reason codes defined for the packet type; properties allowed for the packet type and whether they may repeat; UTF-8 validity of strings; and lengths that must add up to the length of the packet. This holds however the violation arises: a hostile peer, a flipped bit, or truncation or splicing of valid packets.",
 ["inputs","fault_sequences"],
 "all rule violations, single or combined, in packets of all types, versions and sizes",
 "Each rule is tested, if at all, by one literal packet in one version; whether a rule is enforced in every packet type, version and position is a universally quantified question.",
 CODEC,[("validation","each packet's decodeMessage; mqttp/types.go NewTopic, ValidTopic; mqttp/property.go decode; mqttp/reasonCodes.go IsValidForType")],
 ["Decode's verdict compared with an independent parser of the standard's rules"])
p("C05","The wire format is the MQTT standard's in both directions",
 "Every legal packet written by an independent MQTT implementation, in any form the standard permits (any order of properties, optional trailing fields omitted or explicit), is accepted and yields exactly the contents that were sent. Every packet this library encodes from legal contents is legal and reads back with those contents in an independent implementation. Its getters are exact: a property that is absent is not found, one that is present is read as its own type and refused as any other, and an enumeration of filters ends with the error of its visitor.",
 ["inputs","configurations","schedules"],
 "all legal packets, versions and permitted encodings, both directions, any stream fragmentation",
 "The tests compare with bytes produced by the same author for a handful of packets; a symmetric mistake in encoder and decoder passes every round-trip test and still cannot talk to anyone else.",
 CODEC,[("encoding and decoding","each packet's encodeMessage and decodeMessage"),("tables","mqttp/property.go, mqttp/reasonCodes.go, mqttp/packetType.go")],
 ["bytes on a simulated connection whose other end runs a separately written codec"])
p("C06","Encoding respects the caller's buffer and can always be retried",
 "The announced size of a packet is exactly the number of bytes that encoding it writes, whatever stale bytes the buffer held before, and nothing after that is touched. A buffer that is too small is left untouched and refused with an error, and contents that cannot be represented (missing packet identifier, DUP with QoS 0, over-long strings, a packet above the protocol's maximum length) are refused with an error, never with a panic. After any failed or abandoned attempt, encoding the same packet again gives the same packet.",
 ["inputs","fault_sequences","crash_points","histories"],
 "all packets, buffer sizes and previous buffer contents, all points at which an attempt is abandoned",
 "Tests encode into fresh zeroed buffers that are large enough, once; stale bytes, short buffers and retries are never combined with properties, wills or large packets.",
 CODEC,[("size and bounds","mqttp/header.go Size, Encode; mqttp/routines.go WriteLPBytes; mqttp/property.go encode")],
 ["bytes of the caller's buffer around and after each attempt"])
p("C07","A packet's encoding depends only on its current contents",
 "After any history of setting, replacing and discarding fields and properties, rejected updates, size queries, failed and successful encodings, protocol version changes, and decoding followed by modification, a packet encodes exactly its current logical contents, as if it had been freshly built with them. An update that returns an error leaves the contents unchanged. Properties, which versions before 5 do not have, are neither shown nor encoded while the version is one of those and are there again when it changes back.",
 ["histories","inputs"],
 "all operation histories over all packet types and versions",
 "Tests set each field once and encode once; state that survives a replacement, a rejected call or a version change only shows in longer histories.",
 CODEC,[("mutable packet state","mqttp/header.go PropertySet/PropertiesDiscard/SetVersion; setters of each packet; property length bookkeeping in mqttp/property.go")],
 ["the encoding of one long-lived packet object, read by an independent parser, against a model of its logical contents"])
p("C08","Clones made concurrently for many subscribers are complete and isolated",
 "Any number of subscribers may concurrently clone the same application message, for any protocol versions, and then change and encode their own copies, in any interleaving. Each clone has the original's topic, payload, QoS, retain flag and expiry time, DUP cleared, and the requested protocol version, and carries the original's payload format, content type, response topic, correlation data and user properties exactly when both versions are 5.0. No change made through one copy (setting, replacing, extending or discarding its fields and properties, or encoding it) is ever visible in the original or in another clone; the bytes that getters hand out are read-only. None of it involves a data race.",
 ["schedules","inputs","histories"],
 "all interleavings of cloning, changing and encoding threads, all messages and versions",
 "No test clones a packet at all, and none shares one between goroutines.",
 ["mqttp/publish.go","mqttp/property.go","mqttp/header.go"],[("cloning","mqttp/publish.go Clone")],
 ["getters and encodings of the original and all clones during and after each schedule"])
p("C09","Work on separate packets in parallel never interferes",
 "When many connections build, encode and decode their own packets concurrently, in any interleaving and with any of them aborted at any point, every operation gives exactly the result it would give if it ran alone, and there is no data race between them.",
 ["schedules","crash_points","inputs"],
 "all interleavings and abort points of independent connections' codec work",
 "All tests run one goroutine at a time; shared scratch space, caches or pools only show under particular interleavings.",
 ["mqttp/packet.go","mqttp/header.go","mqttp/property.go","mqttp/routines.go","mqttp/types.go","mqttp/connect.go"],[("package-level state","tables and regular expressions in mqttp/property.go, mqttp/types.go, mqttp/reasonCodes.go")],
 ["results of each connection's operations compared with a solo execution and with the independent codec"])
p("C10","Message expiry follows the clock exactly",
 "At every instant a message with an expiry time is reported alive, with the number of whole seconds left, as long as at least one whole second remains, and expired with zero seconds left otherwise; a message without an expiry time never expires. This holds whether the clock runs steadily, stalls, or steps forwards or backwards, equally for clones of the message in any protocol version, and a remaining lifetime beyond the protocol's 32-bit range is reported as that range's maximum.",
 ["schedules","fault_sequences","inputs"],
 "all expiry times, query instants and clock movements",
 "TestPublishExpire looks at two instants of the real clock; boundaries, clock steps and far expiry times cannot be reached by sleeping in a test.",
 ["mqttp/publish.go"],[("expiry","mqttp/publish.go SetExpireAt, Expired, Clone")],
 ["Expired on a simulated clock"])
p("C11","Stored messages survive crashes intact or are rejected, never altered",
 "A message received by a broker (as PUBLISH or as the will of a CONNECT), cloned for a subscriber's session, persisted in encoded form and reloaded after any number of crashes and restarts is delivered with the topic, payload, QoS, retain flag and forwardable properties it was published with, in the subscriber's protocol version. A persisted record that lost any part of its tail in a crash is rejected on reload rather than turned into a different message. A message whose lifetime has elapsed by the time of delivery, downtime included, is recognised as expired and one whose lifetime has not is delivered with its remaining lifetime.",
 ["crash_points","fault_sequences","histories","inputs"],
 "all messages, crash points, torn writes and restart sequences between publisher and subscriber",
 "The tests never chain decode, clone, encode, reload and delivery, and never cut an encoded packet at arbitrary points.",
 ["mqttp/publish.go","mqttp/packet.go","mqttp/header.go","mqttp/property.go","vlpersistence/types.go"],[("persisted form","vlpersistence/types.go PersistedPacket"),("clone and codec","mqttp/publish.go Clone, Encode, Decode, Expired")],
 ["what simulated subscribers receive, against what simulated publishers sent"])
p("C12","Traffic counters never lose or double count",
 "With any number of threads adding to the traffic counters while a periodic sampler takes interval differences, every addition is reported in exactly one interval, and the intervals sum to the counter's value. Sent and received counts are kept apart, and the value each addition returns is consistent with one total order of all additions. Adding, reading and sampling (each sampler with its own interval) involve no data race.",
 ["schedules","histories"],
 "all interleavings of any number of adders with a sampler, counter wrap-around included",
 "vlmonitoring has no tests at all; lost updates and double reports depend on the interleaving.",
 ["vlmonitoring/vlmetrics.go"],[("atomic counters","vlmonitoring/vlmetrics.go Counter.AddU64, Diff, FlowCounter, LoadStore, Load, Get")],
 ["returned values and interval differences of every simulated thread"])
p("C13","Gauge value and high-water mark are exact under concurrency",
 "With any number of threads raising and lowering a gauge concurrently, the gauge always equals what was added minus what was subtracted, and once all updates have finished the recorded maximum is exactly the highest value the gauge ever held. The recorded maximum never decreases, and updating and reading a gauge involve no data race.",
 ["schedules","histories"],
 "all interleavings of any number of raising, lowering and reading threads",
 "vlmonitoring has no tests at all; a maximum that is checked and stored in separate steps goes wrong only under particular interleavings.",
 ["vlmonitoring/vlmetrics.go"],[("gauge","vlmonitoring/vlmetrics.go Max.AddU64, SubU64, Load")],
 ["the gauge and maximum read during and after each schedule"])
p("C14","Received messages outlive the receive buffer",
 "The contents of a decoded application message (the will of a CONNECT included) or acknowledgement (topic, payload, packet identifier, reason, properties) stay unchanged for as long as it is held, even when the buffer it was decoded from is overwritten with later traffic. Changing, cloning or encoding a received message never writes to that buffer.",
 ["histories","schedules","inputs"],
 "all messages, properties and sequences of later traffic through the same buffer, in any interleaving with their readers",
 "Every test decodes from a literal that is never reused.",
 ["mqttp/publish.go","mqttp/header.go","mqttp/property.go","mqttp/puback.go","mqttp/suback.go"],[("copying out of the buffer","mqttp/publish.go decodeMessage, mqttp/header.go decodePacketID, mqttp/property.go decodeBinary/decodeString")],
 ["getters of held messages before and after the simulated receive buffer is reused"])
p("C15","Topic filters split into share name, $-prefix and filter as defined",
 "A topic or filter string is accepted exactly when it is well formed, and its share name, $-prefix and remaining filter are the parts the standard defines.",
 ["inputs"],"all strings","Tests try about twenty literals.",
 ["mqttp/types.go"],[("topic parsing","mqttp/types.go NewTopic, NewSubscribeTopic, ValidTopic")],["NewTopic and its getters"])
p("C16","Plugin configuration is normalised without loss",
 "Normalising a plugin configuration returns every entry unchanged when all keys are strings and reports an error otherwise.",
 ["inputs"],"all configuration values","vltypes has no tests.",
 ["vltypes/config.go"],[("normalisation","vltypes/config.go NormalizeConfig")],["NormalizeConfig's result"])
p("C17","Codes and statuses have stable, distinct descriptions",
 "Every defined error, reason code, packet type and authorisation status has its own description and undefined values have a fallback, without a panic.",
 ["inputs"],"all values of the code types","Only packet type names are tested.",
 ["mqttp/errors.go","mqttp/reasonCodes.go","mqttp/packetType.go","vlauth/auth.go","vlpersistence/types.go"],[("description tables","the files above")],["Error and Desc"])
p("C18","Refused packets are refused for a reason the peer can be told",
 "When a received packet is refused with a reason code, the code denotes a failure and is one that the packet's protocol version can carry back to the peer: for a CONNECT, a CONNACK return code of versions 3.1 and 3.1.1 or a CONNACK reason code of 5.0, and for any other 5.0 packet a DISCONNECT reason code. A CONNECT whose only fault is an unacceptable client identifier, a malformed user name, a password without a user name (before 5.0) or an unsupported protocol version is refused for exactly that reason, in the terms of the version it speaks, whatever version the receiver assumed. A complete packet is never refused as if more of it were still to come.",
 ["fault_sequences","histories","inputs"],
 "all faulty packets of all versions, however they were damaged and however the stream was cut",
 "Tests look at the error of about twenty literals; the reason depends on the version, the packet type, the field and the place where decoding stops.",
 ["mqttp/header.go","mqttp/connect.go","mqttp/publish.go","mqttp/subscribe.go","mqttp/unsubscribe.go","mqttp/property.go","mqttp/connack.go","mqttp/disconnect.go","mqttp/reasonCodes.go"],[("reasons","mqttp/header.go decode, decodeMessage of every packet type, mqttp/connack.go SetReturnCode")],
 ["errors of Decode, and the CONNACK or DISCONNECT a simulated client reads"])
p("C19","No illegal packet is ever sent",
 "Whatever contents a program asks for, legal or not, in one step or by later changes, and whether it made the packet or received it: every request is refused by a setter or by Encode, or the bytes that leave are a legal packet of the version it was made for, which an independent implementation and the library's own decoder accept and find the requested contents in. Illegal are: topic names and filters, texts that are not UTF-8 or contain a null character, over-long fields, a missing topic, filter, packet identifier or client identifier, QoS, DUP and subscription options, a password alone (before 5.0), reason codes of another packet type or version, and properties that the packet type (or a will) does not have or has twice. Legal contents are not refused.",
 ["histories","inputs","fault_sequences"],
 "all contents, legal or not, of all packet types and versions, and all sequences of requests",
 "Tests ask for a handful of wrong values through one setter each; what a later request, another setter or a received packet leads to is not looked at, nor what Encode then emits.",
 ["mqttp/publish.go","mqttp/connect.go","mqttp/connack.go","mqttp/subscribe.go","mqttp/unsubscribe.go","mqttp/suback.go","mqttp/unsuback.go","mqttp/puback.go","mqttp/disconnect.go","mqttp/auth.go","mqttp/property.go","mqttp/types.go","mqttp/reasonCodes.go"],[("setters and encoders","mqttp/*.go Set*, Add*, PropertySet, encodeMessage")],
 ["the bytes Encode returns, read by an independent parser and by Decode"])
p("C20","Long service does not wear a process out",
 "However many packets a process has built, encoded, decoded, refused, cloned and dropped, on however many connections, ended or aborted in whatever way: the memory the library itself keeps, the goroutines it has running and the work that one further packet costs stay within fixed bounds instead of growing with that number. A packet that is changed, read, encoded and cloned from copy to copy any number of times holds no more memory, and costs no more to encode, than a new packet with the same contents (up to a fixed factor).",
 ["histories","schedules","inputs","fault_sequences"],
 "all histories of use of any length",
 "Every test ends after a few packets; what is left behind by each of a million packets, refused ones among them, shows in none of them.",
 ["mqttp/packet.go","mqttp/header.go","mqttp/publish.go","mqttp/property.go","mqttp/connect.go","mqttp/subscribe.go","mqttp/unsubscribe.go","mqttp/routines.go","mqttp/types.go"],[("package state","package variables of mqttp; Encode, Decode, Clone, PropertySet, SetPacketID")],
 ["memory of a long-running broker, number of goroutines, time per packet"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
