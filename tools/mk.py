#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (properties with an entry in harness/PACKAGES)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, tests, files, mech, note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  note=note, technique=technique))


ROOT_TESTS = "The repository has no test of this package at all (test/ holds demo programs)."
SDP_TESTS = "The sdp tests decode and encode about twenty fixed descriptions; "

# ---- sdp ----
p("S01", "SDP round trip: encoding a description and decoding it gives it back",
  "Encoding any session description (every kind of session, time, zone, media, connection, bandwidth, key and attribute line) and decoding the result gives the same description, field by field and in the same order, both through the text and through the line list. "
  "Network and address types that are left empty come back as IN and as IP4 or IP6 according to the address, an empty user name as - and an empty session name as a blank, the values RFC 4566 has for them. Encoding leaves the description as it was, and encoding the decoded description gives the same text.",
  ["inputs"], "all descriptions whose texts contain no line breaks: any mix of optional lines, 0-3 time descriptions with repeats, zones, 0-3 medias, multicast connections with and without TTL and counts, 64-bit ids and times",
  SDP_TESTS + "no test goes in both directions over generated descriptions, so a field that only one side handles goes unseen.",
  ["sdp/encoder.go", "sdp/decoder.go", "sdp/fields.go", "sdp/sdp.go"],
  [("Message.Append / Session.AppendTo", "sdp/encoder.go"), ("Decoder.Decode", "sdp/decoder.go"), ("DecodeSession", "sdp/sdp.go")],
  "Exploration of generated descriptions with shrinking; the oracle is the description itself (round trip).", "property-based testing: round trip over generated descriptions")
p("S02", "The encoder writes the RFC 4566 text of the description",
  "The text the encoder writes for a description has exactly the lines RFC 4566 prescribes for it, in the prescribed order and syntax, whether the session and buffer are new or reused; what was in the buffer before stays in front. "
  "Each of the calls that add one line (version, origin, name, connection, bandwidth, timing, repeats, zones, media, attributes, ...) adds exactly that line with that value.",
  ["inputs", "histories"], "all descriptions, all sequences of line-adding calls, sessions with and without spare capacity and left-over lines",
  SDP_TESTS + "one fixed message and single calls with fixed arguments are compared with fixed text.",
  ["sdp/encoder.go", "sdp/fields.go", "sdp/sdp.go"], [("Append of the message and of medias", "sdp/encoder.go"), ("Session.Add*", "sdp/fields.go")],
  "Exploration of generated descriptions and call sequences against an independent writer of the text.", "property-based testing: reference model of the text; generated call sequences")
p("S03", "The decoder reads exactly what a well-formed description says",
  "Every well-formed session description is accepted and decoded to exactly what its lines say, whatever notation of the intervals (seconds, s, m, h, d), line ends, blank lines, surrounding white space and letter case of IPv6 addresses it uses. "
  "The accessors of the result (attribute values, flags, start and end) report the same values: the first value of a repeated attribute, all values in order, absent ones as empty.",
  ["inputs"], "all well-formed texts: any order of optional lines RFC 4566 allows, any interval notation, LF or CR LF, blank and indented lines",
  SDP_TESTS + "the combinations of optional lines, notations and formatting are not enumerable by examples.",
  ["sdp/decoder.go", "sdp/sdp.go"], [("Decoder.Decode, section rules", "sdp/decoder.go"), ("DecodeSession", "sdp/sdp.go"), ("Message/Media/Attributes accessors", "sdp/decoder.go")],
  "Exploration of text written by the harness from generated descriptions; the generated description is the oracle.", "property-based testing: generated text against the description it was written from")
p("S04", "A malformed session description is rejected with an error",
  "A description with a malformed line or structure is rejected with a non-empty error and never accepted as something else: wrong number of fields, non-numeric numbers or ones out of the range of their representation (TTL, port, ids, times, intervals), unknown line types, bandwidth types that are no token, missing delimiters or values, repeated or exchanged version, origin and name, repeat times without timing, a session line out of its fixed place, lines of the session within a media.",
  ["inputs"], "all well-formed descriptions with one defect of the listed kinds put in at any place",
  SDP_TESTS + "sixteen fixed bad descriptions are rejected; the same defect at another place or in another field is not tried.",
  ["sdp/decoder.go", "sdp/sdp.go"], [("decode functions of the fields", "sdp/decoder.go"), ("section rules", "sdp/decoder.go")],
  "Exploration: generated well-formed text with one defect out of a table; the unmutated text is checked to be accepted.", "property-based testing: fault-seeded inputs that must be rejected")
p("S05", "Decoding survives any bytes, is deterministic and stable",
  "Decoding any bytes, or any list of lines, ends with a description or an error: it never panics or hangs, does not change its input, and gives the same result each time. "
  "A description that was accepted from bytes (with name and origin) can be encoded, and decoding that text gives the same description again.",
  ["inputs"], "all byte strings and line lists, from random bytes to slightly damaged descriptions",
  SDP_TESTS + "none of them is arbitrary input.",
  ["sdp/decoder.go", "sdp/sdp.go", "sdp/encoder.go"], [("bounds checks of the decode functions", "sdp/decoder.go"), ("Line.Decode", "sdp/sdp.go")],
  "Exploration by random bytes, soups of plausible lines and mutated text; crashes, hangs, differences between runs and unstable re-encodings are violations.", "structured fuzzing with crash, determinism and idempotence oracles")
p("S06", "SDP line lists: text round trip, safe reuse and exact equality",
  "Reading text into a line list gives its lines in order, with copies of the values, behind the lines already there; writing it gives the text back. "
  "Lists and buffers can be reused without old content showing up and without changing what was decoded from them. Two lists are equal exactly when they have the same lines.",
  ["inputs", "histories"], "all pairs of line lists with any values, lists reused with any capacity and any number of kept lines",
  SDP_TESTS + "reuse of lists of other lengths and equality of near-equal lists are not covered.",
  ["sdp/sdp.go"], [("DecodeSession, AddLine, AppendTo, Equal", "sdp/sdp.go")],
  "Exploration of generated pairs of lists, including reuse of memory and single-line differences.", "property-based testing: round trip and reuse against the list itself")
p("S07", "SDP values: NTP times, comparison and text of addresses",
  "NTP and Go times convert to each other without loss, 0 standing for the zero time, in every time zone. "
  "Origins, connection data and keys are equal exactly when all their fields are, and are blank exactly when all are empty; the text of connection data is that of its c= line.",
  ["inputs"], "all NTP values and times since 1900, all pairs of values that differ in none or any one field",
  SDP_TESTS + "a handful of fixed values.",
  ["sdp/fields.go", "sdp/decoder.go", "sdp/sdp.go"], [("TimeToNTP, NTPToTime", "sdp/fields.go"), ("Equal, Blank, String", "sdp/decoder.go")],
  "Exploration of generated values with one-field mutations.", "property-based testing: inverse functions, equality against field-wise comparison")
p("S08", "SDP from several goroutines: the same results as alone, without races",
  "Goroutines that encode, decode, compare and read descriptions at the same time get the same results as each gets alone, also when they read the same description or line list: "
  "encoding, decoding and the accessors change nothing but what they return, and descriptions share no hidden state. There is no data race.",
  ["inputs", "schedules"], "all sets of descriptions and rejected texts, all assignments of read-only uses to 2-6 goroutines, with shared and with own values",
  SDP_TESTS + "all of them are sequential.",
  ["sdp/encoder.go", "sdp/decoder.go", "sdp/sdp.go", "sdp/fields.go"], [("Append, AppendTo", "sdp/encoder.go"), ("Decoder", "sdp/decoder.go")],
  "Exploration of generated descriptions under the race detector; schedules are those of the Go scheduler.", "property-based testing of concurrent uses: differential against the same uses alone, under the race detector")

# ---- tcpnetwork ----
NET_TESTS = "The repository has no test of tcpnetwork at all (its test folder holds a demo program)."
p("N01", "Framing: every packet of the stream is delivered once, whole and in order",
  "However the byte stream is cut into reads, the handler gets exactly the packets the stream protocol defines (header, body by length or up to a delimiter, content behind it, up to 65535 bytes), byte for byte, in order, each in memory of its own. "
  "A packet that is cut off by the end is not delivered; a packet that is longer than allowed ends the connection, after all packets before it were delivered.",
  ["inputs", "schedules", "fault_sequences"], "all packet sequences (bodies of 0-65535 bytes, delimiters, content lengths), all ways to cut them into reads, all ends",
  NET_TESTS, ["tcpnetwork/tcpnetwork.go", "tcpnetwork/tcpinterface.go"], [("unpack, read", "tcpnetwork/tcpnetwork.go"), ("routineRead", "tcpnetwork/tcpnetwork.go")],
  "Exploration with an in-memory connection that cuts the stream at generated places; the sequence of generated packets is the oracle.", "property-based testing: generated packet streams and segmentations against the packets themselves")
p("N02", "Connection life: connected first, disconnected last, each exactly once",
  "Whatever ends a connection (end of stream, reset, failed write, oversized packet, Close before or during traffic or from the handler, a peer that stopped reading, a panic of the handler or the protocol on what was read), its events are: connected, its packets, disconnected, with nothing before, between or after; an idle connection stays open. "
  "Then the socket is closed, the status is disconnected, all its goroutines end, and later Send and Close calls return at once without effect.",
  ["fault_sequences", "schedules", "histories"], "all ways a connection ends, at any point of its traffic, with any calls after the end",
  NET_TESTS, ["tcpnetwork/tcpnetwork.go"], [("routineMain with its deferred end", "tcpnetwork/tcpnetwork.go"), ("close, Close, done", "tcpnetwork/tcpnetwork.go")],
  "Exploration of generated histories under a fake clock; goroutines left behind are detected by the bubble.", "stateful property-based testing with fault injection under a fake clock")
p("N03", "Sending: messages arrive whole and in order; Close sends what is queued",
  "The peer gets the messages in the order they were sent, each whole with the header its protocol puts in front, whatever their size and however slowly the peer reads; a message sent with copying may be changed by the caller right after. "
  "Close first sends what was sent before it, and nothing after it, also to a peer that goes on reading only seconds later; one that reads nothing more for good cannot keep a closed connection open. When a write fails the peer has got a prefix of that stream, and the connection ends.",
  ["inputs", "fault_sequences", "schedules"], "all message sequences (0-200000 bytes), with pauses of the peer, write failures at any byte, and Close",
  NET_TESTS, ["tcpnetwork/tcpnetwork.go"], [("Send, sendRaw, routineSend, Close", "tcpnetwork/tcpnetwork.go")],
  "Exploration of generated message sequences against their concatenation.", "property-based testing with fault injection against the concatenation of the messages")
p("N04", "Read timeout and full send queue end a connection in time, and only then",
  "With a read timeout set, a connection whose peer is silent for that long is closed and reported disconnected, also in the middle of a packet. The time counts for each part of a packet: a peer that completes every header, every body and every content within that time of the part before is never disconnected, and without a timeout silence never is. "
  "Send on a full queue waits for room for up to 5 seconds, then the connection is closed; it is kept when room comes earlier; Close on a full queue waits just so, and what is queued is sent.",
  ["schedules", "fault_sequences", "configurations"], "all timeouts, arrival times below the limit, packets in pieces, silence at any point, queues of any size",
  NET_TESTS, ["tcpnetwork/tcpnetwork.go"], [("SetReadDeadline calls of unpack", "tcpnetwork/tcpnetwork.go"), ("sendRaw's timeout", "tcpnetwork/tcpnetwork.go")],
  "Exploration of generated timelines under a fake clock, exact to the instant.", "property-based testing of timelines under a fake clock")
p("N05", "Concurrent Send and Close: no races, no mixed or lost messages, no leaks",
  "Any number of goroutines may call Send, Close and GetStatus while the peer reads, stops reading, fails or ends: no data race, panic or deadlock, and no call waits longer than its time limit. "
  "Messages are written whole, at most once and in each sender's order, and all of them when nothing fails and nobody closes. Afterwards the connection is closed, its events are well-formed, and its goroutines are gone.",
  ["schedules", "fault_sequences"], "all interleavings of 1-5 senders, 0-3 closers, incoming packets and peer faults",
  NET_TESTS, ["tcpnetwork/tcpnetwork.go"], [("status, sendMsgQueue, done", "tcpnetwork/tcpnetwork.go")],
  "Exploration of generated schedules with the race detector, 1-8 processors; interleavings are sampled, not enumerated.", "randomised schedules under the race detector, history invariants")

exec(open(os.path.join(HERE, "tools", "props_rtsp.py")).read())

done = {l.split()[0] for l in open(os.path.join(HERE, "harness", "PACKAGES")) if l.strip()}
out = []
checks = []
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    if x["id"] not in done:
        continue
    out.append(json.dumps({
        "id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
        "why_tests_cant": x["tests"], "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}, ensure_ascii=False))
    checks.append({"property": x["id"], "quick_cmd": "python3 check.py " + x["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % x["id"],
                   "technique": x["technique"], "level": "exploration", "level_note": x["note"] + " Cases not generated are not covered."})
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(out) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks: all checks use the public API of the packages. known_findings.txt lists the defects repaired."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(out), "properties")
