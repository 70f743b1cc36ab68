# exec'd by mk.py: the RTSP client
p("R01", "Handshake: right order, stops at the first failure, one truthful outcome",
  "Playing a stream describes it, sets up every media in the order of the description and then plays, each request only after the previous one was answered with 200. "
  "Any other answer, an unusable description, a malformed or cut-off response, a failed write, silence or a lost connection at any step makes it fail: no further request follows and an error is returned. "
  "The application gets exactly one outcome event per attempt (success or failure), before the call returns, and it agrees with the call's result.",
  ["inputs", "fault_sequences"], "all server scripts: any number and kind of medias, any latencies, with and without authentication, any fault at any step",
  ROOT_TESTS, ["rtspclient.go", "rtsprequest.go", "rtspparser.go"],
  [("handshake", "rtspclient.go sendRequest"), ("outcome event", "rtspclient.go sendRequest"), ("waiting for responses", "rtspclient.go WaitRtspResponse")],
  "Exploration of generated server scripts with one injected fault, compared with the request sequence computed from the script.", "property-based testing: scripted server with fault injection under a fake clock")
p("R02", "Requests are well-formed and say what was asked for",
  "Every request is a well-formed RTSP/1.0 request for the stream's URL without credentials, with blanks and quotes encoded (SETUP: the media's own URL, which is its control value when that is a full RTSP URL, and otherwise the stream's URL, a slash and the control value) with the next CSeq number, and no header occurs twice. "
  "DESCRIBE asks for application/sdp, SETUP asks for interleaved transport with a channel pair of its own per media (0-1, 2-3, ...), and once the server gave a session id in its response to a SETUP, all later requests carry it, without its parameters. "
  "Requests of the application (describe, setup, play from a position or at a speed, pause, teardown) and the TEARDOWN of Close follow the same rules.",
  ["inputs", "histories"], "all URLs, control values, session ids and sequences of application requests",
  ROOT_TESTS, ["rtsprequest.go", "rtspclient.go", "rtspparser.go"],
  [("request building", "rtsprequest.go"), ("CSeq and session id", "rtspclient.go")],
  "Exploration: an independent strict parser reads the requests and compares them with those the history calls for.", "stateful property-based testing against a reference model of the requests")
p("R03", "Authentication: challenges are answered with correct credentials",
  "When a server answers the first request with 401 and the URL has a user name and a password, the request is repeated with credentials, and all later requests carry them too: a digest computed from the challenge when one was offered (whatever the order of several challenges, each in a header line of its own), otherwise Basic. "
  "Whatever the order, quoting, letter case and further parameters of a challenge, and whatever characters (but control characters, which are refused) the user name, password (percent-encoded in the URL), realm and nonce have, the credentials are those the server computes itself. "
  "Without a challenge or without credentials none are sent; a second 401 ends the attempt with an error.",
  ["inputs", "histories"], "all challenges, credentials and request sequences",
  ROOT_TESTS, ["authenticator.go", "rtsprequest.go", "rtspclient.go", "rtspparser.go"],
  [("digest and basic", "authenticator.go"), ("parsing of challenges", "rtspparser.go"), ("retry after 401", "rtspclient.go sendRequest")],
  "Exploration of generated challenges and credentials; the server's own computation of the digest is the oracle.", "property-based testing: independent verification of the credentials by the scripted server")
p("R04", "Responses are understood whatever their form and segmentation",
  "A response is understood the same way whatever the case and order of its header lines, the white space around values, its reason phrase, further header lines, its body and the way it is cut into reads or joined with what comes before and after it. "
  "Bytes of a body or of a media frame are never taken for a response or the other way round: the handshake succeeds, the data glued to its end is delivered in order, and the status reported is the one sent.",
  ["inputs", "schedules"], "all spellings of responses, bodies up to 65535 bytes with any content, any segmentation, any frames in between",
  ROOT_TESTS, ["rtspparser.go", "rtpstreamprotocol.go", "tcpnetwork/tcpnetwork.go", "rtspclient.go"],
  [("response parser", "rtspparser.go"), ("framing of responses and interleaved frames", "rtpstreamprotocol.go")],
  "Exploration: the same script in random spellings and segmentations has to give the same handshake and data.", "metamorphic and model-based testing over generated response spellings and segmentations")
p("R05", "No request waits for more than two seconds, and none gives up sooner",
  "A response that comes within two seconds is taken, however slowly or in how many pieces it comes and whatever other data arrives in between. "
  "When it does not come within two seconds, the wait ends with an error at that time, an attempt to play fails, and the connection is closed: at once, or within five more seconds when the peer does not take data. "
  "Close takes two seconds at most, whatever the server does.",
  ["schedules", "fault_sequences"], "all requests of the handshake and after it, all arrival times of all parts of the response, with other data meanwhile or a peer that stopped reading",
  ROOT_TESTS, ["rtspclient.go", "tcpnetwork/tcpnetwork.go"],
  [("response time limit", "rtspclient.go WaitRtspResponse"), ("Close", "rtspclient.go Close")],
  "Exploration of generated timelines under a fake clock, exact to the instant.", "property-based testing of timelines under a fake clock")
p("R06", "However a session ends, it ends completely, and is reported disconnected once",
  "Whether the stream ends, is reset, fails to write, or the application closes the session (once, twice, from a handler, after a failed attempt, or while a request is pending), the connection is closed, the disconnected event comes exactly once, after all data, and no goroutine is left. "
  "Close tells the server with one TEARDOWN carrying the session's id, if the connection is still up. "
  "Without a connection (before and after) requests return an error at once, and Close returns at once without effect; an idle session stays up.",
  ["fault_sequences", "histories"], "all handshakes (complete or failed at any step), data, ways to end and calls after the end",
  ROOT_TESTS, ["rtspclient.go", "tcpnetwork/tcpnetwork.go"],
  [("Close", "rtspclient.go Close"), ("disconnected event", "rtspclient.go handleConn")],
  "Exploration of generated histories under a fake clock; goroutines left behind are detected by the bubble.", "stateful property-based testing with fault injection under a fake clock")
p("R07", "One request at a time; unsolicited responses never block or kill the session",
  "While a request has no response that was waited for, further requests are refused with an error and nothing is sent; after the wait the next request is accepted. "
  "Responses nobody asked for and data frames may come at any time, in any number: data continues to be delivered in order and completely, and the session stays usable and up. "
  "Playing again while the session is playing is refused without any effect; when the connection ends, a pending wait ends at once with an error.",
  ["histories", "schedules"], "all histories of requests, waits, responses (asked for or not) and data on a playing session",
  ROOT_TESTS, ["rtspclient.go", "rtsprequest.go"],
  [("one outstanding request", "rtsprequest.go"), ("unexpected responses", "rtspclient.go parsingRtsp"), ("refusal while playing", "rtspclient.go Play")],
  "Exploration of generated histories against a model of the pending request.", "stateful, model-based property testing")
p("R08", "A session can be used again and keeps nothing of earlier streams",
  "When a stream is over, the same session can play another one, and this behaves like a new session: same requests (but for the CSeq, which continues), same outcome, same medias, same data and same events. "
  "Credentials, challenges, session ids, medias, channels and unfinished packets of earlier streams have no influence.",
  ["histories"], "all sequences of up to four streams with any faults, data and ends",
  ROOT_TESTS, ["rtspclient.go", "rtsprequest.go", "rtpparser.go"],
  [("reset of the session", "rtspclient.go sendRequest, SetConnection, ParsingURL")],
  "Exploration: each stream of a reused session is compared with the same stream on a new session.", "differential testing: reused session against new session")
p("R09", "The URL decides server, port, credentials and request URL",
  "Playing a URL connects to its host (name, IPv4 or IPv6 address) and port, 554 if it has none, and asks for that URL with its path and query but without the user information. "
  "User name and password are taken from the URL and percent-decoded. "
  "A malformed URL (also one without a host), or a server that cannot be reached gives an error in time and never success (the latter is reported disconnected, too); after that the session can be used.",
  ["inputs", "configurations"], "all URLs over loopback addresses: with and without port, IPv4, IPv6, names, any path, query and credentials; malformed ones; ports without a server",
  ROOT_TESTS, ["rtspclient.go"], [("URL handling", "rtspclient.go ParsingURL"), ("connecting", "rtspclient.go Play")],
  "Exploration over real loopback sockets; the generated parts of the URL are the oracle.", "property-based testing with real loopback servers")
p("R10", "No bytes of a server crash, hang or wedge the client",
  "Whatever bytes a server sends, during the handshake or while streaming (damaged responses, challenges and descriptions, short or nonsensical packets and frames, random bytes), the client does not panic, hang or exit. "
  "Attempts end in time with exactly one outcome event that agrees with the result, Close takes two seconds at most, and afterwards the connection is closed and the disconnected event came exactly once.",
  ["inputs", "fault_sequences"], "all byte strings, from damaged right answers to random bytes, from any request on",
  ROOT_TESTS, ["rtspparser.go", "rtpparser.go", "h264rtpparser.go", "hevcrtpparser.go", "markrtpparser.go", "rtpstreamprotocol.go", "authenticator.go", "sdpparser.go", "rtspclient.go"],
  [("bounds checks of the parsers", "rtspparser.go, rtpparser.go, h264rtpparser.go, hevcrtpparser.go"), ("description parser", "sdpparser.go")],
  "Structured fuzzing of the whole client; crashes, hangs and ill-formed histories are violations.", "structured fuzzing with crash, hang and event-history oracles")
p("R11", "Sessions at the same time do not affect each other; no data races",
  "Any number of sessions may be used at the same time, each by a goroutine of its own, also against the same server, for the same stream, user or challenge: each sends the same requests, reports the same outcome, medias and events and delivers the same data as it does alone. "
  "There is no data race, neither between sessions nor between the caller of a session, its connection and its handlers, which may look at the session's medias.",
  ["schedules", "histories"], "all combinations of 1-4 simultaneous streams with any faults, requests, data and ends",
  ROOT_TESTS, ["rtspclient.go", "rtsprequest.go", "rtspparser.go", "rtpparser.go", "rtpstreamprotocol.go", "authenticator.go", "tcpnetwork/tcpnetwork.go"],
  [("state of a session", "rtspclient.go RtspClientSession"), ("channel table shared with the connection", "rtspclient.go rtpChannelMap"), ("state of a connection", "tcpnetwork/tcpnetwork.go")],
  "Exploration: each of several simultaneous sessions is compared with the same session alone, under the race detector; interleavings are sampled.", "differential testing: simultaneous sessions against each of them alone, under the race detector")
p("R12", "Handlers may be slow, missing, or play the next stream themselves",
  "However long the application's handlers take, all data and the end of the stream reach them one at a time, in order and completely, and Close still returns within two seconds. "
  "The handler that is told the end of a stream may play the next one on the same session, any number of times, and this works as from outside. A session without an event handler or without a data handler does the same as one with it, except for calling it.",
  ["histories", "schedules"], "all durations of handler calls, chains of 1-4 streams played from the handler, all ends, with and without each handler",
  ROOT_TESTS, ["rtspclient.go", "tcpnetwork/tcpnetwork.go"], [("calls of the handlers", "rtspclient.go handleConn, parsingRtp, sendEvent"), ("queues of a connection", "rtspclient.go SetConnection")],
  "Exploration with a fake clock; the frames the server sent are the oracle.", "model-based testing: generated handler behaviours against the stream that was sent")
p("R13", "Streams may last: pauses, amount of data, requests and streams wear nothing out",
  "A stream plays until one of the two sides ends it: no pause of the server, whatever its length, no duration, amount of data or number of packets and requests ends it, changes what is delivered or makes it use more memory, goroutines or open files. "
  "Every stream gives back what it took, however it ended or failed (closed, ended, reset, refused, failed in the handshake; over TCP or a WebSocket): a program may play any number of streams one after the other, with one session or with one for each.",
  ["histories", "schedules"], "real connections; pauses up to 150 s, 300 MB and millions of packets of a stream, thousands of requests, hundreds of streams",
  ROOT_TESTS, ["rtspclient.go", "websocketconn.go", "tcpnetwork/tcpnetwork.go", "rtpparser.go", "rtsprequest.go"],
  [("dialling", "rtspclient.go Play, PlayUseWebsocket"), ("buffers of a connection", "tcpnetwork/tcpnetwork.go"), ("unfinished units", "rtpparser.go and the parsers of the codecs"), ("CSeq", "rtsprequest.go")],
  "Exploration over real loopback sockets in real time; usage of the process is measured early and late.", "property-based soak testing: random long histories over real sockets, against the stream that was sent and bounds on resources")
p("W01", "Over a WebSocket the session behaves as over TCP",
  "Playing through a WebSocket sends the same requests, delivers the same data and reports the same outcome and events as playing the same stream over TCP, however the server cuts its bytes into WebSocket messages (also empty ones, or one message with many frames). "
  "A WebSocket that cannot be opened gives an error, and is reported disconnected; Close and the end of the WebSocket end the session as they do over TCP.",
  ["inputs", "schedules", "fault_sequences"], "all server scripts, all ways to cut the bytes into messages, failures at any step",
  ROOT_TESTS, ["websocketconn.go", "rtspclient.go"], [("stream over messages", "websocketconn.go"), ("connecting", "rtspclient.go PlayUseWebsocket")],
  "Exploration over real loopback sockets; the TCP session is the oracle.", "differential property-based testing: WebSocket against TCP")
p("M01", "The medias of the description are reported to the application as described",
  "The application sees exactly the medias of the description, in order, under channels 0, 2, 4, ..., each with its kind, first payload format, codec name, clock rate, channels, format parameters, frame rate, dimensions and control value as the description says. "
  "Payload formats the standard fixes have their fixed codec, rate and channels; attributes of another media do not affect a media, nor do those of another payload format where its own has some, whatever their order; what is not told is empty.",
  ["inputs"], "all descriptions with any number of medias, static and dynamic formats, parameters and further attributes in any order",
  ROOT_TESTS, ["sdpparser.go", "rtspclient.go"], [("interpretation of the description", "sdpparser.go parsingSDP"), ("RtpMediaMap", "rtspclient.go sendRequest")],
  "Exploration of generated descriptions; the generated medias are the oracle.", "property-based testing: generated descriptions against their model")
UNITS = "Frames lost or reordered by the server are out of scope."
p("P01", "H264: every NAL unit is delivered once, whole and in order",
  "Every NAL unit sent on a H264 stream, in any of the packetisations of RFC 6184 (single, STAP-A, STAP-B, MTAP16, MTAP24, FU-A, FU-B) and any mix of them, is delivered exactly once, in the order sent, byte for byte with its own header byte. "
  "Units of different packets never mix, whatever their type, size, number of fragments and marker bits.",
  ["inputs"], "all sequences of NAL units of types 1-23 and all packetisations, units up to 8 MB",
  ROOT_TESTS, ["h264rtpparser.go", "rtpparser.go", "rtspclient.go"], [("splitting and joining", "h264rtpparser.go"), ("loop over units", "rtspclient.go parsingRtp")],
  "Exploration: an independent packetiser; the units it packs are the oracle. " + UNITS, "property-based testing: round trip through a reference packetiser")
p("P02", "H265: every NAL unit is delivered once, whole and in order",
  "Every NAL unit sent on a H265 stream, as single packets, aggregation packets or fragments (RFC 7798) and any mix of them, is delivered exactly once, in the order sent, byte for byte with its own two header bytes. "
  "Units of different packets never mix, whatever their type, layer, size, number of fragments and marker bits.",
  ["inputs"], "all sequences of NAL units of types 0-47 and all packetisations, units up to 8 MB",
  ROOT_TESTS, ["hevcrtpparser.go", "rtpparser.go", "rtspclient.go"], [("splitting and joining", "hevcrtpparser.go"), ("loop over units", "rtspclient.go parsingRtp")],
  "Exploration: an independent packetiser; the units it packs are the oracle. " + UNITS, "property-based testing: round trip through a reference packetiser")
p("P03", "Other codecs: payloads are delivered unchanged, marked frames are joined",
  "On a stream of any codec without a splitter of its own, the payload of every packet is delivered as it is, once and in order, whatever its bytes look like and whether or not its marker is set. "
  "On a stream of the codec bbw, the payloads up to and including the one with the marker are joined and delivered as one frame.",
  ["inputs"], "all codec names, payloads and marker patterns, frames up to 8 MB",
  ROOT_TESTS, ["rtpparser.go", "simplertpparser.go", "markrtpparser.go", "rtspclient.go"], [("choice of the parser", "rtpparser.go newRtpParser"), ("joining up to the marker", "markrtpparser.go")],
  "Exploration: an independent packetiser; the frames it packs are the oracle. " + UNITS, "property-based testing: round trip through a reference packetiser")
p("P04", "Data arrives on its channel, in order, complete and unaffected by other traffic",
  "With several medias, the data of each is delivered under the channel of that media (0, 2, ...), in the order its packets were sent among all, and unfinished units of one media are not affected by the traffic of others. "
  "RTCP, frames of channels that were not set up, short or empty frames, packets without payload or with one that is shorter than the header its codec needs, and stray responses deliver nothing and disturb nothing, also before the response to PLAY. "
  "Delivered data belongs to the application: it is not changed later, and changing it changes nothing else.",
  ["inputs", "schedules"], "all interleavings of the packets of up to four medias of different codecs with other frames, any segmentation",
  ROOT_TESTS, ["rtspclient.go", "rtpparser.go", "h264rtpparser.go", "hevcrtpparser.go", "markrtpparser.go", "rtpstreamprotocol.go"],
  [("choice of the channel", "rtspclient.go parsingRtp"), ("copies of delivered data", "rtpparser.go")],
  "Exploration of generated interleavings; the units packed are the oracle.", "property-based testing: generated interleavings against the units sent")
p("P05", "Optional parts of RTP packets never change what is delivered",
  "Contributing sources, a header extension and padding, in any combination and on any packet (also fragments and aggregates), do not change what is delivered: exactly the data of the same packets without them. "
  "Packets that have only such parts and no payload deliver nothing and disturb nothing.",
  ["inputs"], "all packets of all codecs with 0-15 sources, extensions of any length, 0-255 bytes of padding",
  ROOT_TESTS, ["rtpparser.go", "rtspclient.go"], [("removal of the optional parts", "rtpparser.go normalizeRtpPacket")],
  "Exploration; the units packed are the oracle.", "metamorphic property-based testing over the optional header parts")
