From 3523351a2be6ec45410627e3f8d1e42551433892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 01/59] fix: tcpnetwork: accept frames up to 65535 bytes,
 reject oversized content cleanly

A frame of 65532..65535 bytes is legal for a 16 bit length field, but header
plus body did not fit the read buffer and the slice expression panicked, which
dropped the connection. A content length beyond the buffer panicked likewise.
---
 tcpnetwork/tcpnetwork.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 2d5c90f..fc473d5 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -259,7 +259,7 @@ func (connection *Connection) routineSend() error {
 
 func (connection *Connection) routineRead() error {
 	// default buffer
-	buf := make([]byte, connection.maxReadBufferLength)
+	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)
 
 	for {
 		data, err := connection.unpack(buf)
@@ -309,7 +309,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))
 		}
 		for {
-			if bufStartPos+curBodyPos+1 > connection.maxReadBufferLength {
+			if bufStartPos+curBodyPos+1 > len(buf) {
 				return nil, errors.New("The stream data is too long")
 			}
 
@@ -327,7 +327,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 		}
 		bodyLength = curBodyPos
 	} else if 0 != packetLength {
-		if packetLength > connection.maxReadBufferLength {
+		if packetLength < 0 || packetLength > connection.maxReadBufferLength {
 			return nil, errors.New("The stream data is too long")
 		}
 
@@ -352,6 +352,10 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 
 	contextLength = connection.streamProtocol.GetContentLength(buf[:bufStartPos])
 	if 0 != contextLength {
+		if contextLength < 0 || contextLength > len(buf)-bufStartPos {
+			return nil, errors.New("The stream data is too long")
+		}
+
 		// read context
 		if 0 != connection.readTimeoutSec {
 			connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))
-- 
2.43.0


From 79f4e19785ddadea90f7bc21ce1400fcb9f62ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 02/59] fix: an empty interleaved frame no longer swallows the
 frames behind it

A '$' header with length 0 fell into the unknown-header path, which reads
whatever is buffered as its body.
---
 rtpstreamprotocol.go       | 4 ++++
 tcpnetwork/tcpinterface.go | 2 ++
 tcpnetwork/tcpnetwork.go   | 5 ++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/rtpstreamprotocol.go b/rtpstreamprotocol.go
index ca6734c..229f65f 100644
--- a/rtpstreamprotocol.go
+++ b/rtpstreamprotocol.go
@@ -27,6 +27,10 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 		if nil != err {
 			return 0, nil
 		}
+		if 0 == len {
+			// empty frame, only header
+			return 0, []byte{}
+		}
 		return int(len), nil
 	} else if "rtsp" == string(header[0:4]) || "RTSP" == string(header[0:4]) {
 		return 0, []byte("\r\n\r\n")
diff --git a/tcpnetwork/tcpinterface.go b/tcpnetwork/tcpinterface.go
index 237b3f9..7776d9b 100644
--- a/tcpnetwork/tcpinterface.go
+++ b/tcpnetwork/tcpinterface.go
@@ -7,6 +7,8 @@ type IStreamProtocol interface {
 	// get the header length of the stream
 	GetHeaderLength() int
 	// read the header length of the stream
+	// returns the body length, or the flag that ends the body
+	// (an empty, non nil flag: the packet has no body)
 	UnserializeHeader([]byte) (int, []byte)
 	// format header
 	SerializeHeader([]byte) []byte
diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index fc473d5..38ddeee 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -302,7 +302,10 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 	// check length
 	var msg []byte
 	packetLength, strEOF := connection.streamProtocol.UnserializeHeader(headBuf)
-	if nil != strEOF {
+	if nil != strEOF && 0 == len(strEOF) {
+		// empty packet, nothing follows the header
+		bodyLength = 0
+	} else if nil != strEOF {
 		curBodyPos := 0
 		// read body
 		if 0 != connection.readTimeoutSec {
-- 
2.43.0


From ac1c35ff39731415d4fc48ee9cc5edbd6c2a3248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 03/59] fix: short or marker-coded RTP packets no longer crash
 the process

Frames shorter than the RTP header, FU/aggregation payloads without their own
header and every packet of a marker-framed stream indexed out of range in the
connection's goroutine.
---
 h264rtpparser.go |  8 ++++++++
 hevcrtpparser.go |  8 ++++++++
 markrtpparser.go |  2 +-
 rtspclient.go    | 10 ++--------
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 0b9f486..dc81d1e 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -29,12 +29,20 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		break
 	case 25, 26, 27: // STAP-B MTAP16 MTAP24
 		{
+			if len(rtpData) < 3 {
+				// no DON
+				return false, src[:RtpHeaderLen], nil
+			}
 			skipHeaderLen = 3
 			isCompletesFrame = true
 		}
 		break
 	case 28, 29: // FU-A // FU-B
 		{
+			if len(rtpData) < 2 {
+				// no FU header
+				return false, src[:RtpHeaderLen], nil
+			}
 			// For these NALUs, the first two bytes are the FU indicator and the FU header.
 			// If the start bit is set, we reconstruct the original NAL header into byte 1:
 			startBit := rtpData[1] & 0x80
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 4f4f104..c912446 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -22,6 +22,10 @@ func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		break
 	case 49: // Fragmentation Unit (FU)
 		{
+			if len(rtpData) < 3 {
+				// no FU header
+				return false, src[:RtpHeaderLen], nil
+			}
 			// This NALU begins with the 2-byte Payload Header, the 1-byte FU header, and (optionally)
 			// the 2-byte DONL header.
 			// If the start bit is set, we reconstruct the original NAL header at the end of these
@@ -64,6 +68,10 @@ func (rtpParser *HevcRtpParser) ParsingRtp(header []byte, payload []byte) (naluH
 	switch packetNALUnitType {
 	case 48: // Aggregation Packet (AP)
 		{
+			if len(payload) < 2 {
+				// no nalu size, drop the rest
+				return len(payload), len(payload)
+			}
 			// We skip over the 2-byte Payload Header, and the DONL header (if any).
 			naluSize = int((payload[0] << 8) | payload[1])
 			naluHeaderSize = 2
diff --git a/markrtpparser.go b/markrtpparser.go
index b2de253..79e3006 100644
--- a/markrtpparser.go
+++ b/markrtpparser.go
@@ -8,7 +8,7 @@ func (rtpParser *MarkRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
 
-	mark := ((header[1] & 0x80) >> 7)
+	mark := ((src[1] & 0x80) >> 7)
 	isCompletesFrame = (mark == 1)
 
 	return isCompletesFrame, src[:RtpHeaderLen], src[RtpHeaderLen:]
diff --git a/rtspclient.go b/rtspclient.go
index d931a87..d2a4f9e 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -1,8 +1,6 @@
 package rtspclient
 
 import (
-	"bytes"
-	"encoding/binary"
 	"errors"
 	"log"
 	"net"
@@ -166,12 +164,8 @@ func (session *RtspClientSession) parsingData(data []byte) {
 func (session *RtspClientSession) parsingRtp(data []byte) {
 	header := data[:4]
 	rtpData := data[4:]
-
-	timestampBufBefore := rtpData[4:8]
-	reader := bytes.NewReader(timestampBufBefore)
-	var timestamp uint32
-	err := binary.Read(reader, binary.BigEndian, &timestamp)
-	if nil != err {
+	if len(rtpData) < RtpHeaderLen {
+		// too short to be a rtp packet
 		return
 	}
 
-- 
2.43.0


From 42d80b246673b29ab79763ea2aa52e86b198af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 04/59] fix: split H264 and HEVC aggregation packets into their
 NAL units

The H264 parser looked for the HEVC type bits and never recognised a STAP, the
16 bit sizes were shifted in 8 bit arithmetic, and a NAL unit ending within two
bytes of the packet's end was extended to it.
---
 h264rtpparser.go | 16 ++++++++++------
 hevcrtpparser.go |  2 +-
 rtpparser.go     |  7 +++++--
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index dc81d1e..c5e7398 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -67,29 +67,33 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
 func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
-	if len(header) < RtpHeaderLen+2 {
+	if len(header) < RtpHeaderLen+1 {
 		return 0, len(payload)
 	}
 
 	naluHeader := header[RtpHeaderLen:]
-	packetNALUnitType := (naluHeader[0] & 0x7E) >> 1
+	packetNALUnitType := naluHeader[0] & 0x1f
+	if len(payload) < 2 && packetNALUnitType >= 24 && packetNALUnitType <= 27 {
+		// no nalu size, drop the rest
+		return len(payload), len(payload)
+	}
 
 	switch packetNALUnitType {
 	case 24, 25: // STAP-A STAP-B
 		{
-			naluSize = int((payload[0] << 8) | naluHeader[1])
+			naluSize = int(payload[0])<<8 | int(payload[1])
 			naluHeaderSize = 2
 		}
 		break
 	case 26: // MTAP16
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
+			naluSize = int(payload[0])<<8 | int(payload[1])
 			naluHeaderSize = 5
 		}
 		break
 	case 27: // MTAP24
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
+			naluSize = int(payload[0])<<8 | int(payload[1])
 			naluHeaderSize = 6
 		}
 		break
@@ -99,5 +103,5 @@ func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluH
 			naluHeaderSize = 0
 		}
 	}
-	return naluHeaderSize, naluSize
+	return naluHeaderSize, naluSize + naluHeaderSize
 }
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index c912446..1aeb261 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -73,7 +73,7 @@ func (rtpParser *HevcRtpParser) ParsingRtp(header []byte, payload []byte) (naluH
 				return len(payload), len(payload)
 			}
 			// We skip over the 2-byte Payload Header, and the DONL header (if any).
-			naluSize = int((payload[0] << 8) | payload[1])
+			naluSize = int(payload[0])<<8 | int(payload[1])
 			naluHeaderSize = 2
 		}
 		break
diff --git a/rtpparser.go b/rtpparser.go
index 572a904..9d86c9d 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -31,9 +31,12 @@ func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 
 func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int) {
 	naluHeaderSize, naluSize := rtpParser.rtpSourceHandler.ParsingRtp(header, payload)
-	if naluSize > len(payload)-naluHeaderSize {
+	if naluSize > len(payload) {
 		naluSize = len(payload)
 	}
+	if naluHeaderSize > naluSize {
+		naluHeaderSize = naluSize
+	}
 	nalu := payload[naluHeaderSize:naluSize]
 
 	if rtpParser.payloadLen+len(nalu) > MaxPayloadLength {
@@ -52,7 +55,7 @@ func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int
 	copy(rtpParser.payloadBuf[rtpParser.payloadLen:], nalu)
 	rtpParser.payloadLen += len(nalu)
 
-	if rtpParser.isMarkFrame {
+	if rtpParser.isMarkFrame && rtpParser.payloadLen > 0 {
 		data := make([]byte, rtpParser.payloadLen)
 		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])
 		rtpParser.payloadLen = 0
-- 
2.43.0


From 5200b49e5ac616372ad18cc853865f8ec86e9ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:06 +0000
Subject: [PATCH 05/59] fix: skip CSRC list, header extension and padding of
 RTP packets

They were delivered as media data, and the extension was taken for the NAL header.
---
 rtpparser.go  | 21 +++++++++++++++++++++
 rtspclient.go |  1 +
 2 files changed, 22 insertions(+)

diff --git a/rtpparser.go b/rtpparser.go
index 9d86c9d..fba1d91 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -29,6 +29,27 @@ func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 	return header, payload
 }
 
+// normalizeRtpPacket removes what is optional in a rtp packet (CSRC list, header
+// extension, padding), so that the payload starts right behind the fixed header
+func normalizeRtpPacket(src []byte) []byte {
+	headerLen := RtpHeaderLen + 4*int(src[0]&0x0f)
+	if 0 != src[0]&0x10 {
+		if len(src) < headerLen+4 {
+			return src[:RtpHeaderLen]
+		}
+		headerLen += 4 + 4*(int(src[headerLen+2])<<8|int(src[headerLen+3]))
+	}
+	end := len(src)
+	if 0 != src[0]&0x20 {
+		end -= int(src[end-1])
+	}
+	if headerLen > end {
+		return src[:RtpHeaderLen]
+	}
+	copy(src[RtpHeaderLen:], src[headerLen:end])
+	return src[:RtpHeaderLen+end-headerLen]
+}
+
 func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int) {
 	naluHeaderSize, naluSize := rtpParser.rtpSourceHandler.ParsingRtp(header, payload)
 	if naluSize > len(payload) {
diff --git a/rtspclient.go b/rtspclient.go
index d2a4f9e..c8497ab 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -168,6 +168,7 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 		// too short to be a rtp packet
 		return
 	}
+	rtpData = normalizeRtpPacket(rtpData)
 
 	// rtp data
 	channelNum := int(header[1])
-- 
2.43.0


From 650886c5114c3a491ce2f9c7eae1933679f0902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 06/59] fix: tcpnetwork: data sent right after Run is no longer
 dropped

The connection only counted as connected once its goroutine had started, so a
Send racing with it (the first DESCRIBE of every session) was discarded without
a trace. The status is shared between goroutines and is now accessed atomically.
---
 tcpnetwork/tcpnetwork.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 38ddeee..7d083fd 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"log"
 	"net"
+	"sync/atomic"
 	"time"
 )
 
@@ -40,7 +41,7 @@ const (
 type Connection struct {
 	conn                net.Conn
 	connRW              *bufio.ReadWriter
-	status              int
+	status              int32
 	sendMsgQueue        chan []byte
 	sendBufferSize      int
 	sendTimeoutSec      int
@@ -81,17 +82,16 @@ func NewConnection(c net.Conn, sendBufferSize int, eventHandler func(*ConnEvent)
 
 // directly close, packages in queue will not be sent
 func (connection *Connection) close() {
-	if ConnStatusConnected != connection.status {
+	if !atomic.CompareAndSwapInt32(&connection.status, ConnStatusConnected, ConnStatusDisconnected) {
 		return
 	}
 
 	connection.conn.Close()
-	connection.status = ConnStatusDisconnected
 }
 
 // Close close tcp connection
 func (connection *Connection) Close() {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -119,11 +119,11 @@ func (connection *Connection) pushEvent(eventType int, data []byte) {
 
 // GetStatus get connection status
 func (connection *Connection) GetStatus() int {
-	return connection.status
+	return int(atomic.LoadInt32(&connection.status))
 }
 
 func (connection *Connection) setStatus(status int) {
-	connection.status = status
+	atomic.StoreInt32(&connection.status, int32(status))
 }
 
 // SetReadTimeoutSec set read time out
@@ -142,7 +142,7 @@ func (connection *Connection) SetStreamProtocol(streamProtocol IStreamProtocol)
 }
 
 func (connection *Connection) sendRaw(msg []byte) {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -162,7 +162,7 @@ func (connection *Connection) sendRaw(msg []byte) {
 
 // Send send data
 func (connection *Connection) Send(msg []byte, needCopy bool) {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -178,6 +178,7 @@ func (connection *Connection) Send(msg []byte, needCopy bool) {
 
 // Run a routine to process connection connection
 func (connection *Connection) Run() {
+	connection.setStatus(ConnStatusConnected)
 	go connection.routineMain()
 }
 
@@ -209,7 +210,6 @@ func (connection *Connection) routineMain() {
 
 	// connected
 	connection.pushEvent(ConnEventConnected, nil)
-	connection.status = ConnEventConnected
 
 	go connection.routineSend()
 	connection.routineRead()
-- 
2.43.0


From d4c12f4e261ea7495e54c3cb3e837fc4ebe6c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 07/59] fix: tcpnetwork: Send and Close no longer panic when
 the connection ends

The send queue was closed under the senders: one that was blocked on a full
queue, or between its status check and the send, panicked with 'send on closed
channel'. A replaced queue could also leave the send goroutine behind forever.
---
 tcpnetwork/tcpnetwork.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 7d083fd..23a9874 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -43,6 +43,7 @@ type Connection struct {
 	connRW              *bufio.ReadWriter
 	status              int32
 	sendMsgQueue        chan []byte
+	done                chan struct{} // closed when the connection is over
 	sendBufferSize      int
 	sendTimeoutSec      int
 	readTimeoutSec      int
@@ -73,6 +74,7 @@ func NewConnection(c net.Conn, sendBufferSize int, eventHandler func(*ConnEvent)
 		connRW:              bufio.NewReadWriter(bufio.NewReaderSize(c, connConfMaxReadBufferLength), bufio.NewWriterSize(c, connConfMaxReadBufferLength)),
 		status:              ConnStatusNone,
 		sendMsgQueue:        make(chan []byte, sendBufferSize),
+		done:                make(chan struct{}),
 		sendBufferSize:      sendBufferSize,
 		sendTimeoutSec:      connConfDefaultSendTimeoutSec,
 		maxReadBufferLength: connConfMaxReadBufferLength,
@@ -100,6 +102,10 @@ func (connection *Connection) Close() {
 		{
 			// nothing
 		}
+	case <-connection.done:
+		{
+			// the connection is over, nothing can be sent
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -151,6 +157,10 @@ func (connection *Connection) sendRaw(msg []byte) {
 		{
 			// nothing
 		}
+	case <-connection.done:
+		{
+			// the connection is over, nothing can be sent
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -194,9 +204,8 @@ func (connection *Connection) routineMain() {
 		// close the connection
 		connection.close()
 
-		// free channel
-		close(connection.sendMsgQueue)
-		connection.sendMsgQueue = make(chan []byte, connection.sendBufferSize)
+		// release the senders
+		close(connection.done)
 
 		// post event
 		connection.pushEvent(ConnEventDisconnected, nil)
@@ -222,13 +231,13 @@ func (connection *Connection) routineSend() error {
 
 	for {
 		select {
-		case sendMsg, ok := <-connection.sendMsgQueue:
+		case <-connection.done:
+			{
+				// the connection is over, quit
+				return nil
+			}
+		case sendMsg := <-connection.sendMsgQueue:
 			{
-				if !ok {
-					// channel closed, quit
-					return nil
-				}
-
 				if nil == sendMsg {
 					log.Println("User disconnect")
 					connection.close()
-- 
2.43.0


From f0ca77cbcc839312a807e770a4d7d78cd1ca0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 08/59] fix: tcpnetwork: a failed or blocked write no longer
 leaves the connection open

The result of Flush was ignored and a write error only ended the send goroutine,
so that Close had no effect any more; neither had it while a write was blocked
by a peer that does not read.
---
 tcpnetwork/tcpnetwork.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 23a9874..0401300 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -100,7 +100,8 @@ func (connection *Connection) Close() {
 	select {
 	case connection.sendMsgQueue <- nil:
 		{
-			// nothing
+			// packets in queue have to be sent in time
+			time.AfterFunc(time.Duration(connection.sendTimeoutSec)*time.Second, connection.close)
 		}
 	case <-connection.done:
 		{
@@ -251,16 +252,19 @@ func (connection *Connection) routineSend() error {
 					_, err = connection.connRW.Write(headerBytes)
 					if err != nil {
 						log.Println("Conn write error:", err)
+						connection.close()
 						return err
 					}
-					connection.connRW.Flush()
 				}
 				_, err = connection.connRW.Write(sendMsg)
+				if nil == err {
+					err = connection.connRW.Flush()
+				}
 				if err != nil {
 					log.Println("Conn write error:", err)
+					connection.close()
 					return err
 				}
-				connection.connRW.Flush()
 			}
 		}
 	}
-- 
2.43.0


From b921e385da5a89b6a7fecbd101651caff1017618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 09/59] fix: malformed RTSP responses no longer panic

A response without a status code ('RTSP' and an empty line) crashed the process
in the session's goroutine, a negative content length the parser.
---
 rtspparser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rtspparser.go b/rtspparser.go
index 29404b3..4812f09 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -29,6 +29,9 @@ const (
 
 func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	// rtp packet no context
+	if len(response) < 4 {
+		return errors.New("not rtsp packet")
+	}
 	if string(response[:4]) != "RTSP" && string(response[:4]) != "rtsp" {
 		return errors.New("not rtsp packet")
 	}
@@ -44,6 +47,9 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	rtspEndPos += len("\r\n\r\n") // add \r\n\r\n len
 
 	rtspResponse := response[:rtspEndPos]
+	if len(rtspResponse) < len("RTSP/1.0 ")+3 {
+		return errors.New("no status code")
+	}
 
 	// get status code
 	strStatus := string(response[len("RTSP/1.0 ") : len("RTSP/1.0 ")+3]) // skip past RTSP/1.0
@@ -61,6 +67,9 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		if theKey == strings.ToUpper(sContentLenHeader) {
 			theValue = strings.Replace(theValue, " ", "", -1)
 			context.contentLength, _ = strconv.Atoi(theValue)
+			if context.contentLength < 0 {
+				return errors.New("content length error")
+			}
 			if len(response)-rtspEndPos >= context.contentLength {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
-- 
2.43.0


From 49bff6ba75cd134de326437df4049a3373d8afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 10/59] fix: parse authentication challenges with spaces,
 colons or other orders

The challenge was scanned word by word: a realm with a space ("IP Camera(1)",
"LIVE555 Streaming Media") lost the nonce, a colon in the value discarded the
whole header, so that authentication failed with a valid password.
---
 rtspparser.go | 52 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index 4812f09..176dbef 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -2,7 +2,6 @@ package rtspclient
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 )
@@ -57,7 +56,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 
 	fields := strings.Split(string(rtspResponse), "\r\n")
 	for _, field := range fields {
-		keyValue := strings.Split(field, ":")
+		keyValue := strings.SplitN(field, ":", 2)
 		if 2 != len(keyValue) {
 			continue
 		}
@@ -77,12 +76,12 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			context.sessionID = theValue
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
-			if "Digest" == authenticateType {
+			if strings.EqualFold("Digest", authenticateType) {
 				context.digestAuthenticator = NewAuthenticator()
 				context.digestAuthenticator.realm = realm
 				context.digestAuthenticator.nonce = nonce
 				context.digestAuthenticator.authenicatorType = AuthenticatorTypeDigest
-			} else if "Basic" == authenticateType {
+			} else if strings.EqualFold("Basic", authenticateType) {
 				context.basicAuthenticator = NewAuthenticator()
 				context.basicAuthenticator.realm = realm
 				context.basicAuthenticator.authenicatorType = AuthenticatorTypeBasic
@@ -92,13 +91,46 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	return nil
 }
 
+// parsingAuthenticate parses "<type> <name>=<value>, <name>="<value>", ..."
 func parsingAuthenticate(authenticateValue string) (string, string, string, string) {
-	authenticateValue = strings.Replace(authenticateValue, "\"", " ", -1)
-	var realm string
-	var nonce string
-	var stale string
+	params := strings.TrimSpace(authenticateValue)
 	var authenticateType string
+	if pos := strings.IndexAny(params, " \t"); pos == -1 {
+		return params, "", "", ""
+	} else {
+		authenticateType = params[:pos]
+		params = params[pos:]
+	}
 
-	fmt.Sscanf(authenticateValue, " %s realm= %s , nonce= %s , stale= %s ", &authenticateType, &realm, &nonce, &stale)
-	return authenticateType, realm, nonce, stale
+	values := make(map[string]string)
+	for {
+		params = strings.TrimLeft(params, " \t,")
+		pos := strings.Index(params, "=")
+		if pos == -1 {
+			break
+		}
+		name := strings.ToLower(strings.TrimSpace(params[:pos]))
+		params = strings.TrimLeft(params[pos+1:], " \t")
+		end := 0
+		if strings.HasPrefix(params, "\"") {
+			params = params[1:]
+			for end < len(params) && params[end] != '"' {
+				if params[end] == '\\' && end+1 < len(params) {
+					end++
+				}
+				end++
+			}
+			values[name] = params[:end]
+		} else {
+			for end < len(params) && params[end] != ',' {
+				end++
+			}
+			values[name] = strings.TrimSpace(params[:end])
+		}
+		if end == len(params) {
+			break
+		}
+		params = params[end+1:]
+	}
+	return authenticateType, values["realm"], values["nonce"], values["stale"]
 }
-- 
2.43.0


From ae997d8e3112a61945b6fe1c3e7af6bd5374ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 11/59] fix: send the bare session id, also in TEARDOWN, and no
 empty Session header

The id was echoed with its parameters (;timeout=60), the first SETUP carried an
empty Session header and TEARDOWN none, which servers answer with 454.
---
 rtspparser.go  |  3 ++-
 rtsprequest.go | 23 ++++++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index 176dbef..f7c0051 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -73,7 +73,8 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
 		} else if theKey == strings.ToUpper(sSessionHeader) {
-			context.sessionID = theValue
+			// the parameters (timeout) are not part of the id
+			context.sessionID = strings.TrimSpace(strings.SplitN(theValue, ";", 2)[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
 			if strings.EqualFold("Digest", authenticateType) {
diff --git a/rtsprequest.go b/rtsprequest.go
index 76bf801..a8724b9 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -36,6 +36,14 @@ func (session *RtspClientSession) sendRequst(request []byte) {
 	session.rtspContext.cseq++
 }
 
+// sessionHeader is empty as long as the server has not assigned a session
+func (session *RtspClientSession) sessionHeader() string {
+	if "" == session.rtspContext.sessionID {
+		return ""
+	}
+	return fmt.Sprintf("Session: %s\r\n", session.rtspContext.sessionID)
+}
+
 func (session *RtspClientSession) SendDescribe() error {
 	if !session.rtspRequestInitial {
 		return errors.New("waiting last request Reply")
@@ -63,10 +71,10 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 
 	request := fmt.Sprintf(("SETUP %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
+		"%s" +
 		"Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d\r\n" +
 		"%s" +
-		"User-agent: %s\r\n"), inTrackURL, session.rtspContext.cseq, session.rtspContext.sessionID, inClientRTPid, inClientRTCPid, session.rtspContext.setupHeaders, session.rtspContext.userAgent)
+		"User-agent: %s\r\n"), inTrackURL, session.rtspContext.cseq, session.sessionHeader(), inClientRTPid, inClientRTCPid, session.rtspContext.setupHeaders, session.rtspContext.userAgent)
 
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
@@ -87,8 +95,8 @@ func (session *RtspClientSession) SendPause() error {
 
 	request := fmt.Sprintf(("PAUSE %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
+		"%s" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), session.rtspContext.userAgent)
 
 	request += "\r\n"
 	session.sendRequst([]byte(request))
@@ -112,11 +120,11 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
+		"%s" +
 		"%s" +
 		"%s" +
 		"x-prebuffer: maxtime=3.0\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, strStartTime, strSpeed, session.rtspContext.userAgent)
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), strStartTime, strSpeed, session.rtspContext.userAgent)
 
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
@@ -137,7 +145,8 @@ func (session *RtspClientSession) SendTeardown() error {
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.userAgent)
+		"%s" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), session.rtspContext.userAgent)
 
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
-- 
2.43.0


From 8e590d724a64cc692ac45e565e074dc573703c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 12/59] fix: PLAY with a start time sends a valid Range header
 and keeps the speed

The header read 'npt=%!d(float32=5).0-' and replaced the Speed header.
---
 rtsprequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index a8724b9..4c5bb6c 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -115,7 +115,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	var strStartTime string
 	if inStartTimeSec != 0 {
-		strSpeed = fmt.Sprintf("Range: npt=%d.0-\r\n", float32(inStartTimeSec))
+		strStartTime = fmt.Sprintf("Range: npt=%d.0-\r\n", inStartTimeSec)
 	}
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
-- 
2.43.0


From 3eee0560f03f45cd4ffbc4427bb46d6b2bdfc930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 13/59] fix: PAUSE is authenticated like every other request

---
 rtsprequest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtsprequest.go b/rtsprequest.go
index 4c5bb6c..d31dee0 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -98,6 +98,9 @@ func (session *RtspClientSession) SendPause() error {
 		"%s" +
 		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), session.rtspContext.userAgent)
 
+	if nil != session.rtspContext.authenicator {
+		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
+	}
 	request += "\r\n"
 	session.sendRequst([]byte(request))
 	return nil
-- 
2.43.0


From aa9cbd8826493c0aa349b9a6058063021e18d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 14/59] fix: Play no longer hangs when the server does not
 answer

The response timeout called Close, which waited for the response to a TEARDOWN
it could not send, timed out and called Close again, without an end.
---
 rtspclient.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index c8497ab..610552e 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -389,7 +389,9 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		}
 	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
 		{
-			session.Close()
+			if nil != session.tcpConn {
+				session.tcpConn.Close()
+			}
 			return nil, errors.New("recv response time out")
 		}
 	}
-- 
2.43.0


From dc346bdd122dec886b8e85a5a1cca830fbe82cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 15/59] fix: Close and requests on a session without connection
 do not crash

They dereferenced the missing connection; requests after a disconnect were
dropped silently and reported as sent.
---
 rtspclient.go  | 10 +++++++---
 rtsprequest.go | 26 ++++++++++++--------------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 610552e..0c6483e 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -322,9 +322,13 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 }
 
 func (session *RtspClientSession) Close() {
-	if session.tcpConn.GetStatus() == tcpnetwork.ConnEventConnected {
-		session.SendTeardown()
-		session.WaitRtspResponse()
+	if nil == session.tcpConn {
+		return
+	}
+	if session.tcpConn.GetStatus() == tcpnetwork.ConnStatusConnected {
+		if nil == session.SendTeardown() {
+			session.WaitRtspResponse()
+		}
 	}
 	session.tcpConn.Close()
 }
diff --git a/rtsprequest.go b/rtsprequest.go
index d31dee0..7559335 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -4,6 +4,8 @@ import (
 	"errors"
 	"fmt"
 	"log"
+
+	"github.com/NodeBoy2/rtspclient/tcpnetwork"
 )
 
 const (
@@ -29,11 +31,15 @@ func NewRtspClientContext() *RtspClientContext {
 	}
 }
 
-func (session *RtspClientSession) sendRequst(request []byte) {
+func (session *RtspClientSession) sendRequst(request []byte) error {
+	if nil == session.tcpConn || tcpnetwork.ConnStatusConnected != session.tcpConn.GetStatus() {
+		return errors.New("session is not connected")
+	}
 	log.Println(string(request))
 	session.rtspRequestInitial = false
 	session.tcpConn.Send([]byte(request), false)
 	session.rtspContext.cseq++
+	return nil
 }
 
 // sessionHeader is empty as long as the server has not assigned a session
@@ -60,8 +66,7 @@ func (session *RtspClientSession) SendDescribe() error {
 		request += session.rtspContext.authenicator.createAuthenticatorString("DESCRIBE", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid int, inClientRTCPid int) error {
@@ -83,9 +88,7 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 		request += session.rtspContext.authenicator.createAuthenticatorString("SETUP", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendPause() error {
@@ -102,8 +105,7 @@ func (session *RtspClientSession) SendPause() error {
 		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) error {
@@ -136,9 +138,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 		request += session.rtspContext.authenicator.createAuthenticatorString("PLAY", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendTeardown() error {
@@ -155,7 +155,5 @@ func (session *RtspClientSession) SendTeardown() error {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-
-	return nil
+	return session.sendRequst([]byte(request))
 }
-- 
2.43.0


From bc598be67c5dd5f0ebd8480c8ccde8f415594af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 16/59] fix: a response nobody waits for no longer blocks the
 session for good

The connection's goroutine waited to hand it over, so no media data and no
disconnect event were delivered any more, and the next request got it as its
answer. The queues were shared by successive connections and torn down by the
old one, which broke a session that reconnects on the disconnect event.
---
 rtspclient.go  | 51 +++++++++++++++++++++++++++-----------------------
 rtsprequest.go |  5 +++++
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 0c6483e..9322382 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -86,7 +86,7 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 		dataHandle:         rtpHandler,
 		eventHandle:        eventHandler,
 		eventQueue:         make(chan *tcpnetwork.ConnEvent),
-		rtspResponseQueue:  make(chan *RtspResponseContext),
+		rtspResponseQueue:  make(chan *RtspResponseContext, 1),
 		rtpProtocol:        &RTPStreamProtocol{},
 		rtspContext:        NewRtspClientContext(),
 		rtspRequestInitial: true,
@@ -96,22 +96,15 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 	}
 }
 
-func (session *RtspClientSession) pushConnEvent(event *tcpnetwork.ConnEvent) {
-	if nil == session.eventQueue {
-		return
-	}
-	session.eventQueue <- event
+func (session *RtspClientSession) HandleConn() {
+	session.handleConn(session.eventQueue, session.rtspResponseQueue)
 }
 
-func (session *RtspClientSession) HandleConn() {
-	defer func() {
-		close(session.eventQueue)
-		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
-		close(session.rtspResponseQueue)
-		session.rtspResponseQueue = make(chan *RtspResponseContext)
-	}()
+// handleConn handles the events of one connection, which has its own queues:
+// a new connection may already be in use when this one comes to its end
+func (session *RtspClientSession) handleConn(eventQueue chan *tcpnetwork.ConnEvent, responseQueue chan *RtspResponseContext) {
 	for {
-		event, ok := <-session.eventQueue
+		event, ok := <-eventQueue
 		if !ok {
 			// channel closed, quit
 			return
@@ -130,13 +123,14 @@ func (session *RtspClientSession) HandleConn() {
 		case tcpnetwork.ConnEventDisconnected:
 			{
 				log.Printf("conntion disconnected.")
+				close(responseQueue)
 				session.sendEvent(RtspEventDisconnected, nil)
 				return
 			}
 		case tcpnetwork.ConnEventData:
 			{
 				if event.Data != nil {
-					session.parsingData(event.Data)
+					session.parsingData(event.Data, responseQueue)
 				}
 			}
 			break
@@ -152,12 +146,12 @@ func (session *RtspClientSession) HandleConn() {
 	}
 }
 
-func (session *RtspClientSession) parsingData(data []byte) {
+func (session *RtspClientSession) parsingData(data []byte, responseQueue chan *RtspResponseContext) {
 	headerData := data[:4]
 	if headerData[0] == '$' {
 		session.parsingRtp(data)
 	} else if string(headerData[:4]) == "RTSP" || string(headerData[:4]) == "rtsp" {
-		session.parsingRtsp(data)
+		session.parsingRtsp(data, responseQueue)
 	}
 }
 
@@ -186,15 +180,20 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	}
 }
 
-func (session *RtspClientSession) parsingRtsp(data []byte) {
+func (session *RtspClientSession) parsingRtsp(data []byte, responseQueue chan *RtspResponseContext) {
 	log.Print(string(data))
 	rtspResponseContext := &RtspResponseContext{}
 	err := ParserRtspResponse(data, rtspResponseContext)
 	if nil != err {
-		session.rtspResponseQueue <- nil
-		return
+		rtspResponseContext = nil
+	}
+	select {
+	case responseQueue <- rtspResponseContext:
+	default:
+		// only one request is outstanding, do not hold up the data for a
+		// response that nobody waits for
+		log.Print("unexpected response")
 	}
-	session.rtspResponseQueue <- rtspResponseContext
 }
 
 func (session *RtspClientSession) sendRequest() error {
@@ -313,10 +312,16 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 }
 
 func (session *RtspClientSession) SetConnection(conn net.Conn) error {
-	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, session.pushConnEvent)
+	eventQueue := make(chan *tcpnetwork.ConnEvent)
+	responseQueue := make(chan *RtspResponseContext, 1)
+	session.eventQueue = eventQueue
+	session.rtspResponseQueue = responseQueue
+	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, func(event *tcpnetwork.ConnEvent) {
+		eventQueue <- event
+	})
 	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
 	session.tcpConn.Run()
-	go session.HandleConn()
+	go session.handleConn(eventQueue, responseQueue)
 
 	return session.sendRequest()
 }
diff --git a/rtsprequest.go b/rtsprequest.go
index 7559335..a7114de 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -36,6 +36,11 @@ func (session *RtspClientSession) sendRequst(request []byte) error {
 		return errors.New("session is not connected")
 	}
 	log.Println(string(request))
+	select {
+	case <-session.rtspResponseQueue:
+		// not a response to this request
+	default:
+	}
 	session.rtspRequestInitial = false
 	session.tcpConn.Send([]byte(request), false)
 	session.rtspContext.cseq++
-- 
2.43.0


From 695283ec40b411af44bd3243c1473bb749f3797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 17/59] fix: channel table is no longer shared unprotected, nor
 kept from an old stream

Interleaved data arriving while the next track is set up was looked up in a map
that Play was writing ('concurrent map read and map write'). Tracks of the
stream played before stayed in RtpMediaMap.
---
 rtspclient.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 9322382..15cda99 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -7,6 +7,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
@@ -77,6 +78,7 @@ type RtspClientSession struct {
 	eventQueue         chan *tcpnetwork.ConnEvent
 	rtspResponseQueue  chan *RtspResponseContext
 	rtpChannelMap      map[int]*RtpParser
+	rtpChannelLock     sync.Mutex // the connection's goroutine reads rtpChannelMap
 	sdpInfo            *SDPInfo
 	RtpMediaMap        map[int]MediaSubsession
 }
@@ -166,7 +168,9 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 
 	// rtp data
 	channelNum := int(header[1])
+	session.rtpChannelLock.Lock()
 	rtpParser, ok := session.rtpChannelMap[channelNum]
+	session.rtpChannelLock.Unlock()
 	if ok {
 		totalLength := 0
 		header, payload := rtpParser.splitRtpPacket(rtpData)
@@ -212,6 +216,10 @@ func (session *RtspClientSession) sendRequest() error {
 
 	session.sdpInfo = nil
 	session.rtspContext.authenicator = nil
+	session.rtpChannelLock.Lock()
+	session.rtpChannelMap = make(map[int]*RtpParser)
+	session.rtpChannelLock.Unlock()
+	session.RtpMediaMap = make(map[int]MediaSubsession)
 
 	session.SendDescribe()
 
@@ -260,7 +268,9 @@ func (session *RtspClientSession) sendRequest() error {
 		}
 		rtpIndex := index * 2
 		rtcpIndex := index*2 + 1
+		session.rtpChannelLock.Lock()
 		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
+		session.rtpChannelLock.Unlock()
 		session.RtpMediaMap[rtpIndex] = media
 		session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
 
-- 
2.43.0


From 19239da8ca380db356918fd7f6847eb6aa948f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 18/59] fix: default port for IPv6 addresses, no credentials of
 an earlier URL

---
 rtspclient.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 15cda99..c26b4d5 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -6,7 +6,6 @@ import (
 	"net"
 	"net/url"
 	"strconv"
-	"strings"
 	"sync"
 	"time"
 
@@ -307,10 +306,12 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		session.rtspContext.rtspURL += ("?" + urlInfo.RawQuery)
 	}
 	session.address = urlInfo.Host
-	if !strings.Contains(session.address, ":") {
-		session.address += ":554"
+	if "" == urlInfo.Port() {
+		session.address = net.JoinHostPort(urlInfo.Hostname(), "554")
 	}
 
+	session.username = ""
+	session.password = ""
 	if nil != urlInfo.User {
 		session.username = urlInfo.User.Username()
 		session.password, _ = urlInfo.User.Password()
-- 
2.43.0


From a8f9ed0815fc08cafd8d208baf9356a9a5290790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 19/59] fix: PlayUseWebsocket returns the error of the RTSP
 handshake

---
 rtspclient.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index c26b4d5..debca4c 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -364,8 +364,7 @@ func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string
 
 	conn := &WebsocketConn{conn: websocketConn}
 
-	session.SetConnection(conn)
-	return nil
+	return session.SetConnection(conn)
 }
 
 func (session *RtspClientSession) Play(rtspURL string) error {
-- 
2.43.0


From 910f856026806b63e2b69ae7566d7a550f9dcf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 20/59] fix: websocket messages larger than the read buffer no
 longer break the connection

---
 websocketconn.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index fd1586a..d7bb0a9 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -8,16 +8,21 @@ import (
 )
 
 type WebsocketConn struct {
-	conn *websocket.Conn
+	conn   *websocket.Conn
+	unread []byte // rest of the last message
 }
 
 func (conn *WebsocketConn) Read(b []byte) (int, error) {
-	_, message, err := conn.conn.ReadMessage()
-	if nil != err {
-		return 0, err
+	if 0 == len(conn.unread) {
+		_, message, err := conn.conn.ReadMessage()
+		if nil != err {
+			return 0, err
+		}
+		conn.unread = message
 	}
-	copy(b[:len(message)], message)
-	return len(message), nil
+	n := copy(b, conn.unread)
+	conn.unread = conn.unread[n:]
+	return n, nil
 }
 
 func (conn *WebsocketConn) Write(b []byte) (int, error) {
-- 
2.43.0


From f1c5aa18e8c18431da9c342fe790440ca8deb35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 21/59] fix: WebsocketConn closes its connection and does not
 call itself forever

---
 websocketconn.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index d7bb0a9..339f096 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -34,25 +34,30 @@ func (conn *WebsocketConn) Write(b []byte) (int, error) {
 }
 
 func (conn *WebsocketConn) Close() error {
-	return conn.conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
+	conn.conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
+	return conn.conn.Close()
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-	return conn.LocalAddr()
+	return conn.conn.LocalAddr()
 }
 
 func (conn *WebsocketConn) RemoteAddr() net.Addr {
-	return conn.RemoteAddr()
+	return conn.conn.RemoteAddr()
 }
 
 func (conn *WebsocketConn) SetDeadline(t time.Time) error {
-	return conn.SetDeadline(t)
+	err := conn.conn.SetReadDeadline(t)
+	if nil != err {
+		return err
+	}
+	return conn.conn.SetWriteDeadline(t)
 }
 
 func (conn *WebsocketConn) SetReadDeadline(t time.Time) error {
-	return conn.SetReadDeadline(t)
+	return conn.conn.SetReadDeadline(t)
 }
 
 func (conn *WebsocketConn) SetWriteDeadline(t time.Time) error {
-	return conn.SetWriteDeadline(t)
+	return conn.conn.SetWriteDeadline(t)
 }
-- 
2.43.0


From b0ef0b287cb8cc2131a4c42682d9e15b4a3f9ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 22/59] fix: an SDP that cannot be parsed no longer terminates
 the process

---
 sdpparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index e06062d..2516597 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -31,14 +31,14 @@ func parsingSDPLine(strSdp string) (*sdp.Message, error) {
 	var err error
 	sdpSession, err = sdp.DecodeSession([]byte(strSdp), sdpSession)
 	if nil != err {
-		log.Fatal("sdp decode session error: ", err)
+		log.Print("sdp decode session error: ", err)
 		return nil, err
 	}
 	sdpDecoder := sdp.NewDecoder(sdpSession)
 	sdpMessage := &sdp.Message{}
 	err = sdpDecoder.Decode(sdpMessage)
 	if nil != err {
-		log.Fatal("sdp decode error: ", err)
+		log.Print("sdp decode error: ", err)
 		return nil, err
 	}
 	return sdpMessage, nil
-- 
2.43.0


From 6ead7a6f3f4ee4980d8a6e8fe09bf969d49d20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 23/59] fix: payload format of a media with several formats is
 the first, not 0 (PCMU)

---
 sdpparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdpparser.go b/sdpparser.go
index 2516597..1a4c836 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -59,7 +59,7 @@ func parsingSDP(sdp string) *SDPInfo {
 
 	for index, meidaInfo := range sdpMessage.Medias {
 		sdpInfo.Medias[index].MediumName = meidaInfo.Description.Type
-		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(meidaInfo.Description.Format)
+		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(strings.Split(meidaInfo.Description.Format, " ")[0])
 		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
 		if "" == codecName {
 			sdpRtpmap := meidaInfo.Attributes.Value("rtpmap")
-- 
2.43.0


From 299b2fadaf560ee4ed2fc2c260ab66d1cadd3f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 24/59] fix: split the fmtp parameters at every semicolon

---
 sdpparser.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 1a4c836..0390385 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -108,17 +108,15 @@ func getFramerateForFramerate(sdpFramerate string) int {
 func getFmtParame(sdpFmtp string) map[string]string {
 	fmtParame := make(map[string]string)
 
-	fieldsFmtp := strings.Split(sdpFmtp, " ")
+	fieldsFmtp := strings.FieldsFunc(sdpFmtp, func(r rune) bool {
+		return r == ' ' || r == ';'
+	})
 	for _, field := range fieldsFmtp {
-		fields := strings.Split(field, " ")
-		for _, fieldTemp := range fields {
-			fieldTemp = strings.Replace(fieldTemp, ";", "", -1)
-			index := strings.Index(fieldTemp, "=")
-			if index == -1 {
-				fmtParame[fieldTemp] = ""
-			} else {
-				fmtParame[fieldTemp[:index]] = field[index+1:]
-			}
+		index := strings.Index(field, "=")
+		if index == -1 {
+			fmtParame[field] = ""
+		} else {
+			fmtParame[field[:index]] = field[index+1:]
 		}
 	}
 	return fmtParame
-- 
2.43.0


From be89e1afcd9308d8295af59750b69d87f7ca4fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 25/59] fix: sdp: repeat times are stored in their time
 description

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7d48944..c8e0515 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -874,7 +874,7 @@ func (d *Decoder) decodeRepeatTimes(m *Message) error {
 		err = newSectionDecodeError(d.section, msg)
 		return errors.Wrap(err, "failed to decode repeat")
 	}
-	t := m.Timing[len(m.Timing)-1]
+	t := &m.Timing[len(m.Timing)-1]
 	if err = decodeInterval(p[0], &t.Repeat); err != nil {
 		return errors.Wrap(err, "failed to decode repeat interval")
 	}
-- 
2.43.0


From 6ec21028f8209143cf12ad2eac6c57628bc1d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:01 +0000
Subject: [PATCH 26/59] fix: sdp: decode time zones after, and several, time
 descriptions

---
 sdp/decoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index c8e0515..608935f 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -289,6 +289,13 @@ func isExpected(t Type, s section, pos int) error {
 			return nil
 		}
 	case sectionTime:
+		if pos != 0 && t == TypeTiming {
+			// next time description
+			return nil
+		}
+		if t == TypeTimeZones {
+			return nil
+		}
 		if isExpected(t, sectionSession, orderingAfterTime) == nil {
 			//logger.Printf("t->s")
 			return nil
@@ -385,6 +392,9 @@ func (d *Decoder) decodeTiming(m *Message) error {
 		if err := isExpected(d.t, d.section, d.sPos); err != nil {
 			return errors.Wrap(err, "decode failed")
 		}
+		if d.t == TypeTiming {
+			d.sPos = 0
+		}
 		if !isZeroOrMore(d.t) {
 			d.sPos++
 		}
-- 
2.43.0


From 7c3528bb24d1cec2d9e5b9f410701e6f0e4301ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:02 +0000
Subject: [PATCH 27/59] fix: sdp: TTL of a media and number of IPv6 addresses
 of connection data

---
 sdp/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 608935f..7f1a661 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -651,16 +651,16 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		if isV4 {
 			switch d.section {
 			case sectionMedia:
-				m.Connection.TTL, err = decodeByte(first)
+				d.m.Connection.TTL, err = decodeByte(first)
 			case sectionSession:
 				m.Connection.TTL, err = decodeByte(first)
 			}
 		} else {
 			switch d.section {
 			case sectionMedia:
-				d.m.Connection.Addresses, err = decodeByte(second)
+				d.m.Connection.Addresses, err = decodeByte(first)
 			case sectionSession:
-				m.Connection.Addresses, err = decodeByte(second)
+				m.Connection.Addresses, err = decodeByte(first)
 			}
 		}
 		if err != nil {
-- 
2.43.0


From 906f9cdcf0443daeb0888cd4ba7180b39af76faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 28/59] fix: sdp: reject TTL and number of addresses that do
 not fit a byte

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7f1a661..1b22ba4 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -524,7 +524,7 @@ func decodeIP(dst net.IP, v []byte) (net.IP, error) {
 
 func decodeByte(dst []byte) (byte, error) {
 	// ALLOCATIONS: suboptimal.
-	n, err := strconv.ParseInt(string(dst), 10, 16)
+	n, err := strconv.ParseUint(string(dst), 10, 8)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From a01d52d68b387bd40407b1a771444f499787a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 29/59] fix: sdp: an empty interval is an error and does not
 panic

---
 sdp/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 1b22ba4..53a9210 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -839,6 +839,9 @@ func decodeInterval(b []byte, v *time.Duration) error {
 		noUnitSpecified bool
 		val             int
 	)
+	if len(b) == 0 {
+		return errors.Wrap(io.ErrUnexpectedEOF, "empty duration")
+	}
 	switch b[len(b)-1] {
 	case 'd':
 		unit = time.Hour * 24
-- 
2.43.0


From 91dbd8f9bccb91cd32c340cc0fe3e61e736960f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 30/59] fix: sdp: the number of IPv4 addresses without TTL is
 not written as TTL

---
 sdp/fields.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sdp/fields.go b/sdp/fields.go
index a11472b..ee95223 100644
--- a/sdp/fields.go
+++ b/sdp/fields.go
@@ -231,12 +231,18 @@ func (c ConnectionData) getAddressType() string {
 	return getAddressTypeIP(c.IP, c.AddressType)
 }
 
+// needTTL determines if the TTL has to be written: the number of IPv4
+// addresses can only follow a TTL, even if it is zero.
+func (c ConnectionData) needTTL() bool {
+	return c.TTL > 0 || (c.Addresses > 0 && isIPv4(c.IP))
+}
+
 // ConnectionAddress formats <connection-address> sub-field.
 func (c ConnectionData) ConnectionAddress() string {
 	// <base multicast address>[/<ttl>]/<number of addresses>
 	// ALLOCATIONS: suboptimal. Use appendAddress.
 	var address = strings.ToUpper(c.IP.String())
-	if c.TTL > 0 {
+	if c.needTTL() {
 		address += fmt.Sprintf("/%d", c.TTL)
 	}
 	if c.Addresses > 0 {
@@ -253,7 +259,7 @@ func (c ConnectionData) String() string {
 
 func (c ConnectionData) appendAddress(v []byte) []byte {
 	v = appendIP(v, c.IP)
-	if c.TTL > 0 {
+	if c.needTTL() {
 		v = appendRune(v, '/')
 		v = appendByte(v, c.TTL)
 	}
-- 
2.43.0


From 91e46733af678e5315f377392eef90b19c7a7b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 31/59] fix: sdp: a second connection line does not keep the
 TTL of the first

---
 sdp/decoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 53a9210..89b848d 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -576,9 +576,11 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 	}
 	switch d.section {
 	case sectionMedia:
+		d.m.Connection = ConnectionData{}
 		d.m.Connection.AddressType = string(addressType)
 		d.m.Connection.NetworkType = string(netType)
 	case sectionSession:
+		m.Connection = ConnectionData{}
 		m.Connection.AddressType = string(addressType)
 		m.Connection.NetworkType = string(netType)
 	}
-- 
2.43.0


From fa1eabdc37c66e5c9f9b62ae79c0ed335f78d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 32/59] fix: the DON of a H264 FU-B is not part of the NAL unit

---
 h264rtpparser.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index c5e7398..25ab456 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -44,10 +44,18 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 				return false, src[:RtpHeaderLen], nil
 			}
 			// For these NALUs, the first two bytes are the FU indicator and the FU header.
-			// If the start bit is set, we reconstruct the original NAL header into byte 1:
+			// If the start bit is set, we reconstruct the original NAL header into byte 1
+			// (of a FU-B into byte 3, the last one of the DON):
 			startBit := rtpData[1] & 0x80
 			endBit := rtpData[1] & 0x40
-			if 0 != startBit {
+			if 0 != startBit && 29 == packetNALUnitType {
+				if len(rtpData) < 4 {
+					// no DON
+					return false, src[:RtpHeaderLen], nil
+				}
+				rtpData[3] = (rtpData[0] & 0xe0) | (rtpData[1] & 0x1f)
+				skipHeaderLen = 3
+			} else if 0 != startBit {
 				// reset nal header
 				rtpData[1] = (rtpData[0] & 0xe0) | (rtpData[1] & 0x1f)
 				skipHeaderLen = 1
-- 
2.43.0


From 5e9cc5a80a1b0973eba612f77e022f3eb018f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 33/59] fix: the session id of an earlier connection is not
 used when the handshake fails early

---
 rtspclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index debca4c..bdf4e9d 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -215,6 +215,7 @@ func (session *RtspClientSession) sendRequest() error {
 
 	session.sdpInfo = nil
 	session.rtspContext.authenicator = nil
+	session.rtspContext.sessionID = ""
 	session.rtpChannelLock.Lock()
 	session.rtpChannelMap = make(map[int]*RtpParser)
 	session.rtpChannelLock.Unlock()
@@ -253,7 +254,6 @@ func (session *RtspClientSession) sendRequest() error {
 		return errors.New("parse sdp error")
 	}
 
-	session.rtspContext.sessionID = ""
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
 		if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
-- 
2.43.0


From b3a21137e7a9f22d1df86557c7a24be8f672bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:06 +0000
Subject: [PATCH 34/59] fix: an empty last fragment completes the NAL unit

---
 h264rtpparser.go | 2 +-
 rtspclient.go    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 25ab456..982fa37 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -5,7 +5,7 @@ type H264RtpParser struct {
 
 func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {
 	if len(src) < RtpHeaderLen+1 {
-		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
+		return false, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
 	rtpData := src[RtpHeaderLen:]
 	packetNALUnitType := (rtpData[0] & 0x1f)
diff --git a/rtspclient.go b/rtspclient.go
index bdf4e9d..0fd450e 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -173,7 +173,8 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	if ok {
 		totalLength := 0
 		header, payload := rtpParser.splitRtpPacket(rtpData)
-		for totalLength < len(payload) {
+		// the last packet of a frame may be empty
+		for first := true; first || totalLength < len(payload); first = false {
 			nalu, completionLength := rtpParser.pushData(header, payload[totalLength:])
 			if nil != nalu {
 				session.dataHandle(newRtspData(channelNum, session, nalu))
-- 
2.43.0


From 1cca839e48b2da3dc41afe7a376977c71c64c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 35/59] fix: encoding names are not case sensitive

---
 rtpparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rtpparser.go b/rtpparser.go
index fba1d91..45b4448 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -2,6 +2,7 @@ package rtspclient
 
 import (
 	"log"
+	"strings"
 )
 
 const (
@@ -86,7 +87,8 @@ func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int
 }
 
 func getRTPSourceHandler(codecName string) IRtpParseInterface {
-	switch codecName {
+	// encoding names are not case sensitive
+	switch strings.ToUpper(codecName) {
 	case "H264":
 		{
 			return &H264RtpParser{}
@@ -95,7 +97,7 @@ func getRTPSourceHandler(codecName string) IRtpParseInterface {
 		{
 			return &HevcRtpParser{}
 		}
-	case "bbw":
+	case "BBW":
 		{
 			return &MarkRtpParser{}
 		}
-- 
2.43.0


From 70a293312f8354b07bbe8f90dc1f7f435e7faf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 36/59] fix: PlayUseWebsocket refuses a session that is
 playing, like Play

---
 rtspclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 0fd450e..5c510a6 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -351,6 +351,11 @@ func (session *RtspClientSession) Close() {
 }
 
 func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string) error {
+
+	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
+		return errors.New("session is connected")
+	}
+
 	urlError := session.ParsingURL(rtspURL)
 	if nil != urlError {
 		return errors.New("url parse error: " + rtspURL)
-- 
2.43.0


From 7478532ea915c23740d2831a7d0559abb4493906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:55 +0000
Subject: [PATCH 37/59] fix: a SETUP response without a session id does not end
 the use of the id

---
 rtspclient.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 5c510a6..4502609 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -281,7 +281,9 @@ func (session *RtspClientSession) sendRequest() error {
 		if 200 != response.Status {
 			return errors.New("response error: " + strconv.Itoa(response.Status))
 		}
-		session.rtspContext.sessionID = response.sessionID
+		if "" != response.sessionID {
+			session.rtspContext.sessionID = response.sessionID
+		}
 	}
 
 	session.SendPlay(0, 1)
-- 
2.43.0


From 75afff2cc5dadbbb3c9901307a8e33e98ac537c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:40 +0000
Subject: [PATCH 38/59] fix: intervals that do not fit a duration are rejected

---
 sdp/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 89b848d..7f1e493 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"strconv"
 	"strings"
@@ -867,6 +868,9 @@ func decodeInterval(b []byte, v *time.Duration) error {
 	if err := decodeInt(b, &val); err != nil {
 		return errors.Wrap(err, "unable to decode value")
 	}
+	if max := int64(math.MaxInt64 / unit); int64(val) > max || int64(val) < -max {
+		return errors.New("duration out of range")
+	}
 	*v = time.Duration(val) * unit
 	return nil
 }
-- 
2.43.0


From cd6850673945ede1fdd9cc7b8f6d8b0099b09bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 39/59] fix: take rtpmap and fmtp of the media's payload format

A media with several payload formats may describe them in any order; the first
rtpmap and fmtp lines were taken, whatever format they are for.
---
 sdpparser.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 0390385..c0ee810 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -62,7 +62,7 @@ func parsingSDP(sdp string) *SDPInfo {
 		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(strings.Split(meidaInfo.Description.Format, " ")[0])
 		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
 		if "" == codecName {
-			sdpRtpmap := meidaInfo.Attributes.Value("rtpmap")
+			sdpRtpmap := getFormatAttribute(meidaInfo.Attributes.Values("rtpmap"), sdpInfo.Medias[index].PayloadFormat)
 			if "" != sdpRtpmap {
 				codecName, timestampFrequency, channels = getPayloadInfoForRtpmap(sdpRtpmap)
 			}
@@ -88,7 +88,7 @@ func parsingSDP(sdp string) *SDPInfo {
 			sdpInfo.Medias[index].VideoFramerate = getFramerateForFramerate(sdpFramerate)
 		}
 
-		sdpFmtp := meidaInfo.Attributes.Value("fmtp")
+		sdpFmtp := getFormatAttribute(meidaInfo.Attributes.Values("fmtp"), sdpInfo.Medias[index].PayloadFormat)
 		if "" != sdpFmtp {
 			sdpInfo.Medias[index].Fmtp = getFmtParame(sdpFmtp)
 			log.Print(sdpFmtp)
@@ -99,6 +99,21 @@ func parsingSDP(sdp string) *SDPInfo {
 	return sdpInfo
 }
 
+// getFormatAttribute returns the "<fmt> ..." value of the payload format
+// (the first value when there is none for it)
+func getFormatAttribute(values []string, payloadFormat int) string {
+	for _, value := range values {
+		fields := strings.Fields(value)
+		if 0 < len(fields) && strconv.Itoa(payloadFormat) == fields[0] {
+			return value
+		}
+	}
+	if 0 == len(values) {
+		return ""
+	}
+	return values[0]
+}
+
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
 	framerate, _ := strconv.Atoi(sdpFramerate)
-- 
2.43.0


From a71022040548432cac1ee58e85b70df83b64d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 40/59] fix: frame rates with a fraction

a=framerate:25.0 is as valid as 25, and was reported as 0.
---
 sdpparser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index c0ee810..2d65e3a 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -116,8 +116,12 @@ func getFormatAttribute(values []string, payloadFormat int) string {
 
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
-	framerate, _ := strconv.Atoi(sdpFramerate)
-	return framerate
+	// <fps> may have a fraction
+	framerate, err := strconv.ParseFloat(strings.TrimSpace(sdpFramerate), 64)
+	if nil != err || !(0 < framerate && framerate < 1000000) {
+		return 0
+	}
+	return int(framerate + 0.5)
 }
 
 func getFmtParame(sdpFmtp string) map[string]string {
-- 
2.43.0


From 3aadf768460437efcd18430f7ff36b00443bd279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 41/59] fix: drop H265 packets without a complete payload
 header

A payload of a single byte was kept and put in front of the next unit.
---
 hevcrtpparser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 1aeb261..3a8ebcc 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -5,7 +5,8 @@ type HevcRtpParser struct {
 
 func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {
 	if len(src) < RtpHeaderLen+2 {
-		return false, src[:RtpHeaderLen], src[RtpHeaderLen:]
+		// no payload header
+		return false, src[:RtpHeaderLen], nil
 	}
 
 	rtpData := src[RtpHeaderLen:]
-- 
2.43.0


From c39d7672df4b1f387470ebad68670c5558672cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 42/59] fix: host names in c= lines were lost

---
 sdp/decoder.go | 10 ++++++++--
 sdp/fields.go  | 23 ++++++++++++++++++++---
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7f1e493..7501b24 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -613,8 +613,14 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 	switch d.section {
 	case sectionMedia:
 		d.m.Connection.IP, err = decodeIP(m.Connection.IP, base)
+		if d.m.Connection.IP == nil {
+			d.m.Connection.Host = string(base)
+		}
 	case sectionSession:
 		m.Connection.IP, err = decodeIP(m.Connection.IP, base)
+		if m.Connection.IP == nil {
+			m.Connection.Host = string(base)
+		}
 	}
 	if err != nil {
 		return errors.Wrap(err, "failed to decode connection data")
@@ -623,9 +629,9 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 	var isV4 bool
 	switch d.section {
 	case sectionMedia:
-		isV4 = isIPv4(d.m.Connection.IP)
+		isV4 = d.m.Connection.isIPv4()
 	case sectionSession:
-		isV4 = isIPv4(m.Connection.IP)
+		isV4 = m.Connection.isIPv4()
 	}
 	if len(second) > 0 {
 		if !isV4 {
diff --git a/sdp/fields.go b/sdp/fields.go
index ee95223..6b7e741 100644
--- a/sdp/fields.go
+++ b/sdp/fields.go
@@ -155,6 +155,7 @@ type ConnectionData struct {
 	IP          net.IP // <base multicast address>
 	TTL         byte   // <ttl>
 	Addresses   byte   // <number of addresses>
+	Host        string // host name, if there is one in place of IP
 }
 
 // Blank determines if ConnectionData is blank value.
@@ -179,7 +180,7 @@ func (c ConnectionData) Equal(b ConnectionData) bool {
 	if c.Addresses != b.Addresses {
 		return false
 	}
-	return true
+	return c.Host == b.Host
 }
 
 const (
@@ -234,7 +235,16 @@ func (c ConnectionData) getAddressType() string {
 // needTTL determines if the TTL has to be written: the number of IPv4
 // addresses can only follow a TTL, even if it is zero.
 func (c ConnectionData) needTTL() bool {
-	return c.TTL > 0 || (c.Addresses > 0 && isIPv4(c.IP))
+	return c.TTL > 0 || (c.Addresses > 0 && c.isIPv4())
+}
+
+// isIPv4 determines if the address is an IPv4 address, or the name of a host
+// with one.
+func (c ConnectionData) isIPv4() bool {
+	if c.IP == nil && len(c.Host) > 0 {
+		return c.AddressType != addrTypeIPv6
+	}
+	return isIPv4(c.IP)
 }
 
 // ConnectionAddress formats <connection-address> sub-field.
@@ -242,6 +252,9 @@ func (c ConnectionData) ConnectionAddress() string {
 	// <base multicast address>[/<ttl>]/<number of addresses>
 	// ALLOCATIONS: suboptimal. Use appendAddress.
 	var address = strings.ToUpper(c.IP.String())
+	if c.IP == nil && len(c.Host) > 0 {
+		address = c.Host
+	}
 	if c.needTTL() {
 		address += fmt.Sprintf("/%d", c.TTL)
 	}
@@ -258,7 +271,11 @@ func (c ConnectionData) String() string {
 }
 
 func (c ConnectionData) appendAddress(v []byte) []byte {
-	v = appendIP(v, c.IP)
+	if c.IP == nil && len(c.Host) > 0 {
+		v = append(v, c.Host...)
+	} else {
+		v = appendIP(v, c.IP)
+	}
 	if c.needTTL() {
 		v = appendRune(v, '/')
 		v = appendByte(v, c.TTL)
-- 
2.43.0


From 24735f4c1ef6354fd7a4814d8f71a2e71e37690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 43/59] fix: c= lines with an empty element in the address were
 accepted

---
 sdp/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7501b24..d66a561 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -610,6 +610,10 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 			return errors.Wrap(err, "failed to decode connection data")
 		}
 	}
+	if len(base) == 0 || (subField > 0 && len(first) == 0) || (subField > 1 && len(second) == 0) {
+		err = d.newFieldError("empty element in address")
+		return errors.Wrap(err, "failed to decode connection data")
+	}
 	switch d.section {
 	case sectionMedia:
 		d.m.Connection.IP, err = decodeIP(m.Connection.IP, base)
-- 
2.43.0


From a18ffc56674675638391e0b3b8c3620f36bd2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 44/59] fix: m= lines with more than two port elements were
 accepted

---
 sdp/decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index d66a561..059d594 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -968,6 +968,11 @@ func (d *Decoder) decodeMediaDescription(m *Message) error {
 	}
 	// port: port/ports_number
 	pp := bytes.Split(p[1], []byte{'/'})
+	if len(pp) > 2 {
+		msg := fmt.Sprintf("unexpected count of port elements %d > 2", len(pp))
+		err = newSectionDecodeError(d.section, msg)
+		return errors.Wrap(err, "failed to decode media description")
+	}
 	if err = decodeInt(pp[0], &desc.Port); err != nil {
 		return errors.Wrap(err, "failed to decode port")
 	}
-- 
2.43.0


From 58f022dc23fafbb22befbdc7ff42f2b4e8779440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 45/59] fix: data for a session without a data handler crashed

---
 rtspclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 4502609..ac2c796 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -176,7 +176,7 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 		// the last packet of a frame may be empty
 		for first := true; first || totalLength < len(payload); first = false {
 			nalu, completionLength := rtpParser.pushData(header, payload[totalLength:])
-			if nil != nalu {
+			if nil != nalu && nil != session.dataHandle {
 				session.dataHandle(newRtspData(channelNum, session, nalu))
 			}
 			totalLength += completionLength
-- 
2.43.0


From 73b89c4789db644db823fcaca619bd2b66118c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 46/59] fix: relative control values beginning with rtsp were
 taken for full URLs, those with a mixed-case scheme were not

---
 rtspclient.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index ac2c796..46fdc1b 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -6,6 +6,7 @@ import (
 	"net"
 	"net/url"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -200,6 +201,19 @@ func (session *RtspClientSession) parsingRtsp(data []byte, responseQueue chan *R
 	}
 }
 
+// isRtspURL tells a full URL from a relative one, which may begin with "rtsp", too
+func isRtspURL(trackURL string) bool {
+	pos := strings.Index(trackURL, "://")
+	if pos == -1 {
+		return false
+	}
+	switch strings.ToLower(trackURL[:pos]) {
+	case "rtsp", "rtsps", "rtspu":
+		return true
+	}
+	return false
+}
+
 func (session *RtspClientSession) sendRequest() error {
 	var response *RtspResponseContext
 	var errorInfo error
@@ -257,7 +271,7 @@ func (session *RtspClientSession) sendRequest() error {
 
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
-		if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
+		if !isRtspURL(strTrackURL) {
 			// if strings.Contains(session.rtspContext.rtspURL, "?") {
 			// 	paramStartIndex := strings.Index(session.rtspContext.rtspURL, "?")
 			// 	strTrackURL = session.rtspContext.rtspURL[:paramStartIndex] + "/" + strTrackURL + session.rtspContext.rtspURL[paramStartIndex:]
-- 
2.43.0


From b531da5fa9251fc254227eb562ccb724dd484cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 47/59] fix: a request whose response was not waited for made
 the next stream of the session fail

---
 rtspclient.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 46fdc1b..5abd8d7 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -228,6 +228,8 @@ func (session *RtspClientSession) sendRequest() error {
 		}
 	}()
 
+	// a request of an earlier stream gets no response any more
+	session.rtspRequestInitial = true
 	session.sdpInfo = nil
 	session.rtspContext.authenicator = nil
 	session.rtspContext.sessionID = ""
-- 
2.43.0


From 2a3b5cc0207c2730cfe08f50eecfe5d8d9dd2bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 48/59] fix: Close did not tell the server while the response
 to a request was still to come

---
 rtspclient.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 5abd8d7..efffcb9 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -361,6 +361,8 @@ func (session *RtspClientSession) Close() {
 		return
 	}
 	if session.tcpConn.GetStatus() == tcpnetwork.ConnStatusConnected {
+		// also when the response to another request is still to come
+		session.rtspRequestInitial = true
 		if nil == session.SendTeardown() {
 			session.WaitRtspResponse()
 		}
-- 
2.43.0


From 23a5c9d0a0accb9c2690235c9336087f7474b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 49/59] fix: medias were added to RtpMediaMap while the data
 handler could be looking at it

---
 rtspclient.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index efffcb9..488a2f0 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -271,6 +271,11 @@ func (session *RtspClientSession) sendRequest() error {
 		return errors.New("parse sdp error")
 	}
 
+	// the data handler may look at the medias as soon as the first one is set up
+	for index, media := range session.sdpInfo.Medias {
+		session.RtpMediaMap[index*2] = media
+	}
+
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
 		if !isRtspURL(strTrackURL) {
@@ -287,7 +292,6 @@ func (session *RtspClientSession) sendRequest() error {
 		session.rtpChannelLock.Lock()
 		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
 		session.rtpChannelLock.Unlock()
-		session.RtpMediaMap[rtpIndex] = media
 		session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
 
 		response, errorInfo = session.WaitRtspResponse()
-- 
2.43.0


From d82da9450e849931eaa63811a62e076cdabd8532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 50/59] fix: sending an empty message without copying closed
 the connection when it was nil

---
 tcpnetwork/tcpnetwork.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 0401300..9e0faec 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -183,6 +183,10 @@ func (connection *Connection) Send(msg []byte, needCopy bool) {
 		copy(msgCopy, msg)
 		buf = msgCopy
 	}
+	if nil == buf {
+		// an empty message; in the queue nil stands for Close
+		buf = []byte{}
+	}
 
 	connection.sendRaw(buf)
 }
-- 
2.43.0


From 2a9466c579390b99fe5173cd5d2f07516a685f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 51/59] fix: medias whose format is not a number were reported
 as PCMU

---
 sdpparser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 2d65e3a..48a8e54 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -59,8 +59,14 @@ func parsingSDP(sdp string) *SDPInfo {
 
 	for index, meidaInfo := range sdpMessage.Medias {
 		sdpInfo.Medias[index].MediumName = meidaInfo.Description.Type
-		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(strings.Split(meidaInfo.Description.Format, " ")[0])
-		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
+		payloadFormat, formatError := strconv.Atoi(strings.Split(meidaInfo.Description.Format, " ")[0])
+		if nil == formatError {
+			sdpInfo.Medias[index].PayloadFormat = payloadFormat
+		} else {
+			// not a payload format of RTP, and not 0, whose codec is fixed
+			payloadFormat = -1
+		}
+		codecName, _, timestampFrequency, channels := getPayloadInfo(payloadFormat)
 		if "" == codecName {
 			sdpRtpmap := getFormatAttribute(meidaInfo.Attributes.Values("rtpmap"), sdpInfo.Medias[index].PayloadFormat)
 			if "" != sdpRtpmap {
-- 
2.43.0


From 0052346846a06d06d16f8b42a4dd42b49003b3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:03 +0000
Subject: [PATCH 52/59] fix: a URL without a host connected to this machine

---
 rtspclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 488a2f0..c04535d 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -408,6 +408,11 @@ func (session *RtspClientSession) Play(rtspURL string) error {
 		return errors.New("url parse error: " + rtspURL)
 	}
 
+	// without a host this machine would be dialed
+	if host, _, _ := net.SplitHostPort(session.address); "" == host {
+		return errors.New("no host in url: " + rtspURL)
+	}
+
 	// create connection
 	conn, err := net.DialTimeout("tcp", session.address, time.Duration(session.timeoutSec)*time.Second)
 	if nil != err {
-- 
2.43.0


From c8381d2de533688be4f0c9eca585944586dfd76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 53/59] fix: quotes and backslashes in the user name broke the
 digest credentials

---
 authenticator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/authenticator.go b/authenticator.go
index 0ffe8e4..b1e424f 100644
--- a/authenticator.go
+++ b/authenticator.go
@@ -5,6 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
+	"strings"
 )
 
 const (
@@ -21,6 +22,10 @@ type Authenticator struct {
 	authenicatorType int
 }
 
+// quoteReplacer escapes what may not be in a quoted string (realm and nonce are
+// sent as they came, with their escapes)
+var quoteReplacer = strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
+
 func NewAuthenticator() *Authenticator {
 	return &Authenticator{
 		authenicatorType: AuthenticatorTypeNone,
@@ -46,7 +51,7 @@ func (authenticator *Authenticator) createAuthenticatorString(cmd, url string) s
 		//    md5(<password>:<nonce>:md5(<cmd>:<url>))
 		strResponse := MD5StringToString(MD5StringToString(authenticator.username+":"+authenticator.realm+":"+authenticator.password) + ":" + authenticator.nonce + ":" + MD5StringToString(cmd+":"+url))
 		authenticatorString = "Authorization: Digest username=\"%s\", realm=\"%s\", nonce=\"%s\", uri=\"%s\", response=\"%s\"\r\n"
-		authenticatorString = fmt.Sprintf(authenticatorString, authenticator.username, authenticator.realm, authenticator.nonce, url, strResponse)
+		authenticatorString = fmt.Sprintf(authenticatorString, quoteReplacer.Replace(authenticator.username), authenticator.realm, authenticator.nonce, url, strResponse)
 	}
 	return authenticatorString
 }
-- 
2.43.0


From fe71c3a6f1e00674ed883a89ef955656d6d366ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 54/59] fix: blanks and quotes in the query of a URL broke the
 requests

---
 rtspclient.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index c04535d..325b39c 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -341,6 +341,8 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 	}
 
 	urlInfo.User = nil
+	// the query is taken as it is, but for what would end the URL in a request
+	urlInfo.RawQuery = strings.NewReplacer(" ", "%20", "\"", "%22", "\\", "%5C").Replace(urlInfo.RawQuery)
 	session.rtspContext.rtspURL = urlInfo.String()
 	return nil
 }
-- 
2.43.0


From 16af30ce58b186a209c48d23a963cc8a7699d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 55/59] fix: line breaks in the user name of a URL got into the
 requests

---
 rtspclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 325b39c..98f9d8e 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
 
@@ -339,6 +340,10 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		session.username = urlInfo.User.Username()
 		session.password, _ = urlInfo.User.Password()
 	}
+	if -1 != strings.IndexFunc(session.username+session.password, unicode.IsControl) {
+		// not allowed in credentials, a line break would end the header
+		return errors.New("control character in user name or password")
+	}
 
 	urlInfo.User = nil
 	// the query is taken as it is, but for what would end the URL in a request
-- 
2.43.0


From 300cdfb44154e47c2f65938e2c33c8928be34343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 56/59] fix: descriptions with bandwidth types beyond CT and AS
 were rejected

---
 sdp/decoder.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 059d594..a6590e9 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -686,6 +686,16 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 	return nil
 }
 
+// isToken tells whether s is a token of RFC 4566.
+func isToken(s string) bool {
+	for i := 0; i < len(s); i++ {
+		if c := s[i]; c <= ' ' || c > '~' || strings.IndexByte("\"(),/:;<=>?@[\\]", c) >= 0 {
+			return false
+		}
+	}
+	return len(s) > 0
+}
+
 func (d *Decoder) decodeBandwidth(m *Message) error {
 	k, v, err := d.decodeKV()
 	if err != nil {
@@ -697,13 +707,12 @@ func (d *Decoder) decodeBandwidth(m *Message) error {
 		return errors.Wrap(err, "failed to decode bandwidth")
 	}
 	var (
-		t BandwidthType
+		t = BandwidthType(k)
 		n int
 	)
-	switch bandWidthType := BandwidthType(k); bandWidthType {
-	case BandwidthApplicationSpecific, BandwidthConferenceTotal:
-		t = bandWidthType
-	default:
+	// there are more types than those of RFC 4566 (TIAS, RR, RS, X-...), which
+	// must not make a description unusable
+	if !isToken(k) {
 		msg := fmt.Sprintf("bad bandwidth type %s", k)
 		err = newSectionDecodeError(d.section, msg)
 		return errors.Wrap(err, "failed to decode bandwidth")
-- 
2.43.0


From 3d931b40d0ddaa1792bfd040b66c7db8bed814be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 57/59] fix: the name of sessions without one ("s= ") made a
 description unusable

---
 sdp/sdp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index eed5487..2b85612 100644
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -257,6 +257,13 @@ func (s *sliceScanner) Scan() bool {
 		if len(s.line) == 0 {
 			continue
 		}
+		if line := string(s.line); line == "s=" || line == "i=" {
+			// a single space is a text, too: "s= " is no meaningful name
+			start := s.pos + bytes.Index(s.v[s.pos:s.end], s.line)
+			if n := start + len(line); n < s.end && s.v[n] == ' ' {
+				s.line = s.v[start : n+1]
+			}
+		}
 		return true
 	}
 }
-- 
2.43.0


From 1055260c7e3c9445441b283d1cc2a76f8413cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 58/59] fix: descriptions without user name or session name
 were encoded as malformed ones

---
 sdp/encoder.go | 2 +-
 sdp/fields.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/encoder.go b/sdp/encoder.go
index 1a603b3..37eb941 100644
--- a/sdp/encoder.go
+++ b/sdp/encoder.go
@@ -18,7 +18,7 @@ func (m *Message) Append(s Session) Session {
 	// see https://tools.ietf.org/html/rfc4566#section-5
 	s = s.AddVersion(m.Version)
 	s = s.AddOrigin(m.Origin)
-	s = s.AddSessionName(m.Name)
+	s = s.AddSessionName(getDefault(m.Name, " ")) // must not be empty
 	if len(m.Info) > 0 {
 		s = s.AddSessionInfo(m.Info)
 	}
diff --git a/sdp/fields.go b/sdp/fields.go
index 6b7e741..e306f76 100644
--- a/sdp/fields.go
+++ b/sdp/fields.go
@@ -332,7 +332,7 @@ func (o Origin) Equal(b Origin) bool {
 // AddOrigin appends Origin field to Session.
 func (s Session) AddOrigin(o Origin) Session {
 	v := make([]byte, 0, 2048)
-	v = appendSpace(append(v, o.Username...))
+	v = appendSpace(append(v, getDefault(o.Username, "-")...))
 	v = appendSpace(appendInt(v, o.SessionID))
 	v = appendSpace(appendInt(v, o.SessionVersion))
 	v = appendSpace(append(v, o.getNetworkType()...))
-- 
2.43.0


From 48b02db983ab3dc56292390736b6fe9278e88bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 59/59] fix: a tab in front of the value of Content-length hid
 the body of a response

---
 rtspparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index f7c0051..757f551 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -64,7 +64,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		theKey = strings.Replace(theKey, " ", "", -1)
 		theValue := keyValue[1]
 		if theKey == strings.ToUpper(sContentLenHeader) {
-			theValue = strings.Replace(theValue, " ", "", -1)
+			theValue = strings.TrimSpace(theValue)
 			context.contentLength, _ = strconv.Atoi(theValue)
 			if context.contentLength < 0 {
 				return errors.New("content length error")
-- 
2.43.0

