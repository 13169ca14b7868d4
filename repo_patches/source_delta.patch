From b10fc4e57ce4c10944b99d8632bae6685bcc8caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:28 +0000
Subject: [PATCH 001/106] fix: keep SRT sequence numbers in the 31-bit space
 across wrap-around

After sequence number 0x7fffffff the expected number became 0x80000000, so
acknowledgements carried an invalid number and gap reports across the wrap
were wrong. An initial sequence number of 0 was also overridden by the first
packet that arrived, hiding the loss of the packets before it.
---
 libsrt/control.go  |  3 +++
 libsrt/listener.go | 12 ++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/libsrt/control.go b/libsrt/control.go
index c14c12c..376de36 100644
--- a/libsrt/control.go
+++ b/libsrt/control.go
@@ -81,6 +81,9 @@ func ParseNAK(body []byte) []LossRange {
 	return out
 }
 
+// seqMask keeps sequence arithmetic inside SRT's 31-bit number space.
+const seqMask = uint32(1)<<31 - 1
+
 // SeqDiff returns a − b under SRT's 31-bit modular sequence arithmetic.
 // Positive values mean a is "ahead of" b. Used by receiver bookkeeping
 // to detect new packets, retransmits, and loss.
diff --git a/libsrt/listener.go b/libsrt/listener.go
index 867c791..d92fed8 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -148,10 +148,6 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 // jitter buffer.
 func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 	sess.mu.Lock()
-	if sess.expectedSeq == 0 && sess.ackNum == 0 {
-		//First data packet — adopt its sequence as the baseline.
-		sess.expectedSeq = hdr.SeqNumber
-	}
 	diff := SeqDiff(hdr.SeqNumber, sess.expectedSeq)
 	sess.receivedSeqs++
 
@@ -165,12 +161,12 @@ func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 		//NAK so the sender can retransmit; either it arrives before we
 		//hand off media (benign) or we've already moved past it.
 		from := sess.expectedSeq
-		to := hdr.SeqNumber - 1
-		sess.expectedSeq = hdr.SeqNumber + 1
+		to := (hdr.SeqNumber - 1) & seqMask
+		sess.expectedSeq = (hdr.SeqNumber + 1) & seqMask
 		sess.mu.Unlock()
 		l.sendNAK(sess, from, to)
 	default:
-		sess.expectedSeq++
+		sess.expectedSeq = (sess.expectedSeq + 1) & seqMask
 		sess.mu.Unlock()
 	}
 	if l.onData != nil {
@@ -249,7 +245,7 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 			return
 		}
 		sess.peerSocketID = hs.SrtSocketID
-		sess.expectedSeq = hs.InitialSequence
+		sess.expectedSeq = hs.InitialSequence & seqMask
 		sess.concluded = true
 
 		reply := *hs
-- 
2.43.0


From 795e47e1300058e2c2c49b5d59724f0d4201021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:55 +0000
Subject: [PATCH 002/106] fix: require the SRT induction step and ignore
 repeated conclusions

A conclusion with cookie 0 from a peer that never asked for a cookie was
accepted, and a retransmitted conclusion rewound the expected sequence
number of a running session to the initial one, so packets already handed
on were accepted again or a huge gap was reported.
---
 libsrt/listener.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index d92fed8..afbf085 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -39,6 +39,7 @@ type session struct {
 	ourSocketID   uint32
 	cookie        uint32
 	concluded     bool
+	concludedCookie uint32 //cookie the running session was concluded with
 	startTime     time.Time
 	lastSeen      time.Time
 	streamID      string
@@ -211,6 +212,12 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 	l.mu.Lock()
 	sess := l.sessions[key]
 	if sess == nil {
+		if hs.HandshakeType != HSTypeAgreement {
+			//A session starts with an induction; nobody was given a
+			//cookie for this one.
+			l.mu.Unlock()
+			return
+		}
 		sess = &session{
 			peerAddr:     peer,
 			ourSocketID:  l.socketID,
@@ -244,9 +251,14 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 			//Wrong cookie — quietly drop. Real SRT rejects.
 			return
 		}
-		sess.peerSocketID = hs.SrtSocketID
-		sess.expectedSeq = hs.InitialSequence & seqMask
-		sess.concluded = true
+		//A repeated conclusion means our reply got lost: answer again,
+		//but leave the running session alone.
+		if !sess.concluded || sess.concludedCookie != hs.SyncCookie {
+			sess.peerSocketID = hs.SrtSocketID
+			sess.expectedSeq = hs.InitialSequence & seqMask
+			sess.concluded = true
+			sess.concludedCookie = hs.SyncCookie
+		}
 
 		reply := *hs
 		reply.HandshakeType = HSTypeConclusion
-- 
2.43.0


From e42cbccb24c3ecdc689874487050a5e0ce8efd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:56 +0000
Subject: [PATCH 003/106] fix: stop an SRT session when its data handler
 returns an error

DataHandler documents that returning an error stops the session, but the
error was dropped and the handler kept being called.
---
 libsrt/listener.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index afbf085..c74d5b9 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -171,7 +171,13 @@ func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 		sess.mu.Unlock()
 	}
 	if l.onData != nil {
-		_ = l.onData(sess.streamID, body)
+		if err := l.onData(sess.streamID, body); err != nil {
+			//The consumer refuses the stream: end the session.
+			l.mu.Lock()
+			delete(l.sessions, sess.peerAddr.String())
+			l.mu.Unlock()
+			return
+		}
 	}
 	l.maybeSendACK(sess)
 }
-- 
2.43.0


From 975c4dbfa64652b5535af8e3a522ed0f1a5bab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 004/106] fix: reassemble RTMP messages per chunk stream

---
 librtmp/chunk.go           |  6 ++++++
 librtmp/control_message.go |  2 +-
 librtmp/message.go         | 10 ++++++++--
 librtmp/rtmp.go            |  3 ++-
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index c5e66c1..b1d97c0 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -175,6 +175,12 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 		return nil, err
 	}
 
+	//Chunks of different chunk streams may interleave: a chunk continues
+	//the message that is incomplete on its own chunk stream.
+	if message == nil {
+		message = rtmp.partial[basicHeader.CsID]
+	}
+
 	messageHeader, err := parseChunkMessageHeader(rtmp, basicHeader, message == nil)
 	if err != nil {
 		return nil, err
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index a1dd3a2..25725ae 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -279,7 +279,7 @@ func (am *AbortMessage) Parse() (err error) {
 func (am *AbortMessage) Do() error {
 	//Drop any partial message on the indicated chunk stream so the next
 	//chunk on that CSID starts a fresh message.
-	delete(am.rtmp.lastChunk, am.ChunkStreamID)
+	delete(am.rtmp.partial, am.ChunkStreamID)
 	return nil
 }
 
diff --git a/librtmp/message.go b/librtmp/message.go
index f9d56a3..c8d4583 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -117,11 +117,12 @@ func ParseMessage(rtmp *RTMP) (err error) {
 
 	//read message payload from many chunks
 	for {
-		chunk, err = ParseChunk(rtmp, message)
+		chunk, err = ParseChunk(rtmp, nil)
 		if err != nil {
 			return err
 		}
 
+		message = rtmp.partial[chunk.CsID]
 		if message == nil {
 			mb := MessageBase{
 				rtmp:            rtmp,
@@ -130,7 +131,7 @@ func ParseMessage(rtmp *RTMP) (err error) {
 				messageType:     chunk.MessageType,
 				messageStreamID: chunk.MessageStreamID,
 				amf:             libamf.AMF0,
-				messagePayload:  make([]byte, 0, chunk.MessageLength),
+				messagePayload:  make([]byte, 0, len(chunk.Payload)),
 			}
 
 			switch chunk.MessageType {
@@ -185,8 +186,13 @@ func ParseMessage(rtmp *RTMP) (err error) {
 
 		message.Append(chunk)
 		if message.Done() {
+			delete(rtmp.partial, chunk.CsID)
 			break
 		}
+		if rtmp.partial == nil {
+			rtmp.partial = make(map[uint32]Message)
+		}
+		rtmp.partial[chunk.CsID] = message
 	}
 
 	//Track inbound bytes so we can send Window Acknowledgement messages
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index cc9ffc9..592311b 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -11,7 +11,8 @@ import (
 type RTMP struct {
 	readerConn       easyio.EasyReader
 	writerConn       easyio.EasyWriter
-	lastChunk        map[uint32]*Chunk //csid
+	lastChunk        map[uint32]*Chunk  //csid
+	partial          map[uint32]Message //csid, messages whose last chunk has not arrived yet
 	peerMaxChunkSize uint32
 	ownMaxChunkSize  int
 	peer             string
-- 
2.43.0


From eac712e2337542266bac945f3cbfe386d30ea91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 005/106] fix: reject malformed RTMP control and command
 messages without acting on them

---
 librtmp/command_message.go | 11 +++++++++--
 librtmp/control_message.go | 10 ++++++++++
 librtmp/message.go         |  7 +++++--
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index d814d54..5a74b7d 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -117,8 +117,15 @@ func (cm *CommandMessage) Parse() (err error) {
 		fmt.Println("index:", index, " a.type:", reflect.TypeOf(a), " a.Value:", reflect.ValueOf(a))
 	}
 
-	cm.CommandName = array[0].(string)
-	cm.TranscationID = int(array[1].(float64))
+	var ok bool
+	if cm.CommandName, ok = array[0].(string); !ok {
+		return errors.New("invalid command name")
+	}
+	transcationID, ok := array[1].(float64)
+	if !ok {
+		return errors.New("invalid transaction id")
+	}
+	cm.TranscationID = int(transcationID)
 	switch cm.CommandName {
 	case CONNECT:
 		_ = array[2]
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index 25725ae..4d01cdc 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -44,6 +44,9 @@ func (wasm *WindowAcknowledgeSizeMessage) Send() (err error) {
 }
 
 func (wasm *WindowAcknowledgeSizeMessage) Parse() (err error) {
+	if len(wasm.messagePayload) < 4 {
+		return fmt.Errorf("WindowAcknowledgementSize payload too short: %d", len(wasm.messagePayload))
+	}
 	wasm.AcknowledgementWindowSize = binary.BigEndian.Uint32(wasm.messagePayload)
 	fmt.Println("windowAcknowledgeSize:", wasm.AcknowledgementWindowSize)
 	return nil
@@ -232,7 +235,14 @@ func (scsm *SetChunkSizeMessage) Send() error {
 }
 
 func (scsm *SetChunkSizeMessage) Parse() (err error) {
+	if len(scsm.messagePayload) < 4 {
+		return fmt.Errorf("SetChunkSize payload too short: %d", len(scsm.messagePayload))
+	}
 	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload)
+	//RTMP 1.0 §5.4.1: the most significant bit is zero and the size at least 1.
+	if scsm.NewChunkSize == 0 || scsm.NewChunkSize > 0x7FFFFFFF {
+		return fmt.Errorf("invalid chunk size: %d", scsm.NewChunkSize)
+	}
 	fmt.Println("new chunk size of peer::", scsm.NewChunkSize)
 	return nil
 }
diff --git a/librtmp/message.go b/librtmp/message.go
index c8d4583..18ff29d 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/pkg/errors"
 )
 
@@ -207,7 +206,11 @@ func ParseMessage(rtmp *RTMP) (err error) {
 		}
 	}
 
-	return easyerrors.HandleMultiError(easyerrors.Simple(), message.Parse(), message.Do())
+	//A message that does not parse must not be acted upon.
+	if err = message.Parse(); err != nil {
+		return err
+	}
+	return message.Do()
 }
 
 // DiscardMessage consumes (and drops) a message whose type we don't
-- 
2.43.0


From 36bb7dbedd3835d61c8a425296bb748fae1014aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 006/106] fix: send 3-byte chunk stream ids in the order the
 chunk format defines

---
 librtmp/chunk.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index b1d97c0..ab9354c 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -230,7 +230,7 @@ func NewChunk(messageType MessageType, messageLength uint32, messageTime uint32,
 
 func (chunk *Chunk) Send(rtmp *RTMP) (err error) {
 	b := []byte{}
-	if chunk.CsID < 3 {
+	if chunk.CsID < 3 || chunk.CsID > 65599 {
 		return errors.New("invalid csid")
 	} else if chunk.CsID < 64 {
 		b = append(b, byte(uint8(chunk.Fmt<<6)|uint8(chunk.CsID&0x3f)))
@@ -239,8 +239,8 @@ func (chunk *Chunk) Send(rtmp *RTMP) (err error) {
 		b = append(b, uint8(chunk.CsID-64))
 	} else {
 		b = append(b, uint8(chunk.Fmt<<6)|uint8(0x01))
-		b = append(b, uint8(0), uint8(0))
-		binary.BigEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
+		//RTMP 1.0 §5.3.1.1: (third byte)*256 + (second byte) + 64.
+		b = append(b, uint8(chunk.CsID-64), uint8((chunk.CsID-64)>>8))
 	}
 
 	//For FMT0 we carry an absolute timestamp; for FMT1/FMT2 a delta.
-- 
2.43.0


From e8c3cd52f85472ed44ad647cd8f7873db9d7ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:26 +0000
Subject: [PATCH 007/106] fix: use the type 0 timestamp as delta of a following
 type 3 message

---
 librtmp/chunk.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index ab9354c..bfccba4 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -85,7 +85,9 @@ func parseChunkMessageHeader(rtmp *RTMP, basicHeader *ChunkBasicHeader, firstChu
 		}
 		rawTS = uint32(b11[0])<<16 | uint32(b11[1])<<8 | uint32(b11[2])
 		cmhp.MessageTimeStamp = rawTS
-		cmhp.MessageTimeDelta = 0
+		//RTMP 1.0 §5.3.1.2.4: the delta of a Type 3 chunk that starts a
+		//message right after a Type 0 chunk is that chunk's timestamp.
+		cmhp.MessageTimeDelta = rawTS
 		cmhp.MessageLength = uint32(b11[3])<<16 | uint32(b11[4])<<8 | uint32(b11[5])
 		cmhp.MessageType = MessageType(b11[6])
 		cmhp.MessageStreamID = binary.LittleEndian.Uint32(b11[7:])
@@ -139,6 +141,7 @@ func parseChunkMessageHeader(rtmp *RTMP, basicHeader *ChunkBasicHeader, firstChu
 		switch basicHeader.Fmt {
 		case FMT0:
 			cmhp.MessageTimeStamp = ext
+			cmhp.MessageTimeDelta = ext
 		case FMT1, FMT2:
 			cmhp.MessageTimeDelta = ext
 		case FMT3:
-- 
2.43.0


From 4107cd38104f19702ef445e06321d809fb4a9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 008/106] fix: hand out groups of pictures atomically, from the
 first frames, and until the stream ends

---
 libdash/dash.go            |   8 +-
 libhls/hls.go              |   8 +-
 librtmp/command_message.go |   5 +-
 librtmp/gop.go             | 152 +++++++++++++++++++++++++++++++++++++
 librtmp/room.go            |   9 +--
 librtmp/rtsp_server.go     |   3 +-
 librtmp/server.go          |   5 +-
 7 files changed, 173 insertions(+), 17 deletions(-)
 create mode 100644 librtmp/gop.go

diff --git a/libdash/dash.go b/libdash/dash.go
index 8e2a9c7..305c4c1 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -21,7 +21,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/libmp4"
 )
@@ -161,10 +160,15 @@ func (d *DASH) stopRequested() bool {
 	return atomic.LoadInt32(&d.stopped) != 0
 }
 
+// TagReader yields a stream's FLV tags in order, and alive=false at its end.
+type TagReader interface {
+	Read() (tag interface{}, alive bool)
+}
+
 // Start consumes FLV tags from gopReader, batches H.264 samples into
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
-func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
+func (d *DASH) Start(gopReader TagReader) error {
 	if err := os.MkdirAll(d.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
diff --git a/libhls/hls.go b/libhls/hls.go
index 74ec4ae..f383d35 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -10,7 +10,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libaac"
@@ -286,8 +285,13 @@ func (hls *HLS) stopRequested() bool {
 	return atomic.LoadInt32(&hls.stopped) != 0
 }
 
+// TagReader yields a stream's FLV tags in order, and alive=false at its end.
+type TagReader interface {
+	Read() (tag interface{}, alive bool)
+}
+
 //start to generate ts segments.
-func (hls *HLS) Start(gopReader *broadcast.BroadcastReader) (err error) {
+func (hls *HLS) Start(gopReader TagReader) (err error) {
 	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
 	}
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 5a74b7d..affda5d 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -7,7 +7,6 @@ import (
 	"reflect"
 	"sync/atomic"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libamf"
@@ -280,12 +279,12 @@ func (cm *CommandMessage) Do() (err error) {
 		if app.hlsMode == libhls.IMMEDIATELY {
 			hls := libhls.NewHls().WithStreamID(cm.PublishingName).WithDir(app.hlsDir)
 			app.hls.Store(cm.PublishingName, hls)
-			go hls.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
+			go hls.Start(NewGOPReader(cm.rtmp.room.GOP))
 		}
 		if app.dashEnabled {
 			dash := libdash.NewDASH().WithStreamID(cm.PublishingName).WithDir(app.dashDir)
 			app.StoreDASH(cm.PublishingName, dash)
-			go dash.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
+			go dash.Start(NewGOPReader(cm.rtmp.room.GOP))
 		}
 
 	case PLAY:
diff --git a/librtmp/gop.go b/librtmp/gop.go
new file mode 100644
index 0000000..500ced8
--- /dev/null
+++ b/librtmp/gop.go
@@ -0,0 +1,152 @@
+package librtmp
+
+import (
+	"sync"
+
+	"github.com/sbraveyoung/GGmpeg/libflv"
+)
+
+// GOP hands a publisher's tags to its viewers. Tags are kept per group of
+// pictures: every keyframe starts a new group, and the group before it stays
+// readable for viewers that have not finished it. A viewer joins at the start
+// of the current group and, when it falls more than a group behind, skips to
+// the current one. Metadata and sequence headers travel in line with the media;
+// a viewer that enters a group gets those in force at its start first.
+type GOP struct {
+	mu      sync.Mutex
+	cond    *sync.Cond
+	alive   bool
+	reset   bool         //the next video tag starts a new group
+	keyed   bool         //a keyframe has been written
+	headers []libflv.Tag //in force now, at most one per tag type
+	prev    *gopGroup
+	cur     *gopGroup
+}
+
+type gopGroup struct {
+	headers []libflv.Tag //in force when the group started
+	items   []gopItem
+}
+
+type gopItem struct {
+	tag    libflv.Tag
+	header bool
+}
+
+// maxUnkeyedItems bounds the group of a stream that has no keyframes at all.
+const maxUnkeyedItems = 512
+
+func newGOP() *GOP {
+	g := &GOP{alive: true, cur: &gopGroup{}}
+	g.cond = sync.NewCond(&g.mu)
+	return g
+}
+
+func (g *GOP) startGroup() {
+	g.prev, g.cur = g.cur, &gopGroup{headers: g.headers}
+}
+
+// WriteMeta makes tag the metadata / sequence header of its type in force.
+func (g *GOP) WriteMeta(tag libflv.Tag) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	if !g.alive {
+		return
+	}
+	headers := make([]libflv.Tag, 0, len(g.headers)+1)
+	for _, h := range g.headers {
+		if h.GetTagInfo().TagType != tag.GetTagInfo().TagType {
+			headers = append(headers, h)
+		}
+	}
+	g.headers = append(headers, tag)
+	g.cur.items = append(g.cur.items, gopItem{tag: tag, header: true})
+	g.cond.Broadcast()
+}
+
+// Reset announces that the next video tag written is a keyframe.
+func (g *GOP) Reset() {
+	g.mu.Lock()
+	g.reset = true
+	g.mu.Unlock()
+}
+
+func (g *GOP) Write(tag libflv.Tag) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	if !g.alive {
+		return
+	}
+	if tag.GetTagInfo().TagType == libflv.VIDEO_TAG {
+		if g.reset {
+			g.startGroup()
+			g.reset, g.keyed = false, true
+		} else if !g.keyed {
+			//Nothing can decode this one.
+			return
+		}
+	} else if !g.keyed && len(g.cur.items) >= maxUnkeyedItems {
+		g.startGroup()
+	}
+	g.cur.items = append(g.cur.items, gopItem{tag: tag})
+	g.cond.Broadcast()
+}
+
+// DisAlive ends the stream: readers get what is left and then alive=false.
+func (g *GOP) DisAlive() {
+	g.mu.Lock()
+	g.alive = false
+	g.mu.Unlock()
+	g.cond.Broadcast()
+}
+
+// GOPReader is one viewer's position in a GOP.
+type GOPReader struct {
+	gop     *GOP
+	group   *gopGroup
+	index   int
+	pending []libflv.Tag         //headers still to be delivered
+	seen    map[uint8]libflv.Tag //last header delivered, by tag type
+}
+
+func NewGOPReader(g *GOP) *GOPReader {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	return &GOPReader{gop: g, group: g.cur, pending: g.cur.headers, seen: make(map[uint8]libflv.Tag)}
+}
+
+// Read returns the next tag, waiting for it if need be, or alive=false when
+// the stream has ended.
+func (r *GOPReader) Read() (p interface{}, alive bool) {
+	g := r.gop
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	for {
+		if r.group != g.cur && (r.group != g.prev || (len(r.pending) == 0 && r.index >= len(r.group.items))) {
+			r.group, r.index, r.pending = g.cur, 0, g.cur.headers
+		}
+		for len(r.pending) > 0 {
+			h := r.pending[0]
+			r.pending = r.pending[1:]
+			if kind := h.GetTagInfo().TagType; r.seen[kind] != h {
+				r.seen[kind] = h
+				return h, true
+			}
+		}
+		if r.index < len(r.group.items) {
+			item := r.group.items[r.index]
+			r.index++
+			if item.header {
+				r.seen[item.tag.GetTagInfo().TagType] = item.tag
+			}
+			return item.tag, true
+		}
+		if r.group != g.cur {
+			continue
+		}
+		if !g.alive {
+			return nil, false
+		}
+		g.cond.Wait()
+	}
+}
diff --git a/librtmp/room.go b/librtmp/room.go
index 7300191..db810f3 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -5,7 +5,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 )
@@ -13,7 +12,7 @@ import (
 type Room struct {
 	RoomID    string
 	Publisher *RTMP
-	GOP       *broadcast.Broadcast
+	GOP       *GOP
 
 	// Cached sequence headers. Populated by the publisher the first
 	// time it emits them and replayed to every new subscriber before
@@ -32,7 +31,7 @@ func NewRoom(rtmp *RTMP, roomID string) *Room {
 	r := &Room{
 		RoomID:    roomID,
 		Publisher: rtmp,
-		GOP:       broadcast.NewBroadcast(3),
+		GOP:       newGOP(),
 	}
 	return r
 }
@@ -111,7 +110,7 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 		}
 
 		var err error
-		gopReader := broadcast.NewBroadcastReader(room.GOP)
+		gopReader := NewGOPReader(room.GOP)
 		for {
 			p, alive := gopReader.Read()
 			if !alive {
@@ -169,7 +168,7 @@ func (room *Room) FLVJoin(writer easyio.EasyWriter) {
 		}
 	}
 
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
+	gopReader := NewGOPReader(room.GOP)
 	for {
 		p, alive := gopReader.Read()
 		if !alive {
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 53edd91..1dab6cb 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -11,7 +11,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/librtsp"
 )
@@ -407,7 +406,7 @@ func (s *rtspSession) streamLoop(room *Room) {
 		s.sendVideoSeqHeader(videoHdr)
 	}
 
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
+	gopReader := NewGOPReader(room.GOP)
 	for atomic.LoadInt32(&s.playing) == 1 {
 		p, alive := gopReader.Read()
 		if !alive {
diff --git a/librtmp/server.go b/librtmp/server.go
index 0189165..e859264 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -13,7 +13,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -363,7 +362,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
 				hls = libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
 				app.StoreHLS(roomID, hls)
-				go hls.Start(broadcast.NewBroadcastReader(room.GOP))
+				go hls.Start(NewGOPReader(room.GOP))
 				hls.WaitFirstSegment()
 			} else {
 				w.WriteHeader(http.StatusNotFound)
@@ -381,7 +380,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			if dash == nil && app.dashEnabled {
 				dash = libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
 				app.StoreDASH(roomID, dash)
-				go dash.Start(broadcast.NewBroadcastReader(room.GOP))
+				go dash.Start(NewGOPReader(room.GOP))
 				dash.WaitFirstSegment()
 			}
 			if dash == nil {
-- 
2.43.0


From 0d17cc000ec0c06481375af1873079ddd5403602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 009/106] fix: claim a stream name atomically and keep a
 publisher's own stream when it plays or publishes again

---
 librtmp/app.go             |  6 ++++++
 librtmp/client.go          |  6 +++---
 librtmp/command_message.go | 21 +++++++++++++--------
 librtmp/rtsp_ingest.go     |  6 +++++-
 librtmp/srt_server.go      |  9 ++++-----
 5 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/librtmp/app.go b/librtmp/app.go
index b336523..d2246dc 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -42,6 +42,12 @@ func (app *App) Store(roomID string, room *Room) {
 	app.rooms.Store(roomID, room)
 }
 
+// Claim registers room unless its stream name is already taken.
+func (app *App) Claim(roomID string, room *Room) bool {
+	_, taken := app.rooms.LoadOrStore(roomID, room)
+	return !taken
+}
+
 func (app *App) Delete(roomID string) {
 	if h, ok := app.hls.LoadAndDelete(roomID); ok {
 		if hls, ok := h.(*libhls.HLS); ok {
diff --git a/librtmp/client.go b/librtmp/client.go
index 8f0f29b..82a040d 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -59,13 +59,13 @@ func (pc *PullClient) Run() error {
 		_ = conn.Close()
 		return fmt.Errorf("local app %q not configured", pc.spec.app)
 	}
-	if existing := app.Load(pc.spec.streamID); existing != nil {
+	room := NewRoom(rtmp, pc.spec.streamID)
+	if !app.Claim(pc.spec.streamID, room) {
 		_ = conn.Close()
 		return fmt.Errorf("local stream %q already publishing", pc.spec.streamID)
 	}
 	rtmp.app = pc.spec.app
-	rtmp.room = NewRoom(rtmp, pc.spec.streamID)
-	app.Store(pc.spec.streamID, rtmp.room)
+	rtmp.room = room
 	//We act as publisher into the local broadcast — when the upstream
 	//disconnects, cleanup() should tear the local room down so HLS /
 	//FLV viewers exit cleanly.
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index affda5d..1486773 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -245,9 +245,11 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		if existing := app.Load(cm.PublishingName); existing != nil {
+		room := NewRoom(cm.rtmp, cm.PublishingName)
+		if cm.rtmp.role == rolePublisher || !app.Claim(cm.PublishingName, room) {
 			//Refuse a second publish to the same stream — replacing the
-			//publisher mid-stream would desync every viewer.
+			//publisher mid-stream would desync every viewer. A session
+			//that publishes already cannot own a second stream either.
 			return (&CommandMessageResponse{
 				MessageBase:     cm.MessageBase,
 				CommandName:     cm.CommandName,
@@ -260,9 +262,8 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.room = NewRoom(cm.rtmp, cm.PublishingName)
+		cm.rtmp.room = room
 		cm.rtmp.role = rolePublisher
-		app.Store(cm.PublishingName, cm.rtmp.room)
 
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
@@ -292,8 +293,8 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		cm.rtmp.room = app.Load(cm.PublishingName)
-		if cm.rtmp.room == nil {
+		room := app.Load(cm.PublishingName)
+		if room == nil {
 			return (&CommandMessageResponse{
 				MessageBase:     cm.MessageBase,
 				CommandName:     cm.CommandName,
@@ -306,8 +307,12 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.role = rolePlayer
-		cm.rtmp.room.RTMPJoin(cm.rtmp)
+		if cm.rtmp.role != rolePublisher {
+			//a publisher keeps owning its stream while it plays one
+			cm.rtmp.role = rolePlayer
+			cm.rtmp.room = room
+		}
+		room.RTMPJoin(cm.rtmp)
 
 		err1 = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 0869d36..4ce96d3 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -64,7 +64,11 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		app:    app,
 	}
 	rtmp.room = NewRoom(rtmp, room)
-	a.Store(room, rtmp.room)
+	if !a.Claim(room, rtmp.room) {
+		resp.StatusCode = 461
+		resp.Reason = "Stream Already Publishing"
+		return resp
+	}
 
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 9f2c329..3768953 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -75,10 +75,6 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			br.mu.Unlock()
 			return fmt.Errorf("srt: app %q missing", br.spec.app)
 		}
-		if app.Load(br.spec.streamID) != nil {
-			br.mu.Unlock()
-			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
-		}
 		//Pseudo-publisher RTMP struct so cleanup paths match.
 		ps := &RTMP{
 			peer:   "srt://" + br.spec.address,
@@ -87,8 +83,11 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			app:    br.spec.app,
 		}
 		ps.room = NewRoom(ps, br.spec.streamID)
+		if !app.Claim(br.spec.streamID, ps.room) {
+			br.mu.Unlock()
+			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
+		}
 		br.room = ps.room
-		app.Store(br.spec.streamID, br.room)
 	}
 	br.mu.Unlock()
 	br.demux.Feed(payload)
-- 
2.43.0


From b4c1eae6d35db69284381c627629be6ba003bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 010/106] fix: take media only from the session that publishes
 the stream

---
 librtmp/audio.go        | 2 +-
 librtmp/data_message.go | 2 +-
 librtmp/video.go        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/librtmp/audio.go b/librtmp/audio.go
index 86957fc..52b6de5 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -81,7 +81,7 @@ func (am *AudioMessage) Parse() (err error) {
 }
 
 func (am *AudioMessage) Do() (err error) {
-	if am.rtmp.room == nil {
+	if am.rtmp.room == nil || am.rtmp.role != rolePublisher {
 		return nil
 	}
 	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index 9cb28d8..ccefa7a 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -64,7 +64,7 @@ func (dm *DataMessage) Parse() (err error) {
 }
 
 func (dm *DataMessage) Do() (err error) {
-	if dm.rtmp.room == nil {
+	if dm.rtmp.room == nil || dm.rtmp.role != rolePublisher {
 		return nil
 	}
 	dm.rtmp.room.setMeta(dm.metaTag)
diff --git a/librtmp/video.go b/librtmp/video.go
index 5ec3ad6..7d2b848 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -82,7 +82,7 @@ func (vm *VideoMessage) Parse() (err error) {
 }
 
 func (vm *VideoMessage) Do() (err error) {
-	if vm.rtmp.room == nil {
+	if vm.rtmp.room == nil || vm.rtmp.role != rolePublisher {
 		return nil
 	}
 	if vm.videoTag.FrameType == libflv.KEY_FRAME {
-- 
2.43.0


From 48c0a3cfaa779e303110ff19f84c40420180cbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 011/106] fix: refuse a second connect, which would re-home the
 session's streams

---
 librtmp/command_message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 1486773..1599d15 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -180,6 +180,10 @@ func (cm *CommandMessage) Do() (err error) {
 		if _, ok := cm.rtmp.server.apps[cm.CommandObject.App]; !ok {
 			return errors.Errorf("unknown app: %s", cm.CommandObject.App)
 		}
+		if cm.rtmp.app != "" {
+			//Streams are registered under the app of the first connect.
+			return errors.New("already connected")
+		}
 		cm.rtmp.app = cm.CommandObject.App
 		err1 = NewWindowAcknowledgeSizeMessage(cm.MessageBase, uint32(2500000)).Send()
 		cm.rtmp.ownWindowAckSize = 2500000
-- 
2.43.0


From 26b9aefe0c3021f5013647424b01f394555ade20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 012/106] fix: end the stream on FCUnpublish, deleteStream and
 closeStream

---
 librtmp/command_message.go | 9 ++++++---
 librtmp/rtmp.go            | 9 +++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 1599d15..c45367e 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -232,6 +232,9 @@ func (cm *CommandMessage) Do() (err error) {
 				Description: "Stop publishing",
 			},
 		}).Send()
+		if cm.rtmp.room != nil && (cm.PublishingName == "" || cm.PublishingName == cm.rtmp.room.RoomID) {
+			cm.rtmp.unpublish()
+		}
 
 	case CALL:
 	case CLOSE:
@@ -409,9 +412,8 @@ func (cm *CommandMessage) Do() (err error) {
 
 	case DELETE_STREAM, CLOSE_STREAM:
 		//Stream close emitted by OBS when the user stops streaming.
-		//We rely on cleanup() in HandlerServer for the actual teardown;
-		//here we just reply with a status update so the client can
-		//proceed to disconnect.
+		//Reply with a status update and give the stream name back: the
+		//client may keep the connection and publish again.
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
 			CommandName:     cm.CommandName,
@@ -423,6 +425,7 @@ func (cm *CommandMessage) Do() (err error) {
 				Description: "Stream closed",
 			},
 		}).Send()
+		cm.rtmp.unpublish()
 
 	case _RESULT:
 		//Outbound-client path: bump the response counter so the
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 592311b..6637801 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -109,6 +109,15 @@ func (rtmp *RTMP) cleanup() {
 	rtmp.room = nil
 }
 
+// unpublish ends the stream this session publishes, if any; the session
+// itself goes on.
+func (rtmp *RTMP) unpublish() {
+	if rtmp.role == rolePublisher {
+		rtmp.cleanup()
+		rtmp.role = roleUnknown
+	}
+}
+
 // HandlerClient connects outbound: handshakes as client, sends
 // connect → createStream → play, then loops on ParseMessage. Inbound
 // audio/video/data tags are absorbed into the configured Room (set up
-- 
2.43.0


From 0e439835203a19e731ef6d2339a2abe81456926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 013/106] fix: close the RTMP connection when its session ends

---
 librtmp/rtmp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 6637801..5ec8544 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -9,6 +9,7 @@ import (
 )
 
 type RTMP struct {
+	conn             net.Conn
 	readerConn       easyio.EasyReader
 	writerConn       easyio.EasyWriter
 	lastChunk        map[uint32]*Chunk  //csid
@@ -54,6 +55,7 @@ const (
 
 func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
 	return &RTMP{
+		conn:             conn,
 		readerConn:       easyio.NewEasyReader(conn),
 		writerConn:       easyio.NewEasyWriter(conn),
 		lastChunk:        make(map[uint32]*Chunk),
@@ -66,6 +68,7 @@ func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
 }
 
 func (rtmp *RTMP) HandlerServer() {
+	defer rtmp.conn.Close()
 	defer rtmp.cleanup()
 
 	err := HandshakeServer(rtmp)
@@ -124,6 +127,7 @@ func (rtmp *RTMP) unpublish() {
 // before this is called) so downstream protocols (HTTP-FLV, HLS,
 // DASH, RTSP) re-stream them just like a local publish.
 func (rtmp *RTMP) HandlerClient() {
+	defer rtmp.conn.Close()
 	defer rtmp.cleanup()
 
 	if err := HandshakeClient(rtmp); err != nil {
-- 
2.43.0


From 346608a23174daef97e59a7d4438bd60c94ac924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 014/106] fix: keep the chunks of one RTMP message together
 when several goroutines send

---
 librtmp/audio.go           | 2 ++
 librtmp/client.go          | 2 ++
 librtmp/command_message.go | 2 ++
 librtmp/data_message.go    | 2 ++
 librtmp/rtmp.go            | 2 ++
 librtmp/video.go           | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/librtmp/audio.go b/librtmp/audio.go
index 52b6de5..b87afe1 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -46,6 +46,8 @@ func NewAudioMessage(mb MessageBase, fields ...interface{}) (am *AudioMessage) {
 }
 
 func (am *AudioMessage) Send() (err error) {
+	am.rtmp.sendMu.Lock()
+	defer am.rtmp.sendMu.Unlock()
 	chunkSize := am.rtmp.ownMaxChunkSize
 	for i := 0; ; i++ {
 		lIndex := i * chunkSize
diff --git a/librtmp/client.go b/librtmp/client.go
index 82a040d..13c172f 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -154,6 +154,8 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 	if err != nil {
 		return err
 	}
+	rtmp.sendMu.Lock()
+	defer rtmp.sendMu.Unlock()
 	chunkSize := rtmp.ownMaxChunkSize
 	for i := 0; ; i++ {
 		l := i * chunkSize
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index c45367e..3228f2f 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -497,6 +497,8 @@ func (cmr *CommandMessageResponse) Send() (err error) {
 	if err != nil {
 		return err
 	}
+	cmr.rtmp.sendMu.Lock()
+	defer cmr.rtmp.sendMu.Unlock()
 	chunkSize := cmr.rtmp.ownMaxChunkSize
 	for i := 0; ; i++ {
 		lIndex := i * chunkSize
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index ccefa7a..73b4e57 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -28,6 +28,8 @@ func NewDataMessage(mb MessageBase, fields ...interface{}) (dm *DataMessage) {
 }
 
 func (dm *DataMessage) Send() (err error) {
+	dm.rtmp.sendMu.Lock()
+	defer dm.rtmp.sendMu.Unlock()
 	chunkSize := dm.rtmp.ownMaxChunkSize
 	for i := 0; ; i++ {
 		lIndex := i * chunkSize
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 5ec8544..5062d87 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -4,12 +4,14 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
 
 	"github.com/SmartBrave/Athena/easyio"
 )
 
 type RTMP struct {
 	conn             net.Conn
+	sendMu           sync.Mutex //held while the chunks of one message are sent
 	readerConn       easyio.EasyReader
 	writerConn       easyio.EasyWriter
 	lastChunk        map[uint32]*Chunk  //csid
diff --git a/librtmp/video.go b/librtmp/video.go
index 7d2b848..4fc7072 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -47,6 +47,8 @@ func NewVideoMessage(mb MessageBase, fields ...interface{}) (vm *VideoMessage) {
 }
 
 func (vm *VideoMessage) Send() (err error) {
+	vm.rtmp.sendMu.Lock()
+	defer vm.rtmp.sendMu.Unlock()
 	chunkSize := vm.rtmp.ownMaxChunkSize
 	for i := 0; ; i++ {
 		lIndex := i * chunkSize
-- 
2.43.0


From 69d109aa0243e941d5c6b1e7dae07917d0faf4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 015/106] fix: read AMF0 objects and ECMA arrays up to and
 including their end marker

---
 libamf/amf0.go | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index d58787c..92d9f66 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -171,7 +171,7 @@ func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err erro
 		if err != nil {
 			return res, err
 		}
-		if p.key == "" {
+		if p.end {
 			break
 		}
 		res[p.key] = p.value
@@ -192,6 +192,7 @@ func decodeTypedObjectamf0(r easyio.EasyReader) (className string, res map[strin
 type pair struct {
 	key   string
 	value interface{}
+	end   bool //no pair but the end of the object
 }
 
 func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
@@ -200,14 +201,13 @@ func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
 	if err != nil {
 		return p, err
 	}
-	if p.key == "" {
-		return p, nil
-	}
-
-	_, p.value, err = decodeamf0(r)
+	//an object ends with an empty key and the object end marker
+	var marker Marker
+	marker, p.value, err = decodeamf0(r)
 	if err != nil {
 		return p, err
 	}
+	p.end = p.key == "" && marker == ObjectEndMarker
 	return p, nil
 }
 
@@ -223,20 +223,8 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 		return res, err
 	}
 
-	res = make(map[string]interface{})
-	var i uint32
-	var p *pair
-	for i = 0; i <= length; i++ { //length: 00 00 09
-		p, err = readPairamf0(r)
-		if err != nil {
-			return res, err
-		}
-		if p.key == "" {
-			break
-		}
-		res[p.key] = p.value
-	}
-	return res, nil
+	//The count is only a hint (AMF0 §2.10), the array ends like an object.
+	return decodeObjectamf0(r)
 }
 
 func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
-- 
2.43.0


From 648dceaec968b98e9a3a35fae542c3e1f1915781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 016/106] fix: report truncated AMF0 values and do not allocate
 by an unchecked length

---
 libamf/amf0.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index 92d9f66..1cfd7d6 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -116,6 +116,10 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	default:
 		return InvalidMarker, i, errors.New("invalid amf0 marker")
 	}
+	if err == io.EOF {
+		//only the end of input in front of a value is a clean one
+		err = io.ErrUnexpectedEOF
+	}
 	// fmt.Printf("marker:%x, value:%+v\n", marker, i)
 	return marker, i, err
 }
@@ -156,10 +160,14 @@ func decodeLongStringamf0(r easyio.EasyReader) (str string, err error) {
 
 //TODO: utf-8 support
 func readByteamf0(r easyio.EasyReader, length uint32) (b []byte, err error) {
-	b, err = r.ReadN(uint32(length))
+	//the length is not to be trusted with an allocation
+	b, err = io.ReadAll(io.LimitReader(r, int64(length)))
 	if err != nil {
 		return nil, err
 	}
+	if uint32(len(b)) != length {
+		return nil, io.ErrUnexpectedEOF
+	}
 	return b, nil
 }
 
-- 
2.43.0


From 36d7ee5fe6b68a48b83791dc39f4dd85b5b0448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 017/106] fix: bound the nesting of AMF0 values read from a
 peer

---
 libamf/amf0.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index 1cfd7d6..3c6f595 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -44,7 +44,7 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	var i interface{}
 	var marker Marker
 	for {
-		marker, i, err = decodeamf0(r)
+		marker, i, err = decodeamf0(r, 0)
 		if err == io.EOF {
 			break
 		}
@@ -70,7 +70,13 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	return res, nil
 }
 
-func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
+// maxDepth bounds the nesting of complex values, which a peer chooses.
+const maxDepth = 128
+
+func decodeamf0(r easyio.EasyReader, depth int) (marker Marker, i interface{}, err error) {
+	if depth > maxDepth {
+		return InvalidMarker, nil, errors.New("amf0 value nested too deeply")
+	}
 	var b []byte
 	b, err = r.ReadN(1)
 	if err != nil {
@@ -86,7 +92,7 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case StringMarker:
 		i, err = decodeStringamf0(r)
 	case ObjectMarker: //complex types
-		i, err = decodeObjectamf0(r)
+		i, err = decodeObjectamf0(r, depth)
 	case MovieclipMarker: //not supported, do nothing
 	case NULLMarker:
 		i, err = nil, nil
@@ -94,10 +100,10 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case ReferenceMarker:
 		i, err = decodeReferenceamf0(r)
 	case EcmaArrayMarker: //complex types
-		i, err = decodeEcmaArrayamf0(r)
+		i, err = decodeEcmaArrayamf0(r, depth)
 	case ObjectEndMarker: //no futher information is encoded, do nothing
 	case StrictArrayMarker:
-		i, err = decodeStrictArrayamf0(r)
+		i, err = decodeStrictArrayamf0(r, depth)
 	case DateMarker:
 		i, err = decodeDateamf0(r)
 	case LongStringMarker:
@@ -109,7 +115,7 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case TypedObjectMarker: //complex types
 		//XXX: get className, then?
 		var className string
-		className, i, err = decodeTypedObjectamf0(r)
+		className, i, err = decodeTypedObjectamf0(r, depth)
 		i = map[string]interface{}{
 			className: i,
 		}
@@ -171,11 +177,11 @@ func readByteamf0(r easyio.EasyReader, length uint32) (b []byte, err error) {
 	return b, nil
 }
 
-func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeObjectamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
 	var p *pair
 	res = make(map[string]interface{})
 	for {
-		p, err = readPairamf0(r)
+		p, err = readPairamf0(r, depth)
 		if err != nil {
 			return res, err
 		}
@@ -187,13 +193,13 @@ func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err erro
 	return res, nil
 }
 
-func decodeTypedObjectamf0(r easyio.EasyReader) (className string, res map[string]interface{}, err error) {
+func decodeTypedObjectamf0(r easyio.EasyReader, depth int) (className string, res map[string]interface{}, err error) {
 	className, err = decodeStringamf0(r)
 	if err != nil {
 		return className, res, err
 	}
 
-	res, err = decodeObjectamf0(r)
+	res, err = decodeObjectamf0(r, depth)
 	return className, res, err
 }
 
@@ -203,7 +209,7 @@ type pair struct {
 	end   bool //no pair but the end of the object
 }
 
-func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
+func readPairamf0(r easyio.EasyReader, depth int) (p *pair, err error) {
 	p = &pair{}
 	p.key, err = decodeStringamf0(r)
 	if err != nil {
@@ -211,7 +217,7 @@ func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
 	}
 	//an object ends with an empty key and the object end marker
 	var marker Marker
-	marker, p.value, err = decodeamf0(r)
+	marker, p.value, err = decodeamf0(r, depth+1)
 	if err != nil {
 		return p, err
 	}
@@ -224,7 +230,7 @@ func decodeReferenceamf0(r easyio.EasyReader) (index uint16, err error) {
 	return index, err
 }
 
-func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeEcmaArrayamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
@@ -232,10 +238,10 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	}
 
 	//The count is only a hint (AMF0 §2.10), the array ends like an object.
-	return decodeObjectamf0(r)
+	return decodeObjectamf0(r, depth)
 }
 
-func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
+func decodeStrictArrayamf0(r easyio.EasyReader, depth int) (res []interface{}, err error) {
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
@@ -245,7 +251,7 @@ func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
 	var i uint32
 	var item interface{}
 	for i = 0; i < length; i++ {
-		_, item, err = decodeamf0(r)
+		_, item, err = decodeamf0(r, depth+1)
 		if err != nil {
 			return res, err
 		}
-- 
2.43.0


From 27faaa221cf7397b62f343941be7c03310ab8a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 018/106] fix: refuse AMF0 object keys that do not fit their
 length field

---
 libamf/amf0.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index 3c6f595..83a18ca 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -406,6 +406,9 @@ func encodeObjectamf0(w easyio.EasyWriter, obj reflect.Value, encodeMarker bool)
 		if key.Kind() != reflect.String {
 			return errors.New("invalid type")
 		}
+		if len(key.String()) > 0xffff {
+			return errors.New("object key too long")
+		}
 		err = encodeamf0(w, key.String(), false)
 		if err != nil {
 			return err
-- 
2.43.0


From 94afd2409835c00897da6bfc24d9b8c62ef89b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 019/106] fix: pass stream metadata on as published whatever
 types its properties have

---
 libflv/meta.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libflv/meta.go b/libflv/meta.go
index f8c299f..b611171 100644
--- a/libflv/meta.go
+++ b/libflv/meta.go
@@ -39,8 +39,14 @@ type MetaTag struct {
 	VideoCodecID    float64 `mapstructure:"videocodecid" structs:"videocodecid"`
 	VideoDataRate   float64 `mapstructure:"videodatarate" structs:"videodatarate"`
 	Width           int     `mapstructure:"width" structs:"width"`
+
+	//The message as published, less a leading "@setDataFrame".
+	raw []byte
 }
 
+// setDataFrame is the AMF0 string "@setDataFrame".
+var setDataFrame = []byte("\x02\x00\x0d@setDataFrame")
+
 func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err error) {
 	var array []interface{}
 	array, err = amf.Decode(easyio.NewEasyReader(bytes.NewReader(b)))
@@ -48,7 +54,7 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 		return nil, err
 	}
 
-	meta = &MetaTag{TagBase: tb}
+	meta = &MetaTag{TagBase: tb, raw: bytes.TrimPrefix(b, setDataFrame)}
 	//Publishers emit data messages in two shapes:
 	//  - [string "onMetaData", ecma-array]
 	//  - [string "@setDataFrame", string "onMetaData", ecma-array]
@@ -74,12 +80,13 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 	}
 
 	if props != nil {
-		if err = mapstructure.Decode(props, meta); err != nil {
+		//Publishers differ in the types they use for some properties;
+		//those that do not fit a field are only passed on.
+		if err := mapstructure.Decode(props, meta); err != nil {
 			fmt.Printf("decode data error, err:%+v\n", err)
-			err = errors.Wrap(err, "mapstructure.Decode data")
 		}
 	}
-	return meta, err
+	return meta, nil
 }
 
 // Marshal serialises the metadata tag body in the form FLV players
@@ -88,6 +95,9 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 // verb, not part of the FLV script-data tag format, so we drop
 // FirstField even when Parse observed one.)
 func (mt *MetaTag) Marshal() (b []byte) {
+	if mt.raw != nil {
+		return append([]byte(nil), mt.raw...)
+	}
 	buf := bytes.NewBuffer([]byte{})
 	writer := easyio.NewEasyWriter(buf)
 	amf := libamf.AMF0
-- 
2.43.0


From 2f804e5337d464751d8425e037a3e690dbd8ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 020/106] fix: let only onMetaData replace the stream's
 metadata

---
 librtmp/data_message.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index 73b4e57..781421a 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -69,6 +69,11 @@ func (dm *DataMessage) Do() (err error) {
 	if dm.rtmp.room == nil || dm.rtmp.role != rolePublisher {
 		return nil
 	}
+	if dm.metaTag.SecondField != "onMetaData" {
+		//a timed data message, not the description of the stream
+		dm.rtmp.room.GOP.Write(dm.metaTag)
+		return nil
+	}
 	dm.rtmp.room.setMeta(dm.metaTag)
 	dm.rtmp.room.GOP.WriteMeta(dm.metaTag)
 	fmt.Printf("write packet data :%+v\n", dm.metaTag)
-- 
2.43.0


From 1a1be5bd118b4e409f778d338ebe7da5b0a9f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 021/106] fix: do not start a group of pictures at an
 end-of-sequence tag

---
 librtmp/video.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librtmp/video.go b/librtmp/video.go
index 4fc7072..fb3edfb 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -92,7 +92,10 @@ func (vm *VideoMessage) Do() (err error) {
 			vm.rtmp.room.setVideoSequenceHeader(vm.videoTag)
 			vm.rtmp.room.GOP.WriteMeta(vm.videoTag)
 		} else {
-			vm.rtmp.room.GOP.Reset()
+			if vm.videoTag.AVCPacketType == libflv.AVC_NALU {
+				//an end of sequence is marked as keyframe but is none
+				vm.rtmp.room.GOP.Reset()
+			}
 			vm.rtmp.room.GOP.Write(vm.videoTag)
 		}
 		fmt.Printf("write packet video :%+v\n", vm.videoTag)
-- 
2.43.0


From 43999b1614104d3a09ef7f46a1abe4b663b23831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 022/106] fix: write WebSocket frames in one piece and bound
 client frames

---
 librtmp/websocket.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 7506a9b..7b161e3 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -36,6 +36,10 @@ const (
 	wsOpPong         wsOpcode = 0xA
 )
 
+// wsMaxClientFrame bounds what a client may send in one frame: viewers only
+// send control frames and the odd short message.
+const wsMaxClientFrame = 1 << 20
+
 // wsConn is a thin server-side WebSocket connection. The caller owns
 // the underlying net.Conn lifetime.
 type wsConn struct {
@@ -109,13 +113,9 @@ func (ws *wsConn) writeFrame(op wsOpcode, payload []byte) error {
 		header = append(header, ln[:]...)
 	}
 
-	if _, err := ws.conn.Write(header); err != nil {
-		return err
-	}
-	if len(payload) == 0 {
-		return nil
-	}
-	_, err := ws.conn.Write(payload)
+	//One write per frame: the viewer's writer and the ping responder
+	//share the connection.
+	_, err := ws.conn.Write(append(header, payload...))
 	return err
 }
 
@@ -155,6 +155,9 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 		}
 	}
 
+	if plen > wsMaxClientFrame {
+		return 0, nil, errors.New("frame too large")
+	}
 	payload := make([]byte, plen)
 	if _, err := io.ReadFull(ws.br, payload); err != nil {
 		return 0, nil, err
-- 
2.43.0


From d5482f2ca8fc557fdc625f30772f0be239451bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 023/106] fix: release an RTSP session's stream and UDP sockets
 however it ends

---
 librtmp/rtsp_ingest.go | 25 +++++--------------------
 librtmp/rtsp_server.go | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 4ce96d3..ad1c3c0 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -19,6 +19,7 @@ type rtspIngest struct {
 	videoCh int //RTSP interleave channel (RTP), -1 if not negotiated
 	audioCh int
 	videoRA *librtsp.H264Reassembler
+	room    *Room
 	//Audio re-assembly is per-packet (every packet is one+ frame), so
 	//no per-publisher state is needed — we just decode each RTP
 	//payload via librtsp.AACAUExtract.
@@ -76,6 +77,7 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		videoCh: -1,
 		audioCh: -1,
 		videoRA: &librtsp.H264Reassembler{},
+		room:    rtmp.room,
 	}
 	s.publishRTMP = rtmp
 
@@ -148,23 +150,6 @@ func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response)
 // concurrently handles GET_PARAMETER / TEARDOWN / etc.
 func (s *rtspSession) runIngestLoop() {
 	defer atomic.StoreInt32(&s.recording, 0)
-	defer func() {
-		if s.publishRTMP != nil {
-			s.publishRTMP.cleanup()
-		}
-		if s.videoUDP != nil {
-			_ = s.videoUDP.Close()
-		}
-		if s.audioUDP != nil {
-			_ = s.audioUDP.Close()
-		}
-		if s.videoUDPRTCP != nil {
-			_ = s.videoUDPRTCP.Close()
-		}
-		if s.audioUDPRTCP != nil {
-			_ = s.audioUDPRTCP.Close()
-		}
-	}()
 
 	//Spawn a UDP reader per track that was set up in UDP mode.
 	if s.videoUDP != nil {
@@ -270,9 +255,9 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	}
 	vt.DataSize = uint32(len(vt.Data()))
 	if frameType == libflv.KEY_FRAME {
-		s.publishRTMP.room.GOP.Reset()
+		s.ingest.room.GOP.Reset()
 	}
-	s.publishRTMP.room.GOP.Write(vt)
+	s.ingest.room.GOP.Write(vt)
 }
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
@@ -297,7 +282,7 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 			SoundData:     frame,
 		}
 		at.DataSize = uint32(len(at.Data()))
-		s.publishRTMP.room.GOP.Write(at)
+		s.ingest.room.GOP.Write(at)
 	}
 }
 
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 1dab6cb..46477f1 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -83,6 +83,7 @@ func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
 // or PLAY's goroutine reports a write failure.
 func (s *rtspSession) run() {
 	defer s.conn.Close()
+	defer s.release()
 	for {
 		req, err := librtsp.ReadRequest(s.br)
 		if err != nil {
@@ -104,6 +105,20 @@ func (s *rtspSession) run() {
 	}
 }
 
+// release gives back everything the session holds, however it ended: the
+// stream it published, its UDP sockets and its PLAY goroutine.
+func (s *rtspSession) release() {
+	atomic.StoreInt32(&s.playing, 0)
+	if s.publishRTMP != nil {
+		s.publishRTMP.cleanup()
+	}
+	for _, c := range []*net.UDPConn{s.videoUDP, s.audioUDP, s.videoUDPRTCP, s.audioUDPRTCP} {
+		if c != nil {
+			_ = c.Close()
+		}
+	}
+}
+
 // dispatch routes a request to the per-method handler. Each handler
 // returns a fully-formed response or nil to terminate the session.
 func (s *rtspSession) dispatch(req *librtsp.Request) *librtsp.Response {
-- 
2.43.0


From 954b96738c6e75aa5669b8bc46923b27cbe97330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 024/106] fix: take interleaved RTSP frames whole and skip
 those of players

---
 librtmp/rtsp_ingest.go | 21 +++------------------
 librtmp/rtsp_server.go | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index ad1c3c0..ca83ff3 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -1,7 +1,6 @@
 package librtmp
 
 import (
-	"encoding/binary"
 	"fmt"
 	"net"
 	"strings"
@@ -163,15 +162,8 @@ func (s *rtspSession) runIngestLoop() {
 	//interleaved with media. Detect "$" framing vs the start of an
 	//RTSP keyword by peek-and-dispatch.
 	for {
-		first, err := s.br.ReadByte()
-		if err != nil {
-			return
-		}
-		if first != '$' {
-			//Push the byte back and parse as an RTSP request.
-			if err := s.br.UnreadByte(); err != nil {
-				return
-			}
+		ch, body, err := s.readInterleaved()
+		if err == errNotInterleaved {
 			req, err := librtsp.ReadRequest(s.br)
 			if err != nil {
 				return
@@ -185,14 +177,7 @@ func (s *rtspSession) runIngestLoop() {
 			}
 			continue
 		}
-		hdr := make([]byte, 3)
-		if _, err := s.br.Read(hdr); err != nil {
-			return
-		}
-		ch := hdr[0]
-		ln := int(binary.BigEndian.Uint16(hdr[1:3]))
-		body := make([]byte, ln)
-		if _, err := s.br.Read(body); err != nil {
+		if err != nil {
 			return
 		}
 		s.handleInterleaved(ch, body)
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 46477f1..a4aed19 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -2,6 +2,8 @@ package librtmp
 
 import (
 	"bufio"
+	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"net"
@@ -85,6 +87,15 @@ func (s *rtspSession) run() {
 	defer s.conn.Close()
 	defer s.release()
 	for {
+		//Players send RTCP reports as interleaved frames; we have no
+		//use for them.
+		if _, _, err := s.readInterleaved(); err == errNotInterleaved {
+			//a request
+		} else if err == nil {
+			continue
+		} else {
+			return
+		}
 		req, err := librtsp.ReadRequest(s.br)
 		if err != nil {
 			if err != io.EOF {
@@ -105,6 +116,27 @@ func (s *rtspSession) run() {
 	}
 }
 
+// errNotInterleaved says that the next thing on the connection is a request.
+var errNotInterleaved = errors.New("rtsp: not an interleaved frame")
+
+// readInterleaved takes one "$"-framed packet off the connection.
+func (s *rtspSession) readInterleaved() (channel uint8, payload []byte, err error) {
+	first, err := s.br.Peek(1)
+	if err != nil {
+		return 0, nil, err
+	}
+	if first[0] != '$' {
+		return 0, nil, errNotInterleaved
+	}
+	hdr := make([]byte, 4)
+	if _, err = io.ReadFull(s.br, hdr); err != nil {
+		return 0, nil, err
+	}
+	payload = make([]byte, binary.BigEndian.Uint16(hdr[2:]))
+	_, err = io.ReadFull(s.br, payload)
+	return hdr[1], payload, err
+}
+
 // release gives back everything the session holds, however it ended: the
 // stream it published, its UDP sockets and its PLAY goroutine.
 func (s *rtspSession) release() {
-- 
2.43.0


From 229fff081a405ab7920a50892c00ca093830719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 025/106] fix: reject RTSP requests with a negative or absurd
 Content-Length

---
 librtsp/message.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/librtsp/message.go b/librtsp/message.go
index 0a1a222..7803bc7 100644
--- a/librtsp/message.go
+++ b/librtsp/message.go
@@ -24,6 +24,9 @@ import (
 // and emit on outbound responses.
 const rtspVersion = "RTSP/1.0"
 
+// maxBody bounds the body of a request; the largest we expect is an SDP.
+const maxBody = 1 << 20
+
 // Request is one parsed RTSP request — methods reuse Go's
 // http.Header so callers can use Get / Set / Add idiomatically.
 type Request struct {
@@ -76,6 +79,9 @@ func ReadRequest(r *bufio.Reader) (*Request, error) {
 		if err != nil {
 			return nil, fmt.Errorf("bad Content-Length: %v", err)
 		}
+		if n < 0 || n > maxBody {
+			return nil, fmt.Errorf("bad Content-Length: %d", n)
+		}
 		body := make([]byte, n)
 		if _, err := io.ReadFull(r, body); err != nil {
 			return nil, err
-- 
2.43.0


From ada568125c843b87799db6952af7b59ecb8d73fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 026/106] fix: send and take each RTSP track only on the
 transport negotiated for it

---
 librtmp/rtsp_server.go | 87 ++++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 41 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index a4aed19..236ce01 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -144,11 +144,8 @@ func (s *rtspSession) release() {
 	if s.publishRTMP != nil {
 		s.publishRTMP.cleanup()
 	}
-	for _, c := range []*net.UDPConn{s.videoUDP, s.audioUDP, s.videoUDPRTCP, s.audioUDPRTCP} {
-		if c != nil {
-			_ = c.Close()
-		}
-	}
+	closeUDPPair(s.videoUDP, s.videoUDPRTCP)
+	closeUDPPair(s.audioUDP, s.audioUDPRTCP)
 }
 
 // dispatch routes a request to the per-method handler. Each handler
@@ -250,7 +247,7 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 		return resp
 	}
 
-	var rtpCh, rtcpCh int
+	rtpCh, rtcpCh := -1, -1 //no interleaved channels for a UDP track
 	var srvRTPPort, srvRTCPPort int
 	var udpSocks [2]*net.UDPConn
 	var clientRTPPort, clientRTCPPort int
@@ -290,6 +287,7 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 		var ok bool
 		isAudio, ok = s.notifyIngestSetup(req.URL, rtpCh)
 		if !ok {
+			closeUDPPair(udpSocks[0], udpSocks[1])
 			resp.StatusCode = 404
 			resp.Reason = "Not Found"
 			return resp
@@ -306,26 +304,25 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 			s.audioRTP = librtsp.NewRTPPacker(97, s.audioSSRC)
 			isAudio = true
 		default:
+			closeUDPPair(udpSocks[0], udpSocks[1])
 			resp.StatusCode = 404
 			resp.Reason = "Not Found"
 			return resp
 		}
 	}
 
-	//Wire up UDP sockets to the per-track slot so PLAY / RECORD
-	//goroutines can find them later.
-	if useUDP {
-		clientHost := s.peerHostIP()
-		rtpPeer := &net.UDPAddr{IP: clientHost, Port: clientRTPPort}
-		if isAudio {
-			s.audioUDP = udpSocks[0]
-			s.audioUDPRTCP = udpSocks[1]
-			s.peerAudioRTP = rtpPeer
-		} else {
-			s.videoUDP = udpSocks[0]
-			s.videoUDPRTCP = udpSocks[1]
-			s.peerVideoRTP = rtpPeer
-		}
+	//Wire up UDP sockets (none for an interleaved track) to the per-track
+	//slot so PLAY / RECORD goroutines can find them later. A repeated SETUP
+	//replaces the track's earlier transport.
+	rtpPeer := &net.UDPAddr{IP: s.peerHostIP(), Port: clientRTPPort}
+	if isAudio {
+		closeUDPPair(s.audioUDP, s.audioUDPRTCP)
+		s.audioUDP, s.audioUDPRTCP = udpSocks[0], udpSocks[1]
+		s.peerAudioRTP = rtpPeer
+	} else {
+		closeUDPPair(s.videoUDP, s.videoUDPRTCP)
+		s.videoUDP, s.videoUDPRTCP = udpSocks[0], udpSocks[1]
+		s.peerVideoRTP = rtpPeer
 	}
 
 	if s.sessionID == "" {
@@ -408,6 +405,14 @@ func openUDPPair() (socks [2]*net.UDPConn, rtpPort, rtcpPort int, err error) {
 	return [2]*net.UDPConn{}, 0, 0, fmt.Errorf("failed to bind RTP/RTCP UDP pair")
 }
 
+func closeUDPPair(rtp, rtcp *net.UDPConn) {
+	for _, c := range []*net.UDPConn{rtp, rtcp} {
+		if c != nil {
+			_ = c.Close()
+		}
+	}
+}
+
 // handlePlay starts the per-track packetisation goroutine that pulls
 // FLV tags from the room's broadcast and writes interleaved RTP frames
 // into the same TCP connection used by the RTSP control channel.
@@ -449,7 +454,7 @@ func (s *rtspSession) streamLoop(room *Room) {
 	//that decodes off the wire rather than the SDP fmtp gets the
 	//SPS/PPS too.
 	_, videoHdr, _ := room.snapshotHeaders()
-	if s.videoChan >= 0 && videoHdr != nil {
+	if s.videoRTP != nil && videoHdr != nil {
 		s.sendVideoSeqHeader(videoHdr)
 	}
 
@@ -465,14 +470,14 @@ func (s *rtspSession) streamLoop(room *Room) {
 		}
 		switch t := tag.(type) {
 		case *libflv.VideoTag:
-			if s.videoChan < 0 {
+			if s.videoRTP == nil {
 				continue
 			}
 			if err := s.sendVideo(t); err != nil {
 				return
 			}
 		case *libflv.AudioTag:
-			if s.audioChan < 0 {
+			if s.audioRTP == nil {
 				continue
 			}
 			if err := s.sendAudio(t); err != nil {
@@ -496,7 +501,7 @@ func (s *rtspSession) sendVideoSeqHeader(tag *libflv.VideoTag) {
 	for _, nal := range [][]byte{sps, pps} {
 		for _, payload := range librtsp.PackNAL(nal, librtsp.DefaultMTU) {
 			pkt := s.videoRTP.Pack(false, 0, payload)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
+			if err := s.writeVideoRTP(pkt); err != nil {
 				return
 			}
 		}
@@ -531,7 +536,7 @@ func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
 		for pi, piece := range pieces {
 			marker := ni == len(nals)-1 && pi == len(pieces)-1
 			pkt := s.videoRTP.Pack(marker, pts, piece)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
+			if err := s.writeVideoRTP(pkt); err != nil {
 				return err
 			}
 		}
@@ -559,7 +564,7 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		frame := librtsp.AdtsToRaw(tag.Data())
 		payload := librtsp.PackAACFrame(frame)
 		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
+		return s.writeAudioRTP(pkt)
 
 	case libflv.FLV_AUDIO_OPUS:
 		if tag.AACPacketType != libflv.AAC_RAW {
@@ -569,27 +574,27 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * librtsp.OpusClockRate / 1000)
 		payload := librtsp.PackOpusFrame(tag.Data())
 		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
+		return s.writeAudioRTP(pkt)
 	}
 	return nil
 }
 
-// writeInterleaved sends one RTP packet on the appropriate transport.
-// ch is the interleave channel (used in TCP mode); routing in UDP mode
-// is by even/odd channel number — the same convention SETUP responses
-// use. We resolve the right UDP socket + peer addr from the session.
-func (s *rtspSession) writeInterleaved(ch uint8, rtp []byte) error {
-	//UDP: pick the matching per-track socket. Channel 0 / 2 / … (the
-	//RTP halves) map to whichever track we set up first.
-	if int(ch) == s.videoChan && s.videoUDP != nil {
-		_, err := s.videoUDP.WriteToUDP(rtp, s.peerVideoRTP)
-		return err
-	}
-	if int(ch) == s.audioChan && s.audioUDP != nil {
-		_, err := s.audioUDP.WriteToUDP(rtp, s.peerAudioRTP)
+// writeVideoRTP and writeAudioRTP send one RTP packet on the transport
+// negotiated for the track.
+func (s *rtspSession) writeVideoRTP(rtp []byte) error {
+	return s.writeRTP(s.videoUDP, s.peerVideoRTP, s.videoChan, rtp)
+}
+
+func (s *rtspSession) writeAudioRTP(rtp []byte) error {
+	return s.writeRTP(s.audioUDP, s.peerAudioRTP, s.audioChan, rtp)
+}
+
+func (s *rtspSession) writeRTP(udp *net.UDPConn, peer *net.UDPAddr, ch int, rtp []byte) error {
+	if udp != nil {
+		_, err := udp.WriteToUDP(rtp, peer)
 		return err
 	}
-	frame := librtsp.InterleaveFrame(ch, rtp)
+	frame := librtsp.InterleaveFrame(uint8(ch), rtp)
 	s.wmu.Lock()
 	defer s.wmu.Unlock()
 	_, err := s.conn.Write(frame)
-- 
2.43.0


From 27f9eb04ff71048e771ff6358884a2ef0ea4006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 027/106] fix: keep trying for an even/odd UDP port pair in
 RTSP SETUP

---
 librtmp/rtsp_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 236ce01..a5a3265 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -382,7 +382,7 @@ func parseClientPorts(transport string) (rtp, rtcp int, ok bool) {
 // on the odd. Loops up to a few times in case some other process
 // snipes the odd-numbered port between our two binds.
 func openUDPPair() (socks [2]*net.UDPConn, rtpPort, rtcpPort int, err error) {
-	for attempt := 0; attempt < 8; attempt++ {
+	for attempt := 0; attempt < 64; attempt++ {
 		var c1 *net.UDPConn
 		c1, err = net.ListenUDP("udp", &net.UDPAddr{Port: 0})
 		if err != nil {
-- 
2.43.0


From dbc114975ad9ef167b8a6a6cc76f2eeec10005e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 028/106] fix: hold RTSP sessions to the RTSP state machine

---
 librtmp/rtsp_ingest.go | 10 ++++++++++
 librtmp/rtsp_server.go | 13 ++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index ca83ff3..05b6834 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -47,6 +47,13 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		return resp
 	}
 
+	if s.ingest != nil || atomic.LoadInt32(&s.playing) == 1 {
+		//one stream per session, in one direction
+		resp.StatusCode = 455
+		resp.Reason = "Method Not Valid In This State"
+		return resp
+	}
+
 	parsed, err := librtsp.ParseSDP(req.Body)
 	if err != nil {
 		resp.StatusCode = 400
@@ -130,6 +137,9 @@ func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response)
 		return resp
 	}
 	resp.Headers.Set("Session", s.sessionID)
+	if atomic.LoadInt32(&s.recording) == 1 {
+		return resp
+	}
 
 	//Send the 200 OK first, then enter the ingest loop. Returning nil
 	//tells dispatch's caller "you take it from here" — the run() loop
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index a5a3265..daac37d 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -216,8 +216,6 @@ func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
-	s.app, s.streamID = app, room
-
 	sdp := buildSDPFromRoom(rm)
 	if sdp == nil {
 		resp.StatusCode = 503
@@ -225,6 +223,7 @@ func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Respons
 		resp.Headers.Set("Retry-After", "1")
 		return resp
 	}
+	s.app, s.streamID = app, room
 	resp.Headers.Set("Content-Type", "application/sdp")
 	resp.Headers.Set("Content-Base", req.URL+"/")
 	resp.Body = sdp
@@ -236,6 +235,12 @@ func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Respons
 // is recorded on the session so subsequent PLAY / RECORD send paths
 // know which transport to use.
 func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
+	if atomic.LoadInt32(&s.playing) == 1 || atomic.LoadInt32(&s.recording) == 1 {
+		//The transports are in use.
+		resp.StatusCode = 455
+		resp.Reason = "Method Not Valid In This State"
+		return resp
+	}
 	transport := req.Headers.Get("transport")
 	useUDP := strings.Contains(transport, "RTP/AVP") &&
 		!strings.Contains(transport, "RTP/AVP/TCP")
@@ -417,7 +422,9 @@ func closeUDPPair(rtp, rtcp *net.UDPConn) {
 // FLV tags from the room's broadcast and writes interleaved RTP frames
 // into the same TCP connection used by the RTSP control channel.
 func (s *rtspSession) handlePlay(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
-	if s.app == "" || s.streamID == "" {
+	//PLAY comes after DESCRIBE and at least one SETUP, and not from a session
+	//that publishes.
+	if s.app == "" || s.streamID == "" || s.ingest != nil || (s.videoRTP == nil && s.audioRTP == nil) {
 		resp.StatusCode = 455
 		resp.Reason = "Method Not Valid In This State"
 		return resp
-- 
2.43.0


From e254f3284c108dbda5efb67151970233a15c1db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 029/106] fix: take RTP over UDP only from the publishing peer

---
 librtmp/rtsp_ingest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 05b6834..f400712 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -199,10 +199,13 @@ func (s *rtspSession) runIngestLoop() {
 func (s *rtspSession) runUDPReader(c *net.UDPConn, isAudio bool) {
 	buf := make([]byte, 1500)
 	for atomic.LoadInt32(&s.recording) == 1 {
-		n, _, err := c.ReadFromUDP(buf)
+		n, from, err := c.ReadFromUDP(buf)
 		if err != nil {
 			return
 		}
+		if !from.IP.Equal(s.peerHostIP()) {
+			continue //not from the publisher
+		}
 		pkt, perr := librtsp.ParseRTP(append([]byte(nil), buf[:n]...))
 		if perr != nil {
 			continue
-- 
2.43.0


From 5922b0fe00e6f50e078205fd1afe67badbef0073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 030/106] fix: refuse RTSP transports with impossible channels
 or ports

---
 librtmp/rtsp_server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index daac37d..e5e861e 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -368,14 +368,14 @@ func parseClientPorts(transport string) (rtp, rtcp int, ok bool) {
 		dash := strings.Index(v, "-")
 		if dash < 0 {
 			n, err := strconv.Atoi(v)
-			if err != nil {
+			if err != nil || n <= 0 || n+1 > 0xFFFF {
 				return 0, 0, false
 			}
 			return n, n + 1, true
 		}
 		a, err1 := strconv.Atoi(v[:dash])
 		b, err2 := strconv.Atoi(v[dash+1:])
-		if err1 != nil || err2 != nil {
+		if err1 != nil || err2 != nil || a <= 0 || a > 0xFFFF || b <= 0 || b > 0xFFFF {
 			return 0, 0, false
 		}
 		return a, b, true
@@ -645,14 +645,14 @@ func parseInterleavedChannels(transport string) (rtp, rtcp int, ok bool) {
 		dash := strings.Index(v, "-")
 		if dash < 0 {
 			rtp, err := strconv.Atoi(v)
-			if err != nil {
+			if err != nil || rtp < 0 || rtp+1 > 0xFF {
 				return 0, 0, false
 			}
 			return rtp, rtp + 1, true
 		}
 		a, err1 := strconv.Atoi(v[:dash])
 		b, err2 := strconv.Atoi(v[dash+1:])
-		if err1 != nil || err2 != nil {
+		if err1 != nil || err2 != nil || a < 0 || a > 0xFF || b < 0 || b > 0xFF {
 			return 0, 0, false
 		}
 		return a, b, true
-- 
2.43.0


From 31c27a4ca6d2c3f2c90227a82eb9c1ad76b392d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:31 +0000
Subject: [PATCH 031/106] fix: an SRT stream belongs to one session and ends
 with it

---
 librtmp/srt_server.go | 35 +++++++++++++-------
 libsrt/listener.go    | 75 +++++++++++++++++++++++++++++++++++++------
 2 files changed, 88 insertions(+), 22 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 3768953..7eb967c 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -20,9 +20,8 @@ type srtSpec struct {
 	streamID string
 }
 
-// srtBridge wraps one libsrt.Listener and the per-stream demux state
-// that turns MPEG-TS into FLV tags. There's one bridge per WithSRT
-// invocation.
+// srtBridge wraps one SRT session and the per-stream demux state
+// that turns MPEG-TS into FLV tags. There's one bridge per session.
 type srtBridge struct {
 	spec    srtSpec
 	server  *server
@@ -44,19 +43,21 @@ type srtBridge struct {
 // startSRT installs the listener; called from server.Handler() once
 // per WithSRT spec.
 func startSRT(srv *server, spec srtSpec) {
-	br := &srtBridge{
-		spec:   spec,
-		server: srv,
-		demux:  libsrt.NewDemuxer(),
-	}
-	br.demux.OnVideo = br.onVideo
-	br.demux.OnAudio = br.onAudio
-
-	listener, err := libsrt.Listen(spec.address, spec.streamID, br.onData)
+	listener, err := libsrt.Listen(spec.address, spec.streamID, nil)
 	if err != nil {
 		fmt.Printf("srt listen %s: %v\n", spec.address, err)
 		return
 	}
+	listener.OnSession = func() (libsrt.DataHandler, func()) {
+		br := &srtBridge{
+			spec:   spec,
+			server: srv,
+			demux:  libsrt.NewDemuxer(),
+		}
+		br.demux.OnVideo = br.onVideo
+		br.demux.OnAudio = br.onAudio
+		return br.onData, br.close
+	}
 	go func() {
 		if err := listener.Run(); err != nil {
 			fmt.Printf("srt run %s: %v\n", spec.address, err)
@@ -94,6 +95,16 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 	return nil
 }
 
+// close ends the stream of the session, if it got one.
+func (br *srtBridge) close() {
+	br.mu.Lock()
+	room := br.room
+	br.mu.Unlock()
+	if room != nil {
+		room.Publisher.cleanup()
+	}
+}
+
 // onVideo converts an AnnexB-formatted access unit into FLV video
 // tag(s). On the first IDR we mine SPS/PPS, emit the AVC sequence
 // header, then continue with NALU tags.
diff --git a/libsrt/listener.go b/libsrt/listener.go
index c74d5b9..ee50657 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -28,11 +28,19 @@ type Listener struct {
 	streamID   string
 	onData     DataHandler
 
+	// OnSession, when set before Run, supplies every new session with a
+	// data handler of its own and a function called once when it ends.
+	OnSession func() (onData DataHandler, onClose func())
+
 	mu       sync.Mutex
 	sessions map[string]*session
 	socketID uint32 //ours, monotonically incremented per accept
+	swept    time.Time
 }
 
+// idleTimeout is how long a silent peer keeps its session (SRT's default).
+const idleTimeout = 5 * time.Second
+
 type session struct {
 	peerAddr      *net.UDPAddr
 	peerSocketID  uint32
@@ -44,6 +52,8 @@ type session struct {
 	lastSeen      time.Time
 	streamID      string
 	expectedSeq   uint32
+	onData        DataHandler
+	onClose       func()
 
 	// ACK / NAK bookkeeping. lastACKedSeq is the sequence number we
 	// last reported via an ACK; ackNum is the monotonically-incrementing
@@ -82,11 +92,20 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 // Caller is responsible for invoking Close().
 func (l *Listener) Run() error {
 	buf := make([]byte, 1500)
+	defer l.sweep(0)
 	for {
+		_ = l.conn.SetReadDeadline(time.Now().Add(idleTimeout / 4))
 		n, peer, err := l.conn.ReadFromUDP(buf)
+		if ne, ok := err.(net.Error); ok && ne.Timeout() {
+			l.sweep(idleTimeout)
+			continue
+		}
 		if err != nil {
 			return err
 		}
+		if time.Since(l.swept) > idleTimeout/4 {
+			l.sweep(idleTimeout)
+		}
 		if n < HeaderSize {
 			continue
 		}
@@ -94,6 +113,38 @@ func (l *Listener) Run() error {
 	}
 }
 
+// sweep ends the sessions of peers that have been silent for longer than idle.
+func (l *Listener) sweep(idle time.Duration) {
+	l.swept = time.Now()
+	l.mu.Lock()
+	var gone []*session
+	for _, sess := range l.sessions {
+		if time.Since(sess.lastSeen) >= idle {
+			gone = append(gone, sess)
+		}
+	}
+	l.mu.Unlock()
+	for _, sess := range gone {
+		l.endSession(sess)
+	}
+}
+
+// endSession forgets the session and tells its consumer.
+func (l *Listener) endSession(sess *session) {
+	l.mu.Lock()
+	delete(l.sessions, sess.peerAddr.String())
+	l.mu.Unlock()
+	sess.detach()
+}
+
+// detach ends what the session's data handler was building.
+func (sess *session) detach() {
+	if sess.onClose != nil {
+		sess.onClose()
+	}
+	sess.onData, sess.onClose = nil, nil
+}
+
 // Close shuts the UDP socket; the Run loop returns shortly after.
 func (l *Listener) Close() error { return l.conn.Close() }
 
@@ -110,6 +161,9 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 	sess := l.sessions[key]
 	l.mu.Unlock()
 
+	if sess != nil {
+		sess.lastSeen = time.Now()
+	}
 	switch hdr.Kind {
 	case KindControl:
 		switch hdr.ControlType {
@@ -117,13 +171,10 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 			l.handleHandshake(peer, hdr, body)
 		case CtrlShutdown:
 			if sess != nil {
-				l.mu.Lock()
-				delete(l.sessions, key)
-				l.mu.Unlock()
+				l.endSession(sess)
 			}
 		case CtrlKeepAlive:
 			if sess != nil {
-				sess.lastSeen = time.Now()
 				//Mirror the keepalive back per spec.
 				resp := make([]byte, HeaderSize)
 				MarshalControlHeader(resp, CtrlKeepAlive, 0, 0,
@@ -136,7 +187,6 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 		if sess == nil || !sess.concluded {
 			return
 		}
-		sess.lastSeen = time.Now()
 		l.handleDataPacket(sess, hdr, body)
 	}
 }
@@ -170,12 +220,11 @@ func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 		sess.expectedSeq = (sess.expectedSeq + 1) & seqMask
 		sess.mu.Unlock()
 	}
-	if l.onData != nil {
-		if err := l.onData(sess.streamID, body); err != nil {
+	if sess.onData != nil {
+		if err := sess.onData(sess.streamID, body); err != nil {
 			//The consumer refuses the stream: end the session.
-			l.mu.Lock()
-			delete(l.sessions, sess.peerAddr.String())
-			l.mu.Unlock()
+			l.sendControl(sess.peerAddr, CtrlShutdown, 0, 0, sess, nil)
+			l.endSession(sess)
 			return
 		}
 	}
@@ -228,6 +277,7 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 			peerAddr:     peer,
 			ourSocketID:  l.socketID,
 			startTime:    time.Now(),
+			lastSeen:     time.Now(),
 			streamID:     l.streamID,
 		}
 		l.socketID++
@@ -264,6 +314,11 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 			sess.expectedSeq = hs.InitialSequence & seqMask
 			sess.concluded = true
 			sess.concludedCookie = hs.SyncCookie
+			sess.detach()
+			sess.onData = l.onData
+			if l.OnSession != nil {
+				sess.onData, sess.onClose = l.OnSession()
+			}
 		}
 
 		reply := *hs
-- 
2.43.0


From 113e7459bdf9d171e97de3bd23eeac9d9b17b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:57 +0000
Subject: [PATCH 032/106] fix: keep all three channel configuration bits in
 ADTS headers

---
 libaac/aac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libaac/aac.go b/libaac/aac.go
index 5823ceb..692f2c9 100644
--- a/libaac/aac.go
+++ b/libaac/aac.go
@@ -31,8 +31,8 @@ func (ah *AACHeader) Adts(data []byte) (header []byte) {
 	return []byte{
 		0xff,
 		0xf1,
-		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2),
-		((ah.Channel << 2) << 4) | uint8((frameLen<<3)>>14),
+		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2) | ((ah.Channel >> 2) & 0x01),
+		(ah.Channel << 6) | uint8((frameLen<<3)>>14),
 		uint8((frameLen << 5) >> 8),
 		uint8(((frameLen<<13)>>13)<<5) | ((0x7c << 1) >> 3),
 		0xfc,
-- 
2.43.0


From 224688300e3188199e270cf3010bbe05e2ffbbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:17 +0000
Subject: [PATCH 033/106] fix: signal HE-AAC in ADTS as its AAC-LC core

---
 libaac/aac.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libaac/aac.go b/libaac/aac.go
index 692f2c9..a4ad6bc 100644
--- a/libaac/aac.go
+++ b/libaac/aac.go
@@ -28,10 +28,15 @@ func (ah *AACHeader) Parse(data []byte) (err error) {
 
 func (ah *AACHeader) Adts(data []byte) (header []byte) {
 	frameLen := uint16(len(data)) + 7
+	objectType := ah.ObjectType
+	if objectType == 5 || objectType == 29 {
+		//ADTS cannot name HE-AAC; it is signalled as its AAC-LC core.
+		objectType = 2
+	}
 	return []byte{
 		0xff,
 		0xf1,
-		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2) | ((ah.Channel >> 2) & 0x01),
+		((objectType - 1) << 6) | (ah.SampleRate << 2) | ((ah.Channel >> 2) & 0x01),
 		(ah.Channel << 6) | uint8((frameLen<<3)>>14),
 		uint8((frameLen << 5) >> 8),
 		uint8(((frameLen<<13)>>13)<<5) | ((0x7c << 1) >> 3),
-- 
2.43.0


From 977b96c0bcd75fe119331591c5e47cf4299e00b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:19 +0000
Subject: [PATCH 034/106] fix: take AVC decoder configuration records whole and
 in place of the previous one

---
 libavc/avc.go | 86 ++++++++++++++++++++-------------------------------
 1 file changed, 33 insertions(+), 53 deletions(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index 017a5f5..1849dc1 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -41,68 +41,48 @@ var (
 var startCode = []byte{0x00, 0x00, 0x00, 0x01}
 var naluAud = []byte{0x00, 0x00, 0x00, 0x01, 0x09, 0xf0}
 
-type sequenceHeader struct {
-	configVersion        byte //8bits
-	avcProfileIndication byte //8bits
-	profileCompatility   byte //8bits
-	avcLevelIndication   byte //8bits
-	reserved1            byte //6bits
-	naluLen              byte //2bits
-	reserved2            byte //3bits
-	spsNum               byte //5bits
-	ppsNum               byte //8bits
-	spsLen               int
-	ppsLen               int
-}
-
 type Parser struct {
 	SpecificInfo []byte
 	Pps          *bytes.Buffer
+	naluLen      int //bytes of a NALU's length prefix, 0: naluBytesLen
 }
 
+// ParseSpecificInfo takes an AVCDecoderConfigurationRecord (ISO/IEC
+// 14496-15 §5.2.4.1) in place of the previous one.
 func (parser *Parser) ParseSpecificInfo(src []byte) error {
-	if len(src) < 9 {
+	if len(src) < 7 {
 		return decDataNil
 	}
-	sps := []byte{}
-	pps := []byte{}
-
-	var seq sequenceHeader
-	seq.configVersion = src[0]
-	seq.avcProfileIndication = src[1]
-	seq.profileCompatility = src[2]
-	seq.avcLevelIndication = src[3]
-	seq.reserved1 = src[4] & 0xfc
-	seq.naluLen = src[4]&0x03 + 1
-	seq.reserved2 = src[5] >> 5
-
-	//get sps
-	seq.spsNum = src[5] & 0x1f
-	seq.spsLen = int(src[6])<<8 | int(src[7])
-
-	if len(src[8:]) < seq.spsLen || seq.spsLen <= 0 {
-		return spsDataError
-	}
-	sps = append(sps, startCode...)
-	sps = append(sps, src[8:(8+seq.spsLen)]...)
-
-	//get pps
-	tmpBuf := src[(8 + seq.spsLen):]
-	if len(tmpBuf) < 4 {
-		return ppsHeaderError
-	}
-	seq.ppsNum = tmpBuf[0]
-	seq.ppsLen = int(0)<<16 | int(tmpBuf[1])<<8 | int(tmpBuf[2])
-	if len(tmpBuf[3:]) < seq.ppsLen || seq.ppsLen <= 0 {
-		return ppsDataError
+	info := []byte{}
+	rest := src[5:]
+	for _, kind := range []struct {
+		mask                 byte
+		headerErr, dataErr error
+	}{{0x1f, spsDataError, spsDataError}, {0xff, ppsHeaderError, ppsDataError}} {
+		if len(rest) < 1 {
+			return kind.headerErr
+		}
+		num := int(rest[0] & kind.mask)
+		rest = rest[1:]
+		if num == 0 {
+			return kind.dataErr
+		}
+		for ; num > 0; num-- {
+			if len(rest) < 2 {
+				return kind.headerErr
+			}
+			n := int(rest[0])<<8 | int(rest[1])
+			rest = rest[2:]
+			if n == 0 || len(rest) < n {
+				return kind.dataErr
+			}
+			info = append(info, startCode...)
+			info = append(info, rest[:n]...)
+			rest = rest[n:]
+		}
 	}
-
-	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
-
-	parser.SpecificInfo = append(parser.SpecificInfo, sps...)
-	parser.SpecificInfo = append(parser.SpecificInfo, pps...)
-
+	parser.SpecificInfo = info
+	parser.naluLen = int(src[4]&0x03) + 1
 	return nil
 }
 
-- 
2.43.0


From b692b014dbea3ccf3b1ffacb946e50af66167c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 035/106] fix: pass every NAL unit on in order when converting
 to Annex B

---
 libavc/avc.go | 122 ++++++++++++++++++++------------------------------
 1 file changed, 49 insertions(+), 73 deletions(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index 1849dc1..e4140f0 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -96,88 +96,64 @@ func (parser *Parser) IsNaluHeader(src []byte) bool {
 		src[3] == 0x01
 }
 
-func (parser *Parser) naluSize(src []byte) (int, error) {
-	if len(src) < naluBytesLen {
-		return 0, fmt.Errorf("nalusizedata invalid")
+// split cuts an access unit into its length-prefixed NALUs.
+func (parser *Parser) split(src []byte) (nalus [][]byte, err error) {
+	prefix := parser.naluLen
+	if prefix == 0 {
+		prefix = naluBytesLen
+	}
+	if len(src) < prefix {
+		return nil, videoDataInvalid
 	}
-	buf := src[:naluBytesLen]
-	size := int(0)
-	for i := 0; i < len(buf); i++ {
-		size = size<<8 + int(buf[i])
+	for len(src) > 0 {
+		if len(src) < prefix {
+			return nil, dataSizeNotMatch
+		}
+		size := 0
+		for _, b := range src[:prefix] {
+			size = size<<8 + int(b)
+		}
+		src = src[prefix:]
+		if size == 0 || size > len(src) {
+			return nil, naluBodyLenError
+		}
+		nalus = append(nalus, src[:size])
+		src = src[size:]
 	}
-	return size, nil
+	return nalus, nil
 }
 
+// GetAnnexbH264 writes an access unit with start codes, beginning with an
+// access unit delimiter. One that can be decoded on its own starts with
+// parameter sets: its own if it brings them along, else those of the
+// decoder configuration record.
 func (parser *Parser) GetAnnexbH264(src []byte, w io.Writer) error {
-	dataSize := len(src)
-	if dataSize < naluBytesLen {
-		return videoDataInvalid
-	}
-	parser.Pps.Reset()
-	_, err := w.Write(naluAud)
+	nalus, err := parser.split(src)
 	if err != nil {
 		return err
 	}
-
-	index := 0
-	nalLen := 0
-	hasSpsPps := false
-	hasWriteSpsPps := false
-
-	for dataSize > 0 {
-		nalLen, err = parser.naluSize(src[index:])
-		if err != nil {
-			return dataSizeNotMatch
+	var idr, sps, pps bool
+	for _, nalu := range nalus {
+		switch nalu[0] & 0x1f {
+		case nalu_type_idr:
+			idr = true
+		case nalu_type_sps:
+			sps = true
+		case nalu_type_pps:
+			pps = true
 		}
-		index += naluBytesLen
-		dataSize -= naluBytesLen
-		if dataSize >= nalLen && len(src[index:]) >= nalLen && nalLen > 0 {
-			nalType := src[index] & 0x1f
-			switch nalType {
-			case nalu_type_aud:
-			case nalu_type_idr:
-				if !hasWriteSpsPps {
-					hasWriteSpsPps = true
-					if !hasSpsPps {
-						if _, err := w.Write(parser.SpecificInfo); err != nil {
-							return err
-						}
-					} else {
-						if _, err := w.Write(parser.Pps.Bytes()); err != nil {
-							return err
-						}
-					}
-				}
-				fallthrough
-			case nalu_type_slice:
-				fallthrough
-			case nalu_type_sei:
-				_, err := w.Write(startCode)
-				if err != nil {
-					return err
-				}
-				_, err = w.Write(src[index : index+nalLen])
-				if err != nil {
-					return err
-				}
-			case nalu_type_sps:
-				fallthrough
-			case nalu_type_pps:
-				hasSpsPps = true
-				_, err := parser.Pps.Write(startCode)
-				if err != nil {
-					return err
-				}
-				_, err = parser.Pps.Write(src[index : index+nalLen])
-				if err != nil {
-					return err
-				}
-			}
-			index += nalLen
-			dataSize -= nalLen
-		} else {
-			return naluBodyLenError
+	}
+	out := append([]byte(nil), naluAud...)
+	if idr && !(sps && pps) {
+		out = append(out, parser.SpecificInfo...)
+	}
+	for _, nalu := range nalus {
+		if nalu[0]&0x1f == nalu_type_aud {
+			continue
 		}
+		out = append(out, startCode...)
+		out = append(out, nalu...)
 	}
-	return nil
+	_, err = w.Write(out)
+	return err
 }
-- 
2.43.0


From adfd7037b895cdbbfed1224b50512f9ba310cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 036/106] fix: stuff the last TS packet of a frame for every
 frame size

---
 libmpeg/ts.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 82a3ce3..aae5065 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -127,7 +127,8 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 
 func (af *AdaptationField) Marshal(writer easyio.EasyWriter) (n uint8, err error) {
 	if af.AdaptationFieldLength < 1 {
-		return 0, fmt.Errorf("invalid1 AdaptationFieldLength:%d", af.AdaptationFieldLength)
+		//A single stuffing byte is an adaptation field of no length.
+		return 1, writer.WriteFull([]byte{0})
 	}
 
 	b := make([]byte, 0, af.AdaptationFieldLength+1)
@@ -269,8 +270,9 @@ func (ts *TS) Mux(psi PSI, firstTSofKeyFrame bool, dts uint64, writer easyio.Eas
 		}
 
 		if remain := psi.Remain(); remain < int(writable-headerSize) {
+			//The payload ends here: stuff the packet up to it.
 			ts.AdaptationFieldExist |= 0x02
-			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable-headerSize) - remain - 1)
+			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable) - 4 - remain - 1)
 		}
 	}
 
-- 
2.43.0


From 51fcb2ecc74fe062d35c831dd287507b0f9ab059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:57 +0000
Subject: [PATCH 037/106] fix: write all bits of the PAT version number

---
 libmpeg/psi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpeg/psi.go b/libmpeg/psi.go
index 59dd730..cdb4547 100644
--- a/libmpeg/psi.go
+++ b/libmpeg/psi.go
@@ -102,7 +102,7 @@ func (pat *PAT) Marshal(writer easyio.EasyWriter, writable int) (n int, finish b
 		uint8(pat.SectionLength & 0xff),
 		uint8((pat.TransportStreamID >> 8) & 0xff),
 		uint8(pat.TransportStreamID & 0xff),
-		0xc0 | ((pat.VersionNumber << 1) & 0x37) | (pat.CurrentNextIndicator & 0x01),
+		0xc0 | ((pat.VersionNumber << 1) & 0x3e) | (pat.CurrentNextIndicator & 0x01),
 		pat.SectionNumber,
 		pat.LastSectionNumber,
 	}
-- 
2.43.0


From 207749ee92dc9a2cc55f2ec75c0e241db17c0b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 038/106] fix: take composition times as signed

---
 libdash/dash.go        | 2 +-
 libflv/video.go        | 6 ++++++
 libhls/hls.go          | 4 ++--
 librtmp/rtsp_server.go | 2 +-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 305c4c1..995bd75 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -216,7 +216,7 @@ func (d *DASH) Start(gopReader TagReader) error {
 		}
 
 		dts := uint64(v.GetTagInfo().TimeStamp) //ms
-		cts := int32(v.Cts)                     //ms
+		cts := v.CompositionTime()              //ms
 		isKey := v.FrameType == libflv.KEY_FRAME
 
 		//Rotate on keyframes once the current segment has hit
diff --git a/libflv/video.go b/libflv/video.go
index 57888c4..6a0faaf 100644
--- a/libflv/video.go
+++ b/libflv/video.go
@@ -80,6 +80,12 @@ func (vt *VideoTag) Marshal() (b []byte) {
 	return b
 }
 
+// CompositionTime is Cts, a signed 24-bit number, as offset from the
+// decoding to the presentation time in milliseconds.
+func (vt *VideoTag) CompositionTime() int32 {
+	return int32(vt.Cts<<8) >> 8
+}
+
 func (vt *VideoTag) Data() (b []byte) {
 	return vt.VideoData
 }
diff --git a/libhls/hls.go b/libhls/hls.go
index f383d35..f662fe2 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -476,7 +476,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(pv.CompositionTime())*90)
 			}
 			return pes, pid, videoKey, false
 
@@ -505,7 +505,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.Data = avccToAnnexB(pv.Data())
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(pv.CompositionTime())*90)
 			}
 			return pes, pid, videoKey, false
 
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index e5e861e..42b816f 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -524,7 +524,7 @@ func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
 		return nil
 	}
 	//PTS in 90 kHz clock; FLV gives us DTS in ms plus a CTS offset.
-	pts := (uint32(tag.GetTagInfo().TimeStamp) + uint32(tag.Cts)) * 90
+	pts := (uint32(tag.GetTagInfo().TimeStamp) + uint32(tag.CompositionTime())) * 90
 
 	//Codec-specific packetiser. For unsupported codecs we silently
 	//drop the frame — better than tearing down the RTSP session.
-- 
2.43.0


From ac4e9a73a4e2136f4ee673a73cbfa2c42518d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:01 +0000
Subject: [PATCH 039/106] fix: keep HLS timestamps beyond 13 hours

---
 libhls/hls.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index f662fe2..5f7f3ef 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -410,7 +410,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			pid = libmpeg.AUDIO_PID
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
@@ -452,7 +452,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
 			pes.StreamType = 0x1B
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
@@ -496,7 +496,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
-- 
2.43.0


From 71e171be90207351d114acf88e1ed0b30ae55136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 040/106] fix: do not start HLS segments at end-of-sequence
 tags

---
 libhls/hls.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libhls/hls.go b/libhls/hls.go
index 5f7f3ef..090d284 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -447,6 +447,9 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 				}
 				return nil, 0, false, true
 			}
+			if pv.AVCPacketType != libflv.AVC_NALU {
+				return nil, 0, false, true
+			}
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
@@ -493,6 +496,9 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 				//need to memoise them for the muxer.
 				return nil, 0, false, true
 			}
+			if pv.AVCPacketType != libflv.AVC_NALU {
+				return nil, 0, false, true
+			}
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 
-- 
2.43.0


From 187b97bc255a9e291937b215b637b13d190c4b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:40 +0000
Subject: [PATCH 041/106] fix: make the parts of an HLS segment cover all of
 it, with durations that add up

---
 libhls/hls.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 090d284..0f277b1 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -385,9 +385,10 @@ outer:
 		//to the part we're closing — the next part starts at the
 		//current write offset.
 		if hls.llEnabled && hls.currentFile != nil {
-			partDur := float64(pes.DTS-hls.partStartDTS) / 90000.0
+			//Audio is behind video, so a part ends at the latest time seen.
+			partDur := float64(hls.currentEndDTS-hls.partStartDTS) / 90000.0
 			if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
-				hls.closeCurrentPart(pes.DTS, false)
+				hls.closeCurrentPart(hls.currentEndDTS, false)
 			}
 		}
 	}
@@ -623,9 +624,6 @@ func (hls *HLS) closeCurrentPart(endDTS uint64, nextIndependent bool) {
 		return
 	}
 	dur := float64(endDTS-hls.partStartDTS) / 90000.0
-	if dur <= 0 {
-		return
-	}
 	length := hls.currentBytes - hls.partStartOffset
 	if length <= 0 {
 		return
-- 
2.43.0


From c1ac1908b5169b8db1a21e4fb7f443c23c176826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:42 +0000
Subject: [PATCH 042/106] fix: hold blocking playlist requests until what they
 ask for is listed, and no longer

---
 libhls/hls.go     | 12 +++++-------
 librtmp/server.go |  5 ++++-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 0f277b1..f5449bb 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -187,7 +187,8 @@ func (hls *HLS) Playlist() []byte {
 }
 
 // WaitForPlaylist returns the LL-HLS playlist for which the given
-// _HLS_msn / _HLS_part has become available. If wantMSN is negative
+// _HLS_msn / _HLS_part has become available; a negative wantPart asks
+// for the complete segment. If wantMSN is negative
 // the call returns immediately with whatever is current. Times out
 // after timeout (returns the current playlist anyway, matching the
 // "respond with stale playlist" guidance from Apple's spec).
@@ -198,13 +199,10 @@ func (hls *HLS) WaitForPlaylist(wantMSN int, wantPart int, timeout time.Duration
 		if !hls.llEnabled || wantMSN < 0 {
 			break
 		}
-		latestMSN := hls.nextSeq - 1
-		latestPart := -1
-		if hls.currentSegName != "" {
-			latestMSN = hls.nextSeq
-			latestPart = len(hls.currentParts) - 1
+		if wantMSN < hls.nextSeq || hls.stopRequested() {
+			break
 		}
-		if wantMSN < latestMSN || (wantMSN == latestMSN && wantPart <= latestPart) {
+		if hls.currentSegName != "" && wantMSN == hls.nextSeq && wantPart >= 0 && wantPart < len(hls.currentParts) {
 			break
 		}
 		now := time.Now()
diff --git a/librtmp/server.go b/librtmp/server.go
index e859264..abc3673 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -403,7 +403,10 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			var playlist []byte
 			if msnStr := q.Get("_HLS_msn"); msnStr != "" {
 				msn, _ := strconv.Atoi(msnStr)
-				part, _ := strconv.Atoi(q.Get("_HLS_part"))
+				part, err := strconv.Atoi(q.Get("_HLS_part"))
+				if err != nil {
+					part = -1
+				}
 				//Apple recommends timeout ~= 3 * PART-TARGET; use 3 s
 				//as a safe floor so even non-LL mode answers promptly.
 				timeout := 3 * hls.PartTargetDur()
-- 
2.43.0


From 9e0fddf1eed4a6941a9ed1f863bc8b26d3b0e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:12 +0000
Subject: [PATCH 043/106] fix: let an HLS segment last until the next one
 starts

---
 libhls/hls.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libhls/hls.go b/libhls/hls.go
index f5449bb..07cd075 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -678,6 +678,9 @@ func (hls *HLS) writePSI() error {
 // rotate closes the current segment, reaps old ones beyond the window,
 // and opens a new one starting at the given DTS.
 func (hls *HLS) rotate(nextStartDTS uint64) error {
+	if nextStartDTS > hls.currentEndDTS {
+		hls.currentEndDTS = nextStartDTS //its last frame lasts until then
+	}
 	hls.finaliseCurrent()
 	return hls.openSegment(nextStartDTS)
 }
-- 
2.43.0


From 561e94bda3961c6429337d6ca324a34085842436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:41 +0000
Subject: [PATCH 044/106] fix: remove an HLS stream's in-progress segment when
 it stops

---
 libhls/hls.go | 140 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 83 insertions(+), 57 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 07cd075..70abbaf 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -73,7 +73,8 @@ type HLS struct {
 	audioCache *audioCache
 	align      *align
 
-	// Writer-only state (mutated only by Start's goroutine, no mutex).
+	// Writer-only state (mutated only by Start's goroutine or Stop, under
+	// writeMu).
 	currentFile     *os.File
 	currentWriter   easyio.EasyWriter
 	currentStartDTS uint64
@@ -83,6 +84,10 @@ type HLS struct {
 	currentBytes    int64 //running offset into currentFile
 	lastPSI         time.Time
 
+	// writeMu is held while Start's goroutine handles a tag, so that Stop
+	// can take the in-progress segment over.
+	writeMu sync.Mutex
+
 	// Shared state — protected by mu / cond. mu is a plain Mutex so it
 	// can satisfy sync.Cond's Locker contract (RWMutex would funnel
 	// every Wait into the writer half, defeating the point).
@@ -261,12 +266,17 @@ func (hls *HLS) Stop() {
 	if !atomic.CompareAndSwapInt32(&hls.stopped, 0, 1) {
 		return
 	}
+	hls.writeMu.Lock()
 	if hls.currentFile != nil {
 		_ = hls.currentFile.Close()
+		_ = os.Remove(hls.currentFile.Name())
 		hls.currentFile = nil
+		hls.currentWriter = nil
 	}
+	hls.writeMu.Unlock()
 	hls.mu.Lock()
 	hls.currentSegName = ""
+	hls.currentParts = nil
 	segs := append([]segmentInfo(nil), hls.segments...)
 	hls.segments = nil
 	hls.cond.Broadcast()
@@ -303,11 +313,14 @@ func (hls *HLS) Start(gopReader TagReader) (err error) {
 	defer func() {
 		//On graceful exit (publisher gone or Stop called) finalise the
 		//current segment so players don't lose the last few seconds.
-		hls.finaliseCurrent()
+		hls.writeMu.Lock()
+		defer hls.writeMu.Unlock()
+		if !hls.stopRequested() {
+			hls.finaliseCurrent()
+		}
 		hls.readyOnce.Do(func() { close(hls.ready) })
 	}()
 
-outer:
 	for {
 		if hls.stopRequested() {
 			return nil
@@ -322,74 +335,87 @@ outer:
 			continue
 		}
 
-		pes, pid, videoFrameKey, skip := hls.toPES(tag)
-		if skip {
-			continue
+		if err := hls.writeTag(tag); err != nil {
+			return err
 		}
+	}
+}
 
-		//Segment rotation decision — performed on keyframes only so
-		//every .ts begins with an IDR frame and is independently
-		//decodable. Duration is tracked in 90 kHz PTS units because
-		//that's what we already multiply the FLV timestamps by.
-		if videoFrameKey {
-			if hls.currentFile == nil {
-				if err := hls.openSegment(pes.DTS); err != nil {
+// writeTag puts one tag into the current segment, rotating it when due.
+func (hls *HLS) writeTag(tag libflv.Tag) error {
+	hls.writeMu.Lock()
+	defer hls.writeMu.Unlock()
+	if hls.stopRequested() {
+		return nil
+	}
+	pes, pid, videoFrameKey, skip := hls.toPES(tag)
+	if skip {
+		return nil
+	}
+
+	//Segment rotation decision — performed on keyframes only so
+	//every .ts begins with an IDR frame and is independently
+	//decodable. Duration is tracked in 90 kHz PTS units because
+	//that's what we already multiply the FLV timestamps by.
+	if videoFrameKey {
+		if hls.currentFile == nil {
+			if err := hls.openSegment(pes.DTS); err != nil {
+				return err
+			}
+		} else {
+			curDur := float64(pes.DTS-hls.currentStartDTS) / 90000.0
+			if curDur*float64(time.Second) >= float64(hls.targetDur) {
+				if err := hls.rotate(pes.DTS); err != nil {
 					return err
 				}
-			} else {
-				curDur := float64(pes.DTS-hls.currentStartDTS) / 90000.0
-				if curDur*float64(time.Second) >= float64(hls.targetDur) {
-					if err := hls.rotate(pes.DTS); err != nil {
-						return err
-					}
-				}
 			}
-		} else if hls.currentFile == nil {
-			//No segment yet: drop tags until the first keyframe
-			//arrives. Avoids emitting a segment that doesn't start at
-			//an IDR.
-			continue
 		}
+	} else if hls.currentFile == nil {
+		//No segment yet: drop tags until the first keyframe
+		//arrives. Avoids emitting a segment that doesn't start at
+		//an IDR.
+		return nil
+	}
 
-		//PAT/PMT periodicity: re-inject every psiInterval so clients
-		//that join decoding mid-segment find a PSI quickly.
-		if time.Since(hls.lastPSI) >= psiInterval {
-			if err := hls.writePSI(); err != nil {
-				return err
-			}
+	//PAT/PMT periodicity: re-inject every psiInterval so clients
+	//that join decoding mid-segment find a PSI quickly.
+	if time.Since(hls.lastPSI) >= psiInterval {
+		if err := hls.writePSI(); err != nil {
+			return err
 		}
+	}
 
-		firstTS := true
-		for {
-			finish, muxErr := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, videoFrameKey && firstTS, pes.DTS, hls.currentWriter)
-			if muxErr != nil {
-				fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
-				continue outer
-			}
-			firstTS = false
-			if finish {
-				break
-			}
+	firstTS := true
+	for {
+		finish, muxErr := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, videoFrameKey && firstTS, pes.DTS, hls.currentWriter)
+		if muxErr != nil {
+			fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
+			return nil
 		}
-		if pes.DTS > hls.currentEndDTS {
-			hls.currentEndDTS = pes.DTS
+		firstTS = false
+		if finish {
+			break
 		}
+	}
+	if pes.DTS > hls.currentEndDTS {
+		hls.currentEndDTS = pes.DTS
+	}
 
-		//LL-HLS partial-segment boundary check. Close the current part
-		//once it has accumulated at least PART-TARGET seconds of media
-		//or whenever a fresh keyframe arrived (so subsequent parts
-		//align with sub-GOP boundaries when the encoder emits short
-		//GOPs). Performed AFTER muxing so the just-written PES belongs
-		//to the part we're closing — the next part starts at the
-		//current write offset.
-		if hls.llEnabled && hls.currentFile != nil {
-			//Audio is behind video, so a part ends at the latest time seen.
-			partDur := float64(hls.currentEndDTS-hls.partStartDTS) / 90000.0
-			if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
-				hls.closeCurrentPart(hls.currentEndDTS, false)
-			}
+	//LL-HLS partial-segment boundary check. Close the current part
+	//once it has accumulated at least PART-TARGET seconds of media
+	//or whenever a fresh keyframe arrived (so subsequent parts
+	//align with sub-GOP boundaries when the encoder emits short
+	//GOPs). Performed AFTER muxing so the just-written PES belongs
+	//to the part we're closing — the next part starts at the
+	//current write offset.
+	if hls.llEnabled && hls.currentFile != nil {
+		//Audio is behind video, so a part ends at the latest time seen.
+		partDur := float64(hls.currentEndDTS-hls.partStartDTS) / 90000.0
+		if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
+			hls.closeCurrentPart(hls.currentEndDTS, false)
 		}
 	}
+	return nil
 }
 
 // toPES lifts an FLV tag into a libmpeg.PES plus routing metadata. It
-- 
2.43.0


From 7df3b2904d8248df93d7f054ef19c054fc348f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:56 +0000
Subject: [PATCH 045/106] fix: run one HLS and one DASH segmenter per stream,
 however it is published, and only while it is

---
 libdash/dash.go            |  6 ++--
 libhls/hls.go              |  2 +-
 librtmp/app.go             | 64 ++++++++++++++++++++++++++++++++++++--
 librtmp/command_message.go | 13 --------
 librtmp/server.go          | 37 ++++++++++------------
 5 files changed, 81 insertions(+), 41 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 995bd75..49cdfd0 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -169,13 +169,11 @@ type TagReader interface {
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
 func (d *DASH) Start(gopReader TagReader) error {
+	defer d.readyOnce.Do(func() { close(d.ready) })
 	if err := os.MkdirAll(d.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
-	defer func() {
-		d.flushCurrent()
-		d.readyOnce.Do(func() { close(d.ready) })
-	}()
+	defer d.flushCurrent()
 
 	for {
 		if d.stopRequested() {
diff --git a/libhls/hls.go b/libhls/hls.go
index 70abbaf..27d608f 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -300,6 +300,7 @@ type TagReader interface {
 
 //start to generate ts segments.
 func (hls *HLS) Start(gopReader TagReader) (err error) {
+	defer hls.readyOnce.Do(func() { close(hls.ready) })
 	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
 	}
@@ -318,7 +319,6 @@ func (hls *HLS) Start(gopReader TagReader) (err error) {
 		if !hls.stopRequested() {
 			hls.finaliseCurrent()
 		}
-		hls.readyOnce.Do(func() { close(hls.ready) })
 	}()
 
 	for {
diff --git a/librtmp/app.go b/librtmp/app.go
index d2246dc..16f5dfc 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -16,6 +16,10 @@ type App struct {
 	dashEnabled bool
 	dashDir     string
 	dash        *sync.Map //roomID, *libdash.DASH
+
+	// mu makes a stream's registration and the start and stop of its
+	// segmenters one step.
+	mu sync.Mutex
 }
 
 func NewApp(appName string) *App {
@@ -42,13 +46,67 @@ func (app *App) Store(roomID string, room *Room) {
 	app.rooms.Store(roomID, room)
 }
 
-// Claim registers room unless its stream name is already taken.
+// Claim registers room unless its stream name is already taken, and
+// starts the segmenters every stream of the app gets.
 func (app *App) Claim(roomID string, room *Room) bool {
-	_, taken := app.rooms.LoadOrStore(roomID, room)
-	return !taken
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if _, taken := app.rooms.LoadOrStore(roomID, room); taken {
+		return false
+	}
+	if app.hlsMode == libhls.IMMEDIATELY {
+		app.startHLS(roomID, room)
+	}
+	if app.dashEnabled {
+		app.startDASH(roomID, room)
+	}
+	return true
+}
+
+func (app *App) startHLS(roomID string, room *Room) *libhls.HLS {
+	hls := libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
+	app.StoreHLS(roomID, hls)
+	go hls.Start(NewGOPReader(room.GOP))
+	return hls
+}
+
+func (app *App) startDASH(roomID string, room *Room) *libdash.DASH {
+	dash := libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
+	app.StoreDASH(roomID, dash)
+	go dash.Start(NewGOPReader(room.GOP))
+	return dash
+}
+
+// EnsureHLS returns the HLS segmenter of a stream, starting it when there
+// is none yet; nil when room is not the app's stream of that name (any more).
+func (app *App) EnsureHLS(roomID string, room *Room) *libhls.HLS {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(roomID) != room {
+		return nil
+	}
+	if hls := app.LoadHLS(roomID); hls != nil {
+		return hls
+	}
+	return app.startHLS(roomID, room)
+}
+
+// EnsureDASH is EnsureHLS for the DASH segmenter.
+func (app *App) EnsureDASH(roomID string, room *Room) *libdash.DASH {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(roomID) != room {
+		return nil
+	}
+	if dash := app.LoadDASH(roomID); dash != nil {
+		return dash
+	}
+	return app.startDASH(roomID, room)
 }
 
 func (app *App) Delete(roomID string) {
+	app.mu.Lock()
+	defer app.mu.Unlock()
 	if h, ok := app.hls.LoadAndDelete(roomID); ok {
 		if hls, ok := h.(*libhls.HLS); ok {
 			hls.Stop()
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 3228f2f..f0fcf15 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -10,8 +10,6 @@ import (
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/sbraveyoung/GGmpeg/libdash"
-	"github.com/sbraveyoung/GGmpeg/libhls"
 	"github.com/fatih/structs"
 	"github.com/goinggo/mapstructure"
 	"github.com/pkg/errors"
@@ -284,17 +282,6 @@ func (cm *CommandMessage) Do() (err error) {
 			},
 		}).Send()
 
-		if app.hlsMode == libhls.IMMEDIATELY {
-			hls := libhls.NewHls().WithStreamID(cm.PublishingName).WithDir(app.hlsDir)
-			app.hls.Store(cm.PublishingName, hls)
-			go hls.Start(NewGOPReader(cm.rtmp.room.GOP))
-		}
-		if app.dashEnabled {
-			dash := libdash.NewDASH().WithStreamID(cm.PublishingName).WithDir(app.dashDir)
-			app.StoreDASH(cm.PublishingName, dash)
-			go dash.Start(NewGOPReader(cm.rtmp.room.GOP))
-		}
-
 	case PLAY:
 		app, ok := cm.rtmp.server.apps[cm.rtmp.app]
 		if !ok {
diff --git a/librtmp/server.go b/librtmp/server.go
index abc3673..7ff8274 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -354,22 +354,6 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
-		hls := app.LoadHLS(roomID)
-		if hls == nil {
-			//DELAY mode: lazy-start the transcoder on first playlist
-			//hit so no-one is paying for HLS segmentation when no viewer
-			//is attached.
-			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
-				hls = libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
-				app.StoreHLS(roomID, hls)
-				go hls.Start(NewGOPReader(room.GOP))
-				hls.WaitFirstSegment()
-			} else {
-				w.WriteHeader(http.StatusNotFound)
-				return
-			}
-		}
-
 		//DASH dispatch (manifest + init + media segments). Lazy-start
 		//if WithDASH is on but no DASH instance exists yet.
 		switch {
@@ -378,10 +362,9 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			strings.HasSuffix(file, ".m4s"):
 			dash := app.LoadDASH(roomID)
 			if dash == nil && app.dashEnabled {
-				dash = libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
-				app.StoreDASH(roomID, dash)
-				go dash.Start(NewGOPReader(room.GOP))
-				dash.WaitFirstSegment()
+				if dash = app.EnsureDASH(roomID, room); dash != nil {
+					dash.WaitFirstSegment()
+				}
 			}
 			if dash == nil {
 				w.WriteHeader(http.StatusNotFound)
@@ -391,6 +374,20 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
+		hls := app.LoadHLS(roomID)
+		if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
+			//DELAY mode: lazy-start the transcoder on first playlist
+			//hit so no-one is paying for HLS segmentation when no viewer
+			//is attached.
+			if hls = app.EnsureHLS(roomID, room); hls != nil {
+				hls.WaitFirstSegment()
+			}
+		}
+		if hls == nil {
+			w.WriteHeader(http.StatusNotFound)
+			return
+		}
+
 		switch {
 		case strings.HasSuffix(file, ".m3u8"):
 			//LL-HLS blocking playlist reload: clients append
-- 
2.43.0


From 69b6f667034ef081481986b35bdc5d5036747652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:58 +0000
Subject: [PATCH 046/106] fix: write DASH segments to the directory set with
 SetHlsDir, too

---
 librtmp/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 7ff8274..d063ec7 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -111,12 +111,13 @@ func (s *server) SetHlsMode(appName string, mode libhls.HLS_MODE) *server {
 }
 
 // SetHlsDir configures the directory where the given app stores HLS
-// segments. If unset it defaults to "./data".
+// and DASH segments. If unset it defaults to "./data".
 func (s *server) SetHlsDir(appName string, dir string) *server {
 	if _, ok := s.apps[appName]; !ok {
 		panic("appName does not exist.")
 	}
 	s.apps[appName].hlsDir = dir
+	s.apps[appName].dashDir = dir
 	return s
 }
 
-- 
2.43.0


From a5cfc669dd28f3d10a70332be79c1e4ff0d3a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:27 +0000
Subject: [PATCH 047/106] fix: keep segment file names inside the directory
 whatever the stream is called

---
 libdash/dash.go | 9 +++++----
 libdash/mpd.go  | 4 +++-
 libhls/hls.go   | 3 ++-
 libhls/m3u8.go  | 9 +++++----
 4 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 49cdfd0..771694f 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -15,6 +15,7 @@ package libdash
 import (
 	"encoding/binary"
 	"fmt"
+	"net/url"
 	"os"
 	"path/filepath"
 	"sync"
@@ -151,7 +152,7 @@ func (d *DASH) Stop() {
 		_ = os.Remove(filepath.Join(d.dir, s.filename))
 	}
 	if d.streamID != "" {
-		_ = os.Remove(filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID)))
+		_ = os.Remove(filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", url.QueryEscape(d.streamID))))
 	}
 	d.readyOnce.Do(func() { close(d.ready) })
 }
@@ -276,7 +277,7 @@ func (d *DASH) handleHEVCSequenceHeader(record []byte) error {
 	d.mu.Unlock()
 
 	if d.streamID != "" {
-		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
+		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", url.QueryEscape(d.streamID)))
 		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
 			return fmt.Errorf("write init segment: %w", err)
 		}
@@ -424,7 +425,7 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 
 	//Write init segment to disk so http.ServeFile can serve it.
 	if d.streamID != "" {
-		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
+		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", url.QueryEscape(d.streamID)))
 		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
 			return fmt.Errorf("write init segment: %w", err)
 		}
@@ -479,7 +480,7 @@ func (d *DASH) flushCurrent() error {
 		Samples:        samples,
 	})
 
-	filename := fmt.Sprintf("%s-%d.m4s", d.streamID, seq)
+	filename := fmt.Sprintf("%s-%d.m4s", url.QueryEscape(d.streamID), seq)
 	if err := os.WriteFile(filepath.Join(d.dir, filename), frag, 0o644); err != nil {
 		return fmt.Errorf("write fragment: %w", err)
 	}
diff --git a/libdash/mpd.go b/libdash/mpd.go
index 6037958..ddf76c3 100644
--- a/libdash/mpd.go
+++ b/libdash/mpd.go
@@ -2,6 +2,7 @@ package libdash
 
 import (
 	"fmt"
+	"net/url"
 	"strings"
 	"time"
 )
@@ -85,6 +86,7 @@ func buildMPD(in manifestInputs) []byte {
 		`bandwidth="%d" width="%d" height="%d" frameRate="30">`+"\n",
 		codecStr, bandwidth, in.width, in.height)
 
+	name := url.PathEscape(url.QueryEscape(in.streamID)) //reference to the escaped file name
 	fmt.Fprintf(&sb, `        <SegmentTemplate `+
 		`timescale="%d" `+
 		`duration="%d" `+
@@ -94,7 +96,7 @@ func buildMPD(in manifestInputs) []byte {
 		in.timescale,
 		maxSegDur,
 		startNumber,
-		in.streamID, in.streamID,
+		name, name,
 	)
 
 	sb.WriteString(`      </Representation>` + "\n")
diff --git a/libhls/hls.go b/libhls/hls.go
index 27d608f..96b361c 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"net/url"
 	"os"
 	"path/filepath"
 	"sync"
@@ -612,7 +613,7 @@ func avccToAnnexB(buf []byte) []byte {
 // openSegment creates a fresh .ts file and writes an initial PAT/PMT.
 func (hls *HLS) openSegment(startDTS uint64) error {
 	hls.mu.Lock()
-	name := fmt.Sprintf("%s-%d.ts", hls.streamID, hls.nextSeq)
+	name := fmt.Sprintf("%s-%d.ts", url.QueryEscape(hls.streamID), hls.nextSeq)
 	hls.mu.Unlock()
 	fullPath := filepath.Join(hls.dir, name)
 	f, err := os.Create(fullPath)
diff --git a/libhls/m3u8.go b/libhls/m3u8.go
index 5116789..e8ec580 100644
--- a/libhls/m3u8.go
+++ b/libhls/m3u8.go
@@ -3,6 +3,7 @@ package libhls
 import (
 	"fmt"
 	"math"
+	"net/url"
 	"strings"
 	"time"
 )
@@ -39,7 +40,7 @@ func buildPlaylist(segments []segmentInfo) []byte {
 	fmt.Fprintf(&sb, "#EXT-X-MEDIA-SEQUENCE:%d\n", segments[0].seq)
 	sb.WriteString("#EXT-X-ALLOW-CACHE:NO\n")
 	for _, s := range segments {
-		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, s.filename)
+		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, url.PathEscape(s.filename))
 	}
 	return []byte(sb.String())
 }
@@ -110,7 +111,7 @@ func buildLLPlaylist(in playlistInputs) []byte {
 		for _, p := range s.parts {
 			writePartTag(&sb, p, s.filename)
 		}
-		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, s.filename)
+		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, url.PathEscape(s.filename))
 	}
 
 	//Emit in-progress segment's parts (no EXTINF yet — segment isn't
@@ -125,7 +126,7 @@ func buildLLPlaylist(in playlistInputs) []byte {
 			}
 		}
 		fmt.Fprintf(&sb, "#EXT-X-PRELOAD-HINT:TYPE=PART,URI=\"%s\",BYTERANGE-START=%d\n",
-			in.currentName, preloadOffset)
+			url.PathEscape(in.currentName), preloadOffset)
 	}
 
 	return []byte(sb.String())
@@ -133,7 +134,7 @@ func buildLLPlaylist(in playlistInputs) []byte {
 
 func writePartTag(sb *strings.Builder, p partInfo, uri string) {
 	fmt.Fprintf(sb, "#EXT-X-PART:DURATION=%.3f,URI=\"%s\",BYTERANGE=\"%d@%d\"",
-		p.duration, uri, p.byteLength, p.byteOffset)
+		p.duration, url.PathEscape(uri), p.byteLength, p.byteOffset)
 	if p.independent {
 		sb.WriteString(",INDEPENDENT=YES")
 	}
-- 
2.43.0


From e3f37ac3f6671d6e166b78de8acdae9318fefb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 048/106] fix: find streams with escaped characters in their
 name over HTTP

---
 librtmp/server.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index d063ec7..633afa9 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -205,9 +205,8 @@ func parseFlvURL(rawPath string) (appName, roomID string, ok bool) {
 	if err != nil {
 		return "", "", false
 	}
-	p := path.Clean(u.Path)
-	parts := strings.Split(strings.TrimPrefix(p, "/"), "/")
-	if len(parts) != 2 {
+	parts, ok := pathParts(u)
+	if !ok || len(parts) != 2 {
 		return "", "", false
 	}
 	if !strings.HasSuffix(parts[1], ".flv") {
@@ -221,6 +220,19 @@ func parseFlvURL(rawPath string) (appName, roomID string, ok bool) {
 	return appName, roomID, true
 }
 
+// pathParts splits an URL's path at its slashes and unescapes the parts.
+func pathParts(u *url.URL) (parts []string, ok bool) {
+	p := path.Clean(u.EscapedPath())
+	parts = strings.Split(strings.TrimPrefix(p, "/"), "/")
+	for i := range parts {
+		var err error
+		if parts[i], err = url.PathUnescape(parts[i]); err != nil {
+			return nil, false
+		}
+	}
+	return parts, true
+}
+
 func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 	flvListener, err := newTCPListener(s.flvAddress)
 	if err != nil {
@@ -230,7 +242,7 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 	mux := http.NewServeMux()
 	mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
 		//http://{domain}:{port}/{app}/{roomID}.flv[?query]
-		appName, roomID, ok := parseFlvURL(r.URL.Path)
+		appName, roomID, ok := parseFlvURL(r.URL.EscapedPath())
 		if !ok {
 			w.WriteHeader(http.StatusBadRequest)
 			return
@@ -316,9 +328,8 @@ func parseHlsURL(rawPath string) (appName, roomID, file string, ok bool) {
 	if err != nil {
 		return "", "", "", false
 	}
-	p := path.Clean(u.Path)
-	parts := strings.Split(strings.TrimPrefix(p, "/"), "/")
-	if len(parts) != 3 {
+	parts, ok := pathParts(u)
+	if !ok || len(parts) != 3 {
 		return "", "", "", false
 	}
 	appName, roomID, file = parts[0], parts[1], parts[2]
@@ -338,7 +349,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 	mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
 		//http://{domain}:{port}/{app}/{roomID}/index.m3u8
 		//http://{domain}:{port}/{app}/{roomID}/{seq}.ts
-		appName, roomID, file, ok := parseHlsURL(r.URL.Path)
+		appName, roomID, file, ok := parseHlsURL(r.URL.EscapedPath())
 		if !ok {
 			w.WriteHeader(http.StatusBadRequest)
 			return
-- 
2.43.0


From b5415d21a69d242088800fa865834a7a30c6b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 049/106] fix: keep the default segment directories of
 different apps apart

---
 README.md         | 2 +-
 README.zh.md      | 2 +-
 librtmp/app.go    | 8 ++++++--
 librtmp/server.go | 2 +-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/README.md b/README.md
index 5aebd96..659b739 100644
--- a/README.md
+++ b/README.md
@@ -233,7 +233,7 @@ PDFs of the specs each package implements live in `doc/`:
 
 ## Known rough edges
 
-- **HLS hardcoded segment dir** — `WithHls(addr)` uses `./data` by default; override via `SetHlsDir(app, dir)`.
+- **HLS hardcoded segment dir** — `WithHls(addr)` uses `./data/<app>` by default; override via `SetHlsDir(app, dir)`.
 - **DASH init segment is video-only** — audio AdaptationSet not yet wired.
 - **SRT key management** (KMREQ + PBKDF2 + AES Key Wrap) is a TODO; passphrase-less publishers work.
 - **WebRTC / WHIP / WHEP** — not implemented; would require ICE + DTLS + SRTP. Closest fit is `pion/webrtc` if you really need it.
diff --git a/README.zh.md b/README.zh.md
index b477c2a..e14c11a 100644
--- a/README.zh.md
+++ b/README.zh.md
@@ -233,7 +233,7 @@ go tool cover -html=cov.out                  # 浏览器查看分行高亮
 
 ## 已知粗糙之处
 
-- **HLS 默认切片目录硬编码** —— `WithHls(addr)` 默认用 `./data`；通过 `SetHlsDir(app, dir)` 覆盖。
+- **HLS 默认切片目录硬编码** —— `WithHls(addr)` 默认用 `./data/<app>`；通过 `SetHlsDir(app, dir)` 覆盖。
 - **DASH init segment 仅含视频** —— audio AdaptationSet 暂未接入。
 - **SRT 密钥管理**（KMREQ + PBKDF2 + AES Key Wrap）是 TODO；无密码的发布者可正常工作。
 - **WebRTC / WHIP / WHEP** —— 未实现；需要 ICE + DTLS + SRTP 整套，建议直接用 `pion/webrtc`。
diff --git a/librtmp/app.go b/librtmp/app.go
index 16f5dfc..1ce8c90 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -1,6 +1,8 @@
 package librtmp
 
 import (
+	"net/url"
+	"path/filepath"
 	"sync"
 
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -23,13 +25,15 @@ type App struct {
 }
 
 func NewApp(appName string) *App {
+	//Apps may have streams of the same name.
+	dir := filepath.Join("data", url.QueryEscape(appName))
 	return &App{
 		appName: appName,
 		rooms:   &sync.Map{},
 		hlsMode: libhls.NONE,
-		hlsDir:  "./data",
+		hlsDir:  dir,
 		hls:     &sync.Map{},
-		dashDir: "./data",
+		dashDir: dir,
 		dash:    &sync.Map{},
 	}
 }
diff --git a/librtmp/server.go b/librtmp/server.go
index 633afa9..91805e2 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -111,7 +111,7 @@ func (s *server) SetHlsMode(appName string, mode libhls.HLS_MODE) *server {
 }
 
 // SetHlsDir configures the directory where the given app stores HLS
-// and DASH segments. If unset it defaults to "./data".
+// and DASH segments. If unset it defaults to "./data/<app>".
 func (s *server) SetHlsDir(appName string, dir string) *server {
 	if _, ok := s.apps[appName]; !ok {
 		panic("appName does not exist.")
-- 
2.43.0


From 1fc3b412c60aac525fe44a5399e3414b57d926db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:20 +0000
Subject: [PATCH 050/106] fix: mark the track's media header as the version it
 is written in

---
 libmp4/init_segment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmp4/init_segment.go b/libmp4/init_segment.go
index c033cb3..0fbdfd8 100644
--- a/libmp4/init_segment.go
+++ b/libmp4/init_segment.go
@@ -111,7 +111,7 @@ func mdhd(timescale uint32) []byte {
 }
 
 func hdlr(handlerType, name string) []byte {
-	body := FullBoxHeader(0, 0)
+	body := FullBoxHeader(1, 0)
 	body = appendU32(body, 0) //pre_defined
 	body = append(body, []byte(handlerType)...)
 	body = append(body, make([]byte, 12)...) //reserved (3 × uint32)
-- 
2.43.0


From 3c54f366c8d62426592f54803e555146014ae5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:22 +0000
Subject: [PATCH 051/106] fix: describe the codec of a DASH stream by the
 configuration record it was published with

---
 libdash/dash.go        | 3 +++
 libmp4/init_segment.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 771694f..6addfb7 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -420,6 +420,9 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 		Height:    h,
 		SPS:       sps,
 		PPS:       pps,
+		//It may have further parameter sets or a NAL length size other
+		//than 4, which is what the samples are framed with.
+		AVCCRecord: append([]byte(nil), record...),
 	})
 	d.mu.Unlock()
 
diff --git a/libmp4/init_segment.go b/libmp4/init_segment.go
index 0fbdfd8..c77c771 100644
--- a/libmp4/init_segment.go
+++ b/libmp4/init_segment.go
@@ -11,6 +11,9 @@ type InitSegmentParams struct {
 	Height    uint16
 	SPS       []byte //one SPS NAL (without the 0x000001 start code)
 	PPS       []byte //one PPS NAL (without the 0x000001 start code)
+	// AVCCRecord, if given, is the publisher's
+	// AVCDecoderConfigurationRecord, embedded as it is.
+	AVCCRecord []byte
 }
 
 // BuildInitSegment returns a CMAF-compliant initialisation segment
@@ -198,7 +201,11 @@ func avc1(p InitSegmentParams) []byte {
 	body = appendU16(body, 0x0018)                  //depth (24)
 	body = appendU16(body, 0xffff)                  //pre_defined = -1
 
-	body = append(body, avcC(p.SPS, p.PPS)...)
+	if p.AVCCRecord != nil {
+		body = append(body, Box{Type: FourCC("avcC"), Body: p.AVCCRecord}.Bytes()...)
+	} else {
+		body = append(body, avcC(p.SPS, p.PPS)...)
+	}
 	return Box{Type: FourCC("avc1"), Body: body}.Bytes()
 }
 
-- 
2.43.0


From d074dab34bf3f3975e91f95ee2a872e292bcfe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 052/106] fix: name the sample entry the DASH init segment uses
 for HEVC in the manifest

---
 libdash/dash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 6addfb7..94527b6 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -52,7 +52,7 @@ type DASH struct {
 	// Decoder configuration learned from the video sequence header.
 	mu          sync.Mutex
 	cond        *sync.Cond
-	codec       string //"avc1.42E01E" or "hvc1.…" derived at init time
+	codec       string //"avc1.42E01E" or "hev1.…" derived at init time
 	isHEVC      bool
 	sps         []byte
 	pps         []byte
@@ -259,7 +259,7 @@ func (d *DASH) handleHEVCSequenceHeader(record []byte) error {
 		//Fall back to a placeholder codec string; many players accept
 		//missing dimensions when the in-band parameter sets later
 		//replenish them.
-		codec = "hvc1.1.6.L93.B0"
+		codec = "hev1.1.6.L93.B0"
 	}
 	d.mu.Lock()
 	d.isHEVC = true
@@ -299,7 +299,7 @@ func parseHEVCDCRDimensions(src []byte) (w, h uint16, codec string, err error) {
 	}
 	profileIDC := src[1] & 0x1F
 	levelIDC := src[12]
-	codec = fmt.Sprintf("hvc1.%d.6.L%d.B0", profileIDC, levelIDC)
+	codec = fmt.Sprintf("hev1.%d.6.L%d.B0", profileIDC, levelIDC)
 
 	off := 22
 	if off >= len(src) {
-- 
2.43.0


From 78eb6bc5ef2099e776748b122562bece3d1380e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 053/106] fix: let each DASH segment last until the next one
 starts and keep those of one sample

---
 libdash/dash.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 94527b6..8f6a218 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -174,7 +174,7 @@ func (d *DASH) Start(gopReader TagReader) error {
 	if err := os.MkdirAll(d.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
-	defer d.flushCurrent()
+	defer d.flushCurrent(nil)
 
 	for {
 		if d.stopRequested() {
@@ -225,7 +225,7 @@ func (d *DASH) Start(gopReader TagReader) error {
 			if len(d.currentSamples) > 0 {
 				curDur := dts - d.currentSamples[0].dts
 				if curDur*1000 >= uint64(d.targetDur/time.Millisecond)*1000 {
-					if err := d.flushCurrent(); err != nil {
+					if err := d.flushCurrent(&dts); err != nil {
 						fmt.Printf("dash: flush segment: %v\n", err)
 					}
 				}
@@ -441,12 +441,10 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 
 // flushCurrent closes the in-progress segment, builds an fMP4 fragment
 // and writes it under <dir>/<streamID>-<seq>.m4s. Old segments are
-// reaped to keep windowSize on disk.
-func (d *DASH) flushCurrent() error {
-	if len(d.currentSamples) < 2 {
-		//Need at least one duration interval. Drop a single-sample
-		//tail rather than emit a malformed fragment.
-		d.currentSamples = d.currentSamples[:0]
+// reaped to keep windowSize on disk. nextDTS is when the next segment
+// starts, nil at the end of the stream.
+func (d *DASH) flushCurrent(nextDTS *uint64) error {
+	if len(d.currentSamples) == 0 {
 		return nil
 	}
 	d.mu.Lock()
@@ -459,8 +457,10 @@ func (d *DASH) flushCurrent() error {
 		var dur uint64
 		if i+1 < len(d.currentSamples) {
 			dur = d.currentSamples[i+1].dts - s.dts
+		} else if nextDTS != nil {
+			dur = *nextDTS - s.dts
 		} else {
-			//Last sample: use previous interval as a best-guess.
+			//Last sample of the stream: use previous interval as a best-guess.
 			if i > 0 {
 				dur = s.dts - d.currentSamples[i-1].dts
 			} else {
-- 
2.43.0


From f5ab4bc0d204ee55cd58f6e183f04586965c9509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:57 +0000
Subject: [PATCH 054/106] fix: leave no DASH segment behind that is written
 while the stream stops

---
 libdash/dash.go | 127 ++++++++++++++++++++++++++++--------------------
 1 file changed, 75 insertions(+), 52 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 8f6a218..ff7612f 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -67,6 +67,10 @@ type DASH struct {
 	currentSamples []sampleWithTime
 	availabilityStart time.Time
 
+	// writeMu is held while Start's goroutine handles a tag, so that Stop
+	// leaves nothing behind that is written later.
+	writeMu sync.Mutex
+
 	ready     chan struct{}
 	readyOnce sync.Once
 	stopped   int32
@@ -143,6 +147,8 @@ func (d *DASH) Stop() {
 	if !atomic.CompareAndSwapInt32(&d.stopped, 0, 1) {
 		return
 	}
+	d.writeMu.Lock()
+	defer d.writeMu.Unlock()
 	d.mu.Lock()
 	segs := append([]segmentInfo(nil), d.segments...)
 	d.segments = nil
@@ -174,7 +180,13 @@ func (d *DASH) Start(gopReader TagReader) error {
 	if err := os.MkdirAll(d.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
-	defer d.flushCurrent(nil)
+	defer func() {
+		d.writeMu.Lock()
+		defer d.writeMu.Unlock()
+		if !d.stopRequested() {
+			d.flushCurrent(nil)
+		}
+	}()
 
 	for {
 		if d.stopRequested() {
@@ -188,65 +200,76 @@ func (d *DASH) Start(gopReader TagReader) error {
 		if !ok {
 			continue
 		}
-		v, ok := tag.(*libflv.VideoTag)
-		if !ok {
-			continue //audio not yet supported in this minimal libdash
-		}
-		if v.CodecID != libflv.FLV_VIDEO_AVC && v.CodecID != libflv.FLV_VIDEO_HEVC {
-			continue
-		}
+		d.writeTag(tag)
+	}
+}
 
-		switch v.AVCPacketType {
-		case libflv.AVC_SEQUENCE_HEADER:
-			if v.CodecID == libflv.FLV_VIDEO_HEVC {
-				if err := d.handleHEVCSequenceHeader(v.Data()); err != nil {
-					fmt.Printf("dash: parse HEVC sequence header: %v\n", err)
-				}
-			} else {
-				if err := d.handleSequenceHeader(v.Data()); err != nil {
-					fmt.Printf("dash: parse AVC sequence header: %v\n", err)
-				}
+// writeTag adds one tag to the current segment, writing that out when it
+// is complete.
+func (d *DASH) writeTag(tag libflv.Tag) {
+	d.writeMu.Lock()
+	defer d.writeMu.Unlock()
+	if d.stopRequested() {
+		return
+	}
+	v, ok := tag.(*libflv.VideoTag)
+	if !ok {
+		return //audio not yet supported in this minimal libdash
+	}
+	if v.CodecID != libflv.FLV_VIDEO_AVC && v.CodecID != libflv.FLV_VIDEO_HEVC {
+		return
+	}
+
+	switch v.AVCPacketType {
+	case libflv.AVC_SEQUENCE_HEADER:
+		if v.CodecID == libflv.FLV_VIDEO_HEVC {
+			if err := d.handleHEVCSequenceHeader(v.Data()); err != nil {
+				fmt.Printf("dash: parse HEVC sequence header: %v\n", err)
+			}
+		} else {
+			if err := d.handleSequenceHeader(v.Data()); err != nil {
+				fmt.Printf("dash: parse AVC sequence header: %v\n", err)
 			}
-			continue
-		case libflv.AVC_NALU:
-			//Sample data — fall through.
-		default:
-			continue
 		}
+		return
+	case libflv.AVC_NALU:
+		//Sample data — fall through.
+	default:
+		return
+	}
+
+	dts := uint64(v.GetTagInfo().TimeStamp) //ms
+	cts := v.CompositionTime()              //ms
+	isKey := v.FrameType == libflv.KEY_FRAME
 
-		dts := uint64(v.GetTagInfo().TimeStamp) //ms
-		cts := v.CompositionTime()              //ms
-		isKey := v.FrameType == libflv.KEY_FRAME
-
-		//Rotate on keyframes once the current segment has hit
-		//targetDur. The first sample of any segment must itself be a
-		//keyframe so the segment is independently decodable.
-		if isKey {
-			if len(d.currentSamples) > 0 {
-				curDur := dts - d.currentSamples[0].dts
-				if curDur*1000 >= uint64(d.targetDur/time.Millisecond)*1000 {
-					if err := d.flushCurrent(&dts); err != nil {
-						fmt.Printf("dash: flush segment: %v\n", err)
-					}
+	//Rotate on keyframes once the current segment has hit
+	//targetDur. The first sample of any segment must itself be a
+	//keyframe so the segment is independently decodable.
+	if isKey {
+		if len(d.currentSamples) > 0 {
+			curDur := dts - d.currentSamples[0].dts
+			if curDur*1000 >= uint64(d.targetDur/time.Millisecond)*1000 {
+				if err := d.flushCurrent(&dts); err != nil {
+					fmt.Printf("dash: flush segment: %v\n", err)
 				}
 			}
-		} else if len(d.currentSamples) == 0 {
-			//Drop tags until the first IDR arrives.
-			continue
-		}
-		if d.initBytes == nil {
-			//Sequence header hasn't arrived yet — without SPS/PPS we
-			//can't produce a playable stream.
-			continue
 		}
-
-		d.currentSamples = append(d.currentSamples, sampleWithTime{
-			dts:  dts,
-			cts:  cts,
-			data: append([]byte(nil), v.Data()...),
-			key:  isKey,
-		})
+	} else if len(d.currentSamples) == 0 {
+		//Drop tags until the first IDR arrives.
+		return
 	}
+	if d.initBytes == nil {
+		//Sequence header hasn't arrived yet — without SPS/PPS we
+		//can't produce a playable stream.
+		return
+	}
+
+	d.currentSamples = append(d.currentSamples, sampleWithTime{
+		dts:  dts,
+		cts:  cts,
+		data: append([]byte(nil), v.Data()...),
+		key:  isKey,
+	})
 }
 
 // handleHEVCSequenceHeader parses the FLV-carried
-- 
2.43.0


From f8e76c859430f4b679d2e0c689f30ca6cf373098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:31 +0000
Subject: [PATCH 055/106] fix: start a new PES packet where HLS audio
 timestamps jump

---
 libhls/hls.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libhls/hls.go b/libhls/hls.go
index 96b361c..009c1cc 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -452,6 +452,16 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			hls.align.align(&pes.DTS, uint32(90000*1024/rate))
 			pes.PTS = pes.DTS
 
+			if hls.align.frameNum == 1 && hls.audioCache.CacheNum() > 0 {
+				//The time of a frame follows from the one before in the
+				//same PES, so this one cannot join those cached.
+				frame, pts := pes.Data, pes.PTS
+				_, pes.PTS, pes.Data = hls.audioCache.GetFrame()
+				pes.Data = append([]byte(nil), pes.Data...)
+				pes.DTS = pes.PTS
+				hls.audioCache.Cache(frame, pts)
+				return pes, pid, false, false
+			}
 			hls.audioCache.Cache(pes.Data, pes.PTS)
 			if hls.audioCache.CacheNum() < cache_max_frames {
 				return nil, 0, false, true
-- 
2.43.0


From 3592acf1703dc587c12d341e1c181cf445f341a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 056/106] fix: write the last audio frames of an HLS stream
 when it ends

---
 libhls/hls.go | 50 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 009c1cc..b32a53b 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -318,6 +318,7 @@ func (hls *HLS) Start(gopReader TagReader) (err error) {
 		hls.writeMu.Lock()
 		defer hls.writeMu.Unlock()
 		if !hls.stopRequested() {
+			hls.flushAudio()
 			hls.finaliseCurrent()
 		}
 	}()
@@ -386,20 +387,8 @@ func (hls *HLS) writeTag(tag libflv.Tag) error {
 		}
 	}
 
-	firstTS := true
-	for {
-		finish, muxErr := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, videoFrameKey && firstTS, pes.DTS, hls.currentWriter)
-		if muxErr != nil {
-			fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
-			return nil
-		}
-		firstTS = false
-		if finish {
-			break
-		}
-	}
-	if pes.DTS > hls.currentEndDTS {
-		hls.currentEndDTS = pes.DTS
+	if !hls.muxPES(pes, pid, videoFrameKey) {
+		return nil
 	}
 
 	//LL-HLS partial-segment boundary check. Close the current part
@@ -419,6 +408,39 @@ func (hls *HLS) writeTag(tag libflv.Tag) error {
 	return nil
 }
 
+// muxPES writes one PES packet to the current segment.
+func (hls *HLS) muxPES(pes *libmpeg.PES, pid uint16, videoFrameKey bool) bool {
+	firstTS := true
+	for {
+		finish, muxErr := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, videoFrameKey && firstTS, pes.DTS, hls.currentWriter)
+		if muxErr != nil {
+			fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
+			return false
+		}
+		firstTS = false
+		if finish {
+			break
+		}
+	}
+	if pes.DTS > hls.currentEndDTS {
+		hls.currentEndDTS = pes.DTS
+	}
+	return true
+}
+
+// flushAudio writes the audio frames still cached to the current segment.
+func (hls *HLS) flushAudio() {
+	if hls.currentFile == nil || hls.audioCache.CacheNum() == 0 {
+		return
+	}
+	pes := hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
+	_, pes.PTS, pes.Data = hls.audioCache.GetFrame()
+	pes.DTS = pes.PTS
+	pes.Index = 0
+	pes.HeaderIndex = 0
+	hls.muxPES(pes, libmpeg.AUDIO_PID, false)
+}
+
 // toPES lifts an FLV tag into a libmpeg.PES plus routing metadata. It
 // returns skip=true when the tag should be dropped (unsupported codec,
 // sequence header, or audio still buffering in the ADTS cache).
-- 
2.43.0


From 0959ce03d76ae6bcb080ad7b7f5436567b714c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:44 +0000
Subject: [PATCH 057/106] fix: give HEVC random access points in HLS their
 parameter sets

---
 libhls/hls.go | 97 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 79 insertions(+), 18 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index b32a53b..77662ec 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -71,6 +71,7 @@ type HLS struct {
 	Cc         map[uint16]uint8 //key:pid — reset at each segment boundary
 	Ah         *libaac.AACHeader
 	AvcParser  *libavc.Parser
+	hevc       hevcConfig
 	audioCache *audioCache
 	align      *align
 
@@ -549,9 +550,9 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.StreamType = 0x24
 
 			if pv.FrameType == libflv.KEY_FRAME && pv.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
-				//HEVCDecoderConfigurationRecord — publishers also send
-				//VPS/SPS/PPS in-band ahead of every IDR, so we don't
-				//need to memoise them for the muxer.
+				if err := hls.hevc.parse(pv.Data()); err != nil {
+					fmt.Printf("parse hevc header error:%+v\n", err)
+				}
 				return nil, 0, false, true
 			}
 			if pv.AVCPacketType != libflv.AVC_NALU {
@@ -566,7 +567,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
 			pes.HeaderIndex = 0
-			pes.Data = avccToAnnexB(pv.Data())
+			pes.Data = hls.hevc.annexB(pv.Data())
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
 				pes.PTS = pes.DTS + uint64(int64(pv.CompositionTime())*90)
@@ -622,24 +623,84 @@ func newPAT(videoStreamType uint8) *libmpeg.PAT {
 	}
 }
 
-// avccToAnnexB rewrites a 4-byte length-prefixed NAL stream into an
-// AnnexB stream (start code 0x00000001 between NALs). Codec-agnostic —
-// works for both H.264 and HEVC since both use the same AVCC framing
-// in FLV.
-func avccToAnnexB(buf []byte) []byte {
+// hevcConfig is what an HEVCDecoderConfigurationRecord says about the
+// access units that follow it.
+type hevcConfig struct {
+	params  []byte //VPS, SPS, PPS, … with start codes
+	naluLen int    //bytes of a NALU's length prefix, 0: 4
+}
+
+var startCode = []byte{0x00, 0x00, 0x00, 0x01}
+
+// parse takes a record (ISO/IEC 14496-15 §8.3.3.1.2) in place of the
+// previous one.
+func (c *hevcConfig) parse(src []byte) error {
+	errShort := fmt.Errorf("HEVC decoder configuration record truncated")
+	if len(src) < 23 {
+		return errShort
+	}
+	params := []byte{}
+	rest := src[23:]
+	for arrays := int(src[22]); arrays > 0; arrays-- {
+		if len(rest) < 3 {
+			return errShort
+		}
+		nalus := int(rest[1])<<8 | int(rest[2])
+		rest = rest[3:]
+		for ; nalus > 0; nalus-- {
+			if len(rest) < 2 {
+				return errShort
+			}
+			n := int(rest[0])<<8 | int(rest[1])
+			rest = rest[2:]
+			if len(rest) < n {
+				return errShort
+			}
+			params = append(params, startCode...)
+			params = append(params, rest[:n]...)
+			rest = rest[n:]
+		}
+	}
+	c.params = params
+	c.naluLen = int(src[21]&0x03) + 1
+	return nil
+}
+
+// annexB rewrites a length-prefixed access unit into one with start codes
+// (0x00000001 before each NAL). A random access point that does not bring
+// its parameter sets along gets those of the record.
+func (c *hevcConfig) annexB(buf []byte) []byte {
+	prefix := c.naluLen
+	if prefix == 0 {
+		prefix = 4
+	}
+	aud := []byte{}
 	out := make([]byte, 0, len(buf)+16)
-	for off := 0; off+4 <= len(buf); {
-		size := int(buf[off])<<24 | int(buf[off+1])<<16 |
-			int(buf[off+2])<<8 | int(buf[off+3])
-		off += 4
-		if size <= 0 || off+size > len(buf) {
+	var irap, sps, pps bool
+	for len(buf) >= prefix {
+		size := 0
+		for _, b := range buf[:prefix] {
+			size = size<<8 + int(b)
+		}
+		buf = buf[prefix:]
+		if size <= 0 || size > len(buf) {
 			break
 		}
-		out = append(out, 0x00, 0x00, 0x00, 0x01)
-		out = append(out, buf[off:off+size]...)
-		off += size
+		nalType := buf[0] >> 1 & 0x3f
+		if nalType == 35 && len(out) == 0 {
+			aud = append(append(aud, startCode...), buf[:size]...)
+		} else {
+			out = append(append(out, startCode...), buf[:size]...)
+		}
+		irap = irap || nalType >= 16 && nalType <= 23
+		sps = sps || nalType == 33
+		pps = pps || nalType == 34
+		buf = buf[size:]
 	}
-	return out
+	if irap && !(sps && pps) {
+		aud = append(aud, c.params...)
+	}
+	return append(aud, out...)
 }
 
 // openSegment creates a fresh .ts file and writes an initial PAT/PMT.
-- 
2.43.0


From 8abf5616ec4089e54ceeb7aca467f327d39a0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:35 +0000
Subject: [PATCH 058/106] fix: start HLS segments at keyframes other than IDR
 pictures with parameter sets, too

---
 libavc/avc.go | 10 +++++++++-
 libhls/hls.go |  8 ++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index e4140f0..c98c6b5 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -128,11 +128,19 @@ func (parser *Parser) split(src []byte) (nalus [][]byte, err error) {
 // parameter sets: its own if it brings them along, else those of the
 // decoder configuration record.
 func (parser *Parser) GetAnnexbH264(src []byte, w io.Writer) error {
+	return parser.GetAnnexbFrame(src, false, w)
+}
+
+// GetAnnexbFrame is GetAnnexbH264 for access units whose container says
+// whether decoding can start there, as it can at a recovery point that is
+// no IDR picture.
+func (parser *Parser) GetAnnexbFrame(src []byte, key bool, w io.Writer) error {
 	nalus, err := parser.split(src)
 	if err != nil {
 		return err
 	}
-	var idr, sps, pps bool
+	var sps, pps bool
+	idr := key
 	for _, nalu := range nalus {
 		switch nalu[0] & 0x1f {
 		case nalu_type_idr:
diff --git a/libhls/hls.go b/libhls/hls.go
index 77662ec..5dbcefe 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -525,7 +525,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 				pes.Data = pv.Data()
 			} else {
 				buf := bytes.NewBuffer([]byte{})
-				if err := hls.AvcParser.GetAnnexbH264(pv.Data(), easyio.NewEasyWriter(buf)); err != nil {
+				if err := hls.AvcParser.GetAnnexbFrame(pv.Data(), videoKey, easyio.NewEasyWriter(buf)); err != nil {
 					fmt.Printf("AvcParser.GetAnnexbH264 error:%+v\n", err)
 					return nil, 0, false, true
 				}
@@ -567,7 +567,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
 			pes.HeaderIndex = 0
-			pes.Data = hls.hevc.annexB(pv.Data())
+			pes.Data = hls.hevc.annexB(pv.Data(), videoKey)
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
 				pes.PTS = pes.DTS + uint64(int64(pv.CompositionTime())*90)
@@ -669,7 +669,7 @@ func (c *hevcConfig) parse(src []byte) error {
 // annexB rewrites a length-prefixed access unit into one with start codes
 // (0x00000001 before each NAL). A random access point that does not bring
 // its parameter sets along gets those of the record.
-func (c *hevcConfig) annexB(buf []byte) []byte {
+func (c *hevcConfig) annexB(buf []byte, key bool) []byte {
 	prefix := c.naluLen
 	if prefix == 0 {
 		prefix = 4
@@ -697,7 +697,7 @@ func (c *hevcConfig) annexB(buf []byte) []byte {
 		pps = pps || nalType == 34
 		buf = buf[size:]
 	}
-	if irap && !(sps && pps) {
+	if (irap || key) && !(sps && pps) {
 		aud = append(aud, c.params...)
 	}
 	return append(aud, out...)
-- 
2.43.0


From 356421890fda1271fdc4d239d25eeb7f080b8cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 059/106] fix: end low-latency HLS parts where the next frame
 starts

---
 libhls/hls.go | 46 ++++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 5dbcefe..11a39e2 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -380,6 +380,18 @@ func (hls *HLS) writeTag(tag libflv.Tag) error {
 		return nil
 	}
 
+	//LL-HLS partial-segment boundary check. Close the current part
+	//once it has accumulated at least PART-TARGET seconds of media.
+	//Performed BEFORE muxing because its last frame lasts until this
+	//one: parts are consecutive in time, too. Audio is behind video,
+	//so only frames that advance the segment end a part.
+	if hls.llEnabled && pes.DTS >= hls.currentEndDTS {
+		partDur := float64(pes.DTS-hls.partStartDTS) / 90000.0
+		if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
+			hls.closeCurrentPart(pes.DTS, false)
+		}
+	}
+
 	//PAT/PMT periodicity: re-inject every psiInterval so clients
 	//that join decoding mid-segment find a PSI quickly.
 	if time.Since(hls.lastPSI) >= psiInterval {
@@ -388,35 +400,18 @@ func (hls *HLS) writeTag(tag libflv.Tag) error {
 		}
 	}
 
-	if !hls.muxPES(pes, pid, videoFrameKey) {
-		return nil
-	}
-
-	//LL-HLS partial-segment boundary check. Close the current part
-	//once it has accumulated at least PART-TARGET seconds of media
-	//or whenever a fresh keyframe arrived (so subsequent parts
-	//align with sub-GOP boundaries when the encoder emits short
-	//GOPs). Performed AFTER muxing so the just-written PES belongs
-	//to the part we're closing — the next part starts at the
-	//current write offset.
-	if hls.llEnabled && hls.currentFile != nil {
-		//Audio is behind video, so a part ends at the latest time seen.
-		partDur := float64(hls.currentEndDTS-hls.partStartDTS) / 90000.0
-		if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
-			hls.closeCurrentPart(hls.currentEndDTS, false)
-		}
-	}
+	hls.muxPES(pes, pid, videoFrameKey)
 	return nil
 }
 
 // muxPES writes one PES packet to the current segment.
-func (hls *HLS) muxPES(pes *libmpeg.PES, pid uint16, videoFrameKey bool) bool {
+func (hls *HLS) muxPES(pes *libmpeg.PES, pid uint16, videoFrameKey bool) {
 	firstTS := true
 	for {
 		finish, muxErr := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, videoFrameKey && firstTS, pes.DTS, hls.currentWriter)
 		if muxErr != nil {
 			fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
-			return false
+			return
 		}
 		firstTS = false
 		if finish {
@@ -426,7 +421,6 @@ func (hls *HLS) muxPES(pes *libmpeg.PES, pid uint16, videoFrameKey bool) bool {
 	if pes.DTS > hls.currentEndDTS {
 		hls.currentEndDTS = pes.DTS
 	}
-	return true
 }
 
 // flushAudio writes the audio frames still cached to the current segment.
@@ -811,6 +805,11 @@ func (hls *HLS) finaliseCurrent() {
 	if hls.currentFile == nil {
 		return
 	}
+	if hls.currentEndDTS <= hls.currentStartDTS {
+		//Never observed a second tick; assume a minimum so the
+		//playlist target duration calculation doesn't underflow.
+		hls.currentEndDTS = hls.currentStartDTS + uint64(hls.targetDur.Seconds()*90000)
+	}
 	//Flush any tail bytes since the last part boundary into one final
 	//part, so LL-HLS clients have a complete partial-segment record
 	//for this MSN.
@@ -824,11 +823,6 @@ func (hls *HLS) finaliseCurrent() {
 	hls.currentWriter = nil
 
 	duration := float64(hls.currentEndDTS-hls.currentStartDTS) / 90000.0
-	if duration <= 0 {
-		//Never observed a second tick; assume a minimum so the
-		//playlist target duration calculation doesn't underflow.
-		duration = float64(hls.targetDur) / float64(time.Second)
-	}
 
 	hls.mu.Lock()
 	seg := segmentInfo{
-- 
2.43.0


From 7afc9eaece283721d8a43fd89ed0b1aa70c8526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 060/106] fix: keep HLS audio timestamps right where the sample
 rate changes

---
 libhls/hls.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libhls/hls.go b/libhls/hls.go
index 11a39e2..bb55117 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -446,9 +446,15 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 		switch pa.SoundFormat {
 		case libflv.FLV_AUDIO_AAC:
 			if pa.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
+				rate := hls.Ah.SampleRate
 				if err := hls.Ah.Parse(pa.Data()); err != nil {
 					fmt.Printf("parse aac header error:%+v\n", err)
 				}
+				if hls.Ah.SampleRate != rate {
+					//Frames last differently from here on: the next one
+					//does not continue those before.
+					hls.align = &align{}
+				}
 				return nil, 0, false, true
 			}
 			pid = libmpeg.AUDIO_PID
-- 
2.43.0


From 409f3d1cd1339d81b2b2471592bb1b2d2a2f73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 061/106] fix: write the handler box as version 0

---
 libmp4/init_segment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmp4/init_segment.go b/libmp4/init_segment.go
index c77c771..dbce7f1 100644
--- a/libmp4/init_segment.go
+++ b/libmp4/init_segment.go
@@ -114,7 +114,7 @@ func mdhd(timescale uint32) []byte {
 }
 
 func hdlr(handlerType, name string) []byte {
-	body := FullBoxHeader(1, 0)
+	body := FullBoxHeader(0, 0)
 	body = appendU32(body, 0) //pre_defined
 	body = append(body, []byte(handlerType)...)
 	body = append(body, make([]byte, 12)...) //reserved (3 × uint32)
-- 
2.43.0


From 5601307929cc8b4da2b5d18d0516fffeecc341ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 062/106] fix: announce a next track ID above the track in use

---
 libmp4/init_segment.go      | 6 +++---
 libmp4/init_segment_hevc.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmp4/init_segment.go b/libmp4/init_segment.go
index dbce7f1..0563c71 100644
--- a/libmp4/init_segment.go
+++ b/libmp4/init_segment.go
@@ -45,7 +45,7 @@ func ftyp() []byte {
 // moov is the top-level header for the init segment.
 func moov(p InitSegmentParams) []byte {
 	return container("moov",
-		mvhd(p.Timescale),
+		mvhd(p.Timescale, p.TrackID),
 		trak(p),
 		mvex(p.TrackID),
 	)
@@ -54,7 +54,7 @@ func moov(p InitSegmentParams) []byte {
 // mvhd carries movie-wide defaults. We use version 1 so timestamp /
 // duration fields are 64 bits — useful when timescale is 90000 and
 // stream length isn't known up front.
-func mvhd(timescale uint32) []byte {
+func mvhd(timescale, trackID uint32) []byte {
 	body := FullBoxHeader(1, 0)
 	body = appendU64(body, 0)               //creation_time
 	body = appendU64(body, 0)               //modification_time
@@ -69,7 +69,7 @@ func mvhd(timescale uint32) []byte {
 		body = appendU32(body, v)
 	}
 	body = append(body, make([]byte, 24)...) //pre_defined (6 × uint32)
-	body = appendU32(body, 2)                //next_track_ID
+	body = appendU32(body, trackID+1)        //next_track_ID
 	return Box{Type: FourCC("mvhd"), Body: body}.Bytes()
 }
 
diff --git a/libmp4/init_segment_hevc.go b/libmp4/init_segment_hevc.go
index 6409fe3..e6345c4 100644
--- a/libmp4/init_segment_hevc.go
+++ b/libmp4/init_segment_hevc.go
@@ -25,7 +25,7 @@ func BuildHEVCInitSegment(p HEVCInitParams) []byte {
 
 func hevcMoov(p HEVCInitParams) []byte {
 	return container("moov",
-		mvhd(p.Timescale),
+		mvhd(p.Timescale, p.TrackID),
 		hevcTrak(p),
 		mvex(p.TrackID),
 	)
-- 
2.43.0


From 63aeeb05c82f7305a2aa8c62aae64906ebfd17e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 063/106] fix: continue the DASH timeline when 32-bit
 timestamps wrap

---
 libdash/dash.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index ff7612f..14bfdb9 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -65,6 +65,8 @@ type DASH struct {
 	segments    []segmentInfo
 	nextSeq     int
 	currentSamples []sampleWithTime
+	dts            uint64 //decode time of the last sample
+	timed          bool   //dts is set
 	availabilityStart time.Time
 
 	// writeMu is held while Start's goroutine handles a tag, so that Stop
@@ -238,7 +240,7 @@ func (d *DASH) writeTag(tag libflv.Tag) {
 		return
 	}
 
-	dts := uint64(v.GetTagInfo().TimeStamp) //ms
+	dts := d.decodeTime(v.GetTagInfo().TimeStamp) //ms
 	cts := v.CompositionTime()              //ms
 	isKey := v.FrameType == libflv.KEY_FRAME
 
@@ -272,6 +274,17 @@ func (d *DASH) writeTag(tag libflv.Tag) {
 	})
 }
 
+// decodeTime extends a tag's 32-bit timestamp, which wraps around, to the
+// 64-bit timeline of the media segments.
+func (d *DASH) decodeTime(ts uint32) uint64 {
+	if !d.timed {
+		d.timed, d.dts = true, uint64(ts)
+	} else {
+		d.dts += uint64(int64(int32(ts - uint32(d.dts))))
+	}
+	return d.dts
+}
+
 // handleHEVCSequenceHeader parses the FLV-carried
 // HEVCDecoderConfigurationRecord. We pull width/height by walking the
 // embedded SPS array, and embed the entire DCR verbatim into the
-- 
2.43.0


From c5042cbe1a4ab3a551434cc3eec2b6c203140ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 064/106] fix: leave the DASH init segment alone when its
 header is repeated

---
 libdash/dash.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdash/dash.go b/libdash/dash.go
index 14bfdb9..4027d33 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -13,6 +13,7 @@
 package libdash
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"net/url"
@@ -56,6 +57,7 @@ type DASH struct {
 	isHEVC      bool
 	sps         []byte
 	pps         []byte
+	record      []byte //the last sequence header
 	hvccRecord  []byte //full HEVCDecoderConfigurationRecord, HEVC only
 	width       uint16
 	height      uint16
@@ -224,6 +226,10 @@ func (d *DASH) writeTag(tag libflv.Tag) {
 
 	switch v.AVCPacketType {
 	case libflv.AVC_SEQUENCE_HEADER:
+		if d.initWritten && d.isHEVC == (v.CodecID == libflv.FLV_VIDEO_HEVC) && bytes.Equal(d.record, v.Data()) {
+			return //a repetition; players may be reading the init segment
+		}
+		d.record = append([]byte(nil), v.Data()...)
 		if v.CodecID == libflv.FLV_VIDEO_HEVC {
 			if err := d.handleHEVCSequenceHeader(v.Data()); err != nil {
 				fmt.Printf("dash: parse HEVC sequence header: %v\n", err)
-- 
2.43.0


From 4058306b115dbdec0dac8cece57bfdd78f8f39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 065/106] fix: bound the reference frame offsets read from an
 SPS

---
 libdash/dash.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libdash/dash.go b/libdash/dash.go
index 4027d33..4789e01 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -663,6 +663,9 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 		_ = br.readSE()
 		_ = br.readSE()
 		n := br.readUE()
+		if n > 255 {
+			return 0, 0 //more than H.264 allows
+		}
 		for i := uint32(0); i < n; i++ {
 			_ = br.readSE()
 		}
-- 
2.43.0


From 9454c4b774f0a30f9387b4f2da5b9ca790e21670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 066/106] fix: read the dimensions of HEVC streams with
 temporal sub-layers

---
 libdash/dash.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 4789e01..2f68537 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -410,16 +410,17 @@ func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 	for i := 0; i < skipBytes; i++ {
 		_, _ = br.readBits(8)
 	}
-	if maxSubLayers > 1 {
-		flags, _ := br.readBits(2 * int(maxSubLayers-1))
-		_ = flags
-		//byte-align: the spec specifies padding.
-		for br.pos%8 != 0 {
-			_, _ = br.readBits(1)
+	if maxSubLayers > 0 { //sps_max_sub_layers_minus1
+		bits := 0
+		for i := uint32(0); i < maxSubLayers; i++ {
+			profile, _ := br.readBits(1) //sub_layer_profile_present_flag
+			level, _ := br.readBits(1)   //sub_layer_level_present_flag
+			bits += int(profile)*88 + int(level)*8
+		}
+		_, _ = br.readBits(2 * int(8-maxSubLayers)) //reserved_zero_2bits
+		for ; bits > 0; bits -= 8 {
+			_, _ = br.readBits(8)
 		}
-		//Each sub-layer-present flag bit pair brings up to 11 bytes
-		//of profile/level data. Without parsing the flags we can't
-		//cleanly skip them — bail if any are set.
 	}
 
 	_ = br.readUE() //seq_parameter_set_id
-- 
2.43.0


From 6d75bea58dbe03c10f886233a6d2538ac4215b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 067/106] fix: derive the DASH codec string of HEVC from its
 configuration

---
 libdash/dash.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 2f68537..019ca0e 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -16,6 +16,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math/bits"
 	"net/url"
 	"os"
 	"path/filepath"
@@ -339,9 +340,19 @@ func parseHEVCDCRDimensions(src []byte) (w, h uint16, codec string, err error) {
 		err = fmt.Errorf("HEVC DCR too short: %d", len(src))
 		return
 	}
-	profileIDC := src[1] & 0x1F
-	levelIDC := src[12]
-	codec = fmt.Sprintf("hev1.%d.6.L%d.B0", profileIDC, levelIDC)
+	//ISO 14496-15 annex E: profile space and profile, compatibility flags
+	//in reverse bit order, tier and level, constraint bytes up to the last
+	//that is not zero.
+	space := []string{"", "A", "B", "C"}[src[1]>>6]
+	tier := []string{"L", "H"}[src[1]>>5&1]
+	codec = fmt.Sprintf("hev1.%s%d.%X.%s%d", space, src[1]&0x1F, bits.Reverse32(binary.BigEndian.Uint32(src[2:6])), tier, src[12])
+	constraints := src[6:12]
+	for len(constraints) > 0 && constraints[len(constraints)-1] == 0 {
+		constraints = constraints[:len(constraints)-1]
+	}
+	for _, c := range constraints {
+		codec += fmt.Sprintf(".%X", c)
+	}
 
 	off := 22
 	if off >= len(src) {
@@ -411,14 +422,14 @@ func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 		_, _ = br.readBits(8)
 	}
 	if maxSubLayers > 0 { //sps_max_sub_layers_minus1
-		bits := 0
+		skip := 0
 		for i := uint32(0); i < maxSubLayers; i++ {
 			profile, _ := br.readBits(1) //sub_layer_profile_present_flag
 			level, _ := br.readBits(1)   //sub_layer_level_present_flag
-			bits += int(profile)*88 + int(level)*8
+			skip += int(profile)*88 + int(level)*8
 		}
 		_, _ = br.readBits(2 * int(8-maxSubLayers)) //reserved_zero_2bits
-		for ; bits > 0; bits -= 8 {
+		for ; skip > 0; skip -= 8 {
 			_, _ = br.readBits(8)
 		}
 	}
-- 
2.43.0


From 9d23731d93e1cd3d7551704f39f06ae13926d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 068/106] fix: write valid durations in the DASH manifest

---
 libdash/mpd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdash/mpd.go b/libdash/mpd.go
index ddf76c3..d72f133 100644
--- a/libdash/mpd.go
+++ b/libdash/mpd.go
@@ -59,11 +59,11 @@ func buildMPD(in manifestInputs) []byte {
 	fmt.Fprintf(&sb, `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" `+
 		`type="dynamic" `+
 		`profiles="urn:mpeg:dash:profile:isoff-live:2011" `+
-		`minBufferTime="PT%ds" `+
+		`minBufferTime="PT%dS" `+
 		`availabilityStartTime="%s" `+
 		`publishTime="%s" `+
-		`minimumUpdatePeriod="PT%ds" `+
-		`timeShiftBufferDepth="PT%ds" `+
+		`minimumUpdatePeriod="PT%dS" `+
+		`timeShiftBufferDepth="PT%dS" `+
 		`>`+"\n",
 		targetDurSec,
 		avail,
-- 
2.43.0


From 3c3c629f6ffb8115bdfdbcdb45367a2ee0b9c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 069/106] fix: segment streams with several SPS as DASH

---
 libdash/dash.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libdash/dash.go b/libdash/dash.go
index 019ca0e..9cc60c1 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -593,6 +593,13 @@ func parseAVCDCR(src []byte) (sps, pps []byte, width, height uint16, err error)
 	}
 	sps = append([]byte(nil), src[off:off+spsLen]...)
 	off += spsLen
+	for i := 1; i < int(numSPS); i++ { //further ones
+		if off+2 > len(src) {
+			err = fmt.Errorf("DCR truncated at SPS length")
+			return
+		}
+		off += 2 + int(binary.BigEndian.Uint16(src[off:off+2]))
+	}
 
 	if off >= len(src) {
 		err = fmt.Errorf("DCR truncated before PPS count")
-- 
2.43.0


From c52f31f8d4b462dcd73e39860ed0476392188b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 070/106] fix: decode percent-encoded stream names of RTSP URLs

---
 librtmp/rtsp_server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 42b816f..857dbc4 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"net/url"
 	"strconv"
 	"strings"
 	"sync"
@@ -630,7 +631,13 @@ func parseRTSPURL(raw string) (string, string) {
 	if len(parts) < 2 {
 		return "", ""
 	}
-	return parts[0], parts[1]
+	//The URL names the stream percent-encoded, as the HTTP ones do.
+	app, err1 := url.PathUnescape(parts[0])
+	room, err2 := url.PathUnescape(parts[1])
+	if err1 != nil || err2 != nil {
+		return "", ""
+	}
+	return app, room
 }
 
 // parseInterleavedChannels pulls "interleaved=N-M" out of a Transport
-- 
2.43.0


From a1a41e1e6741e918f1f078ea4ec734ae7630e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 071/106] fix: relay video of codecs without sequence headers

---
 librtmp/video.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/librtmp/video.go b/librtmp/video.go
index fb3edfb..aaa4567 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -88,11 +88,17 @@ func (vm *VideoMessage) Do() (err error) {
 		return nil
 	}
 	if vm.videoTag.FrameType == libflv.KEY_FRAME {
-		if vm.videoTag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
+		//codecs without packet type have neither headers nor end of sequence
+		packetType := uint8(libflv.AVC_NALU)
+		switch vm.videoTag.CodecID {
+		case libflv.FLV_VIDEO_AVC, libflv.FLV_VIDEO_HEVC, libflv.FLV_VIDEO_AV1:
+			packetType = vm.videoTag.AVCPacketType
+		}
+		if packetType == libflv.AVC_SEQUENCE_HEADER {
 			vm.rtmp.room.setVideoSequenceHeader(vm.videoTag)
 			vm.rtmp.room.GOP.WriteMeta(vm.videoTag)
 		} else {
-			if vm.videoTag.AVCPacketType == libflv.AVC_NALU {
+			if packetType == libflv.AVC_NALU {
 				//an end of sequence is marked as keyframe but is none
 				vm.rtmp.room.GOP.Reset()
 			}
-- 
2.43.0


From 87bffa130404c6960d4a7c5b001cf12dded5585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 072/106] fix: give late viewers the header of Opus streams

---
 librtmp/audio.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librtmp/audio.go b/librtmp/audio.go
index b87afe1..fb30f1d 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -86,7 +86,8 @@ func (am *AudioMessage) Do() (err error) {
 	if am.rtmp.room == nil || am.rtmp.role != rolePublisher {
 		return nil
 	}
-	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
+	if (am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC || am.audioTag.SoundFormat == libflv.FLV_AUDIO_OPUS) &&
+		am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
 		am.rtmp.room.setAudioSequenceHeader(am.audioTag)
 		am.rtmp.room.GOP.WriteMeta(am.audioTag)
 		fmt.Printf("write packet audio :%+v\n", am.audioTag)
-- 
2.43.0


From 8f285fca52e08e52652871585a1d58960bd4d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 073/106] fix: read spelled-out sampling rates and extended
 object types of AAC configurations

---
 libaac/aac.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/libaac/aac.go b/libaac/aac.go
index a4ad6bc..15141b1 100644
--- a/libaac/aac.go
+++ b/libaac/aac.go
@@ -14,15 +14,42 @@ type AACHeader struct {
 	Channel    uint8
 }
 
-//XXX: copyed from livego
+//Parse takes an AudioSpecificConfig (ISO/IEC 14496-3 §1.6.2.1) in place of
+//the previous one. A sampling frequency that is spelled out is taken if it
+//has an index, which is all that ADTS can state.
 func (ah *AACHeader) Parse(data []byte) (err error) {
-	if len(data) < 2 {
-		return fmt.Errorf("invalid data, length:%d", len(data))
+	var value uint64
+	left := len(data) * 8
+	bits := func(n int) (v uint8) {
+		left -= n
+		if left >= 0 {
+			v = uint8(value >> (64 - n))
+		}
+		value <<= n
+		return v
+	}
+	for i := 0; i < 8 && i < len(data); i++ {
+		value |= uint64(data[i]) << (56 - 8*i)
 	}
 
-	ah.ObjectType = (data[0] >> 3) & 0xff
-	ah.SampleRate = ((data[0] & 0x07) << 1) | data[1]>>7
-	ah.Channel = (data[1] >> 3) & 0x0f
+	objectType := bits(5)
+	if objectType == 31 {
+		objectType = 32 + bits(6)
+	}
+	sampleRate := bits(4)
+	if sampleRate == 15 {
+		rate := int(bits(8))<<16 | int(bits(8))<<8 | int(bits(8))
+		for i, r := range AACRates {
+			if r == rate {
+				sampleRate = uint8(i)
+			}
+		}
+	}
+	channel := bits(4)
+	if left < 0 {
+		return fmt.Errorf("invalid data, length:%d", len(data))
+	}
+	ah.ObjectType, ah.SampleRate, ah.Channel = objectType, sampleRate, channel
 	return nil
 }
 
-- 
2.43.0


From 898c80f8478a6c0a3d7a64695a8427ae85c49840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 074/106] fix: give RTSP players all parameter sets of a
 stream, with any NAL length size, and when they change

---
 librtmp/rtsp_server.go | 231 ++++++++++++++++++++++-------------------
 librtsp/h264.go        |  18 +++-
 librtsp/sdp.go         |  42 ++++++--
 3 files changed, 168 insertions(+), 123 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 857dbc4..98fadef 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -60,6 +60,11 @@ type rtspSession struct {
 	peerVideoRTP  *net.UDPAddr //where to send RTP for the video track
 	peerAudioRTP  *net.UDPAddr
 
+	// PLAY goroutine: bytes of a NAL unit's length prefix, and parameter
+	// sets that are still to be sent.
+	playNALULen int
+	playSets    [][]byte
+
 	// Publisher path (ANNOUNCE/RECORD): set after a successful
 	// ANNOUNCE; handleRecord enters the RTP receive loop.
 	ingest      *rtspIngest
@@ -458,12 +463,11 @@ func (s *rtspSession) handlePlay(req *librtsp.Request, resp *librtsp.Response) *
 func (s *rtspSession) streamLoop(room *Room) {
 	defer atomic.StoreInt32(&s.playing, 0)
 
-	//Backfill cached sequence headers as in-band data so any client
-	//that decodes off the wire rather than the SDP fmtp gets the
-	//SPS/PPS too.
+	//Parameter sets are also sent in-band, for clients that decode off
+	//the wire rather than the SDP fmtp, and when they change.
 	_, videoHdr, _ := room.snapshotHeaders()
-	if s.videoRTP != nil && videoHdr != nil {
-		s.sendVideoSeqHeader(videoHdr)
+	if videoHdr != nil {
+		s.noteVideoSeqHeader(videoHdr)
 	}
 
 	gopReader := NewGOPReader(room.GOP)
@@ -495,35 +499,41 @@ func (s *rtspSession) streamLoop(room *Room) {
 	}
 }
 
-// sendVideoSeqHeader emits the SPS/PPS NALs as separate single-NAL RTP
-// packets at timestamp 0 so receivers that joined mid-GOP can prime
-// their decoders.
-func (s *rtspSession) sendVideoSeqHeader(tag *libflv.VideoTag) {
+// noteVideoSeqHeader takes the parameter sets of a sequence header; the
+// next frame brings them along.
+func (s *rtspSession) noteVideoSeqHeader(tag *libflv.VideoTag) {
 	if tag.AVCPacketType != libflv.AVC_SEQUENCE_HEADER {
 		return
 	}
-	sps, pps, _, _, err := parseAVCDCRForRTSP(tag.Data())
-	if err != nil || len(sps) == 0 {
+	sets, err := videoParamSets(tag)
+	if err != nil {
 		return
 	}
-	for _, nal := range [][]byte{sps, pps} {
-		for _, payload := range librtsp.PackNAL(nal, librtsp.DefaultMTU) {
-			pkt := s.videoRTP.Pack(false, 0, payload)
-			if err := s.writeVideoRTP(pkt); err != nil {
-				return
-			}
-		}
-	}
+	s.playNALULen = sets.naluLen
+	s.playSets = sets.all()
 }
 
 func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
+	if tag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
+		s.noteVideoSeqHeader(tag)
+	}
 	if tag.AVCPacketType != libflv.AVC_NALU {
 		return nil
 	}
-	nals := librtsp.SplitAVCC(tag.Data())
+	nals := librtsp.SplitNALUs(tag.Data(), s.playNALULen)
 	if len(nals) == 0 {
 		return nil
 	}
+	if len(s.playSets) > 0 {
+		//behind an access unit delimiter
+		aud := 0
+		if tag.CodecID == libflv.FLV_VIDEO_AVC && nals[0][0]&0x1F == 9 ||
+			tag.CodecID == libflv.FLV_VIDEO_HEVC && nals[0][0]>>1&0x3F == 35 {
+			aud = 1
+		}
+		nals = append(append(append([][]byte(nil), nals[:aud]...), s.playSets...), nals[aud:]...)
+		s.playSets = nil
+	}
 	//PTS in 90 kHz clock; FLV gives us DTS in ms plus a CTS offset.
 	pts := (uint32(tag.GetTagInfo().TimeStamp) + uint32(tag.CompositionTime())) * 90
 
@@ -681,20 +691,22 @@ func buildSDPFromRoom(room *Room) []byte {
 	}
 	switch videoHdr.CodecID {
 	case libflv.FLV_VIDEO_AVC:
-		sps, pps, _, _, err := parseAVCDCRForRTSP(videoHdr.Data())
+		sets, err := videoParamSets(videoHdr)
 		if err != nil {
 			return nil
 		}
-		p.SPS, p.PPS = sps, pps
+		p.SPS, p.MoreSPS = sets.sps[0], sets.sps[1:]
+		p.PPS, p.MorePPS = sets.pps[0], sets.pps[1:]
 	case libflv.FLV_VIDEO_HEVC:
-		vps, sps, pps, err := parseHEVCDCRForRTSP(videoHdr.Data())
-		if err != nil {
-			//Players will need in-band parameter sets; emit minimal
-			//SDP without sprop-* fields rather than fail outright.
-			p.IsHEVC = true
-		} else {
-			p.IsHEVC = true
-			p.VPS, p.SPS, p.PPS = vps, sps, pps
+		p.IsHEVC = true
+		//Without a usable record players will need in-band parameter
+		//sets; emit SDP without sprop-* fields rather than fail outright.
+		if sets, err := videoParamSets(videoHdr); err == nil {
+			if len(sets.vps) > 0 {
+				p.VPS, p.MoreVPS = sets.vps[0], sets.vps[1:]
+			}
+			p.SPS, p.MoreSPS = sets.sps[0], sets.sps[1:]
+			p.PPS, p.MorePPS = sets.pps[0], sets.pps[1:]
 		}
 	default:
 		return nil
@@ -739,99 +751,100 @@ func decodeAACRate(code uint8) int {
 	}
 }
 
-// parseHEVCDCRForRTSP pulls VPS/SPS/PPS NALs out of an HEVC
+// paramSets is what a decoder configuration record says about the stream:
+// its parameter sets by kind, and the bytes of a NAL unit's length prefix.
+type paramSets struct {
+	vps, sps, pps [][]byte
+	naluLen       int
+}
+
+// all returns the sets in the order they are to be decoded in.
+func (p *paramSets) all() [][]byte {
+	return append(append(append([][]byte(nil), p.vps...), p.sps...), p.pps...)
+}
+
+// takeNALUs cuts n NAL units with 16-bit length prefixes off src.
+func takeNALUs(src []byte, n int) (nalus [][]byte, rest []byte, err error) {
+	for ; n > 0; n-- {
+		if len(src) < 2 {
+			return nil, nil, fmt.Errorf("DCR truncated at NAL length")
+		}
+		size := int(binary.BigEndian.Uint16(src))
+		src = src[2:]
+		if size > len(src) {
+			return nil, nil, fmt.Errorf("DCR truncated in NAL body")
+		}
+		if size > 0 {
+			nalus = append(nalus, append([]byte(nil), src[:size]...))
+		}
+		src = src[size:]
+	}
+	return nalus, src, nil
+}
+
+// parseHEVCDCRForRTSP pulls the VPS/SPS/PPS NALs out of an
 // HEVCDecoderConfigurationRecord (ISO/IEC 14496-15 §8.3.3.1.2). The
 // record nests parameter sets under "arrays of NAL units" indexed by
-// nal_unit_type (32 = VPS, 33 = SPS, 34 = PPS). Returns the first
-// occurrence of each.
-func parseHEVCDCRForRTSP(src []byte) (vps, sps, pps []byte, err error) {
+// nal_unit_type (32 = VPS, 33 = SPS, 34 = PPS).
+func parseHEVCDCRForRTSP(src []byte) (*paramSets, error) {
 	if len(src) < 23 {
-		err = fmt.Errorf("HEVC DCR too short: %d bytes", len(src))
-		return
+		return nil, fmt.Errorf("HEVC DCR too short: %d bytes", len(src))
 	}
-	off := 22 //skip the fixed 22-byte profile/level/timing prefix
-	numArrays := int(src[off])
-	off++
-	for i := 0; i < numArrays; i++ {
-		if off+3 > len(src) {
-			err = fmt.Errorf("HEVC DCR truncated at array header")
-			return
+	p := &paramSets{naluLen: int(src[21]&0x03) + 1}
+	rest := src[23:] //behind the fixed profile/level/timing prefix
+	for arrays := int(src[22]); arrays > 0; arrays-- {
+		if len(rest) < 3 {
+			return nil, fmt.Errorf("HEVC DCR truncated at array header")
 		}
-		nalType := src[off] & 0x3F
-		numNalus := int(src[off+1])<<8 | int(src[off+2])
-		off += 3
-		for j := 0; j < numNalus; j++ {
-			if off+2 > len(src) {
-				err = fmt.Errorf("HEVC DCR truncated at NAL length")
-				return
-			}
-			n := int(src[off])<<8 | int(src[off+1])
-			off += 2
-			if off+n > len(src) {
-				err = fmt.Errorf("HEVC DCR truncated in NAL body")
-				return
-			}
-			data := append([]byte(nil), src[off:off+n]...)
-			off += n
-			switch nalType {
-			case 32:
-				if vps == nil {
-					vps = data
-				}
-			case 33:
-				if sps == nil {
-					sps = data
-				}
-			case 34:
-				if pps == nil {
-					pps = data
-				}
-			}
+		nalus, after, err := takeNALUs(rest[3:], int(binary.BigEndian.Uint16(rest[1:])))
+		if err != nil {
+			return nil, err
+		}
+		switch rest[0] & 0x3F {
+		case 32:
+			p.vps = append(p.vps, nalus...)
+		case 33:
+			p.sps = append(p.sps, nalus...)
+		case 34:
+			p.pps = append(p.pps, nalus...)
 		}
+		rest = after
 	}
-	if sps == nil || pps == nil {
-		err = fmt.Errorf("HEVC DCR missing SPS or PPS")
+	if len(p.sps) == 0 || len(p.pps) == 0 {
+		return nil, fmt.Errorf("HEVC DCR missing SPS or PPS")
 	}
-	return
+	return p, nil
 }
 
-// parseAVCDCRForRTSP parses an AVCDecoderConfigurationRecord into its
-// constituent SPS / PPS / dimensions. Re-implemented (rather than
-// importing libdash) to keep librtsp / librtmp free of the libdash
-// dependency cycle.
-func parseAVCDCRForRTSP(src []byte) (sps, pps []byte, w, h uint16, err error) {
-	if len(src) < 9 {
-		err = fmt.Errorf("DCR too short: %d bytes", len(src))
-		return
+// parseAVCDCRForRTSP parses an AVCDecoderConfigurationRecord (ISO/IEC
+// 14496-15 §5.2.4.1). Re-implemented (rather than importing libdash) to
+// keep librtsp / librtmp free of the libdash dependency cycle.
+func parseAVCDCRForRTSP(src []byte) (*paramSets, error) {
+	if len(src) < 7 {
+		return nil, fmt.Errorf("DCR too short: %d bytes", len(src))
 	}
-	off := 6
-	if off+2 > len(src) {
-		err = fmt.Errorf("DCR truncated at SPS length")
-		return
+	p := &paramSets{naluLen: int(src[4]&0x03) + 1}
+	var err error
+	rest := src[6:]
+	if p.sps, rest, err = takeNALUs(rest, int(src[5]&0x1F)); err != nil {
+		return nil, err
 	}
-	spsLen := int(src[off])<<8 | int(src[off+1])
-	off += 2
-	if off+spsLen > len(src) || spsLen <= 0 {
-		err = fmt.Errorf("DCR truncated in SPS body")
-		return
+	if len(rest) < 1 {
+		return nil, fmt.Errorf("DCR truncated before PPS count")
 	}
-	sps = append([]byte(nil), src[off:off+spsLen]...)
-	off += spsLen
-	if off >= len(src) {
-		err = fmt.Errorf("DCR truncated before PPS count")
-		return
+	if p.pps, _, err = takeNALUs(rest[1:], int(rest[0])); err != nil {
+		return nil, err
 	}
-	off++ //numPPS
-	if off+2 > len(src) {
-		err = fmt.Errorf("DCR truncated at PPS length")
-		return
+	if len(p.sps) == 0 || len(p.pps) == 0 {
+		return nil, fmt.Errorf("DCR missing SPS or PPS")
 	}
-	ppsLen := int(src[off])<<8 | int(src[off+1])
-	off += 2
-	if off+ppsLen > len(src) || ppsLen <= 0 {
-		err = fmt.Errorf("DCR truncated in PPS body")
-		return
+	return p, nil
+}
+
+// videoParamSets parses the record of a video sequence header.
+func videoParamSets(tag *libflv.VideoTag) (*paramSets, error) {
+	if tag.CodecID == libflv.FLV_VIDEO_HEVC {
+		return parseHEVCDCRForRTSP(tag.Data())
 	}
-	pps = append([]byte(nil), src[off:off+ppsLen]...)
-	return
+	return parseAVCDCRForRTSP(tag.Data())
 }
diff --git a/librtsp/h264.go b/librtsp/h264.go
index aaf24d9..67a4e44 100644
--- a/librtsp/h264.go
+++ b/librtsp/h264.go
@@ -74,10 +74,22 @@ func PackNAL(nal []byte, mtu int) [][]byte {
 // AVCC; we re-fragment per NAL because the "access unit = one or more
 // NALs" model is what RTP wants.
 func SplitAVCC(buf []byte) [][]byte {
+	return SplitNALUs(buf, 4)
+}
+
+// SplitNALUs is SplitAVCC for length prefixes of 1 to 4 bytes, as the
+// decoder configuration record says; 0 stands for the usual 4.
+func SplitNALUs(buf []byte, prefix int) [][]byte {
+	if prefix == 0 {
+		prefix = 4
+	}
 	var out [][]byte
-	for off := 0; off+4 <= len(buf); {
-		size := int(buf[off])<<24 | int(buf[off+1])<<16 | int(buf[off+2])<<8 | int(buf[off+3])
-		off += 4
+	for off := 0; off+prefix <= len(buf); {
+		size := 0
+		for _, b := range buf[off : off+prefix] {
+			size = size<<8 | int(b)
+		}
+		off += prefix
 		if size <= 0 || off+size > len(buf) {
 			return out
 		}
diff --git a/librtsp/sdp.go b/librtsp/sdp.go
index 5c2353f..abd96dc 100644
--- a/librtsp/sdp.go
+++ b/librtsp/sdp.go
@@ -23,6 +23,11 @@ type SDPParams struct {
 	SPS    []byte
 	PPS    []byte
 
+	// Further parameter sets of streams with several of a kind.
+	MoreVPS [][]byte
+	MoreSPS [][]byte
+	MorePPS [][]byte
+
 	// Audio. IsOpus selects between AAC-hbr (default) and Opus.
 	// AudioConfig is the AAC AudioSpecificConfig (ignored for Opus).
 	IsOpus      bool
@@ -51,9 +56,9 @@ func BuildSDP(p SDPParams) []byte {
 
 	if p.HasVideo {
 		if p.IsHEVC && len(p.SPS) > 0 {
-			writeHEVC(&sb, p.VPS, p.SPS, p.PPS)
+			writeHEVC(&sb, spropSets(p.VPS, p.MoreVPS), spropSets(p.SPS, p.MoreSPS), spropSets(p.PPS, p.MorePPS))
 		} else if len(p.SPS) >= 4 {
-			writeVideo(&sb, p.SPS, p.PPS)
+			writeVideo(&sb, p.SPS, spropSets(p.SPS, p.MoreSPS), spropSets(p.PPS, p.MorePPS))
 		}
 	}
 	if p.HasAudio {
@@ -66,29 +71,42 @@ func BuildSDP(p SDPParams) []byte {
 	return []byte(sb.String())
 }
 
+// spropSets renders parameter sets as the fmtp parameters list them:
+// base64-encoded, separated by commas.
+func spropSets(set []byte, more [][]byte) string {
+	if len(set) == 0 {
+		return ""
+	}
+	out := base64.StdEncoding.EncodeToString(set)
+	for _, s := range more {
+		out += "," + base64.StdEncoding.EncodeToString(s)
+	}
+	return out
+}
+
 // writeHEVC emits an H.265 m-line + fmtp per RFC 7798.
 // sprop-vps / sprop-sps / sprop-pps carry base64-encoded NALs.
-func writeHEVC(sb *strings.Builder, vps, sps, pps []byte) {
+func writeHEVC(sb *strings.Builder, vps, sps, pps string) {
 	sb.WriteString("m=video 0 RTP/AVP 96\r\n")
 	sb.WriteString("a=rtpmap:96 H265/90000\r\n")
 	fmt.Fprintf(sb, "a=fmtp:96 ")
 	first := true
 	if len(vps) > 0 {
-		fmt.Fprintf(sb, "sprop-vps=%s", base64.StdEncoding.EncodeToString(vps))
+		fmt.Fprintf(sb, "sprop-vps=%s", vps)
 		first = false
 	}
 	if len(sps) > 0 {
 		if !first {
 			sb.WriteString(";")
 		}
-		fmt.Fprintf(sb, "sprop-sps=%s", base64.StdEncoding.EncodeToString(sps))
+		fmt.Fprintf(sb, "sprop-sps=%s", sps)
 		first = false
 	}
 	if len(pps) > 0 {
 		if !first {
 			sb.WriteString(";")
 		}
-		fmt.Fprintf(sb, "sprop-pps=%s", base64.StdEncoding.EncodeToString(pps))
+		fmt.Fprintf(sb, "sprop-pps=%s", pps)
 	}
 	sb.WriteString("\r\n")
 	sb.WriteString("a=control:trackID=0\r\n")
@@ -109,16 +127,18 @@ func writeOpus(sb *strings.Builder, chans int) {
 	sb.WriteString("a=control:trackID=1\r\n")
 }
 
-func writeVideo(sb *strings.Builder, sps, pps []byte) {
+func writeVideo(sb *strings.Builder, sps []byte, spropSPS, spropPPS string) {
 	sb.WriteString("m=video 0 RTP/AVP 96\r\n")
 	sb.WriteString("a=rtpmap:96 H264/90000\r\n")
 	//profile-level-id is the 3-byte profile/constraints/level prefix
 	//of the SPS rendered as 6 hex digits (RFC 6184 §8.2.2).
 	profileLevel := fmt.Sprintf("%02X%02X%02X", sps[1], sps[2], sps[3])
-	spropSPS := base64.StdEncoding.EncodeToString(sps)
-	spropPPS := base64.StdEncoding.EncodeToString(pps)
-	fmt.Fprintf(sb, "a=fmtp:96 packetization-mode=1;profile-level-id=%s;sprop-parameter-sets=%s,%s\r\n",
-		profileLevel, spropSPS, spropPPS)
+	sprop := spropSPS
+	if spropPPS != "" {
+		sprop += "," + spropPPS
+	}
+	fmt.Fprintf(sb, "a=fmtp:96 packetization-mode=1;profile-level-id=%s;sprop-parameter-sets=%s\r\n",
+		profileLevel, sprop)
 	sb.WriteString("a=control:trackID=0\r\n")
 }
 
-- 
2.43.0


From 1509aba5cd33028075cff29f3fbe9da827fc2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 075/106] fix: describe HEVC streams whose parameter sets are
 in-band

---
 librtsp/sdp.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/librtsp/sdp.go b/librtsp/sdp.go
index abd96dc..34f99d3 100644
--- a/librtsp/sdp.go
+++ b/librtsp/sdp.go
@@ -55,7 +55,7 @@ func BuildSDP(p SDPParams) []byte {
 	sb.WriteString("a=control:*\r\n")
 
 	if p.HasVideo {
-		if p.IsHEVC && len(p.SPS) > 0 {
+		if p.IsHEVC {
 			writeHEVC(&sb, spropSets(p.VPS, p.MoreVPS), spropSets(p.SPS, p.MoreSPS), spropSets(p.PPS, p.MorePPS))
 		} else if len(p.SPS) >= 4 {
 			writeVideo(&sb, p.SPS, spropSets(p.SPS, p.MoreSPS), spropSets(p.PPS, p.MorePPS))
@@ -89,26 +89,15 @@ func spropSets(set []byte, more [][]byte) string {
 func writeHEVC(sb *strings.Builder, vps, sps, pps string) {
 	sb.WriteString("m=video 0 RTP/AVP 96\r\n")
 	sb.WriteString("a=rtpmap:96 H265/90000\r\n")
-	fmt.Fprintf(sb, "a=fmtp:96 ")
-	first := true
-	if len(vps) > 0 {
-		fmt.Fprintf(sb, "sprop-vps=%s", vps)
-		first = false
-	}
-	if len(sps) > 0 {
-		if !first {
-			sb.WriteString(";")
+	params := []string{}
+	for _, p := range []struct{ name, sets string }{{"sprop-vps", vps}, {"sprop-sps", sps}, {"sprop-pps", pps}} {
+		if p.sets != "" {
+			params = append(params, p.name+"="+p.sets)
 		}
-		fmt.Fprintf(sb, "sprop-sps=%s", sps)
-		first = false
 	}
-	if len(pps) > 0 {
-		if !first {
-			sb.WriteString(";")
-		}
-		fmt.Fprintf(sb, "sprop-pps=%s", pps)
+	if len(params) > 0 {
+		fmt.Fprintf(sb, "a=fmtp:96 %s\r\n", strings.Join(params, ";"))
 	}
-	sb.WriteString("\r\n")
 	sb.WriteString("a=control:trackID=0\r\n")
 }
 
-- 
2.43.0


From 51f31ee41cb288886fb165260a247afe3b2f20bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 076/106] fix: keep stream names from adding lines to their SDP

---
 librtsp/sdp.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/librtsp/sdp.go b/librtsp/sdp.go
index 34f99d3..4b48c7b 100644
--- a/librtsp/sdp.go
+++ b/librtsp/sdp.go
@@ -46,7 +46,7 @@ func BuildSDP(p SDPParams) []byte {
 	var sb strings.Builder
 	sb.WriteString("v=0\r\n")
 	sb.WriteString("o=- 0 0 IN IP4 127.0.0.1\r\n")
-	fmt.Fprintf(&sb, "s=%s\r\n", p.StreamID)
+	fmt.Fprintf(&sb, "s=%s\r\n", sessionName(p.StreamID))
 	sb.WriteString("c=IN IP4 0.0.0.0\r\n")
 	sb.WriteString("t=0 0\r\n")
 	//RFC 4566 mentions a=control:* on session level so the client
@@ -71,6 +71,21 @@ func BuildSDP(p SDPParams) []byte {
 	return []byte(sb.String())
 }
 
+// sessionName keeps a stream's name from adding lines to its description;
+// an s= line is not empty either (RFC 4566 §5.3).
+func sessionName(name string) string {
+	name = strings.Map(func(r rune) rune {
+		if r == '\r' || r == '\n' || r == 0 {
+			return ' '
+		}
+		return r
+	}, name)
+	if name == "" {
+		return "-"
+	}
+	return name
+}
+
 // spropSets renders parameter sets as the fmtp parameters list them:
 // base64-encoded, separated by commas.
 func spropSets(set []byte, more [][]byte) string {
-- 
2.43.0


From f600dc42368b52ff76e32694dd802a981cae7e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 077/106] fix: take rate and channels of AAC for RTSP players
 from its configuration

---
 librtmp/rtsp_server.go | 70 +++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 98fadef..dc72cf9 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -14,6 +14,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/sbraveyoung/GGmpeg/libaac"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/librtsp"
 )
@@ -60,8 +61,9 @@ type rtspSession struct {
 	peerVideoRTP  *net.UDPAddr //where to send RTP for the video track
 	peerAudioRTP  *net.UDPAddr
 
-	// PLAY goroutine: bytes of a NAL unit's length prefix, and parameter
-	// sets that are still to be sent.
+	// PLAY goroutine: sampling rate of AAC, bytes of a NAL unit's length
+	// prefix, and parameter sets that are still to be sent.
+	playAACRate int
 	playNALULen int
 	playSets    [][]byte
 
@@ -465,10 +467,13 @@ func (s *rtspSession) streamLoop(room *Room) {
 
 	//Parameter sets are also sent in-band, for clients that decode off
 	//the wire rather than the SDP fmtp, and when they change.
-	_, videoHdr, _ := room.snapshotHeaders()
+	_, videoHdr, audioHdr := room.snapshotHeaders()
 	if videoHdr != nil {
 		s.noteVideoSeqHeader(videoHdr)
 	}
+	if audioHdr != nil && audioHdr.SoundFormat == libflv.FLV_AUDIO_AAC {
+		s.playAACRate, _ = aacFormat(audioHdr.Data())
+	}
 
 	gopReader := NewGOPReader(room.GOP)
 	for atomic.LoadInt32(&s.playing) == 1 {
@@ -565,18 +570,16 @@ func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
 func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 	switch tag.SoundFormat {
 	case libflv.FLV_AUDIO_AAC:
+		if tag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
+			s.playAACRate, _ = aacFormat(tag.Data())
+		}
 		if tag.AACPacketType != libflv.AAC_RAW {
 			return nil
 		}
-		//AAC RTP timestamp uses sample-rate clock; default 44.1 kHz.
-		rate := 44100
-		switch tag.SoundRate {
-		case 0:
-			rate = 5500
-		case 1:
-			rate = 11025
-		case 2:
-			rate = 22050
+		//The RTP clock of AAC is its sampling rate.
+		rate := s.playAACRate
+		if rate == 0 {
+			rate = 44100
 		}
 		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * uint64(rate) / 1000)
 		frame := librtsp.AdtsToRaw(tag.Data())
@@ -720,35 +723,40 @@ func buildSDPFromRoom(room *Room) []byte {
 			}
 			p.HasAudio = true
 			p.AudioConfig = audioHdr.Data()
-			p.AudioRate = decodeAACRate(audioHdr.SoundRate)
+			p.AudioRate, p.AudioChans = aacFormat(audioHdr.Data())
 		case libflv.FLV_AUDIO_OPUS:
 			p.HasAudio = true
 			p.IsOpus = true
 			p.AudioRate = librtsp.OpusClockRate
-		}
-		if audioHdr.SoundType == libflv.SND_STEREO {
-			p.AudioChans = 2
-		} else {
-			p.AudioChans = 1
+			if audioHdr.SoundType == libflv.SND_STEREO {
+				p.AudioChans = 2
+			} else {
+				p.AudioChans = 1
+			}
 		}
 	}
 	return librtsp.BuildSDP(p)
 }
 
-// decodeAACRate maps the FLV 2-bit sound-rate code back to Hz. Only
-// 44.1 kHz is correct for AAC per the FLV spec, but other publishers
-// emit 22050/11025/5500 occasionally.
-func decodeAACRate(code uint8) int {
-	switch code {
-	case 0:
-		return 5500
-	case 1:
-		return 11025
-	case 2:
-		return 22050
-	default:
-		return 44100
+// aacFormat returns sampling rate and channels of an AAC stream from the
+// AudioSpecificConfig; the FLV header states 44.1 kHz stereo for every AAC
+// stream.
+func aacFormat(config []byte) (rate, chans int) {
+	rate, chans = 44100, 2
+	var ah libaac.AACHeader
+	if ah.Parse(config) != nil {
+		return
+	}
+	if int(ah.SampleRate) < len(libaac.AACRates) {
+		rate = libaac.AACRates[ah.SampleRate]
+	}
+	switch {
+	case ah.Channel == 7:
+		chans = 8
+	case ah.Channel > 0 && ah.Channel < 7:
+		chans = int(ah.Channel)
 	}
+	return
 }
 
 // paramSets is what a decoder configuration record says about the stream:
-- 
2.43.0


From 87d4baf8838ca7d150d495ac59f836e3ec778ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 078/106] fix: describe mono Opus streams as RFC 7587 has it

---
 librtsp/sdp.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/librtsp/sdp.go b/librtsp/sdp.go
index 4b48c7b..8fe75fb 100644
--- a/librtsp/sdp.go
+++ b/librtsp/sdp.go
@@ -117,14 +117,15 @@ func writeHEVC(sb *strings.Builder, vps, sps, pps string) {
 }
 
 // writeOpus emits an Opus m-line per RFC 7587. Clock is always 48000.
-// Channels signalled via the rtpmap parameter; SDP usually carries
-// a=fmtp:97 sprop-stereo=1 for 2-channel content.
+// SDP usually carries a=fmtp:97 sprop-stereo=1 for 2-channel content.
 func writeOpus(sb *strings.Builder, chans int) {
 	if chans <= 0 {
 		chans = 2
 	}
 	sb.WriteString("m=audio 0 RTP/AVP 97\r\n")
-	fmt.Fprintf(sb, "a=rtpmap:97 opus/48000/%d\r\n", chans)
+	//The channels of the rtpmap are always 2 (§7); whether the stream is
+	//stereo is said by sprop-stereo.
+	sb.WriteString("a=rtpmap:97 opus/48000/2\r\n")
 	if chans == 2 {
 		sb.WriteString("a=fmtp:97 sprop-stereo=1\r\n")
 	}
-- 
2.43.0


From c198e8dabfea0277c367c046a2ae57de9ebeb3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 079/106] fix: leave unsupported media out of announced
 streams, and take all of their parameter sets

---
 librtmp/rtsp_ingest.go |  34 +++----
 librtmp/srt_server.go  |   2 +-
 librtsp/sdp_parse.go   | 198 ++++++++++++++++++++++++-----------------
 3 files changed, 135 insertions(+), 99 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index f400712..e8ef74a 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -92,7 +92,7 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 	//config. We synthesize libflv tags (TimeStamp 0) that mirror what
 	//an RTMP publisher would have written.
 	if parsed.HasVideo && len(parsed.SPS) > 0 && len(parsed.PPS) > 0 {
-		seqHdr := buildAVCSequenceHeader(parsed.SPS, parsed.PPS)
+		seqHdr := buildAVCSequenceHeader(append([][]byte{parsed.SPS}, parsed.MoreSPS...), append([][]byte{parsed.PPS}, parsed.MorePPS...))
 		vt := &libflv.VideoTag{
 			TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: 0},
 			FrameType:     libflv.KEY_FRAME,
@@ -287,23 +287,27 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 // buildAVCSequenceHeader packs an AVCDecoderConfigurationRecord around
 // the given SPS / PPS. Mirrors what an RTMP publisher would have sent
 // in its first video tag (FLV-spec AVCPacketType=0).
-func buildAVCSequenceHeader(sps, pps []byte) []byte {
-	if len(sps) < 4 {
+func buildAVCSequenceHeader(sps, pps [][]byte) []byte {
+	if len(sps[0]) < 4 {
 		return nil
 	}
 	out := []byte{
-		0x01,        //configurationVersion
-		sps[1],      //profile
-		sps[2],      //compatibility
-		sps[3],      //level
-		0xFF,        //6 bits reserved + lengthSizeMinusOne=3
-		0xE1,        //3 bits reserved + numSPS=1
-		byte(len(sps) >> 8), byte(len(sps)),
-	}
-	out = append(out, sps...)
-	out = append(out, 0x01) //numPPS
-	out = append(out, byte(len(pps)>>8), byte(len(pps)))
-	out = append(out, pps...)
+		0x01,      //configurationVersion
+		sps[0][1], //profile
+		sps[0][2], //compatibility
+		sps[0][3], //level
+		0xFF,      //6 bits reserved + lengthSizeMinusOne=3
+	}
+	out = append(out, 0xE0|byte(len(sps))) //3 bits reserved + numSPS
+	for _, s := range sps {
+		out = append(out, byte(len(s)>>8), byte(len(s)))
+		out = append(out, s...)
+	}
+	out = append(out, byte(len(pps))) //numPPS
+	for _, s := range pps {
+		out = append(out, byte(len(s)>>8), byte(len(s)))
+		out = append(out, s...)
+	}
 	return out
 }
 
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 7eb967c..a9b31b1 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -133,7 +133,7 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 			br.cachedPPS = pps
 		}
 		if br.cachedSPS != nil && br.cachedPPS != nil {
-			seq := buildAVCSequenceHeader(br.cachedSPS, br.cachedPPS)
+			seq := buildAVCSequenceHeader([][]byte{br.cachedSPS}, [][]byte{br.cachedPPS})
 			vt := &libflv.VideoTag{
 				TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: 0},
 				FrameType:     libflv.KEY_FRAME,
diff --git a/librtsp/sdp_parse.go b/librtsp/sdp_parse.go
index ecf258e..8eda397 100644
--- a/librtsp/sdp_parse.go
+++ b/librtsp/sdp_parse.go
@@ -17,6 +17,8 @@ type ParsedSDP struct {
 	VideoPayloadType uint8
 	SPS            []byte //RBSP-stripped, no start code
 	PPS            []byte
+	MoreSPS        [][]byte //further ones of streams with several
+	MorePPS        [][]byte
 
 	HasAudio        bool
 	AudioControl    string
@@ -26,11 +28,22 @@ type ParsedSDP struct {
 	AudioChans      int
 }
 
-// ParseSDP extracts the fields we need from an SDP body. Returns nil
-// (and a non-nil error) if neither track is recognisable.
+// sdpMedia is one m= section.
+type sdpMedia struct {
+	kind         string //"video", "audio", …
+	proto        string
+	payloadTypes []uint8
+	control      string
+	rtpmap       map[uint8]string
+	fmtp         map[uint8]map[string]string
+}
+
+// ParseSDP extracts the fields we need from an SDP body: the first H.264
+// and the first AAC track. Returns nil (and a non-nil error) if neither
+// is there.
 func ParseSDP(body []byte) (*ParsedSDP, error) {
-	out := &ParsedSDP{}
-	var current string //"video" / "audio" / ""
+	var media []*sdpMedia
+	var current *sdpMedia
 	for _, raw := range strings.Split(string(body), "\n") {
 		line := strings.TrimRight(raw, "\r")
 		if len(line) < 2 || line[1] != '=' {
@@ -39,89 +52,103 @@ func ParseSDP(body []byte) (*ParsedSDP, error) {
 		key, value := line[0], line[2:]
 		switch key {
 		case 'm':
-			//m=video 0 RTP/AVP 96  → current="video", payload=96
+			//m=video 0 RTP/AVP 96
+			current = &sdpMedia{rtpmap: map[uint8]string{}, fmtp: map[uint8]map[string]string{}}
 			fields := strings.Fields(value)
 			if len(fields) < 4 {
 				continue
 			}
-			pt, _ := strconv.Atoi(fields[3])
-			switch fields[0] {
-			case "video":
-				current = "video"
-				out.HasVideo = true
-				out.VideoPayloadType = uint8(pt)
-			case "audio":
-				current = "audio"
-				out.HasAudio = true
-				out.AudioPayloadType = uint8(pt)
-			default:
-				current = ""
+			current.kind, current.proto = fields[0], fields[2]
+			for _, f := range fields[3:] {
+				if pt, err := strconv.ParseUint(f, 10, 7); err == nil {
+					current.payloadTypes = append(current.payloadTypes, uint8(pt))
+				}
 			}
+			media = append(media, current)
 		case 'a':
-			parseAttribute(out, current, value)
+			if current != nil {
+				current.attribute(value)
+			}
 		}
 	}
-	if !out.HasVideo && !out.HasAudio {
-		return nil, fmt.Errorf("SDP has no recognised media")
-	}
-	return out, nil
-}
 
-func parseAttribute(out *ParsedSDP, current, value string) {
-	switch {
-	case strings.HasPrefix(value, "control:"):
-		v := strings.TrimPrefix(value, "control:")
-		switch current {
-		case "video":
-			out.VideoControl = v
-		case "audio":
-			out.AudioControl = v
-		}
-	case strings.HasPrefix(value, "fmtp:"):
-		//fmtp:<pt> key=value;key=value
-		rest := strings.TrimPrefix(value, "fmtp:")
-		fields := strings.SplitN(rest, " ", 2)
-		if len(fields) < 2 {
-			return
+	out := &ParsedSDP{}
+	for _, m := range media {
+		if m.proto != "RTP/AVP" && m.proto != "RTP/AVPF" {
+			continue
 		}
-		params := parseFmtpParams(fields[1])
-		switch current {
-		case "video":
-			if pseq, ok := params["sprop-parameter-sets"]; ok {
-				sps, pps := splitSpropParameterSets(pseq)
-				if len(sps) > 0 {
-					out.SPS = sps
-				}
-				if len(pps) > 0 {
-					out.PPS = pps
+		for _, pt := range m.payloadTypes {
+			codec := strings.Split(m.rtpmap[pt], "/")
+			params := m.fmtp[pt]
+			switch {
+			case m.kind == "video" && !out.HasVideo && isH264(codec, params):
+				out.HasVideo = true
+				out.VideoControl = m.control
+				out.VideoPayloadType = pt
+				out.setParameterSets(params["sprop-parameter-sets"])
+			case m.kind == "audio" && !out.HasAudio && isAAC(codec, params):
+				out.HasAudio = true
+				out.AudioControl = m.control
+				out.AudioPayloadType = pt
+				//mpeg4-generic/44100/2
+				out.AudioRate, _ = strconv.Atoi(codec[1])
+				out.AudioChans = 1
+				if len(codec) >= 3 {
+					out.AudioChans, _ = strconv.Atoi(codec[2])
 				}
-			}
-		case "audio":
-			if cfg, ok := params["config"]; ok {
-				if b, err := hex.DecodeString(cfg); err == nil {
+				if b, err := hex.DecodeString(strings.Trim(params["config"], `"`)); err == nil {
 					out.AudioConfig = b
 				}
 			}
 		}
-	case strings.HasPrefix(value, "rtpmap:"):
-		//rtpmap:97 mpeg4-generic/44100/2
-		rest := strings.TrimPrefix(value, "rtpmap:")
-		fields := strings.Fields(rest)
-		if len(fields) < 2 {
-			return
-		}
-		parts := strings.Split(fields[1], "/")
-		if current == "audio" && len(parts) >= 2 {
-			rate, _ := strconv.Atoi(parts[1])
-			out.AudioRate = rate
-			if len(parts) >= 3 {
-				ch, _ := strconv.Atoi(parts[2])
-				out.AudioChans = ch
-			} else {
-				out.AudioChans = 1
-			}
+	}
+	if !out.HasVideo && !out.HasAudio {
+		return nil, fmt.Errorf("SDP has no recognised media")
+	}
+	return out, nil
+}
+
+// isH264 accepts the packetization modes that are sent in decoding order.
+func isH264(codec []string, params map[string]string) bool {
+	mode := params["packetization-mode"]
+	return strings.EqualFold(codec[0], "H264") && (mode == "" || mode == "0" || mode == "1")
+}
+
+// isAAC accepts AAC-hbr with the header sizes of that mode.
+func isAAC(codec []string, params map[string]string) bool {
+	if !strings.EqualFold(codec[0], "mpeg4-generic") || len(codec) < 2 {
+		return false
+	}
+	for key, want := range map[string]string{"mode": "AAC-hbr", "sizelength": "13", "indexlength": "3"} {
+		if v, ok := params[key]; ok && !strings.EqualFold(v, want) {
+			return false
 		}
 	}
+	return true
+}
+
+func (m *sdpMedia) attribute(value string) {
+	if v, ok := strings.CutPrefix(value, "control:"); ok {
+		m.control = strings.TrimSpace(v)
+		return
+	}
+	//rtpmap:97 mpeg4-generic/44100/2
+	//fmtp:<pt> key=value;key=value
+	name, rest, _ := strings.Cut(value, ":")
+	fields := strings.SplitN(strings.TrimSpace(rest), " ", 2)
+	if len(fields) < 2 {
+		return
+	}
+	pt, err := strconv.ParseUint(fields[0], 10, 7)
+	if err != nil {
+		return
+	}
+	switch name {
+	case "rtpmap":
+		m.rtpmap[uint8(pt)] = strings.TrimSpace(fields[1])
+	case "fmtp":
+		m.fmtp[uint8(pt)] = parseFmtpParams(fields[1])
+	}
 }
 
 // parseFmtpParams splits "key1=val1;key2=val2" into a map. Keys are
@@ -143,21 +170,26 @@ func parseFmtpParams(s string) map[string]string {
 	return out
 }
 
-// splitSpropParameterSets decodes one or more comma-separated base64
-// NAL units. The first is conventionally the SPS, the second the PPS.
-func splitSpropParameterSets(s string) (sps, pps []byte) {
-	parts := strings.Split(s, ",")
-	for i, p := range parts {
-		b, err := base64.StdEncoding.DecodeString(p)
-		if err != nil {
+// setParameterSets takes comma-separated base64 NAL units.
+func (out *ParsedSDP) setParameterSets(s string) {
+	for _, p := range strings.Split(s, ",") {
+		b, err := base64.StdEncoding.DecodeString(strings.TrimSpace(p))
+		if err != nil || len(b) == 0 {
 			continue
 		}
-		switch i {
-		case 0:
-			sps = b
-		case 1:
-			pps = b
+		switch b[0] & 0x1F {
+		case 7:
+			if out.SPS == nil {
+				out.SPS = b
+			} else {
+				out.MoreSPS = append(out.MoreSPS, b)
+			}
+		case 8:
+			if out.PPS == nil {
+				out.PPS = b
+			} else {
+				out.MorePPS = append(out.MorePPS, b)
+			}
 		}
 	}
-	return
 }
-- 
2.43.0


From e7f2de5eb28e1efbdf657b1304c70086108cdc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 080/106] fix: tell apart announced tracks whose control names
 end alike, or that have none

---
 librtmp/rtsp_ingest.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index e8ef74a..67af07f 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -15,6 +15,7 @@ import (
 // rtspSession when the publish flow kicks off.
 type rtspIngest struct {
 	parsed  *librtsp.ParsedSDP
+	url     string //of the ANNOUNCE
 	videoCh int //RTSP interleave channel (RTP), -1 if not negotiated
 	audioCh int
 	videoRA *librtsp.H264Reassembler
@@ -80,6 +81,7 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
 		parsed:  parsed,
+		url:     req.URL,
 		videoCh: -1,
 		audioCh: -1,
 		videoRA: &librtsp.H264Reassembler{},
@@ -311,18 +313,20 @@ func buildAVCSequenceHeader(sps, pps [][]byte) []byte {
 	return out
 }
 
-// trackPathMatches reports whether the SETUP URL terminates in the
-// given track-control suffix (e.g. "trackID=0" or a relative URL).
-// Tolerates leading slashes and trailing slashes.
-func trackPathMatches(setupURL, control string) bool {
-	if control == "" {
-		return false
-	}
+// trackPathMatches reports whether the SETUP URL names the track with the
+// given control attribute: an absolute URL, or what follows the announced
+// one (e.g. "trackID=0"). A track without the attribute goes by the
+// announced URL itself. Tolerates leading slashes and trailing slashes.
+func trackPathMatches(setupURL, announced, control string) bool {
 	url := strings.TrimSuffix(setupURL, "/")
 	control = strings.TrimSuffix(control, "/")
+	if control == "" {
+		control = strings.TrimSuffix(announced, "/")
+	}
 	if strings.Contains(control, "://") {
 		return strings.EqualFold(url, control)
 	}
+	control = "/" + strings.TrimPrefix(control, "/")
 	return strings.HasSuffix(strings.ToLower(url), strings.ToLower(control))
 }
 
@@ -333,11 +337,11 @@ func (s *rtspSession) notifyIngestSetup(setupURL string, rtpCh int) (audio bool,
 	if s.ingest == nil {
 		return false, false
 	}
-	if s.ingest.parsed.HasVideo && trackPathMatches(setupURL, s.ingest.parsed.VideoControl) {
+	if s.ingest.parsed.HasVideo && trackPathMatches(setupURL, s.ingest.url, s.ingest.parsed.VideoControl) {
 		s.ingest.videoCh = rtpCh
 		return false, true
 	}
-	if s.ingest.parsed.HasAudio && trackPathMatches(setupURL, s.ingest.parsed.AudioControl) {
+	if s.ingest.parsed.HasAudio && trackPathMatches(setupURL, s.ingest.url, s.ingest.parsed.AudioControl) {
 		s.ingest.audioCh = rtpCh
 		return true, true
 	}
-- 
2.43.0


From 6ededb7268f7f92662a06520999eb148f46304f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 081/106] fix: keep the F bit of fragmented NAL units

---
 librtsp/h264.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/librtsp/h264.go b/librtsp/h264.go
index 67a4e44..c87f549 100644
--- a/librtsp/h264.go
+++ b/librtsp/h264.go
@@ -38,7 +38,6 @@ func PackNAL(nal []byte, mtu int) [][]byte {
 	//FU-A: header is 2 bytes (FU indicator + FU header), then payload
 	//bytes from the original NAL minus its 1-byte NAL header.
 	nalHeader := nal[0]
-	nri := (nalHeader & 0x60) >> 5
 	nalType := nalHeader & 0x1f
 	body := nal[1:] //skip the original NAL header
 
@@ -52,7 +51,7 @@ func PackNAL(nal []byte, mtu int) [][]byte {
 		if end > len(body) {
 			end = len(body)
 		}
-		fuIndicator := (nri << 5) | 28 //type 28 = FU-A
+		fuIndicator := (nalHeader & 0xE0) | 28 //F and NRI stay, type 28 = FU-A
 		fuHeader := nalType
 		if i == 0 {
 			fuHeader |= 0x80 //S = start
-- 
2.43.0


From 9e57fe2d96d0e9268855e7524583066db2a01b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 082/106] fix: send no RTP packets for audio frames that do not
 fit in one

---
 librtmp/rtsp_server.go | 6 ++++++
 librtsp/aac.go         | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index dc72cf9..7ba819e 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -584,6 +584,9 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * uint64(rate) / 1000)
 		frame := librtsp.AdtsToRaw(tag.Data())
 		payload := librtsp.PackAACFrame(frame)
+		if payload == nil {
+			return nil
+		}
 		pkt := s.audioRTP.Pack(true, ts, payload)
 		return s.writeAudioRTP(pkt)
 
@@ -594,6 +597,9 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		//Opus RTP clock is fixed at 48 kHz per RFC 7587 §4.1.
 		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * librtsp.OpusClockRate / 1000)
 		payload := librtsp.PackOpusFrame(tag.Data())
+		if payload == nil {
+			return nil
+		}
 		pkt := s.audioRTP.Pack(true, ts, payload)
 		return s.writeAudioRTP(pkt)
 	}
diff --git a/librtsp/aac.go b/librtsp/aac.go
index c136c21..1e6f0c3 100644
--- a/librtsp/aac.go
+++ b/librtsp/aac.go
@@ -18,8 +18,8 @@ func PackAACFrame(frame []byte) []byte {
 	}
 	if len(frame) >= 1<<13 {
 		//13-bit AU-size limit. Live AAC frames are ≤ ~1.5 KB so this
-		//ceiling is practically never hit; fail-soft by truncating.
-		frame = frame[:(1<<13)-1]
+		//ceiling is practically never hit; half a frame is of no use.
+		return nil
 	}
 	out := make([]byte, 4+len(frame))
 	//AU-headers-length: 16 bits in network order.
-- 
2.43.0


From c11defb1c2a719a4f2c34996f3432f8dfa125f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 083/106] fix: drop what RTP packets are missing of instead of
 mixing it, and ignore late packets and repetitions

---
 librtmp/rtsp_ingest.go |  27 ++++---
 librtsp/rtp_unpack.go  | 169 +++++++++++++++++++++++++++++++++++------
 2 files changed, 162 insertions(+), 34 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 67af07f..bef7d5c 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -19,10 +19,8 @@ type rtspIngest struct {
 	videoCh int //RTSP interleave channel (RTP), -1 if not negotiated
 	audioCh int
 	videoRA *librtsp.H264Reassembler
+	audioRA *librtsp.AACReassembler
 	room    *Room
-	//Audio re-assembly is per-packet (every packet is one+ frame), so
-	//no per-publisher state is needed — we just decode each RTP
-	//payload via librtsp.AACAUExtract.
 }
 
 // handleAnnounce picks up an SDP body the publisher just pushed,
@@ -85,6 +83,7 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		videoCh: -1,
 		audioCh: -1,
 		videoRA: &librtsp.H264Reassembler{},
+		audioRA: &librtsp.AACReassembler{},
 		room:    rtmp.room,
 	}
 	s.publishRTMP = rtmp
@@ -199,7 +198,7 @@ func (s *rtspSession) runIngestLoop() {
 // runUDPReader pumps RTP packets off a per-track UDP socket. isAudio
 // distinguishes the two depacketisation paths.
 func (s *rtspSession) runUDPReader(c *net.UDPConn, isAudio bool) {
-	buf := make([]byte, 1500)
+	buf := make([]byte, 1<<16)
 	for atomic.LoadInt32(&s.recording) == 1 {
 		n, from, err := c.ReadFromUDP(buf)
 		if err != nil {
@@ -236,10 +235,16 @@ func (s *rtspSession) handleInterleaved(channel uint8, payload []byte) {
 }
 
 func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
-	nals, ts := s.ingest.videoRA.Push(pkt)
-	if len(nals) == 0 {
+	if pkt.PayloadType != s.ingest.parsed.VideoPayloadType {
 		return
 	}
+	for nals, ts := s.ingest.videoRA.Push(pkt); len(nals) > 0; nals, ts = s.ingest.videoRA.Pop() {
+		s.writeVideo(nals, ts)
+	}
+}
+
+// writeVideo passes an access unit on to the room.
+func (s *rtspSession) writeVideo(nals [][]byte, ts uint32) {
 	avcc := librtsp.AVCCFromNALs(nals)
 	frameType := uint8(libflv.INTER_FRAME)
 	if librtsp.ContainsKeyframe(nals) {
@@ -261,13 +266,17 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 }
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
-	frames := librtsp.AACAUExtract(pkt.Payload)
+	if pkt.PayloadType != s.ingest.parsed.AudioPayloadType {
+		return
+	}
+	frames := s.ingest.audioRA.Push(pkt)
 	rate := s.ingest.parsed.AudioRate
 	if rate <= 0 {
 		rate = 44100
 	}
-	for _, frame := range frames {
-		tagTS := uint32(uint64(pkt.Timestamp) * 1000 / uint64(rate))
+	for i, frame := range frames {
+		//an access unit lasts 1024 ticks of the sampling rate
+		tagTS := uint32((uint64(pkt.Timestamp) + uint64(i)*1024) * 1000 / uint64(rate))
 		soundType := uint8(libflv.SND_STEREO)
 		if s.ingest.parsed.AudioChans == 1 {
 			soundType = libflv.SND_MONO
diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index 0a63d49..e0d67ed 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -66,41 +66,115 @@ func ParseRTP(buf []byte) (*RTPPacket, error) {
 	}, nil
 }
 
+// maxMisorder is how far behind its successors a packet may arrive to be
+// taken for a late one or a repetition; further back the sender has started
+// over (RFC 3550 appendix A.1).
+const maxMisorder = 100
+
+// sequence follows the sequence numbers of a track.
+type sequence struct {
+	started bool
+	next    uint16
+}
+
+// take reports whether the packet is neither late nor a repetition, and
+// whether any are missing in front of it.
+func (s *sequence) take(seq uint16) (ok, gap bool) {
+	ahead := seq - s.next
+	if s.started && ahead >= 1<<16-maxMisorder {
+		return false, false
+	}
+	gap = s.started && ahead != 0
+	s.started, s.next = true, seq+1
+	return true, gap
+}
+
+// accessUnit is what H264Reassembler puts together.
+type accessUnit struct {
+	nals [][]byte
+	ts   uint32
+}
+
 // H264Reassembler accumulates H.264 NAL units across multiple RTP
 // packets. Single-NAL packets emit immediately; FU-A fragmented NALs
 // are buffered until the End-of-fragment bit fires; STAP-A aggregation
 // packets are split into their constituent NALs. The M-bit on the RTP
 // packet signals end-of-access-unit so callers can flush a complete
-// AU into AVCC for forwarding.
+// AU into AVCC for forwarding; if that packet is lost, the next
+// timestamp does. Late packets and repetitions are ignored, and NALs of
+// which a fragment is missing are dropped.
 type H264Reassembler struct {
+	seq       sequence
 	fuBuf     []byte //in-progress FU-A reassembly
 	pending   [][]byte
 	pendingTS uint32
+	done      []accessUnit //completed, not handed out yet
 }
 
 // Push feeds one parsed RTP packet into the reassembler. Returns the
-// list of NAL units that completed an access unit (the M-bit was set
-// on this packet) plus the access-unit timestamp; otherwise returns
-// nil to indicate "still buffering".
+// list of NAL units of an access unit that is complete plus its
+// timestamp, or nil to indicate "still buffering". A packet can complete
+// two, the other one is Pop's.
 func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
-	if len(pkt.Payload) == 0 {
+	ok, gap := r.seq.take(pkt.SequenceNum)
+	if !ok {
+		return r.Pop()
+	}
+	if gap {
+		r.fuBuf = nil
+	}
+	if pkt.Timestamp != r.pendingTS {
+		r.flush()
+		r.fuBuf = nil
+		r.pendingTS = pkt.Timestamp
+	}
+	r.unpack(pkt.Payload)
+	if pkt.Marker {
+		r.flush()
+		r.fuBuf = nil
+	}
+	return r.Pop()
+}
+
+// Pop returns a further access unit that is complete, or nil.
+func (r *H264Reassembler) Pop() (nals [][]byte, ts uint32) {
+	if len(r.done) == 0 {
 		return nil, 0
 	}
-	r.pendingTS = pkt.Timestamp
-	hdr := pkt.Payload[0]
+	au := r.done[0]
+	r.done = r.done[1:]
+	return au.nals, au.ts
+}
+
+func (r *H264Reassembler) flush() {
+	if len(r.pending) > 0 {
+		r.done = append(r.done, accessUnit{r.pending, r.pendingTS})
+		r.pending = nil
+	}
+}
+
+// unpack takes the NALs and fragments out of a payload.
+func (r *H264Reassembler) unpack(payload []byte) {
+	if len(payload) == 0 {
+		return
+	}
+	hdr := payload[0]
 	nalType := hdr & 0x1F
+	if nalType != 28 {
+		r.fuBuf = nil //its end is missing
+	}
 
 	switch {
 	case nalType >= 1 && nalType <= 23:
 		//Single NAL unit packet — payload is the NAL itself.
-		r.pending = append(r.pending, append([]byte(nil), pkt.Payload...))
+		r.pending = append(r.pending, append([]byte(nil), payload...))
 	case nalType == 24:
 		//STAP-A: 1-byte header then a series of [size:2][NAL].
-		body := pkt.Payload[1:]
+		body := payload[1:]
 		for len(body) >= 2 {
 			n := int(binary.BigEndian.Uint16(body[:2]))
 			body = body[2:]
-			if n > len(body) {
+			if n == 0 || n > len(body) {
 				break
 			}
 			r.pending = append(r.pending, append([]byte(nil), body[:n]...))
@@ -109,19 +183,26 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 	case nalType == 28:
 		//FU-A: payload[0] is the FU indicator (NRI bits + type=28),
 		//payload[1] is the FU header (S/E/R + original NAL type).
-		if len(pkt.Payload) < 2 {
-			return nil, 0
+		if len(payload) < 2 {
+			r.fuBuf = nil
+			return
 		}
-		fuHeader := pkt.Payload[1]
+		fuHeader := payload[1]
 		start := fuHeader&0x80 != 0
 		end := fuHeader&0x40 != 0
-		origType := fuHeader & 0x1F
-		if start {
-			//Reconstruct the original NAL header from the FU
-			//indicator's NRI bits + the FU header's type.
-			r.fuBuf = []byte{(hdr & 0xE0) | origType}
+		//Reconstruct the original NAL header from the FU indicator's
+		//NRI bits + the FU header's type.
+		nalHeader := (hdr & 0xE0) | fuHeader&0x1F
+		switch {
+		case start:
+			r.fuBuf = []byte{nalHeader}
+		case r.fuBuf == nil:
+			return //its start is missing
+		case r.fuBuf[0] != nalHeader:
+			r.fuBuf = nil
+			return
 		}
-		r.fuBuf = append(r.fuBuf, pkt.Payload[2:]...)
+		r.fuBuf = append(r.fuBuf, payload[2:]...)
 		if end {
 			r.pending = append(r.pending, r.fuBuf)
 			r.fuBuf = nil
@@ -129,14 +210,52 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 	default:
 		//FU-B / MTAP / etc — not implemented. Skip.
 	}
+}
 
-	if pkt.Marker && len(r.pending) > 0 {
-		nals = r.pending
-		ts = r.pendingTS
-		r.pending = nil
-		return
+// AACReassembler takes the access units out of the packets of an AAC-hbr
+// track: several in one packet, or one in several. Late packets and
+// repetitions are ignored, and units of which a fragment is missing are
+// dropped.
+type AACReassembler struct {
+	seq  sequence
+	frag []byte //in-progress access unit
+	size int    //of it
+	ts   uint32
+}
+
+// Push feeds one parsed RTP packet into the reassembler and returns the
+// frames that are complete. The packet's timestamp is that of the first.
+func (r *AACReassembler) Push(pkt *RTPPacket) [][]byte {
+	ok, gap := r.seq.take(pkt.SequenceNum)
+	if !ok {
+		return nil
+	}
+	if gap || pkt.Timestamp != r.ts {
+		r.frag = nil
+	}
+	r.ts = pkt.Timestamp
+
+	//A fragment comes with the size of the whole unit (RFC 3640 §3.2.3).
+	if p := pkt.Payload; len(p) > 4 && binary.BigEndian.Uint16(p) == 16 {
+		size := int(binary.BigEndian.Uint16(p[2:])) >> 3
+		if size > len(p)-4 {
+			if r.frag != nil && size != r.size {
+				r.frag = nil
+			}
+			r.size = size
+			r.frag = append(r.frag, p[4:]...)
+			var out [][]byte
+			if len(r.frag) == size && pkt.Marker {
+				out = [][]byte{r.frag}
+			}
+			if pkt.Marker || len(r.frag) >= size {
+				r.frag = nil
+			}
+			return out
+		}
 	}
-	return nil, 0
+	r.frag = nil
+	return AACAUExtract(pkt.Payload)
 }
 
 // AACAUExtract decodes a single MPEG4-GENERIC RTP payload (AAC-hbr)
-- 
2.43.0


From 4555695d5e75a6763b1129205b60b45410bf70fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 084/106] fix: follow RTP timestamps over their 32 bits

---
 librtmp/rtsp_ingest.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index bef7d5c..2381087 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -20,9 +20,26 @@ type rtspIngest struct {
 	audioCh int
 	videoRA *librtsp.H264Reassembler
 	audioRA *librtsp.AACReassembler
+	videoTS rtpClock
+	audioTS rtpClock
 	room    *Room
 }
 
+// rtpClock follows the timestamps of a track, which start anywhere and go
+// on from 2^32-1 with 0.
+type rtpClock struct {
+	started bool
+	now     int64
+}
+
+func (c *rtpClock) follow(ts uint32) int64 {
+	if !c.started {
+		c.started, c.now = true, int64(ts)
+	}
+	c.now += int64(int32(ts - uint32(c.now)))
+	return c.now
+}
+
 // handleAnnounce picks up an SDP body the publisher just pushed,
 // extracts SPS/PPS and AAC config, and provisions a local Room so any
 // downstream protocols (HTTP-FLV / HLS / DASH / RTSP PLAY) can mirror
@@ -250,7 +267,7 @@ func (s *rtspSession) writeVideo(nals [][]byte, ts uint32) {
 	if librtsp.ContainsKeyframe(nals) {
 		frameType = libflv.KEY_FRAME
 	}
-	tagTS := ts / 90 //RTP video clock is 90 kHz; FLV tags are ms
+	tagTS := uint32(s.ingest.videoTS.follow(ts) / 90) //RTP video clock is 90 kHz; FLV tags are ms
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
@@ -274,9 +291,10 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 	if rate <= 0 {
 		rate = 44100
 	}
+	now := s.ingest.audioTS.follow(pkt.Timestamp)
 	for i, frame := range frames {
 		//an access unit lasts 1024 ticks of the sampling rate
-		tagTS := uint32((uint64(pkt.Timestamp) + uint64(i)*1024) * 1000 / uint64(rate))
+		tagTS := uint32((now + int64(i)*1024) * 1000 / int64(rate))
 		soundType := uint8(libflv.SND_STEREO)
 		if s.ingest.parsed.AudioChans == 1 {
 			soundType = libflv.SND_MONO
-- 
2.43.0


From 58b06a9a44874671e4cbfd73ea420f2cd2ad68d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 085/106] fix: end the stream reader of an RTSP player with its
 session

---
 librtmp/gop.go         | 14 ++++++++++++--
 librtmp/rtsp_server.go | 10 +++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/librtmp/gop.go b/librtmp/gop.go
index 500ced8..4240d02 100644
--- a/librtmp/gop.go
+++ b/librtmp/gop.go
@@ -107,6 +107,7 @@ type GOPReader struct {
 	index   int
 	pending []libflv.Tag         //headers still to be delivered
 	seen    map[uint8]libflv.Tag //last header delivered, by tag type
+	closed  bool
 }
 
 func NewGOPReader(g *GOP) *GOPReader {
@@ -115,13 +116,21 @@ func NewGOPReader(g *GOP) *GOPReader {
 	return &GOPReader{gop: g, group: g.cur, pending: g.cur.headers, seen: make(map[uint8]libflv.Tag)}
 }
 
+// Close ends a Read that waits, and those to come.
+func (r *GOPReader) Close() {
+	r.gop.mu.Lock()
+	r.closed = true
+	r.gop.mu.Unlock()
+	r.gop.cond.Broadcast()
+}
+
 // Read returns the next tag, waiting for it if need be, or alive=false when
-// the stream has ended.
+// the stream has ended or the reader been closed.
 func (r *GOPReader) Read() (p interface{}, alive bool) {
 	g := r.gop
 	g.mu.Lock()
 	defer g.mu.Unlock()
-	for {
+	for !r.closed {
 		if r.group != g.cur && (r.group != g.prev || (len(r.pending) == 0 && r.index >= len(r.group.items))) {
 			r.group, r.index, r.pending = g.cur, 0, g.cur.headers
 		}
@@ -149,4 +158,5 @@ func (r *GOPReader) Read() (p interface{}, alive bool) {
 		}
 		g.cond.Wait()
 	}
+	return nil, false
 }
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 7ba819e..02574b5 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -63,6 +63,7 @@ type rtspSession struct {
 
 	// PLAY goroutine: sampling rate of AAC, bytes of a NAL unit's length
 	// prefix, and parameter sets that are still to be sent.
+	playReader  *GOPReader
 	playAACRate int
 	playNALULen int
 	playSets    [][]byte
@@ -149,6 +150,9 @@ func (s *rtspSession) readInterleaved() (channel uint8, payload []byte, err erro
 // stream it published, its UDP sockets and its PLAY goroutine.
 func (s *rtspSession) release() {
 	atomic.StoreInt32(&s.playing, 0)
+	if s.playReader != nil {
+		s.playReader.Close()
+	}
 	if s.publishRTMP != nil {
 		s.publishRTMP.cleanup()
 	}
@@ -455,14 +459,15 @@ func (s *rtspSession) handlePlay(req *librtsp.Request, resp *librtsp.Response) *
 	if !atomic.CompareAndSwapInt32(&s.playing, 0, 1) {
 		return resp
 	}
-	go s.streamLoop(rm)
+	s.playReader = NewGOPReader(rm.GOP)
+	go s.streamLoop(rm, s.playReader)
 	return resp
 }
 
 // streamLoop reads from the room's GOP broadcast and emits RTP packets
 // for each video/audio FLV tag. Runs until the publisher disconnects
 // or the TCP connection's write side fails.
-func (s *rtspSession) streamLoop(room *Room) {
+func (s *rtspSession) streamLoop(room *Room, gopReader *GOPReader) {
 	defer atomic.StoreInt32(&s.playing, 0)
 
 	//Parameter sets are also sent in-band, for clients that decode off
@@ -475,7 +480,6 @@ func (s *rtspSession) streamLoop(room *Room) {
 		s.playAACRate, _ = aacFormat(audioHdr.Data())
 	}
 
-	gopReader := NewGOPReader(room.GOP)
 	for atomic.LoadInt32(&s.playing) == 1 {
 		p, alive := gopReader.Read()
 		if !alive {
-- 
2.43.0


From a56acce83661be0966203c0ed52b4324354d7779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 086/106] fix: WebSocket upgrades without a key or Connection
 header are answered 400

---
 librtmp/websocket.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 7b161e3..0f82671 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -56,10 +56,12 @@ func upgradeWebSocket(w http.ResponseWriter, r *http.Request) (*wsConn, error) {
 		return nil, errors.New("not a websocket upgrade")
 	}
 	if !strings.Contains(strings.ToLower(r.Header.Get("Connection")), "upgrade") {
+		w.WriteHeader(http.StatusBadRequest)
 		return nil, errors.New("missing Connection: Upgrade")
 	}
 	key := r.Header.Get("Sec-WebSocket-Key")
 	if key == "" {
+		w.WriteHeader(http.StatusBadRequest)
 		return nil, errors.New("missing Sec-WebSocket-Key")
 	}
 
-- 
2.43.0


From 1ce7890c293356261ba2b16d82f8dc7f7d07c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 087/106] fix: oversized and fragmented WebSocket control
 frames end the connection

---
 librtmp/websocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 0f82671..6f1a969 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -150,6 +150,10 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 		plen = binary.BigEndian.Uint64(ext)
 	}
 
+	if op >= wsOpClose && (!fin || plen > 125) {
+		return 0, nil, errors.New("invalid control frame")
+	}
+
 	var maskKey [4]byte
 	if masked {
 		if _, err := io.ReadFull(ws.br, maskKey[:]); err != nil {
-- 
2.43.0


From 8ee819c60ca03b9069141e413c435d7a0ebaefe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 088/106] fix: closing a WebSocket does not wait for a client
 that has stopped reading, and nothing follows the close frame

---
 librtmp/websocket.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 6f1a969..5cef470 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -11,6 +11,8 @@ import (
 	"net"
 	"net/http"
 	"strings"
+	"sync"
+	"time"
 )
 
 // Minimal RFC 6455 server implementation. Covers exactly what flv.js
@@ -40,11 +42,17 @@ const (
 // send control frames and the odd short message.
 const wsMaxClientFrame = 1 << 20
 
+// wsCloseTimeout bounds the wait for a client to take the close frame.
+const wsCloseTimeout = 2 * time.Second
+
 // wsConn is a thin server-side WebSocket connection. The caller owns
 // the underlying net.Conn lifetime.
 type wsConn struct {
 	conn net.Conn
 	br   *bufio.Reader
+
+	mu   sync.Mutex
+	werr error //no frame can be written any more
 }
 
 // upgradeWebSocket performs the HTTP/1.1 Upgrade handshake against
@@ -116,8 +124,17 @@ func (ws *wsConn) writeFrame(op wsOpcode, payload []byte) error {
 	}
 
 	//One write per frame: the viewer's writer and the ping responder
-	//share the connection.
+	//share the connection. Nothing follows a close frame, or a frame that
+	//was cut short.
+	ws.mu.Lock()
+	defer ws.mu.Unlock()
+	if ws.werr != nil {
+		return ws.werr
+	}
 	_, err := ws.conn.Write(append(header, payload...))
+	if ws.werr = err; err == nil && op == wsOpClose {
+		ws.werr = net.ErrClosed
+	}
 	return err
 }
 
@@ -185,6 +202,8 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 // Close sends a close frame (best-effort) and tears down the TCP
 // connection.
 func (ws *wsConn) Close() error {
+	//The client may have stopped reading.
+	_ = ws.conn.SetWriteDeadline(time.Now().Add(wsCloseTimeout))
 	_ = ws.writeFrame(wsOpClose, nil)
 	return ws.conn.Close()
 }
-- 
2.43.0


From 1277cd0553077081cfdc4cb9c8e4d7c347bf188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 089/106] fix: FLV viewers that leave do not linger until the
 stream's next tag

---
 librtmp/room.go   | 14 ++++++++++++++
 librtmp/server.go |  4 ++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/librtmp/room.go b/librtmp/room.go
index db810f3..d41190c 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -145,6 +145,11 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 }
 
 func (room *Room) FLVJoin(writer easyio.EasyWriter) {
+	room.flvJoin(writer, nil)
+}
+
+// flvJoin writes the stream to writer until either ends, or stop is closed.
+func (room *Room) flvJoin(writer easyio.EasyWriter, stop <-chan struct{}) {
 	//FLV header + PreviousTagSize0 (always zero).
 	if err := writer.WriteFull([]byte{0x46, 0x4c, 0x56, 0x01, 0x05, 0x00, 0x00, 0x00, 0x09, 0x00, 0x00, 0x00, 0x00}); err != nil {
 		return
@@ -169,6 +174,15 @@ func (room *Room) FLVJoin(writer easyio.EasyWriter) {
 	}
 
 	gopReader := NewGOPReader(room.GOP)
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		select {
+		case <-stop:
+			gopReader.Close()
+		case <-done:
+		}
+	}()
 	for {
 		p, alive := gopReader.Read()
 		if !alive {
diff --git a/librtmp/server.go b/librtmp/server.go
index 91805e2..8749042 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -276,7 +276,7 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 			go ws.servePings(stop)
 			done := make(chan struct{})
 			go func() {
-				room.FLVJoin(easyio.NewEasyWriter(&wsWriter{ws: ws}))
+				room.flvJoin(easyio.NewEasyWriter(&wsWriter{ws: ws}), stop)
 				close(done)
 			}()
 			select {
@@ -297,7 +297,7 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 		//tag via the wrapped writer below.
 
 		flusher, _ := w.(http.Flusher)
-		room.FLVJoin(newFlushingWriter(w, flusher))
+		room.flvJoin(newFlushingWriter(w, flusher), r.Context().Done())
 	})
 	wg.Done()
 	return http.Serve(flvListener, mux)
-- 
2.43.0


From fa4be6e8e96ee1c9d7eb290bca32a9920bb95165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 090/106] fix: a PMT packet whose pointer field leads out of
 the packet does not take the server down

---
 libsrt/tsdemux.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 51d0ba4..2d0f949 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -136,10 +136,10 @@ func (d *Demuxer) parsePMT(payload []byte) {
 		return
 	}
 	pointer := int(payload[0])
-	body := payload[1+pointer:]
-	if len(body) < 12 {
+	if 1+pointer+12 > len(payload) {
 		return
 	}
+	body := payload[1+pointer:]
 	sectionLen := int(binary.BigEndian.Uint16(body[1:3])&0x0FFF) + 3
 	if sectionLen > len(body) {
 		sectionLen = len(body)
-- 
2.43.0


From 98237180339e1f92f0dbe9600633adf8a9a5f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 091/106] fix: TS tables longer than a packet are read, and
 damaged or future ones ignored

---
 libsrt/tsdemux.go | 94 +++++++++++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 35 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 2d0f949..5149870 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -2,12 +2,14 @@ package libsrt
 
 import (
 	"encoding/binary"
+
+	"github.com/sbraveyoung/GGmpeg/libmpeg"
 )
 
 // Tiny MPEG-TS demultiplexer. Just enough to split an SRT-delivered TS
 // stream back into FLV-flavoured access units (H.264 NALs from the
-// video PES, AAC ADTS frames from the audio PES). We don't validate
-// CRC or chase DSCRPTRs — for known-good FFmpeg output the assumptions
+// video PES, AAC ADTS frames from the audio PES). We don't
+// chase DSCRPTRs — for known-good FFmpeg output the assumptions
 // below hold, and a malformed packet just gets dropped.
 //
 // The flow is:
@@ -55,6 +57,9 @@ type Demuxer struct {
 	audioTS   uint64
 	OnVideo   func(AccessUnit)
 	OnAudio   func(AudioFrame)
+
+	patBuf []byte //sections in progress
+	pmtBuf []byte
 }
 
 // NewDemuxer returns a fresh demuxer. Callbacks should be set before
@@ -91,9 +96,9 @@ func (d *Demuxer) Feed(buf []byte) {
 
 		switch pid {
 		case 0x0000:
-			d.parsePAT(payload)
+			feedSection(&d.patBuf, pusi, payload, d.parsePAT)
 		case d.pmtPID:
-			d.parsePMT(payload)
+			feedSection(&d.pmtBuf, pusi, payload, d.parsePMT)
 		case d.videoPID:
 			d.feedVideo(pusi, payload)
 		case d.audioPID:
@@ -102,27 +107,55 @@ func (d *Demuxer) Feed(buf []byte) {
 	}
 }
 
+// feedSection collects the sections of a table from its packets and hands
+// over those that are complete, correct and in force, without their CRC.
+func feedSection(buf *[]byte, pusi bool, payload []byte, parse func(section []byte)) {
+	take := func() {
+		for len(*buf) >= 3 && (*buf)[0] != 0xFF { //0xFF: stuffing
+			n := 3 + int(binary.BigEndian.Uint16((*buf)[1:3])&0x0FFF)
+			if len(*buf) < n {
+				return
+			}
+			section := (*buf)[:n]
+			*buf = (*buf)[n:]
+			if n >= 12 && section[5]&0x01 != 0 && libmpeg.CRC32(section) == 0 {
+				parse(section[:n-4])
+			}
+		}
+	}
+	if pusi {
+		//The end of one section may come before the start of the next.
+		if len(payload) < 1 || 1+int(payload[0]) > len(payload) {
+			*buf = nil
+			return
+		}
+		if len(*buf) > 0 {
+			*buf = append(*buf, payload[1:1+int(payload[0])]...)
+			take()
+		}
+		*buf = append([]byte(nil), payload[1+int(payload[0]):]...)
+		take()
+	} else if len(*buf) > 0 && (*buf)[0] != 0xFF {
+		*buf = append(*buf, payload...)
+		take()
+	}
+}
+
 // parsePAT pulls the first PMT entry from the Program Association
 // Table. We only support a single program; multi-program TS would need
 // a richer accumulator.
-func (d *Demuxer) parsePAT(payload []byte) {
-	if len(payload) < 2 {
-		return
-	}
-	//Skip pointer + section header (8 bytes).
-	pointer := int(payload[0])
-	if 1+pointer+8 > len(payload) {
+func (d *Demuxer) parsePAT(section []byte) {
+	if section[0] != 0x00 {
 		return
 	}
-	body := payload[1+pointer:]
-	//Section length covers everything from after section_length itself
-	//up to and including the CRC. For our needs we just walk the
-	//program loop right after the 8-byte fixed header.
-	for off := 8; off+4 <= len(body)-4; off += 4 {
-		programNumber := binary.BigEndian.Uint16(body[off : off+2])
-		pid := binary.BigEndian.Uint16(body[off+2:off+4]) & 0x1FFF
+	//The program loop follows the 8-byte fixed header.
+	for off := 8; off+4 <= len(section); off += 4 {
+		programNumber := binary.BigEndian.Uint16(section[off : off+2])
+		pid := binary.BigEndian.Uint16(section[off+2:off+4]) & 0x1FFF
 		if programNumber != 0 {
-			d.pmtPID = pid
+			if pid != d.pmtPID {
+				d.pmtPID, d.pmtBuf = pid, nil
+			}
 			return
 		}
 	}
@@ -131,25 +164,16 @@ func (d *Demuxer) parsePAT(payload []byte) {
 // parsePMT fishes the audio/video stream PIDs out of a Program Map
 // Table. stream_type 0x1B = H.264, 0x24 = HEVC, 0x0F = AAC ADTS,
 // 0x11 = LATM (we don't handle), 0xC1 = AC-3 (skipped).
-func (d *Demuxer) parsePMT(payload []byte) {
-	if len(payload) < 2 {
-		return
-	}
-	pointer := int(payload[0])
-	if 1+pointer+12 > len(payload) {
+func (d *Demuxer) parsePMT(section []byte) {
+	if section[0] != 0x02 || len(section) < 12 {
 		return
 	}
-	body := payload[1+pointer:]
-	sectionLen := int(binary.BigEndian.Uint16(body[1:3])&0x0FFF) + 3
-	if sectionLen > len(body) {
-		sectionLen = len(body)
-	}
-	progInfoLen := int(binary.BigEndian.Uint16(body[10:12]) & 0x0FFF)
+	progInfoLen := int(binary.BigEndian.Uint16(section[10:12]) & 0x0FFF)
 	off := 12 + progInfoLen
-	for off+5 <= sectionLen-4 {
-		streamType := body[off]
-		streamPID := binary.BigEndian.Uint16(body[off+1:off+3]) & 0x1FFF
-		esInfoLen := int(binary.BigEndian.Uint16(body[off+3:off+5]) & 0x0FFF)
+	for off+5 <= len(section) {
+		streamType := section[off]
+		streamPID := binary.BigEndian.Uint16(section[off+1:off+3]) & 0x1FFF
+		esInfoLen := int(binary.BigEndian.Uint16(section[off+3:off+5]) & 0x0FFF)
 		off += 5 + esInfoLen
 		switch streamType {
 		case 0x1B, 0x24:
-- 
2.43.0


From 9f4785e97ea8f2aa11eb21b1727153557d65a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 092/106] fix: TS packets may be split between SRT datagrams,
 and what follows a damaged one is not lost

---
 libsrt/tsdemux.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 5149870..7c13e61 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -60,24 +60,40 @@ type Demuxer struct {
 
 	patBuf []byte //sections in progress
 	pmtBuf []byte
+	rest   []byte //what was fed of a packet still to be completed
+	lost   bool   //packet boundaries are to be found again
 }
 
 // NewDemuxer returns a fresh demuxer. Callbacks should be set before
 // calling Feed.
 func NewDemuxer() *Demuxer { return &Demuxer{} }
 
-// Feed processes one or more concatenated 188-byte TS packets. Bytes
-// that don't make up a full packet are silently discarded; FFmpeg's
-// SRT transport always packs complete TS packets per UDP datagram.
+// Feed processes the next bytes of the stream, which need not be whole
+// packets. Where packets do not start with a sync byte, it goes on with the
+// next two that do.
 func (d *Demuxer) Feed(buf []byte) {
+	if len(d.rest) > 0 {
+		buf = append(d.rest, buf...)
+	}
+	defer func() { d.rest = append([]byte(nil), buf...) }()
 	for len(buf) >= TSPacketSize {
+		if buf[0] != 0x47 || d.lost {
+			if len(buf) == TSPacketSize {
+				return
+			}
+			next := buf[TSPacketSize] == 0x47
+			if next && buf[0] != 0x47 && !d.lost {
+				//Just this packet is damaged.
+				buf = buf[TSPacketSize:]
+				continue
+			}
+			if d.lost = !next || buf[0] != 0x47; d.lost {
+				buf = buf[1:]
+				continue
+			}
+		}
 		pkt := buf[:TSPacketSize]
 		buf = buf[TSPacketSize:]
-		if pkt[0] != 0x47 {
-			//Resync would be smart but rare in practice; bail out
-			//on this datagram.
-			return
-		}
 		pid := uint16(pkt[1]&0x1F)<<8 | uint16(pkt[2])
 		pusi := pkt[1]&0x40 != 0
 		afCtrl := (pkt[3] >> 4) & 0x03 //adaptation field control
-- 
2.43.0


From 0b9090e279338528738fe3d6536f982c385373aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 093/106] fix: TS ingest drops PES packets with missing or
 damaged TS packets, and repeated TS packets

---
 libsrt/tsdemux.go | 49 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 7c13e61..bc8a148 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -1,6 +1,7 @@
 package libsrt
 
 import (
+	"bytes"
 	"encoding/binary"
 
 	"github.com/sbraveyoung/GGmpeg/libmpeg"
@@ -51,6 +52,8 @@ type Demuxer struct {
 	videoPID  uint16
 	audioPID  uint16
 	videoBuf  []byte
+	videoIn   pesInput
+	audioIn   pesInput
 	videoTS   uint64 //PTS of in-progress PES (90 kHz)
 	videoDTS  uint64
 	audioBuf  []byte
@@ -105,10 +108,15 @@ func (d *Demuxer) Feed(buf []byte) {
 				continue
 			}
 		}
-		if afCtrl == 0 || afCtrl == 2 {
+		if afCtrl == 0 || afCtrl == 2 || off == TSPacketSize {
 			continue //no payload
 		}
 		payload := pkt[off:]
+		if pkt[1]&0x80 != 0 || pkt[3]&0xC0 != 0 {
+			continue //damaged, or scrambled
+		}
+		cc := pkt[3] & 0x0F
+		jump := afCtrl == 3 && pkt[4] > 0 && pkt[5]&0x80 != 0
 
 		switch pid {
 		case 0x0000:
@@ -116,9 +124,13 @@ func (d *Demuxer) Feed(buf []byte) {
 		case d.pmtPID:
 			feedSection(&d.pmtBuf, pusi, payload, d.parsePMT)
 		case d.videoPID:
-			d.feedVideo(pusi, payload)
+			if d.videoIn.take(pid, cc, jump, pusi, payload, &d.videoBuf) {
+				d.feedVideo(pusi, payload)
+			}
 		case d.audioPID:
-			d.feedAudio(pusi, payload)
+			if d.audioIn.take(pid, cc, jump, pusi, payload, &d.audioBuf) {
+				d.feedAudio(pusi, payload)
+			}
 		}
 	}
 }
@@ -200,6 +212,35 @@ func (d *Demuxer) parsePMT(section []byte) {
 	}
 }
 
+// pesInput follows the packets of one elementary stream.
+type pesInput struct {
+	pid  uint16
+	cc   byte   //continuity counter and payload of the last packet
+	last []byte //nil: there was none
+	open bool   //a PES packet has started, and nothing of it is missing
+}
+
+// take reports whether a packet is to be used. When packets before it are
+// missing, it drops what has come of the PES packet they belong to.
+func (p *pesInput) take(pid uint16, cc byte, jump, pusi bool, payload []byte, buf *[]byte) bool {
+	if p.last != nil && p.pid == pid && !jump {
+		if cc == p.cc && bytes.Equal(payload, p.last) {
+			return false //a packet may be sent twice
+		}
+		if cc != (p.cc+1)&0x0F {
+			p.open = false
+			*buf = (*buf)[:0]
+		}
+	} else if p.pid != pid && !pusi {
+		p.open = false
+	}
+	p.pid, p.cc, p.last = pid, cc, append(p.last[:0], payload...)
+	if pusi {
+		p.open = true
+	}
+	return p.open
+}
+
 // feedVideo / feedAudio buffer PES bytes, flushing on PUSI boundaries.
 // Internally we treat one PES unit as one access unit (true for live
 // MPEG-TS produced by FFmpeg with -codec copy from H.264).
@@ -210,6 +251,7 @@ func (d *Demuxer) feedVideo(pusi bool, payload []byte) {
 	if pusi {
 		pts, dts, body, ok := parsePESHeader(payload)
 		if !ok {
+			d.videoIn.open = false
 			return
 		}
 		d.videoTS = pts
@@ -242,6 +284,7 @@ func (d *Demuxer) feedAudio(pusi bool, payload []byte) {
 	if pusi {
 		pts, _, body, ok := parsePESHeader(payload)
 		if !ok {
+			d.audioIn.open = false
 			return
 		}
 		d.audioTS = pts
-- 
2.43.0


From 362805eb8b605fb70cd8e0c2f1da2c372bca4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 094/106] fix: the header of a PES packet may be split between
 TS packets

---
 libsrt/tsdemux.go | 55 ++++++++++++-----------------------------------
 1 file changed, 14 insertions(+), 41 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index bc8a148..799e76b 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -54,10 +54,7 @@ type Demuxer struct {
 	videoBuf  []byte
 	videoIn   pesInput
 	audioIn   pesInput
-	videoTS   uint64 //PTS of in-progress PES (90 kHz)
-	videoDTS  uint64
 	audioBuf  []byte
-	audioTS   uint64
 	OnVideo   func(AccessUnit)
 	OnAudio   func(AudioFrame)
 
@@ -248,61 +245,37 @@ func (d *Demuxer) feedVideo(pusi bool, payload []byte) {
 	if pusi && len(d.videoBuf) > 0 {
 		d.flushVideo()
 	}
-	if pusi {
-		pts, dts, body, ok := parsePESHeader(payload)
-		if !ok {
-			d.videoIn.open = false
-			return
-		}
-		d.videoTS = pts
-		d.videoDTS = dts
-		d.videoBuf = append(d.videoBuf[:0], body...)
-		return
-	}
 	d.videoBuf = append(d.videoBuf, payload...)
 }
 
 func (d *Demuxer) flushVideo() {
-	if d.OnVideo == nil {
-		d.videoBuf = d.videoBuf[:0]
-		return
-	}
-	au := AccessUnit{
-		PTS: d.videoTS,
-		DTS: d.videoDTS,
-		NAL: append([]byte(nil), d.videoBuf...),
-		Key: containsAnnexBKeyframe(d.videoBuf),
+	pts, dts, body, ok := parsePESHeader(d.videoBuf)
+	if ok && d.OnVideo != nil {
+		d.OnVideo(AccessUnit{
+			PTS: pts,
+			DTS: dts,
+			NAL: append([]byte(nil), body...),
+			Key: containsAnnexBKeyframe(body),
+		})
 	}
 	d.videoBuf = d.videoBuf[:0]
-	d.OnVideo(au)
 }
 
 func (d *Demuxer) feedAudio(pusi bool, payload []byte) {
 	if pusi && len(d.audioBuf) > 0 {
 		d.flushAudio()
 	}
-	if pusi {
-		pts, _, body, ok := parsePESHeader(payload)
-		if !ok {
-			d.audioIn.open = false
-			return
-		}
-		d.audioTS = pts
-		d.audioBuf = append(d.audioBuf[:0], body...)
-		return
-	}
 	d.audioBuf = append(d.audioBuf, payload...)
 }
 
 func (d *Demuxer) flushAudio() {
-	if d.OnAudio == nil {
-		d.audioBuf = d.audioBuf[:0]
-		return
+	pts, _, body, ok := parsePESHeader(d.audioBuf)
+	if ok && d.OnAudio != nil {
+		d.OnAudio(AudioFrame{
+			PTS:  pts,
+			Data: append([]byte(nil), body...),
+		})
 	}
-	d.OnAudio(AudioFrame{
-		PTS:  d.audioTS,
-		Data: append([]byte(nil), d.audioBuf...),
-	})
 	d.audioBuf = d.audioBuf[:0]
 }
 
-- 
2.43.0


From 3b39e76e1a491bfb413e76304ddc1f995ef4614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 095/106] fix: TS ingest splits PES packets into AAC frames

---
 librtmp/srt_server.go |  9 +++++-
 libsrt/tsdemux.go     | 71 +++++++++++++++++++++++++++++++++++++------
 2 files changed, 70 insertions(+), 10 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index a9b31b1..341346f 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -188,6 +188,13 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 	if af.Data[0] != 0xFF || (af.Data[1]&0xF0) != 0xF0 {
 		return //not ADTS — punt
 	}
+	header := 7
+	if af.Data[1]&0x01 == 0 {
+		header = 9 //with a CRC
+	}
+	if len(af.Data) < header {
+		return
+	}
 	profile := (af.Data[2] >> 6) & 0x03                              //2 bits
 	sampleIndex := (af.Data[2] >> 2) & 0x0F                          //4 bits
 	channels := ((af.Data[2] & 0x01) << 2) | ((af.Data[3] >> 6) & 0x03)
@@ -230,7 +237,7 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 		SoundSize:     libflv.SND_16_BIT,
 		SoundType:     soundType,
 		AACPacketType: libflv.AAC_RAW,
-		SoundData:     af.Data[7:], //strip 7-byte ADTS header
+		SoundData:     af.Data[header:], //strip the ADTS header
 	}
 	at.DataSize = uint32(len(at.Data()))
 	br.room.GOP.Write(at)
diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 799e76b..642718d 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -54,6 +54,8 @@ type Demuxer struct {
 	videoBuf  []byte
 	videoIn   pesInput
 	audioIn   pesInput
+	adts      []byte //start of an audio frame that goes on in the next PES packet
+	adtsPTS   uint64
 	audioBuf  []byte
 	OnVideo   func(AccessUnit)
 	OnAudio   func(AudioFrame)
@@ -121,11 +123,11 @@ func (d *Demuxer) Feed(buf []byte) {
 		case d.pmtPID:
 			feedSection(&d.pmtBuf, pusi, payload, d.parsePMT)
 		case d.videoPID:
-			if d.videoIn.take(pid, cc, jump, pusi, payload, &d.videoBuf) {
+			if d.videoIn.take(pid, cc, jump, pusi, payload, d.dropVideo) {
 				d.feedVideo(pusi, payload)
 			}
 		case d.audioPID:
-			if d.audioIn.take(pid, cc, jump, pusi, payload, &d.audioBuf) {
+			if d.audioIn.take(pid, cc, jump, pusi, payload, d.dropAudio) {
 				d.feedAudio(pusi, payload)
 			}
 		}
@@ -219,14 +221,14 @@ type pesInput struct {
 
 // take reports whether a packet is to be used. When packets before it are
 // missing, it drops what has come of the PES packet they belong to.
-func (p *pesInput) take(pid uint16, cc byte, jump, pusi bool, payload []byte, buf *[]byte) bool {
+func (p *pesInput) take(pid uint16, cc byte, jump, pusi bool, payload []byte, drop func()) bool {
 	if p.last != nil && p.pid == pid && !jump {
 		if cc == p.cc && bytes.Equal(payload, p.last) {
 			return false //a packet may be sent twice
 		}
 		if cc != (p.cc+1)&0x0F {
 			p.open = false
-			*buf = (*buf)[:0]
+			drop()
 		}
 	} else if p.pid != pid && !pusi {
 		p.open = false
@@ -261,6 +263,13 @@ func (d *Demuxer) flushVideo() {
 	d.videoBuf = d.videoBuf[:0]
 }
 
+func (d *Demuxer) dropVideo() { d.videoBuf = d.videoBuf[:0] }
+
+func (d *Demuxer) dropAudio() {
+	d.audioBuf = d.audioBuf[:0]
+	d.adts = nil
+}
+
 func (d *Demuxer) feedAudio(pusi bool, payload []byte) {
 	if pusi && len(d.audioBuf) > 0 {
 		d.flushAudio()
@@ -270,15 +279,59 @@ func (d *Demuxer) feedAudio(pusi bool, payload []byte) {
 
 func (d *Demuxer) flushAudio() {
 	pts, _, body, ok := parsePESHeader(d.audioBuf)
-	if ok && d.OnAudio != nil {
-		d.OnAudio(AudioFrame{
-			PTS:  pts,
-			Data: append([]byte(nil), body...),
-		})
+	if !ok {
+		d.adts = nil
+	} else {
+		if d.audioBuf[7]&0x80 == 0 { //no PTS
+			d.splitADTS(nil, body)
+		} else {
+			d.splitADTS(&pts, body)
+		}
 	}
 	d.audioBuf = d.audioBuf[:0]
 }
 
+// splitADTS emits the frames of a PES packet, the first of which may have
+// started in the packet before. pts, if given, is that of the first frame
+// starting in it.
+func (d *Demuxer) splitADTS(pts *uint64, body []byte) {
+	buf := append(d.adts, body...)
+	old := len(d.adts) //bytes of buf that came with the packet before
+	at := d.adtsPTS    //of the frame buf starts with
+	for {
+		if old <= 0 && pts != nil {
+			at, pts = *pts, nil
+		}
+		if len(buf) < 7 {
+			break
+		}
+		n := int(buf[3]&0x03)<<11 | int(buf[4])<<3 | int(buf[5])>>5
+		if buf[0] != 0xFF || buf[1]&0xF6 != 0xF0 || n < 7 {
+			buf, old = buf[1:], old-1 //find the next frame
+			continue
+		}
+		if len(buf) < n {
+			break
+		}
+		if d.OnAudio != nil {
+			d.OnAudio(AudioFrame{PTS: at, Data: append([]byte(nil), buf[:n]...)})
+		}
+		at = (at + adtsTicks(buf)) & (1<<33 - 1)
+		buf, old = buf[n:], old-n
+	}
+	d.adts, d.adtsPTS = append([]byte(nil), buf...), at
+}
+
+// adtsTicks is the duration of an ADTS frame in 90 kHz units.
+func adtsTicks(frame []byte) uint64 {
+	rates := [...]uint64{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
+	i := int(frame[2]>>2) & 0x0F
+	if i >= len(rates) {
+		return 0
+	}
+	return uint64(1+frame[6]&0x03) * 1024 * 90000 / rates[i]
+}
+
 // parsePESHeader pulls the PTS (and DTS, when present) out of a PES
 // header and returns the residual elementary-stream body. The header
 // is 9 bytes fixed + variable-length PES header data.
-- 
2.43.0


From 5f39188dff167d75a1dcc6511cca34df12579ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 096/106] fix: the last picture and audio of an SRT session are
 not lost, PES packets cut short are dropped

---
 librtmp/srt_server.go |  1 +
 libsrt/tsdemux.go     | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 341346f..a1c3184 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -101,6 +101,7 @@ func (br *srtBridge) close() {
 	room := br.room
 	br.mu.Unlock()
 	if room != nil {
+		br.demux.Flush()
 		room.Publisher.cleanup()
 	}
 }
diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 642718d..9e410c6 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -134,6 +134,16 @@ func (d *Demuxer) Feed(buf []byte) {
 	}
 }
 
+// Flush emits what is complete once no more bytes will come.
+func (d *Demuxer) Flush() {
+	if d.videoIn.open && len(d.videoBuf) > 0 {
+		d.flushVideo()
+	}
+	if d.audioIn.open && len(d.audioBuf) > 0 {
+		d.flushAudio()
+	}
+}
+
 // feedSection collects the sections of a table from its packets and hands
 // over those that are complete, correct and in force, without their CRC.
 func feedSection(buf *[]byte, pusi bool, payload []byte, parse func(section []byte)) {
@@ -347,6 +357,12 @@ func parsePESHeader(b []byte) (pts, dts uint64, body []byte, ok bool) {
 	if 9+hdrLen > len(b) {
 		return
 	}
+	if n := 6 + int(binary.BigEndian.Uint16(b[4:6])); n >= 9+hdrLen {
+		if n > len(b) {
+			return //cut short
+		}
+		b = b[:n]
+	}
 	switch flag {
 	case 0x80:
 		if hdrLen < 5 {
-- 
2.43.0


From 62e46e619ea3fab7749b701d1eb4eb8f268c9af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 097/106] fix: time stamps of an SRT session go on when the TS
 clock wraps around

---
 librtmp/srt_server.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index a1c3184..111cca4 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -38,6 +38,9 @@ type srtBridge struct {
 	emittedAudioSeqHdr bool
 	cachedSPS          []byte
 	cachedPPS          []byte
+
+	started bool
+	lastTS  int64 //last time stamp, in 90 kHz units since the start of its clock
 }
 
 // startSRT installs the listener; called from server.Handler() once
@@ -106,6 +109,18 @@ func (br *srtBridge) close() {
 	}
 }
 
+// milliseconds turns a 90 kHz time stamp of 33 bits, which wraps around
+// within a long session, into the time of an FLV tag.
+func (br *srtBridge) milliseconds(t uint64) uint32 {
+	if br.started {
+		if ext := br.lastTS + int64((t-uint64(br.lastTS))<<31)>>31; ext >= 0 {
+			t = uint64(ext)
+		}
+	}
+	br.started, br.lastTS = true, int64(t)
+	return uint32(t / 90)
+}
+
 // onVideo converts an AnnexB-formatted access unit into FLV video
 // tag(s). On the first IDR we mine SPS/PPS, emit the AVC sequence
 // header, then continue with NALU tags.
@@ -162,8 +177,8 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 		avcc = append(avcc, sz[:]...)
 		avcc = append(avcc, n...)
 	}
-	tagTS := uint32(au.DTS / 90) //PTS/DTS in 90 kHz; FLV in ms
-	cts := uint32((au.PTS - au.DTS) / 90)
+	tagTS := br.milliseconds(au.DTS)
+	cts := uint32((au.PTS - au.DTS) & (1<<33 - 1) / 90)
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
@@ -232,7 +247,7 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 		soundType = libflv.SND_MONO
 	}
 	at := &libflv.AudioTag{
-		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: uint32(af.PTS / 90)},
+		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: br.milliseconds(af.PTS)},
 		SoundFormat:   libflv.FLV_AUDIO_AAC,
 		SoundRate:     3,
 		SoundSize:     libflv.SND_16_BIT,
-- 
2.43.0


From 5da2941a542a6d5c24e780405f9f90f5830f9eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:49 +0000
Subject: [PATCH 098/106] fix: SRT ingest takes up all parameter sets and their
 changes

---
 librtmp/srt_server.go | 85 +++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 40 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 111cca4..e8bb876 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -1,6 +1,7 @@
 package librtmp
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"sync"
@@ -33,11 +34,11 @@ type srtBridge struct {
 	// an in-band IDR access unit, we synthesise AVCDecoderConfigurationRecord
 	// and emit the FLV video sequence header. Same idea for AAC: pull
 	// the codec config out of the first ADTS frame and emit the audio
-	// sequence header.
-	emittedVideoSeqHdr bool
-	emittedAudioSeqHdr bool
-	cachedSPS          []byte
-	cachedPPS          []byte
+	// sequence header. Both are emitted again when they change.
+	cachedSPS          [][]byte
+	cachedPPS          [][]byte
+	videoSeqHdr        []byte //last ones emitted
+	audioSeqHdr        []byte
 
 	started bool
 	lastTS  int64 //last time stamp, in 90 kHz units since the start of its clock
@@ -126,30 +127,32 @@ func (br *srtBridge) milliseconds(t uint64) uint32 {
 // header, then continue with NALU tags.
 func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 	nals := splitAnnexB(au.NAL)
-	var sps, pps []byte
-	var pictureNALs [][]byte
+	var sps, pps, pictureNALs [][]byte
 	for _, n := range nals {
 		if len(n) == 0 {
 			continue
 		}
 		switch n[0] & 0x1F {
 		case 7:
-			sps = n
+			if len(n) >= 4 {
+				sps = append(sps, n)
+			}
 		case 8:
-			pps = n
+			pps = append(pps, n)
 		default:
 			pictureNALs = append(pictureNALs, n)
 		}
 	}
-	if !br.emittedVideoSeqHdr {
-		if sps != nil {
-			br.cachedSPS = sps
-		}
-		if pps != nil {
-			br.cachedPPS = pps
-		}
-		if br.cachedSPS != nil && br.cachedPPS != nil {
-			seq := buildAVCSequenceHeader([][]byte{br.cachedSPS}, [][]byte{br.cachedPPS})
+	tagTS := br.milliseconds(au.DTS)
+	if sps != nil {
+		br.cachedSPS = sps
+	}
+	if pps != nil {
+		br.cachedPPS = pps
+	}
+	if br.cachedSPS != nil && br.cachedPPS != nil && len(br.cachedSPS) < 32 && len(br.cachedPPS) < 256 {
+		seq := buildAVCSequenceHeader(br.cachedSPS, br.cachedPPS)
+		if !bytes.Equal(seq, br.videoSeqHdr) {
 			vt := &libflv.VideoTag{
 				TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: 0},
 				FrameType:     libflv.KEY_FRAME,
@@ -157,10 +160,13 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 				AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
 				VideoData:     seq,
 			}
+			if br.videoSeqHdr != nil {
+				vt.TimeStamp = tagTS
+			}
 			vt.DataSize = uint32(len(vt.Data()))
 			br.room.setVideoSequenceHeader(vt)
 			br.room.GOP.WriteMeta(vt)
-			br.emittedVideoSeqHdr = true
+			br.videoSeqHdr = seq
 		}
 	}
 	if len(pictureNALs) == 0 {
@@ -177,7 +183,6 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 		avcc = append(avcc, sz[:]...)
 		avcc = append(avcc, n...)
 	}
-	tagTS := br.milliseconds(au.DTS)
 	cts := uint32((au.PTS - au.DTS) & (1<<33 - 1) / 90)
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
@@ -214,20 +219,21 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 	profile := (af.Data[2] >> 6) & 0x03                              //2 bits
 	sampleIndex := (af.Data[2] >> 2) & 0x0F                          //4 bits
 	channels := ((af.Data[2] & 0x01) << 2) | ((af.Data[3] >> 6) & 0x03)
-	if !br.emittedAudioSeqHdr {
-		//AAC AudioSpecificConfig per ISO/IEC 14496-3:
-		//  5 bits profile (audio object type, ADTS profile + 1)
-		//  4 bits sampling frequency index
-		//  4 bits channel config
-		//  3 bits pad
-		objType := uint8(profile) + 1
-		var asc [2]byte
-		asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07
-		asc[1] = ((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3
-		soundType := uint8(libflv.SND_STEREO)
-		if channels == 1 {
-			soundType = libflv.SND_MONO
-		}
+	tagTS := br.milliseconds(af.PTS)
+	soundType := uint8(libflv.SND_STEREO)
+	if channels == 1 {
+		soundType = libflv.SND_MONO
+	}
+	//AAC AudioSpecificConfig per ISO/IEC 14496-3:
+	//  5 bits profile (audio object type, ADTS profile + 1)
+	//  4 bits sampling frequency index
+	//  4 bits channel config
+	//  3 bits pad
+	objType := uint8(profile) + 1
+	var asc [2]byte
+	asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07
+	asc[1] = ((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3
+	if !bytes.Equal(asc[:], br.audioSeqHdr) {
 		seq := &libflv.AudioTag{
 			TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: 0},
 			SoundFormat:   libflv.FLV_AUDIO_AAC,
@@ -237,17 +243,16 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 			AACPacketType: libflv.AAC_SEQUENCE_HEADER,
 			SoundData:     asc[:],
 		}
+		if br.audioSeqHdr != nil {
+			seq.TimeStamp = tagTS
+		}
 		seq.DataSize = uint32(len(seq.Data()))
 		br.room.setAudioSequenceHeader(seq)
 		br.room.GOP.WriteMeta(seq)
-		br.emittedAudioSeqHdr = true
-	}
-	soundType := uint8(libflv.SND_STEREO)
-	if channels == 1 {
-		soundType = libflv.SND_MONO
+		br.audioSeqHdr = asc[:]
 	}
 	at := &libflv.AudioTag{
-		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: br.milliseconds(af.PTS)},
+		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: tagTS},
 		SoundFormat:   libflv.FLV_AUDIO_AAC,
 		SoundRate:     3,
 		SoundSize:     libflv.SND_16_BIT,
-- 
2.43.0


From 8de4cd9a23bbcbd312b5a89748ff89a9ea761782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 099/106] fix: zero bytes after a NAL unit are not taken for a
 part of it

---
 librtmp/srt_server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index e8bb876..8550919 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -300,8 +300,9 @@ func splitAnnexB(buf []byte) [][]byte {
 				break
 			}
 		}
-		if end > nalStart {
-			out = append(out, buf[nalStart:end])
+		//Zero bytes before a start code are not the NAL unit's.
+		if nal := bytes.TrimRight(buf[nalStart:end], "\x00"); len(nal) > 0 {
+			out = append(out, nal)
 		}
 		i = end
 	}
-- 
2.43.0


From 1e5ea401e76826ed1db1e52e7761774ebda0ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 100/106] fix: a pull waits at most 30 s between attempts, and
 starts over after a success

---
 librtmp/client.go |  6 ++++--
 librtmp/gop.go    | 12 ++++++++++++
 librtmp/server.go |  7 +++++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index 13c172f..9df51d8 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -28,8 +28,9 @@ type pullSpec struct {
 // connect/createStream/play handshake, and writes incoming
 // audio/video/data tags into a Room owned by the local server.
 type PullClient struct {
-	spec   pullSpec
-	server *server
+	spec     pullSpec
+	server   *server
+	received bool //Run got media
 }
 
 func newPullClient(srv *server, ps pullSpec) *PullClient {
@@ -80,6 +81,7 @@ func (pc *PullClient) Run() error {
 	}
 
 	rtmp.HandlerClient()
+	pc.received = !room.GOP.Empty()
 	return nil
 }
 
diff --git a/librtmp/gop.go b/librtmp/gop.go
index 4240d02..133d35a 100644
--- a/librtmp/gop.go
+++ b/librtmp/gop.go
@@ -92,6 +92,18 @@ func (g *GOP) Write(tag libflv.Tag) {
 	g.cond.Broadcast()
 }
 
+// Empty reports whether there has been no audio or video yet.
+func (g *GOP) Empty() bool {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	for _, it := range g.cur.items {
+		if it.tag.GetTagInfo().TagType != libflv.SCRIPT_DATA_TAG {
+			return false
+		}
+	}
+	return g.prev == nil
+}
+
 // DisAlive ends the stream: readers get what is left and then alive=false.
 func (g *GOP) DisAlive() {
 	g.mu.Lock()
diff --git a/librtmp/server.go b/librtmp/server.go
index 8749042..9f7506e 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -171,9 +171,12 @@ func (s *server) Handler() error {
 				if err := pc.Run(); err != nil {
 					fmt.Printf("rtmp pull %s: %v\n", spec.remoteURL, err)
 				}
+				if pc.received {
+					backoff = time.Second
+				}
 				time.Sleep(backoff)
-				if backoff < 30*time.Second {
-					backoff *= 2
+				if backoff *= 2; backoff > 30*time.Second {
+					backoff = 30 * time.Second
 				}
 			}
 		}()
-- 
2.43.0


From 6b4a800dfebbb3f0fb9d9514af56b3e7205338fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:36 +0000
Subject: [PATCH 101/106] fix: a pull that its upstream refuses is tried again,
 and upstreams cannot end or start local streams

---
 librtmp/client.go          | 33 ++++++++++++++++++++++++---------
 librtmp/command_message.go | 15 +++++++--------
 librtmp/rtmp.go            |  8 +++++---
 3 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index 9df51d8..63b2d35 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -7,7 +7,6 @@ import (
 	"net"
 	"net/url"
 	"strings"
-	"sync/atomic"
 	"time"
 
 	"github.com/SmartBrave/Athena/easyerrors"
@@ -67,6 +66,7 @@ func (pc *PullClient) Run() error {
 	}
 	rtmp.app = pc.spec.app
 	rtmp.room = room
+	rtmp.client = true
 	//We act as publisher into the local broadcast — when the upstream
 	//disconnects, cleanup() should tear the local room down so HLS /
 	//FLV viewers exit cleanly.
@@ -103,14 +103,14 @@ func (rtmp *RTMP) runClientCommands() error {
 	if err := rtmp.sendCommandRaw("connect", 1, connectObj, nil); err != nil {
 		return fmt.Errorf("send connect: %w", err)
 	}
-	if err := rtmp.expectResult(15 * time.Second); err != nil {
+	if err := rtmp.expectResult(1, 15*time.Second); err != nil {
 		return fmt.Errorf("connect: %w", err)
 	}
 
 	if err := rtmp.sendCommandRaw("createStream", 2, nil, nil); err != nil {
 		return fmt.Errorf("send createStream: %w", err)
 	}
-	if err := rtmp.expectResult(15 * time.Second); err != nil {
+	if err := rtmp.expectResult(2, 15* time.Second); err != nil {
 		return fmt.Errorf("createStream: %w", err)
 	}
 
@@ -180,17 +180,15 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 	return nil
 }
 
-// expectResult pumps ParseMessage until rtmp.resultCount advances —
-// CommandMessage.Do bumps it on every _result/_error. Returns ErrTimeout
-// if the deadline is reached without progress.
-func (rtmp *RTMP) expectResult(timeout time.Duration) error {
-	start := atomic.LoadUint32(&rtmp.resultCount)
+// expectResult pumps ParseMessage until the upstream has answered
+// transaction txnID, which fails when it refuses.
+func (rtmp *RTMP) expectResult(txnID int, timeout time.Duration) error {
 	deadline := time.Now().Add(timeout)
 	for {
 		if err := ParseMessage(rtmp); err != nil {
 			return err
 		}
-		if atomic.LoadUint32(&rtmp.resultCount) > start {
+		if rtmp.resultTxn == txnID {
 			return nil
 		}
 		if time.Now().After(deadline) {
@@ -199,6 +197,23 @@ func (rtmp *RTMP) expectResult(timeout time.Duration) error {
 	}
 }
 
+// doClient handles what an upstream tells us. It is a server: it has
+// nothing to ask of us.
+func (cm *CommandMessage) doClient() error {
+	switch cm.CommandName {
+	case _RESULT:
+		cm.rtmp.resultTxn, cm.rtmp.result = cm.TranscationID, cm.info
+	case _ERROR:
+		return fmt.Errorf("transaction %d refused by upstream: %v", cm.TranscationID, cm.info)
+	case ON_STATUS:
+		info, _ := cm.info.(map[string]interface{})
+		if info["level"] == "error" {
+			return fmt.Errorf("error status from upstream: %v", info)
+		}
+	}
+	return nil
+}
+
 // parseAppName plucks the app component out of an RTMP URL path:
 //   /live/x → "live"
 //   /foo/bar/baz → "foo"
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index f0fcf15..9d100e2 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"io"
 	"reflect"
-	"sync/atomic"
 
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
@@ -75,6 +74,7 @@ type CommandMessage struct {
 
 	// Reader flag toggles for receiveAudio / receiveVideo.
 	BoolFlag bool
+	info           interface{} //of _result, _error and onStatus
 }
 
 func NewCommandMessage(mb MessageBase, fields ...interface{} /*commandName string, transcationID int, others*/) (cm *CommandMessage) {
@@ -123,6 +123,9 @@ func (cm *CommandMessage) Parse() (err error) {
 		return errors.New("invalid transaction id")
 	}
 	cm.TranscationID = int(transcationID)
+	if len(array) >= 4 {
+		cm.info = array[3]
+	}
 	switch cm.CommandName {
 	case CONNECT:
 		_ = array[2]
@@ -172,6 +175,9 @@ func (cm *CommandMessage) Parse() (err error) {
 
 func (cm *CommandMessage) Do() (err error) {
 
+	if cm.rtmp.client {
+		return cm.doClient()
+	}
 	var err1, err2, err3, err4, err5 error
 	switch cm.CommandName {
 	case CONNECT:
@@ -414,13 +420,6 @@ func (cm *CommandMessage) Do() (err error) {
 		}).Send()
 		cm.rtmp.unpublish()
 
-	case _RESULT:
-		//Outbound-client path: bump the response counter so the
-		//connect/createStream sender can move on. No-op for the more
-		//common server-side case.
-		atomic.AddUint32(&cm.rtmp.resultCount, 1)
-	case _ERROR:
-		atomic.AddUint32(&cm.rtmp.resultCount, 1)
 	default:
 	}
 
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 5062d87..0021582 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -39,12 +39,14 @@ type RTMP struct {
 
 	// Outbound (client) bookkeeping. connectApp is the app name passed
 	// in the connect cmd object; tcURL is the canonical RTMP URL;
-	// resultCount is incremented each time a _result message is
-	// processed so expectResultUntil can pace the connect/createStream
+	// resultTxn and result are those of the last _result message
+	// processed so expectResult can pace the connect/createStream
 	// handshake.
 	connectApp   string
 	tcURL        string
-	resultCount  uint32 //atomic
+	client       bool
+	resultTxn    int         //transaction of the last _result
+	result       interface{} //what it carried, if anything
 }
 
 type connRole uint8
-- 
2.43.0


From 3cd1a8ccb590a06cc5b895c6bcd9a8882fd63935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 102/106] fix: a pull does not wait for ever for an upstream
 that does not answer

---
 librtmp/client.go          | 12 ++++--------
 librtmp/command_message.go |  3 ++-
 librtmp/rtmp.go            |  6 +++++-
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index 63b2d35..60b2ec9 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -183,18 +183,14 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 // expectResult pumps ParseMessage until the upstream has answered
 // transaction txnID, which fails when it refuses.
 func (rtmp *RTMP) expectResult(txnID int, timeout time.Duration) error {
-	deadline := time.Now().Add(timeout)
-	for {
+	_ = rtmp.conn.SetReadDeadline(time.Now().Add(timeout))
+	defer rtmp.conn.SetReadDeadline(time.Time{})
+	for rtmp.resultTxn != txnID {
 		if err := ParseMessage(rtmp); err != nil {
 			return err
 		}
-		if rtmp.resultTxn == txnID {
-			return nil
-		}
-		if time.Now().After(deadline) {
-			return fmt.Errorf("timeout waiting for _result")
-		}
 	}
+	return nil
 }
 
 // doClient handles what an upstream tells us. It is a server: it has
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 9d100e2..463e84c 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -74,7 +74,8 @@ type CommandMessage struct {
 
 	// Reader flag toggles for receiveAudio / receiveVideo.
 	BoolFlag bool
-	info           interface{} //of _result, _error and onStatus
+
+	info interface{} //of _result, _error and onStatus
 }
 
 func NewCommandMessage(mb MessageBase, fields ...interface{} /*commandName string, transcationID int, others*/) (cm *CommandMessage) {
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 0021582..6dbad64 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"time"
 
 	"github.com/SmartBrave/Athena/easyio"
 )
@@ -134,7 +135,10 @@ func (rtmp *RTMP) HandlerClient() {
 	defer rtmp.conn.Close()
 	defer rtmp.cleanup()
 
-	if err := HandshakeClient(rtmp); err != nil {
+	_ = rtmp.conn.SetDeadline(time.Now().Add(15 * time.Second))
+	err := HandshakeClient(rtmp)
+	_ = rtmp.conn.SetDeadline(time.Time{})
+	if err != nil {
 		fmt.Println("client handshake error:", err)
 		return
 	}
-- 
2.43.0


From 904f860732a9c12ab7b924b85cdbad9760e83681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 103/106] fix: a pull plays on the stream its upstream has
 created

---
 librtmp/client.go | 8 ++++++--
 librtmp/rtmp.go   | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index 60b2ec9..912bdc9 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -113,6 +113,8 @@ func (rtmp *RTMP) runClientCommands() error {
 	if err := rtmp.expectResult(2, 15* time.Second); err != nil {
 		return fmt.Errorf("createStream: %w", err)
 	}
+	id, _ := rtmp.result.(float64)
+	rtmp.streamID = uint32(id)
 
 	//play emits no _result on most servers — only an onStatus update.
 	//Don't block waiting for it; the main ParseMessage loop will
@@ -172,8 +174,10 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 		if i != 0 {
 			fmtType = FMT3
 		}
-		if err := NewChunk(COMMAND_MESSAGE_AMF0, uint32(len(body)), 0,
-			fmtType, csidCommand, body[l:r]).Send(rtmp); err != nil {
+		chunk := NewChunk(COMMAND_MESSAGE_AMF0, uint32(len(body)), 0,
+			fmtType, csidCommand, body[l:r])
+		chunk.MessageStreamID = rtmp.streamID
+		if err := chunk.Send(rtmp); err != nil {
 			return err
 		}
 	}
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 6dbad64..3b226a3 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -48,6 +48,7 @@ type RTMP struct {
 	client       bool
 	resultTxn    int         //transaction of the last _result
 	result       interface{} //what it carried, if anything
+	streamID     uint32      //message stream that our commands are about
 }
 
 type connRole uint8
-- 
2.43.0


From 35f009461455db28b6f5504a2bb0b8fa6a978afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 104/106] fix: a pull ends when its upstream says that the
 stream has

---
 librtmp/client.go          | 4 ++++
 librtmp/control_message.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/librtmp/client.go b/librtmp/client.go
index 912bdc9..eb24edc 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -210,6 +210,10 @@ func (cm *CommandMessage) doClient() error {
 		if info["level"] == "error" {
 			return fmt.Errorf("error status from upstream: %v", info)
 		}
+		switch info["code"] {
+		case "NetStream.Play.Stop", "NetStream.Play.Complete", "NetStream.Play.UnpublishNotify":
+			return io.EOF
+		}
 	}
 	return nil
 }
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index 4d01cdc..cd351fe 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -3,6 +3,7 @@ package librtmp
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // CSIDs used by the protocol-control path. The values here predate the
@@ -197,6 +198,10 @@ func (ucm *UserControlMessage) Parse() (err error) {
 }
 
 func (ucm *UserControlMessage) Do() (err error) {
+	if ucm.EventType == StreamEOF && ucm.rtmp.client {
+		//The stream we pull is over.
+		return io.EOF
+	}
 	//React to ping requests so RTMP clients that rely on them for
 	//keep-alive don't eventually reset the connection.
 	if ucm.EventType == PingRequest && len(ucm.EventData) >= 4 {
-- 
2.43.0


From 78e3e1d42de93b1ad9d27d1de9a2cedba186ca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 105/106] fix: RTMP viewers are told when the stream ends

---
 librtmp/room.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/librtmp/room.go b/librtmp/room.go
index d41190c..a567eb5 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -115,6 +115,7 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 			p, alive := gopReader.Read()
 			if !alive {
 				fmt.Println("the publisher had been exit.")
+				_ = NewUserControlMessage(MessageBase{rtmp: rtmp}, StreamEOF).Send()
 				break
 			}
 			tag := p.(libflv.Tag)
-- 
2.43.0


From 29ce7778877b9d31589e4b7b948a5a3dc811d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:37 +0000
Subject: [PATCH 106/106] fix: the query of a pull URL reaches the upstream

---
 librtmp/client.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index eb24edc..5cfcbc6 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -45,8 +45,8 @@ func (pc *PullClient) Run() error {
 		return fmt.Errorf("parse remote URL: %w", err)
 	}
 	host := u.Host
-	if !strings.Contains(host, ":") {
-		host += ":1935"
+	if u.Port() == "" {
+		host = net.JoinHostPort(u.Hostname(), "1935")
 	}
 	conn, err := net.DialTimeout("tcp", host, 10*time.Second)
 	if err != nil {
@@ -73,12 +73,15 @@ func (pc *PullClient) Run() error {
 	rtmp.role = rolePublisher
 
 	rtmp.connectApp = parseAppName(u.Path)
-	rtmp.tcURL = strings.TrimSuffix(pc.spec.remoteURL,
-		"/"+rtmp.connectApp+"/"+parsePlayName(u.Path)) + "/" + rtmp.connectApp
+	rtmp.tcURL = u.Scheme + "://" + u.Host + "/" + rtmp.connectApp
 	rtmp.playType = parsePlayName(u.Path)
 	if rtmp.playType == "" {
 		rtmp.playType = pc.spec.streamID
 	}
+	if u.RawQuery != "" {
+		//Tokens and the like are for the upstream to see.
+		rtmp.playType += "?" + u.RawQuery
+	}
 
 	rtmp.HandlerClient()
 	pc.received = !room.GOP.Empty()
-- 
2.43.0

