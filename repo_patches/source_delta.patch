From 5d2db0743b39af845c8219896230c6b5f74a05b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 01/57] fix: decoding a char as uint8 or a uchar as int8
 returns an error instead of panicking

---
 serialization/unmarshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 24f960b..ffef650 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -173,10 +173,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		switch meta {
-		case FabricSerializationTypeChar:
+		switch {
+		case meta == FabricSerializationTypeChar && rv.Kind() == reflect.Int8:
 			rv.SetInt(int64(v))
-		case FabricSerializationTypeUChar:
+		case meta == FabricSerializationTypeUChar && rv.Kind() == reflect.Uint8:
 			rv.SetUint(uint64(v))
 		default:
 			return fmt.Errorf("expect char/uchar got %v", meta)
-- 
2.43.0


From f922dded122cbd9e1644865721436eacbe4bf925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 02/57] fix: a compressed count of zero written by a custom
 marshaler can be read back

---
 serialization/marshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serialization/marshal.go b/serialization/marshal.go
index 7c52f6d..6990baf 100644
--- a/serialization/marshal.go
+++ b/serialization/marshal.go
@@ -22,6 +22,11 @@ func (s *encodeState) WriteBinary(v interface{}) error {
 }
 
 func (s *encodeState) WriteCompressedUInt32(v uint32) error {
+	if v == 0 {
+		// the reader always expects at least one byte
+		return s.buf.WriteByte(0)
+	}
+
 	return s.writeCompressedUint32(v)
 }
 
-- 
2.43.0


From bc5822ac672cb4dada5f0f2382f2e20d420d2ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 03/57] fix: string and slice counts beyond the input are
 refused instead of allocated

---
 serialization/unmarshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index ffef650..7d100fb 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -232,6 +232,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		if int64(len)*2 > int64(s.inner.Len()) {
+			return io.ErrUnexpectedEOF
+		}
+
 		body := make([]uint16, len) // wchar
 
 		err = binary.Read(s.inner, binary.LittleEndian, &body)
@@ -305,6 +309,11 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		// every element takes at least one byte
+		if int64(len0) > int64(s.inner.Len()) {
+			return io.ErrUnexpectedEOF
+		}
+
 		objs := reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), len, len)
 
 		for i := 0; i < len; i++ {
-- 
2.43.0


From 2dd601adb6b1c4b573d72f3465a6140c0242f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 04/57] fix: an object size that ends before the object's
 content is refused instead of reading it again

---
 serialization/unmarshal.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 7d100fb..45d4bbf 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -128,11 +128,20 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 		return nil
 	}
 
-	_, err := s.inner.Seek(endpos, io.SeekStart)
+	pos, err := s.inner.Seek(0, io.SeekCurrent)
 	if err != nil {
 		return err
 	}
 
+	// never read anything twice
+	if endpos < pos {
+		return fmt.Errorf("object size ends before its content")
+	}
+
+	if _, err := s.inner.Seek(endpos, io.SeekStart); err != nil {
+		return err
+	}
+
 	if err := s.expectTypeMeta(FabricSerializationTypeScopeEnd); err != nil {
 		return err
 	}
@@ -276,6 +285,9 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			}
 
 			if meta == FabricSerializationTypeScopeEnd {
+				if err := s.inner.UnreadByte(); err != nil {
+					return err
+				}
 				break
 			}
 
-- 
2.43.0


From f05340e6d51e6d8da63a64d9a6a3dc0324196f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 05/57] fix: embedded fields that are not structs are encoded
 instead of silently dropped

---
 serialization/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serialization/common.go b/serialization/common.go
index e5a6c38..aeeb23d 100644
--- a/serialization/common.go
+++ b/serialization/common.go
@@ -70,7 +70,7 @@ func allFields(rv reflect.Value) []reflect.Value {
 			continue
 		}
 
-		if ft.Anonymous {
+		if ft.Anonymous && fv.Kind() == reflect.Struct {
 			fields = append(fields, allFields(fv)...)
 		} else {
 			fields = append(fields, fv)
-- 
2.43.0


From d273f8383cda8048ec3daaf53f3573b087df179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 06/57] fix: a range wrapping past the maximum contains the ids
 from its begin up to the maximum

---
 federation/nodeid_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/federation/nodeid_range.go b/federation/nodeid_range.go
index 0297462..1c98748 100644
--- a/federation/nodeid_range.go
+++ b/federation/nodeid_range.go
@@ -16,7 +16,7 @@ func (r *NodeIdRange) Contains(id NodeID) bool {
 
 	if s.cmp(e) > 0 {
 
-		if s.cmp(i) <= 0 && u128max.cmp(e) <= 0 {
+		if s.cmp(i) <= 0 && i.cmp(u128max) <= 0 {
 			return true
 		}
 
-- 
2.43.0


From ae0c729fd62b7132a61ba17e3a3bf73582e7b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 07/57] fix: node id text that is negative or longer than 128
 bits is rejected

---
 federation/nodeid_generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index a0af3bf..d3458d1 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -21,6 +21,10 @@ func NodeIDFromHex(v string) (NodeID, error) {
 		return u, fmt.Errorf("fail to convert %v to Uint128", v)
 	}
 
+	if i.Sign() < 0 || i.BitLen() > 128 {
+		return u, fmt.Errorf("%v does not fit into Uint128", v)
+	}
+
 	u.Lo = i.Uint64()
 	u.Hi = new(big.Int).Rsh(i, 64).Uint64()
 
-- 
2.43.0


From 6440f8c5aa489c29e54fab34660c009ab6ea5fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 08/57] fix: deriving a node id from a name without separator
 does not panic

---
 federation/nodeid_generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index d3458d1..779cbef 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -95,6 +95,10 @@ func NodeIDFromV4Generator(v string) (nodeId NodeID) {
 	// recalculate hi base on index in name
 	idx := strings.LastIndexFunc(v, func(r rune) bool { return r == '.' || r == '_' })
 
+	if idx < 0 {
+		return
+	}
+
 	roleName := v[:idx]
 	instance_s := v[idx+1:]
 
-- 
2.43.0


From acfb9a117ce503b31bc4060b4fc270e356fe5641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 09/57] fix: time spans beyond the range of durations saturate
 instead of wrapping round

---
 common/time.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/time.go b/common/time.go
index 4dd8008..54a200b 100644
--- a/common/time.go
+++ b/common/time.go
@@ -20,5 +20,13 @@ func TimeSpanFromDuration(d time.Duration) TimeSpan {
 }
 
 func (s TimeSpan) ToDuration() time.Duration {
+	if s > math.MaxInt64/100 {
+		return math.MaxInt64
+	}
+
+	if s < math.MinInt64/100 {
+		return math.MinInt64
+	}
+
 	return time.Duration(s) * 100
 }
-- 
2.43.0


From 64c44e517708af9127a39f9f5a489472a5d40a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 10/57] fix: a frame shorter than its own and its message
 headers is refused instead of panicking

---
 transport/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transport/frame.go b/transport/frame.go
index 83aafc8..b91622e 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -61,6 +61,10 @@ func nextFrame(r io.Reader, config frameReadConfig) (*frameheader, []byte, error
 		}
 	}
 
+	if header.FrameLength < uint32(sizeOfFrameheader)+uint32(header.HeaderLength) {
+		return nil, nil, fmt.Errorf("frame length %v too short", header.FrameLength)
+	}
+
 	body := make([]byte, header.FrameLength-uint32(sizeOfFrameheader))
 
 	_, err = io.ReadFull(r, body)
-- 
2.43.0


From ea476acb01b0e31d07fbb3236415f6094faa09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 11/57] fix: headers that do not fit 16-bit sizes are refused
 instead of truncated

---
 transport/message.go        | 5 +++++
 transport/messageheaders.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/transport/message.go b/transport/message.go
index 054c3df..e96490c 100644
--- a/transport/message.go
+++ b/transport/message.go
@@ -2,7 +2,9 @@ package transport
 
 import (
 	"bytes"
+	"fmt"
 	"io"
+	"math"
 	"sync/atomic"
 
 	"github.com/tg123/phabrik/serialization"
@@ -27,6 +29,9 @@ func (m *Message) marshal() (int, []byte, error) {
 	}
 
 	headerLen := buf.Len()
+	if headerLen > math.MaxUint16 {
+		return 0, nil, fmt.Errorf("message headers too large, %v bytes", headerLen)
+	}
 
 	if m.Body != nil {
 		b, ok := m.Body.([]byte)
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 0ccdc77..cba0874 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/tg123/phabrik/serialization"
 )
@@ -221,6 +222,10 @@ func writeMessageHeader(w io.Writer, id MessageHeaderIdType, headerbody interfac
 		}
 	}
 
+	if len(b) > math.MaxUint16 {
+		return fmt.Errorf("header %v too large, %v bytes", id, len(b))
+	}
+
 	if err := binary.Write(w, binary.LittleEndian, uint16(len(b))); err != nil {
 		return err
 	}
-- 
2.43.0


From d4977a0c762b90ca82d86a26dac82a77272bf570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 12/57] fix: AppendCustomHeader appends to existing headers
 instead of dropping the values

---
 transport/messageheaders.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index cba0874..7e828ba 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -107,12 +107,8 @@ func (h *MessageHeaders) AppendCustomHeader(typ MessageHeaderIdType, header ...i
 		h.customHeaders = make(map[MessageHeaderIdType][]interface{})
 	}
 
-	if _, ok := h.customHeaders[typ]; !ok {
-		h.customHeaders[typ] = append(h.customHeaders[typ], header...)
-		return true
-	}
-
-	return false
+	h.customHeaders[typ] = append(h.customHeaders[typ], header...)
+	return true
 }
 
 func (h *MessageHeaders) writeTo(w io.Writer) error {
-- 
2.43.0


From d7ec04ea383d3eddcf2b25f742a774b758e5554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 13/57] fix: concurrent senders do not interleave the parts of
 their frames

---
 transport/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transport/conn.go b/transport/conn.go
index 541b584..011cf8f 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -34,6 +34,7 @@ type Conn interface {
 type connection struct {
 	messageCallback MessageCallback
 	conn            net.Conn
+	writelock       sync.Mutex
 	requestTable    RequestTable
 	pinglock        sync.Mutex
 	pingCh          chan int64
@@ -236,6 +237,9 @@ func (c *connection) sendTransportInit(conn net.Conn) error {
 }
 
 func (c *connection) writeMessageWithFrame(message *Message) error {
+	c.writelock.Lock()
+	defer c.writelock.Unlock()
+
 	return writeMessageWithFrame(c.conn, message, c.frameWCfg)
 }
 
-- 
2.43.0


From c14d5e7d61e867d74954f38a264b9dcaa57caa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 14/57] fix: a reply arriving while its request is cancelled
 does not block the receive loop

---
 transport/requesttable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index bcc6a47..14feb2a 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -59,7 +59,7 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 	p := &PendingRequest{
 		parent: r,
 		id:     id,
-		ch:     make(chan *ByteArrayMessage),
+		ch:     make(chan *ByteArrayMessage, 1), // Feed must not block on a waiter that is gone
 	}
 	r.table.Store(id, p)
 	return p
-- 
2.43.0


From d6006f1473db61decebc4f47d8e7d9476ad7cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 15/57] fix: a failed write during the TLS handshake is
 reported

---
 transport/tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/tls.go b/transport/tls.go
index 7813d81..c5f34ea 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -85,7 +85,7 @@ func (c *fabricSecureConn) Write(b []byte) (n int, err error) {
 			})
 		}
 
-		if writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
+		if err := writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
 			return 0, err
 		}
 
-- 
2.43.0


From 08aa996c14c47e33bdc295497458ec05a32d3cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 16/57] fix: stray heartbeat responses neither crash a closed
 connection nor fail later pings

---
 transport/conn.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 011cf8f..807da68 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -38,6 +38,7 @@ type connection struct {
 	requestTable    RequestTable
 	pinglock        sync.Mutex
 	pingCh          chan int64
+	closeCh         chan struct{}
 	msgfac          *messageFactory
 
 	frameRCfg frameReadConfig
@@ -54,8 +55,9 @@ func newConnection(config Config) (*connection, error) {
 	}
 
 	c := &connection{
-		msgfac: mf,
-		pingCh: make(chan int64),
+		msgfac:  mf,
+		pingCh:  make(chan int64),
+		closeCh: make(chan struct{}),
 	}
 
 	c.frameWCfg.SecurityProviderMask = securityProviderNone
@@ -133,7 +135,7 @@ func (c *connection) Close() error {
 	err := c.conn.Close()
 
 	c.closeOnce.Do(func() {
-		close(c.pingCh)
+		close(c.closeCh)
 		c.requestTable.Close()
 	})
 
@@ -162,14 +164,19 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 		return -1, err
 	}
 
-	select {
-	case <-ctx.Done():
-		return -1, ctx.Err()
-	case t := <-c.pingCh:
-		if t != b.HeartbeatTimeTick {
-			return -1, fmt.Errorf("heartbeak time tick out of order")
+	for {
+		select {
+		case <-ctx.Done():
+			return -1, ctx.Err()
+		case <-c.closeCh:
+			return -1, fmt.Errorf("connection closed")
+		case t := <-c.pingCh:
+			if t != b.HeartbeatTimeTick {
+				// stray or late response
+				continue
+			}
+			return time.Since(time.Unix(0, t)), nil
 		}
-		return time.Since(time.Unix(0, t)), nil
 	}
 }
 
@@ -194,7 +201,10 @@ func (c *connection) handleTransportMessage(msg *ByteArrayMessage) error {
 			return err
 		}
 
-		c.pingCh <- b.HeartbeatTimeTick
+		select {
+		case c.pingCh <- b.HeartbeatTimeTick:
+		case <-c.closeCh:
+		}
 	default:
 	}
 	return nil
-- 
2.43.0


From 72b989c735a13fe5508bb5462bdde02815a975b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:14 +0000
Subject: [PATCH 17/57] fix: the proxy checks the first frame as configured,
 secure clients send it without checksum

---
 transport/piper.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transport/piper.go b/transport/piper.go
index 5935cfa..96800a0 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -36,8 +36,9 @@ func (p *Piper) handle(conn net.Conn) error {
 	defer conn.Close()
 
 	headers, body, err := nextMessageHeaderAndBodyFromFrame(conn, frameReadConfig{
-		CheckFrameHeaderCRC: true,
-		CheckFrameBodyCRC:   false,
+		// same as setTls, frames of secure connections carry no checksums
+		CheckFrameHeaderCRC: p.config.TLS == nil && !p.config.DisableCheckFrameHeaderCRC,
+		CheckFrameBodyCRC:   p.config.TLS == nil && p.config.CheckFrameBodyCRC,
 	})
 
 	if err != nil {
-- 
2.43.0


From 37dd3e5af59bdb169b06c01aa11496961439bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 18/57] fix: the proxy closes the upstream connection when it
 cannot be used

---
 transport/piper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/piper.go b/transport/piper.go
index 96800a0..81ac0d1 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -55,6 +55,8 @@ func (p *Piper) handle(conn net.Conn) error {
 		return err
 	}
 
+	defer rawu.Close()
+
 	u, err := tapClientConn(rawu, uc)
 	if err != nil {
 		return err
-- 
2.43.0


From 1ce711b2fdf9f40560268a51f4775c1d39266c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 19/57] fix: DialTCP closes the connection when it cannot be
 used

---
 transport/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/client.go b/transport/client.go
index f7d9cc0..3c22e6c 100644
--- a/transport/client.go
+++ b/transport/client.go
@@ -20,7 +20,13 @@ func DialTCP(addr string, config ClientConfig) (*Client, error) {
 		return nil, err
 	}
 
-	return Connect(conn, config)
+	c, err := Connect(conn, config)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+
+	return c, nil
 }
 
 func Connect(conn net.Conn, config ClientConfig) (*Client, error) {
-- 
2.43.0


From c9bc06a59b4d0ef8d6670724560ca35a3a2e0ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 20/57] fix: replacing callbacks and refusing authentication do
 not race with the receive loop

---
 transport/conn.go   | 21 +++++++++++++++++----
 transport/server.go | 12 ++++++++++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 807da68..b2bcac7 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -45,6 +45,7 @@ type connection struct {
 	frameWCfg frameWriteConfig
 
 	closeOnce sync.Once
+	lock      sync.RWMutex // protects fatalerr and messageCallback
 	fatalerr  error
 }
 
@@ -128,6 +129,8 @@ func (c *connection) setTls() {
 }
 
 func (c *connection) SetMessageCallback(cb MessageCallback) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.messageCallback = cb
 }
 
@@ -284,23 +287,33 @@ func (c *connection) Wait() error {
 				}
 
 				serialization.Unmarshal(body, &b) // ignore error
+				c.lock.Lock()
 				c.fatalerr = fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message)
+				c.lock.Unlock()
 
 				return c.Close()
 			}
 		}
 
 		if !c.requestTable.Feed(msg) {
-			if c.messageCallback != nil {
-				c.messageCallback(c, msg)
+			c.lock.RLock()
+			cb := c.messageCallback
+			c.lock.RUnlock()
+
+			if cb != nil {
+				cb(c, msg)
 			}
 		}
 	}
 }
 
 func (c *connection) SendOneWay(message *Message) error {
-	if c.fatalerr != nil {
-		return c.fatalerr
+	c.lock.RLock()
+	fatalerr := c.fatalerr
+	c.lock.RUnlock()
+
+	if fatalerr != nil {
+		return fatalerr
 	}
 	c.msgfac.fillMessageId(message)
 	return c.writeMessageWithFrame(message)
diff --git a/transport/server.go b/transport/server.go
index 35f7fea..c33a88d 100644
--- a/transport/server.go
+++ b/transport/server.go
@@ -3,10 +3,12 @@ package transport
 import (
 	"log"
 	"net"
+	"sync"
 )
 
 type Server struct {
 	listener        net.Listener
+	lock            sync.RWMutex // protects messageCallback
 	messageCallback MessageCallback
 	config          ServerConfig
 }
@@ -38,8 +40,12 @@ func (s *Server) Addr() net.Addr {
 }
 
 func (s *Server) onMessage(conn Conn, msg *ByteArrayMessage) {
-	if s.messageCallback != nil {
-		go s.messageCallback(conn, msg)
+	s.lock.RLock()
+	cb := s.messageCallback
+	s.lock.RUnlock()
+
+	if cb != nil {
+		go cb(conn, msg)
 	}
 }
 
@@ -57,6 +63,8 @@ func (s *Server) handle(conn net.Conn) error {
 }
 
 func (s *Server) SetMessageCallback(cb MessageCallback) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	s.messageCallback = cb
 }
 
-- 
2.43.0


From db2b0364b6d4f7dde11935366eec6c829f340e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:07 +0000
Subject: [PATCH 21/57] fix: a message header cut off at the end of the headers
 is refused instead of ignored

---
 transport/messageheaders.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 7e828ba..ae2266a 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -240,6 +240,9 @@ func nextMessageHeader(stream io.Reader) (MessageHeaderIdType, []byte, error) {
 
 	var size uint16
 	err = binary.Read(stream, binary.LittleEndian, &size)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return MessageHeaderIdTypeInvalid, nil, err
 	}
@@ -247,6 +250,9 @@ func nextMessageHeader(stream io.Reader) (MessageHeaderIdType, []byte, error) {
 	body := make([]byte, size)
 
 	_, err = io.ReadFull(stream, body)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return MessageHeaderIdTypeInvalid, nil, err
 	}
-- 
2.43.0


From cc4dff12b3586f55d5477f21b684de89e687d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 22/57] fix: long runs of lease connect frames do not exhaust
 the stack

---
 lease/frame.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index b167e09..31e67a3 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -24,20 +24,21 @@ type ltFrameHeader struct {
 var sizeOfLtFrameheader = binary.Size(ltFrameHeader{})
 
 func nextLtFrame(r io.Reader) ([]byte, error) {
-	header := ltFrameHeader{}
-	err := binary.Read(r, binary.LittleEndian, &header)
-	if err != nil {
-		return nil, err
+	header := ltFrameHeader{FrameType: ltFrametypeConnect}
+
+	// ignore connect message
+	for header.FrameType == ltFrametypeConnect {
+		err := binary.Read(r, binary.LittleEndian, &header)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	switch header.FrameType {
-	case ltFrametypeConnect:
-		// ignore connect message
-		return nextLtFrame(r)
 	case ltFrametypeMessage:
 		body := make([]byte, header.FrameSize-uint32(sizeOfLtFrameheader))
 
-		_, err = io.ReadFull(r, body)
+		_, err := io.ReadFull(r, body)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 301e1783f6602309aa039b15c11d6d748ef8df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 23/57] fix: a lease frame smaller than its header is refused
 instead of allocating 4 GB

---
 lease/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lease/frame.go b/lease/frame.go
index 31e67a3..46cd172 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -36,6 +36,10 @@ func nextLtFrame(r io.Reader) ([]byte, error) {
 
 	switch header.FrameType {
 	case ltFrametypeMessage:
+		if header.FrameSize < uint32(sizeOfLtFrameheader) {
+			return nil, fmt.Errorf("bad frame size %v", header.FrameSize)
+		}
+
 		body := make([]byte, header.FrameSize-uint32(sizeOfLtFrameheader))
 
 		_, err := io.ReadFull(r, body)
-- 
2.43.0


From 79ff07f5ad347d16a7eb4803fece4e500c1b2c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 24/57] fix: lease messages ending with their endpoint are
 accepted, wrapped endpoint sizes refused

---
 lease/serialize.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lease/serialize.go b/lease/serialize.go
index 9a96110..3f371ac 100644
--- a/lease/serialize.go
+++ b/lease/serialize.go
@@ -124,15 +124,15 @@ func marshalRelationshipList(w io.Writer, l []relationshipIdentifier) (uint32, e
 }
 
 func dataAtList(data []byte, desc *listDesc) ([]byte, error) {
-	st := desc.StartOffset
-	ed := desc.StartOffset + desc.Size
+	st := uint64(desc.StartOffset)
+	ed := st + uint64(desc.Size)
 
-	if st >= uint32(len(data)) {
+	if st >= uint64(len(data)) {
 		return nil, fmt.Errorf("bad data start offset")
 	}
 
-	if ed >= uint32(len(data)) {
-		return nil, fmt.Errorf("bad data start offset")
+	if ed > uint64(len(data)) {
+		return nil, fmt.Errorf("bad data size")
 	}
 
 	return data[st:ed], nil
-- 
2.43.0


From 07f0ef9b0a9d9608bf5e218b1a8006c9019b7fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 25/57] fix: lease messages with a too small listen endpoint do
 not panic

---
 lease/serialize.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lease/serialize.go b/lease/serialize.go
index 3f371ac..24343b7 100644
--- a/lease/serialize.go
+++ b/lease/serialize.go
@@ -170,13 +170,17 @@ func unmarshal(data []byte) (*Message, error) {
 			return nil, err
 		}
 
+		if len(d) < sizeofAddressFamily+sizeofUShort {
+			return nil, fmt.Errorf("bad listen endpoint size %v", len(d))
+		}
+
 		r := bytes.NewReader(d)
 		s := make([]uint16, (header.MessageListenEndpoint.Size-sizeofAddressFamily-sizeofUShort)/sizeofUint16)
 		if err := binary.Read(r, binary.LittleEndian, s); err != nil {
 			return nil, err
 		}
 
-		if s[len(s)-1] == 0 {
+		if len(s) > 0 && s[len(s)-1] == 0 {
 			s = s[:len(s)-1]
 		}
 
-- 
2.43.0


From 88ce966b51c4bf659d35f8cb71f310a882eb1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:23 +0000
Subject: [PATCH 26/57] fix: closing a lease agent ends its accept loop instead
 of spinning

---
 lease/agent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lease/agent.go b/lease/agent.go
index 63f8078..4afc9da 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -3,6 +3,7 @@ package lease
 import (
 	"context"
 	"crypto/tls"
+	"errors"
 	"fmt"
 	"net"
 	"strconv"
@@ -130,6 +131,9 @@ func (a *Agent) Wait() error {
 		c, err := a.listener.Accept()
 
 		if err != nil {
+			if errors.Is(err, net.ErrClosed) {
+				return err
+			}
 			continue
 		}
 
-- 
2.43.0


From ac13b2c41f77a22361ab9bed05346f61b9837850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 27/57] fix: a session established while its agent is closed is
 closed with it

---
 lease/agent.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index 4afc9da..7f29a06 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -49,6 +49,8 @@ type Agent struct {
 	marshaller    marshalContext
 	sessions      sync.Map
 	listener      net.Listener
+	lock          sync.Mutex // protects dial, closed and the registration of sessions
+	closed        bool
 	dial          Dialer
 }
 
@@ -115,6 +117,14 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		return nil, err
 	}
 
+	a.lock.Lock()
+	defer a.lock.Unlock()
+
+	if a.closed {
+		s.conn.Close()
+		return nil, errAgentClosed
+	}
+
 	a.sessions.Store(addr, &s)
 
 	return &s, nil
@@ -142,7 +152,11 @@ func (a *Agent) Wait() error {
 }
 
 func (a *Agent) Close() error {
+	a.lock.Lock()
+	a.closed = true
 	a.dial = closedDialer
+	a.lock.Unlock()
+
 	a.listener.Close()
 	a.sessions.Range(func(key, value interface{}) bool {
 		if s, ok := value.(Session); ok {
@@ -272,7 +286,11 @@ func (s *leaseSession) reconnect() error {
 		return fmt.Errorf("session closed")
 	}
 
-	c, err := s.parent.dial(s.addr)
+	s.parent.lock.Lock()
+	dial := s.parent.dial
+	s.parent.lock.Unlock()
+
+	c, err := dial(s.addr)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e0970b69adf7db6fdbdf5f10dbc42c339c362ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 28/57] fix: closing an old lease session does not unregister a
 newer one to the same endpoint

---
 lease/agent.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index 7f29a06..c1804ce 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -259,7 +259,12 @@ func (s *leaseSession) Meta() SessionMetadata {
 // }
 
 func (s *leaseSession) Close() error {
-	s.parent.sessions.Delete(s.addr)
+	s.parent.lock.Lock()
+	if current, ok := s.parent.sessions.Load(s.addr); ok && current == s {
+		s.parent.sessions.Delete(s.addr)
+	}
+	s.parent.lock.Unlock()
+
 	s.objLock.Lock()
 	defer s.objLock.Unlock()
 
-- 
2.43.0


From 93e63bcda0113bc77ec220252c670b12da1da1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 29/57] fix: closing a lease agent closes sessions replaced by
 newer ones too

---
 lease/agent.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index c1804ce..abb54f0 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -47,7 +47,8 @@ type Agent struct {
 	LocalInstance int64
 	config        AgentConfig
 	marshaller    marshalContext
-	sessions      sync.Map
+	sessions      sync.Map // by endpoint
+	open          sync.Map // every session not closed, also replaced ones
 	listener      net.Listener
 	lock          sync.Mutex // protects dial, closed and the registration of sessions
 	closed        bool
@@ -126,6 +127,7 @@ func (a *Agent) Establish(addr string) (Session, error) {
 	}
 
 	a.sessions.Store(addr, &s)
+	a.open.Store(&s, &s)
 
 	return &s, nil
 }
@@ -158,7 +160,7 @@ func (a *Agent) Close() error {
 	a.lock.Unlock()
 
 	a.listener.Close()
-	a.sessions.Range(func(key, value interface{}) bool {
+	a.open.Range(func(key, value interface{}) bool {
 		if s, ok := value.(Session); ok {
 			s.Close()
 		}
@@ -263,6 +265,7 @@ func (s *leaseSession) Close() error {
 	if current, ok := s.parent.sessions.Load(s.addr); ok && current == s {
 		s.parent.sessions.Delete(s.addr)
 	}
+	s.parent.open.Delete(s)
 	s.parent.lock.Unlock()
 
 	s.objLock.Lock()
-- 
2.43.0


From d449448a2963128682793482206ea3be5f0966db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:27 +0000
Subject: [PATCH 30/57] fix: concurrent lease pings do not interleave their
 frames

---
 lease/agent.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index abb54f0..b0f3288 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -246,6 +246,7 @@ type leaseSession struct {
 	conn      net.Conn
 	connected bool
 	objLock   sync.Mutex
+	writeLock sync.Mutex
 
 	pingCh   chan int
 	pingLock sync.RWMutex
@@ -320,7 +321,11 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
-	if err := writeDataWithFrame(s.conn, data); err != nil {
+	s.writeLock.Lock()
+	err = writeDataWithFrame(s.conn, data)
+	s.writeLock.Unlock()
+
+	if err != nil {
 		if neterr, ok := err.(net.Error); ok {
 			if !neterr.Temporary() {
 				s.objLock.Lock()
-- 
2.43.0


From 104e41120941834bc5ac42eefde1be87045ff29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 31/57] fix: a lease ping does not miss a response arriving
 right after it was written

---
 lease/agent.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index b0f3288..c1a7bba 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -321,6 +321,11 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
+	// before writing, or a fast response is missed
+	s.pingLock.RLock()
+	ch := s.pingCh
+	s.pingLock.RUnlock()
+
 	s.writeLock.Lock()
 	err = writeDataWithFrame(s.conn, data)
 	s.writeLock.Unlock()
@@ -342,10 +347,6 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
-	s.pingLock.RLock()
-	ch := s.pingCh
-	s.pingLock.RUnlock()
-
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
-- 
2.43.0


From 7f4304e42eff188bc08be5b12e452d980adc9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 32/57] fix: lease pings waiting when their session is closed
 fail instead of succeeding

---
 lease/agent.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index c1a7bba..4573e28 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -110,6 +110,7 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		addr:          addr,
 		parent:        a,
 		pingCh:        make(chan int),
+		closeCh:       make(chan struct{}),
 		localInstance: uniqId(),
 	}
 
@@ -249,6 +250,7 @@ type leaseSession struct {
 	writeLock sync.Mutex
 
 	pingCh   chan int
+	closeCh  chan struct{}
 	pingLock sync.RWMutex
 	lastpong time.Time
 }
@@ -278,7 +280,7 @@ func (s *leaseSession) Close() error {
 
 	s.closed = true
 	s.conn.Close()
-	s.boardcastPong() // unlock waiting pings
+	close(s.closeCh) // unlock waiting pings
 
 	return nil
 }
@@ -352,6 +354,13 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return ctx.Err()
 	case <-ch:
 		return nil
+	case <-s.closeCh:
+		select {
+		case <-ch:
+			return nil
+		default:
+			return fmt.Errorf("session closed")
+		}
 	}
 }
 
-- 
2.43.0


From 034e1f414563e700209e3273bd32972b9e116f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 33/57] fix: the state learned from lease responses is not
 accessed without lock

---
 lease/agent.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lease/agent.go b/lease/agent.go
index 4573e28..b23e2b2 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -365,6 +365,8 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 }
 
 func (s *leaseSession) LastPongTime() time.Time {
+	s.pingLock.RLock()
+	defer s.pingLock.RUnlock()
 	return s.lastpong
 }
 
@@ -374,8 +376,10 @@ func (s *leaseSession) onMessage(m *Message) {
 	case LeaseMessageTypePingRequest:
 		// TODO
 	case LeaseMessageTypePingResponse:
+		s.pingLock.Lock()
 		s.lastpong = time.Now()
 		s.remoteInstance = m.RemoteLeaseAgentInstance
+		s.pingLock.Unlock()
 		s.boardcastPong()
 	default:
 	}
@@ -394,6 +398,8 @@ func (s *leaseSession) createPingMessage() *Message {
 	message.Type = LeaseMessageTypePingRequest
 	message.Expiration = s.parent.config.LeaseDuration // TODO confirm config entry
 	message.LeaseInstance = s.localInstance
+	s.pingLock.RLock()
 	message.RemoteLeaseAgentInstance = s.remoteInstance
+	s.pingLock.RUnlock()
 	return &message
 }
-- 
2.43.0


From 73ceaa86d4739e057cf740f5af04d2e55e364c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 34/57] fix: compare and store partner info under one lock

---
 federation/sitenode_parteners.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index d3ae0f4..ad834cf 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -15,15 +15,17 @@ type PartnerNodeInfo struct {
 }
 
 func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
-	s.partenersRWLock.RLock()
-	old, found := s.parteners[h.Instance.Id]
-	s.partenersRWLock.RUnlock()
-
-	if !found || old.Instance.InstanceId < h.Instance.InstanceId {
-		p := h.PartnerNodeInfo
-		s.partenersRWLock.Lock()
-		s.parteners[h.Instance.Id] = &p
-		s.partenersRWLock.Unlock()
+	p := h.PartnerNodeInfo
+
+	s.partenersRWLock.Lock()
+	old, found := s.parteners[p.Instance.Id]
+	changed := !found || old.Instance.InstanceId < p.Instance.InstanceId
+	if changed {
+		s.parteners[p.Instance.Id] = &p
+	}
+	s.partenersRWLock.Unlock()
+
+	if changed {
 		s.onPartnerChanged(p, !found)
 	}
 }
-- 
2.43.0


From 489ce2342d7f6d01c5a23fe4d6819db873a7f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:27 +0000
Subject: [PATCH 35/57] fix: accept phase progress of a known partner instance

---
 federation/sitenode_parteners.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index ad834cf..635dc35 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -19,7 +19,8 @@ func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
 
 	s.partenersRWLock.Lock()
 	old, found := s.parteners[p.Instance.Id]
-	changed := !found || old.Instance.InstanceId < p.Instance.InstanceId
+	changed := !found || old.Instance.InstanceId < p.Instance.InstanceId ||
+		(old.Instance.InstanceId == p.Instance.InstanceId && old.Phase < p.Phase)
 	if changed {
 		s.parteners[p.Instance.Id] = &p
 	}
-- 
2.43.0


From b733c94152d195dd4f9c59f197626e9c59d076fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 36/57] fix: do not return the address of the loop variable as
 closest partner

---
 federation/sitenode_parteners.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index 635dc35..849790a 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -51,6 +51,7 @@ func (s *SiteNode) closestPartnerNode(id NodeID, filter func(PartnerNodeInfo) bo
 	max := u128max
 
 	for _, p := range s.KnownPartnerNodes(filter) {
+		p := p
 		diff := uint128(p.Instance.Id).sub(uint128(id))
 		if diff == u128zero {
 			return &p
-- 
2.43.0


From 3c242874ff460b4f316cab5bfeef7ada84d3378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 37/57] fix: find a partner at the greatest ring distance

---
 federation/sitenode_parteners.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index 849790a..0bffb88 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -57,7 +57,7 @@ func (s *SiteNode) closestPartnerNode(id NodeID, filter func(PartnerNodeInfo) bo
 			return &p
 		}
 
-		if diff.cmp(max) < 0 {
+		if cur == nil || diff.cmp(max) < 0 {
 			max = diff
 			cur = &p
 		}
-- 
2.43.0


From 019a4f0b3af607ac45d7e75a979b6f0193496cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:15 +0000
Subject: [PATCH 38/57] fix: do not miss a phase change while Bootstrap probes
 the seeds

---
 federation/sitenode.go      |  8 ++++++++
 federation/sitenode_boot.go | 16 ++++++++--------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 6421165..6e7e5ae 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -95,6 +95,14 @@ func NewSiteNode(config SiteNodeConfig) (*SiteNode, error) {
 	return &s, nil
 }
 
+// currentPhase returns the phase and the channel closed when it changes
+func (s *SiteNode) currentPhase() (NodePhase, <-chan int) {
+	s.phaseLock.RLock()
+	defer s.phaseLock.RUnlock()
+
+	return s.phase, s.phaseChanged
+}
+
 func (s *SiteNode) changePhase(newPhase NodePhase) {
 	if s.phase == newPhase {
 		return
diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 9c62c98..6610101 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -10,11 +10,13 @@ import (
 )
 
 func (s *SiteNode) Bootstrap(ctx context.Context) error {
-	if s.phase >= NodePhaseJoining {
-		return nil
-	}
-
 	for {
+		// taken before probing, a change during the probing must not be missed
+		phase, phaseChanged := s.currentPhase()
+		if phase >= NodePhaseJoining {
+			return nil
+		}
+
 		for _, seed := range s.seedNodes {
 			if err := s.votePing(seed.Id); err != nil {
 				log.Printf("send vote ping to %v failed %v", seed.Address, err)
@@ -22,10 +24,8 @@ func (s *SiteNode) Bootstrap(ctx context.Context) error {
 		}
 
 		select {
-		case <-s.phaseChanged:
-			if s.phase >= NodePhaseJoining {
-				return nil
-			}
+		case <-phaseChanged:
+			// check again
 		case <-ctx.Done():
 			return ctx.Err()
 		case <-time.After(time.Second * 30): // TODO config
-- 
2.43.0


From c5d8ea20446991fd2b2e4635a00ef1789f6b414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:16 +0000
Subject: [PATCH 39/57] fix: read and change the node phase under its lock,
 only forward

---
 federation/sitenode.go        | 10 +++++-----
 federation/sitenode_sender.go |  4 +++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 6e7e5ae..8184ebb 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -104,13 +104,13 @@ func (s *SiteNode) currentPhase() (NodePhase, <-chan int) {
 }
 
 func (s *SiteNode) changePhase(newPhase NodePhase) {
-	if s.phase == newPhase {
-		return
-	}
-
 	s.phaseLock.Lock()
 	defer s.phaseLock.Unlock()
 
+	if newPhase <= s.phase {
+		return
+	}
+
 	s.phase = newPhase
 	close(s.phaseChanged)
 	s.phaseChanged = make(chan int)
@@ -118,7 +118,7 @@ func (s *SiteNode) changePhase(newPhase NodePhase) {
 
 func (s *SiteNode) onPartnerChanged(p PartnerNodeInfo, isNew bool) {
 	// found at least 1 R node, start join
-	if p.Phase == NodePhaseRouting && s.phase == NodePhaseBooting {
+	if p.Phase == NodePhaseRouting {
 		s.changePhase(NodePhaseJoining)
 	}
 }
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 03ddcbe..811feb8 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -93,13 +93,15 @@ func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *Par
 
 func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 
+	phase, _ := s.currentPhase()
+
 	// add self
 	msg.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, &FederationPartnerNodeHeader{
 		PartnerNodeInfo: PartnerNodeInfo{
 			Instance:          s.instance,
 			Address:           s.transportServer.Addr().String(),
 			LeaseAgentAddress: s.leaseAgent.Addr().String(),
-			Phase:             s.phase,
+			Phase:             phase,
 		},
 	})
 
-- 
2.43.0


From 28e2813577614cd9b3b0db80accebd2fcfa016cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:55 +0000
Subject: [PATCH 40/57] fix: close a partner connection whose dial ends after
 the close, without races

---
 federation/sitenode_sender.go | 55 ++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 811feb8..f232c48 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -3,6 +3,7 @@ package federation
 import (
 	"context"
 	"fmt"
+	"net"
 	"sync"
 
 	"github.com/tg123/phabrik/common"
@@ -14,17 +15,15 @@ type Dialer func(addr string) (*transport.Client, error)
 type cachedConn struct {
 	parent  *SiteNode
 	partner *PartnerNodeInfo
-	conn    *transport.Client
 	init    sync.Once
-	close   sync.Once
 	lasterr error
-}
 
-func (c *cachedConn) Conn() *transport.Client {
-	if c.conn != nil {
-		return c.conn
-	}
+	lock   sync.Mutex // protects conn and closed
+	conn   *transport.Client
+	closed bool
+}
 
+func (c *cachedConn) Conn() (*transport.Client, error) {
 	c.init.Do(func() {
 		conn, err := c.parent.clientDialer(c.partner.Address)
 
@@ -34,31 +33,48 @@ func (c *cachedConn) Conn() *transport.Client {
 			return
 		}
 
+		c.lock.Lock()
+		closed := c.closed
+		if !closed {
+			c.conn = conn
+		}
+		c.lock.Unlock()
+
+		if closed {
+			// closed while dialing
+			c.lasterr = net.ErrClosed
+			conn.Close()
+			return
+		}
+
 		conn.SetMessageCallback(c.parent.onMessage)
 
 		go func() {
 			defer c.Close()
 			conn.Wait()
 		}()
-
-		c.conn = conn
 	})
 
-	return c.conn // maybe nil and will recreate if err
+	return c.conn, c.lasterr // nil conn if err and will recreate
 }
 
 func (c *cachedConn) Close() error {
-	cc, ok := c.parent.connPool.LoadAndDelete(c.partner.Address)
-	if !ok {
+	c.lock.Lock()
+	closed := c.closed
+	c.closed = true
+	conn := c.conn
+	c.lock.Unlock()
+
+	if closed {
 		return nil
 	}
 
-	cc.(*cachedConn).close.Do(func() {
-		tc := cc.(*cachedConn).conn
-		if tc != nil {
-			tc.Close()
-		}
-	})
+	// still this one, an entry is only removed here
+	c.parent.connPool.Delete(c.partner.Address)
+
+	if conn != nil {
+		conn.Close()
+	}
 
 	return nil
 }
@@ -69,8 +85,7 @@ func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
 		partner: p,
 	})
 
-	cc := c.(*cachedConn)
-	return cc.Conn(), cc.lasterr
+	return c.(*cachedConn).Conn()
 }
 
 func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
-- 
2.43.0


From 24e1a5132de6167095d86ee7e07a5dcb006eba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 41/57] fix: open no partner connections after the node is
 closed

---
 federation/sitenode.go        |  4 ++++
 federation/sitenode_sender.go | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 8184ebb..9c419ae 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -4,6 +4,7 @@ import (
 	"crypto/tls"
 	"fmt"
 	"sync"
+	"sync/atomic"
 
 	"github.com/tg123/phabrik/lease"
 	"github.com/tg123/phabrik/transport"
@@ -24,6 +25,7 @@ type SiteNode struct {
 	requestTable       transport.RequestTable
 	clientDialer       Dialer
 	connPool           sync.Map
+	closed             int32
 
 	parteners       map[NodeID]*PartnerNodeInfo
 	partenersRWLock sync.RWMutex
@@ -163,6 +165,8 @@ func (s *SiteNode) Close() error {
 	s.transportServer.Close()
 	s.leaseAgent.Close()
 
+	atomic.StoreInt32(&s.closed, 1)
+
 	s.connPool.Range(func(key, value interface{}) bool {
 		if c, ok := value.(*cachedConn); ok {
 			c.Close()
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index f232c48..0557a18 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"net"
 	"sync"
+	"sync/atomic"
 
 	"github.com/tg123/phabrik/common"
 	"github.com/tg123/phabrik/transport"
@@ -85,7 +86,15 @@ func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
 		partner: p,
 	})
 
-	return c.(*cachedConn).Conn()
+	cc := c.(*cachedConn)
+
+	// checked after storing, Close sees the entry if this does not see the flag
+	if atomic.LoadInt32(&s.closed) != 0 {
+		cc.Close()
+		return nil, net.ErrClosed
+	}
+
+	return cc.Conn()
 }
 
 func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
-- 
2.43.0


From 545bae7d6bd850410c0f769591fdf31e2408056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 42/57] fix: end pending routed requests when the node is
 closed

---
 federation/sitenode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 9c419ae..96ea5c6 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -175,5 +175,7 @@ func (s *SiteNode) Close() error {
 		return true
 	})
 
+	s.requestTable.Close()
+
 	return nil
 }
-- 
2.43.0


From 4c069c142bf41f9523c54290c61279fe2605e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 43/57] fix: probe every discovered partner instead of the loop
 variable

---
 federation/sitenode_boot.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 6610101..17d1f6b 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -54,12 +54,12 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 		wg.Add(len(discovered))
 
 		for _, partner := range discovered {
-			go func(p *PartnerNodeInfo) {
+			go func(p PartnerNodeInfo) {
 				defer wg.Done()
 				if err := s.votePing(p.Instance.Id); err != nil {
 					log.Printf("send vote ping to %v failed %v", p.Address, err)
 				}
-			}(&partner)
+			}(partner)
 		}
 
 		wg.Wait()
-- 
2.43.0


From 56fd1f537fef3a39f357e982202dbc73f8d56ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 44/57] fix: stop Discover when its context is done

---
 federation/sitenode_boot.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 17d1f6b..86445d1 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -64,7 +64,11 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 
 		wg.Wait()
 
-		time.Sleep(1 * time.Second) // wait for voteping reply
+		select {
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		case <-time.After(1 * time.Second): // wait for voteping reply
+		}
 
 		found := false
 		for _, partner := range s.KnownPartnerNodes(func(PartnerNodeInfo) bool { return true }) {
-- 
2.43.0


From 891a77fe4d9a79c410f61dd077c011abb72e22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:36 +0000
Subject: [PATCH 45/57] fix: report a ClientOperationFailure answer to
 GetApplicationList

---
 naming/naming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 9246dac..54e52f4 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -363,7 +363,7 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 	param.QueryArgs.QueryArgumentMap[QueryArgumentMapKey{"ApplicationName"}] = filter
 
 	msg.Body = param
-	reply, err := n.transport.RequestReply(ctx, msg)
+	reply, err := n.requestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ad1d9c57fe5c0d6ce14ffee9121a1f005986c962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:39 +0000
Subject: [PATCH 46/57] fix: treat gateway answers with an error code as
 failures

---
 naming/naming.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index 54e52f4..56d2b92 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -193,6 +193,10 @@ func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message)
 		return nil, fmt.Errorf("ClientOperationFailure HResult: %v", b.ErrorCode)
 	}
 
+	if reply.Headers.ErrorCode != transport.FabricErrorCodeSuccess {
+		return nil, fmt.Errorf("%v failed with error code: %v", msg.Headers.Action, reply.Headers.ErrorCode)
+	}
+
 	return reply, nil
 }
 
-- 
2.43.0


From af3ee52590397c7ca44b16766d52168658e1f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:42 +0000
Subject: [PATCH 47/57] fix: do not panic on a query result without list

---
 naming/naming.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index 56d2b92..dcde246 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -388,5 +388,9 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 		return nil, fmt.Errorf("GetApplicationList returns HResult %v", b.ErrorCode)
 	}
 
+	if b.ResultList == nil {
+		return nil, fmt.Errorf("GetApplicationList returns no result list")
+	}
+
 	return b.ResultList.List, nil
 }
-- 
2.43.0


From cc53128918f975745271466d613f07c2ffd1b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 48/57] fix: pass the caller's context to naming requests

---
 naming/naming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index dcde246..b529fd5 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -176,7 +176,7 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 }
 
 func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message) (*transport.ByteArrayMessage, error) {
-	reply, err := n.transport.RequestReply(context.TODO(), msg)
+	reply, err := n.transport.RequestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6f6728b77edb5ddbef4322f6c391bb724c4806c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:48 +0000
Subject: [PATCH 49/57] fix: do not acknowledge or deliver undecodable
 notifications

---
 naming/naming.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index b529fd5..14c9e0d 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -151,11 +151,18 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 		err := serialization.Unmarshal(bam.Body, &b)
 		if err != nil {
 			log.Printf("ServiceNotificationRequest unmarshal err %v", err)
+			return
+		}
+
+		if b.Notification == nil {
+			log.Printf("ServiceNotificationRequest without notification")
+			return
 		}
 
 		reply, err := NewNamingMessage("ServiceNotificationReply")
 		if err != nil {
 			log.Printf("ServiceNotificationRequest NewNamingMessage err %v", err)
+			return
 		}
 
 		reply.Headers.RelatesTo = bam.Headers.Id
-- 
2.43.0


From 0fbd39314733407b7622b060e98162be9d0196c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:20 +0000
Subject: [PATCH 50/57] fix: a ping waiting for another one returns when its
 context is done

---
 transport/conn.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index b2bcac7..878bcf8 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -36,7 +36,7 @@ type connection struct {
 	conn            net.Conn
 	writelock       sync.Mutex
 	requestTable    RequestTable
-	pinglock        sync.Mutex
+	pinglock        chan struct{} // held by the ping under way
 	pingCh          chan int64
 	closeCh         chan struct{}
 	msgfac          *messageFactory
@@ -56,9 +56,10 @@ func newConnection(config Config) (*connection, error) {
 	}
 
 	c := &connection{
-		msgfac:  mf,
-		pingCh:  make(chan int64),
-		closeCh: make(chan struct{}),
+		msgfac:   mf,
+		pinglock: make(chan struct{}, 1),
+		pingCh:   make(chan int64),
+		closeCh:  make(chan struct{}),
 	}
 
 	c.frameWCfg.SecurityProviderMask = securityProviderNone
@@ -150,8 +151,12 @@ type heartbeat struct {
 }
 
 func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
-	c.pinglock.Lock()
-	defer c.pinglock.Unlock()
+	select {
+	case c.pinglock <- struct{}{}:
+		defer func() { <-c.pinglock }()
+	case <-ctx.Done():
+		return -1, ctx.Err()
+	}
 
 	var b heartbeat
 	b.HeartbeatTimeTick = time.Now().UnixNano()
-- 
2.43.0


From e5d2c26df302a990922f724d8d61daf10787da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 51/57] fix: deeply nested input is refused instead of
 exhausting the stack

---
 serialization/unmarshal.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 45d4bbf..f365474 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -153,7 +153,14 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 	return nil
 }
 
-func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) error {
+// maxDepth bounds the nesting of decoded values, the stack must not grow with the input
+const maxDepth = 20000
+
+func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value, depth int) error {
+	if depth > maxDepth {
+		return fmt.Errorf("values nested deeper than %v", maxDepth)
+	}
+
 	if IsEmptyMeta(meta) {
 
 		// bool is alway empty
@@ -262,7 +269,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		if err := s.value(objmeta, reflect.Indirect(ptr)); err != nil {
+		if err := s.value(objmeta, reflect.Indirect(ptr), depth+1); err != nil {
 			return err
 		}
 
@@ -291,7 +298,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				break
 			}
 
-			err = s.value(meta, field)
+			err = s.value(meta, field, depth+1)
 			if err != nil {
 				return err
 			}
@@ -335,7 +342,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				return err
 			}
 
-			err = s.value(meta, objs.Index(i))
+			err = s.value(meta, objs.Index(i), depth+1)
 
 			if err != nil {
 				return err
@@ -359,7 +366,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 		})
 
 		entries := reflect.Indirect(reflect.New(reflect.SliceOf(sliceTyp)))
-		err := s.value(meta, entries)
+		err := s.value(meta, entries, depth+1)
 		if err != nil {
 			return err
 		}
@@ -397,5 +404,5 @@ func Unmarshal(data []byte, v interface{}) error {
 		return err
 	}
 
-	return d.value(meta, rv)
+	return d.value(meta, rv, 0)
 }
-- 
2.43.0


From 96587c75b0971ac4950a178f40741d776f15f0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:34 +0000
Subject: [PATCH 52/57] fix: sending a message of the node again must not
 repeat earlier announcements and addresses

---
 federation/sitenode_sender.go |  2 ++
 transport/message.go          | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 0557a18..47d5db3 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -151,6 +151,7 @@ func (s *SiteNode) SendOneWay(id NodeID, msg *transport.Message) error {
 	}
 
 	s.fillMessageId(msg)
+	msg = msg.Clone() // the headers below are for this send only
 	s.appendPartnerInfo(msg)
 
 	msg.Headers.SetCustomHeader(transport.MessageHeaderIdTypePToP, &PToPHeader{
@@ -170,6 +171,7 @@ func (s *SiteNode) Route(ctx context.Context, id NodeID, msg *transport.Message)
 	}
 
 	s.fillMessageId(msg)
+	msg = msg.Clone() // the headers below are for this send only
 	s.appendPartnerInfo(msg)
 
 	msg.Headers.SetCustomHeader(transport.MessageHeaderIdTypePToP, &PToPHeader{
diff --git a/transport/message.go b/transport/message.go
index e96490c..1fbebd8 100644
--- a/transport/message.go
+++ b/transport/message.go
@@ -20,6 +20,17 @@ type ByteArrayMessage struct {
 	Body    []byte
 }
 
+// Clone returns a copy whose headers can be changed without changing m
+func (m *Message) Clone() *Message {
+	c := *m
+	c.Headers.customHeaders = make(map[MessageHeaderIdType][]interface{}, len(m.Headers.customHeaders))
+	for typ, headers := range m.Headers.customHeaders {
+		c.Headers.customHeaders[typ] = append([]interface{}(nil), headers...)
+	}
+
+	return &c
+}
+
 func (m *Message) marshal() (int, []byte, error) {
 	var buf bytes.Buffer
 
-- 
2.43.0


From 3bf43453ce6caf10290d638e21dd9fe52d10b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:29 +0000
Subject: [PATCH 53/57] fix: requests and pings return when their context is
 done although the peer takes no data

---
 transport/conn.go | 60 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 878bcf8..b5515b4 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -1,6 +1,7 @@
 package transport
 
 import (
+	"bytes"
 	"context"
 	"crypto/tls"
 	"fmt"
@@ -34,7 +35,7 @@ type Conn interface {
 type connection struct {
 	messageCallback MessageCallback
 	conn            net.Conn
-	writelock       sync.Mutex
+	writelock       chan struct{} // held by the write under way
 	requestTable    RequestTable
 	pinglock        chan struct{} // held by the ping under way
 	pingCh          chan int64
@@ -56,10 +57,11 @@ func newConnection(config Config) (*connection, error) {
 	}
 
 	c := &connection{
-		msgfac:   mf,
-		pinglock: make(chan struct{}, 1),
-		pingCh:   make(chan int64),
-		closeCh:  make(chan struct{}),
+		msgfac:    mf,
+		writelock: make(chan struct{}, 1),
+		pinglock:  make(chan struct{}, 1),
+		pingCh:    make(chan int64),
+		closeCh:   make(chan struct{}),
 	}
 
 	c.frameWCfg.SecurityProviderMask = securityProviderNone
@@ -167,7 +169,7 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 	msg.Headers.Action = "HeartbeatRequest"
 	msg.Body = &b
 
-	err := c.SendOneWay(msg)
+	err := c.send(ctx, msg)
 	if err != nil {
 		return -1, err
 	}
@@ -255,12 +257,46 @@ func (c *connection) sendTransportInit(conn net.Conn) error {
 }
 
 func (c *connection) writeMessageWithFrame(message *Message) error {
-	c.writelock.Lock()
-	defer c.writelock.Unlock()
+	c.writelock <- struct{}{}
+	defer func() { <-c.writelock }()
 
 	return writeMessageWithFrame(c.conn, message, c.frameWCfg)
 }
 
+// writeContext writes the message but waits for that only until ctx is done.
+// A frame begun is always written to its end.
+func (c *connection) writeContext(ctx context.Context, message *Message) error {
+	if ctx.Done() == nil {
+		return c.writeMessageWithFrame(message)
+	}
+
+	// before returning, the message is the caller's again
+	var frame bytes.Buffer
+	if err := writeMessageWithFrame(&frame, message, c.frameWCfg); err != nil {
+		return err
+	}
+
+	select {
+	case c.writelock <- struct{}{}:
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+
+	written := make(chan error, 1)
+	go func() {
+		defer func() { <-c.writelock }()
+		_, err := c.conn.Write(frame.Bytes())
+		written <- err
+	}()
+
+	select {
+	case err := <-written:
+		return err
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func (c *connection) nextMessageHeaderAndBodyFromFrame() (*MessageHeaders, []byte, error) {
 	return nextMessageHeaderAndBodyFromFrame(c.conn, c.frameRCfg)
 }
@@ -313,6 +349,10 @@ func (c *connection) Wait() error {
 }
 
 func (c *connection) SendOneWay(message *Message) error {
+	return c.send(context.Background(), message)
+}
+
+func (c *connection) send(ctx context.Context, message *Message) error {
 	c.lock.RLock()
 	fatalerr := c.fatalerr
 	c.lock.RUnlock()
@@ -321,7 +361,7 @@ func (c *connection) SendOneWay(message *Message) error {
 		return fatalerr
 	}
 	c.msgfac.fillMessageId(message)
-	return c.writeMessageWithFrame(message)
+	return c.writeContext(ctx, message)
 }
 
 func (c *connection) RequestReply(ctx context.Context, message *Message) (*ByteArrayMessage, error) {
@@ -330,7 +370,7 @@ func (c *connection) RequestReply(ctx context.Context, message *Message) (*ByteA
 	pr := c.requestTable.Put(message)
 	defer pr.Close()
 
-	if err := c.SendOneWay(message); err != nil {
+	if err := c.send(ctx, message); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 8aadf2d70d0abc17212aff097d233a0049906d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 54/57] fix: lease pings return when their context is done
 although the peer takes no data

---
 lease/agent.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index b23e2b2..0bf6e25 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -111,6 +111,7 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		parent:        a,
 		pingCh:        make(chan int),
 		closeCh:       make(chan struct{}),
+		writeLock:     make(chan struct{}, 1),
 		localInstance: uniqId(),
 	}
 
@@ -247,7 +248,7 @@ type leaseSession struct {
 	conn      net.Conn
 	connected bool
 	objLock   sync.Mutex
-	writeLock sync.Mutex
+	writeLock chan struct{} // held by the write under way
 
 	pingCh   chan int
 	closeCh  chan struct{}
@@ -328,9 +329,7 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 	ch := s.pingCh
 	s.pingLock.RUnlock()
 
-	s.writeLock.Lock()
-	err = writeDataWithFrame(s.conn, data)
-	s.writeLock.Unlock()
+	err = s.write(ctx, data)
 
 	if err != nil {
 		if neterr, ok := err.(net.Error); ok {
@@ -364,6 +363,34 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 	}
 }
 
+// write writes a frame but waits for that only until ctx is done.
+// A frame begun is always written to its end.
+func (s *leaseSession) write(ctx context.Context, data []byte) error {
+	select {
+	case s.writeLock <- struct{}{}:
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+
+	if ctx.Done() == nil {
+		defer func() { <-s.writeLock }()
+		return writeDataWithFrame(s.conn, data)
+	}
+
+	written := make(chan error, 1)
+	go func() {
+		defer func() { <-s.writeLock }()
+		written <- writeDataWithFrame(s.conn, data)
+	}()
+
+	select {
+	case err := <-written:
+		return err
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func (s *leaseSession) LastPongTime() time.Time {
 	s.pingLock.RLock()
 	defer s.pingLock.RUnlock()
-- 
2.43.0


From 7bcafba94ebdbcb55e552459458e84c47dbf4383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 55/57] fix: a node that hangs or takes no data must not hold
 up bootstrapping, discovery and routed requests

---
 federation/sitenode_boot.go   |  31 +++++++----
 federation/sitenode_sender.go | 101 +++++++++++++++++++++-------------
 transport/conn.go             |   9 +--
 3 files changed, 86 insertions(+), 55 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 86445d1..2d257ad 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -3,7 +3,6 @@ package federation
 import (
 	"context"
 	"log"
-	"sync"
 	"time"
 
 	"github.com/tg123/phabrik/transport"
@@ -17,20 +16,28 @@ func (s *SiteNode) Bootstrap(ctx context.Context) error {
 			return nil
 		}
 
+		probing, cancel := context.WithCancel(ctx)
+
 		for _, seed := range s.seedNodes {
-			if err := s.votePing(seed.Id); err != nil {
-				log.Printf("send vote ping to %v failed %v", seed.Address, err)
-			}
+			// not waited for, one that hangs must not delay the others
+			go func(seed SeedNodeInfo) {
+				if err := s.votePing(probing, seed.Id); err != nil {
+					log.Printf("send vote ping to %v failed %v", seed.Address, err)
+				}
+			}(seed)
 		}
 
 		select {
 		case <-phaseChanged:
 			// check again
 		case <-ctx.Done():
+			cancel()
 			return ctx.Err()
 		case <-time.After(time.Second * 30): // TODO config
 			// continue
 		}
+
+		cancel()
 	}
 }
 
@@ -50,26 +57,26 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 	round := 5
 
 	for {
-		var wg sync.WaitGroup
-		wg.Add(len(discovered))
+		probing, cancel := context.WithCancel(ctx)
 
 		for _, partner := range discovered {
+			// not waited for, one that hangs must not delay the others
 			go func(p PartnerNodeInfo) {
-				defer wg.Done()
-				if err := s.votePing(p.Instance.Id); err != nil {
+				if err := s.votePing(probing, p.Instance.Id); err != nil {
 					log.Printf("send vote ping to %v failed %v", p.Address, err)
 				}
 			}(partner)
 		}
 
-		wg.Wait()
-
 		select {
 		case <-ctx.Done():
+			cancel()
 			return nil, ctx.Err()
 		case <-time.After(1 * time.Second): // wait for voteping reply
 		}
 
+		cancel()
+
 		found := false
 		for _, partner := range s.KnownPartnerNodes(func(PartnerNodeInfo) bool { return true }) {
 
@@ -102,8 +109,8 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 	return parteners, nil
 }
 
-func (s *SiteNode) votePing(id NodeID) error {
-	return s.SendOneWay(id, &transport.Message{
+func (s *SiteNode) votePing(ctx context.Context, id NodeID) error {
+	return s.sendOneWay(ctx, id, &transport.Message{
 		Headers: transport.MessageHeaders{
 			Actor:  transport.MessageActorTypeFederation,
 			Action: "VotePing",
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 47d5db3..7b2b585 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -17,53 +17,71 @@ type cachedConn struct {
 	parent  *SiteNode
 	partner *PartnerNodeInfo
 	init    sync.Once
-	lasterr error
 
-	lock   sync.Mutex // protects conn and closed
-	conn   *transport.Client
-	closed bool
+	lock    sync.Mutex // protects the fields below
+	conn    *transport.Client
+	lasterr error
+	closed  bool
+	ready   chan struct{} // closed when dialed or closed
 }
 
-func (c *cachedConn) Conn() (*transport.Client, error) {
-	c.init.Do(func() {
-		conn, err := c.parent.clientDialer(c.partner.Address)
+func (c *cachedConn) Conn(ctx context.Context) (*transport.Client, error) {
+	c.init.Do(func() { go c.dial() })
 
-		if err != nil {
-			c.lasterr = err
-			c.Close()
-			return
-		}
+	select {
+	case <-c.ready:
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	}
 
-		c.lock.Lock()
-		closed := c.closed
-		if !closed {
-			c.conn = conn
-		}
-		c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
-		if closed {
-			// closed while dialing
-			c.lasterr = net.ErrClosed
-			conn.Close()
-			return
-		}
+	return c.conn, c.lasterr // nil conn if err and will recreate
+}
 
-		conn.SetMessageCallback(c.parent.onMessage)
+func (c *cachedConn) dial() {
+	conn, err := c.parent.clientDialer(c.partner.Address)
 
-		go func() {
-			defer c.Close()
-			conn.Wait()
-		}()
-	})
+	if err != nil {
+		c.closeWith(err)
+		return
+	}
 
-	return c.conn, c.lasterr // nil conn if err and will recreate
+	conn.SetMessageCallback(c.parent.onMessage)
+
+	c.lock.Lock()
+	closed := c.closed
+	if !closed {
+		c.conn = conn
+		close(c.ready)
+	}
+	c.lock.Unlock()
+
+	if closed {
+		// closed while dialing
+		conn.Close()
+		return
+	}
+
+	defer c.Close()
+	conn.Wait()
 }
 
 func (c *cachedConn) Close() error {
+	return c.closeWith(net.ErrClosed)
+}
+
+// closeWith closes the connection, err is the error of those waiting for the dial.
+func (c *cachedConn) closeWith(err error) error {
 	c.lock.Lock()
 	closed := c.closed
 	c.closed = true
 	conn := c.conn
+	if !closed && conn == nil {
+		c.lasterr = err
+		close(c.ready)
+	}
 	c.lock.Unlock()
 
 	if closed {
@@ -80,10 +98,11 @@ func (c *cachedConn) Close() error {
 	return nil
 }
 
-func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
+func (s *SiteNode) getConn(ctx context.Context, p *PartnerNodeInfo) (*transport.Client, error) {
 	c, _ := s.connPool.LoadOrStore(p.Address, &cachedConn{
 		parent:  s,
 		partner: p,
+		ready:   make(chan struct{}),
 	})
 
 	cc := c.(*cachedConn)
@@ -94,10 +113,10 @@ func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
 		return nil, net.ErrClosed
 	}
 
-	return cc.Conn()
+	return cc.Conn(ctx)
 }
 
-func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
+func (s *SiteNode) connectToNode(ctx context.Context, id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
 
 	t := s.closestPartnerNode(id, func(p PartnerNodeInfo) bool {
 		if p.Instance.Id == s.instance.Id {
@@ -111,7 +130,7 @@ func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *Par
 		return nil, nil, fmt.Errorf("%v not found", id)
 	}
 
-	c, err := s.getConn(t)
+	c, err := s.getConn(ctx, t)
 	return c, t, err
 }
 
@@ -145,7 +164,11 @@ func (s *SiteNode) fillMessageId(message *transport.Message) {
 }
 
 func (s *SiteNode) SendOneWay(id NodeID, msg *transport.Message) error {
-	c, t, err := s.connectToNode(id, true)
+	return s.sendOneWay(context.Background(), id, msg)
+}
+
+func (s *SiteNode) sendOneWay(ctx context.Context, id NodeID, msg *transport.Message) error {
+	c, t, err := s.connectToNode(ctx, id, true)
 	if err != nil {
 		return err
 	}
@@ -161,11 +184,11 @@ func (s *SiteNode) SendOneWay(id NodeID, msg *transport.Message) error {
 		ExactInstance: true,
 	})
 
-	return c.SendOneWay(msg)
+	return c.SendOneWayContext(ctx, msg)
 }
 
 func (s *SiteNode) Route(ctx context.Context, id NodeID, msg *transport.Message) (*transport.ByteArrayMessage, error) {
-	c, t, err := s.connectToNode(id, false)
+	c, t, err := s.connectToNode(ctx, id, false)
 	if err != nil {
 		return nil, err
 	}
@@ -196,7 +219,7 @@ func (s *SiteNode) Route(ctx context.Context, id NodeID, msg *transport.Message)
 	pr := s.requestTable.Put(msg)
 	defer pr.Close()
 
-	if err := c.SendOneWay(msg); err != nil {
+	if err := c.SendOneWayContext(ctx, msg); err != nil {
 		return nil, err
 	}
 
diff --git a/transport/conn.go b/transport/conn.go
index b5515b4..5b11660 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -169,7 +169,7 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 	msg.Headers.Action = "HeartbeatRequest"
 	msg.Body = &b
 
-	err := c.send(ctx, msg)
+	err := c.SendOneWayContext(ctx, msg)
 	if err != nil {
 		return -1, err
 	}
@@ -349,10 +349,11 @@ func (c *connection) Wait() error {
 }
 
 func (c *connection) SendOneWay(message *Message) error {
-	return c.send(context.Background(), message)
+	return c.SendOneWayContext(context.Background(), message)
 }
 
-func (c *connection) send(ctx context.Context, message *Message) error {
+// SendOneWayContext is SendOneWay but returns when ctx is done, the message may be sent all the same.
+func (c *connection) SendOneWayContext(ctx context.Context, message *Message) error {
 	c.lock.RLock()
 	fatalerr := c.fatalerr
 	c.lock.RUnlock()
@@ -370,7 +371,7 @@ func (c *connection) RequestReply(ctx context.Context, message *Message) (*ByteA
 	pr := c.requestTable.Put(message)
 	defer pr.Close()
 
-	if err := c.send(ctx, message); err != nil {
+	if err := c.SendOneWayContext(ctx, message); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 3f7b7072fb990573743dda8a695e1913437d286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 56/57] fix: send negative retry counts too

---
 transport/messageheaders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index ae2266a..8778604 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -183,7 +183,7 @@ func (h *MessageHeaders) writeTo(w io.Writer) error {
 		}
 	}
 
-	if h.RetryCount > 0 {
+	if h.RetryCount != 0 {
 		if err := writeMessageHeader(w, MessageHeaderIdTypeRetry, &struct {
 			RetryCount int32
 		}{
-- 
2.43.0


From 59f543bc1e2dfd6f9efbe67804ff71f7857dbbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 57/57] fix: keep security negotiation headers received, the
 proxy relays them

---
 transport/messageheaders.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 8778604..40f2b69 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -336,8 +336,6 @@ func parseFabricMessageHeaders(r io.Reader) (*MessageHeaders, error) {
 
 			headers.Idempotent = hv.Idempotent
 
-		case MessageHeaderIdTypeSecurityNegotiation:
-			// TODO support negotiation
 		case MessageHeaderIdTypeFault:
 			var hv struct {
 				ErrorCode    FabricErrorCode
-- 
2.43.0

