From 7701b80e5553986e1f5a52d923ac2a8ce21d8531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 01/19] fix: client without a Trace function panics on the
 first reply

Client.IO calls c.Trace without the nil check every other call has.
---
 protocol/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 9f67f3c..c3dd79e 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -160,9 +160,13 @@ func (c *Client) IO() {
 		if int(t-1) >= len(c.RPC) {
 			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
 		}
-		c.Trace("RPC %v ", c.RPC[t-1])
+		if c.Trace != nil {
+			c.Trace("RPC %v ", c.RPC[t-1])
+		}
 		rrr := c.RPC[t-1]
-		c.Trace("rrr %v ", rrr)
+		if c.Trace != nil {
+			c.Trace("rrr %v ", rrr)
+		}
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
-- 
2.43.0


From fb5d9952ac83d13c5c78d6d1c9767668f82846ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 02/19] fix: do not take a fragmented message header for the
 end of the connection

A stream transport may return fewer than 7 bytes from one Read. Both the
server and the client treated that as a fatal short read.
---
 protocol/client.go | 2 +-
 protocol/server.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index c3dd79e..393ca55 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -93,7 +93,7 @@ func (c *Client) readNetPackets() {
 			c.Trace("Before read")
 		}
 
-		if n, err := c.FromNet.Read(l); err != nil || n < 7 {
+		if n, err := io.ReadFull(c.FromNet, l); err != nil || n < 7 {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
diff --git a/protocol/server.go b/protocol/server.go
index 3da8bd5..72e4718 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -212,7 +212,7 @@ func (c *conn) serve() {
 
 	for !c.dead {
 		l := make([]byte, 7)
-		if n, err := c.rwc.Read(l); err != nil || n < 7 {
+		if n, err := io.ReadFull(c.rwc, l); err != nil || n < 7 {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
-- 
2.43.0


From 93a26f27c14a54051ce592b823ffd662d2c67df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 03/19] fix: do not process messages that arrived incompletely

io.Copy reports no error when the connection ends inside a message, so the
server executed truncated requests and the client accepted truncated
replies. The same check covers a declared size smaller than the header.
---
 protocol/client.go | 2 +-
 protocol/server.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 393ca55..129db52 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -104,7 +104,7 @@ func (c *Client) readNetPackets() {
 		s := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
 		b := bytes.NewBuffer(l)
 		r := io.LimitReader(c.FromNet, s-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if n, err := io.Copy(b, r); err != nil || n != s-7 {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
diff --git a/protocol/server.go b/protocol/server.go
index 72e4718..191c530 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -221,7 +221,7 @@ func (c *conn) serve() {
 		t := MType(l[4])
 		b := bytes.NewBuffer(l[5:])
 		r := io.LimitReader(c.rwc, sz-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if n, err := io.Copy(b, r); err != nil || n != sz-7 {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
-- 
2.43.0


From c4e9a79cfa0f7f42a94b74943b79be9273142cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 04/19] fix: decoders accept truncated integers and panic on
 overlong data counts

bytes.Buffer.Read returns what is left without an error, so a message cut
inside its last integer decoded to a guessed value; and a data count larger
than the message sliced beyond the buffer. Fixed in the generator;
genout.go is regenerated.
---
 protocol/gen.go    |   7 +-
 protocol/genout.go | 191 ++++++++++++++++++++++++---------------------
 2 files changed, 109 insertions(+), 89 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 17e6cf2..e1e108c 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -41,6 +41,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 `
@@ -143,7 +144,7 @@ return
 	ufunc = template.Must(template.New("mr").Parse(`func Unmarshal{{.UFunc}}Pkt (b *bytes.Buffer) ({{.URet}} t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -217,7 +218,7 @@ func emitEncodeInt(v interface{}, n string, l int, e *emitter) {
 func emitDecodeInt(v interface{}, n string, l int, e *emitter) {
 	t := reflect.ValueOf(v).Type().Name()
 	debug("emit reflect.ValueOf(v) %s %v, %v", t, n, l)
-	e.UCode.WriteString(fmt.Sprintf("\tif _, err = b.Read(u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
+	e.UCode.WriteString(fmt.Sprintf("\tif _, err = io.ReadFull(b, u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
 	e.UCode.WriteString(fmt.Sprintf("\t%v = %s(u[0])\n", n, t))
 	for i := 1; i < l; i++ {
 		e.UCode.WriteString(fmt.Sprintf("\t%v |= %s(u[%d])<<%v\n", n, t, i, i*8))
@@ -339,11 +340,13 @@ func genDecodeSlice(v interface{}, n string, e *emitter) error {
 	case "[]byte", "[]uint8":
 		var u uint64
 		emitDecodeInt(u, "l", 4, e)
+		e.UCode.WriteString("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %d, have %d\", l, b.Len())\n\treturn\n\t}\n")
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	case "[]protocol.DataCnt16":
 		var u uint64
 		emitDecodeInt(u, "l", 2, e)
+		e.UCode.WriteString("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %d, have %d\", l, b.Len())\n\treturn\n\t}\n")
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	default:
diff --git a/protocol/genout.go b/protocol/genout.go
index 05107d6..92185aa 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -3,6 +3,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 func MarshalRerrorPkt (b *bytes.Buffer, t Tag, Error string) {
@@ -24,13 +25,13 @@ return
 func UnmarshalRerrorPkt (b *bytes.Buffer) (Error string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -71,13 +72,13 @@ return
 func UnmarshalRversionPkt (b *bytes.Buffer) (RMsize MaxSize, RVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -85,7 +86,7 @@ t = Tag(l)
 	RMsize |= MaxSize(u[1])<<8
 	RMsize |= MaxSize(u[2])<<16
 	RMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -126,13 +127,13 @@ return
 func UnmarshalTversionPkt (b *bytes.Buffer) (TMsize MaxSize, TVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -140,7 +141,7 @@ t = Tag(l)
 	TMsize |= MaxSize(u[1])<<8
 	TMsize |= MaxSize(u[2])<<16
 	TMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -220,18 +221,18 @@ return
 func UnmarshalRattachPkt (b *bytes.Buffer) (QID QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -239,7 +240,7 @@ t = Tag(l)
 	QID.Version |= uint32(u[1])<<8
 	QID.Version |= uint32(u[2])<<16
 	QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -287,13 +288,13 @@ return
 func UnmarshalTattachPkt (b *bytes.Buffer) (SFID FID, AFID FID, Uname string, Aname string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -301,7 +302,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -309,7 +310,7 @@ t = Tag(l)
 	AFID |= FID(u[1])<<8
 	AFID |= FID(u[2])<<16
 	AFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -321,7 +322,7 @@ t = Tag(l)
 	}
 	Uname = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -388,7 +389,7 @@ return
 func UnmarshalRflushPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -419,13 +420,13 @@ return
 func UnmarshalTflushPkt (b *bytes.Buffer) (OTag Tag,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -504,13 +505,13 @@ return
 func UnmarshalRwalkPkt (b *bytes.Buffer) (QIDs []QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -518,12 +519,12 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	QIDs = make([]QID, l)
 for i := range QIDs {
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QIDs[i].Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -531,7 +532,7 @@ for i := range QIDs {
 	QIDs[i].Version |= uint32(u[1])<<8
 	QIDs[i].Version |= uint32(u[2])<<16
 	QIDs[i].Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -582,13 +583,13 @@ return
 func UnmarshalTwalkPkt (b *bytes.Buffer) (SFID FID, NewFID FID, Paths []string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -596,7 +597,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -604,7 +605,7 @@ t = Tag(l)
 	NewFID |= FID(u[1])<<8
 	NewFID |= FID(u[2])<<16
 	NewFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -612,7 +613,7 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	Paths = make([]string, l)
 for i := range Paths {
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -697,18 +698,18 @@ return
 func UnmarshalRopenPkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -716,7 +717,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -728,7 +729,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -764,13 +765,13 @@ return
 func UnmarshalTopenPkt (b *bytes.Buffer) (OFID FID, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -778,7 +779,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -855,18 +856,18 @@ return
 func UnmarshalRcreatePkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -874,7 +875,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -886,7 +887,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -929,13 +930,13 @@ return
 func UnmarshalTcreatePkt (b *bytes.Buffer) (OFID FID, Name string, CreatePerm Perm, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -943,7 +944,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -955,7 +956,7 @@ t = Tag(l)
 	}
 	Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -963,7 +964,7 @@ t = Tag(l)
 	CreatePerm |= Perm(u[1])<<8
 	CreatePerm |= Perm(u[2])<<16
 	CreatePerm |= Perm(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -1026,18 +1027,22 @@ return
 func UnmarshalRstatPkt (b *bytes.Buffer) (B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1067,13 +1072,13 @@ return
 func UnmarshalTstatPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1136,7 +1141,7 @@ return
 func UnmarshalRwstatPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1172,13 +1177,13 @@ return
 func UnmarshalTwstatPkt (b *bytes.Buffer) (OFID FID, B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1186,12 +1191,16 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1249,7 +1258,7 @@ return
 func UnmarshalRclunkPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1282,13 +1291,13 @@ return
 func UnmarshalTclunkPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1351,7 +1360,7 @@ return
 func UnmarshalRremovePkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1384,13 +1393,13 @@ return
 func UnmarshalTremovePkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1458,13 +1467,13 @@ return
 func UnmarshalRreadPkt (b *bytes.Buffer) (Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1472,6 +1481,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1513,13 +1526,13 @@ return
 func UnmarshalTreadPkt (b *bytes.Buffer) (OFID FID, Off Offset, Len Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1527,7 +1540,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1539,7 +1552,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1606,13 +1619,13 @@ return
 func UnmarshalRwritePkt (b *bytes.Buffer) (RLen Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1660,13 +1673,13 @@ return
 func UnmarshalTwritePkt (b *bytes.Buffer) (OFID FID, Off Offset, Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1674,7 +1687,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1686,7 +1699,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1694,6 +1707,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1807,13 +1824,13 @@ func Unmarshaldir (b *bytes.Buffer) (D Dir,  err error) {
 var u [8]uint8
 var l uint64
 _ = b.Next(2) // eat the length too
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	D.Type = uint16(u[0])
 	D.Type |= uint16(u[1])<<8
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1821,12 +1838,12 @@ _ = b.Next(2) // eat the length too
 	D.Dev |= uint32(u[1])<<8
 	D.Dev |= uint32(u[2])<<16
 	D.Dev |= uint32(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	D.QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1834,7 +1851,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Version |= uint32(u[1])<<8
 	D.QID.Version |= uint32(u[2])<<16
 	D.QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1846,7 +1863,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Path |= uint64(u[5])<<40
 	D.QID.Path |= uint64(u[6])<<48
 	D.QID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1854,7 +1871,7 @@ _ = b.Next(2) // eat the length too
 	D.Mode |= uint32(u[1])<<8
 	D.Mode |= uint32(u[2])<<16
 	D.Mode |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1862,7 +1879,7 @@ _ = b.Next(2) // eat the length too
 	D.Atime |= uint32(u[1])<<8
 	D.Atime |= uint32(u[2])<<16
 	D.Atime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1870,7 +1887,7 @@ _ = b.Next(2) // eat the length too
 	D.Mtime |= uint32(u[1])<<8
 	D.Mtime |= uint32(u[2])<<16
 	D.Mtime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1882,7 +1899,7 @@ _ = b.Next(2) // eat the length too
 	D.Length |= uint64(u[5])<<40
 	D.Length |= uint64(u[6])<<48
 	D.Length |= uint64(u[7])<<56
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1894,7 +1911,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1906,7 +1923,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.User = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1918,7 +1935,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Group = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
-- 
2.43.0


From 5367f6da9264a530789df6b2f0ed8be2c31c8e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:50 +0000
Subject: [PATCH 05/19] fix: server executes requests that do not decode

The server stubs ignored the decode error and called the file server with
whatever had been decoded. Answer with an error instead. Fixed in the
generator; genout.go is regenerated.
---
 protocol/gen.go    |  6 ++--
 protocol/genout.go | 72 ++++++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index e1e108c..b6be0ef 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -159,8 +159,10 @@ return
 `))
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
diff --git a/protocol/genout.go b/protocol/genout.go
index 92185aa..bd0ab3d 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -161,8 +161,10 @@ return
 }
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -342,8 +344,10 @@ return
 }
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -440,8 +444,10 @@ return
 }
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rflush(OTag); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -634,8 +640,10 @@ return
 }
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -792,8 +800,10 @@ return
 }
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -977,8 +987,10 @@ return
 }
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1094,8 +1106,10 @@ return
 }
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1211,8 +1225,10 @@ return
 }
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1313,8 +1329,10 @@ return
 }
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1415,8 +1433,10 @@ return
 }
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rremove(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1568,8 +1588,10 @@ return
 }
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1721,8 +1743,10 @@ return
 }
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
-- 
2.43.0


From ed52f15b7cbdcedc73c112acb101c546265861e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:02 +0000
Subject: [PATCH 06/19] fix: a lost connection crashes the client or leaves
 calls waiting forever

When the server went away the client dereferenced a nil reply, a write
error exited the whole program, and calls without a reply as well as later
calls never returned, although once a client is marked Dead all further
requests to it are documented to fail. Let all of them fail.
---
 protocol/client.go | 88 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 75 insertions(+), 13 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 129db52..67aa6b3 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"log"
 	"runtime"
+	"sync"
 	"sync/atomic"
 )
 
@@ -33,6 +34,9 @@ type Client struct {
 	Msize      uint32
 	Dead       bool
 	Trace      Tracer
+
+	// mu guards RPC and Dead
+	mu sync.Mutex
 }
 
 func NewClient(opts ...ClientOpt) (*Client, error) {
@@ -74,12 +78,51 @@ func (c *Client) GetFID() FID {
 	return FID(atomic.AddUint64(&c.FID, 1))
 }
 
+func (c *Client) isDead() bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.Dead
+}
+
+func (c *Client) setDead() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.Dead = true
+}
+
+// fail makes a call return an error, as if the server had sent it.
+func (c *Client) fail(r *RPCCall, m string) {
+	var b bytes.Buffer
+	MarshalRerrorPkt(&b, Tag(r.b[5])|Tag(r.b[6])<<8, m)
+	r.Reply <- b.Bytes()
+}
+
+// failPending fails all calls which are waiting for a reply, once there will
+// be no more replies.
+func (c *Client) failPending() {
+	c.mu.Lock()
+	c.Dead = true
+	pending := c.RPC
+	c.RPC = make([]*RPCCall, NumTags)
+	c.mu.Unlock()
+	if c.ToNet != nil {
+		c.ToNet.Close()
+	}
+	for i, r := range pending {
+		if r != nil {
+			c.fail(r, "connection to server lost")
+			c.Tags <- Tag(i + 1)
+		}
+	}
+}
+
 func (c *Client) readNetPackets() {
 	if c.FromNet == nil {
 		if c.Trace != nil {
 			c.Trace("c.FromNet is nil, marking dead")
 		}
-		c.Dead = true
+		c.setDead()
+		close(c.FromServer)
 		return
 	}
 	defer c.FromNet.Close()
@@ -87,7 +130,7 @@ func (c *Client) readNetPackets() {
 	if c.Trace != nil {
 		c.Trace("Starting readNetPackets")
 	}
-	for !c.Dead {
+	for !c.isDead() {
 		l := make([]byte, 7)
 		if c.Trace != nil {
 			c.Trace("Before read")
@@ -95,7 +138,7 @@ func (c *Client) readNetPackets() {
 
 		if n, err := io.ReadFull(c.FromNet, l); err != nil || n < 7 {
 			log.Printf("readNetPackets: short read: %v", err)
-			c.Dead = true
+			c.setDead()
 			return
 		}
 		if c.Trace != nil {
@@ -106,7 +149,7 @@ func (c *Client) readNetPackets() {
 		r := io.LimitReader(c.FromNet, s-7)
 		if n, err := io.Copy(b, r); err != nil || n != s-7 {
 			log.Printf("readNetPackets: short read: %v", err)
-			c.Dead = true
+			c.setDead()
 			return
 		}
 		if c.Trace != nil {
@@ -133,20 +176,39 @@ func (c *Client) IO() {
 			if c.Trace != nil {
 				c.Trace(fmt.Sprintf("Tag for request is %v", t))
 			}
-			c.RPC[int(t)-1] = r
+			c.mu.Lock()
+			dead := c.Dead || c.ToNet == nil
+			if !dead {
+				c.RPC[int(t)-1] = r
+			}
+			c.mu.Unlock()
+			if dead {
+				c.Tags <- t
+				c.fail(r, "client is dead")
+				continue
+			}
 			if c.Trace != nil {
 				c.Trace("Write %v to ToNet", r.b)
 			}
 			if _, err := c.ToNet.Write(r.b); err != nil {
-				c.Dead = true
-				log.Fatalf("Write to server: %v", err)
-				return
+				log.Printf("Write to server: %v", err)
+				c.setDead()
+				// This ends readNetPackets, and then IO
+				// fails all pending calls.
+				c.ToNet.Close()
+				if c.FromNet != nil {
+					c.FromNet.Close()
+				}
 			}
 		}
 	}()
 
 	for {
-		r := <-c.FromServer
+		r, ok := <-c.FromServer
+		if !ok {
+			c.failPending()
+			return
+		}
 		if c.Trace != nil {
 			c.Trace("Read %v FromServer", r.b)
 		}
@@ -160,10 +222,10 @@ func (c *Client) IO() {
 		if int(t-1) >= len(c.RPC) {
 			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
 		}
-		if c.Trace != nil {
-			c.Trace("RPC %v ", c.RPC[t-1])
-		}
+		c.mu.Lock()
 		rrr := c.RPC[t-1]
+		c.RPC[t-1] = nil
+		c.mu.Unlock()
 		if c.Trace != nil {
 			c.Trace("rrr %v ", rrr)
 		}
@@ -174,6 +236,6 @@ func (c *Client) IO() {
 
 func (c *Client) String() string {
 	z := map[bool]string{false: "Alive", true: "Dead"}
-	return fmt.Sprintf("%v tags available, Msize %v, %v FromNet %v ToNet %v", len(c.Tags), c.Msize, z[c.Dead],
+	return fmt.Sprintf("%v tags available, Msize %v, %v FromNet %v ToNet %v", len(c.Tags), c.Msize, z[c.isDead()],
 		c.FromNet, c.ToNet)
 }
-- 
2.43.0


From 2e37fff574e8a7cbc706dc31ee624c7aafdb0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:04 +0000
Subject: [PATCH 07/19] fix: unexpected replies crash the client or pass as
 answers

A reply with a tag that is not outstanding panicked or blocked the client
for good, and a reply of the wrong type was decoded as if it were the right
one. Ignore the former and turn the latter into an error.
---
 protocol/client.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 67aa6b3..c7d11bf 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -217,10 +217,12 @@ func (c *Client) IO() {
 			c.Trace(fmt.Sprintf("Tag for reply is %v", t))
 		}
 		if t < 1 {
-			panic(fmt.Sprintf("tag %d < 1", t))
+			log.Printf("ignoring reply: tag %d < 1", t)
+			continue
 		}
-		if int(t-1) >= len(c.RPC) {
-			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
+		if int(t-1) >= NumTags {
+			log.Printf("ignoring reply: tag %d > %d", t, NumTags)
+			continue
 		}
 		c.mu.Lock()
 		rrr := c.RPC[t-1]
@@ -229,6 +231,15 @@ func (c *Client) IO() {
 		if c.Trace != nil {
 			c.Trace("rrr %v ", rrr)
 		}
+		if rrr == nil {
+			log.Printf("ignoring reply: no request with tag %d", t)
+			continue
+		}
+		if m := MType(r.b[4]); m != Rerror && m != MType(rrr.b[4])+1 {
+			c.fail(rrr, fmt.Sprintf("unexpected reply type %d", m))
+			c.Tags <- t
+			continue
+		}
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
-- 
2.43.0


From e6c50379869eaf58810b287e398382a8956b0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:00 +0000
Subject: [PATCH 08/19] fix: clients can leave the exported root

Walking to .., creating names with .. in them, absolute wstat names with ..
and renaming the root directory all reached outside the directory given
with -root; removing the root removed it from its parent.
---
 filesystem/filesystem.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 2523097..b8173f9 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -79,6 +79,20 @@ func (e *FileServer) getFile(fid protocol.FID) (*file, error) {
 	return f, nil
 }
 
+// join returns the path of name in dir. As in Rattach, nobody gets out of the
+// root of this server: .. in the root is the root.
+func (e *FileServer) join(dir, name string) string {
+	rel, err := filepath.Rel(e.rootPath, dir)
+	if err != nil {
+		rel = "/"
+	}
+	return path.Join(e.rootPath, path.Join("/", rel, name))
+}
+
+func (e *FileServer) isRoot(name string) bool {
+	return name == path.Clean(e.rootPath)
+}
+
 func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string, aname string) (protocol.QID, error) {
 	if afid != protocol.NOFID {
 		return protocol.QID{}, fmt.Errorf("We don't do auth attach")
@@ -124,7 +138,7 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 
 	var i int
 	for i = range paths {
-		p = path.Join(p, paths[i])
+		p = e.join(p, paths[i])
 		st, err := os.Lstat(p)
 		if err != nil {
 			// From the RFC: If the first element cannot be walked for any
@@ -185,7 +199,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	if f.file != nil {
 		return protocol.QID{}, 0, fmt.Errorf("FID already open")
 	}
-	n := path.Join(f.fullName, name)
+	n := e.join(f.fullName, name)
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
 		err := os.Mkdir(n, p)
@@ -245,6 +259,9 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	if err != nil {
 		return err
 	}
+	if dir.Name != "" && e.isRoot(f.fullName) {
+		return fmt.Errorf("cannot rename the root")
+	}
 	if dir.Mode != 0xFFFFFFFF {
 		changed = true
 		mode := dir.Mode & 0777
@@ -282,7 +299,7 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		// we will make it relative to root. This is a gigantic performance
 		// improvement in systems that allow it.
 		if filepath.IsAbs(dir.Name) {
-			newname = path.Join(e.rootPath, dir.Name)
+			newname = path.Join(e.rootPath, path.Join("/", dir.Name))
 		}
 
 		// If to exists, and to is a directory, we can't do the
@@ -358,6 +375,9 @@ func (e *FileServer) Rremove(fid protocol.FID) error {
 	if err != nil {
 		return err
 	}
+	if e.isRoot(f.fullName) {
+		return fmt.Errorf("cannot remove the root")
+	}
 	return os.Remove(f.fullName)
 }
 
-- 
2.43.0


From 6967dacc6d4bc365a1ca49e3d0d587bcb13d6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:01 +0000
Subject: [PATCH 09/19] fix: attach to a fid in use replaces it, and walking a
 fid to itself fails

Attach must be rejected for a fid in use; it silently dropped the old file
and left its host file open. A walk without names from a fid to itself is
legal in 9P2000 and was rejected as in use.
---
 filesystem/filesystem.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index b8173f9..a5bb801 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -106,6 +106,11 @@ func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string,
 	}
 	r := &file{fullName: aname}
 	r.QID = fileInfoToQID(st)
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	if _, ok := e.files[fid]; ok {
+		return protocol.QID{}, fmt.Errorf("FID in use: attach, fid %d", fid)
+	}
 	e.files[fid] = r
 	e.root = r
 	return r.QID, nil
@@ -123,6 +128,9 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		return nil, fmt.Errorf("does not exist")
 	}
 	if len(paths) == 0 {
+		if fid == newfid {
+			return []protocol.QID{}, nil
+		}
 		e.mu.Lock()
 		defer e.mu.Unlock()
 		_, ok := e.files[newfid]
-- 
2.43.0


From f66e8237f9529ea7f358a8e62942bd1c96003c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 10/19] fix: fids share or leak the host file of another open

A clone of an open fid shared its host file, so clunking one broke the
other. Opening an open fid again left the first host file open, and if the
second open failed the fid was no longer open. Walking an open fid elsewhere
left its host file open.
---
 filesystem/filesystem.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index a5bb801..50176f3 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -138,6 +138,9 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 			return nil, fmt.Errorf("FID in use: clone walk, fid %d newfid %d", fid, newfid)
 		}
 		nf := *f
+		// The clone is not open, whether or not f is.
+		nf.file = nil
+		nf.oflow = nil
 		e.files[newfid] = &nf
 		return []protocol.QID{}, nil
 	}
@@ -179,6 +182,9 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 			return nil, fmt.Errorf("FID in use: walk to %v, fid %v, newfid %v", paths, fid, newfid)
 		}
 	}
+	if fid == newfid && f.file != nil {
+		f.file.Close()
+	}
 	e.files[newfid] = &file{fullName: p, QID: q[i]}
 	return q, nil
 }
@@ -191,6 +197,9 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 		return protocol.QID{}, 0, fmt.Errorf("does not exist")
 	}
 
+	if f.file != nil {
+		return protocol.QID{}, 0, fmt.Errorf("FID already open")
+	}
 	var err error
 	f.file, err = os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
 	if err != nil {
-- 
2.43.0


From e79e0235bb38f870c9ea98c7c56743ef413db165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 11/19] fix: creating a directory reports success when mkdir
 failed

If something of that name existed, it was taken for the new directory.
---
 filesystem/filesystem.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 50176f3..570e8ba 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -219,7 +219,9 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	n := e.join(f.fullName, name)
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
-		err := os.Mkdir(n, p)
+		if err := os.Mkdir(n, p); err != nil {
+			return protocol.QID{}, 0, err
+		}
 		_, q, err := stat(n)
 		if err != nil {
 			return protocol.QID{}, 0, err
-- 
2.43.0


From b687b33b64f0b03a96ff6c94aa820a3d33bf2543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:05 +0000
Subject: [PATCH 12/19] fix: a directory entry that does not fit into a read is
 lost

Keep it for the next read, as was intended with oflow.
---
 filesystem/filesystem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 570e8ba..c1fd192 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -431,6 +431,9 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 				return b.Bytes()[:pos], nil
 			}
 			pos += b.Len()
+			if pos > 0 {
+				return b.Bytes(), nil
+			}
 			st, err := f.file.Readdir(1)
 			if err == io.EOF {
 				return b.Bytes(), nil
@@ -448,7 +451,8 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 			// they end up asking for the last element with not enough data.
 			// Linux bug or bug with this server? Not sure yet.
 			if b.Len() > int(c) {
-				log.Printf("Warning: Server bug? %v, need %d bytes;count is %d: skipping", d9p, b.Len(), c)
+				log.Printf("Warning: Server bug? %v, need %d bytes;count is %d: keeping it for the next read", d9p, b.Len(), c)
+				f.oflow = b.Bytes()
 				return nil, nil
 			}
 			// We're not quite doing the array right.
-- 
2.43.0


From 1717fbff99be8482abe5bfa2875cf0c9d31128bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:21 +0000
Subject: [PATCH 13/19] fix: a wstat rejected for its owner or group has
 already changed the mode

---
 filesystem/filesystem.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index c1fd192..5f2db55 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -278,6 +278,11 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	if err != nil {
 		return err
 	}
+	// Try to find local uid, gid by name.
+	if dir.User != "" || dir.Group != "" {
+		return fmt.Errorf("Permission denied")
+		changed = true
+	}
 	if dir.Name != "" && e.isRoot(f.fullName) {
 		return fmt.Errorf("cannot rename the root")
 	}
@@ -289,12 +294,6 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		}
 	}
 
-	// Try to find local uid, gid by name.
-	if dir.User != "" || dir.Group != "" {
-		return fmt.Errorf("Permission denied")
-		changed = true
-	}
-
 	/*
 		if uid != ninep.NOUID || gid != ninep.NOUID {
 			changed = true
-- 
2.43.0


From 2d254e20bb4c76fc4e9d5fea0f5b634d7eeddf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 14/19] fix: setting only the modification time sets the access
 time to 2106

---
 filesystem/filesystem.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 5f2db55..a9ad25a 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -355,6 +355,8 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 				mt = st.ModTime()
 			default:
 				//at = atime(st.Sys().(*syscall.Stat_t))
+				// The zero Time leaves it unchanged.
+				at = time.Time{}
 			}
 		}
 		if err := os.Chtimes(f.fullName, at, mt); err != nil {
-- 
2.43.0


From 87b35083a97f43c56a98b24d64f13e89d4e41de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 15/19] fix: read replies ignore the negotiated message size;
 negative counts panic

A read with a negative count crashed the server process, and one with a
large count was answered with a message longer than the size the version
request had agreed on.
---
 filesystem/filesystem.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index a9ad25a..8625ceb 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -35,6 +35,7 @@ type FileServer struct {
 	rootPath  string
 	Versioned bool
 	IOunit    protocol.MaxSize
+	msize     protocol.MaxSize
 
 	// mu guards below
 	mu    sync.Mutex
@@ -64,7 +65,14 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	if version != "9P2000" {
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
 	}
+	if msize <= protocol.IOHDRSZ {
+		return 0, "", fmt.Errorf("message size %d is too small", msize)
+	}
+	if msize > protocol.MSIZE {
+		msize = protocol.MSIZE
+	}
 	e.Versioned = true
+	e.msize = msize
 	return msize, version, nil
 }
 
@@ -409,6 +417,13 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 	if f.file == nil {
 		return nil, fmt.Errorf("FID not open")
 	}
+	if c < 0 {
+		return nil, fmt.Errorf("bad count %d", c)
+	}
+	// The reply must not be larger than the negotiated message size.
+	if int64(c) > int64(e.msize)-protocol.IOHDRSZ {
+		c = protocol.Count(e.msize - protocol.IOHDRSZ)
+	}
 	if f.QID.Type&protocol.QTDIR != 0 {
 		if o == 0 {
 			f.oflow = nil
@@ -496,6 +511,7 @@ func NewUFS(opts ...protocol.ListenerOpt) (*protocol.Listener, error) {
 		f.files = make(map[protocol.FID]*file)
 		f.rootPath = *root // for now.
 		f.IOunit = 8192
+		f.msize = protocol.MSIZE
 		// any opts for the ufs layer can be added here too ...
 		var d protocol.NineServer = f
 		if *debug != 0 {
-- 
2.43.0


From b2ebf424198f3a97ebd681456561ee42d8b6d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:24 +0000
Subject: [PATCH 16/19] fix: wstat that cannot rename must not have changed the
 mode

A wstat asking for a new mode and a new name changed the mode first, so
that a refused rename (onto a directory, say) left the mode changed.
---
 filesystem/filesystem.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 8625ceb..3626565 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -294,14 +294,6 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	if dir.Name != "" && e.isRoot(f.fullName) {
 		return fmt.Errorf("cannot rename the root")
 	}
-	if dir.Mode != 0xFFFFFFFF {
-		changed = true
-		mode := dir.Mode & 0777
-		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
-			return err
-		}
-	}
-
 	/*
 		if uid != ninep.NOUID || gid != ninep.NOUID {
 			changed = true
@@ -341,6 +333,14 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		f.fullName = newname
 	}
 
+	if dir.Mode != 0xFFFFFFFF {
+		changed = true
+		mode := dir.Mode & 0777
+		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
+			return err
+		}
+	}
+
 	if dir.Length != 0xFFFFFFFFFFFFFFFF {
 		changed = true
 		if err := os.Truncate(f.fullName, int64(dir.Length)); err != nil {
-- 
2.43.0


From 1a8eaecf6bfe9a4b528bac8b33d874cc7bd7572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:23 +0000
Subject: [PATCH 17/19] fix: open returns the QID the file had when it was
 walked to

The version of a file that was modified after the walk, or truncated by
the open itself, was that of the old contents.
---
 filesystem/filesystem.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 3626565..95a7165 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -213,6 +213,10 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 	if err != nil {
 		return protocol.QID{}, 0, err
 	}
+	// The file may have changed since the walk, or by being truncated now.
+	if st, err := f.file.Stat(); err == nil {
+		f.QID = fileInfoToQID(st)
+	}
 
 	return f.QID, e.IOunit, nil
 }
-- 
2.43.0


From 980c6b96bc0e8015bec175603262ecaf152b22f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 18/19] fix: do not print the transports in Client.String

Their values are in use by other goroutines: with an io.Pipe, String (and the
client's own trace at its end) read the pipe's internals without synchronization.
---
 protocol/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/client.go b/protocol/client.go
index c7d11bf..06a785f 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -246,7 +246,8 @@ func (c *Client) IO() {
 }
 
 func (c *Client) String() string {
+	// The transports are in use: printing their values could be a data race.
 	z := map[bool]string{false: "Alive", true: "Dead"}
-	return fmt.Sprintf("%v tags available, Msize %v, %v FromNet %v ToNet %v", len(c.Tags), c.Msize, z[c.isDead()],
+	return fmt.Sprintf("%v tags available, Msize %v, %v FromNet %T ToNet %T", len(c.Tags), c.Msize, z[c.isDead()],
 		c.FromNet, c.ToNet)
 }
-- 
2.43.0


From ec6b61077e3da9a3d03853ae74c523ef051751c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:04 +0000
Subject: [PATCH 19/19] fix: files of different file systems could have the
 same QID path

---
 filesystem/ninep_unix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filesystem/ninep_unix.go b/filesystem/ninep_unix.go
index 3b69c50..8112ee8 100644
--- a/filesystem/ninep_unix.go
+++ b/filesystem/ninep_unix.go
@@ -22,7 +22,8 @@ func fileInfoToQID(d os.FileInfo) protocol.QID {
 	// on systems with inodes, use it.
 	if sysif != nil {
 		stat := sysif.(*syscall.Stat_t)
-		qid.Path = uint64(stat.Ino)
+		// Inode numbers are unique only within one file system.
+		qid.Path = uint64(stat.Ino) ^ uint64(stat.Dev)<<40
 	} else {
 		qid.Path = uint64(d.ModTime().UnixNano())
 	}
-- 
2.43.0

