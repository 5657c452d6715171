From 32838b7d32ec818659638ee5822c714fe0ff5c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 01/71] fix: reading a full buffer accepts data delivered
 together with end-of-file, reports the true count, keeps the error kind and
 never returns short without an error

---
 lib/go/src/thrift/ttransport.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index db384c6..25d973c 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -20,6 +20,7 @@
 package thrift
 
 import (
+	"io"
 	"log"
 	"os"
 	"strconv"
@@ -160,19 +161,32 @@ func (p* TTransportBase) Flush() error {
 func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
 	ret := 0
 	size := len(buf)
+	empty := 0
 	for n < size {
 		ret, err = p.Read(buf[n:])
-		if ret <= 0 {
-			if err != nil {
-				err = NewTTransportExceptionDefaultString("Cannot read. Remote side has closed. Tried to read " + strconv.Itoa(size) + " bytes, but only got " + strconv.Itoa(n) + " bytes.")
+		if ret > 0 {
+			n += ret
+			empty = 0
+		}
+		if n >= size {
+			break
+		}
+		if err == nil && ret <= 0 {
+			if empty++; empty >= maxEmptyReads {
+				err = io.ErrNoProgress
 			}
-			return ret, err
 		}
-		n += ret
+		if err != nil {
+			typeId := NewTTransportExceptionFromOsError(err).TypeId()
+			return n, NewTTransportException(typeId, "Cannot read. Remote side has closed. Tried to read "+strconv.Itoa(size)+" bytes, but only got "+strconv.Itoa(n)+" bytes: "+err.Error())
+		}
 	}
-	return n, err
+	return n, nil
 }
 
+// how often in a row a transport may return neither data nor an error
+const maxEmptyReads = 100
+
 var (
 	LOGGER *log.Logger
 )
-- 
2.43.0


From 8bf328c60afeb245fe06248175414e07a2a7d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:33 +0000
Subject: [PATCH 02/71] fix: writing zero bytes to a stream transport no longer
 dereferences a nil error

---
 lib/go/src/thrift/tiostream_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 0195da5..475633f 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -204,7 +204,7 @@ func (p *TIOStreamTransport) Write(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Cannot write to null outputStream")
 	}
 	n, err := p.Writer.Write(buf)
-	if n == 0 || err != nil {
+	if err != nil {
 		LOGGER.Print("Error writing to iostream, only wrote ", n, " bytes: ", err.Error(), "\n")
 	}
 	return n, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 4bcefd2b813bad1f4c4ea549abdff12965a4f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 03/71] fix: the binary protocol rejects negative string,
 binary and container sizes

---
 lib/go/src/thrift/tbinary_protocol.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 424fd84..e42649d 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -23,6 +23,7 @@ import (
 	"encoding/binary"
 	"io"
 	"math"
+	"strconv"
 	"strings"
 )
 
@@ -328,6 +329,10 @@ func (p *TBinaryProtocol) ReadMapBegin() (kType, vType TType, size int, err TPro
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative container size: "+strconv.Itoa(size))
+		return
+	}
 	return kType, vType, size, nil
 }
 
@@ -348,6 +353,10 @@ func (p *TBinaryProtocol) ReadListBegin() (elemType TType, size int, err TProtoc
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative container size: "+strconv.Itoa(size))
+		return
+	}
 	return elemType, size, nil
 }
 
@@ -368,6 +377,10 @@ func (p *TBinaryProtocol) ReadSetBegin() (elemType TType, size int, err TProtoco
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative container size: "+strconv.Itoa(size))
+		return
+	}
 	return elemType, size, nil
 }
 
@@ -432,6 +445,9 @@ func (p *TBinaryProtocol) ReadBinary() ([]byte, TProtocolException) {
 		return nil, e
 	}
 	isize := int(size)
+	if isize < 0 {
+		return nil, NewTProtocolException(NEGATIVE_SIZE, "Negative binary length: "+strconv.Itoa(isize))
+	}
 	e = p.checkReadLength(isize)
 	if e != nil {
 		return nil, e
@@ -471,7 +487,7 @@ func (p *TBinaryProtocol) checkReadLength(length int) TProtocolException {
 	if p._CheckReadLength {
 		p._ReadLength = p._ReadLength - length
 		if p._ReadLength < 0 {
-			return NewTProtocolException(UNKNOWN_PROTOCOL_EXCEPTION, "Message length exceeded: "+string(length))
+			return NewTProtocolException(UNKNOWN_PROTOCOL_EXCEPTION, "Message length exceeded: "+strconv.Itoa(length))
 		}
 	}
 	return nil
@@ -479,7 +495,7 @@ func (p *TBinaryProtocol) checkReadLength(length int) TProtocolException {
 
 func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolException) {
 	if size < 0 {
-		return "", nil
+		return "", NewTProtocolException(NEGATIVE_SIZE, "Negative string length: "+strconv.Itoa(size))
 	}
 	err = p.checkReadLength(size)
 	if err != nil {
-- 
2.43.0


From dbc77b712479cb7d3aeb2073ed7aa322c38831a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 04/71] fix: the compact protocol restores the enclosing
 struct's last field id after more than one nested struct was read

---
 lib/go/src/thrift/tcompact_protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 52a80af..b617b50 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -394,6 +394,7 @@ func (p *TCompactProtocol) ReadStructBegin() (name string, err TProtocolExceptio
 func (p *TCompactProtocol) ReadStructEnd() TProtocolException {
 	// consume the last field we read off the wire.
 	p.lastFieldId = p.lastField[len(p.lastField)-1]
+	p.lastField = p.lastField[:len(p.lastField)-1]
 	return nil
 }
 
-- 
2.43.0


From 360e2c7ea2464229f65c77bd25d3a77c5b10c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 05/71] fix: the compact protocol reads boolean fields whose
 value is false

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index b617b50..8bed471 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -814,8 +814,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	switch byte(t) & 0x0f {
 	case STOP:
 		return STOP, nil
-	case COMPACT_BOOLEAN_FALSE:
-	case COMPACT_BOOLEAN_TRUE:
+	case COMPACT_BOOLEAN_FALSE, COMPACT_BOOLEAN_TRUE:
 		return BOOL, nil
 	case COMPACT_BYTE:
 		return BYTE, nil
-- 
2.43.0


From 70e8c1c15a2b1783c926ae692641e29481b5f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 06/71] fix: the compact protocol reads the kind of oneway
 messages

---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 8bed471..0edc231 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -357,7 +357,7 @@ func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType,
 	}
 	versionAndType, err := p.ReadByte()
 	version := versionAndType & COMPACT_VERSION_MASK
-	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x03)
+	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 7312f4700230a8d0123df8c8ce39f5d00ee967eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 07/71] fix: the compact protocol writes fields and containers
 of binary type instead of panicking

---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0edc231..92056a1 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -844,5 +844,5 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
  * Given a TType value, find the appropriate TCompactProtocol.Types constant.
  */
 func (p *TCompactProtocol) getCompactType(t TType) TCompactType {
-	return _TTypeToCompactType[int(t)]
+	return _TTypeToCompactType[int(t.ThriftTypeId())]
 }
-- 
2.43.0


From 34ccd69485e2c6b2bcb90cf99c1a29ed663fced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:41 +0000
Subject: [PATCH 08/71] fix: the compact protocol reports a failed read of a
 message header as what it is, not as a bad version

---
 lib/go/src/thrift/tcompact_protocol.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 92056a1..d792f6c 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -351,16 +351,19 @@ func (p *TCompactProtocol) WriteBinary(bin []byte) TProtocolException {
  */
 func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
 	protocolId, err := p.ReadByte()
+	if err != nil {
+		return
+	}
 	if protocolId != COMPACT_PROTOCOL_ID {
 		s := fmt.Sprintf("Expected protocol id %02x but got %02x", COMPACT_PROTOCOL_ID, protocolId)
 		return "", typeId, seqId, NewTProtocolException(BAD_VERSION, s)
 	}
 	versionAndType, err := p.ReadByte()
-	version := versionAndType & COMPACT_VERSION_MASK
-	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if err != nil {
 		return
 	}
+	version := versionAndType & COMPACT_VERSION_MASK
+	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if version != COMPACT_VERSION {
 		s := fmt.Sprintf("Expected version %02x but got %02x", COMPACT_VERSION, version)
 		err = NewTProtocolException(BAD_VERSION, s)
-- 
2.43.0


From 340fa41a6a367cc5675412aea33f5920cac9aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 09/71] fix: the compact protocol reports truncated and
 negative-length strings instead of inventing data or panicking

---
 lib/go/src/thrift/tcompact_protocol.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index d792f6c..b0602a8 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -23,6 +23,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"math"
+	"strconv"
 	"strings"
 )
 
@@ -604,10 +605,13 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 	if length == 0 {
 		return []byte{}, nil
 	}
+	if length < 0 {
+		return []byte{}, NewTProtocolException(NEGATIVE_SIZE, "Negative binary length: "+strconv.Itoa(int(length)))
+	}
 
 	buf := make([]byte, length)
-	p.trans.ReadAll(buf)
-	return buf, nil
+	_, e = p.trans.ReadAll(buf)
+	return buf, NewTProtocolExceptionFromOsError(e)
 }
 
 func (p *TCompactProtocol) Flush() (err TProtocolException) {
-- 
2.43.0


From 4aa91405d30d2b237e1876b8515403cd35f50f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 10/71] fix: the compact protocol rejects negative container
 sizes and unknown map key and value types

---
 lib/go/src/thrift/tcompact_protocol.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index b0602a8..7eeb976 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -467,8 +467,15 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 			return
 		}
 	}
-	keyType, _ = p.getTType(TCompactType(keyAndValueType >> 4))
-	valueType, _ = p.getTType(TCompactType(keyAndValueType & 0xf))
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative map size: "+strconv.Itoa(size))
+		return
+	}
+	keyType, e = p.getTType(TCompactType(keyAndValueType >> 4))
+	if e == nil {
+		valueType, e = p.getTType(TCompactType(keyAndValueType & 0xf))
+	}
+	err = NewTProtocolExceptionFromOsError(e)
 	return
 }
 
@@ -493,6 +500,10 @@ func (p *TCompactProtocol) ReadListBegin() (elemType TType, size int, err TProto
 			return
 		}
 		size = int(size2)
+		if size < 0 {
+			err = NewTProtocolException(NEGATIVE_SIZE, "Negative container size: "+strconv.Itoa(size))
+			return
+		}
 	}
 	elemType, e := p.getTType(TCompactType(size_and_type))
 	if e != nil {
-- 
2.43.0


From b9ae2351922b00f1a846558b2e0421c2801f7694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 11/71] fix: the compact protocol rejects integers that are
 overlong or out of range instead of truncating them

---
 lib/go/src/thrift/tcompact_protocol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 7eeb976..b6ca99a 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -558,6 +558,9 @@ func (p *TCompactProtocol) ReadByte() (value byte, err TProtocolException) {
  */
 func (p *TCompactProtocol) ReadI16() (value int16, err TProtocolException) {
 	v, err := p.ReadI32()
+	if err == nil && v != int32(int16(v)) {
+		err = NewTProtocolException(INVALID_DATA, "Value out of range for i16: "+strconv.Itoa(int(v)))
+	}
 	return int16(v), err
 }
 
@@ -754,6 +757,9 @@ func (p *TCompactProtocol) readVarint32() (int32, error) {
 	// if the wire contains the right stuff, this will just truncate the i64 we
 	// read and get us the right sign.
 	v, err := p.readVarint64()
+	if err == nil && uint64(v) > math.MaxUint32 {
+		return 0, NewTProtocolException(INVALID_DATA, "Variable length integer does not fit into 32 bits")
+	}
 	return int32(v), err
 }
 
@@ -769,6 +775,9 @@ func (p *TCompactProtocol) readVarint64() (int64, error) {
 		if err != nil {
 			return 0, err
 		}
+		if shift == 63 && b > 1 {
+			return 0, NewTProtocolException(INVALID_DATA, "Variable length integer does not fit into 64 bits")
+		}
 		result |= int64(b&0x7f) << shift
 		if (b & 0x80) != 0x80 {
 			break
-- 
2.43.0


From 197e94bb14e009efaa2b74b4f725857a5509714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 12/71] fix: the JSON protocols wait for the next significant
 byte instead of taking 'nothing buffered yet' for the end of a value

---
 lib/go/src/thrift/tjson_protocol.go        |  8 +--
 lib/go/src/thrift/tsimple_json_protocol.go | 57 ++++++++++------------
 2 files changed, 31 insertions(+), 34 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 34ab7ca..a8348f7 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -241,11 +241,11 @@ func (p *TJSONProtocol) ReadStructEnd() TProtocolException {
 }
 
 func (p *TJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolException) {
-	if p.reader.Buffered() < 1 {
-		return "", STOP, -1, nil
+	b, e := p.peekSignificant()
+	if e != nil {
+		return "", STOP, -1, NewTProtocolExceptionFromOsError(e)
 	}
-	b, _ := p.reader.Peek(1)
-	if len(b) < 1 || b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
+	if b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
 		return "", STOP, -1, nil
 	}
 	fieldId, err := p.ReadI16()
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index ee7184b..16fc3fc 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -337,9 +337,6 @@ func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolE
 	if err := p.ParsePreValue(); err != nil {
 		return "", STOP, 0, err
 	}
-	if p.reader.Buffered() < 1 {
-		return "", STOP, 0, nil
-	}
 	b, _ := p.reader.Peek(1)
 	if len(b) > 0 {
 		switch b[0] {
@@ -731,14 +728,11 @@ func (p *TSimpleJSONProtocol) OutputElemListBegin(elemType TType, size int) TPro
 }
 
 func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
-	if e := p.readNonSignificantWhitespace(); e != nil {
+	b, e := p.peekSignificant()
+	if e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
 	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
-	if p.reader.Buffered() < 1 {
-		return nil
-	}
-	b, _ := p.reader.Peek(1)
 	switch cxt {
 	case _CONTEXT_IN_LIST:
 		if len(b) > 0 {
@@ -747,7 +741,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 				return nil
 			case JSON_COMMA[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if _, e := p.peekSignificant(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -763,7 +757,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 				return nil
 			case JSON_COMMA[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if _, e := p.peekSignificant(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -777,7 +771,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 			switch b[0] {
 			case JSON_COLON[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if _, e := p.peekSignificant(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -812,6 +806,25 @@ func (p *TSimpleJSONProtocol) ParsePostValue() TProtocolException {
 	return nil
 }
 
+// peekSignificant skips whitespace and returns, without consuming it, the next
+// byte, waiting for it if it has not arrived yet.
+func (p *TSimpleJSONProtocol) peekSignificant() ([]byte, error) {
+	for {
+		b, e := p.reader.Peek(1)
+		if e != nil {
+			return b, e
+		}
+		switch b[0] {
+		case ' ', '\r', '\n', '\t':
+			p.reader.ReadByte()
+		default:
+			return b, nil
+		}
+	}
+}
+
+// readNonSignificantWhitespace skips the whitespace that has already arrived;
+// it does not wait for more.
 func (p *TSimpleJSONProtocol) readNonSignificantWhitespace() error {
 	for p.reader.Buffered() > 0 {
 		b, _ := p.reader.Peek(1)
@@ -1110,27 +1123,11 @@ func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolEx
 }
 
 func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
-	cont := true
-	for p.reader.Buffered() > 0 && cont {
-		b, _ := p.reader.Peek(1)
-		if len(b) < 1 {
-			return false, nil
-		}
-		switch b[0] {
-		default:
-			return false, nil
-		case JSON_NULL[0]:
-			cont = false
-			break
-		case ' ', '\n', '\r', '\t':
-			p.reader.ReadByte()
-			break
-		}
-	}
-	if p.reader.Buffered() == 0 {
+	b, _ := p.peekSignificant()
+	if len(b) < 1 || b[0] != JSON_NULL[0] {
 		return false, nil
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ = p.reader.Peek(len(JSON_NULL))
 	if string(b) == string(JSON_NULL) {
 		p.reader.Read(b[0:len(JSON_NULL)])
 		return true, nil
-- 
2.43.0


From 8ac033f27ea96e8e124703cc7ec068f7e71137ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 13/71] fix: the JSON protocols look no further ahead than the
 value they read, and report an input that ends where a value should be

---
 lib/go/src/thrift/tjson_protocol.go        | 35 +++++----
 lib/go/src/thrift/tsimple_json_protocol.go | 86 ++++++++++++++++------
 2 files changed, 84 insertions(+), 37 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index a8348f7..d7f3ec3 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -314,28 +314,31 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
+	b, e := p.peekLiteral()
+	if e != nil {
+		return value, NewTProtocolExceptionFromOsError(e)
+	}
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
-				p.reader.Read(b[0:len(JSON_TRUE)])
+			if string(b) == string(JSON_TRUE) {
+				p.reader.Discard(len(b))
 				value = true
 			} else {
 				return value, NewTProtocolException(INVALID_DATA, "Expected \"true\" but found: "+string(b))
 			}
 			break
 		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
-				p.reader.Read(b[0:len(JSON_FALSE)])
+			if string(b) == string(JSON_FALSE) {
+				p.reader.Discard(len(b))
 				value = false
 			} else {
 				return value, NewTProtocolException(INVALID_DATA, "Expected \"false\" but found: "+string(b))
 			}
 			break
 		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-				p.reader.Read(b[0:len(JSON_NULL)])
+			if string(b) == string(JSON_NULL) {
+				p.reader.Discard(len(b))
 				value = false
 			} else {
 				return value, NewTProtocolException(INVALID_DATA, "Expected \"null\" but found: "+string(b))
@@ -377,7 +380,10 @@ func (p *TJSONProtocol) ReadString() (string, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return v, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, e := p.peekLiteral()
+	if e != nil {
+		return v, NewTProtocolExceptionFromOsError(e)
+	}
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseStringBody()
@@ -385,8 +391,8 @@ func (p *TJSONProtocol) ReadString() (string, TProtocolException) {
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
+	} else if string(b) == string(JSON_NULL) {
+		_, err := p.reader.Discard(len(b))
 		if err != nil {
 			return v, NewTProtocolExceptionFromOsError(err)
 		}
@@ -401,7 +407,10 @@ func (p *TJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return nil, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, e := p.peekLiteral()
+	if e != nil {
+		return v, NewTProtocolExceptionFromOsError(e)
+	}
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseBase64EncodedBody()
@@ -409,8 +418,8 @@ func (p *TJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
+	} else if string(b) == string(JSON_NULL) {
+		_, err := p.reader.Discard(len(b))
 		if err != nil {
 			return v, NewTProtocolExceptionFromOsError(err)
 		}
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 16fc3fc..e7580aa 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -425,28 +425,31 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
+	b, e := p.peekLiteral()
+	if e != nil {
+		return value, NewTProtocolExceptionFromOsError(e)
+	}
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
-				p.reader.Read(b[0:len(JSON_TRUE)])
+			if string(b) == string(JSON_TRUE) {
+				p.reader.Discard(len(b))
 				value = true
 			} else {
 				return value, NewTProtocolException(INVALID_DATA, "Expected \"true\" but found: "+string(b))
 			}
 			break
 		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
-				p.reader.Read(b[0:len(JSON_FALSE)])
+			if string(b) == string(JSON_FALSE) {
+				p.reader.Discard(len(b))
 				value = false
 			} else {
 				return value, NewTProtocolException(INVALID_DATA, "Expected \"false\" but found: "+string(b))
 			}
 			break
 		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-				p.reader.Read(b[0:len(JSON_NULL)])
+			if string(b) == string(JSON_NULL) {
+				p.reader.Discard(len(b))
 				value = false
 			} else {
 				return value, NewTProtocolException(INVALID_DATA, "Expected \"null\" but found: "+string(b))
@@ -488,7 +491,10 @@ func (p *TSimpleJSONProtocol) ReadString() (string, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return v, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, e := p.peekLiteral()
+	if e != nil {
+		return v, NewTProtocolExceptionFromOsError(e)
+	}
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseStringBody()
@@ -496,8 +502,8 @@ func (p *TSimpleJSONProtocol) ReadString() (string, TProtocolException) {
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
+	} else if string(b) == string(JSON_NULL) {
+		_, err := p.reader.Discard(len(b))
 		if err != nil {
 			return v, NewTProtocolExceptionFromOsError(err)
 		}
@@ -512,7 +518,10 @@ func (p *TSimpleJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return nil, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, e := p.peekLiteral()
+	if e != nil {
+		return v, NewTProtocolExceptionFromOsError(e)
+	}
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseBase64EncodedBody()
@@ -520,8 +529,8 @@ func (p *TSimpleJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
+	} else if string(b) == string(JSON_NULL) {
+		_, err := p.reader.Discard(len(b))
 		if err != nil {
 			return v, NewTProtocolExceptionFromOsError(err)
 		}
@@ -823,6 +832,23 @@ func (p *TSimpleJSONProtocol) peekSignificant() ([]byte, error) {
 	}
 }
 
+// peekLiteral returns, without consuming it, the next byte or, where that byte
+// starts one of the literals null, true and false, as many bytes as that literal
+// has. It waits for no byte beyond those.
+func (p *TSimpleJSONProtocol) peekLiteral() ([]byte, error) {
+	b, e := p.peekSignificant()
+	if e != nil {
+		return b, e
+	}
+	switch b[0] {
+	case JSON_NULL[0], JSON_TRUE[0]:
+		return p.reader.Peek(len(JSON_NULL))
+	case JSON_FALSE[0]:
+		return p.reader.Peek(len(JSON_FALSE))
+	}
+	return b, nil
+}
+
 // readNonSignificantWhitespace skips the whitespace that has already arrived;
 // it does not wait for more.
 func (p *TSimpleJSONProtocol) readNonSignificantWhitespace() error {
@@ -917,9 +943,12 @@ func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
 	}
 	var value int64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
-		p.reader.Read(b[0:len(JSON_NULL)])
+	b, e := p.peekLiteral()
+	if e != nil {
+		return 0, false, NewTProtocolExceptionFromOsError(e)
+	}
+	if string(b) == string(JSON_NULL) {
+		p.reader.Discard(len(b))
 		isnull = true
 	} else {
 		num, err := p.readNumeric()
@@ -940,9 +969,12 @@ func (p *TSimpleJSONProtocol) ParseF64() (float64, bool, TProtocolException) {
 	}
 	var value float64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
-		p.reader.Read(b[0:len(JSON_NULL)])
+	b, e := p.peekLiteral()
+	if e != nil {
+		return 0, false, NewTProtocolExceptionFromOsError(e)
+	}
+	if string(b) == string(JSON_NULL) {
+		p.reader.Discard(len(b))
 		isnull = true
 	} else {
 		num, err := p.readNumeric()
@@ -961,12 +993,15 @@ func (p *TSimpleJSONProtocol) ParseObjectStart() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return false, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, e := p.peekLiteral()
+	if e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
+	}
 	if len(b) > 0 && b[0] == JSON_LBRACE[0] {
 		p.reader.ReadByte()
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_OBJECT_FIRST))
 		return false, nil
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
+	} else if string(b) == string(JSON_NULL) {
 		return true, nil
 	}
 	return false, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected '{' or null, but found '", string(b), "'"))
@@ -1000,12 +1035,15 @@ func (p *TSimpleJSONProtocol) ParseListBegin() (bool, TProtocolException) {
 	if e := p.ParsePreValue(); e != nil {
 		return false, e
 	}
-	b, e := p.reader.Peek(len(JSON_NULL))
-	if e == nil && len(b) >= 1 && b[0] == JSON_LBRACKET[0] {
+	b, e := p.peekLiteral()
+	if e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
+	}
+	if len(b) >= 1 && b[0] == JSON_LBRACKET[0] {
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_LIST_FIRST))
 		p.reader.ReadByte()
 		return false, nil
-	} else if e == nil && len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
+	} else if string(b) == string(JSON_NULL) {
 		return true, nil
 	}
 	return false, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected 'null' or '{', received '%q'", b))
-- 
2.43.0


From e66862e6ddc7a26051180578acf89368ba7b7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 14/71] fix: a JSON string with an invalid escape is an error,
 not an empty string

---
 lib/go/src/thrift/tsimple_json_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index e7580aa..a47ba4f 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -885,7 +885,7 @@ func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 	if i&0x01 == 1 {
 		v, ok := JsonUnquote(string(JSON_QUOTE) + line)
 		if !ok {
-			return "", NewTProtocolExceptionFromOsError(err)
+			return "", NewTProtocolException(INVALID_DATA, "Unable to parse as JSON string "+string(JSON_QUOTE)+line)
 		}
 		return v, nil
 	}
-- 
2.43.0


From fa9a934d6899bfd3e3a1d1696b5373e41db9c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 15/71] fix: reading a JSON string with many escaped quotes
 takes linear time and constant stack

---
 lib/go/src/thrift/tsimple_json_protocol.go | 36 ++++++++++------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index a47ba4f..c515c5f 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -902,27 +902,25 @@ func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 }
 
 func (p *TSimpleJSONProtocol) ParseQuotedStringBody() (string, TProtocolException) {
-	line, err := p.reader.ReadString(JSON_QUOTE)
-	if err != nil {
-		return "", NewTProtocolExceptionFromOsError(err)
-	}
-	l := len(line)
-	// count number of escapes to see if we need to keep going
-	i := 1
-	for ; i < l; i++ {
-		if line[l-i-1] != '\\' {
-			break
+	buf := new(bytes.Buffer)
+	for {
+		line, err := p.reader.ReadString(JSON_QUOTE)
+		if err != nil {
+			return "", NewTProtocolExceptionFromOsError(err)
+		}
+		buf.WriteString(line)
+		l := len(line)
+		// count number of escapes to see if we need to keep going
+		i := 1
+		for ; i < l; i++ {
+			if line[l-i-1] != '\\' {
+				break
+			}
+		}
+		if i&0x01 == 1 {
+			return buf.String(), nil
 		}
 	}
-	if i&0x01 == 1 {
-		return line, nil
-	}
-	s, err := p.ParseQuotedStringBody()
-	if err != nil {
-		return "", NewTProtocolExceptionFromOsError(err)
-	}
-	v := line + s
-	return v, nil
 }
 
 func (p *TSimpleJSONProtocol) ParseBase64EncodedBody() ([]byte, TProtocolException) {
-- 
2.43.0


From 9bcdc1a408a0832f0029419165c6a145b3b1fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 16/71] fix: binary values are read as the JSON strings they
 are, escapes included

---
 lib/go/src/thrift/tsimple_json_protocol.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index c515c5f..f34b6e1 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -924,15 +924,12 @@ func (p *TSimpleJSONProtocol) ParseQuotedStringBody() (string, TProtocolExceptio
 }
 
 func (p *TSimpleJSONProtocol) ParseBase64EncodedBody() ([]byte, TProtocolException) {
-	line, err := p.reader.ReadBytes(JSON_QUOTE)
-	if err != nil {
-		return line, NewTProtocolExceptionFromOsError(err)
+	line, e := p.ParseStringBody()
+	if e != nil {
+		return nil, e
 	}
-	line2 := line[0 : len(line)-1]
-	l := len(line2)
-	output := make([]byte, base64.StdEncoding.DecodedLen(l))
-	n, err := base64.StdEncoding.Decode(output, line2)
-	return output[0:n], NewTProtocolExceptionFromOsError(err)
+	output, err := base64.StdEncoding.DecodeString(line)
+	return output, NewTProtocolExceptionFromOsError(err)
 }
 
 func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
-- 
2.43.0


From 741d1d959b5cd19da18928c558bcc516c8c41f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 17/71] fix: the JSON protocol reads the i16 type name it
 writes

---
 lib/go/src/thrift/tjson_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index d7f3ec3..af2d9bd 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -518,7 +518,7 @@ func (p *TJSONProtocol) StringToTypeId(fieldType string) TType {
 		return TType(BYTE)
 	case "dbl":
 		return TType(DOUBLE)
-	case "16":
+	case "i16":
 		return TType(I16)
 	case "i32":
 		return TType(I32)
-- 
2.43.0


From 4943fa3ddee6f197ee9a764701967da87aa37c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 18/71] fix: the JSON protocols write binary fields and
 containers with the type id strings have on the wire

---
 lib/go/src/thrift/tjson_protocol.go        | 2 ++
 lib/go/src/thrift/tsimple_json_protocol.go | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index af2d9bd..ecb6c36 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -502,6 +502,8 @@ func (p *TJSONProtocol) TypeIdToString(fieldType TType) string {
 		return "str"
 	case GENERIC:
 		return "gen"
+	case BINARY:
+		return "str"
 	}
 	return ""
 }
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index f34b6e1..defada7 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -217,10 +217,10 @@ func (p *TSimpleJSONProtocol) WriteMapBegin(keyType TType, valueType TType, size
 	if e := p.OutputListBegin(); e != nil {
 		return e
 	}
-	if e := p.WriteByte(byte(keyType)); e != nil {
+	if e := p.WriteByte(keyType.ThriftTypeId()); e != nil {
 		return e
 	}
-	if e := p.WriteByte(byte(valueType)); e != nil {
+	if e := p.WriteByte(valueType.ThriftTypeId()); e != nil {
 		return e
 	}
 	return p.WriteI32(int32(size))
@@ -727,7 +727,7 @@ func (p *TSimpleJSONProtocol) OutputElemListBegin(elemType TType, size int) TPro
 	if e := p.OutputListBegin(); e != nil {
 		return e
 	}
-	if e := p.WriteByte(byte(elemType)); e != nil {
+	if e := p.WriteByte(elemType.ThriftTypeId()); e != nil {
 		return e
 	}
 	if e := p.WriteI64(int64(size)); e != nil {
-- 
2.43.0


From 59fe900e75da7af59ace9bb075e53ebf6f0f7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 19/71] fix: the JSON protocols reject negative container sizes
 and unknown type names

---
 lib/go/src/thrift/tjson_protocol.go        | 12 +++++++++---
 lib/go/src/thrift/tsimple_json_protocol.go | 16 +++++++++++-----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index ecb6c36..6f8b53a 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -257,6 +257,9 @@ func (p *TJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolExcepti
 	}
 	sType, err := p.ReadString()
 	fType := p.StringToTypeId(sType)
+	if err == nil && fType == STOP {
+		err = NewTProtocolException(INVALID_DATA, "Unknown field type \""+sType+"\"")
+	}
 	return "", fType, fieldId, err
 }
 
@@ -283,10 +286,13 @@ func (p *TJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, size int
 		return keyType, valueType, size, e
 	}
 
+	if keyType == STOP || valueType == STOP {
+		return keyType, valueType, size, NewTProtocolException(INVALID_DATA, "Unknown map type \""+sKeyType+"\" or \""+sValueType+"\"")
+	}
+
 	// read size
-	iSize, err := p.ReadI64()
-	size = int(iSize)
-	return keyType, valueType, size, err
+	size, e = p.readSize()
+	return keyType, valueType, size, e
 }
 
 func (p *TJSONProtocol) ReadMapEnd() TProtocolException {
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index defada7..97201e6 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -395,9 +395,8 @@ func (p *TSimpleJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, si
 	}
 
 	// read size
-	iSize, err := p.ReadI64()
-	size = int(iSize)
-	return keyType, valueType, size, err
+	size, e = p.readSize()
+	return keyType, valueType, size, e
 }
 
 func (p *TSimpleJSONProtocol) ReadMapEnd() TProtocolException {
@@ -1053,11 +1052,18 @@ func (p *TSimpleJSONProtocol) ParseElemListBegin() (elemType TType, size int, e
 	if err != nil {
 		return elemType, size, err
 	}
-	nSize, err2 := p.ReadI64()
-	size = int(nSize)
+	size, err2 := p.readSize()
 	return elemType, size, err2
 }
 
+func (p *TSimpleJSONProtocol) readSize() (int, TProtocolException) {
+	size, err := p.ReadI32()
+	if err == nil && size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, fmt.Sprint("Negative size ", size))
+	}
+	return int(size), err
+}
+
 func (p *TSimpleJSONProtocol) ParseListEnd() TProtocolException {
 	if isNull, err := p.readIfNull(); isNull || err != nil {
 		return err
-- 
2.43.0


From ab19ba01da174379cbfdd614503ae972c9743966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 20/71] fix: the JSON protocol reports failures to write a
 binary value

---
 lib/go/src/thrift/tjson_protocol.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 6f8b53a..4319986 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -187,13 +187,19 @@ func (p *TJSONProtocol) WriteBinary(v []byte) TProtocolException {
 	if e := p.OutputPreValue(); e != nil {
 		return e
 	}
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	writer := base64.NewEncoder(base64.StdEncoding, p.writer)
 	if _, e := writer.Write(v); e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
-	writer.Close()
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if e := writer.Close(); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	return p.OutputPostValue()
 }
 
-- 
2.43.0


From c3cfe1a7173e655cc290eb498cc1b1be13e0f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 21/71] fix: numbers in JSON are read in full however they
 arrive, at the end of any transport, and with both their quotes

---
 lib/go/src/thrift/tsimple_json_protocol.go | 43 ++++++++++++++--------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 97201e6..6cff119 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -1174,14 +1174,15 @@ func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
 	return false, nil
 }
 
-func (p *TSimpleJSONProtocol) readQuoteIfNext() {
-	if p.reader.Buffered() < 1 {
-		return
+func (p *TSimpleJSONProtocol) readClosingQuote() TProtocolException {
+	c, e := p.reader.ReadByte()
+	if e != nil {
+		return NewTProtocolExceptionFromOsError(e)
 	}
-	b, _ := p.reader.Peek(1)
-	if len(b) > 0 && b[0] == JSON_QUOTE {
-		p.reader.ReadByte()
+	if c != JSON_QUOTE {
+		return NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected the closing quote of a number but found '%c'", c))
 	}
+	return nil
 }
 
 func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
@@ -1199,7 +1200,8 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 	for continueFor {
 		c, err := p.reader.ReadByte()
 		if err != nil {
-			if err == io.EOF {
+			// a number that is not part of anything may be the last thing there is
+			if te, ok := err.(TTransportException); !inQuotes && (err == io.EOF || ok && te.TypeId() == END_OF_FILE) {
 				break
 			}
 			return NUMERIC_NULL, NewTProtocolExceptionFromOsError(err)
@@ -1230,13 +1232,16 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			buf.WriteByte(c)
 			nextCanBeSign = false
 		case ' ', 0, '\t', '\n', '\r', JSON_RBRACE[0], JSON_RBRACKET[0], JSON_COMMA[0], JSON_COLON[0]:
+			if inQuotes {
+				return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number '%s' without its closing quote", buf.String()))
+			}
 			p.reader.UnreadByte()
 			continueFor = false
 		case JSON_NAN[0]:
 			if buf.Len() == 0 {
 				buffer := make([]byte, len(JSON_NAN))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1245,7 +1250,9 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readClosingQuote(); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return NAN, nil
 			} else {
@@ -1255,7 +1262,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			if buf.Len() == 0 || (buf.Len() == 1 && buf.Bytes()[0] == '+') {
 				buffer := make([]byte, len(JSON_INFINITY))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1264,14 +1271,16 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readClosingQuote(); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return INFINITY, nil
 			} else if buf.Len() == 1 && buf.Bytes()[0] == JSON_NEGATIVE_INFINITY[0] {
 				buffer := make([]byte, len(JSON_NEGATIVE_INFINITY))
 				buffer[0] = JSON_NEGATIVE_INFINITY[0]
 				buffer[1] = c
-				_, e := p.reader.Read(buffer[2:])
+				_, e := io.ReadFull(p.reader, buffer[2:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1280,17 +1289,21 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readClosingQuote(); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return NEGATIVE_INFINITY, nil
 			} else {
 				return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number starting with character '%c' due to existing buffer %s", c, buf.String()))
 			}
 		case JSON_QUOTE:
-			if !inQuotes {
+			if inQuotes {
+				continueFor = false
+			} else if buf.Len() == 0 {
 				inQuotes = true
 			} else {
-				break
+				return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Quote within number '%s'", buf.String()))
 			}
 		default:
 			return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number starting with character '%c'", c))
-- 
2.43.0


From a36479b015ffdda489acf50e4bd88d5ebc23f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 22/71] fix: the JSON protocols reject malformed and
 out-of-range numbers instead of reading them as something else

---
 lib/go/src/thrift/tjson_protocol.go        |  7 ++++---
 lib/go/src/thrift/tsimple_json_protocol.go | 20 +++++++++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 4319986..39198a6 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"encoding/base64"
 	"fmt"
+	"math"
 )
 
 const (
@@ -364,17 +365,17 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 
 func (p *TJSONProtocol) ReadByte() (byte, TProtocolException) {
 	v, err := p.ReadI64()
-	return byte(v), err
+	return byte(v), checkRange(v, math.MinInt8, math.MaxUint8, err)
 }
 
 func (p *TJSONProtocol) ReadI16() (int16, TProtocolException) {
 	v, err := p.ReadI64()
-	return int16(v), err
+	return int16(v), checkRange(v, math.MinInt16, math.MaxInt16, err)
 }
 
 func (p *TJSONProtocol) ReadI32() (int32, TProtocolException) {
 	v, err := p.ReadI64()
-	return int32(v), err
+	return int32(v), checkRange(v, math.MinInt32, math.MaxInt32, err)
 }
 
 func (p *TJSONProtocol) ReadI64() (int64, TProtocolException) {
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 6cff119..ebf828b 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -462,17 +462,17 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 
 func (p *TSimpleJSONProtocol) ReadByte() (byte, TProtocolException) {
 	v, err := p.ReadI64()
-	return byte(v), err
+	return byte(v), checkRange(v, math.MinInt8, math.MaxUint8, err)
 }
 
 func (p *TSimpleJSONProtocol) ReadI16() (int16, TProtocolException) {
 	v, err := p.ReadI64()
-	return int16(v), err
+	return int16(v), checkRange(v, math.MinInt16, math.MaxInt16, err)
 }
 
 func (p *TSimpleJSONProtocol) ReadI32() (int32, TProtocolException) {
 	v, err := p.ReadI64()
-	return int32(v), err
+	return int32(v), checkRange(v, math.MinInt32, math.MaxInt32, err)
 }
 
 func (p *TSimpleJSONProtocol) ReadI64() (int64, TProtocolException) {
@@ -953,6 +953,9 @@ func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
 		if err != nil {
 			return value, isnull, err
 		}
+		if _, e := strconv.ParseInt(num.String(), 10, 64); e != nil {
+			return 0, isnull, NewTProtocolException(INVALID_DATA, "Not a 64-bit integer: "+num.String())
+		}
 	}
 	return value, isnull, p.ParsePostValue()
 }
@@ -979,10 +982,21 @@ func (p *TSimpleJSONProtocol) ParseF64() (float64, bool, TProtocolException) {
 		if err != nil {
 			return value, isnull, err
 		}
+		if _, e := strconv.ParseFloat(num.String(), 64); e != nil {
+			return 0, isnull, NewTProtocolException(INVALID_DATA, "Not a double: "+num.String())
+		}
 	}
 	return value, isnull, p.ParsePostValue()
 }
 
+// checkRange reports a number that the integer type being read cannot hold.
+func checkRange(v int64, min int64, max int64, err TProtocolException) TProtocolException {
+	if err == nil && (v < min || v > max) {
+		return NewTProtocolException(INVALID_DATA, fmt.Sprint("Number out of range: ", v))
+	}
+	return err
+}
+
 func (p *TSimpleJSONProtocol) ParseObjectStart() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return false, err
-- 
2.43.0


From 697448e1827659ac21c7fedb9dc2d6e3019ecd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 23/71] fix: skipping a value reports the errors of its parts
 and values of unknown type instead of carrying on

---
 lib/go/src/thrift/tprotocol.go | 40 +++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 2ea8b97..7f43dab 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -19,6 +19,10 @@
 
 package thrift
 
+import (
+	"strconv"
+)
+
 const (
 	VERSION_MASK = 0xffff0000
 	VERSION_1    = 0x80010000
@@ -119,8 +123,6 @@ func SkipDefaultDepth(prot TProtocol, typeId TType) (err TProtocolException) {
  */
 func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException) {
 	switch fieldType {
-	case STOP:
-		return
 	case BOOL:
 		_, err = self.ReadBool()
 		return
@@ -142,6 +144,9 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 	case STRING:
 		_, err = self.ReadString()
 		return
+	case BINARY:
+		_, err = self.ReadBinary()
+		return
 	case STRUCT:
 		{
 			_, err = self.ReadStructBegin()
@@ -149,12 +154,19 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 				return
 			}
 			for {
-				_, typeId, _, _ := self.ReadFieldBegin()
+				_, typeId, _, err := self.ReadFieldBegin()
+				if err != nil {
+					return err
+				}
 				if typeId == STOP {
 					break
 				}
-				Skip(self, typeId, maxDepth-1)
-				self.ReadFieldEnd()
+				if err = Skip(self, typeId, maxDepth-1); err != nil {
+					return err
+				}
+				if err = self.ReadFieldEnd(); err != nil {
+					return err
+				}
 			}
 			return self.ReadStructEnd()
 		}
@@ -166,8 +178,12 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, keyType, maxDepth-1)
-				self.Skip(valueType)
+				if err = Skip(self, keyType, maxDepth-1); err != nil {
+					return err
+				}
+				if err = Skip(self, valueType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadMapEnd()
 		}
@@ -179,7 +195,9 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				if err = Skip(self, elemType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadSetEnd()
 		}
@@ -191,10 +209,12 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				if err = Skip(self, elemType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadListEnd()
 		}
 	}
-	return nil
+	return NewTProtocolException(INVALID_DATA, "Cannot skip a value of unknown type "+strconv.Itoa(int(fieldType)))
 }
-- 
2.43.0


From de54a0b16a822bd9906615a237d3151543288357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 24/71] fix: skipping enforces the maximum depth, and by
 default stops well before the stack overflows

---
 lib/go/src/thrift/tprotocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 7f43dab..4647a38 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -85,7 +85,7 @@ type TProtocol interface {
  * throwing a TException.
  */
 var (
-	MaxSkipDepth = 1<<31 - 1
+	MaxSkipDepth = 1024
 )
 
 /**
@@ -122,6 +122,9 @@ func SkipDefaultDepth(prot TProtocol, typeId TType) (err TProtocolException) {
  *   recursive depth, to prevent Java stack overflow.
  */
 func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException) {
+	if maxDepth <= 0 {
+		return NewTProtocolException(SIZE_LIMIT, "Maximum skip depth exceeded")
+	}
 	switch fieldType {
 	case BOOL:
 		_, err = self.ReadBool()
-- 
2.43.0


From 8fe9b3e8f519c40cbc08ed00947766ca5f77a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:52 +0000
Subject: [PATCH 25/71] fix: a length announced by the peer does not allocate
 memory before that much data arrives

---
 lib/go/src/thrift/tbinary_protocol.go  |  6 ++----
 lib/go/src/thrift/tcompact_protocol.go |  3 +--
 lib/go/src/thrift/tframed_transport.go |  5 ++---
 lib/go/src/thrift/ttransport.go        | 19 +++++++++++++++++++
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index e42649d..3c97661 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -452,8 +452,7 @@ func (p *TBinaryProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if e != nil {
 		return nil, e
 	}
-	buf := make([]byte, isize)
-	_, err := p.trans.ReadAll(buf)
+	buf, err := readSized(p.trans, isize)
 	return buf, NewTProtocolExceptionFromOsError(err)
 }
 
@@ -502,7 +501,6 @@ func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolE
 		return "", err
 	}
 	isize := int(size)
-	buf := make([]byte, isize)
-	_, e := p.trans.ReadAll(buf)
+	buf, e := readSized(p.trans, isize)
 	return string(buf), NewTProtocolExceptionFromOsError(e)
 }
diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index b6ca99a..0410f7c 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -623,8 +623,7 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 		return []byte{}, NewTProtocolException(NEGATIVE_SIZE, "Negative binary length: "+strconv.Itoa(int(length)))
 	}
 
-	buf := make([]byte, length)
-	_, e = p.trans.ReadAll(buf)
+	buf, e := readSized(p.trans, int(length))
 	return buf, NewTProtocolExceptionFromOsError(e)
 }
 
diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index c1a78d2..d66a371 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -121,10 +121,9 @@ func (p *TFramedTransport) readFrame() (int, error) {
 	if size == 0 {
 		return 0, nil
 	}
-	buf2 := make([]byte, size)
-	n, err := p.transport.ReadAll(buf2)
+	buf2, err := readSized(p.transport, size)
 	if err != nil {
-		return n, err
+		return len(buf2), err
 	}
 	p.readBuffer = bytes.NewBuffer(buf2)
 	return size, nil
diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index 25d973c..25cf676 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -184,6 +184,25 @@ func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
 	return n, nil
 }
 
+// readSized reads exactly size bytes. It makes room for them as they arrive, so
+// that a size announced by the other side does not cost memory by itself.
+func readSized(p TTransport, size int) ([]byte, error) {
+	const chunk = 64 * 1024
+	buf := []byte{}
+	for len(buf) < size {
+		got := len(buf)
+		n := size - got
+		if n > chunk+got {
+			n = chunk + got
+		}
+		buf = append(buf, make([]byte, n)...)
+		if _, err := p.ReadAll(buf[got:]); err != nil {
+			return buf[:got], err
+		}
+	}
+	return buf, nil
+}
+
 // how often in a row a transport may return neither data nor an error
 const maxEmptyReads = 100
 
-- 
2.43.0


From 9f3b1015844d7b4041dccaf6e5a4fbf2e3d9cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 26/71] fix: the framed transport reports failures to read a
 frame, accepts empty frames and rejects negative sizes

---
 lib/go/src/thrift/tframed_transport.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index d66a371..225dfe9 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -22,6 +22,8 @@ package thrift
 import (
 	"bytes"
 	"encoding/binary"
+	"math"
+	"strconv"
 )
 
 type TFramedTransport struct {
@@ -72,8 +74,16 @@ func (p *TFramedTransport) Read(buf []byte) (int, error) {
 		}
 	}
 
-	// Read another frame of data
-	p.readFrame()
+	if len(buf) == 0 {
+		return 0, nil
+	}
+
+	// Read another frame of data; frames may be empty
+	for p.readBuffer.Len() == 0 {
+		if _, err := p.readFrame(); err != nil {
+			return 0, NewTTransportExceptionFromOsError(err)
+		}
+	}
 
 	got, err := p.readBuffer.Read(buf)
 	return got, NewTTransportExceptionFromOsError(err)
@@ -114,9 +124,9 @@ func (p *TFramedTransport) readFrame() (int, error) {
 		return 0, err
 	}
 	size := int(binary.BigEndian.Uint32(buf))
-	if size < 0 {
+	if size > math.MaxInt32 {
 		// TODO(pomack) log error
-		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+string(size)+")")
+		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+strconv.Itoa(int(int32(size)))+")")
 	}
 	if size == 0 {
 		return 0, nil
-- 
2.43.0


From 455955e57a7819219d70841433f4126033a8f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 27/71] fix: JSON: a number cut off inside a container or
 message is not complete

---
 lib/go/src/thrift/tsimple_json_protocol.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index ebf828b..571c197 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -1215,7 +1215,8 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 		c, err := p.reader.ReadByte()
 		if err != nil {
 			// a number that is not part of anything may be the last thing there is
-			if te, ok := err.(TTransportException); !inQuotes && (err == io.EOF || ok && te.TypeId() == END_OF_FILE) {
+			topLevel := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1]) == _CONTEXT_IN_TOPLEVEL
+			if te, ok := err.(TTransportException); topLevel && !inQuotes && (err == io.EOF || ok && te.TypeId() == END_OF_FILE) {
 				break
 			}
 			return NUMERIC_NULL, NewTProtocolExceptionFromOsError(err)
-- 
2.43.0


From 647ba6096aba54ea39d1fe2273ccf4d0764cfa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 28/71] fix: closing a framed transport drops the bytes
 buffered for the old connection

---
 lib/go/src/thrift/tframed_transport.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index 225dfe9..21d513f 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -63,6 +63,8 @@ func (p *TFramedTransport) Peek() bool {
 }
 
 func (p *TFramedTransport) Close() error {
+	p.writeBuffer.Reset()
+	p.readBuffer.Reset()
 	return p.transport.Close()
 }
 
-- 
2.43.0


From e8d9649dac7c03500caf9cc15773e9c944633de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:52 +0000
Subject: [PATCH 29/71] fix: closing a stream transport closes the streams
 behind its buffers and leaves it closed

---
 lib/go/src/thrift/tiostream_transport.go | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 475633f..10c4c6c 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -35,6 +35,8 @@ type TIOStreamTransport struct {
 	Reader       io.Reader
 	Writer       io.Writer
 	IsReadWriter bool
+	// the streams behind the buffered reader and writer, to be closed with them
+	source, sink interface{}
 }
 
 type TIOStreamTransportFactory struct {
@@ -95,7 +97,7 @@ func NewTIOStreamTransportDefault() *TIOStreamTransport {
  * @param is Input stream to read from
  */
 func NewTIOStreamTransportR(r io.Reader) *TIOStreamTransport {
-	return &TIOStreamTransport{Reader: bufio.NewReader(r)}
+	return &TIOStreamTransport{Reader: bufio.NewReader(r), source: r}
 }
 
 /**
@@ -104,7 +106,7 @@ func NewTIOStreamTransportR(r io.Reader) *TIOStreamTransport {
  * @param os Output stream to read from
  */
 func NewTIOStreamTransportW(w io.Writer) *TIOStreamTransport {
-	return &TIOStreamTransport{Writer: bufio.NewWriter(w)}
+	return &TIOStreamTransport{Writer: bufio.NewWriter(w), sink: w}
 }
 
 /**
@@ -114,7 +116,7 @@ func NewTIOStreamTransportW(w io.Writer) *TIOStreamTransport {
  * @param os Output stream to read from
  */
 func NewTIOStreamTransportRAndW(r io.Reader, w io.Writer) *TIOStreamTransport {
-	return &TIOStreamTransport{Reader: bufio.NewReader(r), Writer: bufio.NewWriter(w)}
+	return &TIOStreamTransport{Reader: bufio.NewReader(r), Writer: bufio.NewWriter(w), source: r, sink: w}
 }
 
 /**
@@ -132,12 +134,12 @@ func NewTIOStreamTransportRW(rw io.ReadWriter) *TIOStreamTransport {
 
 /**
  * The streams must already be open at construction time, so this should
- * always return true.
+ * return true until the transport is closed.
  *
- * @return true
+ * @return True if there is a stream to read from or write to.
  */
 func (p *TIOStreamTransport) IsOpen() bool {
-	return true
+	return p.Reader != nil || p.Writer != nil
 }
 
 /**
@@ -158,6 +160,9 @@ func (p *TIOStreamTransport) Close() error {
 	closedReader := false
 	if p.Reader != nil {
 		c, ok := p.Reader.(io.Closer)
+		if !ok {
+			c, ok = p.source.(io.Closer)
+		}
 		if ok {
 			e := c.Close()
 			closedReader = true
@@ -167,9 +172,12 @@ func (p *TIOStreamTransport) Close() error {
 		}
 		p.Reader = nil
 	}
-	if p.Writer != nil && (!closedReader || !p.IsReadWriter) {
+	if p.Writer != nil {
 		c, ok := p.Writer.(io.Closer)
-		if ok {
+		if !ok {
+			c, ok = p.sink.(io.Closer)
+		}
+		if ok && (!closedReader || !p.IsReadWriter) {
 			e := c.Close()
 			if e != nil {
 				LOGGER.Print("Error closing output stream.", e)
@@ -177,6 +185,7 @@ func (p *TIOStreamTransport) Close() error {
 		}
 		p.Writer = nil
 	}
+	p.source, p.sink = nil, nil
 	return nil
 }
 
-- 
2.43.0


From 5587a8c5adde526b937a724b40aabe716f488bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 30/71] fix: a closed socket is closed even if the connection
 was gone, and keeps no unsent bytes for the next one

---
 lib/go/src/thrift/tnonblocking_socket.go | 11 +++++++----
 lib/go/src/thrift/tsocket.go             |  8 +++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_socket.go b/lib/go/src/thrift/tnonblocking_socket.go
index a811149..05b281f 100644
--- a/lib/go/src/thrift/tnonblocking_socket.go
+++ b/lib/go/src/thrift/tnonblocking_socket.go
@@ -20,6 +20,7 @@
 package thrift
 
 import (
+	"errors"
 	"net"
 	"time"
 )
@@ -151,7 +152,8 @@ func (p *TNonblockingSocket) Write(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Connection not open")
 	}
 	p.pushDeadline(false, true)
-	return p.conn.Write(buf)
+	n, err := p.conn.Write(buf)
+	return n, NewTTransportExceptionFromOsError(err)
 }
 
 /**
@@ -184,11 +186,12 @@ func (p *TNonblockingSocket) Peek() bool {
  */
 func (p *TNonblockingSocket) Close() error {
 	if p.conn != nil {
-		if err := p.conn.Close(); err != nil {
+		err := p.conn.Close()
+		p.conn = nil
+		if err != nil && !errors.Is(err, net.ErrClosed) {
 			LOGGER.Print("Could not close socket.", err.Error())
-			return err
+			return NewTTransportExceptionFromOsError(err)
 		}
-		p.conn = nil
 	}
 	return nil
 }
diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 257aff0..a6c0d1b 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"bytes"
+	"errors"
 	"net"
 	"time"
 )
@@ -173,11 +174,12 @@ func (p *TSocket) Close() error {
 	// Close the socket
 	if p.conn != nil {
 		err := p.conn.Close()
-		if err != nil {
+		p.conn = nil
+		p.writeBuffer.Reset()
+		if err != nil && !errors.Is(err, net.ErrClosed) {
 			LOGGER.Print("Could not close socket. ", err.Error())
-			return err
+			return NewTTransportExceptionFromOsError(err)
 		}
-		p.conn = nil
 	}
 	return nil
 }
-- 
2.43.0


From 8127ab5b12c60598b9b11f2c92e8185fc6d91c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 31/71] fix: a socket's timeout applies to each flush, and a
 timeout is reported as one

---
 lib/go/src/thrift/tsocket.go              | 1 +
 lib/go/src/thrift/ttransport_exception.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index a6c0d1b..a087f92 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -214,6 +214,7 @@ func (p *TSocket) Flush() error {
 	if !p.IsOpen() {
 		return NewTTransportException(NOT_OPEN, "Connection not open")
 	}
+	p.pushDeadline(false, true)
 	_, err := p.writeBuffer.WriteTo(p.conn)
 	return NewTTransportExceptionFromOsError(err)
 }
diff --git a/lib/go/src/thrift/ttransport_exception.go b/lib/go/src/thrift/ttransport_exception.go
index 9450c99..488c96d 100644
--- a/lib/go/src/thrift/ttransport_exception.go
+++ b/lib/go/src/thrift/ttransport_exception.go
@@ -80,5 +80,8 @@ func NewTTransportExceptionFromOsError(e error) TTransportException {
 	if e == io.EOF {
 		return NewTTransportException(END_OF_FILE, e.Error())
 	}
+	if timeout, ok := e.(interface{ Timeout() bool }); ok && timeout.Timeout() {
+		return NewTTransportException(TIMED_OUT, e.Error())
+	}
 	return NewTTransportExceptionDefaultString(e.Error())
 }
-- 
2.43.0


From cfdc974ab5f827b429096d3db478bc8e04688329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 32/71] fix: the HTTP transport closes every response, reports
 use while closed and bad status, and keeps requests apart

---
 lib/go/src/thrift/thttp_client.go | 39 ++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index ddbc74e..16273d0 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -30,6 +30,7 @@ type THttpClient struct {
 	response           *http.Response
 	url                *url.URL
 	requestBuffer      *bytes.Buffer
+	isPost             bool
 	nsecConnectTimeout int64
 	nsecReadTimeout    int64
 }
@@ -43,7 +44,7 @@ func (p *THttpClientTransportFactory) GetTransport(trans TTransport) TTransport
 	if trans != nil {
 		t, ok := trans.(*THttpClient)
 		if ok && t.url != nil {
-			if t.requestBuffer != nil {
+			if t.isPost {
 				t2, _ := NewTHttpPostClient(t.url.String())
 				return t2
 			}
@@ -76,6 +77,10 @@ func NewTHttpClient(urlstr string) (TTransport, error) {
 	if err != nil {
 		return nil, err
 	}
+	if response.StatusCode != http.StatusOK {
+		response.Body.Close()
+		return nil, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "HTTP Response code: "+strconv.Itoa(response.StatusCode))
+	}
 	return &THttpClient{response: response, url: parsedURL}, nil
 }
 
@@ -85,11 +90,16 @@ func NewTHttpPostClient(urlstr string) (TTransport, error) {
 		return nil, err
 	}
 	buf := make([]byte, 0, 1024)
-	return &THttpClient{url: parsedURL, requestBuffer: bytes.NewBuffer(buf)}, nil
+	return &THttpClient{url: parsedURL, requestBuffer: bytes.NewBuffer(buf), isPost: true}, nil
 }
 
 func (p *THttpClient) Open() error {
-	// do nothing
+	if !p.IsOpen() {
+		if !p.isPost {
+			return NewTTransportException(NOT_OPEN, "Response is closed.")
+		}
+		p.requestBuffer = bytes.NewBuffer(make([]byte, 0, 1024))
+	}
 	return nil
 }
 
@@ -102,14 +112,15 @@ func (p *THttpClient) Peek() bool {
 }
 
 func (p *THttpClient) Close() error {
+	p.requestBuffer = nil
+	return p.closeResponse()
+}
+
+func (p *THttpClient) closeResponse() error {
 	if p.response != nil && p.response.Body != nil {
 		err := p.response.Body.Close()
 		p.response = nil
-		return err
-	}
-	if p.requestBuffer != nil {
-		p.requestBuffer.Reset()
-		p.requestBuffer = nil
+		return NewTTransportExceptionFromOsError(err)
 	}
 	return nil
 }
@@ -127,17 +138,27 @@ func (p *THttpClient) ReadAll(buf []byte) (int, error) {
 }
 
 func (p *THttpClient) Write(buf []byte) (int, error) {
+	if p.requestBuffer == nil {
+		return 0, NewTTransportException(NOT_OPEN, "Request buffer is closed.")
+	}
 	n, err := p.requestBuffer.Write(buf)
 	return n, err
 }
 
 func (p *THttpClient) Flush() error {
-	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
+	if p.requestBuffer == nil {
+		return NewTTransportException(NOT_OPEN, "Request buffer is closed.")
+	}
+	p.closeResponse()
+	request := p.requestBuffer
+	p.requestBuffer = bytes.NewBuffer(make([]byte, 0, 1024))
+	response, err := http.Post(p.url.String(), "application/x-thrift", request)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
 	}
 	if response.StatusCode != http.StatusOK {
 		// TODO(pomack) log bad response
+		response.Body.Close()
 		return NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "HTTP Response code: "+strconv.Itoa(response.StatusCode))
 	}
 	p.response = response
-- 
2.43.0


From 84df30b4a7a062e0556ed21da792e85b65f5051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 33/71] fix: interrupting or closing a server socket is safe
 while another goroutine accepts, and leaves it closed

---
 .../src/thrift/tnonblocking_server_socket.go  | 22 ++++++++--
 lib/go/src/thrift/tserver_socket.go           | 44 ++++++++++++++++---
 2 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server_socket.go b/lib/go/src/thrift/tnonblocking_server_socket.go
index e38535d..f6c5af0 100644
--- a/lib/go/src/thrift/tnonblocking_server_socket.go
+++ b/lib/go/src/thrift/tnonblocking_server_socket.go
@@ -21,12 +21,17 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 /**
  * Socket implementation of the TTransport interface. To be commented soon!
  */
 type TNonblockingServerSocket struct {
+	/**
+	 * Guards listener: Interrupt may be called from any goroutine
+	 */
+	mutex    sync.Mutex
 	listener net.Listener
 	addr     net.Addr
 	/**
@@ -88,6 +93,8 @@ func (p *TNonblockingServerSocket) SetTimeout(nsecTimeout int64) error {
  * Checks whether the socket is connected.
  */
 func (p *TNonblockingServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -95,7 +102,9 @@ func (p *TNonblockingServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TNonblockingServerSocket) Open() error {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
 		l, err := net.Listen(p.addr.Network(), p.addr.String())
 		if err != nil {
 			return err
@@ -136,10 +145,13 @@ func (p *TNonblockingServerSocket) Addr() net.Addr {
 }
 
 func (p *TNonblockingServerSocket) Accept() (TTransport, error) {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	listener := p.listener
+	p.mutex.Unlock()
+	if listener == nil {
 		return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
 	}
-	conn, err := p.listener.Accept()
+	conn, err := listener.Accept()
 	if err != nil {
 		return nil, NewTTransportExceptionFromOsError(err)
 	}
@@ -154,7 +166,9 @@ func (p *TNonblockingServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TNonblockingServerSocket) Close() (err error) {
-	if p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener != nil {
 		err := p.listener.Close()
 		if err != nil {
 			return NewTTransportExceptionFromOsError(err)
diff --git a/lib/go/src/thrift/tserver_socket.go b/lib/go/src/thrift/tserver_socket.go
index b750284..0d9fce9 100644
--- a/lib/go/src/thrift/tserver_socket.go
+++ b/lib/go/src/thrift/tserver_socket.go
@@ -21,9 +21,19 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 type TServerSocket struct {
+	/**
+	 * Guards the fields below: Interrupt may be called from any goroutine
+	 */
+	mutex sync.Mutex
+	/**
+	 * Set by Close and Interrupt, until the socket is told to listen again
+	 */
+	closed bool
+
 	/**
 	 * Underlying socket conection object
 	 */
@@ -84,24 +94,36 @@ func NewTServerSocketAddrTimeout(addr net.Addr, nsecClientTimeout int64) (*TServ
 }
 
 func (p *TServerSocket) Listen() (err error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	return p.listen()
+}
+
+func (p *TServerSocket) listen() (err error) {
 	if p.listener == nil {
 		if p.listener, err = net.Listen("tcp", p.addr.String()); err != nil {
 			return err
 		}
 	}
+	p.closed = false
 	return nil
 }
 
 func (p *TServerSocket) Accept() (TTransport, error) {
+	p.mutex.Lock()
 	if p.listener == nil {
-		if err := p.Listen(); err != nil {
-			return nil, NewTTransportExceptionFromOsError(err)
-		}
-		if p.listener == nil {
+		if p.closed {
+			p.mutex.Unlock()
 			return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
 		}
+		if err := p.listen(); err != nil {
+			p.mutex.Unlock()
+			return nil, NewTTransportExceptionFromOsError(err)
+		}
 	}
-	conn, err := p.listener.Accept()
+	listener := p.listener
+	p.mutex.Unlock()
+	conn, err := listener.Accept()
 	if err != nil {
 		return nil, NewTTransportExceptionFromOsError(err)
 	}
@@ -112,6 +134,8 @@ func (p *TServerSocket) Accept() (TTransport, error) {
  * Checks whether the socket is connected.
  */
 func (p *TServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -119,12 +143,15 @@ func (p *TServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TServerSocket) Open() error {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
 		l, err := net.Listen(p.addr.Network(), p.addr.String())
 		if err != nil {
 			return err
 		}
 		p.listener = l
+		p.closed = false
 		return nil
 	}
 	return NewTTransportException(ALREADY_OPEN, "Server socket already open")
@@ -167,7 +194,10 @@ func (p *TServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TServerSocket) Close() (err error) {
-	if p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	p.closed = true
+	if p.listener != nil {
 		err := p.listener.Close()
 		if err != nil {
 			return NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 4388265f9bcab5bc1263a0b397617e5cb772a6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 34/71] fix: serving on a non-blocking server socket that is
 listening already works

---
 lib/go/src/thrift/tnonblocking_server_socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tnonblocking_server_socket.go b/lib/go/src/thrift/tnonblocking_server_socket.go
index f6c5af0..6d0511f 100644
--- a/lib/go/src/thrift/tnonblocking_server_socket.go
+++ b/lib/go/src/thrift/tnonblocking_server_socket.go
@@ -76,6 +76,9 @@ func NewTNonblockingServerSocketAddrTimeout(addr net.Addr, nsecTimeout int64) (*
 }
 
 func (p *TNonblockingServerSocket) Listen() error {
+	if p.IsOpen() {
+		return nil
+	}
 	return p.Open()
 }
 
-- 
2.43.0


From 2362b40e1ea9c7d2999c86d704221d008ec1ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 35/71] fix: stopping a server is race-free, also while it
 starts, and ends the connections that fail

---
 lib/go/src/thrift/tnonblocking_server.go | 23 ++++++++++++-----------
 lib/go/src/thrift/tsimple_server.go      | 21 ++++++++++++---------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server.go b/lib/go/src/thrift/tnonblocking_server.go
index 399cfe4..7e1016e 100644
--- a/lib/go/src/thrift/tnonblocking_server.go
+++ b/lib/go/src/thrift/tnonblocking_server.go
@@ -19,7 +19,9 @@
 
 package thrift
 
-import ()
+import (
+	"sync/atomic"
+)
 
 /**
  * A nonblocking TServer implementation. This allows for fairness amongst all
@@ -34,7 +36,7 @@ import ()
  */
 type TNonblockingServer struct {
 	/** Flag for stopping the server */
-	stopped bool
+	stopped int32
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -121,12 +123,12 @@ func (p *TNonblockingServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TNonblockingServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for atomic.LoadInt32(&p.stopped) == 0 {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -135,17 +137,18 @@ func (p *TNonblockingServer) Serve() error {
 			go p.processRequest(client)
 		}
 	}
-	return nil
+	// stopped, possibly before the transport was listening
+	return p.serverTransport.Interrupt()
 }
 
 func (p *TNonblockingServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
 
 func (p *TNonblockingServer) IsStopped() bool {
-	return p.stopped
+	return atomic.LoadInt32(&p.stopped) != 0
 }
 
 func (p *TNonblockingServer) processRequest(client TTransport) {
@@ -163,10 +166,8 @@ func (p *TNonblockingServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error
+			break
 		}
 		if !ok {
 			break
diff --git a/lib/go/src/thrift/tsimple_server.go b/lib/go/src/thrift/tsimple_server.go
index 70a9916..afa04d3 100644
--- a/lib/go/src/thrift/tsimple_server.go
+++ b/lib/go/src/thrift/tsimple_server.go
@@ -19,12 +19,16 @@
 
 package thrift
 
+import (
+	"sync/atomic"
+)
+
 /**
  * Simple singlethreaded server for testing.
  *
  */
 type TSimpleServer struct {
-	stopped bool
+	stopped int32
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -111,12 +115,12 @@ func (p *TSimpleServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TSimpleServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for atomic.LoadInt32(&p.stopped) == 0 {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -125,11 +129,12 @@ func (p *TSimpleServer) Serve() error {
 			p.processRequest(client)
 		}
 	}
-	return nil
+	// stopped, possibly before the transport was listening
+	return p.serverTransport.Interrupt()
 }
 
 func (p *TSimpleServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
@@ -149,10 +154,8 @@ func (p *TSimpleServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error
+			break
 		}
 		if !ok {
 			break
-- 
2.43.0


From 662e99a5db0ba6b0ab71e1ed7db73ca2c3073a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:21 +0000
Subject: [PATCH 36/71] fix: the JSON protocols report a failed look at the
 next token instead of trying again

---
 lib/go/src/thrift/tsimple_json_protocol.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 571c197..0585ad7 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -1176,11 +1176,17 @@ func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolEx
 }
 
 func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
-	b, _ := p.peekSignificant()
-	if len(b) < 1 || b[0] != JSON_NULL[0] {
+	b, e := p.peekSignificant()
+	if e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
+	}
+	if b[0] != JSON_NULL[0] {
 		return false, nil
 	}
-	b, _ = p.reader.Peek(len(JSON_NULL))
+	b, e = p.reader.Peek(len(JSON_NULL))
+	if e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
+	}
 	if string(b) == string(JSON_NULL) {
 		p.reader.Read(b[0:len(JSON_NULL)])
 		return true, nil
-- 
2.43.0


From 12890f9a0b4ab27fc23f019d03bc003ba5d32fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:35 +0000
Subject: [PATCH 37/71] fix: converting a value to a type yields the value it
 stands for or reports that it cannot; enums, numbers and their text convert
 by value

---
 lib/go/src/thrift/tnumeric.go |  16 +-
 lib/go/src/thrift/ttype.go    | 526 ++++++++--------------------------
 2 files changed, 131 insertions(+), 411 deletions(-)

diff --git a/lib/go/src/thrift/tnumeric.go b/lib/go/src/thrift/tnumeric.go
index aa8daa9..9bdce00 100644
--- a/lib/go/src/thrift/tnumeric.go
+++ b/lib/go/src/thrift/tnumeric.go
@@ -62,21 +62,21 @@ func NewNumericFromDouble(dValue float64) Numeric {
 		return NAN
 	}
 	iValue := int64(dValue)
-	sValue := strconv.FormatFloat(dValue, 'g', 10, 64)
+	sValue := strconv.FormatFloat(dValue, 'g', -1, 64)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
 
 func NewNumericFromI64(iValue int64) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(iValue, 10)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
 
 func NewNumericFromI32(iValue int32) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(int64(iValue), 10)
 	isNil := false
 	return &numeric{iValue: int64(iValue), dValue: dValue, sValue: sValue, isNil: isNil}
 }
@@ -91,8 +91,11 @@ func NewNumericFromString(sValue string) Numeric {
 	if sValue == NAN.String() {
 		return NAN
 	}
-	iValue, _ := strconv.ParseInt(sValue, 10, 64)
 	dValue, _ := strconv.ParseFloat(sValue, 64)
+	iValue, err := strconv.ParseInt(sValue, 10, 64)
+	if err != nil && dValue >= -maxInt64AsDouble && dValue < maxInt64AsDouble {
+		iValue = int64(dValue)
+	}
 	isNil := len(sValue) == 0
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
@@ -110,8 +113,11 @@ func NewNumericFromJSONString(sValue string, isNull bool) Numeric {
 	if sValue == JSON_NAN {
 		return NAN
 	}
-	iValue, _ := strconv.ParseInt(sValue, 10, 64)
 	dValue, _ := strconv.ParseFloat(sValue, 64)
+	iValue, err := strconv.ParseInt(sValue, 10, 64)
+	if err != nil && dValue >= -maxInt64AsDouble && dValue < maxInt64AsDouble {
+		iValue = int64(dValue)
+	}
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNull}
 }
 
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 32ef8ea..d5babc1 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"container/list"
+	"math"
 	"strconv"
 )
 
@@ -584,15 +585,12 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return NewTListDefault(), true
 		case SET:
 			return NewTSetDefault(), true
-		default:
-			panic("Invalid thrift type to coerce")
 		}
+		return nil, false
 	}
 	switch p {
-	case STOP:
-		return nil, true
-	case VOID:
-		return nil, true
+	case STOP, VOID:
+		return nil, false
 	case BOOL:
 		switch b := data.(type) {
 		default:
@@ -600,7 +598,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		case bool:
 			return b, true
 		case Numeric:
-			return bool(b.Int() != 0), true
+			return b.Float64() != 0, true
+		case Enumer:
+			return b.Value() != 0, true
 		case int:
 			return b != 0, true
 		case byte:
@@ -640,70 +640,15 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return true, true
 		}
 	case BYTE:
-		if b, ok := data.(byte); ok {
-			return b, true
-		}
-		if b, ok := data.(Numeric); ok {
-			return b.Byte(), true
-		}
-		if b, ok := data.(bool); ok {
-			if b {
-				return byte(1), true
-			}
-			return byte(0), true
-		}
-		if b, ok := data.(int); ok {
-			return byte(b), true
-		}
-		if b, ok := data.(int8); ok {
-			return byte(b), true
-		}
-		if b, ok := data.(int16); ok {
-			return byte(b), true
-		}
-		if b, ok := data.(int32); ok {
-			return byte(b), true
-		}
-		if b, ok := data.(int64); ok {
-			return byte(b), true
-		}
-		if b, ok := data.(uint); ok {
-			return byte(b), true
-		}
-		if b, ok := data.(uint8); ok {
-			return byte(b), true
-		}
-		if b, ok := data.(uint16); ok {
-			return byte(b), true
-		}
-		if b, ok := data.(uint32); ok {
-			return byte(b), true
-		}
-		if b, ok := data.(uint64); ok {
-			return byte(b), true
-		}
-		if b, ok := data.(float32); ok {
-			return byte(int(b)), true
-		}
-		if b, ok := data.(float64); ok {
-			return byte(int(b)), true
-		}
 		if b, ok := data.([]byte); ok {
-			if len(b) > 0 {
+			if len(b) == 1 {
 				return b[0], true
 			}
-			return byte(0), true
+			return byte(0), len(b) == 0
 		}
-		if b, ok := data.(Stringer); ok {
-			data = b.String()
-		}
-		if b, ok := data.(string); ok {
-			i1, err := strconv.Atoi(b)
-			if err != nil {
-				return byte(int(i1)), true
-			}
-		}
-		return byte(0), false
+		// as a signed or an unsigned byte
+		b, ok := integerFromValue(data, math.MinInt8, math.MaxUint8)
+		return byte(b), ok
 	case DOUBLE:
 		if b, ok := data.(float32); ok {
 			return float64(b), true
@@ -712,369 +657,51 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Float64() != 0.0), true
-		}
-		if b, ok := data.(byte); ok {
-			return float64(b), true
-		}
-		if b, ok := data.(bool); ok {
-			if b {
-				return float64(1.0), true
-			}
-			return float64(0.0), true
-		}
-		if b, ok := data.(int); ok {
-			return float64(b), true
-		}
-		if b, ok := data.(int8); ok {
-			return float64(b), true
-		}
-		if b, ok := data.(int16); ok {
-			return float64(b), true
-		}
-		if b, ok := data.(int32); ok {
-			return float64(b), true
-		}
-		if b, ok := data.(int64); ok {
-			return float64(b), true
-		}
-		if b, ok := data.(uint); ok {
-			return float64(b), true
-		}
-		if b, ok := data.(uint8); ok {
-			return float64(b), true
-		}
-		if b, ok := data.(uint16); ok {
-			return float64(b), true
-		}
-		if b, ok := data.(uint32); ok {
-			return float64(b), true
-		}
-		if b, ok := data.(uint64); ok {
-			return float64(b), true
+			return b.Float64(), true
 		}
 		if b, ok := data.([]byte); ok {
-			if len(b) > 0 {
+			if len(b) == 1 {
 				return float64(b[0]), true
 			}
-			return float64(0), true
+			return float64(0), len(b) == 0
+		}
+		if b, ok := integerFromValue(data, math.MinInt64, math.MaxInt64); ok {
+			d := float64(b)
+			return d, d < maxInt64AsDouble && int64(d) == b
 		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
 		if b, ok := data.(string); ok {
-			d1, err := strconv.ParseFloat(b, 64)
-			if err != nil {
-				return d1, true
+			if d, err := strconv.ParseFloat(b, 64); err == nil {
+				return d, true
 			}
 		}
 		return float64(0), false
 	case I16:
-		if b, ok := data.(int16); ok {
-			return b, true
-		}
-		if b, ok := data.(int); ok {
-			return int16(b), true
-		}
-		if b, ok := data.(Numeric); ok {
-			return bool(b.Int16() != 0), true
-		}
-		if b, ok := data.(byte); ok {
-			return int16(b), true
-		}
-		if b, ok := data.(bool); ok {
-			if b {
-				return int16(1.0), true
-			}
-			return int16(0.0), true
-		}
-		if b, ok := data.(int8); ok {
-			return int16(b), true
-		}
-		if b, ok := data.(int32); ok {
-			return int16(b), true
-		}
-		if b, ok := data.(int64); ok {
-			return int16(b), true
-		}
-		if b, ok := data.(uint); ok {
-			return int16(b), true
-		}
-		if b, ok := data.(uint8); ok {
-			return int16(b), true
-		}
-		if b, ok := data.(uint16); ok {
-			return int16(b), true
-		}
-		if b, ok := data.(uint32); ok {
-			return int16(b), true
-		}
-		if b, ok := data.(uint64); ok {
-			return int16(b), true
-		}
-		if b, ok := data.(float32); ok {
-			return int16(int(b)), true
-		}
-		if b, ok := data.(float64); ok {
-			return int16(int(b)), true
-		}
-		if b, ok := data.(Stringer); ok {
-			data = b.String()
-		}
-		if b, ok := data.(string); ok {
-			i1, err := strconv.Atoi(b)
-			if err != nil {
-				return int16(i1), true
-			}
-		}
-		return int16(0), false
+		b, ok := integerFromValue(data, math.MinInt16, math.MaxInt16)
+		return int16(b), ok
 	case I32:
-		if b, ok := data.(int32); ok {
-			return b, true
-		}
-		if b, ok := data.(int); ok {
-			return int32(b), true
-		}
-		if b, ok := data.(Numeric); ok {
-			return bool(b.Int32() != 0), true
-		}
-		if b, ok := data.(byte); ok {
-			return int32(b), true
-		}
-		if b, ok := data.(bool); ok {
-			if b {
-				return int32(1.0), true
-			}
-			return int32(0.0), true
-		}
-		if b, ok := data.(int8); ok {
-			return int32(b), true
-		}
-		if b, ok := data.(int16); ok {
-			return int32(b), true
-		}
-		if b, ok := data.(int64); ok {
-			return int32(b), true
-		}
-		if b, ok := data.(uint); ok {
-			return int32(b), true
-		}
-		if b, ok := data.(uint8); ok {
-			return int32(b), true
-		}
-		if b, ok := data.(uint16); ok {
-			return int32(b), true
-		}
-		if b, ok := data.(uint32); ok {
-			return int32(b), true
-		}
-		if b, ok := data.(uint64); ok {
-			return int32(b), true
-		}
-		if b, ok := data.(float32); ok {
-			return int32(int(b)), true
-		}
-		if b, ok := data.(float64); ok {
-			return int32(int(b)), true
-		}
-		if b, ok := data.(Stringer); ok {
-			data = b.String()
-		}
-		if b, ok := data.(string); ok {
-			i1, err := strconv.Atoi(b)
-			if err != nil {
-				return int32(i1), true
-			}
-		}
-		return int32(0), false
+		b, ok := integerFromValue(data, math.MinInt32, math.MaxInt32)
+		return int32(b), ok
 	case I64:
-		if b, ok := data.(int64); ok {
-			return b, true
-		}
-		if b, ok := data.(int32); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(int); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(Numeric); ok {
-			return bool(b.Int64() != 0), true
-		}
-		if b, ok := data.(byte); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(bool); ok {
-			if b {
-				return int64(1.0), true
-			}
-			return int64(0.0), true
-		}
-		if b, ok := data.(int8); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(int16); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(uint); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(uint8); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(uint16); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(uint32); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(uint64); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(float32); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(float64); ok {
-			return int64(b), true
-		}
-		if b, ok := data.(Stringer); ok {
-			data = b.String()
-		}
-		if b, ok := data.(string); ok {
-			i1, err := strconv.ParseInt(b, 10, 64)
-			if err != nil {
-				return i1, true
-			}
-		}
-		return int64(0), false
+		b, ok := integerFromValue(data, math.MinInt64, math.MaxInt64)
+		return b, ok
 	case STRING, UTF8, UTF16:
-		if b, ok := data.([]byte); ok {
-			return string(b), true
-		}
-		if b, ok := data.(Enumer); ok {
-			if i1, ok := data.(int); ok {
-				return string(i1), true
-			}
-			return b.String(), true
-		}
-		if b, ok := data.(Stringer); ok {
-			return b.String(), true
-		}
-		if b, ok := data.(string); ok {
-			return b, true
-		}
-		if b, ok := data.(int); ok {
-			return string(b), true
-		}
-		if b, ok := data.(byte); ok {
-			return string(b), true
-		}
-		if b, ok := data.(bool); ok {
-			if b {
-				return "true", true
-			}
-			return "false", true
-		}
-		if b, ok := data.(int8); ok {
-			return string(b), true
-		}
-		if b, ok := data.(int16); ok {
-			return string(b), true
-		}
-		if b, ok := data.(int32); ok {
-			return string(b), true
-		}
-		if b, ok := data.(int64); ok {
-			return string(b), true
-		}
-		if b, ok := data.(uint); ok {
-			return string(b), true
-		}
-		if b, ok := data.(uint8); ok {
-			return string(b), true
-		}
-		if b, ok := data.(uint16); ok {
-			return string(b), true
-		}
-		if b, ok := data.(uint32); ok {
-			return string(b), true
-		}
-		if b, ok := data.(uint64); ok {
-			return string(b), true
-		}
-		if b, ok := data.(float32); ok {
-			return strconv.FormatFloat(float64(b), 'g', -1, 32), true
-		}
-		if b, ok := data.(float64); ok {
-			return strconv.FormatFloat(b, 'g', -1, 64), true
-		}
-		return "", false
+		return textFromValue(data)
 	case BINARY:
 		if b, ok := data.([]byte); ok {
 			return b, true
 		}
-		if b, ok := data.(Enumer); ok {
-			if i1, ok := data.(int); ok {
-				return []byte(string(i1)), true
-			}
-			return []byte(b.String()), true
-		}
-		if b, ok := data.(Stringer); ok {
-			return []byte(b.String()), true
-		}
-		if b, ok := data.(string); ok {
+		if b, ok := textFromValue(data); ok {
 			return []byte(b), true
 		}
-		if b, ok := data.(int); ok {
-			return []byte(string(b)), true
-		}
-		if b, ok := data.(byte); ok {
-			return []byte(string(b)), true
-		}
-		if b, ok := data.(bool); ok {
-			if b {
-				return []byte("true"), true
-			}
-			return []byte("false"), true
-		}
-		if b, ok := data.(int8); ok {
-			return []byte(string(b)), true
-		}
-		if b, ok := data.(int16); ok {
-			return []byte(string(b)), true
-		}
-		if b, ok := data.(int32); ok {
-			return []byte(string(b)), true
-		}
-		if b, ok := data.(int64); ok {
-			return []byte(string(b)), true
-		}
-		if b, ok := data.(uint); ok {
-			return []byte(string(b)), true
-		}
-		if b, ok := data.(uint8); ok {
-			return []byte(string(b)), true
-		}
-		if b, ok := data.(uint16); ok {
-			return []byte(string(b)), true
-		}
-		if b, ok := data.(uint32); ok {
-			return []byte(string(b)), true
-		}
-		if b, ok := data.(uint64); ok {
-			return []byte(string(b)), true
-		}
-		if b, ok := data.(float32); ok {
-			return []byte(strconv.FormatFloat(float64(b), 'g', -1, 32)), true
-		}
-		if b, ok := data.(float64); ok {
-			return []byte(strconv.FormatFloat(b, 'g', -1, 64)), true
-		}
-		return "", false
+		return nil, false
 	case STRUCT:
 		if b, ok := data.(TStruct); ok {
 			return b, true
 		}
-		return NewTStructEmpty(""), true
+		return NewTStructEmpty(""), false
 	case MAP:
 		if b, ok := data.(TMap); ok {
 			return b, true
@@ -1090,12 +717,99 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		return NewTSetDefault(), false
-	default:
-		panic("Invalid thrift type to coerce")
 	}
 	return nil, false
 }
 
+// the first double beyond the values of 64-bit integers
+const maxInt64AsDouble = float64(1 << 63)
+
+// integerFromValue gives the integer that data stands for, if there is one and
+// it lies between min and max.
+func integerFromValue(data interface{}, min, max int64) (int64, bool) {
+	i, ok := int64(0), true
+	switch b := data.(type) {
+	case Numeric:
+		var err error
+		if i, err = strconv.ParseInt(b.String(), 10, 64); err != nil {
+			if b.isNull() {
+				break
+			}
+			return integerFromValue(b.Float64(), min, max)
+		}
+	case Enumer:
+		i = int64(b.Value())
+	case bool:
+		if b {
+			i = 1
+		}
+	case int:
+		i = int64(b)
+	case int8:
+		i = int64(b)
+	case int16:
+		i = int64(b)
+	case int32:
+		i = int64(b)
+	case int64:
+		i = b
+	case uint:
+		i, ok = int64(b), uint64(b) <= math.MaxInt64
+	case uint8:
+		i = int64(b)
+	case uint16:
+		i = int64(b)
+	case uint32:
+		i = int64(b)
+	case uint64:
+		i, ok = int64(b), b <= math.MaxInt64
+	case float32:
+		return integerFromValue(float64(b), min, max)
+	case float64:
+		if ok = b >= -maxInt64AsDouble && b < maxInt64AsDouble && b == math.Trunc(b); ok {
+			i = int64(b)
+		}
+	case Stringer:
+		return integerFromValue(b.String(), min, max)
+	case string:
+		var err error
+		i, err = strconv.ParseInt(b, 10, 64)
+		ok = err == nil
+	default:
+		ok = false
+	}
+	if !ok || i < min || i > max {
+		return 0, false
+	}
+	return i, true
+}
+
+// textFromValue gives the text of data, numbers in decimal.
+func textFromValue(data interface{}) (string, bool) {
+	switch b := data.(type) {
+	case string:
+		return b, true
+	case []byte:
+		return string(b), true
+	case Stringer:
+		return b.String(), true
+	case bool:
+		return strconv.FormatBool(b), true
+	case uint:
+		return strconv.FormatUint(uint64(b), 10), true
+	case uint64:
+		return strconv.FormatUint(b, 10), true
+	case float32:
+		return strconv.FormatFloat(float64(b), 'g', -1, 32), true
+	case float64:
+		return strconv.FormatFloat(b, 'g', -1, 64), true
+	}
+	if i, ok := integerFromValue(data, math.MinInt64, math.MaxInt64); ok {
+		return strconv.FormatInt(i, 10), true
+	}
+	return "", false
+}
+
 type EqualsOtherInterface interface {
 	Equals(other interface{}) bool
 }
-- 
2.43.0


From 492f1bfefe943efa30c834b0e1fbdb25b0aeaa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 38/71] fix: comparison agrees with the contents: values of
 structs, maps in any order, NaN, 64-bit integers; Less means less

---
 lib/go/src/thrift/tcompare.go | 14 ++++----
 lib/go/src/thrift/tfield.go   | 18 ++++++----
 lib/go/src/thrift/tlist.go    |  3 +-
 lib/go/src/thrift/tmap.go     |  2 +-
 lib/go/src/thrift/tmessage.go |  4 ++-
 lib/go/src/thrift/tset.go     |  2 +-
 lib/go/src/thrift/ttype.go    | 67 ++++++++++++++++++++++-------------
 7 files changed, 67 insertions(+), 43 deletions(-)

diff --git a/lib/go/src/thrift/tcompare.go b/lib/go/src/thrift/tcompare.go
index aa41eb3..df049cd 100644
--- a/lib/go/src/thrift/tcompare.go
+++ b/lib/go/src/thrift/tcompare.go
@@ -49,7 +49,7 @@ func CompareInt32(i, j int32) int {
 	return 0
 }
 
-func CompareInt64(i, j int32) int {
+func CompareInt64(i, j int64) int {
 	if i > j {
 		return 1
 	}
@@ -83,16 +83,14 @@ func CompareString(i, j string) int {
 }
 
 func CompareFloat(i, j float32) int {
-	if i > j {
-		return 1
-	}
-	if i < j {
-		return -1
-	}
-	return 0
+	return CompareDouble(float64(i), float64(j))
 }
 
+// CompareDouble orders NaN, which is equal to itself, before all other values.
 func CompareDouble(i, j float64) int {
+	if i != i || j != j {
+		return CompareBool(i == i, j == j)
+	}
 	if i > j {
 		return 1
 	}
diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index 72aaf50..25a7e86 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"sort"
+	"strconv"
 )
 
 /**
@@ -75,7 +76,7 @@ func (p *tField) String() string {
 	if p == nil {
 		return "<nil>"
 	}
-	return "<TField name:'" + p.name + "' type:" + string(p.typeId) + " field-id:" + string(p.id) + ">"
+	return "<TField name:'" + p.name + "' type:" + strconv.Itoa(int(p.typeId)) + " field-id:" + strconv.Itoa(p.id) + ">"
 }
 
 func (p *tField) CompareTo(other interface{}) (int, bool) {
@@ -89,7 +90,7 @@ func (p *tField) CompareTo(other interface{}) (int, bool) {
 		if p.TypeId() != data.TypeId() {
 			return CompareByte(byte(p.TypeId()), byte(data.TypeId())), true
 		}
-		return CompareString(p.Name(), data.Name()), true
+		return 0, true
 	}
 	return 0, false
 }
@@ -150,9 +151,9 @@ func NewTFieldContainer(fields []TField) TFieldContainer {
 			nameToFieldMap[field.Name()] = field
 		}
 	}
-	sort.Sort(tFieldArray(sortedFields))
+	sort.Stable(tFieldArray(sortedFields))
 	return &tFieldContainer{
-		fields:         fields,
+		fields:         sortedFields,
 		nameToFieldMap: nameToFieldMap,
 		idToFieldMap:   idToFieldMap,
 	}
@@ -253,8 +254,13 @@ func (p *tFieldContainer) CompareTo(other interface{}) (int, bool) {
 		if cmp := CompareInt(p.Len(), data.Len()); cmp != 0 {
 			return cmp, true
 		}
-		for _, field := range p.fields {
-			if cmp, ok3 := field.CompareTo(data.At(field.Id())); !ok3 || cmp != 0 {
+		others := make([]TField, 0, data.Len())
+		for field := range data.Iter() {
+			others = append(others, field)
+		}
+		sort.Stable(tFieldArray(others))
+		for i, field := range p.fields {
+			if cmp, ok3 := field.CompareTo(others[i]); !ok3 || cmp != 0 {
 				return cmp, ok3
 			}
 		}
diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 6fb4184..e5f1ef0 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -119,8 +119,7 @@ func (p *tList) Contains(data interface{}) bool {
 }
 
 func (p *tList) Less(i, j int) bool {
-	_, less := p.elemType.Compare(p.l[i], p.l[j])
-	return less
+	return p.elemType.Less(p.l[i], p.l[j])
 }
 
 func (p *tList) Iter() <-chan interface{} {
diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 824a339..f2307e7 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -735,7 +735,7 @@ func (p *tMap) ValueIter() <-chan interface{} {
 
 func (p *tMap) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tMap) Equals(other interface{}) bool {
diff --git a/lib/go/src/thrift/tmessage.go b/lib/go/src/thrift/tmessage.go
index caca516..7401a3d 100644
--- a/lib/go/src/thrift/tmessage.go
+++ b/lib/go/src/thrift/tmessage.go
@@ -19,6 +19,8 @@
 
 package thrift
 
+import "strconv"
+
 /**
  * Helper class that encapsulates struct metadata.
  *
@@ -56,7 +58,7 @@ func (p *tMessage) SeqId() int {
 }
 
 func (p *tMessage) String() string {
-	return "<TMessage name:'" + p.name + "' type: " + string(p.typeId) + " seqid:" + string(p.seqid) + ">"
+	return "<TMessage name:'" + p.name + "' type: " + strconv.Itoa(int(p.typeId)) + " seqid:" + strconv.Itoa(int(p.seqid)) + ">"
 }
 
 func (p *tMessage) Equals(other TMessage) bool {
diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index ec9a29b..3c393de 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -103,7 +103,7 @@ func (p *tSet) Remove(data interface{}) {
 
 func (p *tSet) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tSet) Equals(other interface{}) bool {
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index d5babc1..2017855 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -23,6 +23,7 @@ import (
 	"bytes"
 	"container/list"
 	"math"
+	"sort"
 	"strconv"
 )
 
@@ -255,15 +256,10 @@ func (p TType) LessType(other interface{}) bool {
 
 func (p TType) Less(i, j interface{}) bool {
 	cmp, ok := p.Compare(i, j)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p TType) Compare(i, j interface{}) (int, bool) {
-	if p != BINARY {
-		if i == j {
-			return 0, true
-		}
-	}
 	if i == nil {
 		if j == nil {
 			return 0, true
@@ -285,11 +281,6 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 	if !iok && !jok {
 		return 0, false
 	}
-	if p != BINARY {
-		if ci == cj {
-			return 0, true
-		}
-	}
 	if ci == nil {
 		if cj == nil {
 			return 0, true
@@ -335,13 +326,7 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if !iok || !jok {
 			return 0, false
 		}
-		if vi == vj {
-			return 0, true
-		}
-		if vi < vj {
-			return -1, true
-		}
-		return 1, true
+		return CompareDouble(vi, vj), true
 	case I16:
 		vi, iok := ci.(int16)
 		vj, jok := cj.(int16)
@@ -413,9 +398,15 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if cmp, ok := si.TStructFields().CompareTo(sj.TStructFields()); !ok || cmp != 0 {
 			return cmp, ok
 		}
+		// What a struct is made of knows the fields only, not their values.
+		attributei, iok := attributes(si)
+		attributej, jok := attributes(sj)
+		if !iok || !jok {
+			return 0, true
+		}
 		for field := range si.TStructFields().Iter() {
-			a := si.AttributeFromFieldId(field.Id())
-			b := sj.AttributeFromFieldId(field.Id())
+			a := attributei(field.Id())
+			b := attributej(field.Id())
 			if cmp, ok := field.TypeId().Compare(a, b); !ok || cmp != 0 {
 				return cmp, ok
 			}
@@ -438,10 +429,12 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if size := mi.Len(); size != mj.Len() {
 			return CompareInt(size, mj.Len()), true
 		}
-		if c, cok := ki.CompareValueArrays(mi.Keys(), mj.Keys()); c != 0 || !cok {
+		keysi, valuesi := sortedElems(mi)
+		keysj, valuesj := sortedElems(mj)
+		if c, cok := ki.CompareValueArrays(keysi, keysj); c != 0 || !cok {
 			return c, cok
 		}
-		return vi.CompareValueArrays(mi.Values(), mj.Values())
+		return vi.CompareValueArrays(valuesi, valuesj)
 	case LIST:
 		li, iok := ci.(TList)
 		lj, jok := cj.(TList)
@@ -482,12 +475,38 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 			return CompareInt(size, lj.Len()), true
 		}
 		return ei.CompareValueArrays(li.Values(), lj.Values())
-	default:
-		panic("Invalid thrift type to coerce")
 	}
 	return 0, false
 }
 
+// attributes gives the function that tells the values a struct's fields have.
+// Generated structs have it as the method AttributeByFieldId.
+func attributes(s TStruct) (func(id int) interface{}, bool) {
+	if g, ok := s.(interface {
+		AttributeByFieldId(id int) interface{}
+	}); ok {
+		return g.AttributeByFieldId, true
+	}
+	_, bare := s.(*tStruct)
+	return s.AttributeFromFieldId, !bare
+}
+
+// sortedElems gives the keys of a map in order and the values that go with them.
+func sortedElems(m TMap) (keys, values []interface{}) {
+	elems := make([]TMapElem, 0, m.Len())
+	for e := range m.Iter() {
+		elems = append(elems, e)
+	}
+	sort.SliceStable(elems, func(i, j int) bool {
+		return m.KeyType().Less(elems[i].Key(), elems[j].Key())
+	})
+	for _, e := range elems {
+		keys = append(keys, e.Key())
+		values = append(values, e.Value())
+	}
+	return keys, values
+}
+
 func (p TType) CompareValueArrays(li, lj []interface{}) (int, bool) {
 	size := len(li)
 	if cmp := CompareInt(size, len(lj)); cmp != 0 {
-- 
2.43.0


From 2192f262683981e8616cba380ec2f15e94bc9e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:31 +0000
Subject: [PATCH 39/71] fix: TList: Set at the end, Insert coerces, elements
 found by what they hold, no goroutine left behind by Iter

---
 lib/go/src/thrift/tlist.go | 129 +++++++++----------------------------
 1 file changed, 31 insertions(+), 98 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index e5f1ef0..e6208cf 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -19,10 +19,6 @@
 
 package thrift
 
-import (
-	"bytes"
-)
-
 /**
  * Helper class that encapsulates list metadata.
  *
@@ -70,11 +66,8 @@ func (p *tList) At(i int) interface{} {
 }
 
 func (p *tList) Set(i int, data interface{}) {
-	if p.elemType.IsEmptyType() {
-		p.elemType = TypeFromValue(data)
-	}
-	if data, ok := p.elemType.CoerceData(data); ok {
-		if len(p.l) >= i {
+	if data, ok := p.coerce(data); ok {
+		if i < len(p.l) {
 			p.l[i] = data
 		} else {
 			p.l = append(p.l, data)
@@ -83,13 +76,23 @@ func (p *tList) Set(i int, data interface{}) {
 }
 
 func (p *tList) Push(data interface{}) {
-	if p.elemType.IsEmptyType() {
-		p.elemType = TypeFromValue(data)
+	if data, ok := p.coerce(data); ok {
+		p.l = append(p.l, data)
 	}
-	data, ok := p.elemType.CoerceData(data)
+}
+
+// coerce gives data the type of the elements, which for a list that has none
+// yet is the type of data.
+func (p *tList) coerce(data interface{}) (interface{}, bool) {
+	elemType := p.elemType
+	if elemType.IsEmptyType() {
+		elemType = TypeFromValue(data)
+	}
+	data, ok := elemType.CoerceData(data)
 	if ok {
-		p.l = append(p.l, data)
+		p.elemType = elemType
 	}
+	return data, ok
 }
 
 func (p *tList) Pop() interface{} {
@@ -105,9 +108,14 @@ func (p *tList) Swap(i, j int) {
 }
 
 func (p *tList) Insert(i int, data interface{}) {
-	newl := make([]interface{}, 1)
-	newl[0] = data
-	p.l = append(p.l[:i], append(newl, p.l[i:]...)...)
+	if i < 0 || i > len(p.l) {
+		panic("index out of range")
+	}
+	if data, ok := p.coerce(data); ok {
+		p.l = append(p.l, nil)
+		copy(p.l[i+1:], p.l[i:])
+		p.l[i] = data
+	}
 }
 
 func (p *tList) Delete(i int) {
@@ -122,17 +130,15 @@ func (p *tList) Less(i, j int) bool {
 	return p.elemType.Less(p.l[i], p.l[j])
 }
 
+// Iter gives the elements the list has now. The channel holds all of them, so
+// that nothing is left waiting when not all of them are read.
 func (p *tList) Iter() <-chan interface{} {
-	c := make(chan interface{})
-	go p.iterate(c)
-	return c
-}
-
-func (p *tList) iterate(c chan<- interface{}) {
+	c := make(chan interface{}, len(p.l))
 	for _, elem := range p.l {
 		c <- elem
 	}
 	close(c)
+	return c
 }
 
 func (p *tList) indexOf(data interface{}) int {
@@ -150,82 +156,9 @@ func (p *tList) indexOf(data interface{}) int {
 		return -1
 	}
 	size := len(p.l)
-	if p.elemType == BINARY {
-		for i := 0; i < size; i++ {
-			if bytes.Compare(data.([]byte), p.l[i].([]byte)) == 0 {
-				return i
-			}
-		}
-		return -1
-	}
-	if p.elemType.IsBaseType() || p.elemType.IsEnum() {
-		for i := 0; i < size; i++ {
-			if data == p.l[i] {
-				return i
-			}
-		}
-		return -1
-	}
-	if cmp, ok := data.(EqualsOtherInterface); ok {
-		for i := 0; i < size; i++ {
-			if cmp.Equals(p.l[i]) {
-				return i
-			}
-		}
-		return -1
-	}
-	switch p.elemType {
-	case MAP:
-		if cmp, ok := data.(EqualsMap); ok {
-			for i := 0; i < size; i++ {
-				v := p.l[i]
-				if v == nil {
-					continue
-				}
-				if cmp.Equals(v.(TMap)) {
-					return i
-				}
-			}
-			return -1
-		}
-	case SET:
-		if cmp, ok := data.(EqualsSet); ok {
-			for i := 0; i < size; i++ {
-				v := p.l[i]
-				if v == nil {
-					continue
-				}
-				if cmp.Equals(v.(TSet)) {
-					return i
-				}
-			}
-			return -1
-		}
-	case LIST:
-		if cmp, ok := data.(EqualsList); ok {
-			for i := 0; i < size; i++ {
-				v := p.l[i]
-				if v == nil {
-					continue
-				}
-				if cmp.Equals(v.(TList)) {
-					return i
-				}
-			}
-			return -1
-		}
-	case STRUCT:
-		if cmp, ok := data.(EqualsStruct); ok {
-			for i := 0; i < size; i++ {
-				v := p.l[i]
-				if v == nil {
-					continue
-				}
-				if cmp.Equals(v.(TStruct)) {
-					return i
-				}
-			}
-			return -1
+	for i := 0; i < size; i++ {
+		if cmp, ok := p.elemType.Compare(data, p.l[i]); ok && cmp == 0 {
+			return i
 		}
 	}
 	return -1
-- 
2.43.0


From 760f90fb8a5102f574ee55b29b9fbad8e4bd8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:31 +0000
Subject: [PATCH 40/71] fix: TSet: greatest element is kept when added last,
 length counts elements only, elements found by what they hold

---
 lib/go/src/thrift/tset.go | 114 +++++++-------------------------------
 1 file changed, 20 insertions(+), 94 deletions(-)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 3c393de..66bc824 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -20,7 +20,6 @@
 package thrift
 
 import (
-	"bytes"
 	"container/list"
 )
 
@@ -42,12 +41,11 @@ type TSet interface {
 
 type tSet struct {
 	elemType TType
-	size     int
 	l        *list.List
 }
 
 func NewTSet(t TType, s int) TSet {
-	return &tSet{elemType: t, size: s, l: list.New()}
+	return &tSet{elemType: t, l: list.New()}
 }
 
 func NewTSetDefault() TSet {
@@ -67,10 +65,7 @@ func (p *tSet) Back() *list.Element {
 }
 
 func (p *tSet) Len() int {
-	if p.l.Len() != 0 {
-		return p.l.Len()
-	}
-	return p.size
+	return p.l.Len()
 }
 
 func (p *tSet) Contains(data interface{}) bool {
@@ -78,20 +73,24 @@ func (p *tSet) Contains(data interface{}) bool {
 }
 
 func (p *tSet) Add(other interface{}) {
-	if data, ok := p.elemType.CoerceData(other); ok {
-		if p.l.Front() == nil {
-			p.l.PushFront(data)
-		} else {
-			for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-				if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp >= 0 {
-					if cmp > 0 {
-						p.l.InsertBefore(data, elem)
-					}
-					return
-				}
+	elemType := p.elemType
+	if elemType.IsEmptyType() {
+		elemType = TypeFromValue(other)
+	}
+	data, ok := elemType.CoerceData(other)
+	if !ok {
+		return
+	}
+	p.elemType = elemType
+	for elem := p.l.Front(); elem != nil; elem = elem.Next() {
+		if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp >= 0 {
+			if cmp > 0 {
+				p.l.InsertBefore(data, elem)
 			}
+			return
 		}
 	}
+	p.l.PushBack(data)
 }
 
 func (p *tSet) Remove(data interface{}) {
@@ -128,82 +127,9 @@ func (p *tSet) find(data interface{}) *list.Element {
 	if data == nil || !ok {
 		return nil
 	}
-	if p.elemType == BINARY {
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			if bytes.Compare(data.([]byte), elem.Value.([]byte)) == 0 {
-				return elem
-			}
-		}
-		return nil
-	}
-	if p.elemType.IsBaseType() || p.elemType.IsEnum() {
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			if data == elem.Value {
-				return elem
-			}
-		}
-		return nil
-	}
-	if cmp, ok := data.(EqualsOtherInterface); ok {
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			if cmp.Equals(elem.Value) {
-				return elem
-			}
-		}
-		return nil
-	}
-	switch p.elemType {
-	case MAP:
-		if cmp, ok := data.(EqualsMap); ok {
-			for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-				v := elem.Value
-				if v == nil {
-					continue
-				}
-				if cmp.Equals(v.(TMap)) {
-					return elem
-				}
-			}
-			return nil
-		}
-	case SET:
-		if cmp, ok := data.(EqualsSet); ok {
-			for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-				v := elem.Value
-				if v == nil {
-					continue
-				}
-				if cmp.Equals(v.(TSet)) {
-					return elem
-				}
-			}
-			return nil
-		}
-	case LIST:
-		if cmp, ok := data.(EqualsList); ok {
-			for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-				v := elem.Value
-				if v == nil {
-					continue
-				}
-				if cmp.Equals(v.(TList)) {
-					return elem
-				}
-			}
-			return nil
-		}
-	case STRUCT:
-		if cmp, ok := data.(EqualsStruct); ok {
-			for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-				v := elem.Value
-				if v == nil {
-					continue
-				}
-				if cmp.Equals(v.(TStruct)) {
-					return elem
-				}
-			}
-			return nil
+	for elem := p.l.Front(); elem != nil; elem = elem.Next() {
+		if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp == 0 {
+			return elem
 		}
 	}
 	return nil
-- 
2.43.0


From cd17cc37a56f54e34ac6095f378126772fe2db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 41/71] fix: TMap: absent bool key, map keys, NaN key, length
 without hint, values coerced, iterators leave no goroutine

---
 lib/go/src/thrift/tmap.go | 303 +++++++++-----------------------------
 1 file changed, 70 insertions(+), 233 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index f2307e7..744415d 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -20,9 +20,8 @@
 package thrift
 
 import (
-	"bytes"
 	"container/list"
-	"reflect"
+	"math"
 )
 
 /**
@@ -54,14 +53,13 @@ type TMapElem interface {
 type tMap struct {
 	keyType   TType
 	valueType TType
-	size      int
 	l         *list.List
 	b         map[bool]interface{}
 	i08       map[byte]interface{}
 	i16       map[int16]interface{}
 	i32       map[int32]interface{}
 	i64       map[int64]interface{}
-	f64       map[float64]interface{}
+	f64       map[uint64]TMapElem // by doubleKey
 	s         map[string]interface{}
 }
 
@@ -83,7 +81,7 @@ func NewTMapElem(k, v interface{}) TMapElem {
 }
 
 func NewTMap(k, v TType, s int) TMap {
-	return &tMap{keyType: k, valueType: v, size: s, l: list.New()}
+	return &tMap{keyType: k, valueType: v, l: list.New()}
 }
 
 func NewTMapDefault() TMap {
@@ -99,9 +97,6 @@ func (p *tMap) ValueType() TType {
 }
 
 func (p *tMap) Len() int {
-	if p.l.Len() != 0 {
-		return p.l.Len()
-	}
 	switch p.KeyType() {
 	case STOP, VOID:
 		return 0
@@ -119,10 +114,33 @@ func (p *tMap) Len() int {
 		return len(p.f64)
 	case STRING, UTF8, UTF16:
 		return len(p.s)
-	default:
-		return p.size
 	}
-	return p.size
+	return p.l.Len()
+}
+
+// doubleKey is the same for doubles that are equal: the two zeros, and all NaN.
+func doubleKey(f float64) uint64 {
+	if f != f {
+		return math.Float64bits(math.NaN())
+	}
+	if f == 0 {
+		return 0
+	}
+	return math.Float64bits(f)
+}
+
+// find gives the element of p.l that has the key.
+func (p *tMap) find(key interface{}) TMapElem {
+	for elem := p.l.Front(); elem != nil; elem = elem.Next() {
+		e := elem.Value.(TMapElem)
+		if e.Key() == nil {
+			continue
+		}
+		if cmp, ok := p.KeyType().Compare(key, e.Key()); ok && cmp == 0 {
+			return e
+		}
+	}
+	return nil
 }
 
 func (p *tMap) Get(key interface{}) (interface{}, bool) {
@@ -156,7 +174,7 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 		if v, ok := m[useKey.(bool)]; ok {
 			return v, true
 		}
-		return nil, true
+		return nil, false
 	case BYTE:
 		m := p.i08
 		if v, ok := m[useKey.(byte)]; ok {
@@ -168,8 +186,8 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 		if m == nil {
 			return nil, false
 		}
-		if v, ok := m[useKey.(float64)]; ok {
-			return v, true
+		if e, ok := m[doubleKey(useKey.(float64))]; ok {
+			return e.Value(), true
 		}
 		return nil, false
 	case I16:
@@ -209,122 +227,32 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 			return v, true
 		}
 		return nil, false
-	case BINARY:
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			e := elem.Value.(TMapElem)
-			k := e.Key()
-			if k == nil {
-				continue
-			}
-			binkey, ok := k.([]byte)
-			if ok {
-				if bytes.Compare(binkey, useKey.([]byte)) == 0 {
-					return e.Value(), true
-				}
-				continue
-			}
-			if reflect.DeepEqual(useKey, k) {
-				return e.Value(), true
-			}
-		}
-		return nil, false
-	case STRUCT:
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			e := elem.Value.(TMapElem)
-			k := e.Key()
-			if k == nil {
-				continue
-			}
-			structkey, ok := k.(TStruct)
-			if ok {
-				if structkey.Equals(useKey.(TStruct)) {
-					return e.Value(), true
-				}
-				continue
-			}
-			if reflect.DeepEqual(useKey, k) {
-				return e.Value(), true
-			}
-		}
-		return nil, false
-	case MAP:
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			e := elem.Value.(TMapElem)
-			k := e.Key()
-			if k == nil {
-				continue
-			}
-			mapkey, ok := k.(TMap)
-			if ok {
-				if mapkey.Equals(useKey.(TMap)) {
-					return e.Value(), true
-				}
-				continue
-			}
-			if reflect.DeepEqual(useKey, k) {
-				return e.Value(), true
-			}
-		}
-		return nil, false
-	case SET:
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			e := elem.Value.(TMapElem)
-			k := e.Key()
-			if k == nil {
-				continue
-			}
-			setkey, ok := k.(TSet)
-			if ok {
-				if setkey.Equals(useKey.(TSet)) {
-					return e.Value(), true
-				}
-				continue
-			}
-			if reflect.DeepEqual(useKey, k) {
-				return e.Value(), true
-			}
-		}
-		return nil, false
-	case LIST:
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			e := elem.Value.(TMapElem)
-			k := e.Key()
-			if k == nil {
-				continue
-			}
-			listkey, ok := k.(TList)
-			if ok {
-				if listkey.Equals(useKey.(TList)) {
-					return e.Value(), true
-				}
-				continue
-			}
-			if reflect.DeepEqual(useKey, k) {
-				return e.Value(), true
-			}
+	default:
+		if e := p.find(useKey); e != nil {
+			return e.Value(), true
 		}
 		return nil, false
-	default:
-		panic("Invalid Thrift element type")
 	}
 	return nil, false
 }
 
 func (p *tMap) Set(key, value interface{}) {
-	if p.KeyType() == STOP || p.KeyType() == VOID {
-		p.keyType = TypeFromValue(key)
+	keyType, valueType := p.KeyType(), p.ValueType()
+	if keyType.IsEmptyType() {
+		keyType = TypeFromValue(key)
 	}
-	coercedKey, ok := p.KeyType().CoerceData(key)
+	coercedKey, ok := keyType.CoerceData(key)
 	if !ok {
 		return
 	}
-	if p.ValueType() == STOP || p.ValueType() == VOID {
-		p.valueType = TypeFromValue(value)
+	if valueType.IsEmptyType() {
+		valueType = TypeFromValue(value)
 	}
-	coercedValue, ok := p.ValueType().CoerceData(value)
+	coercedValue, ok := valueType.CoerceData(value)
 	if !ok {
 		return
 	}
+	p.keyType, p.valueType = keyType, valueType
 	newElem := NewTMapElem(coercedKey, coercedValue)
 	if !p.KeyType().IsBaseType() || p.KeyType() == BINARY {
 		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
@@ -355,43 +283,43 @@ func (p *tMap) Set(key, value interface{}) {
 			p.b = make(map[bool]interface{})
 		}
 		b := coercedKey.(bool)
-		p.b[b] = value
+		p.b[b] = coercedValue
 	case BYTE:
 		if p.i08 == nil {
 			p.i08 = make(map[byte]interface{})
 		}
 		b := coercedKey.(byte)
-		p.i08[b] = value
+		p.i08[b] = coercedValue
 	case DOUBLE:
 		if p.f64 == nil {
-			p.f64 = make(map[float64]interface{})
+			p.f64 = make(map[uint64]TMapElem)
 		}
 		b := coercedKey.(float64)
-		p.f64[b] = value
+		p.f64[doubleKey(b)] = newElem
 	case I16:
 		if p.i16 == nil {
 			p.i16 = make(map[int16]interface{})
 		}
 		b := coercedKey.(int16)
-		p.i16[b] = value
+		p.i16[b] = coercedValue
 	case I32:
 		if p.i32 == nil {
 			p.i32 = make(map[int32]interface{})
 		}
 		b := coercedKey.(int32)
-		p.i32[b] = value
+		p.i32[b] = coercedValue
 	case I64:
 		if p.i64 == nil {
 			p.i64 = make(map[int64]interface{})
 		}
 		b := coercedKey.(int64)
-		p.i64[b] = value
+		p.i64[b] = coercedValue
 	case STRING, UTF8, UTF16:
 		if p.s == nil {
 			p.s = make(map[string]interface{})
 		}
 		b := coercedKey.(string)
-		p.s[b] = value
+		p.s[b] = coercedValue
 	case BINARY, STRUCT, MAP, SET, LIST:
 		panic("Should never be here because type is " + p.KeyType().String())
 	default:
@@ -441,7 +369,7 @@ func (p *tMap) Contains(key interface{}) bool {
 		if m == nil {
 			return false
 		}
-		_, ok := m[coercedKey.(float64)]
+		_, ok := m[doubleKey(coercedKey.(float64))]
 		return ok
 	case I16:
 		m := p.i16
@@ -472,94 +400,8 @@ func (p *tMap) Contains(key interface{}) bool {
 		}
 		_, ok := m[coercedKey.(string)]
 		return ok
-	case BINARY:
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			e := elem.Value.(TMapElem)
-			k := e.Key()
-			if k == nil {
-				continue
-			}
-			binkey, ok := k.([]byte)
-			if ok {
-				if bytes.Compare(binkey, coercedKey.([]byte)) == 0 {
-					return true
-				}
-				continue
-			}
-			if reflect.DeepEqual(coercedKey, k) {
-				return true
-			}
-		}
-		return false
-	case STRUCT:
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			e := elem.Value.(TMapElem)
-			k := e.Key()
-			if k == nil {
-				continue
-			}
-			structkey, ok := k.(TStruct)
-			if ok {
-				if structkey.Equals(coercedKey.(TStruct)) {
-					return true
-				}
-				continue
-			}
-			if reflect.DeepEqual(coercedKey, k) {
-				return true
-			}
-		}
-		return false
-	case MAP:
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			e := elem.Value.(TMapElem)
-			k := e.Key()
-			if k == nil {
-				continue
-			}
-			mapkey, ok := k.(TMap)
-			if ok {
-				if mapkey.Equals(coercedKey.(TMap)) {
-					return true
-				}
-				continue
-			}
-		}
-		return false
-	case SET:
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			e := elem.Value.(TMapElem)
-			k := e.Key()
-			if k == nil {
-				continue
-			}
-			setkey, ok := k.(TSet)
-			if ok {
-				if setkey.Equals(coercedKey.(TSet)) {
-					return true
-				}
-				continue
-			}
-		}
-		return false
-	case LIST:
-		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			e := elem.Value.(TMapElem)
-			k := e.Key()
-			if k == nil {
-				continue
-			}
-			listkey, ok := k.(TList)
-			if ok {
-				if listkey.Equals(coercedKey.(TList)) {
-					return true
-				}
-				continue
-			}
-		}
-		return false
 	default:
-		panic("Invalid Thrift element type")
+		return p.find(coercedKey) != nil
 	}
 	return false
 }
@@ -595,8 +437,8 @@ func (p *tMap) iterate(c chan<- TMapElem) {
 		}
 		close(c)
 	case DOUBLE:
-		for k, v := range p.f64 {
-			c <- NewTMapElem(k, v)
+		for _, e := range p.f64 {
+			c <- e
 		}
 		close(c)
 	case STRING, UTF8, UTF16:
@@ -604,20 +446,19 @@ func (p *tMap) iterate(c chan<- TMapElem) {
 			c <- NewTMapElem(k, v)
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	default:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem)
 		}
 		close(c)
-	default:
-		panic("Invalid Thrift type")
 	}
 }
 
-// Channel iterator for range.
+// Channel iterator for range. The channel holds all the elements the map has
+// now, so that nothing is left waiting when not all of them are read.
 func (p *tMap) Iter() <-chan TMapElem {
-	c := make(chan TMapElem)
-	go p.iterate(c)
+	c := make(chan TMapElem, p.Len())
+	p.iterate(c)
 	return c
 }
 
@@ -652,8 +493,8 @@ func (p *tMap) iterateKeys(c chan<- interface{}) {
 		}
 		close(c)
 	case DOUBLE:
-		for k, _ := range p.f64 {
-			c <- k
+		for _, e := range p.f64 {
+			c <- e.Key()
 		}
 		close(c)
 	case STRING, UTF8, UTF16:
@@ -661,19 +502,17 @@ func (p *tMap) iterateKeys(c chan<- interface{}) {
 			c <- k
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	default:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Key()
 		}
 		close(c)
-	default:
-		panic("Invalid Thrift type")
 	}
 }
 
 func (p *tMap) KeyIter() <-chan interface{} {
-	c := make(chan interface{})
-	go p.iterateKeys(c)
+	c := make(chan interface{}, p.Len())
+	p.iterateKeys(c)
 	return c
 }
 
@@ -708,8 +547,8 @@ func (p *tMap) iterateValues(c chan<- interface{}) {
 		}
 		close(c)
 	case DOUBLE:
-		for _, v := range p.f64 {
-			c <- v
+		for _, e := range p.f64 {
+			c <- e.Value()
 		}
 		close(c)
 	case STRING, UTF8, UTF16:
@@ -717,19 +556,17 @@ func (p *tMap) iterateValues(c chan<- interface{}) {
 			c <- v
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	default:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Value()
 		}
 		close(c)
-	default:
-		panic("Invalid Thrift type")
 	}
 }
 
 func (p *tMap) ValueIter() <-chan interface{} {
-	c := make(chan interface{})
-	go p.iterateValues(c)
+	c := make(chan interface{}, p.Len())
+	p.iterateValues(c)
 	return c
 }
 
-- 
2.43.0


From 950a1849e518c338b057f64bbb43490510c1edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:02 +0000
Subject: [PATCH 42/71] fix: iterating the fields of a struct leaves no
 goroutine behind

---
 lib/go/src/thrift/tfield.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index 25a7e86..700fabd 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -270,8 +270,8 @@ func (p *tFieldContainer) CompareTo(other interface{}) (int, bool) {
 }
 
 func (p *tFieldContainer) Iter() <-chan TField {
-	c := make(chan TField)
-	go p.iterate(c)
+	c := make(chan TField, len(p.fields))
+	p.iterate(c)
 	return c
 }
 
-- 
2.43.0


From 52dc1cbc1e4b66e440961d81094c057bb55395b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:18 +0000
Subject: [PATCH 43/71] fix: exceptions name field and type by number; an
 exception whose struct cannot be begun is not written further

---
 lib/go/src/thrift/tapplication_exception.go | 3 +++
 lib/go/src/thrift/tcompact_protocol.go      | 2 +-
 lib/go/src/thrift/tprotocol_exception.go    | 5 +++--
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index 21d38cd..42e00e4 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -139,6 +139,9 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 
 func (p *tApplicationException) Write(oprot TProtocol) (err error) {
 	err = oprot.WriteStructBegin("TApplicationException")
+	if err != nil {
+		return
+	}
 	if len(p.Error()) > 0 {
 		err = oprot.WriteFieldBegin("message", STRING, 1)
 		if err != nil {
diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0410f7c..480c3aa 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -863,7 +863,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	case COMPACT_STRUCT:
 		return STRUCT, nil
 	}
-	return STOP, NewTException("don't know what type: " + string(t&0x0f))
+	return STOP, NewTException("don't know what type: " + strconv.Itoa(int(t&0x0f)))
 }
 
 /**
diff --git a/lib/go/src/thrift/tprotocol_exception.go b/lib/go/src/thrift/tprotocol_exception.go
index d023fb7..6c46385 100644
--- a/lib/go/src/thrift/tprotocol_exception.go
+++ b/lib/go/src/thrift/tprotocol_exception.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"encoding/base64"
+	"strconv"
 )
 
 /**
@@ -79,7 +80,7 @@ func NewTProtocolExceptionReadField(fieldId int, fieldName string, structName st
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to read field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to read field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName string, e TProtocolException) TProtocolException {
@@ -87,7 +88,7 @@ func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName s
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to write field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to write field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionReadStruct(structName string, e TProtocolException) TProtocolException {
-- 
2.43.0


From bc1efb4b752916a470c6567676054d1d56bbdd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 44/71] fix: enums that are not set can be compared

---
 lib/go/src/thrift/ttype.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 2017855..2c7ea7d 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -269,6 +269,14 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 	if j == nil {
 		return 1, true
 	}
+	if p == I32 {
+		// enums that are not set have values beyond those of the type
+		ei, iok := i.(Enumer)
+		ej, jok := j.(Enumer)
+		if iok && jok {
+			return CompareInt(ei.Value(), ej.Value()), true
+		}
+	}
 	ci, iok := p.CoerceData(i)
 	cj, jok := p.CoerceData(j)
 	if iok && !jok {
-- 
2.43.0


From 75635a3cf8a82e4b1552e29ef37cfe4c9f7b129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:31 +0000
Subject: [PATCH 45/71] fix: numbers whose text is no number are refused,
 integers written with a fraction or exponent are exact

---
 lib/go/src/thrift/tnumeric.go |  8 ++++----
 lib/go/src/thrift/ttype.go    | 32 +++++++++++++++++++++++++-------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/lib/go/src/thrift/tnumeric.go b/lib/go/src/thrift/tnumeric.go
index 9bdce00..c30dd67 100644
--- a/lib/go/src/thrift/tnumeric.go
+++ b/lib/go/src/thrift/tnumeric.go
@@ -92,8 +92,8 @@ func NewNumericFromString(sValue string) Numeric {
 		return NAN
 	}
 	dValue, _ := strconv.ParseFloat(sValue, 64)
-	iValue, err := strconv.ParseInt(sValue, 10, 64)
-	if err != nil && dValue >= -maxInt64AsDouble && dValue < maxInt64AsDouble {
+	iValue, exact := integerFromText(sValue)
+	if !exact && dValue >= -maxInt64AsDouble && dValue < maxInt64AsDouble {
 		iValue = int64(dValue)
 	}
 	isNil := len(sValue) == 0
@@ -114,8 +114,8 @@ func NewNumericFromJSONString(sValue string, isNull bool) Numeric {
 		return NAN
 	}
 	dValue, _ := strconv.ParseFloat(sValue, 64)
-	iValue, err := strconv.ParseInt(sValue, 10, 64)
-	if err != nil && dValue >= -maxInt64AsDouble && dValue < maxInt64AsDouble {
+	iValue, exact := integerFromText(sValue)
+	if !exact && dValue >= -maxInt64AsDouble && dValue < maxInt64AsDouble {
 		iValue = int64(dValue)
 	}
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNull}
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 2c7ea7d..2b06e59 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -23,6 +23,7 @@ import (
 	"bytes"
 	"container/list"
 	"math"
+	"math/big"
 	"sort"
 	"strconv"
 )
@@ -684,7 +685,8 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(Numeric); ok {
-			return b.Float64(), true
+			_, err := strconv.ParseFloat(b.String(), 64)
+			return b.Float64(), b.isNull() || err == nil
 		}
 		if b, ok := data.([]byte); ok {
 			if len(b) == 1 {
@@ -757,12 +759,15 @@ func integerFromValue(data interface{}, min, max int64) (int64, bool) {
 	i, ok := int64(0), true
 	switch b := data.(type) {
 	case Numeric:
-		var err error
-		if i, err = strconv.ParseInt(b.String(), 10, 64); err != nil {
-			if b.isNull() {
-				break
-			}
-			return integerFromValue(b.Float64(), min, max)
+		if b.isNull() {
+			break
+		}
+		i = b.Int64()
+		fromText, isInteger := integerFromText(b.String())
+		if ok = isInteger && fromText == i; !ok {
+			// made from a double, of which the text has the leading digits only
+			d := b.Float64()
+			ok = d == float64(i) && d < maxInt64AsDouble && b.String() == strconv.FormatFloat(d, 'g', -1, 64)
 		}
 	case Enumer:
 		i = int64(b.Value())
@@ -811,6 +816,19 @@ func integerFromValue(data interface{}, min, max int64) (int64, bool) {
 	return i, true
 }
 
+// integerFromText gives the integer that the text of a number stands for.
+func integerFromText(text string) (int64, bool) {
+	if i, err := strconv.ParseInt(text, 10, 64); err == nil {
+		return i, true
+	}
+	f, _, err := big.ParseFloat(text, 10, 64, big.ToZero)
+	if err != nil || f.Acc() != big.Exact {
+		return 0, false
+	}
+	i, accuracy := f.Int64()
+	return i, accuracy == big.Exact
+}
+
 // textFromValue gives the text of data, numbers in decimal.
 func textFromValue(data interface{}) (string, bool) {
 	switch b := data.(type) {
-- 
2.43.0


From b219d048da2494c1f15074afdbe59eb3c992e21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 46/71] fix: application exceptions can be read from protocols
 that name their fields without telling the types

---
 lib/go/src/thrift/tapplication_exception.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index 42e00e4..f8da0e0 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -86,13 +86,22 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 	type_ := int32(UNKNOWN_APPLICATION_EXCEPTION)
 
 	for {
-		_, ttype, id, er := iprot.ReadFieldBegin()
+		name, ttype, id, er := iprot.ReadFieldBegin()
 		if er != nil {
 			return nil, er
 		}
 		if ttype == STOP {
 			break
 		}
+		if ttype == GENERIC {
+			// the protocol names fields, but does not tell their types
+			switch name {
+			case "message":
+				id, ttype = 1, STRING
+			case "type":
+				id, ttype = 2, I32
+			}
+		}
 		switch id {
 		case 1:
 			if ttype == STRING {
-- 
2.43.0


From 532541fc6235ae129804407f7f6b683d8f7cd3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:09 +0000
Subject: [PATCH 47/71] fix: Go generator: import included programs properly
 and qualify their names

---
 compiler/cpp/src/generate/t_go_generator.cc | 102 ++++++++++++--------
 1 file changed, 63 insertions(+), 39 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index eafbb71..c27b229 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -203,7 +203,7 @@ public:
     std::string go_autogen_comment();
     std::string go_package();
     std::string go_imports();
-    std::string render_includes();
+    void collect_includes(const t_program* program, std::vector<const t_program*>& result);
     std::string render_fastbinary_includes();
     std::string declare_argument(t_field* tfield);
     std::string render_field_default_value(t_field* tfield, const string& name);
@@ -225,6 +225,28 @@ public:
         return real_module;
     }
 
+    /** The path by which the package generated for a program is imported. */
+    static std::string get_go_import_path(const t_program* program) {
+        std::string path = get_real_go_module(program);
+        std::replace(path.begin(), path.end(), '.', '/');
+        return path;
+    }
+
+    /** The name of the package generated for a program. */
+    static std::string get_go_package(const t_program* program) {
+        const std::string module = get_real_go_module(program);
+        return module.substr(module.rfind('.') + 1);
+    }
+
+    /** Prefix that names of the program's package need where this one refers to them. */
+    std::string package_prefix(const t_program* program) {
+        if (program == NULL || program == program_) {
+            return "";
+        }
+
+        return get_go_package(program) + ".";
+    }
+
 private:
 
     /**
@@ -475,27 +497,30 @@ void t_go_generator::init_generator()
              go_autogen_comment() <<
              go_package() <<
              go_imports() <<
-             render_includes() <<
-             render_fastbinary_includes() << endl << endl;
+             render_fastbinary_includes() << endl <<
+             "// GoUnusedProtection__ lets packages import this one without using it." << endl <<
+             "var GoUnusedProtection__ int" << endl << endl;
 }
 
 /**
- * Renders all the imports necessary for including another Thrift program
+ * Collects the programs that a program includes, directly or not
  */
-string t_go_generator::render_includes()
+void t_go_generator::collect_includes(const t_program* program, vector<const t_program*>& result)
 {
-    const vector<t_program*>& includes = program_->get_includes();
-    string result = "";
+    const vector<t_program*>& includes = const_cast<t_program*>(program)->get_includes();
 
     for (size_t i = 0; i < includes.size(); ++i) {
-        result += "import \"" + get_real_go_module(includes[i]) + "\"\n";
-    }
+        bool known = get_real_go_module(includes[i]) == get_real_go_module(program_);
 
-    if (includes.size() > 0) {
-        result += "\n";
-    }
+        for (size_t k = 0; k < result.size(); ++k) {
+            known = known || get_real_go_module(result[k]) == get_real_go_module(includes[i]);
+        }
 
-    return result;
+        if (!known) {
+            result.push_back(includes[i]);
+            collect_includes(includes[i], result);
+        }
+    }
 }
 
 /**
@@ -532,11 +557,25 @@ string t_go_generator::go_package()
  */
 string t_go_generator::go_imports()
 {
+    vector<const t_program*> includes;
+    collect_includes(program_, includes);
+    string imports, used;
+
+    for (size_t i = 0; i < includes.size(); ++i) {
+        imports += "\t\"" + get_go_import_path(includes[i]) + "\"\n";
+        used += "var _ = " + get_go_package(includes[i]) + ".GoUnusedProtection__\n";
+    }
+
+    if (!used.empty()) {
+        used += "\n";
+    }
+
     return
         string("import (\n"
                "\t\"fmt\"\n"
                "\t\"math\"\n"
-               "\t\"thrift\"\n"
+               "\t\"thrift\"\n")
+        + imports +
                ")\n\n"
                "// This is a temporary safety measure to ensure that the `math'\n"
                "// import does not trip up any generated output that may not\n"
@@ -546,7 +585,7 @@ string t_go_generator::go_imports()
                "func init() {\n"
                "\tvar temporaryAndUnused int32 = math.MinInt32\n"
                "\ttemporaryAndUnused++\n"
-               "}\n\n");
+               "}\n\n" + used;
 }
 
 /**
@@ -717,7 +756,7 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
         indent(out) << value->get_integer();
     } else if (type->is_struct() || type->is_xception()) {
         out <<
-            "New" << publicize(type->get_name()) << "()" << endl <<
+            package_prefix(type->get_program()) << "New" << publicize(type->get_name()) << "()" << endl <<
             indent() << "{" << endl;
         indent_up();
         const vector<t_field*>& fields = ((t_struct*)type)->get_members();
@@ -1408,11 +1447,6 @@ void t_go_generator::generate_service(t_service* tservice)
                go_package() <<
                go_imports();
 
-    if (tservice->get_extends() != NULL) {
-        f_service_ <<
-                   "import \"" << get_real_go_module(tservice->get_extends()->get_program()) << "\"" << endl;
-    }
-
     f_service_ <<
                //             "import (" << endl <<
                // indent() << "        \"os\"" << endl <<
@@ -1495,7 +1529,7 @@ void t_go_generator::generate_service_interface(t_service* tservice)
         if (index != string::npos) {
             extends_if = "\n" + indent() + "  " + extends.substr(0, index + 1) + "I" + publicize(extends.substr(index + 1)) + "\n";
         } else {
-            extends_if = "\n" + indent() + "I" + publicize(extends) + "\n";
+            extends_if = "\n" + indent() + "  I" + publicize(extends) + "\n";
         }
     }
 
@@ -2544,13 +2578,13 @@ void t_go_generator::generate_deserialize_field(ofstream &out,
 
         if (!prefix.size() || prefix.find(".") == string::npos) {
             if (type->is_enum() || orig_type->is_typedef()) {
-                indent(out) << name << " := " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
+                indent(out) << name << " := " << type_to_go_type(orig_type) << "(" << v << ")" << endl;
             } else {
                 indent(out) << name << " := " << v << endl;
             }
         } else {
             if (type->is_enum() || orig_type->is_typedef()) {
-                indent(out) << name << " = " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
+                indent(out) << name << " = " << type_to_go_type(orig_type) << "(" << v << ")" << endl;
             } else {
                 indent(out) << name << " = " << v << endl;
             }
@@ -2577,7 +2611,7 @@ void t_go_generator::generate_deserialize_struct(ofstream &out,
     }
 
     out <<
-        indent() << prefix << eq << "New" << publicize(type_name(tstruct)) << "()" << endl <<
+        indent() << prefix << eq << package_prefix(tstruct->get_program()) << "New" << publicize(tstruct->get_name()) << "()" << endl <<
         indent() << err2 << " := " << prefix << ".Read(iprot)" << endl <<
         indent() << "if " << err2 << " != nil { return thrift.NewTProtocolExceptionReadStruct(\"" <<
         escape_string(prefix + tstruct->get_name()) << "\", " <<
@@ -3184,17 +3218,7 @@ string t_go_generator::argument_list(t_struct* tstruct)
 
 string t_go_generator::type_name(t_type* ttype)
 {
-    t_program* program = ttype->get_program();
-
-    if (ttype->is_service()) {
-        return get_real_go_module(program) + "." + ttype->get_name();
-    }
-
-    if (program != NULL && program != program_) {
-        return get_real_go_module(program) + ".ttypes." + ttype->get_name();
-    }
-
-    return ttype->get_name();
+    return package_prefix(ttype->get_program()) + ttype->get_name();
 }
 
 /**
@@ -3290,9 +3314,9 @@ string t_go_generator::type_to_go_type(t_type* type)
             return "float64";
         }
     } else if (type->is_enum()) {
-        return publicize(type->get_name());
+        return package_prefix(type->get_program()) + publicize(type->get_name());
     } else if (type->is_struct() || type->is_xception()) {
-        return string("*") + publicize(type->get_name());
+        return string("*") + package_prefix(type->get_program()) + publicize(type->get_name());
     } else if (type->is_map()) {
         return "thrift.TMap";
         //t_map* t = (t_map*)type;
@@ -3310,7 +3334,7 @@ string t_go_generator::type_to_go_type(t_type* type)
         //string elemType = type_to_go_type(t->get_elem_type());
         //return string("[]") + elemType;
     } else if (type->is_typedef()) {
-        return publicize(((t_typedef*)type)->get_symbolic());
+        return package_prefix(type->get_program()) + publicize(((t_typedef*)type)->get_symbolic());
     }
 
     throw "INVALID TYPE IN type_to_go_type: " + type->get_name();
-- 
2.43.0


From 58a955b2879ba5d85a46d60f118252054c758daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:09 +0000
Subject: [PATCH 48/71] fix: Go generator: typedefs are aliases, so that
 typedef'd structs, enums and containers compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index c27b229..648c3cb 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -617,7 +617,7 @@ void t_go_generator::generate_typedef(t_typedef* ttypedef)
     }
 
     f_types_ <<
-             "type " << newTypeDef << " " << baseType << endl << endl;
+             "type " << newTypeDef << " = " << baseType << endl << endl;
 }
 
 /**
-- 
2.43.0


From 628bd22c86d82a8ad5cf48ec2ae4b24f4a268de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:46 +0000
Subject: [PATCH 49/71] fix: Go generator: container, binary and typedef'd
 constants get usable declarations

---
 compiler/cpp/src/generate/t_go_generator.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 648c3cb..90e8b9e 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -693,10 +693,13 @@ void t_go_generator::generate_enum(t_enum* tenum)
 void t_go_generator::generate_const(t_const* tconst)
 {
     t_type* type = tconst->get_type();
-    string name = publicize(type->get_name()) + "_" + publicize(tconst->get_name());
+    string type_part = type->is_map() ? "Map" : type->is_set() ? "Set" : type->is_list() ? "List" : publicize(type->get_name());
+    string name = type_part + "_" + publicize(tconst->get_name());
     t_const_value* value = tconst->get_value();
+    t_type* true_type = get_true_type(type);
+    bool is_binary = true_type->is_base_type() && ((t_base_type*)true_type)->is_binary();
 
-    if (type->is_base_type() || type->is_enum()) {
+    if ((true_type->is_base_type() && !is_binary) || true_type->is_enum()) {
         indent(f_types_) << "const " << name << " = " << render_const_value(type, value, name) << endl;
     } else {
         f_types_ <<
-- 
2.43.0


From 7cf43b3b374ef0eff212a634c1dcd27614c2b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:20 +0000
Subject: [PATCH 50/71] fix: Go generator: fields without an explicit id
 generate code that compiles and reads back

---
 compiler/cpp/src/generate/t_go_generator.cc | 41 ++++++++++++++-------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 90e8b9e..83297a7 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -247,6 +247,19 @@ public:
         return get_go_package(program) + ".";
     }
 
+    /** How the id of a field appears in the names of methods; fields without an id have negative ones. */
+    static std::string field_id_name(int32_t id) {
+        std::ostringstream name;
+
+        if (id < 0) {
+            name << "_" << -(int64_t)id;
+        } else {
+            name << id;
+        }
+
+        return name.str();
+    }
+
 private:
 
     /**
@@ -953,10 +966,10 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         }
     } else {
         for (m_iter = members.begin(); m_iter != members.end(); ++m_iter) {
-            // This fills in default values, as opposed to nulls
-            out <<
-                indent() << publicize((*m_iter)->get_name()) << " " <<
-                type_to_enum((*m_iter)->get_type()) << endl;
+            indent(out) << publicize(variable_name_to_go_name((*m_iter)->get_name())) << " "
+                        << type_to_go_type((*m_iter)->get_type()) << " \"" << escape_string((*m_iter)->get_name())
+                        << "\"; // " << (*m_iter)->get_key()
+                        << endl;
         }
     }
 
@@ -1203,7 +1216,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
     // Read beginning field marker
     out <<
         indent() << "fieldName, fieldTypeId, fieldId, err := iprot.ReadFieldBegin()" << endl <<
-        indent() << "if fieldId < 0 {" << endl <<
+        indent() << "if fieldId < 0 && fieldName != \"\" {" << endl <<
         indent() << "  fieldId = int16(p.FieldIdFromFieldName(fieldName))" << endl <<
         indent() << "} else if fieldName == \"\" {" << endl <<
         indent() << "  fieldName = p.FieldNameFromFieldId(int(fieldId))" << endl <<
@@ -1243,13 +1256,13 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
 
         out <<
             indent() << "if fieldTypeId == " << thriftFieldTypeId << " {" << endl <<
-            indent() << "  err = p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  err = p.ReadField" << field_id_name(field_id) << "(iprot)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "} else if fieldTypeId == thrift.VOID {" << endl <<
             indent() << "  err = iprot.Skip(fieldTypeId)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "} else {" << endl <<
-            indent() << "  err = p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  err = p.ReadField" << field_id_name(field_id) << "(iprot)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "}" << endl;
         indent_down();
@@ -1287,7 +1300,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
         string field_name(publicize((*f_iter)->get_name()));
         int32_t field_id = (*f_iter)->get_key();
         out <<
-            indent() << "func (p *" << tstruct_name << ") ReadField" << field_id << "(iprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
+            indent() << "func (p *" << tstruct_name << ") ReadField" << field_id_name(field_id) << "(iprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
         indent_up();
         generate_deserialize_field(out, *f_iter, false, "p.");
         indent_down();
@@ -1295,7 +1308,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
             indent() << "  return err" << endl <<
             indent() << "}" << endl << endl <<
             indent() << "func (p *" << tstruct_name << ") ReadField" << field_name << "(iprot thrift.TProtocol) (thrift.TProtocolException) {" << endl <<
-            indent() << "  return p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  return p.ReadField" << field_id_name(field_id) << "(iprot)" << endl <<
             indent() << "}" << endl << endl;
     }
 }
@@ -1334,13 +1347,13 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             if (can_be_nil((*fr_iter)->get_type()) && fieldId != 0) {
                 out <<
                     indent() << "case p." << publicize(variable_name_to_go_name(field_name)) << " != nil:" << endl <<
-                    indent() << "  if err = p.WriteField" << fieldId << "(oprot); err != nil {" << endl <<
+                    indent() << "  if err = p.WriteField" << field_id_name(fieldId) << "(oprot); err != nil {" << endl <<
                     indent() << "    return err" << endl <<
                     indent() << "  }" << endl;
             } else {
                 out <<
                     indent() << "default:" << endl <<
-                    indent() << "  if err = p.WriteField" << fieldId << "(oprot); err != nil {" << endl <<
+                    indent() << "  if err = p.WriteField" << field_id_name(fieldId) << "(oprot); err != nil {" << endl <<
                     indent() << "    return err" << endl <<
                     indent() << "  }" << endl;
             }
@@ -1354,7 +1367,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             escape_field_name = escape_string(field_name);
             fieldId = (*f_iter)->get_key();
             out <<
-                indent() << "err = p.WriteField" << fieldId << "(oprot)" << endl <<
+                indent() << "err = p.WriteField" << field_id_name(fieldId) << "(oprot)" << endl <<
                 indent() << "if err != nil { return err }" << endl;
         }
     }
@@ -1379,7 +1392,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
         field_required = (*f_iter)->get_req();
         field_can_be_nil = can_be_nil((*f_iter)->get_type());
         out <<
-            indent() << "func (p *" << tstruct_name << ") WriteField" << fieldId << "(oprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
+            indent() << "func (p *" << tstruct_name << ") WriteField" << field_id_name(fieldId) << "(oprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
         indent_up();
 
         // Write field header
@@ -1431,7 +1444,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             indent() << "  return err" << endl <<
             indent() << "}" << endl << endl <<
             indent() << "func (p *" << tstruct_name << ") WriteField" << publicize(field_name) << "(oprot thrift.TProtocol) (thrift.TProtocolException) {" << endl <<
-            indent() << "  return p.WriteField" << fieldId << "(oprot)" << endl <<
+            indent() << "  return p.WriteField" << field_id_name(fieldId) << "(oprot)" << endl <<
             indent() << "}" << endl << endl;
     }
 }
-- 
2.43.0


From d7dd42b1327e538d0e9c41a53d67a11697a9bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:20 +0000
Subject: [PATCH 51/71] fix: Go generator: defaults of container and struct
 fields fill the field itself

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 83297a7..695fca8 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1008,7 +1008,7 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         const bool type_is_enum = type->is_enum();
 
         if (has_default_value) {
-            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, base_field_name) << endl;
+            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, full_field_name) << endl;
         } else if (type_is_enum) {
             out << indent() << full_field_name << " = math.MinInt32 - 1" << endl;
         }
-- 
2.43.0


From 2f19e59d28030ad8e6ba68cee2ba39b97892d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:20 +0000
Subject: [PATCH 52/71] fix: Go generator: clients of services that extend one
 of another program compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 695fca8..9e7feb0 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1626,7 +1626,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
     if (!extends.empty()) {
         f_service_ <<
-                   "{" << extends_client << ": " << extends_client_new << "Factory(t, f)}";
+                   "{" << extends_client.substr(extends_client.rfind(".") + 1) << ": " << extends_client_new << "Factory(t, f)}";
     } else {
         indent_up();
         f_service_ << "{Transport: t," << endl <<
@@ -1652,7 +1652,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
     if (!extends.empty()) {
         f_service_ <<
-                   "{" << extends_client << ": " << extends_client_new << "Protocol(t, iprot, oprot)}" << endl;
+                   "{" << extends_client.substr(extends_client.rfind(".") + 1) << ": " << extends_client_new << "Protocol(t, iprot, oprot)}" << endl;
     } else {
         indent_up();
         f_service_ << "{Transport: t," << endl <<
-- 
2.43.0


From ecbe7aa46d4d2e3a130c75fb798c944db5afddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:42 +0000
Subject: [PATCH 53/71] fix: Go generator: parameters and exceptions may be
 named like what the generated functions use

---
 compiler/cpp/src/generate/t_go_generator.cc | 47 +++++++++++++++++----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 9e7feb0..259d42a 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -210,7 +210,7 @@ public:
     std::string type_name(t_type* ttype);
     std::string function_signature(t_function* tfunction, std::string prefix = "");
     std::string function_signature_if(t_function* tfunction, std::string prefix = "", bool addOsError = false);
-    std::string argument_list(t_struct* tstruct);
+    std::string argument_list(t_struct* tstruct, const t_struct* others = NULL);
     std::string type_to_enum(t_type* ttype);
     std::string type_to_go_type(t_type* ttype);
     std::string type_to_spec_args(t_type* ttype);
@@ -247,6 +247,37 @@ public:
         return get_go_package(program) + ".";
     }
 
+    /**
+     * The name of a parameter or result of a generated function, which must differ from
+     * what the body of the function uses.
+     */
+    static std::string local_name(const t_field* field, const t_struct* others = NULL) {
+        static const char* const used[] = {
+            "p", "err", "iprot", "oprot", "value", "mTypeId", "seqId", "thrift", "nil"
+        };
+        std::string name = variable_name_to_go_name(field->get_name());
+
+        for (size_t i = 0; i < sizeof(used) / sizeof(used[0]); ++i) {
+            if (name == used[i]) {
+                name += "_a1";
+                break;
+            }
+        }
+
+        if (others != NULL) {
+            const std::vector<t_field*>& fields = const_cast<t_struct*>(others)->get_members();
+
+            for (size_t i = 0; i < fields.size(); ++i) {
+                if (fields[i] != field && name == local_name(fields[i])) {
+                    name += "_x1";
+                    break;
+                }
+            }
+        }
+
+        return name;
+    }
+
     /** How the id of a field appears in the names of methods; fields without an id have negative ones. */
     static std::string field_id_name(int32_t id) {
         std::ostringstream name;
@@ -1703,7 +1734,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                 f_service_ << ", ";
             }
 
-            f_service_ << variable_name_to_go_name((*fld_iter)->get_name());
+            f_service_ << local_name(*fld_iter);
         }
 
         f_service_ << ")" << endl <<
@@ -1737,7 +1768,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
             f_service_ <<
-                       indent() << args << "." << publicize(variable_name_to_go_name((*fld_iter)->get_name())) << " = " << variable_name_to_go_name((*fld_iter)->get_name()) << endl;
+                       indent() << args << "." << publicize(variable_name_to_go_name((*fld_iter)->get_name())) << " = " << local_name(*fld_iter) << endl;
         }
 
         // Write to the stream
@@ -1819,8 +1850,8 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
             for (x_iter = xceptions.begin(); x_iter != xceptions.end(); ++x_iter) {
                 f_service_ <<
-                           indent() << "if " << result << "." << publicize((*x_iter)->get_name()) << " != nil {" << endl <<
-                           indent() << "  " << (*x_iter)->get_name() << " = " << result << "." << publicize((*x_iter)->get_name()) << endl <<
+                           indent() << "if " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << " != nil {" << endl <<
+                           indent() << "  " << local_name(*x_iter) << " = " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << endl <<
                            indent() << "}" << endl;
             }
 
@@ -3181,7 +3212,7 @@ string t_go_generator::function_signature_if(t_function* tfunction,
     signature += argument_list(tfunction->get_arglist()) + ") (";
     t_type* ret = tfunction->get_returntype();
     t_struct* exceptions = tfunction->get_xceptions();
-    string errs = argument_list(exceptions);
+    string errs = argument_list(exceptions, tfunction->get_arglist());
     string retval(tmp("retval"));
 
     if (!ret->is_void()) {
@@ -3212,7 +3243,7 @@ string t_go_generator::function_signature_if(t_function* tfunction,
 /**
  * Renders a field list
  */
-string t_go_generator::argument_list(t_struct* tstruct)
+string t_go_generator::argument_list(t_struct* tstruct, const t_struct* others)
 {
     string result = "";
     const vector<t_field*>& fields = tstruct->get_members();
@@ -3226,7 +3257,7 @@ string t_go_generator::argument_list(t_struct* tstruct)
             result += ", ";
         }
 
-        result += variable_name_to_go_name((*f_iter)->get_name()) + " " + type_to_go_type((*f_iter)->get_type());
+        result += local_name(*f_iter, others) + " " + type_to_go_type((*f_iter)->get_type());
     }
 
     return result;
-- 
2.43.0


From 3c3380fd84b4f797af3418384fc665454b336aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:14 +0000
Subject: [PATCH 54/71] fix: Go generator: defaults and constants of bytes,
 doubles, typedefs and keyword fields are rendered exactly

---
 compiler/cpp/src/generate/t_go_generator.cc | 25 ++++++++++-----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 259d42a..38ab5a5 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -27,6 +27,7 @@
 
 #include <string>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
 #include <vector>
 
@@ -781,6 +782,10 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
             break;
 
         case t_base_type::TYPE_BYTE:
+            // a byte in Go is unsigned
+            out << (value->get_integer() & 0xff);
+            break;
+
         case t_base_type::TYPE_I16:
         case t_base_type::TYPE_I32:
         case t_base_type::TYPE_I64:
@@ -791,7 +796,8 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
             if (value->get_type() == t_const_value::CV_INTEGER) {
                 out << value->get_integer();
             } else {
-                out << value->get_double();
+                // enough digits to denote exactly this value
+                out << std::setprecision(17) << value->get_double();
             }
 
             break;
@@ -816,7 +822,7 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
 
             for (f_iter = fields.begin(); f_iter != fields.end(); ++f_iter) {
                 if ((*f_iter)->get_name() == v_iter->first->get_string()) {
-                    field_type = (*f_iter)->get_type();
+                    field_type = get_true_type((*f_iter)->get_type());
                 }
             }
 
@@ -826,13 +832,13 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
 
             if (field_type->is_base_type() || field_type->is_enum()) {
                 out <<
-                    indent() << name << "." << publicize(v_iter->first->get_string()) << " = " << render_const_value(field_type, v_iter->second, name) << endl;
+                    indent() << name << "." << publicize(variable_name_to_go_name(v_iter->first->get_string())) << " = " << render_const_value(field_type, v_iter->second, name) << endl;
             } else {
                 string k(tmp("k"));
                 string v(tmp("v"));
                 out <<
                     indent() << v << " := " << render_const_value(field_type, v_iter->second, v) << endl <<
-                    indent() << name << "." << publicize(v_iter->first->get_string()) << " = " << v << endl;
+                    indent() << name << "." << publicize(variable_name_to_go_name(v_iter->first->get_string())) << " = " << v << endl;
             }
         }
 
@@ -1147,8 +1153,6 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
                 indent() << "func (p *" << tstruct_name << ") IsSet" << field_name << "() bool {" << endl;
             indent_up();
             string s_check_value;
-            int64_t i_check_value;
-            double d_check_value;
 
             if (type->is_base_type()) {
                 t_base_type::t_base tbase = ((t_base_type*)type)->get_base();
@@ -1177,15 +1181,10 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
                 case t_base_type::TYPE_I16:
                 case t_base_type::TYPE_I32:
                 case t_base_type::TYPE_I64:
-                    i_check_value = (field_default_value == NULL) ? 0 : field_default_value->get_integer();
-                    out <<
-                        indent() << "return p." << field_name << " != " << i_check_value << endl;
-                    break;
-
                 case t_base_type::TYPE_DOUBLE:
-                    d_check_value = (field_default_value == NULL) ? 0.0 : field_default_value->get_double();
+                    s_check_value = (field_default_value == NULL) ? "0" : render_const_value(type, field_default_value, tstruct_name);
                     out <<
-                        indent() << "return p." << field_name << " != " << d_check_value << endl;
+                        indent() << "return p." << field_name << " != " << s_check_value << endl;
                     break;
 
                 default:
-- 
2.43.0


From 4116d4250d5be3bc811b6080f7c414dac048aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:14 +0000
Subject: [PATCH 55/71] fix: Go generator: unset fields of a typedef'd enum are
 not written

---
 compiler/cpp/src/generate/t_go_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 38ab5a5..8eacecf 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1432,7 +1432,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             indent_up();
         }
 
-        if (field_required == t_field::T_OPTIONAL || (*f_iter)->get_type()->is_enum()) {
+        if (field_required == t_field::T_OPTIONAL || get_true_type((*f_iter)->get_type())->is_enum()) {
             out <<
                 indent() << "if p.IsSet" << publicize(variable_name_to_go_name(field_name)) << "() {" << endl;
             indent_up();
@@ -1457,7 +1457,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             escape_field_name << "\", " <<
             "p.ThriftName(), err); }" << endl;
 
-        if (field_required == t_field::T_OPTIONAL || (*f_iter)->get_type()->is_enum()) {
+        if (field_required == t_field::T_OPTIONAL || get_true_type((*f_iter)->get_type())->is_enum()) {
             indent_down();
             out <<
                 indent() << "}" << endl;
-- 
2.43.0


From 0835dc053aba487887ff670b36a6395b32615346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:54 +0000
Subject: [PATCH 56/71] fix: Go generator: containers of enums and binary
 values can be written and read back

---
 compiler/cpp/src/generate/t_go_generator.cc | 34 ++++++++++++---------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 8eacecf..da43e07 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -279,6 +279,15 @@ public:
         return name;
     }
 
+    /** Expression for an element taken from a container, which holds enums as what they are on the wire. */
+    std::string element_of(const std::string& value, t_type* type) {
+        if (get_true_type(type)->is_enum()) {
+            return type_to_go_type(type) + "(" + value + ".(int32))";
+        }
+
+        return value + ".(" + type_to_go_type(type) + ")";
+    }
+
     /** How the id of a field appears in the names of methods; fields without an id have negative ones. */
     static std::string field_id_name(int32_t id) {
         std::ostringstream name;
@@ -2675,13 +2684,7 @@ void t_go_generator::generate_deserialize_container(ofstream &out,
         string err)
 {
     string size = tmp("_size");
-    string ktype = tmp("_ktype");
-    string vtype = tmp("_vtype");
-    string etype = tmp("_etype");
     t_field fsize(g_type_i32, size);
-    t_field fktype(g_type_byte, ktype);
-    t_field fvtype(g_type_byte, vtype);
-    t_field fetype(g_type_byte, etype);
     string eq(" = ");
 
     if (declare) {
@@ -2691,34 +2694,35 @@ void t_go_generator::generate_deserialize_container(ofstream &out,
     // Declare variables, read header
     if (ttype->is_map()) {
         out <<
-            indent() << ktype << ", " << vtype << ", " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
+            indent() << "_, _, " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTMap(" << ktype << ", " << vtype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTMap(" << type_to_enum(((t_map*)ttype)->get_key_type()) << ", " <<
+            type_to_enum(((t_map*)ttype)->get_val_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_set()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTSet(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTSet(" << type_to_enum(((t_set*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_list()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTList(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTList(" << type_to_enum(((t_list*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else {
         throw "INVALID TYPE IN generate_deserialize_container '" + ttype->get_name() + "' for prefix '" + prefix + "'";
     }
@@ -2973,7 +2977,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         t_map* tmap = (t_map*)ttype;
         out <<
             indent() << "for " << miter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << kiter << ", " << viter << " := " << miter << ".Key().(" << type_to_go_type(tmap->get_key_type()) << "), " << miter << ".Value().(" << type_to_go_type(tmap->get_val_type()) << ")" << endl;
+            indent() << "  " << kiter << ", " << viter << " := " << element_of(miter + ".Key()", tmap->get_key_type()) << ", " << element_of(miter + ".Value()", tmap->get_val_type()) << endl;
         indent_up();
         generate_serialize_map_element(out, tmap, kiter, viter);
         indent_down();
@@ -2984,7 +2988,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := " << prefix << ".Front(); " << iter << " != nil; " << iter << " = " << iter << ".Next() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".Value.(" << type_to_go_type(tset->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << element_of(iter + ".Value", tset->get_elem_type()) << endl;
         indent_up();
         generate_serialize_set_element(out, tset, iter2);
         indent_down();
@@ -2995,7 +2999,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".(" << type_to_go_type(tlist->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << element_of(iter, tlist->get_elem_type()) << endl;
         indent_up();
         generate_serialize_list_element(out, tlist, iter2);
         indent_down();
-- 
2.43.0


From ff3c003261120cbc1c80a31361b546f0f7f8eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:57 +0000
Subject: [PATCH 57/71] fix: Go generator: readers skip fields whose type on
 the wire does not match

---
 compiler/cpp/src/generate/t_go_generator.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index da43e07..63e8d13 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1290,18 +1290,16 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
         thriftFieldTypeId = type_to_enum((*f_iter)->get_type());
 
         if (thriftFieldTypeId == "thrift.BINARY") {
-            thriftFieldTypeId = "thrift.STRING";
+            // the type of both on the wire; a protocol without types yields the declared one
+            thriftFieldTypeId = "thrift.STRING || fieldTypeId == thrift.BINARY";
         }
 
         out <<
             indent() << "if fieldTypeId == " << thriftFieldTypeId << " {" << endl <<
             indent() << "  err = p.ReadField" << field_id_name(field_id) << "(iprot)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
-            indent() << "} else if fieldTypeId == thrift.VOID {" << endl <<
-            indent() << "  err = iprot.Skip(fieldTypeId)" << endl <<
-            indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "} else {" << endl <<
-            indent() << "  err = p.ReadField" << field_id_name(field_id) << "(iprot)" << endl <<
+            indent() << "  err = iprot.Skip(fieldTypeId)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "}" << endl;
         indent_down();
-- 
2.43.0


From 11b3ea401016cd26e5e854283811fe6c46de055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:19 +0000
Subject: [PATCH 58/71] fix: Go generator: clients report failures to send and
 receive and keep the protocols they were given

---
 compiler/cpp/src/generate/t_go_generator.cc | 24 +++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 63e8d13..a82eb27 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1764,12 +1764,14 @@ void t_go_generator::generate_service_client(t_service* tservice)
         string args(tmp("args"));
         f_service_ <<
                    indent() << "oprot := p.OutputProtocol" << endl <<
-                   indent() << "if oprot != nil {" << endl <<
+                   indent() << "if oprot == nil {" << endl <<
                    indent() << "  oprot = p.ProtocolFactory.GetProtocol(p.Transport)" << endl <<
                    indent() << "  p.OutputProtocol = oprot" << endl <<
                    indent() << "}" << endl <<
                    indent() << "p.SeqId++" << endl <<
-                   indent() << "oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift.CALL, p.SeqId)" << endl <<
+                   indent() << "if err = oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift.CALL, p.SeqId); err != nil {" << endl <<
+                   indent() << "  return" << endl <<
+                   indent() << "}" << endl <<
                    indent() << args << " := New" << publicize(argsname) << "()" << endl;
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
@@ -1779,9 +1781,13 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
         // Write to the stream
         f_service_ <<
-                   indent() << "err = " << args << ".Write(oprot)" << endl <<
-                   indent() << "oprot.WriteMessageEnd()" << endl <<
-                   indent() << "oprot.Transport().Flush()" << endl <<
+                   indent() << "if err = " << args << ".Write(oprot); err != nil {" << endl <<
+                   indent() << "  return" << endl <<
+                   indent() << "}" << endl <<
+                   indent() << "if err = oprot.WriteMessageEnd(); err != nil {" << endl <<
+                   indent() << "  return" << endl <<
+                   indent() << "}" << endl <<
+                   indent() << "err = oprot.Transport().Flush()" << endl <<
                    indent() << "return" << endl;
         indent_down();
         f_service_ <<
@@ -1841,8 +1847,12 @@ void t_go_generator::generate_service_client(t_service* tservice)
                        indent() << "  return" << endl <<
                        indent() << "}" << endl <<
                        indent() << result << " := New" << publicize(resultname) << "()" << endl <<
-                       indent() << "err = " << result << ".Read(iprot)" << endl <<
-                       indent() << "iprot.ReadMessageEnd()" << endl;
+                       indent() << "if err = " << result << ".Read(iprot); err != nil {" << endl <<
+                       indent() << "  return" << endl <<
+                       indent() << "}" << endl <<
+                       indent() << "if err = iprot.ReadMessageEnd(); err != nil {" << endl <<
+                       indent() << "  return" << endl <<
+                       indent() << "}" << endl;
 
             // Careful, only return _result if not a void function
             if (!(*f_iter)->get_returntype()->is_void()) {
-- 
2.43.0


From 56fcc3eb99c1aa60a1f1e29c4461915792255bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:28 +0000
Subject: [PATCH 59/71] fix: Go generator: oneway functions are not answered

---
 compiler/cpp/src/generate/t_go_generator.cc | 36 ++++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index a82eb27..17c2328 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2419,15 +2419,21 @@ void t_go_generator::generate_process_function(t_service* tservice,
                indent() << "args := New" << argsname << "()" << endl <<
                indent() << "if err = args.Read(iprot); err != nil {" << endl <<
                indent() << "  iprot.ReadMessageEnd()" << endl <<
-               indent() << "  x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())" << endl <<
-               indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
-               indent() << "  x.Write(oprot)" << endl <<
-               indent() << "  oprot.WriteMessageEnd()" << endl <<
-               indent() << "  oprot.Transport().Flush()" << endl <<
+               (tfunction->is_oneway() ? "" :
+                   indent() + "  x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())\n" +
+                   indent() + "  oprot.WriteMessageBegin(\"" + escape_string(tfunction->get_name()) + "\", thrift.EXCEPTION, seqId)\n" +
+                   indent() + "  x.Write(oprot)\n" +
+                   indent() + "  oprot.WriteMessageEnd()\n" +
+                   indent() + "  oprot.Transport().Flush()\n") <<
                indent() << "  return" << endl <<
                indent() << "}" << endl <<
-               indent() << "iprot.ReadMessageEnd()" << endl <<
-               indent() << "result := New" << resultname << "()" << endl <<
+               indent() << "iprot.ReadMessageEnd()" << endl;
+
+    if (!tfunction->is_oneway()) {
+        f_service_ << indent() << "result := New" << resultname << "()" << endl;
+    }
+
+    f_service_ <<
                indent() << "if ";
 
     if (!tfunction->is_oneway()) {
@@ -2462,7 +2468,21 @@ void t_go_generator::generate_process_function(t_service* tservice,
         f_service_ << "args." << publicize(variable_name_to_go_name((*f_iter)->get_name()));
     }
 
-    f_service_ << "); err != nil {" << endl <<
+    f_service_ << "); err != nil {" << endl;
+
+    if (tfunction->is_oneway()) {
+        // nobody waits for a reply
+        f_service_ <<
+                   indent() << "  return" << endl <<
+                   indent() << "}" << endl <<
+                   indent() << "return true, nil" << endl;
+        indent_down();
+        f_service_ <<
+                   indent() << "}" << endl << endl;
+        return;
+    }
+
+    f_service_ <<
                indent() << "  x := thrift.NewTApplicationException(thrift.INTERNAL_ERROR, \"Internal error processing " << escape_string(tfunction->get_name()) << ": \" + err.Error())" << endl <<
                indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
                indent() << "  x.Write(oprot)" << endl <<
-- 
2.43.0


From 0575b0f938f7f4258c608d9350c6ca6479107ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:15 +0000
Subject: [PATCH 60/71] fix: Go generator: command line tools compile for all
 argument types

---
 compiler/cpp/src/generate/t_go_generator.cc | 54 ++++++++++++++-------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 17c2328..6b12a13 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -288,6 +288,12 @@ public:
         return value + ".(" + type_to_go_type(type) + ")";
     }
 
+    /** Prefix that the name of a type needs in the command line tool, which is a package of its own. */
+    std::string remote_prefix(const t_type* type) {
+        const t_program* program = const_cast<t_type*>(type)->get_program();
+        return (program == NULL ? package_name_ : get_go_package(program)) + ".";
+    }
+
     /** How the id of a field appears in the names of methods; fields without an id have negative ones. */
     static std::string field_id_name(int32_t id) {
         std::ostringstream name;
@@ -1910,15 +1916,28 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "import (" << endl <<
              indent() << "        \"flag\"" << endl <<
              indent() << "        \"fmt\"" << endl <<
-             indent() << "        \"math\"" << endl <<
              indent() << "        \"net\"" << endl <<
              indent() << "        \"net/url\"" << endl <<
              indent() << "        \"os\"" << endl <<
              indent() << "        \"strconv\"" << endl <<
              indent() << "        \"thrift\"" << endl <<
-             indent() << "        \"" << service_module << "\"" << endl <<
+             indent() << "        \"" << service_module << "\"" << endl;
+    vector<const t_program*> includes;
+    collect_includes(program_, includes);
+    string used;
+
+    for (size_t i = 0; i < includes.size(); ++i) {
+        f_remote << indent() << "        \"" << get_go_import_path(includes[i]) << "\"" << endl;
+        used += "var _ = " + get_go_package(includes[i]) + ".GoUnusedProtection__\n";
+    }
+
+    f_remote <<
              indent() << ")" << endl <<
              indent() << endl <<
+             used <<
+             indent() << "var _ = " << package_name_ << ".GoUnusedProtection__" << endl <<
+             indent() << "var _ = strconv.Atoi" << endl <<
+             indent() << endl <<
              indent() << "func Usage() {" << endl <<
              indent() << "  fmt.Fprint(os.Stderr, \"Usage of \", os.Args[0], \" [-h host:port] [-u url] [-f[ramed]] function [arg1 [arg2...]]:\\n\")" << endl <<
              indent() << "  flag.PrintDefaults()" << endl <<
@@ -2055,7 +2074,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "  Usage()" << endl <<
                          indent() << " return" << endl <<
                          indent() << "}" << endl <<
-                         indent() << "argvalue" << i << " := " << package_name_ << "." << publicize(the_type->get_name()) << "(tmp" << i << ")" << endl;
+                         indent() << "argvalue" << i << " := " << remote_prefix(the_type2) << publicize(the_type2->get_name()) << "(tmp" << i << ")" << endl;
             } else if (the_type2->is_base_type()) {
                 t_base_type::t_base e = ((t_base_type*)the_type2)->get_base();
                 string err(tmp("err"));
@@ -2065,8 +2084,14 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                     break;
 
                 case t_base_type::TYPE_STRING:
-                    f_remote <<
-                             indent() << "argvalue" << i << " := flag.Arg(" << flagArg << ")" << endl;
+                    if (((t_base_type*)the_type2)->is_binary()) {
+                        f_remote <<
+                                 indent() << "argvalue" << i << " := []byte(flag.Arg(" << flagArg << "))" << endl;
+                    } else {
+                        f_remote <<
+                                 indent() << "argvalue" << i << " := flag.Arg(" << flagArg << ")" << endl;
+                    }
+
                     break;
 
                 case t_base_type::TYPE_BOOL:
@@ -2091,7 +2116,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                              indent() << "  Usage()" << endl <<
                              indent() << "  return" << endl <<
                              indent() << "}" << endl <<
-                             indent() << "argvalue" << i << " := byte(tmp" << i << ")" << endl;
+                             indent() << "argvalue" << i << " := int16(tmp" << i << ")" << endl;
                     break;
 
                 case t_base_type::TYPE_I32:
@@ -2134,7 +2159,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                 string factory(tmp("factory"));
                 string jsProt(tmp("jsProt"));
                 string err2(tmp("err"));
-                std::string tstruct_name(publicize(the_type->get_name()));
+                std::string tstruct_name(publicize(the_type2->get_name()));
                 f_remote <<
                          indent() << arg << " := flag.Arg(" << flagArg << ")" << endl <<
                          indent() << mbTrans << " := thrift.NewTMemoryBufferLen(len(" << arg << "))" << endl <<
@@ -2146,7 +2171,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "}" << endl <<
                          indent()  << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
-                         indent() << "argvalue" << i << " := " << package_name_ << ".New" << tstruct_name << "()" << endl <<
+                         indent() << "argvalue" << i << " := " << remote_prefix(the_type2) << "New" << tstruct_name << "()" << endl <<
                          indent() << err2 << " := argvalue" << i << ".Read(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
@@ -2159,7 +2184,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                 string factory(tmp("factory"));
                 string jsProt(tmp("jsProt"));
                 string err2(tmp("err"));
-                std::string argName(publicize(args[i]->get_name()));
+                std::string argName(publicize(variable_name_to_go_name(args[i]->get_name())));
                 f_remote <<
                          indent() << arg << " := flag.Arg(" << flagArg << ")" << endl <<
                          indent() << mbTrans << " := thrift.NewTMemoryBufferLen(len(" << arg << "))" << endl <<
@@ -2172,7 +2197,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
                          indent() << "containerStruct" << i << " := " << package_name_ << ".New" << pubName << "Args()" << endl <<
-                         indent() << err2 << " := containerStruct" << i << ".ReadField" << (i + 1) << "(" << jsProt << ")" << endl <<
+                         indent() << err2 << " := containerStruct" << i << ".ReadField" << field_id_name(args[i]->get_key()) << "(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
                          indent() << "  return" << endl <<
@@ -2189,13 +2214,8 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "}" << endl;
             }
 
-            if (the_type->is_typedef()) {
-                f_remote <<
-                         indent() << "value" << i << " := " << package_name_ << "." << publicize(the_type->get_name()) << "(argvalue" << i << ")" << endl;
-            } else {
-                f_remote <<
-                         indent() << "value" << i << " := argvalue" << i << endl;
-            }
+            f_remote <<
+                     indent() << "value" << i << " := argvalue" << i << endl;
         }
 
         f_remote <<
-- 
2.43.0


From 373c52898c8f44f9ebedd4404b2e91fa5debfc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:18 +0000
Subject: [PATCH 61/71] fix: Go generator: command line tools use the URL they
 are given and report a failed connection

---
 compiler/cpp/src/generate/t_go_generator.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 6b12a13..9bb7199 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1982,21 +1982,23 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "}" << endl <<
              indent() << endl <<
              indent() << "if len(urlString) > 0 {" << endl <<
-             indent() << "  parsedUrl, err := url.Parse(urlString)" << endl <<
+             indent() << "  parsed, err := url.Parse(urlString)" << endl <<
              indent() << "  if err != nil {" << endl <<
              indent() << "    fmt.Fprint(os.Stderr, \"Error parsing URL: \", err.Error(), \"\\n\")" << endl <<
              indent() << "    flag.Usage()" << endl <<
              indent() << "  }" << endl <<
+             indent() << "  parsedUrl = *parsed" << endl <<
              indent() << "  host = parsedUrl.Host" << endl <<
              //indent() << "  if len(parsedUrl.Port) == 0 { parsedUrl.Port = \"80\"; }" << endl <<
              //indent() << "  port = int(parsedUrl.Port)" << endl <<
              indent() << "  useHttp = len(parsedUrl.Scheme) <= 0 || parsedUrl.Scheme == \"http\"" << endl <<
              indent() << "} else if useHttp {" << endl <<
-             indent() << "  _, err := url.Parse(fmt.Sprint(\"http://\", host, \":\", port))" << endl <<
+             indent() << "  parsed, err := url.Parse(fmt.Sprint(\"http://\", host, \":\", port))" << endl <<
              indent() << "  if err != nil {" << endl <<
              indent() << "    fmt.Fprint(os.Stderr, \"Error parsing URL: \", err.Error(), \"\\n\")" << endl <<
              indent() << "    flag.Usage()" << endl <<
              indent() << "  }" << endl <<
+             indent() << "  parsedUrl = *parsed" << endl <<
              indent() << "}" << endl <<
              indent() << endl <<
              indent() << "cmd := flag.Arg(0)" << endl <<
@@ -2004,9 +2006,9 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "if useHttp {" << endl <<
              indent() << "  trans, err = thrift.NewTHttpClient(parsedUrl.String())" << endl <<
              indent() << "} else {" << endl <<
-             indent() << "  addr, err := net.ResolveTCPAddr(\"tcp\", fmt.Sprint(host, \":\", port))" << endl <<
-             indent() << "  if err != nil {" << endl <<
-             indent() << "    fmt.Fprint(os.Stderr, \"Error resolving address\", err.Error())" << endl <<
+             indent() << "  addr, addrErr := net.ResolveTCPAddr(\"tcp\", fmt.Sprint(host, \":\", port))" << endl <<
+             indent() << "  if addrErr != nil {" << endl <<
+             indent() << "    fmt.Fprint(os.Stderr, \"Error resolving address\", addrErr.Error())" << endl <<
              indent() << "    os.Exit(1)" << endl <<
              indent() << "  }" << endl <<
              indent() << "  trans, err = thrift.NewTNonblockingSocketAddr(addr)" << endl <<
-- 
2.43.0


From ff7574fbbb7618d5cbc053653cdc33636436a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:33 +0000
Subject: [PATCH 62/71] fix: Go generator: functions with a trailing underscore
 use the argument types that are declared

---
 compiler/cpp/src/generate/t_go_generator.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 9bb7199..58ba9be 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1765,7 +1765,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl << endl <<
                    indent() << "func (p *" << serviceName << "Client) Send" << function_signature(*f_iter) << "(err error) {" << endl;
         indent_up();
-        std::string argsname = privatize((*f_iter)->get_name()) + "Args";
+        std::string argsname = publicize((*f_iter)->get_name()) + "Args";
         // Serialize the request header
         string args(tmp("args"));
         f_service_ <<
@@ -1778,7 +1778,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "if err = oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift.CALL, p.SeqId); err != nil {" << endl <<
                    indent() << "  return" << endl <<
                    indent() << "}" << endl <<
-                   indent() << args << " := New" << publicize(argsname) << "()" << endl;
+                   indent() << args << " := New" << argsname << "()" << endl;
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
             f_service_ <<
@@ -1800,7 +1800,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl << endl;
 
         if (true) { //!(*f_iter)->is_oneway() || true) {}
-            std::string resultname = privatize((*f_iter)->get_name()) + "Result";
+            std::string resultname = publicize((*f_iter)->get_name()) + "Result";
             // Open function
             f_service_ << endl <<
                        indent() << "func (p *" << serviceName << "Client) Recv" << publicize((*f_iter)->get_name()) <<
@@ -1852,7 +1852,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                        indent() << "  err = thrift.NewTApplicationException(thrift.BAD_SEQUENCE_ID, \"ping failed: out of sequence response\")" << endl <<
                        indent() << "  return" << endl <<
                        indent() << "}" << endl <<
-                       indent() << result << " := New" << publicize(resultname) << "()" << endl <<
+                       indent() << result << " := New" << resultname << "()" << endl <<
                        indent() << "if err = " << result << ".Read(iprot); err != nil {" << endl <<
                        indent() << "  return" << endl <<
                        indent() << "}" << endl <<
-- 
2.43.0


From 9a29da0c82a6e71dd1053b50d45698d55efa8dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 63/71] fix: Go generator: packages of empty services and of
 type aliases alone compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 58ba9be..00c9c1d 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -621,14 +621,15 @@ string t_go_generator::go_imports()
     collect_includes(program_, includes);
     string imports, used;
 
+    used += "var _ = fmt.Errorf\n";
+    used += "var _ thrift.TProtocol\n";
+
     for (size_t i = 0; i < includes.size(); ++i) {
         imports += "\t\"" + get_go_import_path(includes[i]) + "\"\n";
         used += "var _ = " + get_go_package(includes[i]) + ".GoUnusedProtection__\n";
     }
 
-    if (!used.empty()) {
-        used += "\n";
-    }
+    used += "\n";
 
     return
         string("import (\n"
-- 
2.43.0


From f4377f43f418d07658fcb09ff88a12c1849a4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:09 +0000
Subject: [PATCH 64/71] fix: Go generator: the command line tool of a service
 without functions compiles

---
 compiler/cpp/src/generate/t_go_generator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 00c9c1d..174682a 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2042,6 +2042,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "  os.Exit(1)" << endl <<
              indent() << "}" << endl <<
              indent() << "client := " << package_name_ << ".New" << publicize(service_name_) << "ClientFactory(trans, protocolFactory)" << endl <<
+             indent() << "_ = client" << endl <<
              indent() << "if err = trans.Open(); err != nil {" << endl <<
              indent() << "  fmt.Fprint(os.Stderr, \"Error opening socket to \", host, \":\", port, \" \", err.Error())" << endl <<
              indent() << "  os.Exit(1)" << endl <<
-- 
2.43.0


From c98060d8396a78add93e07914bfd06902ee0126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:11 +0000
Subject: [PATCH 65/71] fix: Go generator: processors refer to the functions
 that are declared for names with double underscores

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 174682a..0d3fb1a 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2324,7 +2324,7 @@ void t_go_generator::generate_service_server(t_service* tservice)
         }
     }
 
-    string pServiceName(privatize(serviceName));
+    string pServiceName(privatize(tservice->get_name()));
     // Generate the header portion
     string self(tmp("self"));
 
-- 
2.43.0


From 50e7a02a50c25a49640fe23a179fcd1375cf30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:40 +0000
Subject: [PATCH 66/71] fix: comparing structs whose struct fields are not set
 does not panic

---
 lib/go/src/thrift/ttype.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 2b06e59..de4bf65 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -24,6 +24,7 @@ import (
 	"container/list"
 	"math"
 	"math/big"
+	"reflect"
 	"sort"
 	"strconv"
 )
@@ -261,6 +262,15 @@ func (p TType) Less(i, j interface{}) bool {
 }
 
 func (p TType) Compare(i, j interface{}) (int, bool) {
+	if p == STRUCT {
+		// a struct that is not there, as fields of generated structs hold it
+		if v := reflect.ValueOf(i); v.Kind() == reflect.Ptr && v.IsNil() {
+			i = nil
+		}
+		if v := reflect.ValueOf(j); v.Kind() == reflect.Ptr && v.IsNil() {
+			j = nil
+		}
+	}
 	if i == nil {
 		if j == nil {
 			return 0, true
-- 
2.43.0


From 6cbbe8e846c23c2e45fa6f52c884610a641e5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:13 +0000
Subject: [PATCH 67/71] fix: command line clients over HTTP make POST requests

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 0d3fb1a..63f3d6a 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2005,7 +2005,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "cmd := flag.Arg(0)" << endl <<
              indent() << "var err error" << endl <<
              indent() << "if useHttp {" << endl <<
-             indent() << "  trans, err = thrift.NewTHttpClient(parsedUrl.String())" << endl <<
+             indent() << "  trans, err = thrift.NewTHttpPostClient(parsedUrl.String())" << endl <<
              indent() << "} else {" << endl <<
              indent() << "  addr, addrErr := net.ResolveTCPAddr(\"tcp\", fmt.Sprint(host, \":\", port))" << endl <<
              indent() << "  if addrErr != nil {" << endl <<
-- 
2.43.0


From f0c209564bbad0d0ae4ac62503aed32f52c32bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:31 +0000
Subject: [PATCH 68/71] fix: command line clients refuse numbers out of range
 instead of cutting them off

---
 compiler/cpp/src/generate/t_go_generator.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 63f3d6a..b15f1e9 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2073,7 +2073,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
             if (the_type2->is_enum()) {
                 f_remote <<
-                         indent() << "tmp" << i << ", err := (strconv.Atoi(flag.Arg(" << flagArg << ")))" << endl <<
+                         indent() << "tmp" << i << ", err := (strconv.ParseInt(flag.Arg(" << flagArg << "), 10, 32))" << endl <<
                          indent() << "if err != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
                          indent() << " return" << endl <<
@@ -2105,8 +2105,8 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
                 case t_base_type::TYPE_BYTE:
                     f_remote <<
-                             indent() << "tmp" << i << ", " << err << " := (strconv.Atoi(flag.Arg(" << flagArg << ")))" << endl <<
-                             indent() << "if " << err << " != nil {" << endl <<
+                             indent() << "tmp" << i << ", " << err << " := (strconv.ParseInt(flag.Arg(" << flagArg << "), 10, 16))" << endl <<
+                             indent() << "if " << err << " != nil || tmp" << i << " < -128 || tmp" << i << " > 255 {" << endl <<
                              indent() << "  Usage()" << endl <<
                              indent() << "  return" << endl <<
                              indent() << "}" << endl <<
@@ -2115,7 +2115,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
                 case t_base_type::TYPE_I16:
                     f_remote <<
-                             indent() << "tmp" << i << ", " << err << " := (strconv.Atoi(flag.Arg(" << flagArg << ")))" << endl <<
+                             indent() << "tmp" << i << ", " << err << " := (strconv.ParseInt(flag.Arg(" << flagArg << "), 10, 16))" << endl <<
                              indent() << "if " << err << " != nil {" << endl <<
                              indent() << "  Usage()" << endl <<
                              indent() << "  return" << endl <<
@@ -2125,7 +2125,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
                 case t_base_type::TYPE_I32:
                     f_remote <<
-                             indent() << "tmp" << i << ", " << err << " := (strconv.Atoi(flag.Arg(" << flagArg << ")))" << endl <<
+                             indent() << "tmp" << i << ", " << err << " := (strconv.ParseInt(flag.Arg(" << flagArg << "), 10, 32))" << endl <<
                              indent() << "if " << err << " != nil {" << endl <<
                              indent() << "  Usage()" << endl <<
                              indent() << "  return" << endl <<
-- 
2.43.0


From 18bfaacd7fe691336310964eb281a0be3545fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:40 +0000
Subject: [PATCH 69/71] fix: Go generator: processors do not call the handler
 when the end of the call cannot be read

---
 compiler/cpp/src/generate/t_go_generator.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index b15f1e9..3386d31 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2441,8 +2441,11 @@ void t_go_generator::generate_process_function(t_service* tservice,
     indent_up();
     f_service_ <<
                indent() << "args := New" << argsname << "()" << endl <<
-               indent() << "if err = args.Read(iprot); err != nil {" << endl <<
-               indent() << "  iprot.ReadMessageEnd()" << endl <<
+               indent() << "err = args.Read(iprot)" << endl <<
+               indent() << "if err2 := iprot.ReadMessageEnd(); err == nil && err2 != nil {" << endl <<
+               indent() << "  err = err2" << endl <<
+               indent() << "}" << endl <<
+               indent() << "if err != nil {" << endl <<
                (tfunction->is_oneway() ? "" :
                    indent() + "  x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())\n" +
                    indent() + "  oprot.WriteMessageBegin(\"" + escape_string(tfunction->get_name()) + "\", thrift.EXCEPTION, seqId)\n" +
@@ -2450,8 +2453,7 @@ void t_go_generator::generate_process_function(t_service* tservice,
                    indent() + "  oprot.WriteMessageEnd()\n" +
                    indent() + "  oprot.Transport().Flush()\n") <<
                indent() << "  return" << endl <<
-               indent() << "}" << endl <<
-               indent() << "iprot.ReadMessageEnd()" << endl;
+               indent() << "}" << endl;
 
     if (!tfunction->is_oneway()) {
         f_service_ << indent() << "result := New" << resultname << "()" << endl;
-- 
2.43.0


From 049a80c31662319d1d599bfbb09771a7709ee9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:47 +0000
Subject: [PATCH 70/71] fix: listen on the network of the address

---
 lib/go/src/thrift/tserver_socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tserver_socket.go b/lib/go/src/thrift/tserver_socket.go
index 0d9fce9..fc2066e 100644
--- a/lib/go/src/thrift/tserver_socket.go
+++ b/lib/go/src/thrift/tserver_socket.go
@@ -101,7 +101,7 @@ func (p *TServerSocket) Listen() (err error) {
 
 func (p *TServerSocket) listen() (err error) {
 	if p.listener == nil {
-		if p.listener, err = net.Listen("tcp", p.addr.String()); err != nil {
+		if p.listener, err = net.Listen(p.addr.Network(), p.addr.String()); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From de972de62b6bf487d477fad6354a7cd7a27afdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:05 +0000
Subject: [PATCH 71/71] fix: flushing a stream transport flushes the stream
 behind its buffer too

---
 lib/go/src/thrift/tiostream_transport.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 10c4c6c..b23e242 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -233,5 +233,11 @@ func (p *TIOStreamTransport) Flush() error {
 			return NewTTransportExceptionFromOsError(err)
 		}
 	}
+	// the stream behind the buffer may have a buffer of its own
+	if f, ok = p.sink.(Flusher); ok && p.sink != p.Writer {
+		if err := f.Flush(); err != nil {
+			return NewTTransportExceptionFromOsError(err)
+		}
+	}
 	return nil
 }
-- 
2.43.0

