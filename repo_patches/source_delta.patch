From da5e3e1806c0af03747971fec25998325fdfed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 01/58] fix: WriteAny(nil) wrote the nil marker twice

---
 go/msgpack/encoder.go | 3 ---
 go/msgpack/sizer.go   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 2fd74c0..ebe87d2 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -312,9 +312,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fc83c0..17e3fe6 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -276,9 +276,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From 25df722a06d5bdb75e2e4028bd3284e3722b4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 02/58] fix: Encoder.WriteAny dropped time values the Sizer
 accounts for

---
 go/msgpack/encoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index ebe87d2..5e380eb 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -345,6 +345,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -359,6 +361,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From f4297b7c62d7ea60bdceaad8e0c3cb78c0143550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 03/58] fix: Sizer overestimated 255 byte binaries by one byte

---
 go/msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 17e3fe6..e409960 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -115,7 +115,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From 7180f657dc5cda75a676077c03e58cdf05b25c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 04/58] fix: length check overflowed and let oversized lengths
 through

---
 go/msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index 4240605..eb2c84b 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if uint64(d.byteOffset)+uint64(length) > uint64(len(d.buffer)) {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From a18beb453e9d0e48f9df8a3e73255e6a69776371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 05/58] fix: ext lengths are raw big-endian integers, not
 msgpack values

---
 go/msgpack/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 85af61f..2b315d3 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -886,13 +886,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From d9bf1dbeb1739dc410f4efb5d11a4b05a9e1d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 06/58] fix: Skip miscounted ext values, ignored truncation and
 recursed per nesting level

---
 go/msgpack/decoder.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 2b315d3..7fc130e 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -590,27 +590,27 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
+	// Nested objects are counted rather than recursed into so that the
+	// nesting depth of the input does not determine the stack depth.
+	numberOfObjectsToDiscard := uint64(1)
 
 	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+		nested, err := d.getSize()
 		if err != nil {
 			return err
 		}
+		numberOfObjectsToDiscard += nested
 		numberOfObjectsToDiscard--
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
@@ -618,9 +618,9 @@ func (d *Decoder) getSize() (uint32, error) {
 		strLen := uint32(leadByte & 0x1f)
 		d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -664,7 +664,7 @@ func (d *Decoder) getSize() (uint32, error) {
 		case FormatUint64, FormatInt64:
 			d.reader.Discard(8)
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			d.reader.Discard(2)
 		case FormatFixExt2:
 			d.reader.Discard(3)
 		case FormatFixExt4:
@@ -673,36 +673,45 @@ func (d *Decoder) getSize() (uint32, error) {
 			d.reader.Discard(9)
 		case FormatFixExt16:
 			d.reader.Discard(17)
+		case FormatExt8, FormatExt16, FormatExt32:
+			_, length, err := d.extHeader(leadByte)
+			if err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(length)
+			if err != nil {
+				return 0, err
+			}
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
 	}
 
-	return objectsToDiscard, nil
+	return objectsToDiscard, d.reader.Err()
 }
 
 func (d *Decoder) ReadAny() (any, error) {
-- 
2.43.0


From 4e564606eb33d4842cdcc9ed54b363ce56b35bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 07/58] fix: ReadAny trusted the input for allocation size,
 nesting depth and map key types

---
 go/msgpack/data_reader.go |  4 ++++
 go/msgpack/decoder.go     | 41 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index eb2c84b..3e28e51 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -248,6 +248,10 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	return nil
 }
 
+func (d *DataReader) remaining() uint64 {
+	return uint64(len(d.buffer)) - uint64(d.byteOffset)
+}
+
 func (d *DataReader) Err() error {
 	return d.err
 }
diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 7fc130e..8bd316b 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -7,8 +7,12 @@ import (
 	"time"
 )
 
+// maxDepth bounds how deeply ReadAny follows nested arrays and maps.
+const maxDepth = 10000
+
 type Decoder struct {
 	reader DataReader
+	depth  uint32
 }
 
 func NewDecoder(buffer []byte) Decoder {
@@ -731,6 +735,9 @@ func (d *Decoder) ReadAny() (any, error) {
 
 	if isFixedArray(prefix) {
 		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
+		if err := d.enter(uint64(aryLen)); err != nil {
+			return nil, err
+		}
 		ary := make([]any, aryLen)
 		err := d.readArray(ary)
 		return ary, err
@@ -738,6 +745,9 @@ func (d *Decoder) ReadAny() (any, error) {
 
 	if isFixedMap(prefix) {
 		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
+		if err := d.enter(2 * uint64(mapLen)); err != nil {
+			return nil, err
+		}
 		m := make(map[any]any, mapLen)
 		err := d.readMap(m, mapLen)
 		return m, err
@@ -784,6 +794,9 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
+		if err := d.enter(uint64(v)); err != nil {
+			return nil, err
+		}
 		ary := make([]any, v)
 		err = d.readArray(ary)
 		return ary, err
@@ -792,6 +805,9 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
+		if err := d.enter(uint64(v)); err != nil {
+			return nil, err
+		}
 		ary := make([]any, v)
 		err = d.readArray(ary)
 		return ary, err
@@ -800,6 +816,9 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
+		if err := d.enter(2 * uint64(v)); err != nil {
+			return nil, err
+		}
 		m := make(map[any]any, v)
 		err = d.readMap(m, uint32(v))
 		return m, err
@@ -808,6 +827,9 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
+		if err := d.enter(2 * uint64(v)); err != nil {
+			return nil, err
+		}
 		m := make(map[any]any, v)
 		err = d.readMap(m, v)
 		return m, err
@@ -834,7 +856,21 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad value for bool"}
 }
 
+// enter begins decoding a container of `count` objects. Every object occupies
+// at least one byte, so larger counts cannot be satisfied by the input.
+func (d *Decoder) enter(count uint64) error {
+	if count > d.reader.remaining() {
+		return ErrRange
+	}
+	if d.depth >= maxDepth {
+		return ReadError{"nesting too deep"}
+	}
+	d.depth++
+	return nil
+}
+
 func (d *Decoder) readArray(array []any) error {
+	defer func() { d.depth-- }()
 	for i := 0; i < len(array); i++ {
 		value, err := d.ReadAny()
 		if err != nil {
@@ -846,11 +882,16 @@ func (d *Decoder) readArray(array []any) error {
 }
 
 func (d *Decoder) readMap(m map[any]any, length uint32) error {
+	defer func() { d.depth-- }()
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
 			return err
 		}
+		switch key.(type) {
+		case []byte, []any, map[any]any:
+			return ReadError{"bad type for map key"}
+		}
 		value, err := d.ReadAny()
 		if err != nil {
 			return err
-- 
2.43.0


From eddf6d909c277f10f24969b4d6d1b17d1ffbd6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 08/58] fix: ReadAny rejected the times WriteAny encodes

---
 go/msgpack/decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 8bd316b..7db5a6d 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -394,6 +394,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTimeExt(prefix)
+}
+
+func (d *Decoder) readTimeExt(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -851,6 +855,10 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		// Times are the only extension type that is encoded.
+		return d.readTimeExt(prefix)
 	}
 
 	return nil, ReadError{"bad value for bool"}
-- 
2.43.0


From 51b283d92b26208430ac4b376a3e9419e42ad4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 09/58] fix: converting an absent optional value dereferenced
 nil

---
 go/msgpack/convert/convert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/msgpack/convert/convert.go b/go/msgpack/convert/convert.go
index 455fc93..9a26284 100644
--- a/go/msgpack/convert/convert.go
+++ b/go/msgpack/convert/convert.go
@@ -71,6 +71,9 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -80,6 +83,9 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -95,6 +101,9 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
-- 
2.43.0


From 5971b9326403376eb28d009be903d18ed4333aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 10/58] fix: WriteAny silently dropped values of unsupported
 types

---
 go/msgpack/codec.go       | 3 +++
 go/msgpack/data_reader.go | 1 +
 go/msgpack/encoder.go     | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/go/msgpack/codec.go b/go/msgpack/codec.go
index 8e39093..c564c01 100644
--- a/go/msgpack/codec.go
+++ b/go/msgpack/codec.go
@@ -18,6 +18,9 @@ func ToBytes(codec Codec) ([]byte, error) {
 	if err := codec.Encode(&encoder); err != nil {
 		return nil, err
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return buffer, nil
 }
 
diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index 3e28e51..830de48 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -7,6 +7,7 @@ import (
 )
 
 var ErrRange = errors.New("range error")
+var ErrUnsupportedType = errors.New("unsupported type")
 
 type DataReader struct {
 	buffer     []byte
diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 5e380eb..7b9f407 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -520,6 +520,11 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteAny(k)
 			e.WriteAny(v)
 		}
+	default:
+		// Writing nothing would leave the enclosing value malformed.
+		if e.reader.err == nil {
+			e.reader.err = ErrUnsupportedType
+		}
 	}
 }
 
-- 
2.43.0


From 6f868a838fe286e1eb1157384acc10ca44ca89fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 11/58] fix: truncated frames made Decode panic

---
 go/internal/frames/error.go           |  3 +++
 go/internal/frames/payload.go         | 10 ++++------
 go/internal/frames/request_n.go       |  3 +++
 go/internal/frames/request_payload.go | 13 +++++++------
 go/internal/frames/util.go            | 19 +++++++++++++++++++
 5 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/go/internal/frames/error.go b/go/internal/frames/error.go
index f6966b6..07271e1 100644
--- a/go/internal/frames/error.go
+++ b/go/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncated
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/go/internal/frames/payload.go b/go/internal/frames/payload.go
index 6a6b18b..b692db7 100644
--- a/go/internal/frames/payload.go
+++ b/go/internal/frames/payload.go
@@ -32,12 +32,10 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = readMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = Payload{
diff --git a/go/internal/frames/request_n.go b/go/internal/frames/request_n.go
index 636df9d..dedc01b 100644
--- a/go/internal/frames/request_n.go
+++ b/go/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncated
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index f9095c1..045fd55 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return ErrTruncated
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,12 +50,10 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = readMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = RequestPayload{
diff --git a/go/internal/frames/util.go b/go/internal/frames/util.go
index d962f97..84bdfac 100644
--- a/go/internal/frames/util.go
+++ b/go/internal/frames/util.go
@@ -2,10 +2,29 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
+// ErrTruncated is returned when a frame is shorter than its contents claim.
+var ErrTruncated = errors.New("truncated frame")
+
 var emptyBuffer = []byte{}
 
+// readMetadata splits payload into its length prefixed metadata and the rest.
+func readMetadata(payload []byte) (metadata, data []byte, err error) {
+	if len(payload) < 3 {
+		return nil, nil, ErrTruncated
+	}
+	var mdLengthBuf [4]byte
+	copy(mdLengthBuf[1:], payload[0:3])
+	mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
+	payload = payload[3:]
+	if uint64(mdLength) > uint64(len(payload)) {
+		return nil, nil, ErrTruncated
+	}
+	return payload[:mdLength], payload[mdLength:], nil
+}
+
 func readString(payload []byte) (string, []byte) {
 	strLen := binary.BigEndian.Uint16(payload[:2])
 	payload = payload[2:]
-- 
2.43.0


From 6a23cb56b9d9d0ff237042f76ae6607582337b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 12/58] fix: fragmented requests were sent without the follows
 flag

---
 go/internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index 045fd55..e11e257 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -73,6 +73,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	payload := buf
 	metadataLen := uint32(len(f.Metadata))
 	var flags FrameFlag
+	if f.Follows {
+		flags |= FlagFollow
+	}
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
-- 
2.43.0


From 38ac5f90a3098723004ab54419a78c07b212f3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 13/58] fix: malformed operation tables made FromBytes panic

---
 go/operations/operatons.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/go/operations/operatons.go b/go/operations/operatons.go
index bca2fb2..7e037d1 100644
--- a/go/operations/operatons.go
+++ b/go/operations/operatons.go
@@ -62,12 +62,16 @@ func (d Direction) String() string {
 // Magic is the 4 byte preamble (literally "\0wrs") of the binary format
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
+var ErrTruncated = errors.New("truncated operation table")
 
 func FromBytes(buf []byte) (Table, error) {
-	if !bytes.Equal(buf[0:4], Magic) {
+	if !bytes.HasPrefix(buf, Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
 	buf = buf[4:]
+	if len(buf) < 6 {
+		return nil, ErrTruncated
+	}
 
 	// Read version.
 	version := binary.BigEndian.Uint16(buf)
@@ -76,18 +80,31 @@ func FromBytes(buf []byte) (Table, error) {
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	// Every operation occupies at least 12 bytes.
+	if uint64(numOps)*12 > uint64(len(buf)) {
+		return nil, ErrTruncated
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < 8 {
+			return nil, ErrTruncated
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
 		nsLen := binary.BigEndian.Uint16(buf[6:8])
 		buf = buf[8:]
+		if len(buf) < int(nsLen)+2 {
+			return nil, ErrTruncated
+		}
 		ns := string(buf[:nsLen])
 		buf = buf[nsLen:]
 		opLen := binary.BigEndian.Uint16(buf[0:2])
 		buf = buf[2:]
+		if len(buf) < int(opLen)+2 {
+			return nil, ErrTruncated
+		}
 		op := string(buf[:opLen])
 		buf = buf[opLen:]
 		operations[i] = Operation{
@@ -98,7 +115,11 @@ func FromBytes(buf []byte) (Table, error) {
 			Operation: op,
 		}
 		reservedLen := binary.BigEndian.Uint16(buf)
-		buf = buf[2+reservedLen:] // Reserved
+		buf = buf[2:]
+		if len(buf) < int(reservedLen) {
+			return nil, ErrTruncated
+		}
+		buf = buf[reservedLen:] // Reserved
 	}
 
 	return operations, nil
-- 
2.43.0


From 27aa5508684a192fba394bc39a409915fd3bbc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 14/58] fix: PortIO.Decode panicked on truncated input

---
 go/invoke/portio.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 0f787ce..0d818e4 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -2,6 +2,7 @@ package invoke
 
 import (
 	"encoding/binary"
+	"io"
 	"strings"
 )
 
@@ -13,12 +14,18 @@ type PortIO struct {
 }
 
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return io.ErrUnexpectedEOF
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
 	portLength := binary.BigEndian.Uint16(data)
 	data = data[2:]
+	if int(portLength) > len(data) {
+		return io.ErrUnexpectedEOF
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From 7394c48db9cde0c9899b16668cf9a0d8fd4d076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 15/58] fix: PortIO next and complete flags shared one bit

---
 go/invoke/portio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 0d818e4..1f93bf3 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -78,7 +78,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From 4945463e2498e1045365fdaa3dd3936a50aa389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 16/58] fix: Just and Error sources never signalled Finally,
 hanging Block on mapped ones

---
 go/rx/flux/flux.go | 3 +++
 go/rx/mono/mono.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 864f7e5..36c7efb 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From 9323fdb053da582539119c188066cebbbcfc06f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 17/58] fix: mono.Map reported completion to Finally after a
 failed transform

---
 go/rx/mono/mono.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 047ccc6..be18908 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -215,10 +215,21 @@ type mapper[S any, D any] struct {
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	failed := false
+	var finally rx.FnFinally
+	if sub.Finally != nil {
+		finally = func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			sub.Finally(signal)
+		}
+	}
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
 			if err != nil {
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -230,7 +241,7 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally:   finally,
 	})
 	return b
 }
-- 
2.43.0


From 1204288069fbd6523187966dac8aa0620be7179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 18/58] fix: cancelling a flux signalled Finally again and kept
 requesting items

---
 go/rx/flux/flux.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 36c7efb..5fb9a11 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -196,6 +196,9 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	if s.closed {
+		return
+	}
 	s.n += n
 	if s.sub.Request != nil {
 		s.doRequest(n)
@@ -203,13 +206,14 @@ func (s *subscriber[T]) Request(n int) {
 }
 
 func (s *subscriber[T]) Cancel() {
+	if s.closed {
+		return
+	}
 	s.closed = true
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
-	}
+	s.finally(rx.SignalCancel)
 }
 
 func (s *subscriber[T]) Close() {
-- 
2.43.0


From 99509be76d57e0ce72e4b0ea340521ad46708192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 19/58] fix: flux.Map kept delivering signals after a failed
 transform

---
 go/rx/flux/flux.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 5fb9a11..f4cee74 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -216,10 +216,6 @@ func (s *subscriber[T]) Cancel() {
 	s.finally(rx.SignalCancel)
 }
 
-func (s *subscriber[T]) Close() {
-	s.closed = true
-}
-
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
 	return mapper[S, D]{
 		f:  f,
@@ -232,16 +228,23 @@ type mapper[S, D any] struct {
 	tx rx.Transform[S, D]
 }
 
-type closable[T any] interface {
-	Close()
-}
-
 func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	failed := false
+	var finally rx.FnFinally
+	if sub.Finally != nil {
+		finally = func(signal rx.SignalType) {
+			// Already signalled when the transform failed.
+			if !failed {
+				sub.Finally(signal)
+			}
+		}
+	}
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
+				failed = true
+				if s := m.f.Subscription(); s != nil {
+					s.Cancel()
 				}
 				if sub.OnError != nil {
 					sub.OnError(err)
@@ -256,7 +259,7 @@ func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 		OnComplete: sub.OnComplete,
 		OnError:    sub.OnError,
 		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
+		Finally:    finally,
 		NoRequest:  sub.NoRequest,
 	})
 	return m
-- 
2.43.0


From 0b4a8815026d0969243e24d5b3821cf3b57e62d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 20/58] fix: Block on an unsubscribed flux dereferenced nil

---
 go/rx/flux/flux_host.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index bdf98f5..fca9dd0 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -26,7 +26,7 @@ func (s *subscriber[T]) doRequest(n int) {
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
+	if f.subscriber != nil && f.subscriber.closed {
 		return f.subscriber.err
 	}
 
-- 
2.43.0


From c555f3f7479ceb85fb8edc7e0fe07702aa270178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 21/58] fix: Flow reran a step whose awaitables had already
 completed

---
 go/rx/flow/flow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/rx/flow/flow.go b/go/rx/flow/flow.go
index 874f617..6ded22d 100644
--- a/go/rx/flow/flow.go
+++ b/go/rx/flow/flow.go
@@ -105,13 +105,13 @@ func (f *Flow[T]) next() {
 		return
 	}
 
+	// Advance first since completed awaitables notify immediately.
+	f.steps = f.steps[1:]
 	f.awaitables = awaitables
 	for _, a := range f.awaitables {
 		a.Async() // Ensure task is running.
 		a.Notify(f.check)
 	}
-
-	f.steps = f.steps[1:]
 }
 
 func (f *Flow[T]) check(rx.SignalType) {
-- 
2.43.0


From 5db1d61cd063df70006866f1ccde83915ee04454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 22/58] fix: removing the first stream left it registered

---
 go/proxy/lookup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 3dddd04..0211127 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -58,9 +58,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From 40fc1df77d2d6e71985c9c0c9245120430fad68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 23/58] fix: stream lookups raced with registrations

---
 go/proxy/lookup.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 0211127..58eeb58 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -16,6 +16,9 @@ type (
 )
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
-- 
2.43.0


From 30914461b56d81118be08437a1a74e67bfb76062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 24/58] fix: RequestN for a stream without a subscribed input
 crashed

---
 go/proxy/flux.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 6f0f588..09be6c1 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -38,6 +39,10 @@ type streamFlux struct {
 	register   func(Stream)
 	first      bool
 	complete   bool
+
+	mu       sync.Mutex
+	inSub    rx.Subscription
+	inDemand int
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -59,6 +64,7 @@ func (s *streamFlux) OnComplete() {
 
 func (s *streamFlux) OnError(err error) {
 	s.Processor.Error(err)
+	s.complete = true
 }
 
 func (s *streamFlux) Async() {
@@ -106,6 +112,14 @@ func (s *streamFlux) Request(n int) {
 				},
 				NoRequest: true,
 			})
+
+			s.mu.Lock()
+			s.inSub = s.in.Subscription()
+			n := s.inDemand
+			s.mu.Unlock()
+			if n > 0 && s.inSub != nil {
+				s.inSub.Request(n)
+			}
 		}
 	} else {
 		s.sendFrame(&frames.RequestN{
@@ -122,8 +136,16 @@ func (s *streamFlux) Cancel() {
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.mu.Lock()
+	sub := s.inSub
+	if sub == nil {
+		// Not subscribed yet, remember the demand until then.
+		s.inDemand += n
+	}
+	s.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
-- 
2.43.0


From 954f4e869172b55ede86b48b51ac6e179e426e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 25/58] fix: frames a responder stream cannot take crashed the
 process

---
 go/handler/handler.go                | 60 ++++++++++++++++++++--------
 go/transport/wasmrs/guest/guest.go   | 60 ++++++++++++++++++++--------
 go/transport/wasmrs/host/instance.go | 59 +++++++++++++++++++--------
 3 files changed, 131 insertions(+), 48 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index d0ed8ea..264630b 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -158,8 +159,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
 		str.OnComplete()
@@ -304,7 +306,7 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
+	s := requestStream{ctx: ctx, streamID: streamID, demand: int(initialN)}
 	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
@@ -331,9 +333,7 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.start(f.Subscription())
 }
 
 func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
@@ -352,7 +352,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
+	s := requestStream{ctx: ctx, streamID: streamID, demand: int(initialN)}
 	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
 		s.sink = sink
@@ -394,9 +394,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.start(f.Subscription())
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -682,6 +680,9 @@ type requestStream struct {
 	flux.Sink[payload.Payload]
 	sub  rx.Subscription
 	sink flux.Sink[payload.Payload]
+
+	mu     sync.Mutex
+	demand int
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -694,22 +695,49 @@ func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+// start binds the stream to the subscription of the response
+// and requests the demand accumulated so far.
+func (r *requestStream) start(sub rx.Subscription) {
+	r.mu.Lock()
+	r.sub = sub
+	n := r.demand
+	r.demand = 0
+	r.mu.Unlock()
+
+	if sub != nil && n > 0 {
+		sub.Request(n)
+	}
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		// Not subscribed yet, remember the demand until then.
+		r.demand += n
+	}
+	r.mu.Unlock()
+
+	if sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	// Only channels receive payloads from the requester.
+	if r.sink != nil {
+		r.sink.Next(p)
+	}
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	if r.sink != nil {
+		r.sink.Complete()
+	}
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	if r.sink != nil {
+		r.sink.Error(err)
+	}
 }
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 92fffb0..c5fd5c2 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"reflect"
 	"strconv"
+	"sync"
 	"unsafe"
 
 	"github.com/nanobus/iota/go/internal/frames"
@@ -212,8 +213,9 @@ func GuestSend(endPos uint32) {
 				return
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
 			str.OnComplete()
@@ -369,7 +371,7 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
+	s := requestStream{ctx: ctx, streamID: streamID, demand: int(initialN)}
 	registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
@@ -396,9 +398,7 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.start(f.Subscription())
 }
 
 func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
@@ -417,7 +417,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
+	s := requestStream{ctx: ctx, streamID: streamID, demand: int(initialN)}
 	registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
 		s.sink = sink
@@ -459,9 +459,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.start(f.Subscription())
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -578,6 +576,9 @@ type requestStream struct {
 	flux.Sink[payload.Payload]
 	sub  rx.Subscription
 	sink flux.Sink[payload.Payload]
+
+	mu     sync.Mutex
+	demand int
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -590,24 +591,51 @@ func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+// start binds the stream to the subscription of the response
+// and requests the demand accumulated so far.
+func (r *requestStream) start(sub rx.Subscription) {
+	r.mu.Lock()
+	r.sub = sub
+	n := r.demand
+	r.demand = 0
+	r.mu.Unlock()
+
+	if sub != nil && n > 0 {
+		sub.Request(n)
+	}
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		// Not subscribed yet, remember the demand until then.
+		r.demand += n
+	}
+	r.mu.Unlock()
+
+	if sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	// Only channels receive payloads from the requester.
+	if r.sink != nil {
+		r.sink.Next(p)
+	}
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	if r.sink != nil {
+		r.sink.Complete()
+	}
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	if r.sink != nil {
+		r.sink.Error(err)
+	}
 }
 
 //go:inline
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 04dfbbb..1e16503 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -346,8 +346,9 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
 		str.OnComplete()
@@ -510,7 +511,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
+	s := requestStream{ctx: ctx, streamID: streamID, demand: int(initialN)}
 	i.registerStream(&s) // Need to register for RequestN frames
 	f := handlerRS(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -536,9 +537,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.start(f.Subscription())
 }
 
 func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
@@ -563,7 +562,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
+	s := requestStream{ctx: ctx, streamID: streamID, demand: int(initialN)}
 	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
 		s.sink = sink
@@ -605,9 +604,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.start(f.Subscription())
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
@@ -702,6 +699,9 @@ type requestStream struct {
 	flux.Sink[payload.Payload]
 	sub  rx.Subscription
 	sink flux.Sink[payload.Payload]
+
+	mu     sync.Mutex
+	demand int
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -714,22 +714,49 @@ func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+// start binds the stream to the subscription of the response
+// and requests the demand accumulated so far.
+func (r *requestStream) start(sub rx.Subscription) {
+	r.mu.Lock()
+	r.sub = sub
+	n := r.demand
+	r.demand = 0
+	r.mu.Unlock()
+
+	if sub != nil && n > 0 {
+		sub.Request(n)
+	}
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		// Not subscribed yet, remember the demand until then.
+		r.demand += n
+	}
+	r.mu.Unlock()
+
+	if sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	// Only channels receive payloads from the requester.
+	if r.sink != nil {
+		r.sink.Next(p)
+	}
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	if r.sink != nil {
+		r.sink.Complete()
+	}
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	if r.sink != nil {
+		r.sink.Error(err)
+	}
 }
-- 
2.43.0


From 4156b9965ea15f0148c16d8116ae9a08a72e4f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:16 +0000
Subject: [PATCH 26/58] fix: Cancel did not reach the producer of a stream

---
 go/handler/handler.go                | 31 +++++++++++++++++++++++++---
 go/transport/wasmrs/guest/guest.go   | 31 +++++++++++++++++++++++++---
 go/transport/wasmrs/host/instance.go | 31 +++++++++++++++++++++++++---
 3 files changed, 84 insertions(+), 9 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 264630b..d62c26e 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -164,6 +164,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		}
 
 	case *frames.Cancel:
+		if s, ok := str.(DoCancel); ok {
+			s.DoCancel()
+		}
 		str.OnComplete()
 		i.removeStream(streamID)
 
@@ -674,6 +677,10 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
+type DoCancel interface {
+	DoCancel()
+}
+
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
@@ -681,8 +688,9 @@ type requestStream struct {
 	sub  rx.Subscription
 	sink flux.Sink[payload.Payload]
 
-	mu     sync.Mutex
-	demand int
+	mu        sync.Mutex
+	demand    int
+	cancelled bool
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -702,9 +710,15 @@ func (r *requestStream) start(sub rx.Subscription) {
 	r.sub = sub
 	n := r.demand
 	r.demand = 0
+	cancelled := r.cancelled
 	r.mu.Unlock()
 
-	if sub != nil && n > 0 {
+	if sub == nil {
+		return
+	}
+	if cancelled {
+		sub.Cancel()
+	} else if n > 0 {
 		sub.Request(n)
 	}
 }
@@ -723,6 +737,17 @@ func (r *requestStream) DoRequest(n int) {
 	}
 }
 
+func (r *requestStream) DoCancel() {
+	r.mu.Lock()
+	sub := r.sub
+	r.cancelled = true
+	r.mu.Unlock()
+
+	if sub != nil {
+		sub.Cancel()
+	}
+}
+
 func (r *requestStream) OnNext(p payload.Payload) {
 	// Only channels receive payloads from the requester.
 	if r.sink != nil {
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index c5fd5c2..e09b82e 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -218,6 +218,9 @@ func GuestSend(endPos uint32) {
 			}
 
 		case frames.FrameTypeCancel:
+			if s, ok := str.(DoCancel); ok {
+				s.DoCancel()
+			}
 			str.OnComplete()
 			removeStream(header.StreamID())
 
@@ -570,6 +573,10 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
+type DoCancel interface {
+	DoCancel()
+}
+
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
@@ -577,8 +584,9 @@ type requestStream struct {
 	sub  rx.Subscription
 	sink flux.Sink[payload.Payload]
 
-	mu     sync.Mutex
-	demand int
+	mu        sync.Mutex
+	demand    int
+	cancelled bool
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -598,9 +606,15 @@ func (r *requestStream) start(sub rx.Subscription) {
 	r.sub = sub
 	n := r.demand
 	r.demand = 0
+	cancelled := r.cancelled
 	r.mu.Unlock()
 
-	if sub != nil && n > 0 {
+	if sub == nil {
+		return
+	}
+	if cancelled {
+		sub.Cancel()
+	} else if n > 0 {
 		sub.Request(n)
 	}
 }
@@ -619,6 +633,17 @@ func (r *requestStream) DoRequest(n int) {
 	}
 }
 
+func (r *requestStream) DoCancel() {
+	r.mu.Lock()
+	sub := r.sub
+	r.cancelled = true
+	r.mu.Unlock()
+
+	if sub != nil {
+		sub.Cancel()
+	}
+}
+
 func (r *requestStream) OnNext(p payload.Payload) {
 	// Only channels receive payloads from the requester.
 	if r.sink != nil {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 1e16503..797bf99 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -351,6 +351,9 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 	case frames.FrameTypeCancel:
+		if s, ok := str.(DoCancel); ok {
+			s.DoCancel()
+		}
 		str.OnComplete()
 		i.removeStream(header.StreamID())
 
@@ -693,6 +696,10 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
+type DoCancel interface {
+	DoCancel()
+}
+
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
@@ -700,8 +707,9 @@ type requestStream struct {
 	sub  rx.Subscription
 	sink flux.Sink[payload.Payload]
 
-	mu     sync.Mutex
-	demand int
+	mu        sync.Mutex
+	demand    int
+	cancelled bool
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -721,9 +729,15 @@ func (r *requestStream) start(sub rx.Subscription) {
 	r.sub = sub
 	n := r.demand
 	r.demand = 0
+	cancelled := r.cancelled
 	r.mu.Unlock()
 
-	if sub != nil && n > 0 {
+	if sub == nil {
+		return
+	}
+	if cancelled {
+		sub.Cancel()
+	} else if n > 0 {
 		sub.Request(n)
 	}
 }
@@ -742,6 +756,17 @@ func (r *requestStream) DoRequest(n int) {
 	}
 }
 
+func (r *requestStream) DoCancel() {
+	r.mu.Lock()
+	sub := r.sub
+	r.cancelled = true
+	r.mu.Unlock()
+
+	if sub != nil {
+		sub.Cancel()
+	}
+}
+
 func (r *requestStream) OnNext(p payload.Payload) {
 	// Only channels receive payloads from the requester.
 	if r.sink != nil {
-- 
2.43.0


From b8c1ebe7fd23e9f1b2343c214a12911210fc962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 27/58] fix: responder streams stayed registered after they
 ended

---
 go/handler/handler.go                | 10 ++++------
 go/transport/wasmrs/guest/guest.go   |  4 +++-
 go/transport/wasmrs/host/instance.go |  3 +++
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index d62c26e..14200a3 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
@@ -113,10 +112,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// The stream has ended in the meantime.
 			return
 		}
 	}
@@ -288,7 +284,6 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 
 	p := payload.New(data, metadata[8:])
 	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p)
 }
@@ -334,6 +329,9 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 				Data:     err.Error(),
 			})
 		},
+		Finally: func(rx.SignalType) {
+			i.removeStream(streamID)
+		},
 		NoRequest: true,
 	})
 	s.start(f.Subscription())
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index e09b82e..18bd11d 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -353,7 +353,6 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 
 	p := payload.New(data, metadata[8:])
 	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p)
 }
@@ -399,6 +398,9 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 				Data:     err.Error(),
 			})
 		},
+		Finally: func(rx.SignalType) {
+			removeStream(streamID)
+		},
 		NoRequest: true,
 	})
 	s.start(f.Subscription())
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 797bf99..858d77a 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -538,6 +538,9 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 				Data:     err.Error(),
 			})
 		},
+		Finally: func(rx.SignalType) {
+			i.removeStream(streamID)
+		},
 		NoRequest: true,
 	})
 	s.start(f.Subscription())
-- 
2.43.0


From b0278f588ea36daa63b1bd74b0a338e149dc6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 28/58] fix: cancelled streams stayed registered

---
 go/handler/caller.go                | 4 ++--
 go/proxy/flux.go                    | 5 ++++-
 go/transport/wasmrs/guest/caller.go | 4 ++--
 go/transport/wasmrs/host/caller.go  | 4 ++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/go/handler/caller.go b/go/handler/caller.go
index ffe3524..d8cbecf 100644
--- a/go/handler/caller.go
+++ b/go/handler/caller.go
@@ -59,7 +59,7 @@ func (i *Handler) RequestStream(ctx context.Context, p payload.Payload) flux.Flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -69,7 +69,7 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) getNextStreamID() uint32 {
diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 09be6c1..1d48e59 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -10,7 +10,7 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
-func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream)) flux.Flux[payload.Payload] {
+func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) flux.Flux[payload.Payload] {
 	p := flux.NewProcessor[payload.Payload]()
 	ss := streamFlux{
 		ctx:       ctx,
@@ -19,6 +19,7 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		in:        in,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 		first:     true,
 	}
 	p.OnSubscribe(flux.OnSubscribe{
@@ -37,6 +38,7 @@ type streamFlux struct {
 	in         flux.Flux[payload.Payload]
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
+	remove     func(streamID uint32)
 	first      bool
 	complete   bool
 
@@ -130,6 +132,7 @@ func (s *streamFlux) Request(n int) {
 }
 
 func (s *streamFlux) Cancel() {
+	s.remove(s.request.StreamID)
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
diff --git a/go/transport/wasmrs/guest/caller.go b/go/transport/wasmrs/guest/caller.go
index aae5224..81d14fa 100644
--- a/go/transport/wasmrs/guest/caller.go
+++ b/go/transport/wasmrs/guest/caller.go
@@ -64,7 +64,7 @@ func (i *Caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, sendFrame, registerStream)
+	}, nil, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -75,7 +75,7 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, sendFrame, registerStream)
+	}, in, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) getNextStreamID() uint32 {
diff --git a/go/transport/wasmrs/host/caller.go b/go/transport/wasmrs/host/caller.go
index 08062d7..191a684 100644
--- a/go/transport/wasmrs/host/caller.go
+++ b/go/transport/wasmrs/host/caller.go
@@ -57,7 +57,7 @@ func (i *Instance) RequestStream(ctx context.Context, p payload.Payload) flux.Fl
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -67,7 +67,7 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) getNextStreamID() uint32 {
-- 
2.43.0


From 6bce4ed277c62b82ccb94399bee7b67c9a044665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 29/58] fix: a response completed without a payload never
 terminated

---
 go/proxy/mono.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/proxy/mono.go b/go/proxy/mono.go
index 793a2a6..94eefd3 100644
--- a/go/proxy/mono.go
+++ b/go/proxy/mono.go
@@ -44,7 +44,8 @@ func (s *streamMono) OnNext(p payload.Payload) {
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	// Completed without a payload, ignored if already terminated.
+	s.Processor.Success(payload.New(nil))
 }
 
 func (s *streamMono) OnError(err error) {
-- 
2.43.0


From e7998ded8434eb56a1c2ffce0aa06364fde9f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 30/58] fix: frames written concurrently to a TCP connection
 interleaved

---
 go/transport/rsocket/tcp_conn.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/tcp_conn.go b/go/transport/rsocket/tcp_conn.go
index 7d36c89..ce2df9c 100644
--- a/go/transport/rsocket/tcp_conn.go
+++ b/go/transport/rsocket/tcp_conn.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/nanobus/iota/go/internal/frames"
@@ -14,12 +15,13 @@ import (
 // TCPConn is RSocket connection for TCP transport.
 type TCPConn struct {
 	conn    net.Conn
+	mu      sync.Mutex // guards writer
 	writer  *bufio.Writer
 	decoder *LengthBasedFrameDecoder
 	// counter *core.TrafficCounter
 }
 
-func (p TCPConn) Addr() string {
+func (p *TCPConn) Addr() string {
 	addr := p.conn.RemoteAddr()
 	return addr.String()
 }
@@ -96,6 +98,9 @@ func (p *TCPConn) Read() (f frames.Frame, err error) {
 
 // Write writes a frame.
 func (p *TCPConn) Write(frame frames.Frame) (err error) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	size := frame.Size()
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
@@ -121,6 +126,9 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 
 // Flush flush data.
 func (p *TCPConn) Flush() (err error) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	err = p.writer.Flush()
 	if err != nil {
 		err = fmt.Errorf("flush failed: %w", err)
-- 
2.43.0


From e52f5ac43a509acfd4c03a321b1968977d03e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 31/58] fix: sending a frame over 16MiB crashed the process

---
 go/transport/rsocket/tcp_conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/tcp_conn.go b/go/transport/rsocket/tcp_conn.go
index ce2df9c..d5a1f81 100644
--- a/go/transport/rsocket/tcp_conn.go
+++ b/go/transport/rsocket/tcp_conn.go
@@ -105,7 +105,12 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err != nil {
+		err = fmt.Errorf("write frame failed: %w", err)
+		return
+	}
+	_, err = length.WriteTo(p.writer)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
-- 
2.43.0


From 879de4c15278ed0f02fc8731f74d332212249b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 32/58] fix: queued frames were overwritten by the following
 ones

---
 go/transport/rsocket/decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 7e9be2e..9309c6d 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -34,7 +34,10 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	// The scanner reuses its buffer, frames outlive it.
+	token := scanner.Bytes()[lengthFieldSize:]
+	raw = make([]byte, len(token))
+	copy(raw, token)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
-- 
2.43.0


From 9b78186939f998cce4687ae9fe0b3c222ed4f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 33/58] fix: frames read together with the end of the stream
 were dropped

---
 go/transport/rsocket/decoder.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 9309c6d..448f2db 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -45,9 +45,6 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0


From c7195d3bb6f8a6d840a4536946382fb7e64b7e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 34/58] fix: server transports leaked ended connections and
 listeners

---
 go/transport/rsocket/tcp_transport.go | 28 ++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/go/transport/rsocket/tcp_transport.go b/go/transport/rsocket/tcp_transport.go
index 20b9935..7ceafd6 100644
--- a/go/transport/rsocket/tcp_transport.go
+++ b/go/transport/rsocket/tcp_transport.go
@@ -52,12 +52,17 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
+	if !t.setListener(l) {
+		// Closed before listening.
+		notifier <- false
+		return l.Close()
+	}
 
 	defer func() {
 		_ = t.Close()
@@ -79,7 +84,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -97,17 +102,34 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
+			go func() {
+				defer t.removeTransport(tp)
+				tp.Start(ctx)
+			}()
 			go t.acceptor(ctx, h, func(tp *Transport) {
 				t.removeTransport(tp)
 			})
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
 	return
 }
 
+func (t *tcpServerTransport) setListener(l net.Listener) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	select {
+	case <-t.done:
+		// already closed
+		return false
+	default:
+		t.l = l
+		return true
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-- 
2.43.0


From 37527134dab332bd7de96e0d1c03ad48cfada5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:26 +0000
Subject: [PATCH 35/58] fix: mesh requests for an unknown operation returned
 nil

---
 go/transport/wasmrs/mesh/mesh.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 0ba06f8..92c00b9 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -3,6 +3,7 @@ package mesh
 import (
 	"context"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"os"
 	"sync/atomic"
@@ -37,6 +38,8 @@ type (
 	}
 )
 
+var errNotFound = errors.New("not_found")
+
 type Option func(*Mesh)
 
 func WithVerbose() Option {
@@ -62,12 +65,12 @@ func New(opts ...Option) *Mesh {
 func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
 	ns, ok := m.exports[namespace]
 	if !ok {
-		return nil
+		return mono.Error[payload.Payload](errNotFound)
 	}
 
 	ptr, ok := ns[operation]
 	if !ok {
-		return nil
+		return mono.Error[payload.Payload](errNotFound)
 	}
 	dest := ptr.Load()
 
@@ -92,12 +95,12 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
 	ns, ok := m.exports[namespace]
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](errNotFound)
 	}
 
 	ptr, ok := ns[operation]
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](errNotFound)
 	}
 	dest := ptr.Load()
 
@@ -107,12 +110,12 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
 	ns, ok := m.exports[namespace]
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](errNotFound)
 	}
 
 	ptr, ok := ns[operation]
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](errNotFound)
 	}
 	dest := ptr.Load()
 
-- 
2.43.0


From bf54d20b2f5bbc0bb4d6d124423804eb338b7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 36/58] fix: mesh requests with short metadata crashed the
 process

---
 go/transport/wasmrs/mesh/mesh.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 92c00b9..eef450c 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -265,7 +265,7 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 
 func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	return d.instance.RequestResponse(ctx, p)
@@ -273,7 +273,7 @@ func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mo
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	d.instance.FireAndForget(ctx, p)
@@ -281,7 +281,7 @@ func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	return d.instance.RequestStream(ctx, p)
@@ -289,7 +289,7 @@ func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	return d.instance.RequestChannel(ctx, p, in)
-- 
2.43.0


From 53cea56348bd2ef754906c607aeb9d4ec5d8b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 37/58] fix: imports kept calling the replaced instance of a
 module

---
 go/transport/wasmrs/mesh/mesh.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index eef450c..3e82277 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -247,7 +247,7 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
+	dest := route{dest: ptr}
 
 	switch op.Type {
 	case operations.RequestResponse:
@@ -263,6 +263,28 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	return true
 }
 
+// route forwards to the destination an operation currently has,
+// which changes when its module is loaded again.
+type route struct {
+	dest *atomic.Pointer[destination]
+}
+
+func (r route) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	return r.dest.Load().RequestResponse(ctx, p)
+}
+
+func (r route) FireAndForget(ctx context.Context, p payload.Payload) {
+	r.dest.Load().FireAndForget(ctx, p)
+}
+
+func (r route) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+	return r.dest.Load().RequestStream(ctx, p)
+}
+
+func (r route) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+	return r.dest.Load().RequestChannel(ctx, p, in)
+}
+
 func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
 	md := p.Metadata()
 	if len(md) >= 4 {
-- 
2.43.0


From c91240c2f40b9ac897d9bf68ea0088c3f02c7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 38/58] fix: operations of different types sharing a name
 replaced each other

---
 go/transport/wasmrs/mesh/mesh.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 3e82277..89b5ffa 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -23,10 +23,16 @@ type (
 	Mesh struct {
 		verbose     bool
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[string]map[operationKey]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	// Operations of different types may share a name.
+	operationKey struct {
+		requestType operations.RequestType
+		name        string
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -51,7 +57,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     map[string]map[operationKey]*atomic.Pointer[destination]{},
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -68,7 +74,7 @@ func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string,
 		return mono.Error[payload.Payload](errNotFound)
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[operationKey{operations.RequestResponse, operation}]
 	if !ok {
 		return mono.Error[payload.Payload](errNotFound)
 	}
@@ -83,7 +89,7 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 		return
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[operationKey{operations.FireAndForget, operation}]
 	if !ok {
 		return
 	}
@@ -98,7 +104,7 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 		return flux.Error[payload.Payload](errNotFound)
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[operationKey{operations.RequestStream, operation}]
 	if !ok {
 		return flux.Error[payload.Payload](errNotFound)
 	}
@@ -113,7 +119,7 @@ func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string,
 		return flux.Error[payload.Payload](errNotFound)
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[operationKey{operations.RequestChannel, operation}]
 	if !ok {
 		return flux.Error[payload.Payload](errNotFound)
 	}
@@ -196,13 +202,14 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		case operations.Export:
 			ns, ok := m.exports[op.Namespace]
 			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
+				ns = make(map[operationKey]*atomic.Pointer[destination])
 				m.exports[op.Namespace] = ns
 			}
-			ptr, ok := ns[op.Operation]
+			key := operationKey{op.Type, op.Operation}
+			ptr, ok := ns[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				ns[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -243,7 +250,7 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 		return false
 	}
 
-	ptr, ok := ns[op.Operation]
+	ptr, ok := ns[operationKey{op.Type, op.Operation}]
 	if !ok {
 		return false
 	}
-- 
2.43.0


From 2537d17b90653cf4291b1acb4931c220da2762d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 39/58] fix: server stream IDs wrapped around to the
 connection's ID 0

---
 go/internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/internal/socket/stream_id.go b/go/internal/socket/stream_id.go
index 974ab23..b25f404 100644
--- a/go/internal/socket/stream_id.go
+++ b/go/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From f23790446c195f0555dcfb73bb7573279048ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 40/58] fix: an undecodable frame dropped the frames after it

---
 go/transport/wasmrs/guest/guest.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 18bd11d..3476ab4 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -194,7 +194,7 @@ func GuestSend(endPos uint32) {
 					StreamID: rc.StreamID,
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
@@ -210,7 +210,7 @@ func GuestSend(endPos uint32) {
 					StreamID: rn.StreamID,
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
 			if s, ok := str.(DoRequest); ok {
-- 
2.43.0


From 33389272dcc2fb9bf93e1b3e63113a9efa5b5416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 41/58] fix: a truncated frame from the host crashed the guest

---
 go/transport/wasmrs/guest/guest.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 3476ab4..13d6732 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -107,16 +107,24 @@ func convertOperations(handlers []invoke.HandlerInfo, requestType operations.Req
 func GuestSend(endPos uint32) {
 	ctx := context.Background()
 	var lengthBuf [4]byte
-	curPos := uint32(0)
 	buf := guestBuffer
+	if endPos < uint32(len(buf)) {
+		buf = buf[:endPos]
+	}
 
-	for curPos < endPos {
+	for len(buf) >= 3 {
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		if int(frameLen) > len(buf)-3 {
+			println("Guest: truncated frame")
+			return
+		}
 		frameBuf := make([]byte, frameLen)
 		copy(frameBuf, buf[3:])
-		curPos += 3 + frameLen
 		buf = buf[3+frameLen:]
+		if frameLen < frames.FrameHeaderLen {
+			continue
+		}
 
 		// lengthPos = 1 // Reset for next frame
 		header := frames.ParseFrameHeader(frameBuf)
-- 
2.43.0


From 6580ccf3729a1c9eeff5683c78eb37a3ca51a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 42/58] fix: sending a frame over the buffer size crashed the
 guest

---
 go/transport/wasmrs/guest/guest.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 13d6732..c2943ae 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -36,6 +36,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errFrameTooLarge = errors.New("frame exceeds the host buffer")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -566,17 +568,20 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	doSendFrame(f)
-	return nil
+	return doSendFrame(f)
 }
 
-func doSendFrame(f frames.Frame) {
+func doSendFrame(f frames.Frame) error {
 	byteLength := f.Size()
+	if uint64(byteLength)+3 > uint64(len(hostBuffer)) {
+		return errFrameTooLarge
+	}
 	var length [4]byte
 	binary.BigEndian.PutUint32(length[0:4], byteLength)
 	copy(hostBuffer[0:3], length[1:4])
 	f.Encode(hostBuffer[3:])
 	hostSend(byteLength + 3)
+	return nil
 }
 
 type DoRequest interface {
-- 
2.43.0


From 9d97a988b29da0056470ca33d5b8d9ee90697acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 43/58] fix: frames from the guest were overwritten or read out
 of bounds

---
 go/transport/wasmrs/host/instance.go | 34 +++++++++++++---------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 858d77a..0aad626 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -1,7 +1,6 @@
 package host
 
 import (
-	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
@@ -25,7 +24,7 @@ type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendCh    chan frames.Frame
-	recvCh    chan *bytes.Buffer //[]byte
+	recvCh    chan []byte
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -74,7 +73,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		ctx:    ctx,
 		m:      m,
 		sendCh: make(chan frames.Frame, 100),
-		recvCh: make(chan *bytes.Buffer, 100),
+		recvCh: make(chan []byte, 100),
 		sendFn: send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
@@ -211,12 +210,6 @@ func (i *Instance) sendLoop() {
 	}
 }
 
-var buffers = sync.Pool{
-	New: func() interface{} {
-		return new(bytes.Buffer)
-	},
-}
-
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -230,29 +223,34 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
 
-	for len(buffer) > 0 {
+	for len(buffer) >= 3 {
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
-		buf := buffers.Get().(*bytes.Buffer)
-		buf.Reset()
-		buf.Write(buffer)
-		i.recvCh <- buf
+		if int(frameLength) > len(buffer) {
+			fmt.Println("Host: truncated frame")
+			return
+		}
+		// The guest reuses its memory, frames outlive the call.
+		data := make([]byte, frameLength)
+		copy(data, buffer)
+		i.recvCh <- data
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
-		i.recvOne(buf.Bytes())
-		buf.Reset()
-		buffers.Put(buf)
+	for data := range i.recvCh {
+		i.recvOne(data)
 	}
 }
 
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
+	if len(data) < frames.FrameHeaderLen {
+		return
+	}
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
 
-- 
2.43.0


From 1ef1a1e1e9c7266e09b24bec051e8ed7ca14af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 44/58] fix: closing an instance crashed its senders and
 receivers

---
 go/transport/wasmrs/host/instance.go | 81 +++++++++++++++++-----------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 0aad626..15dfae0 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -25,6 +25,8 @@ type Instance struct {
 	m         api.Module
 	sendCh    chan frames.Frame
 	recvCh    chan []byte
+	done      chan struct{}
+	closeOnce sync.Once
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -58,6 +60,8 @@ type fragmentedPayload struct {
 	data      []byte
 }
 
+var errClosed = errors.New("instance closed")
+
 type instanceKey struct{}
 
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
@@ -74,6 +78,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		m:      m,
 		sendCh: make(chan frames.Frame, 100),
 		recvCh: make(chan []byte, 100),
+		done:   make(chan struct{}),
 		sendFn: send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
@@ -101,8 +106,9 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 }
 
 func (i *Instance) Close() error {
-	close(i.sendCh)
-	close(i.recvCh)
+	i.closeOnce.Do(func() {
+		close(i.done)
+	})
 	return nil
 }
 
@@ -135,19 +141,17 @@ func (i *Instance) getStream(streamID uint32) (proxy.Stream, bool) {
 }
 
 func (i *Instance) SendFrame(f frames.Frame) error {
-	// if frag, ok := f.(frames.Fragmentable); ok {
-	// 	if frames := frag.Fragment(i.maxFrameSize); frames != nil {
-	// 		for _, f := range frames {
-	// 			i.sendCh <- f
-	// 		}
-	// 	} else {
-	// 		i.sendCh <- f
-	// 	}
-	// } else {
-	// 	i.sendCh <- f
-	// }
-	i.sendCh <- f
-	return nil
+	select {
+	case <-i.done:
+		return errClosed
+	default:
+	}
+	select {
+	case i.sendCh <- f:
+		return nil
+	case <-i.done:
+		return errClosed
+	}
 }
 
 func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
@@ -191,22 +195,26 @@ func (i *Instance) sendLoop() {
 		count++
 	}
 
-	for f := range i.sendCh {
-		write(f)
-		loop := true
-		for loop {
-			select {
-			case f := <-i.sendCh:
-				write(f)
-			default:
-				if pos > 0 {
-					i.sendFn.Call(ctx, uint64(pos))
-					pos = 0
-					count = 0
-				}
-				loop = false
+	for {
+		select {
+		case f := <-i.sendCh:
+			write(f)
+			continue
+		default:
+			if pos > 0 {
+				// fmt.Println("send", count)
+				i.sendFn.Call(ctx, uint64(pos))
+				pos = 0
+				count = 0
 			}
 		}
+
+		select {
+		case f := <-i.sendCh:
+			write(f)
+		case <-i.done:
+			return
+		}
 	}
 }
 
@@ -235,14 +243,23 @@ func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 		// The guest reuses its memory, frames outlive the call.
 		data := make([]byte, frameLength)
 		copy(data, buffer)
-		i.recvCh <- data
+		select {
+		case i.recvCh <- data:
+		case <-i.done:
+			return
+		}
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for data := range i.recvCh {
-		i.recvOne(data)
+	for {
+		select {
+		case data := <-i.recvCh:
+			i.recvOne(data)
+		case <-i.done:
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 6fe98e1aa039b03099c6900999a6e684d208e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 45/58] fix: sending a frame over the buffer size crashed the
 host

---
 go/transport/wasmrs/host/instance.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 15dfae0..f55849c 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -60,7 +60,10 @@ type fragmentedPayload struct {
 	data      []byte
 }
 
-var errClosed = errors.New("instance closed")
+var (
+	errClosed        = errors.New("instance closed")
+	errFrameTooLarge = errors.New("frame exceeds the guest buffer")
+)
 
 type instanceKey struct{}
 
@@ -141,6 +144,9 @@ func (i *Instance) getStream(streamID uint32) (proxy.Stream, bool) {
 }
 
 func (i *Instance) SendFrame(f frames.Frame) error {
+	if uint64(f.Size())+3 > uint64(i.sendSize) {
+		return errFrameTooLarge
+	}
 	select {
 	case <-i.done:
 		return errClosed
-- 
2.43.0


From 370532cc377c70582c235e986a1d7c58713a2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 46/58] fix: a guest with buffers outside its memory crashed
 the host

---
 go/transport/wasmrs/host/instance.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index f55849c..9527555 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -176,8 +176,11 @@ func (i *Instance) sendLoop() {
 		// Make sure to obtain the buffer
 		// in case it changed size via grow/shrink.
 		if pos == 0 {
+			var ok bool
 			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+			if buf, ok = mem.Read(i.sendPtr, i.sendSize); !ok {
+				return
+			}
 		}
 
 		byteCount := f.Size()
@@ -188,8 +191,11 @@ func (i *Instance) sendLoop() {
 			i.sendFn.Call(ctx, uint64(pos))
 			pos = 0
 			count = 0
+			var ok bool
 			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+			if buf, ok = mem.Read(i.sendPtr, i.sendSize); !ok {
+				return
+			}
 		}
 
 		// Encode length and frame data.
@@ -229,13 +235,19 @@ func (i *Instance) Operations() operations.Table {
 }
 
 func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
-	buf, _ := i.m.Memory().Read(opPtr, opSize)
+	buf, ok := i.m.Memory().Read(opPtr, opSize)
+	if !ok {
+		return
+	}
 	operations, _ := operations.FromBytes(buf)
 	i.operations = operations
 }
 
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
+	buffer, ok := i.m.Memory().Read(i.recvPtr, recvPos)
+	if !ok {
+		return
+	}
 
 	for len(buffer) >= 3 {
 		var length [4]byte
-- 
2.43.0


From d98271ded419f562f753629ee85bce526e3126ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 47/58] fix: transforms returned truncated payloads instead of
 encoding errors

---
 go/transform/transform.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/go/transform/transform.go b/go/transform/transform.go
index a4fa130..be015d8 100644
--- a/go/transform/transform.go
+++ b/go/transform/transform.go
@@ -306,10 +306,17 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
 	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
+	if err := value.Encode(&sizer); err != nil {
+		return nil, err
+	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	if err := value.Encode(&encoder); err != nil {
+		return nil, err
+	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
@@ -394,14 +401,21 @@ func SliceEncode[T any, P MsgPackCodecPtr[T]](items []T) (payload.Payload, error
 	sizer.WriteArraySize(uint32(len(items)))
 	for _, v := range items {
 		p := P(&v)
-		p.Encode(&sizer)
+		if err := p.Encode(&sizer); err != nil {
+			return nil, err
+		}
 	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
 	encoder.WriteArraySize(uint32(len(items)))
 	for _, v := range items {
 		p := P(&v)
-		p.Encode(&encoder)
+		if err := p.Encode(&encoder); err != nil {
+			return nil, err
+		}
+	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
 	}
 	return payload.New(buf), nil
 }
-- 
2.43.0


From 2354dad694a9e2175bdb4ef633a4d5426b025702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 48/58] fix: SliceDecode ignored errors and trusted the size it
 was given

---
 go/transform/transform.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/go/transform/transform.go b/go/transform/transform.go
index be015d8..be7adc6 100644
--- a/go/transform/transform.go
+++ b/go/transform/transform.go
@@ -382,16 +382,24 @@ func StringEncode[T ~string](val T) (payload.Payload, error) {
 
 func SliceDecode[T any, P MsgPackCodecPtr[T]](raw payload.Payload) ([]T, error) {
 	decoder := msgpack.NewDecoder(raw.Data())
-	size, _ := decoder.ReadArraySize()
-	items := make([]T, size)
-	i := 0
+	size, err := decoder.ReadArraySize()
+	if err != nil {
+		return nil, err
+	}
+	// Items take up bytes, the size alone is not to be trusted.
+	capacity := uint32(len(raw.Data()))
+	if size < capacity {
+		capacity = size
+	}
+	items := make([]T, 0, capacity)
 	for size > 0 {
 		size--
 		var item T
 		p := (P)(&item)
-		p.Decode(&decoder)
-		items[i] = item
-		i++
+		if err := p.Decode(&decoder); err != nil {
+			return nil, err
+		}
+		items = append(items, item)
 	}
 	return items, nil
 }
-- 
2.43.0


From 27519c6e658b26fa1a9a80fb3085ccab19b91fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 49/58] fix: custom sections at the end of a module failed to
 decode

---
 go/transport/wasmrs/customsections/customsections.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/go/transport/wasmrs/customsections/customsections.go b/go/transport/wasmrs/customsections/customsections.go
index 480e332..c090c16 100644
--- a/go/transport/wasmrs/customsections/customsections.go
+++ b/go/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if int64(size) > int64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,8 +125,13 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	if _, err = io.ReadFull(r, buf); err != nil {
+		return nil, err
+	}
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From a2407a5f8231fe881daaa8d91cea42b13b053a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:20 +0000
Subject: [PATCH 50/58] fix: fragmenting a request does not repeat its metadata

---
 go/internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index e11e257..44b3a19 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -162,6 +162,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = metadata[lenMd:]
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From 6370327bb9f1a66ad266995399f7f3598fc9961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 51/58] fix: errors for malformed requests went to stream 0

---
 go/transport/wasmrs/guest/guest.go   | 10 +++++-----
 go/transport/wasmrs/host/instance.go | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index c2943ae..12a4ad2 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -153,7 +153,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -169,7 +169,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -185,7 +185,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -201,7 +201,7 @@ func GuestSend(endPos uint32) {
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -217,7 +217,7 @@ func GuestSend(endPos uint32) {
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 9527555..9fee8a5 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -309,7 +309,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -325,7 +325,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -341,7 +341,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -357,7 +357,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -373,7 +373,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
-- 
2.43.0


From be3e19e58ca37591e205c30f72a652cad4d6fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 52/58] fix: demand and cancel sent right after a request were
 lost

A stream was registered in the goroutine that serves it, so a RequestN or
Cancel frame handled before that goroutine ran found no stream.
---
 go/handler/handler.go                | 22 ++++++++++++++--------
 go/transport/wasmrs/host/instance.go | 24 ++++++++++++++++--------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 14200a3..deb1872 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -143,7 +143,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s := requestStream{ctx: i.ctx, streamID: streamID, demand: int(v.InitialN)}
+			i.registerStream(&s) // Need to register for RequestN and Cancel frames
+			go i.handleRequestStream(i.ctx, &s, v.Data, v.Metadata)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -151,7 +153,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s := requestStream{ctx: i.ctx, streamID: streamID, demand: int(v.InitialN)}
+			i.registerStream(&s) // Need to register for RequestN and Cancel frames
+			go i.handleRequestChannel(i.ctx, &s, v.Data, v.Metadata)
 		}
 
 	case *frames.RequestN:
@@ -288,14 +292,17 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, data, metadata []byte) {
+	streamID := s.streamID
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
+		i.removeStream(streamID)
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -304,8 +311,6 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID, demand: int(initialN)}
-	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -337,14 +342,17 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 	s.start(f.Subscription())
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, data, metadata []byte) {
+	streamID := s.streamID
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
+		i.removeStream(streamID)
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -353,8 +361,6 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID, demand: int(initialN)}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
 		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 9fee8a5..3e193e5 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -351,7 +351,9 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		s := requestStream{ctx: ctx, streamID: rs.StreamID, demand: int(rs.InitialN)}
+		i.registerStream(&s) // Need to register for RequestN and Cancel frames
+		go i.handleRequestStream(ctx, &s, rs.Data, rs.Metadata)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
@@ -367,7 +369,9 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		s := requestStream{ctx: ctx, streamID: rc.StreamID, demand: int(rc.InitialN)}
+		i.registerStream(&s) // Need to register for RequestN and Cancel frames
+		go i.handleRequestChannel(ctx, &s, rc.Data, rc.Metadata)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
@@ -525,8 +529,10 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestStream(ctx context.Context, s *requestStream, data, metadata []byte) {
+	streamID := s.streamID
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -535,10 +541,12 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	if parentStreamID != 0 {
 		if stream, ok := i.getStream(parentStreamID); ok {
 			ctx = stream.Context()
+			s.ctx = ctx
 		}
 	}
 	handlerRS := i.getRequestStreamHandler(operationID)
 	if handlerRS == nil {
+		i.removeStream(streamID)
 		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -547,8 +555,6 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID, demand: int(initialN)}
-	i.registerStream(&s) // Need to register for RequestN frames
 	f := handlerRS(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
@@ -579,8 +585,10 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	s.start(f.Subscription())
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *requestStream, data, metadata []byte) {
+	streamID := s.streamID
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -589,10 +597,12 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	if parentStreamID != 0 {
 		if stream, ok := i.getStream(parentStreamID); ok {
 			ctx = stream.Context()
+			s.ctx = ctx
 		}
 	}
 	handlerRC := i.getRequestChannelHandler(operationID)
 	if handlerRC == nil {
+		i.removeStream(streamID)
 		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -601,8 +611,6 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID, demand: int(initialN)}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
 		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
-- 
2.43.0


From d0e1d7da037c9368ea6915b98b8705ea619d622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 53/58] fix: subscribers were asked for demand after the end of
 a stream

---
 go/rx/flux/flux.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index f4cee74..7ece2e0 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -185,7 +185,7 @@ func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
 }
 
 func (s *subscriber[T]) handleOnSubscribe() {
-	if s.noRequest {
+	if s.noRequest || s.closed {
 		return
 	}
 	if s.doOnRequest != nil {
-- 
2.43.0


From f91048c89affeb9ef1ad3edb3927392a635e5b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 54/58] fix: Notify within OnError or Cancel reported
 completion

---
 go/rx/flux/flux.go | 2 ++
 go/rx/mono/mono.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 7ece2e0..a2c9a6e 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -157,6 +157,7 @@ func (s *subscriber[T]) Error(err error) {
 		return
 	}
 	s.err = err
+	s.signal = rx.SignalError
 	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
@@ -209,6 +210,7 @@ func (s *subscriber[T]) Cancel() {
 	if s.closed {
 		return
 	}
+	s.signal = rx.SignalCancel
 	s.closed = true
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index be18908..7325397 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -177,6 +177,7 @@ func (s *subscriber[T]) Error(err error) {
 		return
 	}
 	s.err = err
+	s.signal = rx.SignalError
 	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
-- 
2.43.0


From a6256b3f84608a1c9fdcf5233825d5d1067010e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 55/58] fix: a processor without a subscriber forgot its first
 result

---
 go/rx/mono/processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index a7bb35d..1d02282 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -29,7 +29,7 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 func (p *ProcessorImpl[T]) Success(value T) {
 	if p.sink != nil {
 		p.sink.Success(value)
-	} else {
+	} else if p.success == nil && p.err == nil {
 		p.success = &value
 	}
 }
@@ -37,7 +37,7 @@ func (p *ProcessorImpl[T]) Success(value T) {
 func (p *ProcessorImpl[T]) Error(err error) {
 	if p.sink != nil {
 		p.sink.Error(err)
-	} else {
+	} else if p.success == nil && p.err == nil {
 		p.err = err
 	}
 }
-- 
2.43.0


From c8cda96c1681c3be8b1b405f5eaad0f7ca301698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 56/58] fix: fail requests that cannot be sent

---
 go/handler/caller.go                | 2 +-
 go/proxy/flux.go                    | 6 +++++-
 go/proxy/mono.go                    | 9 +++++++--
 go/transport/wasmrs/guest/caller.go | 2 +-
 go/transport/wasmrs/host/caller.go  | 2 +-
 5 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/go/handler/caller.go b/go/handler/caller.go
index d8cbecf..091a586 100644
--- a/go/handler/caller.go
+++ b/go/handler/caller.go
@@ -38,7 +38,7 @@ func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.M
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) FireAndForget(ctx context.Context, p payload.Payload) {
diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 1d48e59..af65cf5 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -88,7 +88,11 @@ func (s *streamFlux) Request(n int) {
 	if s.first {
 		s.request.InitialN = uint32(n)
 		s.first = false
-		s.sendFrame(&s.request)
+		if err := s.sendFrame(&s.request); err != nil {
+			s.remove(s.request.StreamID)
+			s.OnError(err)
+			return
+		}
 
 		if s.in != nil {
 			s.in.Subscribe(flux.Subscribe[payload.Payload]{
diff --git a/go/proxy/mono.go b/go/proxy/mono.go
index 94eefd3..e3a9599 100644
--- a/go/proxy/mono.go
+++ b/go/proxy/mono.go
@@ -9,7 +9,7 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
-func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
+func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
 		ctx:       ctx,
@@ -17,6 +17,7 @@ func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(fra
 		request:   request,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 	}
 	return &ss
 }
@@ -29,6 +30,7 @@ type streamMono struct {
 	request    frames.RequestPayload
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
+	remove     func(streamID uint32)
 }
 
 func (s *streamMono) Context() context.Context {
@@ -68,6 +70,9 @@ func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[pa
 	s.subscribed = true
 	s.register(s)
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.remove(s.request.StreamID)
+		s.OnError(err)
+	}
 	return s
 }
diff --git a/go/transport/wasmrs/guest/caller.go b/go/transport/wasmrs/guest/caller.go
index 81d14fa..c8ebb10 100644
--- a/go/transport/wasmrs/guest/caller.go
+++ b/go/transport/wasmrs/guest/caller.go
@@ -43,7 +43,7 @@ func (i *Caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mo
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, sendFrame, registerStream)
+	}, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) FireAndForget(ctx context.Context, p payload.Payload) {
diff --git a/go/transport/wasmrs/host/caller.go b/go/transport/wasmrs/host/caller.go
index 191a684..63a7238 100644
--- a/go/transport/wasmrs/host/caller.go
+++ b/go/transport/wasmrs/host/caller.go
@@ -36,7 +36,7 @@ func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) FireAndForget(ctx context.Context, p payload.Payload) {
-- 
2.43.0


From d7b25b3c4094061dfb5d335216980e28cb18d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 57/58] fix: read the acceptor of the TCP server under its lock

---
 go/transport/rsocket/tcp_transport.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/tcp_transport.go b/go/transport/rsocket/tcp_transport.go
index 7ceafd6..49ab81b 100644
--- a/go/transport/rsocket/tcp_transport.go
+++ b/go/transport/rsocket/tcp_transport.go
@@ -106,7 +106,10 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 				defer t.removeTransport(tp)
 				tp.Start(ctx)
 			}()
-			go t.acceptor(ctx, h, func(tp *Transport) {
+			t.mu.Lock()
+			acceptor := t.acceptor
+			t.mu.Unlock()
+			go acceptor(ctx, h, func(tp *Transport) {
 				t.removeTransport(tp)
 			})
 		} else {
-- 
2.43.0


From 27df827b284c59e7b1c9aa94d00c7047f3a4d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 58/58] fix: refuse modules that do not list their operations

---
 go/transport/wasmrs/host/instance.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 3e193e5..85b4f87 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -76,6 +76,10 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	if send == nil {
 		return nil, errors.New("module does not export __wasmrs_send")
 	}
+	opListRequest := m.ExportedFunction("__wasmrs_op_list_request")
+	if opListRequest == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	i := &Instance{
 		ctx:    ctx,
 		m:      m,
@@ -96,8 +100,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		return nil, err
 	}
 
-	f := m.ExportedFunction("__wasmrs_op_list_request")
-	_, err = f.Call(ctx)
+	_, err = opListRequest.Call(ctx)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

