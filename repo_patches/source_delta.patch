From e2ef17dbb45b8a28b6821f63f6cd79cba85d0b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 01/63] fix: cut a message into chunks of at most the chunk
 size, and write nothing of one that cannot be encoded

---
 encoding/encoding_v1/encoderV1.go | 44 ++++++++++++------------------
 encoding/encoding_v2/encoderV2.go | 45 +++++++++++--------------------
 2 files changed, 33 insertions(+), 56 deletions(-)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index ffcf13a..b7a4560 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -43,44 +43,32 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write buffers the bytes of the message being encoded.  They only go to the
+// writer once the whole message is encoded, see flush.
 func (e EncoderV1) Write(p []byte) (n int, err error) {
-	//log.Trace("in encode write")
-	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
-	//log.Trace(fmt.Sprintf("%x", p))
-
 	n, err = e.buf.Write(p)
 	if err != nil {
 		err = errors.Wrap(err, "An error occurred writing to encoder temp buffer")
-		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
-	return n, nil
+	return n, err
 }
 
-// flush finishes the encoding stream by flushing it to the writer
+// flush finishes the encoding stream by flushing it to the writer, cut into
+// chunks of at most chunkSize bytes
 func (e EncoderV1) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+	chunkSize := int(e.chunkSize)
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
+
+	for e.buf.Len() > 0 {
+		chunk := e.buf.Next(chunkSize)
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
@@ -89,13 +77,15 @@ func (e EncoderV1) flush() error {
 	if err != nil {
 		return errors.Wrap(err, "An error occurred ending encoding message")
 	}
-	e.buf.Reset()
 
 	return nil
 }
 
 // Encode encodes an object to the stream
 func (e EncoderV1) Encode(iVal interface{}) error {
+	// nothing of a message that could not be encoded or written may end up in
+	// front of the next one
+	defer e.buf.Reset()
 
 	err := e.encode(iVal)
 	if err != nil {
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 3d5f7cc..16b42e5 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -3,7 +3,6 @@ package encoding_v2
 import (
 	"encoding/binary"
 	"github.com/mindstand/go-bolt/encoding/encode_consts"
-	"github.com/mindstand/go-bolt/log"
 	"github.com/mindstand/gotime"
 	"io"
 	"math"
@@ -46,46 +45,32 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write buffers the bytes of the message being encoded.  They only go to the
+// writer once the whole message is encoded, see flush.
 func (e EncoderV2) Write(p []byte) (n int, err error) {
-	//log.Trace("in encode write")
-	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
-	//log.Trace(fmt.Sprintf("%x", p))
-
 	n, err = e.buf.Write(p)
 	if err != nil {
 		err = errors.Wrap(err, "An error occurred writing to encoder temp buffer")
-		return n, err
-	}
-
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
 	}
 
-	return n, nil
+	return n, err
 }
 
-// flush finishes the encoding stream by flushing it to the writer
+// flush finishes the encoding stream by flushing it to the writer, cut into
+// chunks of at most chunkSize bytes
 func (e EncoderV2) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		log.TraceBytesFromBuf(e.buf)
+	chunkSize := int(e.chunkSize)
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
 
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+	for e.buf.Len() > 0 {
+		chunk := e.buf.Next(chunkSize)
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
@@ -94,13 +79,15 @@ func (e EncoderV2) flush() error {
 	if err != nil {
 		return errors.Wrap(err, "An error occurred ending encoding message")
 	}
-	e.buf.Reset()
 
 	return nil
 }
 
 // Encode encodes an object to the stream
 func (e EncoderV2) Encode(iVal interface{}) error {
+	// nothing of a message that could not be encoded or written may end up in
+	// front of the next one
+	defer e.buf.Reset()
 
 	err := e.encode(iVal)
 	if err != nil {
-- 
2.43.0


From 43d3d07b2df8e6247f8d1c11c299567b91187e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 02/63] fix: read sizes of strings, lists, maps and structures
 as unsigned

---
 encoding/encoding_v1/decoderV1.go | 22 +++++++++++-----------
 encoding/encoding_v2/decoderV2.go | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index d15066f..fdb5cdc 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -161,19 +161,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -184,19 +184,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -207,19 +207,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -230,13 +230,13 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 0641024..8f6965f 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -156,19 +156,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -179,19 +179,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -202,19 +202,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -225,13 +225,13 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From 5b5c7de19b56348d7996b3b517c9d45d8a397986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 03/63] fix: keep the data of a read that also reports an error

---
 encoding/encoding_v1/decoderV1.go | 17 ++---------------
 encoding/encoding_v2/decoderV2.go | 17 ++---------------
 2 files changed, 4 insertions(+), 30 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index fdb5cdc..471bb7b 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -70,21 +70,8 @@ func (d DecoderV1) read() (*bytes.Buffer, error) {
 
 func (d DecoderV1) readData(messageLen uint16) ([]byte, error) {
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	if numRead, err := io.ReadFull(d.r, output); err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 8f6965f..6a3653e 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -65,21 +65,8 @@ func (d DecoderV2) read() (*bytes.Buffer, error) {
 
 func (d DecoderV2) readData(messageLen uint16) ([]byte, error) {
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	if numRead, err := io.ReadFull(d.r, output); err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
-- 
2.43.0


From 2e85f0055c2d5a42af3b23f4b4d1fe315fd3b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 04/63] fix: report strings cut short and don't trust declared
 collection sizes

---
 encoding/encoding_v1/decoderV1.go | 22 +++++++++++++++-------
 encoding/encoding_v2/decoderV2.go | 22 +++++++++++++++-------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 471bb7b..41a318e 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -146,25 +146,25 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
@@ -235,21 +235,29 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV1) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("String of %d bytes has only %d left in the message", size, buffer.Len())
+	}
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV1) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// the declared size can't be trusted, let the slice grow with what is there
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 6a3653e..4a53a58 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -141,25 +141,25 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
@@ -230,21 +230,29 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV2) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("String of %d bytes has only %d left in the message", size, buffer.Len())
+	}
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV2) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// the declared size can't be trusted, let the slice grow with what is there
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
-- 
2.43.0


From 9827eeca1766d8f912497aa1e6fe4e30e19d593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 05/63] fix: limit how deep decoded values may be nested

---
 encoding/encode_consts/const.go   |  3 +++
 encoding/encoding_v1/decoderV1.go | 10 ++++++++--
 encoding/encoding_v2/decoderV2.go | 10 ++++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/encoding/encode_consts/const.go b/encoding/encode_consts/const.go
index aa74f75..c33d3a5 100644
--- a/encoding/encode_consts/const.go
+++ b/encoding/encode_consts/const.go
@@ -73,6 +73,9 @@ const (
 
 	DurationSignature      byte = 'E'
 	DurationTimeStructSize int  = 4
+
+	// MaxNesting is how deep values may be nested to be decoded
+	MaxNesting = 10000
 )
 
 var (
diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 41a318e..d56dcf1 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -21,8 +21,9 @@ import (
 // map[string]interface{} and []interface{} are supported.
 // The interface for maps and slices may be more permissive in the future.
 type DecoderV1 struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
 // NewDecoder Creates a new DecoderV1 object
@@ -88,6 +89,11 @@ func (d DecoderV1) Decode() (interface{}, error) {
 }
 
 func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
+	// d is a copy, this counts what the value is nested in
+	d.depth++
+	if d.depth > encode_consts.MaxNesting {
+		return nil, errors.New("Values nested deeper than %d levels can't be decoded", encode_consts.MaxNesting)
+	}
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 4a53a58..2576c01 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -16,8 +16,9 @@ import (
 )
 
 type DecoderV2 struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
 // NewDecoder Creates a new DecoderV2 object
@@ -83,6 +84,11 @@ func (d DecoderV2) Decode() (interface{}, error) {
 }
 
 func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
+	// d is a copy, this counts what the value is nested in
+	d.depth++
+	if d.depth > encode_consts.MaxNesting {
+		return nil, errors.New("Values nested deeper than %d levels can't be decoded", encode_consts.MaxNesting)
+	}
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
-- 
2.43.0


From 34b9bbbec86d5bb08dbb8f82419aeb16d4462599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 06/63] fix: check the number and types of structure fields

---
 encoding/encoding_v1/decoderV1.go | 53 ++++++++++++++++++++----
 encoding/encoding_v2/decoderV2.go | 69 +++++++++++++++++++++++++++----
 encoding/util.go                  |  6 ++-
 3 files changed, 113 insertions(+), 15 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index d56dcf1..d98117d 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -284,6 +284,20 @@ func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interfa
 	return mapp, nil
 }
 
+// structSize is the number of fields a structure must have, or -1
+func structSize(signature byte) int {
+	switch signature {
+	case graph.NodeSignature, graph.PathSignature, graph.UnboundRelationshipSignature:
+		return 3
+	case graph.RelationshipSignature:
+		return 5
+	case messages.RecordMessageSignature, messages.FailureMessageSignature, messages.SuccessMessageSignature:
+		return 1
+	default:
+		return -1
+	}
+}
+
 func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, error) {
 
 	signature, err := buffer.ReadByte()
@@ -291,6 +305,15 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if want := structSize(signature); want < 0 {
+		// nothing in the fields is of interest, but they must be well formed
+		if _, err := d.decodeSlice(buffer, size); err != nil {
+			return nil, err
+		}
+	} else if size != want {
+		return nil, errors.New("Struct with signature %x has %d fields, expected %d", signature, size, want)
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
@@ -322,11 +345,15 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
 
+	var ok bool
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -357,25 +384,34 @@ func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 func (d DecoderV1) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
 
+	var ok bool
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -442,13 +478,16 @@ func (d DecoderV1) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 func (d DecoderV1) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
 
+	var ok bool
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 2576c01..12f0e5f 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -279,6 +279,36 @@ func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interfa
 	return mapp, nil
 }
 
+// structSize is the number of fields a structure must have, or -1
+func structSize(signature byte) int {
+	switch signature {
+	case graph.NodeSignature, graph.PathSignature, graph.UnboundRelationshipSignature:
+		return 3
+	case graph.RelationshipSignature:
+		return 5
+	case messages.RecordMessageSignature, messages.FailureMessageSignature, messages.SuccessMessageSignature:
+		return 1
+	case types.Point2DStructSignature:
+		return types.Point2DStructSize
+	case types.Point3DStructSignature:
+		return types.Point3DStructSize
+	case encode_consts.DateSignature:
+		return encode_consts.DateStructSize
+	case encode_consts.TimeSignature:
+		return encode_consts.TimeStructSize
+	case encode_consts.LocalTimeSignature:
+		return encode_consts.LocalTimeStructSize
+	case encode_consts.LocalDateTimeSignature:
+		return encode_consts.LocalDateTimeStructSize
+	case encode_consts.DateTimeWithZoneOffsetSignature, encode_consts.DateTimeWithZoneIdSignature:
+		return encode_consts.DateTimeStructSize
+	case encode_consts.DurationSignature:
+		return encode_consts.DurationTimeStructSize
+	default:
+		return -1
+	}
+}
+
 func (d DecoderV2) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, error) {
 
 	signature, err := buffer.ReadByte()
@@ -286,6 +316,15 @@ func (d DecoderV2) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if want := structSize(signature); want < 0 {
+		// nothing in the fields is of interest, but they must be well formed
+		if _, err := d.decodeSlice(buffer, size); err != nil {
+			return nil, err
+		}
+	} else if size != want {
+		return nil, errors.New("Struct with signature %x has %d fields, expected %d", signature, size, want)
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
@@ -634,11 +673,15 @@ func (d DecoderV2) decodePoint3D(buffer *bytes.Buffer) (types.Point3D, error) {
 func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
 
+	var ok bool
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -669,25 +712,34 @@ func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 func (d DecoderV2) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
 
+	var ok bool
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -754,13 +806,16 @@ func (d DecoderV2) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 func (d DecoderV2) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
 
+	var ok bool
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index b1409c6..bd6e2b0 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func SliceInterfaceToString(from []interface{}) ([]string, error) {
 func SliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From 7c1510a413bdf7a43fe425e7de664d3267aef7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 07/63] fix: encode and decode durations as the sum of their
 fields

---
 encoding/encoding_v2/decoderV2.go | 18 +++++++++++++++++-
 encoding/encoding_v2/encoderV2.go |  8 ++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 12f0e5f..7f52a87 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -12,9 +12,16 @@ import (
 	"github.com/mindstand/go-bolt/structures/types"
 	"github.com/mindstand/gotime"
 	"io"
+	"math/big"
 	"time"
 )
 
+const (
+	secondsPerDay = 86400
+	// secondsPerMonth is the length of an average month
+	secondsPerMonth = 2629746
+)
+
 type DecoderV2 struct {
 	r     io.Reader
 	buf   *bytes.Buffer
@@ -580,7 +587,16 @@ func (d DecoderV2) decodeDuration(buffer *bytes.Buffer) (time.Duration, error) {
 		return -1, fmt.Errorf("unable to cast [%T] to [int64]", nanoSecondsI)
 	}
 
-	return time.Duration(month * days * seconds * nanoSeconds), nil
+	total := new(big.Int).Mul(big.NewInt(month), big.NewInt(secondsPerMonth))
+	total.Add(total, new(big.Int).Mul(big.NewInt(days), big.NewInt(secondsPerDay)))
+	total.Add(total, big.NewInt(seconds))
+	total.Mul(total, big.NewInt(int64(time.Second)))
+	total.Add(total, big.NewInt(nanoSeconds))
+	if !total.IsInt64() {
+		return -1, fmt.Errorf("duration of %d months, %d days, %d seconds and %d nanoseconds is too long", month, days, seconds, nanoSeconds)
+	}
+
+	return time.Duration(total.Int64()), nil
 }
 
 func (d DecoderV2) decodePoint2D(buffer *bytes.Buffer) (types.Point2D, error) {
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 16b42e5..2954bd9 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -290,10 +290,10 @@ func (e EncoderV2) encodeTime(t time.Time) error {
 }
 
 func (e EncoderV2) encodeDuration(d time.Duration) error {
-	months := d.Seconds() / 2600640
-	days := d.Seconds() / 86400
-	seconds := d.Seconds()
-	nano := d.Nanoseconds()
+	// the value is the sum of the fields, and months and days have no fixed length
+	months, days := 0, 0
+	seconds := int64(d / time.Second)
+	nano := int64(d % time.Second)
 
 	_, err := e.Write([]byte{byte(encode_consts.TinyStructMarker | encode_consts.DurationTimeStructSize)})
 	if err != nil {
-- 
2.43.0


From 0980c4dad5481b9ad2d35fae272df0c97636ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:49 +0000
Subject: [PATCH 08/63] fix: encode dates more than 292 years from the epoch

---
 encoding/encoding_v2/encoderV2.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 2954bd9..ff35c45 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -197,7 +197,8 @@ func (e EncoderV2) encodeDate(d gotime.Date) error {
 		return err
 	}
 
-	return e.encode(int64(d.ToEpochDays()))
+	// dates are at midnight UTC, and can be too far from the epoch for a time.Duration
+	return e.encode(d.GetTime().Unix() / 86400)
 }
 
 func (e EncoderV2) encodeClock(c gotime.Clock) error {
-- 
2.43.0


From 542db17c8fb4ec504a40431fc5bd2a4216d283e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 09/63] fix: encode the fields of a clock whatever its day

---
 encoding/encoding_v2/encoderV2.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index ff35c45..4c30ebe 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -212,7 +212,11 @@ func (e EncoderV2) encodeClock(c gotime.Clock) error {
 		return err
 	}
 
-	err = e.encode(c.ToDayNano())
+	// only the fields of a clock count, its day can be any
+	err = e.encode(int64(time.Duration(c.Hour())*time.Hour +
+		time.Duration(c.Minute())*time.Minute +
+		time.Duration(c.Second())*time.Second +
+		time.Duration(c.Nanosecond())))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c350dccded4e27d225c71ff9cf28c78854878feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 10/63] fix: decode local date-times near daylight-saving
 changes

---
 encoding/encoding_v2/decoderV2.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 7f52a87..23b5087 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -435,6 +435,13 @@ func (d DecoderV2) decodeLocalTime(buffer *bytes.Buffer) (gotime.LocalClock, err
 	return gotime.NewLocalClockOfDayNano(nanoOfDayLocal), nil
 }
 
+// inLocation is the time at which clocks in the location show what UTC clocks
+// show at the given time since the unix epoch
+func inLocation(epochSeconds, nano int64, loc *time.Location) time.Time {
+	t := time.Unix(epochSeconds, nano).UTC()
+	return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
+}
+
 func (d DecoderV2) decodeLocalDateTime(buffer *bytes.Buffer) (gotime.LocalTime, error) {
 	epochSecondsI, err := d.decode(buffer)
 	if err != nil {
@@ -456,7 +463,7 @@ func (d DecoderV2) decodeLocalDateTime(buffer *bytes.Buffer) (gotime.LocalTime,
 		return gotime.LocalTime{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayI)
 	}
 
-	return gotime.NewLocalTimeFromUnix(epochSeconds, nanoOfDay), nil
+	return gotime.NewLocalTimeFromTime(inLocation(epochSeconds, nanoOfDay, time.Local)), nil
 }
 
 func (d DecoderV2) decodeDateTimeWithZoneOffset(buffer *bytes.Buffer) (time.Time, error) {
-- 
2.43.0


From abf6115bdac24b49bfa2f1e57da0040b49b31757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:56 +0000
Subject: [PATCH 11/63] fix: decode date-times with a zone name near
 daylight-saving changes

---
 encoding/encoding_v2/decoderV2.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 23b5087..29827fc 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -540,16 +540,10 @@ func (d DecoderV2) decodeTimeWithZoneId(buffer *bytes.Buffer) (time.Time, error)
 
 	loc, err := time.LoadLocation(zoneId)
 	if err != nil {
-		return time.Time{}, fmt.Errorf("unable to load zone info for [%v]", loc)
+		return time.Time{}, fmt.Errorf("unable to load zone info for [%v]: %w", zoneId, err)
 	}
 
-	timeWithoutOffsetCorrection := time.Unix(epochSecondLocal, nanoOfDayLocal).In(loc)
-
-	_, offset := timeWithoutOffsetCorrection.Zone() // get second offset from zone
-
-	return timeWithoutOffsetCorrection.
-			Add(time.Duration(-offset) * time.Second), // correct for zone offset
-		nil
+	return inLocation(epochSecondLocal, nanoOfDayLocal, loc), nil
 }
 
 // todo improve time functions
-- 
2.43.0


From 130e0d70065f20f66101df13b3249fdc0568ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 12/63] fix: encode points given as values

---
 structures/types/point.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structures/types/point.go b/structures/types/point.go
index 6b7dff2..defac79 100644
--- a/structures/types/point.go
+++ b/structures/types/point.go
@@ -13,11 +13,11 @@ type Point2D struct {
 	X, Y float64
 }
 
-func (p *Point2D) Signature() int {
+func (p Point2D) Signature() int {
 	return int(Point2DStructSignature)
 }
 
-func (p *Point2D) AllFields() []interface{} {
+func (p Point2D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y}
 }
 
@@ -26,10 +26,10 @@ type Point3D struct {
 	X, Y, Z float64
 }
 
-func (p *Point3D) Signature() int {
+func (p Point3D) Signature() int {
 	return int(Point3DStructSignature)
 }
 
-func (p *Point3D) AllFields() []interface{} {
+func (p Point3D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y, p.Z}
 }
-- 
2.43.0


From e895a98196b6082b1eaf5610db46a01e928f1a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 13/63] fix: print nothing when decoding a local time

---
 encoding/encoding_v2/decoderV2.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 29827fc..df57ac1 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -427,7 +427,6 @@ func (d DecoderV2) decodeLocalTime(buffer *bytes.Buffer) (gotime.LocalClock, err
 	}
 
 	nanoOfDayLocal, ok := nanoOfDayLocalI.(int64)
-	fmt.Println(nanoOfDayLocal)
 	if !ok {
 		return gotime.LocalClock{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayLocalI)
 	}
-- 
2.43.0


From 5a806fee1b67a9dd00fcde8ca708ce6be8f6c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 14/63] fix: send a realm only when one is given

---
 structures/messages/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structures/messages/init.go b/structures/messages/init.go
index dc1a48f..f8ba096 100644
--- a/structures/messages/init.go
+++ b/structures/messages/init.go
@@ -28,7 +28,7 @@ func BuildAuthTokenBasicWithRealm(username, password, realm string) map[string]i
 		CredentialsKey: password,
 	}
 
-	if realm == "" {
+	if realm != "" {
 		toReturn[RealmKey] = realm
 	}
 
-- 
2.43.0


From 5799bb94da2817474a014e140c29dcbdd8f7b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 15/63] fix: announce read access when it is requested

---
 connection/connection.go       | 7 ++++---
 structures/messages/builder.go | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 2308c83..a043727 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -112,9 +112,10 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	}
 
 	connection := Connection{
-		timeout:   time.Second * time.Duration(60),
-		chunkSize: math.MaxUint16,
-		mutex:     sync.Mutex{},
+		timeout:    time.Second * time.Duration(60),
+		chunkSize:  math.MaxUint16,
+		mutex:      sync.Mutex{},
+		accessMode: bolt_mode.WriteMode,
 	}
 
 	connection.hostPort = _url.Host
diff --git a/structures/messages/builder.go b/structures/messages/builder.go
index fe4f891..abfc6d1 100644
--- a/structures/messages/builder.go
+++ b/structures/messages/builder.go
@@ -25,7 +25,7 @@ func BuildTxMetadataWithDatabase(txTimeout *time.Duration, txMetadata map[string
 	bookmarksPresent := false
 	txTimeoutPresent := txTimeout != nil && *txTimeout != 0
 	txMetaDataPresent := txMetadata != nil && len(txMetadata) != 0
-	accessModePresent := mode != bolt_mode.ReadMode
+	accessModePresent := mode == bolt_mode.ReadMode
 	databaseNamePresent := databaseName != ""
 
 	if !bookmarksPresent && !txTimeoutPresent && !txMetaDataPresent && !accessModePresent && !databaseNamePresent {
-- 
2.43.0


From d470dbe6115c38fddf74c845544237b801113fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 16/63] fix: send the metadata of a discard request

---
 protocol/protocol_v3/bolt.go   | 2 +-
 structures/messages/discard.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/protocol_v3/bolt.go b/protocol/protocol_v3/bolt.go
index fae8b4a..2eca833 100644
--- a/protocol/protocol_v3/bolt.go
+++ b/protocol/protocol_v3/bolt.go
@@ -20,7 +20,7 @@ func (b *BoltProtocolV3) GetResultConsumedAfterKey() string {
 }
 
 func (b *BoltProtocolV3) GetDiscardMessage(qid int64) structures.Structure {
-	return messages.NewDiscardMessage(messages.StreamUnlimited, qid)
+	return messages.NewDiscardAllMessage()
 }
 
 func (b *BoltProtocolV3) GetDiscardAllMessage() structures.Structure {
diff --git a/structures/messages/discard.go b/structures/messages/discard.go
index 1be4272..451aa70 100644
--- a/structures/messages/discard.go
+++ b/structures/messages/discard.go
@@ -33,5 +33,5 @@ func (i DiscardMessage) Signature() int {
 
 // AllFields gets the fields to encode for the struct
 func (i DiscardMessage) AllFields() []interface{} {
-	return []interface{}{}
+	return []interface{}{i.metadata}
 }
-- 
2.43.0


From ec487922db3daab23c92764c888032c771ee477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 17/63] fix: read the whole version reply

---
 connection/connection.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index a043727..690e8d4 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -243,11 +243,9 @@ func (c *Connection) handshake() ([]byte, error) {
 	}
 
 	version := make([]byte, 4, 4)
-	numRead, err := c.readWrite.Read(version)
+	_, err = io.ReadFull(c.readWrite, version)
 	if err != nil {
 		return nil, err
-	} else if numRead != 4 {
-		return nil, fmt.Errorf("expected [4] bytes but got [%v]", numRead)
 	} else if bytes.Equal(version, noVersionSupported) {
 		return nil, errors.New("server responded with no supported version")
 	}
-- 
2.43.0


From 8a1ace31d4ab698d5ab61a887c108bbd736225a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 18/63] fix: close the socket of a connection that cannot be
 opened, and report unexpected replies

---
 connection/connection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 690e8d4..9fedaa7 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -97,6 +97,9 @@ func CreateBoltConn(connStr string) (IConnection, error) {
 
 	err = conn.initialize()
 	if err != nil {
+		if conn.conn != nil {
+			_ = conn.conn.Close()
+		}
 		return nil, err
 	}
 
@@ -299,7 +302,7 @@ func (c *Connection) sendInit(message structures.Structure) error {
 		return nil
 	default:
 		log.Errorf("Got an unrecognized message when initializing connection :%+v", resp)
-		return c.Close()
+		return fmt.Errorf("unexpected response of type [%T] when initializing connection", resp)
 	}
 }
 
-- 
2.43.0


From 486b16566d8aaf7ace11386e9f3ebf83d1c72157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 19/63] fix: give up a connection whose stream broke

---
 connection/connection.go  | 37 ++++++++++++++++++++++++++++++++-----
 connection/transaction.go |  4 ++++
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 9fedaa7..257b309 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -30,12 +30,14 @@ type readWrite struct {
 func (r *readWrite) Write(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetWriteDeadline(time.Now().Add(r.connection.timeout)); err != nil {
 		//c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
+		r.connection.abort()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Write(p)
 
 	if err != nil {
+		r.connection.abort()
 		err = driver.ErrBadConn
 	}
 	return n, err
@@ -43,6 +45,7 @@ func (r *readWrite) Write(p []byte) (n int, err error) {
 
 func (r *readWrite) Read(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetReadDeadline(time.Now().Add(r.connection.timeout)); err != nil {
+		r.connection.abort()
 		return 0, driver.ErrBadConn
 	}
 
@@ -50,6 +53,9 @@ func (r *readWrite) Read(p []byte) (n int, err error) {
 	if err != nil && err != io.EOF {
 		err = driver.ErrBadConn
 	}
+	if err != nil {
+		r.connection.abort()
+	}
 	return n, err
 }
 
@@ -285,6 +291,24 @@ func (c *Connection) initialize() error {
 	return c.sendInit(c.boltProtocol.GetInitMessage(ClientID, messages.BuildAuthTokenBasic(c.user, c.password)))
 }
 
+// abort closes a connection whose stream can not be used any more, because of
+// an I/O error or because the server did not follow the protocol
+func (c *Connection) abort() {
+	c.closed = true
+	c.endTransaction()
+	if c.conn != nil {
+		_ = c.conn.Close()
+	}
+}
+
+// endTransaction marks the open transaction as over
+func (c *Connection) endTransaction() {
+	if tx, ok := c.transaction.(*boltTransaction); ok {
+		tx.closed = true
+	}
+	c.transaction = nil
+}
+
 func (c *Connection) sendInit(message structures.Structure) error {
 	err := c.sendMessage(message)
 	if err != nil {
@@ -404,6 +428,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 
 	_, ok := resp.(messages.SuccessMessage)
 	if !ok {
+		c.abort()
 		return nil, nil, fmt.Errorf("unexpected response of type [%T], should be [messages.SuccessMessage]", resp)
 	}
 
@@ -422,6 +447,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 			log.Tracef("Got record message: %#v", resp)
 			output = append(output, resp.Fields)
 		default:
+			c.abort()
 			return nil, nil, errors.New("Unrecognized response type getting next runQuery row: %#v", resp)
 		}
 	}
@@ -510,12 +536,14 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		c.abort()
 		return nil, errors.New("Unrecognized response type beginning transaction: %#v", success)
 	}
 
 	if !isBeginMsg {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			c.abort()
 			return nil, errors.New("Unrecognized response beginning transaction:  %#v", pull)
 		}
 	}
@@ -553,6 +581,7 @@ func (c *Connection) consume() (interface{}, error) {
 
 	respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 	if err != nil {
+		c.abort()
 		return respInt, err
 	}
 
@@ -584,6 +613,7 @@ func (c *Connection) reset() error {
 	for {
 		respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 		if err != nil {
+			c.abort()
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
 
@@ -596,14 +626,11 @@ func (c *Connection) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
-			err = c.Close()
-			if err != nil {
-				log.Errorf("An error occurred closing the session: %s", err)
-			}
+			c.abort()
 			return errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
 		default:
 			log.Errorf("Got unrecognized response from resetting session: %#v", resp)
-			c.Close()
+			c.abort()
 			return driver.ErrBadConn
 		}
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index 36a14d3..599d0e7 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -88,6 +88,7 @@ func (t *boltTransaction) Commit() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		t.conn.abort()
 		return errors.New("Unrecognized response type committing transaction: %#v", success)
 	}
 
@@ -96,6 +97,7 @@ func (t *boltTransaction) Commit() error {
 	if !isCommitType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			t.conn.abort()
 			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
 		}
 
@@ -149,6 +151,7 @@ func (t *boltTransaction) Rollback() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		t.conn.abort()
 		return errors.New("Unrecognized response type rolling back transaction: %#v", success)
 	}
 
@@ -157,6 +160,7 @@ func (t *boltTransaction) Rollback() error {
 	if !isRollbackType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			t.conn.abort()
 			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
 		}
 
-- 
2.43.0


From fc460ded91b01a119d8cc7d20a6933f87a332358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 20/63] fix: notice when the server closed an idle connection

---
 connection/alive.go       | 58 +++++++++++++++++++++++++++++++++++++++
 connection/alive_other.go | 11 ++++++++
 connection/connection.go  | 12 +++-----
 3 files changed, 73 insertions(+), 8 deletions(-)
 create mode 100644 connection/alive.go
 create mode 100644 connection/alive_other.go

diff --git a/connection/alive.go b/connection/alive.go
new file mode 100644
index 0000000..6d7bfc9
--- /dev/null
+++ b/connection/alive.go
@@ -0,0 +1,58 @@
+//go:build linux || darwin || dragonfly || freebsd || netbsd || openbsd || solaris || illumos
+// +build linux darwin dragonfly freebsd netbsd openbsd solaris illumos
+
+package connection
+
+import (
+	"errors"
+	"io"
+	"net"
+	"syscall"
+	"time"
+)
+
+// checkAlive returns an error if the server closed an idle connection, or sent
+// something on it unasked. It does not block.
+func checkAlive(conn net.Conn) error {
+	// look at the socket below tls
+	if t, ok := conn.(interface{ NetConn() net.Conn }); ok {
+		conn = t.NetConn()
+	}
+
+	sc, ok := conn.(syscall.Conn)
+	if !ok {
+		return nil
+	}
+
+	raw, err := sc.SyscallConn()
+	if err != nil {
+		return err
+	}
+
+	// an expired deadline of an earlier read would fail the check
+	if err := conn.SetReadDeadline(time.Time{}); err != nil {
+		return err
+	}
+
+	var checkErr error
+	err = raw.Read(func(fd uintptr) bool {
+		var buf [1]byte
+		n, err := syscall.Read(int(fd), buf[:])
+		switch {
+		case n > 0:
+			checkErr = errors.New("unexpected data on idle connection")
+		case n == 0 && err == nil:
+			checkErr = io.EOF
+		case err == syscall.EAGAIN || err == syscall.EWOULDBLOCK || err == syscall.EINTR:
+			checkErr = nil
+		default:
+			checkErr = err
+		}
+		return true
+	})
+	if err != nil {
+		return err
+	}
+
+	return checkErr
+}
diff --git a/connection/alive_other.go b/connection/alive_other.go
new file mode 100644
index 0000000..a2794ca
--- /dev/null
+++ b/connection/alive_other.go
@@ -0,0 +1,11 @@
+//go:build !linux && !darwin && !dragonfly && !freebsd && !netbsd && !openbsd && !solaris && !illumos
+// +build !linux,!darwin,!dragonfly,!freebsd,!netbsd,!openbsd,!solaris,!illumos
+
+package connection
+
+import "net"
+
+// checkAlive can not look at idle connections on this platform
+func checkAlive(conn net.Conn) error {
+	return nil
+}
diff --git a/connection/connection.go b/connection/connection.go
index 257b309..29afe9d 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -340,16 +340,12 @@ func (c *Connection) ValidateOpen() bool {
 		return false
 	}
 
-	one := make([]byte, 1)
-	err := c.conn.SetReadDeadline(time.Now())
-	if err != nil {
-		return false
-	}
-	if _, err := c.conn.Read(one); err == io.EOF {
+	if err := checkAlive(c.conn); err != nil {
+		c.abort()
 		return false
-	} else {
-		return true
 	}
+
+	return true
 }
 
 // Sets the size of the chunks to write to the stream
-- 
2.43.0


From 8e967c128c494de277ccf98f6add4828166fe008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 21/63] fix: end the transaction in which a failure occurred

---
 connection/connection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index 29afe9d..6eae2ac 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -587,6 +587,8 @@ func (c *Connection) consume() (interface{}, error) {
 
 	if failure, isFail := respInt.(messages.FailureMessage); isFail {
 		log.Errorf("Got failure message: %#v", failure)
+		// resetting also rolls back the open transaction
+		c.endTransaction()
 		err := c.reset()
 		if err != nil {
 			return nil, errors.Wrap(failure, err.Error())
-- 
2.43.0


From 3f6d3fd41649303be1d336bb02e245522aa9e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 22/63] fix: release the socket when closing fails half-way

---
 connection/connection.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 6eae2ac..a14c0ce 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -454,33 +454,30 @@ func (c *Connection) Close() error {
 		return errors.ErrClosed
 	}
 
+	if c.conn == nil {
+		return errors.New("can not close nil transaction")
+	}
+
+	// whatever fails, the socket is released
+	defer c.abort()
+
+	var err error
 	if c.transaction != nil {
-		err := c.transaction.Rollback()
-		if err != nil {
+		err = c.transaction.Rollback()
+		if c.closed {
 			return err
 		}
 	}
 
-	if c.conn == nil {
-		return errors.New("can not close nil transaction")
-	}
-
 	if msg, ok := c.boltProtocol.GetCloseMessage(); ok {
-		err := c.sendMessage(msg)
-		if err != nil {
-			return err
+		if sendErr := c.sendMessage(msg); sendErr != nil {
+			return sendErr
 		}
 
 		// explicitly not consuming since we're closing the connection
 	}
 
-	err := c.conn.Close()
-	c.closed = true
-	if err != nil {
-		return err
-	}
-
-	return nil
+	return err
 }
 
 func (c *Connection) MakeIdle() error {
-- 
2.43.0


From 58d1b15440ad28bf198ebc818fc7cd314e55e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 23/63] fix: run statements of a transaction inside it, and
 only while it is open

---
 connection/transaction.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/connection/transaction.go b/connection/transaction.go
index 599d0e7..ab93df6 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -13,10 +13,14 @@ type boltTransaction struct {
 }
 
 func (t *boltTransaction) Exec(query string, params QueryParams) (IResult, error) {
-	return t.conn.Exec(query, params)
+	return t.ExecWithDb(query, params, "")
 }
 
 func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string) (IResult, error) {
+	if t.closed {
+		return nil, errors.New("Transaction already closed")
+	}
+
 	if !t.conn.boltProtocol.SupportsMultiDatabase() && db != "" {
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
@@ -34,6 +38,10 @@ func (t *boltTransaction) Query(query string, params QueryParams) ([][]interface
 }
 
 func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db string) ([][]interface{}, IResult, error) {
+	if t.closed {
+		return nil, nil, errors.New("Transaction already closed")
+	}
+
 	if !t.conn.boltProtocol.SupportsMultiDatabase() && db != "" {
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
-- 
2.43.0


From cc74db73442fe35d8613d7ca6766a3741a762bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 24/63] fix: refuse to begin a transaction on a named database
 where there is no multi-database support

---
 connection/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index a14c0ce..ecc25c3 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -489,6 +489,10 @@ func (c *Connection) MakeIdle() error {
 }
 
 func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
+	if !c.boltProtocol.SupportsMultiDatabase() && db != "" {
+		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
+	}
+
 	if c.transaction != nil {
 		return nil, errors.New("transaction already open")
 	}
-- 
2.43.0


From 2c0c048addc875b7af366acf0108945bf7089274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 25/63] fix: bound the TLS handshake by the timeout

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index ecc25c3..53d5e04 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -188,7 +188,7 @@ func (c *Connection) createConnection() error {
 			return err
 		}
 
-		conn, err = tls.Dial("tcp", c.hostPort, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.hostPort, config)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0f4d29dc33889da931c41155164ba51e5cda28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 26/63] fix: report missing and non-numeric counters as absent

---
 connection/result.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/connection/result.go b/connection/result.go
index 12159c6..987ef24 100644
--- a/connection/result.go
+++ b/connection/result.go
@@ -30,8 +30,11 @@ func (b *boltResult) GetNodesCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-created"]
-	return num.(int64), ok
+	num, ok := stats["nodes-created"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
@@ -40,8 +43,11 @@ func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-created"]
-	return num.(int64), ok
+	num, ok := stats["relationships-created"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) GetNodesDeleted() (int64, bool) {
@@ -50,11 +56,11 @@ func (b *boltResult) GetNodesDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-deleted"]
+	num, ok := stats["nodes-deleted"].(int64)
 	if !ok {
 		return -1, false
 	}
-	return num.(int64), ok
+	return num, ok
 }
 
 func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
@@ -63,8 +69,11 @@ func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-deleted"]
-	return num.(int64), ok
+	num, ok := stats["relationships-deleted"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) Metadata() map[string]interface{} {
-- 
2.43.0


From 26f581e47d916d34c2543e8643f02a3c7835e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:48 +0000
Subject: [PATCH 27/63] fix: keep transaction requests and liveness checks
 apart from queries of other goroutines

---
 connection/connection.go  | 4 ++++
 connection/transaction.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index 53d5e04..856f5c8 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -332,6 +332,8 @@ func (c *Connection) sendInit(message structures.Structure) error {
 
 func (c *Connection) ValidateOpen() bool {
 	//log.Tracef("checking validate open")
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	if c.closed {
 		return false
 	}
@@ -489,6 +491,8 @@ func (c *Connection) MakeIdle() error {
 }
 
 func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	if !c.boltProtocol.SupportsMultiDatabase() && db != "" {
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index ab93df6..0538b5f 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -55,6 +55,8 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 }
 
 func (t *boltTransaction) Commit() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
@@ -118,6 +120,8 @@ func (t *boltTransaction) Commit() error {
 }
 
 func (t *boltTransaction) Rollback() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
-- 
2.43.0


From 26f6a4187f0aef5eec5749b57116418e6d945613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:01 +0000
Subject: [PATCH 28/63] fix: refuse a database other than the transaction's in
 its statements

---
 connection/connection.go  | 1 +
 connection/transaction.go | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index 856f5c8..6457c45 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -551,6 +551,7 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 
 	c.transaction = &boltTransaction{
 		conn:   c,
+		db:     db,
 		closed: false,
 	}
 
diff --git a/connection/transaction.go b/connection/transaction.go
index 0538b5f..cfc39b1 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -9,6 +9,7 @@ import (
 
 type boltTransaction struct {
 	conn   *Connection
+	db     string
 	closed bool
 }
 
@@ -25,6 +26,10 @@ func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
+	if db != "" && db != t.db {
+		return nil, fmt.Errorf("can not use database [%s] in a transaction on database [%s]", db, t.db)
+	}
+
 	_, metadata, err := t.conn.runQuery(query, params, db, true)
 	if err != nil {
 		return nil, err
@@ -46,6 +51,10 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
+	if db != "" && db != t.db {
+		return nil, nil, fmt.Errorf("can not use database [%s] in a transaction on database [%s]", db, t.db)
+	}
+
 	rows, metadata, err := t.conn.runQuery(query, params, db, true)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 49eb381bd0e418cb0946cf120c7804b73d5562e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:18 +0000
Subject: [PATCH 29/63] fix: don't use the text of another error as a format

---
 client.go                | 2 +-
 connection/connection.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index a9002be..bc35b0e 100644
--- a/client.go
+++ b/client.go
@@ -56,7 +56,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		err := opt(client)
 		if err != nil {
-			return nil, errors.Wrap(errors.ErrConfiguration, err.Error())
+			return nil, errors.Wrap(errors.ErrConfiguration, "%s", err.Error())
 		}
 	}
 
diff --git a/connection/connection.go b/connection/connection.go
index 6457c45..459bed6 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -597,7 +597,7 @@ func (c *Connection) consume() (interface{}, error) {
 		c.endTransaction()
 		err := c.reset()
 		if err != nil {
-			return nil, errors.Wrap(failure, err.Error())
+			return nil, errors.Wrap(failure, "%s", err.Error())
 		}
 		return failure, errors.Wrap(failure, "Neo4J reported a failure for the runQuery")
 	}
-- 
2.43.0


From b876ebc870ac850f5fb9594df1e73c2c7be46126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:21 +0000
Subject: [PATCH 30/63] fix: discard dead pooled connections instead of
 replacing them behind the pool's back

---
 connection_pool_factory.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/connection_pool_factory.go b/connection_pool_factory.go
index fda8531..cf2ccb1 100644
--- a/connection_pool_factory.go
+++ b/connection_pool_factory.go
@@ -73,15 +73,9 @@ func (c *ConnectionPooledObjectFactory) ActivateObject(ctx context.Context, obje
 		return fmt.Errorf("unable to cast [%T] to [connection.IConnection]", object.Object)
 	}
 
-	var err error
-
+	// the pool discards it, and makes another
 	if !conn.ValidateOpen() {
-		conn, err = connection.CreateBoltConn(c.connectionString)
-		if err != nil {
-			return err
-		}
-
-		object.Object = conn
+		return errors.New("connection is closed")
 	}
 
 	return nil
-- 
2.43.0


From ebb999e4f3be5fd3b1609d685cab648e385ce6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:49 +0000
Subject: [PATCH 31/63] fix: refuse a pool size below one

---
 driver_pool.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/driver_pool.go b/driver_pool.go
index 1d8f3b8..082a056 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -18,6 +18,10 @@ type driverPool struct {
 }
 
 func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
+	if maxConns < 1 {
+		return nil, errors.Wrap(errors.ErrConfiguration, "invalid pool size [%v]", maxConns)
+	}
+
 	dPool := pool.NewObjectPool(context.Background(), &ConnectionPooledObjectFactory{connectionString: connStr}, &pool.ObjectPoolConfig{
 		LIFO:                     true,
 		MaxTotal:                 maxConns,
-- 
2.43.0


From aaa40dd2d463640903b0e1f5fa3c32c039d69828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:50 +0000
Subject: [PATCH 32/63] fix: wait for a pooled connection without holding up
 close and return

---
 driver_pool.go | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/driver_pool.go b/driver_pool.go
index 082a056..da2ef9c 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -15,6 +15,10 @@ type driverPool struct {
 	pool     *pool.ObjectPool
 	refLock  sync.Mutex
 	closed   bool
+
+	// one place for every connection on loan
+	places chan struct{}
+	done   chan struct{}
 }
 
 func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
@@ -31,7 +35,7 @@ func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
 		TestOnBorrow:             true,
 		TestOnReturn:             true,
 		TestWhileIdle:            true,
-		BlockWhenExhausted:       true,
+		BlockWhenExhausted:       false, // whoever has a place finds a connection or makes one
 		MinEvictableIdleTime:     pool.DefaultMinEvictableIdleTime,
 		SoftMinEvictableIdleTime: pool.DefaultSoftMinEvictableIdleTime,
 		NumTestsPerEvictionRun:   3,
@@ -42,32 +46,53 @@ func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
 		connStr:  connStr,
 		maxConns: maxConns,
 		pool:     dPool,
+		places:   make(chan struct{}, maxConns),
+		done:     make(chan struct{}),
 	}, nil
 }
 
 func (d *driverPool) open() (connection.IConnection, error) {
-	d.refLock.Lock()
-	defer d.refLock.Unlock()
-	if !d.closed {
+	if !d.isClosed() {
+		// wait for a place without holding the lock, so that the pool can be closed
+		select {
+		case d.places <- struct{}{}:
+		case <-d.done:
+			return nil, errors.New("Driver pool has been closed")
+		}
+
 		connObj, err := d.pool.BorrowObject(context.Background())
 		if err != nil {
+			<-d.places
 			return nil, err
 		}
 
 		conn, ok := connObj.(connection.IConnection)
 		if !ok {
+			<-d.places
 			return nil, errors.Wrap(errors.ErrInternal, "cannot cast from [%T] to [IConnection]", connObj)
 		}
 
 		if !conn.ValidateOpen() {
+			_ = d.reclaim(conn)
 			return nil, errors.New("pool returned dead connection")
 		}
 
+		if d.isClosed() {
+			_ = d.reclaim(conn)
+			return nil, errors.New("Driver pool has been closed")
+		}
+
 		return conn, nil
 	}
 	return nil, errors.New("Driver pool has been closed")
 }
 
+func (d *driverPool) isClosed() bool {
+	d.refLock.Lock()
+	defer d.refLock.Unlock()
+	return d.closed
+}
+
 func (d *driverPool) close() error {
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
@@ -80,9 +105,10 @@ func (d *driverPool) close() error {
 		return errors.Wrap(errors.ErrPool, "connection pool is nil")
 	}
 
-	d.pool.Close(context.Background())
-
 	d.closed = true
+	close(d.done)
+
+	d.pool.Close(context.Background())
 
 	return nil
 }
@@ -92,7 +118,13 @@ func (d *driverPool) reclaim(conn connection.IConnection) error {
 		return errors.New("cannot reclaim nil connection")
 	}
 
-	return d.pool.ReturnObject(context.Background(), conn)
+	err := d.pool.ReturnObject(context.Background(), conn)
+	if err != nil {
+		return err
+	}
+
+	<-d.places
+	return nil
 }
 
 // ----------------------
-- 
2.43.0


From ea8d3ee3e2937e5067d1f02f4b4aaa1be6724109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 33/63] fix: escape user and password in connection strings,
 and accept IPv6 hosts

---
 client.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index bc35b0e..da6d4af 100644
--- a/client.go
+++ b/client.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mindstand/go-bolt/errors"
 	"math"
+	"net"
 	"net/url"
 	"strconv"
 	"strings"
@@ -95,7 +96,12 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "user can not be empty")
 		}
 
-		client.connStr = fmt.Sprintf("%s://%s:%s@%s:%v", protocol, client.user, client.password, client.host, client.port)
+		connURL := url.URL{
+			Scheme: protocol,
+			User:   url.UserPassword(client.user, client.password),
+			Host:   net.JoinHostPort(strings.TrimSuffix(strings.TrimPrefix(client.host, "["), "]"), strconv.Itoa(client.port)),
+		}
+		client.connStr = connURL.String()
 
 		// append tls portion if needed
 		if client.useTLS {
@@ -112,14 +118,9 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
 		}
 
-		hostPort := _url.Host
-		if strings.Contains(hostPort, ":") {
-			parts := strings.Split(hostPort, ":")
-			if len(parts) != 2 {
-				return nil, errors.New("host/port invalid")
-			}
-			client.host = parts[0]
-			_port, err := strconv.ParseInt(parts[1], 10, 64)
+		client.host = _url.Hostname()
+		if port := _url.Port(); port != "" {
+			_port, err := strconv.ParseInt(port, 10, 64)
 			if err != nil {
 				return nil, err
 			}
@@ -201,7 +202,7 @@ func (c *Client) getUsernamePassword() (string, error) {
 		pwd = ""
 	}
 
-	return fmt.Sprintf("%s:%s", u.User.Username(), pwd), nil
+	return url.UserPassword(u.User.Username(), pwd).String(), nil
 }
 
 func (c *Client) NewDriver() (IDriver, error) {
-- 
2.43.0


From df3789f3e798fbb93da9a5e05039ee8662860f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 34/63] fix: encrypt the connections of a client and of its
 routing pool when TLS is configured

---
 client.go              | 40 ++++++++++++++--------------------------
 driver_routing_pool.go |  2 +-
 2 files changed, 15 insertions(+), 27 deletions(-)

diff --git a/client.go b/client.go
index da6d4af..5d9ea3b 100644
--- a/client.go
+++ b/client.go
@@ -104,11 +104,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 		client.connStr = connURL.String()
 
 		// append tls portion if needed
-		if client.useTLS {
-			tlsPortion := fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-				client.certFile, client.keyFile, client.caCertFile, client.tlsNoVerify)
-			client.connStr += tlsPortion
-		}
+		client.connStr += client.getTlsPortion()
 	} else {
 		client.routing = strings.Contains(client.connStr, "+routing")
 		_url, err := url.Parse(client.connStr)
@@ -162,29 +158,21 @@ func NewClient(opts ...Opt) (IClient, error) {
 	return client, nil
 }
 
-func (c *Client) getTlsPortion() (string, error) {
-	if c.certFile != "" {
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-			c.certFile, c.keyFile, c.caCertFile, c.tlsNoVerify), nil
-	} else {
-		// parse connection string
-		u, err := url.Parse(c.connStr)
-		if err != nil {
-			return "", nil
-		}
-
-		certFile := u.Query().Get("tls_cert_file")
-		keyFile := u.Query().Get("tls_key_file")
-		caCertFile := u.Query().Get("tls_ca_cert_file")
-		tlsNoVerify := u.Query().Get("tls_no_verify")
-
-		if certFile == "" {
-			return "", nil
-		}
+// getTlsPortion is the query part of a connection string that carries the tls settings
+func (c *Client) getTlsPortion() string {
+	if !c.useTLS {
+		return ""
+	}
 
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%s",
-			certFile, keyFile, caCertFile, tlsNoVerify), nil
+	query := url.Values{
+		"tls":              {"true"},
+		"tls_cert_file":    {c.certFile},
+		"tls_key_file":     {c.keyFile},
+		"tls_ca_cert_file": {c.caCertFile},
+		"tls_no_verify":    {strconv.FormatBool(c.tlsNoVerify)},
 	}
+
+	return "?" + query.Encode()
 }
 
 func (c *Client) getUsernamePassword() (string, error) {
diff --git a/driver_routing_pool.go b/driver_routing_pool.go
index bd12fc4..a5ee90a 100644
--- a/driver_routing_pool.go
+++ b/driver_routing_pool.go
@@ -20,7 +20,7 @@ func newRoutingPool(client *Client, size int) (*RoutingDriverPool, error) {
 	}
 
 	userPart, _ := client.getUsernamePassword()
-	tlsPart, _ := client.getTlsPortion()
+	tlsPart := client.getTlsPortion()
 
 	internalPool, err := routing.NewRoutingPool(client.connStr, size, refreshInterval, userPart, tlsPart)
 	if err != nil {
-- 
2.43.0


From 66f9ea692d9ef6d669d7a94e3582ac5a4f6c80da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 35/63] fix: take routing from the scheme of the connection
 string only

---
 client.go       | 2 +-
 routing/pool.go | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 5d9ea3b..5e56247 100644
--- a/client.go
+++ b/client.go
@@ -106,7 +106,6 @@ func NewClient(opts ...Opt) (IClient, error) {
 		// append tls portion if needed
 		client.connStr += client.getTlsPortion()
 	} else {
-		client.routing = strings.Contains(client.connStr, "+routing")
 		_url, err := url.Parse(client.connStr)
 		if err != nil {
 			return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
@@ -114,6 +113,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
 		}
 
+		client.routing = strings.ToLower(_url.Scheme) == "bolt+routing"
 		client.host = _url.Hostname()
 		if port := _url.Port(); port != "" {
 			_port, err := strconv.ParseInt(port, 10, 64)
diff --git a/routing/pool.go b/routing/pool.go
index 2451d5f..f8e9a21 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -57,8 +57,9 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		return nil, errors.New("leaderConnStr can not be nil")
 	}
 
-	if strings.Contains(leaderConnStr, "+routing") {
-		leaderConnStr = strings.Replace(leaderConnStr, "+routing", "", -1)
+	const routingScheme = "bolt+routing://"
+	if strings.HasPrefix(strings.ToLower(leaderConnStr), routingScheme) {
+		leaderConnStr = "bolt://" + leaderConnStr[len(routingScheme):]
 	}
 
 	if numConns == 0 || numConns == 1 {
-- 
2.43.0


From fc27f78381a65ef23092db0c1efce7713ce6870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 36/63] fix: let the timeout and chunk size options take effect

---
 client.go                | 60 ++++++++++++++++++++++++++++------------
 connection/connection.go | 43 ++++++++++++++++++++++++++--
 driver_routing_pool.go   |  7 +++--
 opt.go                   |  4 +++
 4 files changed, 92 insertions(+), 22 deletions(-)

diff --git a/client.go b/client.go
index 5e56247..b926c52 100644
--- a/client.go
+++ b/client.go
@@ -2,6 +2,7 @@ package goBolt
 
 import (
 	"fmt"
+	"github.com/mindstand/go-bolt/connection"
 	"github.com/mindstand/go-bolt/errors"
 	"math"
 	"net"
@@ -61,6 +62,15 @@ func NewClient(opts ...Opt) (IClient, error) {
 		}
 	}
 
+	// settings given as options, to be carried by the connection string
+	settings := url.Values{}
+	if client.timeout != 0 {
+		settings.Set("timeout", connection.FormatTimeout(client.timeout))
+	}
+	if client.chunkSize != 0 {
+		settings.Set("chunk_size", strconv.Itoa(int(client.chunkSize)))
+	}
+
 	// timeout not set
 	if client.timeout == 0 {
 		client.timeout = time.Second * time.Duration(60)
@@ -101,10 +111,18 @@ func NewClient(opts ...Opt) (IClient, error) {
 			User:   url.UserPassword(client.user, client.password),
 			Host:   net.JoinHostPort(strings.TrimSuffix(strings.TrimPrefix(client.host, "["), "]"), strconv.Itoa(client.port)),
 		}
-		client.connStr = connURL.String()
 
 		// append tls portion if needed
-		client.connStr += client.getTlsPortion()
+		if client.useTLS {
+			settings.Set("tls", "true")
+			settings.Set("tls_cert_file", client.certFile)
+			settings.Set("tls_key_file", client.keyFile)
+			settings.Set("tls_ca_cert_file", client.caCertFile)
+			settings.Set("tls_no_verify", strconv.FormatBool(client.tlsNoVerify))
+		}
+
+		connURL.RawQuery = settings.Encode()
+		client.connStr = connURL.String()
 	} else {
 		_url, err := url.Parse(client.connStr)
 		if err != nil {
@@ -135,12 +153,10 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		timeout := _url.Query().Get("timeout")
 		if timeout != "" {
-			timeoutInt, err := strconv.Atoi(timeout)
+			client.timeout, err = connection.ParseTimeout(timeout)
 			if err != nil {
-				return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+				return nil, err
 			}
-
-			client.timeout = time.Duration(timeoutInt) * time.Second
 		}
 
 		useTLS := _url.Query().Get("tls")
@@ -153,26 +169,36 @@ func NewClient(opts ...Opt) (IClient, error) {
 			noVerify := _url.Query().Get("tls_no_verify")
 			client.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
 		}
+
+		if len(settings) != 0 {
+			query := _url.Query()
+			for name, values := range settings {
+				if query.Get(name) != "" {
+					return nil, errors.Wrap(errors.ErrConfiguration, "%s given as option and in the connection string", name)
+				}
+				query[name] = values
+			}
+			_url.RawQuery = query.Encode()
+			client.connStr = _url.String()
+		}
 	}
 
 	return client, nil
 }
 
-// getTlsPortion is the query part of a connection string that carries the tls settings
-func (c *Client) getTlsPortion() string {
-	if !c.useTLS {
-		return ""
+// getSettingsPortion is the query part of the connection string, which carries
+// everything but who connects to where
+func (c *Client) getSettingsPortion() (string, error) {
+	u, err := url.Parse(c.connStr)
+	if err != nil {
+		return "", err
 	}
 
-	query := url.Values{
-		"tls":              {"true"},
-		"tls_cert_file":    {c.certFile},
-		"tls_key_file":     {c.keyFile},
-		"tls_ca_cert_file": {c.caCertFile},
-		"tls_no_verify":    {strconv.FormatBool(c.tlsNoVerify)},
+	if u.RawQuery == "" {
+		return "", nil
 	}
 
-	return "?" + query.Encode()
+	return "?" + u.RawQuery, nil
 }
 
 func (c *Client) getUsernamePassword() (string, error) {
diff --git a/connection/connection.go b/connection/connection.go
index 459bed6..d72e22a 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -140,12 +140,20 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 
 	timeout := _url.Query().Get("timeout")
 	if timeout != "" {
-		timeoutInt, err := strconv.Atoi(timeout)
+		connection.timeout, err = ParseTimeout(timeout)
 		if err != nil {
-			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+			return nil, err
+		}
+	}
+
+	chunkSize := _url.Query().Get("chunk_size")
+	if chunkSize != "" {
+		size, err := strconv.ParseUint(chunkSize, 10, 16)
+		if err != nil || size == 0 {
+			return nil, fmt.Errorf("Invalid chunk size: %s.  Must be between 1 and %v", chunkSize, math.MaxUint16)
 		}
 
-		connection.timeout = time.Duration(timeoutInt) * time.Second
+		connection.chunkSize = uint16(size)
 	}
 
 	useTLS := _url.Query().Get("tls")
@@ -162,6 +170,35 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	return &connection, nil
 }
 
+// ParseTimeout reads a timeout of a connection string: a number of seconds, or
+// a duration with its unit
+func ParseTimeout(timeout string) (time.Duration, error) {
+	var parsed time.Duration
+	if seconds, err := strconv.Atoi(timeout); err == nil {
+		parsed = time.Duration(seconds) * time.Second
+		if parsed/time.Second != time.Duration(seconds) {
+			return 0, fmt.Errorf("Invalid timeout: %s.  Out of range", timeout)
+		}
+	} else if parsed, err = time.ParseDuration(timeout); err != nil {
+		return 0, fmt.Errorf("Invalid format for timeout: %s.  Must be integer or duration", timeout)
+	}
+
+	if parsed <= 0 {
+		return 0, fmt.Errorf("Invalid timeout: %s.  Must be positive", timeout)
+	}
+
+	return parsed, nil
+}
+
+// FormatTimeout writes a timeout the way ParseTimeout reads it
+func FormatTimeout(timeout time.Duration) string {
+	if timeout%time.Second == 0 {
+		return strconv.Itoa(int(timeout / time.Second))
+	}
+
+	return timeout.String()
+}
+
 func (c *Connection) GetConnectionId() string {
 	return c.id
 }
diff --git a/driver_routing_pool.go b/driver_routing_pool.go
index a5ee90a..31a7537 100644
--- a/driver_routing_pool.go
+++ b/driver_routing_pool.go
@@ -20,9 +20,12 @@ func newRoutingPool(client *Client, size int) (*RoutingDriverPool, error) {
 	}
 
 	userPart, _ := client.getUsernamePassword()
-	tlsPart := client.getTlsPortion()
+	settingsPart, err := client.getSettingsPortion()
+	if err != nil {
+		return nil, err
+	}
 
-	internalPool, err := routing.NewRoutingPool(client.connStr, size, refreshInterval, userPart, tlsPart)
+	internalPool, err := routing.NewRoutingPool(client.connStr, size, refreshInterval, userPart, settingsPart)
 	if err != nil {
 		return nil, err
 	}
diff --git a/opt.go b/opt.go
index 5380af0..1aa99cc 100644
--- a/opt.go
+++ b/opt.go
@@ -163,6 +163,10 @@ func WithTimeout(timeout time.Duration) Opt {
 			return errors.Wrap(errors.ErrConfiguration, "client can not be nil")
 		}
 
+		if timeout < 0 {
+			return errors.Wrap(errors.ErrConfiguration, "timeout can not be negative")
+		}
+
 		client.timeout = timeout
 		return nil
 	}
-- 
2.43.0


From 4e1aed025bec07d27a418f970be0fcc56c0911d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 37/63] fix: apply credentials and TLS given besides a
 connection string, and refuse contradictions

---
 client.go | 59 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/client.go b/client.go
index b926c52..f6b01cb 100644
--- a/client.go
+++ b/client.go
@@ -71,6 +71,15 @@ func NewClient(opts ...Opt) (IClient, error) {
 		settings.Set("chunk_size", strconv.Itoa(int(client.chunkSize)))
 	}
 
+	// tls portion if needed
+	if client.useTLS {
+		settings.Set("tls", "true")
+		settings.Set("tls_cert_file", client.certFile)
+		settings.Set("tls_key_file", client.keyFile)
+		settings.Set("tls_ca_cert_file", client.caCertFile)
+		settings.Set("tls_no_verify", strconv.FormatBool(client.tlsNoVerify))
+	}
+
 	// timeout not set
 	if client.timeout == 0 {
 		client.timeout = time.Second * time.Duration(60)
@@ -112,15 +121,6 @@ func NewClient(opts ...Opt) (IClient, error) {
 			Host:   net.JoinHostPort(strings.TrimSuffix(strings.TrimPrefix(client.host, "["), "]"), strconv.Itoa(client.port)),
 		}
 
-		// append tls portion if needed
-		if client.useTLS {
-			settings.Set("tls", "true")
-			settings.Set("tls_cert_file", client.certFile)
-			settings.Set("tls_key_file", client.keyFile)
-			settings.Set("tls_ca_cert_file", client.caCertFile)
-			settings.Set("tls_no_verify", strconv.FormatBool(client.tlsNoVerify))
-		}
-
 		connURL.RawQuery = settings.Encode()
 		client.connStr = connURL.String()
 	} else {
@@ -131,6 +131,35 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
 		}
 
+		if client.routing {
+			return nil, errors.Wrap(errors.ErrConfiguration, "can not call WithConnectionString and WithRouting")
+		}
+
+		// options given besides the connection string
+		if client.user != "" || client.password != "" {
+			if client.user == "" {
+				return nil, errors.Wrap(errors.ErrConfiguration, "user can not be empty")
+			}
+
+			if _url.User != nil {
+				return nil, errors.Wrap(errors.ErrConfiguration, "user given as option and in the connection string")
+			}
+			_url.User = url.UserPassword(client.user, client.password)
+			client.connStr = _url.String()
+		}
+
+		if len(settings) != 0 {
+			query := _url.Query()
+			for name, values := range settings {
+				if query.Get(name) != "" {
+					return nil, errors.Wrap(errors.ErrConfiguration, "%s given as option and in the connection string", name)
+				}
+				query[name] = values
+			}
+			_url.RawQuery = query.Encode()
+			client.connStr = _url.String()
+		}
+
 		client.routing = strings.ToLower(_url.Scheme) == "bolt+routing"
 		client.host = _url.Hostname()
 		if port := _url.Port(); port != "" {
@@ -169,18 +198,6 @@ func NewClient(opts ...Opt) (IClient, error) {
 			noVerify := _url.Query().Get("tls_no_verify")
 			client.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
 		}
-
-		if len(settings) != 0 {
-			query := _url.Query()
-			for name, values := range settings {
-				if query.Get(name) != "" {
-					return nil, errors.Wrap(errors.ErrConfiguration, "%s given as option and in the connection string", name)
-				}
-				query[name] = values
-			}
-			_url.RawQuery = query.Encode()
-			client.connStr = _url.String()
-		}
 	}
 
 	return client, nil
-- 
2.43.0


From 1a2039db7a81d2f815630eb372446454b356a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:29 +0000
Subject: [PATCH 38/63] fix: let the protocol version options take effect

---
 client.go                | 30 ++++++++++++++++++++++++++++++
 connection/connection.go | 34 ++++++++++++++++++++++++++++++++--
 connection/const.go      | 23 +++++++++++++++--------
 3 files changed, 77 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index f6b01cb..eb93759 100644
--- a/client.go
+++ b/client.go
@@ -71,6 +71,14 @@ func NewClient(opts ...Opt) (IClient, error) {
 		settings.Set("chunk_size", strconv.Itoa(int(client.chunkSize)))
 	}
 
+	versions, err := client.versions()
+	if err != nil {
+		return nil, err
+	}
+	if versions != "" {
+		settings.Set("versions", versions)
+	}
+
 	// tls portion if needed
 	if client.useTLS {
 		settings.Set("tls", "true")
@@ -203,6 +211,28 @@ func NewClient(opts ...Opt) (IClient, error) {
 	return client, nil
 }
 
+// versions lists the protocol versions the options allow, "" if that is all
+func (c *Client) versions() (string, error) {
+	if c.serverVersion == 0 && c.protocolGreaterThan == 0 && c.protocolLessThan == 0 {
+		return "", nil
+	}
+
+	var allowed []string
+	for version := 4; version >= 1; version-- {
+		if (c.serverVersion == 0 || version == c.serverVersion) &&
+			(c.protocolGreaterThan == 0 || version > c.protocolGreaterThan) &&
+			(c.protocolLessThan == 0 || version < c.protocolLessThan) {
+			allowed = append(allowed, strconv.Itoa(version))
+		}
+	}
+
+	if len(allowed) == 0 {
+		return "", errors.Wrap(errors.ErrConfiguration, "no protocol version satisfies the options")
+	}
+
+	return strings.Join(allowed, ","), nil
+}
+
 // getSettingsPortion is the query part of the connection string, which carries
 // everything but who connects to where
 func (c *Client) getSettingsPortion() (string, error) {
diff --git a/connection/connection.go b/connection/connection.go
index d72e22a..04be084 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -63,6 +63,7 @@ type Connection struct {
 	boltProtocol         protocol.IBoltProtocol
 	protocolVersion      int
 	protocolVersionBytes []byte
+	versions             []int // that may be negotiated
 
 	// connection information
 	user     string
@@ -156,6 +157,11 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 		connection.chunkSize = uint16(size)
 	}
 
+	connection.versions, err = parseVersions(_url.Query().Get("versions"))
+	if err != nil {
+		return nil, err
+	}
+
 	useTLS := _url.Query().Get("tls")
 	connection.useTLS = strings.HasPrefix(strings.ToLower(useTLS), "t") || useTLS == "1"
 
@@ -170,6 +176,24 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	return &connection, nil
 }
 
+// parseVersions reads the protocol versions that may be negotiated, all of them by default
+func parseVersions(list string) ([]int, error) {
+	if list == "" {
+		return []int{4, 3, 2, 1}, nil
+	}
+
+	var versions []int
+	for _, part := range strings.Split(list, ",") {
+		version, err := strconv.Atoi(part)
+		if err != nil || version < 1 || version > 4 || len(versions) == 4 {
+			return nil, fmt.Errorf("Invalid protocol versions: %s", list)
+		}
+		versions = append(versions, version)
+	}
+
+	return versions, nil
+}
+
 // ParseTimeout reads a timeout of a connection string: a number of seconds, or
 // a duration with its unit
 func ParseTimeout(timeout string) (time.Duration, error) {
@@ -281,7 +305,7 @@ func (c *Connection) tlsConfig() (*tls.Config, error) {
 }
 
 func (c *Connection) handshake() ([]byte, error) {
-	numWritten, err := c.readWrite.Write(handShake)
+	numWritten, err := c.readWrite.Write(handShake(c.versions))
 	if err != nil {
 		return nil, err
 	} else if numWritten != 20 {
@@ -296,7 +320,13 @@ func (c *Connection) handshake() ([]byte, error) {
 		return nil, errors.New("server responded with no supported version")
 	}
 
-	return version, nil
+	for _, offered := range c.versions {
+		if bytes.Equal(version, versionBytes(offered)) {
+			return version, nil
+		}
+	}
+
+	return nil, fmt.Errorf("server responded with version [%v], which was not offered", version)
 }
 
 func (c *Connection) initialize() error {
diff --git a/connection/const.go b/connection/const.go
index 359b206..6e87207 100644
--- a/connection/const.go
+++ b/connection/const.go
@@ -1,14 +1,7 @@
 package connection
 
 var (
-	magicPreamble     = []byte{0x60, 0x60, 0xb0, 0x17}
-	supportedVersions = []byte{
-		0x00, 0x00, 0x00, 0x04, // bolt v4
-		0x00, 0x00, 0x00, 0x03, // bolt v3
-		0x00, 0x00, 0x00, 0x02, // bolt v2
-		0x00, 0x00, 0x00, 0x01, // bolt v1
-	}
-	handShake          = append(magicPreamble, supportedVersions...)
+	magicPreamble      = []byte{0x60, 0x60, 0xb0, 0x17}
 	noVersionSupported = []byte{0x00, 0x00, 0x00, 0x00}
 	// Version is the current version of this driver
 	Version = "0.1"
@@ -16,6 +9,20 @@ var (
 	ClientID = "GoBolt/" + Version
 )
 
+// handShake offers up to four versions
+func handShake(versions []int) []byte {
+	offer := append([]byte{}, magicPreamble...)
+	for _, version := range versions {
+		offer = append(offer, versionBytes(version)...)
+	}
+
+	return append(offer, make([]byte, 20-len(offer))...)
+}
+
+func versionBytes(version int) []byte {
+	return []byte{0x00, 0x00, 0x00, byte(version)}
+}
+
 type QueryParams map[string]interface{}
 
 func (q *QueryParams) GetMap() map[string]interface{} {
-- 
2.43.0


From 237380142e56f2e487e312e3b71f5cb77364cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 39/63] fix: refuse a key file without certificate and a CA
 file without certificates

---
 connection/connection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 04be084..61f5052 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -279,7 +279,9 @@ func (c *Connection) tlsConfig() (*tls.Config, error) {
 			return nil, err
 		}
 		caCertPool := x509.NewCertPool()
-		caCertPool.AppendCertsFromPEM(caCert)
+		if !caCertPool.AppendCertsFromPEM(caCert) {
+			return nil, fmt.Errorf("no certificate found in [%s]", c.caCertFile)
+		}
 
 		config.RootCAs = caCertPool
 	}
@@ -295,6 +297,8 @@ func (c *Connection) tlsConfig() (*tls.Config, error) {
 		}
 
 		config.Certificates = []tls.Certificate{cert}
+	} else if c.keyFile != "" {
+		return nil, errors.New("If you're providing a key file, you must also provide a cert file")
 	}
 
 	if c.tlsNoVerify {
-- 
2.43.0


From 7edf1a0854a51e2fd3b37194c19c00baf1b8d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:04 +0000
Subject: [PATCH 40/63] fix: refuse unrecognised values of the TLS switches and
 malformed settings in connection strings

---
 client.go                |  6 +++++-
 connection/connection.go | 41 ++++++++++++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index eb93759..e8ab2dc 100644
--- a/client.go
+++ b/client.go
@@ -157,7 +157,11 @@ func NewClient(opts ...Opt) (IClient, error) {
 		}
 
 		if len(settings) != 0 {
-			query := _url.Query()
+			query, err := url.ParseQuery(_url.RawQuery)
+			if err != nil {
+				return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
+			}
+
 			for name, values := range settings {
 				if query.Get(name) != "" {
 					return nil, errors.Wrap(errors.ErrConfiguration, "%s given as option and in the connection string", name)
diff --git a/connection/connection.go b/connection/connection.go
index 61f5052..70c4457 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -130,6 +130,11 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 
 	connection.hostPort = _url.Host
 
+	query, err := url.ParseQuery(_url.RawQuery)
+	if err != nil {
+		return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
+	}
+
 	if _url.User != nil {
 		connection.user = _url.User.Username()
 		var isSet bool
@@ -139,7 +144,7 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 		}
 	}
 
-	timeout := _url.Query().Get("timeout")
+	timeout := query.Get("timeout")
 	if timeout != "" {
 		connection.timeout, err = ParseTimeout(timeout)
 		if err != nil {
@@ -147,7 +152,7 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 		}
 	}
 
-	chunkSize := _url.Query().Get("chunk_size")
+	chunkSize := query.Get("chunk_size")
 	if chunkSize != "" {
 		size, err := strconv.ParseUint(chunkSize, 10, 16)
 		if err != nil || size == 0 {
@@ -157,25 +162,41 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 		connection.chunkSize = uint16(size)
 	}
 
-	connection.versions, err = parseVersions(_url.Query().Get("versions"))
+	connection.versions, err = parseVersions(query.Get("versions"))
 	if err != nil {
 		return nil, err
 	}
 
-	useTLS := _url.Query().Get("tls")
-	connection.useTLS = strings.HasPrefix(strings.ToLower(useTLS), "t") || useTLS == "1"
+	connection.useTLS, err = parseSwitch("tls", query.Get("tls"))
+	if err != nil {
+		return nil, err
+	}
 
 	if connection.useTLS {
-		connection.certFile = _url.Query().Get("tls_cert_file")
-		connection.keyFile = _url.Query().Get("tls_key_file")
-		connection.caCertFile = _url.Query().Get("tls_ca_cert_file")
-		noVerify := _url.Query().Get("tls_no_verify")
-		connection.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
+		connection.certFile = query.Get("tls_cert_file")
+		connection.keyFile = query.Get("tls_key_file")
+		connection.caCertFile = query.Get("tls_ca_cert_file")
+		connection.tlsNoVerify, err = parseSwitch("tls_no_verify", query.Get("tls_no_verify"))
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return &connection, nil
 }
 
+// parseSwitch reads a setting that is on or off
+func parseSwitch(name, value string) (bool, error) {
+	switch lower := strings.ToLower(value); {
+	case strings.HasPrefix(lower, "t"), lower == "1":
+		return true, nil
+	case strings.HasPrefix(lower, "f"), lower == "0", lower == "":
+		return false, nil
+	default:
+		return false, fmt.Errorf("Invalid value for %s: %s.  Must be true or false", name, value)
+	}
+}
+
 // parseVersions reads the protocol versions that may be negotiated, all of them by default
 func parseVersions(list string) ([]int, error) {
 	if list == "" {
-- 
2.43.0


From 02339f03459eed486e40cc52218b60bd0fcd66ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 41/63] fix: borrow from the routing pool under the exclusive
 lock

---
 routing/pool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index f8e9a21..c7f654e 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -460,8 +460,8 @@ func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, erro
 }
 
 func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 
 	connWrap, err := r.internalBorrow(r.readQueue)
 	if err != nil {
@@ -472,8 +472,8 @@ func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
 }
 
 func (r *routingPool) BorrowRWConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 
 	connWrap, err := r.internalBorrow(r.writeQueue)
 	if err != nil {
-- 
2.43.0


From 7449d283cac500f9675124dfcd72ddcebd351e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:27 +0000
Subject: [PATCH 42/63] fix: close connections removed from the routing pool

---
 routing/pool.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index c7f654e..d548e08 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -104,14 +104,12 @@ func (r *routingPool) removeConn(conn *connectionPoolWrapper) error {
 		return errors.New("invalid connection, can not be nil")
 	}
 
-	if !conn.Connection.ValidateOpen() {
-		err := conn.Connection.Close()
-		if err != nil {
-			return err
-		}
+	delete(r.heldConns, conn.Connection.GetConnectionId())
+
+	if conn.Connection.ValidateOpen() {
+		return conn.Connection.Close()
 	}
 
-	delete(r.heldConns, conn.Connection.GetConnectionId())
 	return nil
 }
 
-- 
2.43.0


From 6c00949c3a90aabd9228f9583efb8c747925227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:27 +0000
Subject: [PATCH 43/63] fix: keep the routing indexes within a shrunken cluster

---
 routing/pool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index d548e08..021d801 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -122,7 +122,7 @@ func (r *routingPool) addWriteConn() error {
 	r.rwIndex++
 
 	// make sure its not an overflow
-	if r.rwIndex == len(r.rwStrings) {
+	if r.rwIndex >= len(r.rwStrings) {
 		r.rwIndex = 0
 	}
 
@@ -147,7 +147,7 @@ func (r *routingPool) addReadConn() error {
 	r.readIndex++
 
 	// make sure its not an overflow
-	if r.readIndex == len(r.readStrings) {
+	if r.readIndex >= len(r.readStrings) {
 		r.readIndex = 0
 	}
 
-- 
2.43.0


From 6685c370181ba659a9abacb49f4a46f37c750500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:29 +0000
Subject: [PATCH 44/63] fix: take only bolt addresses from the cluster overview

---
 routing/routing_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/routing/routing_handler.go b/routing/routing_handler.go
index 15ff404..1f418e3 100644
--- a/routing/routing_handler.go
+++ b/routing/routing_handler.go
@@ -130,7 +130,7 @@ func (c *boltRoutingHandler) refreshClusterInfo(conn connection.IConnection) err
 		var boltStr string
 
 		for _, str := range addresses {
-			if strings.Contains(str, "bolt") {
+			if strings.HasPrefix(str, "bolt://") {
 				boltStr = str
 			}
 		}
-- 
2.43.0


From 9a44d9ed6e1cde5cad7efc74155db7d1875ec834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:30 +0000
Subject: [PATCH 45/63] fix: skip cluster members in other roles

---
 routing/routing_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/routing/routing_handler.go b/routing/routing_handler.go
index 1f418e3..9d5ef7b 100644
--- a/routing/routing_handler.go
+++ b/routing/routing_handler.go
@@ -163,7 +163,7 @@ func (c *boltRoutingHandler) refreshClusterInfo(conn connection.IConnection) err
 			readReplicas = append(readReplicas, node)
 			break
 		default:
-			return fmt.Errorf("unknown node type [%v]", nodeType)
+			log.Tracef("skipping id [%v] in role [%s]", id, role)
 		}
 	}
 
-- 
2.43.0


From ea86c1101e68c0963021ae348b0386e7e06bacec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 46/63] fix: guard the random source shared by the routing
 pools

---
 routing/util.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/routing/util.go b/routing/util.go
index 8d4e151..7db3e54 100644
--- a/routing/util.go
+++ b/routing/util.go
@@ -2,13 +2,20 @@ package routing
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
 var seededRand *rand.Rand = rand.New(
 	rand.NewSource(time.Now().UnixNano()))
 
+// pools share the source, it's not safe for concurrent use
+var seededRandMutex sync.Mutex
+
 func stringWithCharset(length int, charset string) string {
+	seededRandMutex.Lock()
+	defer seededRandMutex.Unlock()
+
 	b := make([]byte, length)
 	for i := range b {
 		b[i] = charset[seededRand.Intn(len(charset))]
-- 
2.43.0


From 845fe2bce343393c63825c9c971e30af6ac10acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 47/63] fix: refuse a negative size for the routing pool

---
 routing/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/routing/pool.go b/routing/pool.go
index 021d801..e741e51 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -62,7 +62,7 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		leaderConnStr = "bolt://" + leaderConnStr[len(routingScheme):]
 	}
 
-	if numConns == 0 || numConns == 1 {
+	if numConns < 2 {
 		return nil, fmt.Errorf("number of connections must be greater than 1, provided [%v]", numConns)
 	}
 
-- 
2.43.0


From eda895115fb13302c50cad4507d01e8629de725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 48/63] fix: connect to cluster members without credentials
 when none are configured

---
 routing/pool.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/routing/pool.go b/routing/pool.go
index e741e51..ba36e6a 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -556,5 +556,9 @@ func (r *routingPool) addAuthInfoToConnStr(connStr string) string {
 	}
 
 	hostPort := strings.Replace(connStr, "bolt://", "", -1)
+	if r.userPassPart == "" {
+		return fmt.Sprintf("bolt://%s%s", hostPort, r.tlsInfo)
+	}
+
 	return fmt.Sprintf("bolt://%s@%s%s", r.userPassPart, hostPort, r.tlsInfo)
 }
-- 
2.43.0


From 6a2fc060e49210388fba1ca9b45efd9e6bffbf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:11 +0000
Subject: [PATCH 49/63] fix: drop connections to servers that left their role

---
 routing/pool.go | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index ba36e6a..094244d 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -36,7 +36,6 @@ type routingPool struct {
 	routingHandler  *boltRoutingHandler
 
 	// lookups
-	connStrLookup map[string][]*connectionPoolWrapper
 	borrowedConns map[string]*connectionPoolWrapper
 	heldConns     map[string]*connectionPoolWrapper
 
@@ -87,7 +86,6 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 			Followers:    []neoNodeConfig{},
 			ReadReplicas: []neoNodeConfig{},
 		},
-		connStrLookup: map[string][]*connectionPoolWrapper{},
 		borrowedConns: map[string]*connectionPoolWrapper{},
 		heldConns:     map[string]*connectionPoolWrapper{},
 		rwStrings:     []string{},
@@ -198,17 +196,22 @@ func (r *routingPool) refreshConnections() {
 	defer conn.Close()
 
 	err = r.routingHandler.refreshClusterInfo(conn)
+	if err != nil {
+		// go on with what is known
+		log.Error(err)
+		return
+	}
 
-	newWriteStrs := r.routingHandler.getWriteConnectionStrings()
-	newReadStrs := r.routingHandler.getReadOnlyConnectionString()
+	newWriteStrs := r.addAuthInfoToConnStrs(r.routingHandler.getWriteConnectionStrings())
+	newReadStrs := r.addAuthInfoToConnStrs(r.routingHandler.getReadOnlyConnectionString())
 
-	var deadStrs, actualWrites, actualReads []string
+	var deadWrites, deadReads, actualWrites, actualReads []string
 
 	// check for dead strings
 	for _, curStr := range r.rwStrings {
 		// string is not found, so it must be dead
 		if !stringSliceContains(newWriteStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
+			deadWrites = append(deadWrites, curStr)
 		} else {
 			actualWrites = append(actualWrites, curStr)
 		}
@@ -217,7 +220,7 @@ func (r *routingPool) refreshConnections() {
 	for _, curStr := range r.readStrings {
 		// string is not found, so it must be dead
 		if !stringSliceContains(newReadStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
+			deadReads = append(deadReads, curStr)
 		} else {
 			actualReads = append(actualReads, curStr)
 		}
@@ -225,33 +228,27 @@ func (r *routingPool) refreshConnections() {
 
 	// add anything new
 	for _, newStr := range newWriteStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
 		if !stringSliceContains(actualWrites, newStr) {
 			actualWrites = append(actualWrites, newStr)
 		}
 	}
 
 	for _, newStr := range newReadStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
 		if !stringSliceContains(actualReads, newStr) {
 			actualReads = append(actualReads, newStr)
 		}
 	}
 
 	// mark them for deletion, system will rebalance elsewhere
-	if len(deadStrs) != 0 {
-		for _, str := range deadStrs {
-			conns, ok := r.connStrLookup[str]
-			if !ok || conns == nil || len(conns) == 0 {
-				continue
+	for _, conns := range []map[string]*connectionPoolWrapper{r.heldConns, r.borrowedConns} {
+		for _, connWrap := range conns {
+			deadStrs := deadReads
+			if connWrap.ConnType == bolt_mode.WriteMode {
+				deadStrs = deadWrites
 			}
 
-			for _, markedConn := range conns {
-				if markedConn == nil {
-					continue
-				}
-
-				markedConn.markForDeletion = true
+			if stringSliceContains(deadStrs, connWrap.ConnStr) {
+				connWrap.markForDeletion = true
 			}
 		}
 	}
@@ -562,3 +559,12 @@ func (r *routingPool) addAuthInfoToConnStr(connStr string) string {
 
 	return fmt.Sprintf("bolt://%s@%s%s", r.userPassPart, hostPort, r.tlsInfo)
 }
+
+func (r *routingPool) addAuthInfoToConnStrs(connStrs []string) []string {
+	var decorated []string
+	for _, connStr := range connStrs {
+		decorated = append(decorated, r.addAuthInfoToConnStr(connStr))
+	}
+
+	return decorated
+}
-- 
2.43.0


From 0e67470ec6c456e66e742ef3c767bf951b22304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 50/63] fix: forget the read connections a refresh closes

---
 routing/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/routing/pool.go b/routing/pool.go
index 094244d..e8d7927 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -262,7 +262,7 @@ func (r *routingPool) prune() {
 	writes := []*connectionPoolWrapper{}
 	for _, connWrap := range r.readQueue.items {
 		if connWrap.markForDeletion {
-			err := connWrap.Connection.Close()
+			err := r.removeConn(connWrap)
 			if err != nil {
 				log.Error(err)
 				continue
-- 
2.43.0


From d5dcae7c0ad7eb819f9accdf3a2e5078e17b5ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 51/63] fix: fill the routing pool up again after a refresh

---
 routing/pool.go | 62 +++++++++++++++++++------------------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index e8d7927..18d50bd 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -288,52 +288,38 @@ func (r *routingPool) prune() {
 	r.readQueue = NewQueueFromSlice(reads...)
 }
 
-func (r *routingPool) balance() {
-	if r.readQueue.Size() < r.minReadIdle {
-		for r.readQueue.Size() == r.minReadIdle {
-			err := r.addReadConn()
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+// size counts the connections of a role, idle and on loan
+func (r *routingPool) size(connType bolt_mode.AccessMode) int {
+	size := r.readQueue.Size()
+	if connType == bolt_mode.WriteMode {
+		size = r.writeQueue.Size()
+	}
+
+	for _, connWrap := range r.borrowedConns {
+		if connWrap.ConnType == connType {
+			size++
 		}
 	}
 
+	return size
+}
+
+func (r *routingPool) balance() {
 	// make sure amount of conns is correct and within limits
-	if r.writeQueue.Size() < r.minWriteIdle {
-		for r.writeQueue.Size() == r.minWriteIdle {
-			err := r.addWriteConn()
-			if err != nil {
-				log.Error(err)
-				continue
-			}
-		}
-	} else if r.writeQueue.Size() > r.maxWriteIdle {
-		for r.writeQueue.Size() == r.maxWriteIdle {
-			err := r.removeConn(r.writeQueue.Dequeue())
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	for r.size(bolt_mode.WriteMode) < r.maxWriteIdle {
+		err := r.addWriteConn()
+		if err != nil {
+			log.Error(err)
+			break
 		}
 	}
 
 	// make sure amount of conns is correct and within limits
-	if r.readQueue.Size() < r.minReadIdle {
-		for r.readQueue.Size() == r.minReadIdle {
-			err := r.addReadConn()
-			if err != nil {
-				log.Error(err)
-				continue
-			}
-		}
-	} else if r.readQueue.Size() > r.maxReadIdle {
-		for r.readQueue.Size() == r.maxReadIdle {
-			err := r.removeConn(r.readQueue.Dequeue())
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	for r.size(bolt_mode.ReadMode) < r.maxReadIdle {
+		err := r.addReadConn()
+		if err != nil {
+			log.Error(err)
+			break
 		}
 	}
 }
-- 
2.43.0


From 7d85747885a22d763b99be887c193a7785cebbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:06 +0000
Subject: [PATCH 52/63] fix: end the refreshing of a stopped routing pool

---
 routing/pool.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 18d50bd..aca8ac5 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -23,6 +23,8 @@ type routingPool struct {
 
 	// running
 	running *int32
+	// closed when stopped
+	stopped chan struct{}
 	// is updating
 	updating *int32
 
@@ -324,11 +326,23 @@ func (r *routingPool) balance() {
 	}
 }
 
-func (r *routingPool) refreshHandler() {
-	for r.isRunning() {
+func (r *routingPool) refreshHandler(stopped <-chan struct{}) {
+	for {
 		// block routine until interval is up
-		<-time.After(r.refreshInterval)
+		select {
+		case <-stopped:
+			return
+		case <-time.After(r.refreshInterval):
+		}
+
 		r.mutex.Lock()
+		select {
+		case <-stopped:
+			r.mutex.Unlock()
+			return
+		default:
+		}
+
 		// refresh connections and mark dead conns
 		r.refreshConnections()
 		// remove dead conns
@@ -340,6 +354,9 @@ func (r *routingPool) refreshHandler() {
 }
 
 func (r *routingPool) Start() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if r.isRunning() {
 		return errors.New("pool already running")
 	}
@@ -379,17 +396,22 @@ func (r *routingPool) Start() error {
 		}
 	}
 
-	go r.refreshHandler()
+	r.stopped = make(chan struct{})
+	go r.refreshHandler(r.stopped)
 
 	return nil
 }
 
 func (r *routingPool) Stop() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if !r.isRunning() {
 		return errors.New("routingPool is not running")
 	}
 
 	r.setRunning(false)
+	close(r.stopped)
 
 	for r.readQueue.Size() != 0 {
 		err := r.removeConn(r.readQueue.Dequeue())
-- 
2.43.0


From f4057b4e213fb4edd779985e7549d8114bb4c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 53/63] fix: release everything when the routing pool can not
 start, or stops

---
 routing/pool.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index aca8ac5..9636309 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -385,6 +385,8 @@ func (r *routingPool) Start() error {
 	for i := 0; i < r.maxWriteIdle; i++ {
 		err := r.addWriteConn()
 		if err != nil {
+			r.setRunning(false)
+			_ = r.releaseIdle()
 			return err
 		}
 	}
@@ -392,6 +394,8 @@ func (r *routingPool) Start() error {
 	for i := 0; i < r.maxReadIdle; i++ {
 		err := r.addReadConn()
 		if err != nil {
+			r.setRunning(false)
+			_ = r.releaseIdle()
 			return err
 		}
 	}
@@ -413,21 +417,28 @@ func (r *routingPool) Stop() error {
 	r.setRunning(false)
 	close(r.stopped)
 
+	return r.releaseIdle()
+}
+
+// releaseIdle closes the connections not on loan, all of them even if one fails to close
+func (r *routingPool) releaseIdle() error {
+	var failed error
+
 	for r.readQueue.Size() != 0 {
 		err := r.removeConn(r.readQueue.Dequeue())
 		if err != nil {
-			return err
+			failed = err
 		}
 	}
 
 	for r.writeQueue.Size() != 0 {
 		err := r.removeConn(r.writeQueue.Dequeue())
 		if err != nil {
-			return err
+			failed = err
 		}
 	}
 
-	return nil
+	return failed
 }
 
 func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, error) {
-- 
2.43.0


From c7062b47da2b2b525d034991c5f50677f75e2de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:08 +0000
Subject: [PATCH 54/63] fix: close connections returned to a stopped routing
 pool

---
 routing/pool.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 9636309..5b6253e 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -522,13 +522,13 @@ func (r *routingPool) setUpdating(b bool) {
 }
 
 func (r *routingPool) Reclaim(conn connection.IConnection) error {
+	if conn == nil {
+		return errors.New("can not reclaim nil connection")
+	}
+
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	if !r.isRunning() {
-		return errors.New("pool is not running")
-	}
-
 	connId := conn.GetConnectionId()
 
 	connWrap, ok := r.borrowedConns[connId]
@@ -542,6 +542,11 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 
 	// remove from borrowed and replace in held
 	delete(r.borrowedConns, connId)
+
+	if !r.isRunning() {
+		return r.removeConn(connWrap)
+	}
+
 	r.heldConns[connId] = connWrap
 
 	// check if the connection is dead, if it is discard and make a new one
-- 
2.43.0


From 7ad175f790a9780c3e843dcd77bd2a564f2c08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 55/63] fix: roll back what is open on connections returned to
 the routing pool, and replace dead ones

---
 routing/pool.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 5b6253e..388287f 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -549,15 +549,23 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 
 	r.heldConns[connId] = connWrap
 
-	// check if the connection is dead, if it is discard and make a new one
-	if !connWrap.Connection.ValidateOpen() {
+	// roll back what is left open
+	err := connWrap.Connection.MakeIdle()
+	if err != nil {
+		log.Error(err)
+	}
+
+	// check if the connection is dead or not wanted any more, if it is discard and make a new one
+	if err != nil || connWrap.markForDeletion || !connWrap.Connection.ValidateOpen() {
 		err := r.removeConn(connWrap)
 		if err != nil {
-			if connWrap.ConnType == bolt_mode.WriteMode {
-				return r.addWriteConn()
-			} else {
-				return r.addReadConn()
-			}
+			log.Error(err)
+		}
+
+		if connWrap.ConnType == bolt_mode.WriteMode {
+			return r.addWriteConn()
+		} else {
+			return r.addReadConn()
 		}
 	}
 
-- 
2.43.0


From 1ed712c3d33038c729561adf3f6071423010b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:36 +0000
Subject: [PATCH 56/63] fix: replace connections that died idle in the routing
 pool

---
 routing/pool.go | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 388287f..f84775a 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -441,30 +441,53 @@ func (r *routingPool) releaseIdle() error {
 	return failed
 }
 
-func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, error) {
+func (r *routingPool) internalBorrow(queue *Queue, connType bolt_mode.AccessMode) (*connectionPoolWrapper, error) {
 	if queue == nil {
 		return nil, errors.New("queue can not be nil")
 	}
 
+	if !r.isRunning() {
+		return nil, errors.New("pool is not running")
+	}
+
 	conn := queue.Dequeue()
 	if conn == nil {
-		return nil, fmt.Errorf("stale queue")
+		maxIdle, add := r.maxReadIdle, r.addReadConn
+		if connType == bolt_mode.WriteMode {
+			maxIdle, add = r.maxWriteIdle, r.addWriteConn
+		}
+
+		if r.size(connType) >= maxIdle {
+			return nil, fmt.Errorf("stale queue")
+		}
+
+		// replace one of those that died
+		err := add()
+		if err != nil {
+			return nil, err
+		}
+
+		conn = queue.Dequeue()
+		if !conn.Connection.ValidateOpen() {
+			_ = r.removeConn(conn)
+			return nil, errors.New("connection closed by the server")
+		}
 	}
 
 	if conn.markForDeletion {
 		err := r.removeConn(conn)
 		if err != nil {
-			return nil, err
+			log.Error(err)
 		}
-		return r.internalBorrow(queue)
+		return r.internalBorrow(queue, connType)
 	}
 
 	if !conn.Connection.ValidateOpen() {
 		err := r.removeConn(conn)
 		if err != nil {
-			return nil, err
+			log.Error(err)
 		}
-		return r.internalBorrow(queue)
+		return r.internalBorrow(queue, connType)
 	}
 
 	delete(r.heldConns, conn.Connection.GetConnectionId())
@@ -477,7 +500,7 @@ func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	connWrap, err := r.internalBorrow(r.readQueue)
+	connWrap, err := r.internalBorrow(r.readQueue, bolt_mode.ReadMode)
 	if err != nil {
 		return nil, err
 	}
@@ -489,7 +512,7 @@ func (r *routingPool) BorrowRWConnection() (connection.IConnection, error) {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	connWrap, err := r.internalBorrow(r.writeQueue)
+	connWrap, err := r.internalBorrow(r.writeQueue, bolt_mode.WriteMode)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From bead0f844a3f44cdf515e64fb29a5d5df61ad762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 57/63] fix: fill the routing pool from the servers that can be
 reached

---
 routing/pool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index f84775a..dfb8732 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -308,20 +308,20 @@ func (r *routingPool) size(connType bolt_mode.AccessMode) int {
 
 func (r *routingPool) balance() {
 	// make sure amount of conns is correct and within limits
-	for r.size(bolt_mode.WriteMode) < r.maxWriteIdle {
+	for failed := 0; r.size(bolt_mode.WriteMode) < r.maxWriteIdle && failed < len(r.rwStrings); {
 		err := r.addWriteConn()
 		if err != nil {
 			log.Error(err)
-			break
+			failed++ // the next one goes to the next server
 		}
 	}
 
 	// make sure amount of conns is correct and within limits
-	for r.size(bolt_mode.ReadMode) < r.maxReadIdle {
+	for failed := 0; r.size(bolt_mode.ReadMode) < r.maxReadIdle && failed < len(r.readStrings); {
 		err := r.addReadConn()
 		if err != nil {
 			log.Error(err)
-			break
+			failed++ // the next one goes to the next server
 		}
 	}
 }
-- 
2.43.0


From cf17c7566b8664a80550cb7f12eb24516731c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:22 +0000
Subject: [PATCH 58/63] fix: a restarted routing pool counts what is still on
 loan

---
 routing/pool.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index dfb8732..d323b07 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -382,7 +382,8 @@ func (r *routingPool) Start() error {
 	// refresh connections and mark dead conns
 	r.refreshConnections()
 
-	for i := 0; i < r.maxWriteIdle; i++ {
+	// what is still on loan from before the pool was stopped counts
+	for r.size(bolt_mode.WriteMode) < r.maxWriteIdle {
 		err := r.addWriteConn()
 		if err != nil {
 			r.setRunning(false)
@@ -391,7 +392,7 @@ func (r *routingPool) Start() error {
 		}
 	}
 
-	for i := 0; i < r.maxReadIdle; i++ {
+	for r.size(bolt_mode.ReadMode) < r.maxReadIdle {
 		err := r.addReadConn()
 		if err != nil {
 			r.setRunning(false)
-- 
2.43.0


From d50531cc5e7b43615a0d2f522519c5d6de95102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:29 +0000
Subject: [PATCH 59/63] fix: refuse values nested too deeply to be encoded

---
 encoding/encode_consts/const.go   |  2 +-
 encoding/encoding_v1/encoderV1.go | 14 ++++++++++----
 encoding/encoding_v2/encoderV2.go | 14 ++++++++++----
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/encoding/encode_consts/const.go b/encoding/encode_consts/const.go
index c33d3a5..cb22f72 100644
--- a/encoding/encode_consts/const.go
+++ b/encoding/encode_consts/const.go
@@ -74,7 +74,7 @@ const (
 	DurationSignature      byte = 'E'
 	DurationTimeStructSize int  = 4
 
-	// MaxNesting is how deep values may be nested to be decoded
+	// MaxNesting is how deep values may be nested to be encoded or decoded
 	MaxNesting = 10000
 )
 
diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index b7a4560..00d3d99 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -25,6 +25,7 @@ type EncoderV1 struct {
 	w         io.Writer
 	buf       *bytes.Buffer
 	chunkSize uint16
+	depth     int
 }
 
 // NewEncoder Creates a new EncoderV1 object
@@ -98,6 +99,11 @@ func (e EncoderV1) Encode(iVal interface{}) error {
 
 // Encode encodes an object to the stream
 func (e EncoderV1) encode(iVal interface{}) error {
+	// e is a copy, this counts what the value is nested in
+	e.depth++
+	if e.depth > encode_consts.MaxNesting {
+		return errors.New("Values nested deeper than %d levels can't be encoded", encode_consts.MaxNesting)
+	}
 
 	var err error
 	switch val := iVal.(type) {
@@ -151,7 +157,7 @@ func (e EncoderV1) encode(iVal interface{}) error {
 			return e.encodeSlice(newSlice)
 		}
 
-		return errors.New("Unrecognized type when encoding data for Bolt transport: %T %+v", val, val)
+		return errors.New("Unrecognized type when encoding data for Bolt transport: %T", val)
 	}
 
 	return err
@@ -312,7 +318,7 @@ func (e EncoderV1) encodeSlice(val []interface{}) error {
 			return err
 		}
 	default:
-		return errors.New("Slice too long to write: %+v", val)
+		return errors.New("Slice too long to write: %T", val)
 	}
 
 	// Encode Slice values
@@ -354,7 +360,7 @@ func (e EncoderV1) encodeMap(val map[string]interface{}) error {
 			return err
 		}
 	default:
-		return errors.New("Map too long to write: %+v", val)
+		return errors.New("Map too long to write: %T", val)
 	}
 
 	// Encode Map values
@@ -394,7 +400,7 @@ func (e EncoderV1) encodeStructure(val structures.Structure) error {
 			return err
 		}
 	default:
-		return errors.New("Structure too long to write: %+v", val)
+		return errors.New("Structure too long to write: %T", val)
 	}
 
 	_, err := e.Write([]byte{byte(val.Signature())})
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 4c30ebe..1a8259b 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -27,6 +27,7 @@ type EncoderV2 struct {
 	w         io.Writer
 	buf       *bytes.Buffer
 	chunkSize uint16
+	depth     int
 }
 
 // NewEncoder Creates a new EncoderV2 object
@@ -100,6 +101,11 @@ func (e EncoderV2) Encode(iVal interface{}) error {
 
 // Encode encodes an object to the stream
 func (e EncoderV2) encode(iVal interface{}) error {
+	// e is a copy, this counts what the value is nested in
+	e.depth++
+	if e.depth > encode_consts.MaxNesting {
+		return errors.New("Values nested deeper than %d levels can't be encoded", encode_consts.MaxNesting)
+	}
 
 	var err error
 	switch val := iVal.(type) {
@@ -165,7 +171,7 @@ func (e EncoderV2) encode(iVal interface{}) error {
 			return e.encodeSlice(newSlice)
 		}
 
-		return errors.New("Unrecognized type when encoding data for Bolt transport: %T %+v", val, val)
+		return errors.New("Unrecognized type when encoding data for Bolt transport: %T", val)
 	}
 
 	return err
@@ -483,7 +489,7 @@ func (e EncoderV2) encodeSlice(val []interface{}) error {
 			return err
 		}
 	default:
-		return errors.New("Slice too long to write: %+v", val)
+		return errors.New("Slice too long to write: %T", val)
 	}
 
 	// Encode Slice values
@@ -525,7 +531,7 @@ func (e EncoderV2) encodeMap(val map[string]interface{}) error {
 			return err
 		}
 	default:
-		return errors.New("Map too long to write: %+v", val)
+		return errors.New("Map too long to write: %T", val)
 	}
 
 	// Encode Map values
@@ -565,7 +571,7 @@ func (e EncoderV2) encodeStructure(val structures.Structure) error {
 			return err
 		}
 	default:
-		return errors.New("Structure too long to write: %+v", val)
+		return errors.New("Structure too long to write: %T", val)
 	}
 
 	_, err := e.Write([]byte{byte(val.Signature())})
-- 
2.43.0


From eabe5219e3a0402357226261695f7b3eaf930fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:46 +0000
Subject: [PATCH 60/63] fix: refuse nil pointers to structures

---
 encoding/encoding_v1/encoderV1.go | 4 ++++
 encoding/encoding_v2/encoderV2.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index 00d3d99..50cda20 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -377,6 +377,10 @@ func (e EncoderV1) encodeMap(val map[string]interface{}) error {
 }
 
 func (e EncoderV1) encodeStructure(val structures.Structure) error {
+	// the fields of a structure that is not there can't be asked for
+	if v := reflect.ValueOf(val); v.Kind() == reflect.Ptr && v.IsNil() {
+		return errors.New("Can't encode a nil %T", val)
+	}
 
 	fields := val.AllFields()
 	length := len(fields)
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 1a8259b..6cf41d3 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -548,6 +548,10 @@ func (e EncoderV2) encodeMap(val map[string]interface{}) error {
 }
 
 func (e EncoderV2) encodeStructure(val structures.Structure) error {
+	// the fields of a structure that is not there can't be asked for
+	if v := reflect.ValueOf(val); v.Kind() == reflect.Ptr && v.IsNil() {
+		return errors.New("Can't encode a nil %T", val)
+	}
 
 	fields := val.AllFields()
 	length := len(fields)
-- 
2.43.0


From f063ddae24ef31c9bfecb0e8b44f1e3607e42205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:20 +0000
Subject: [PATCH 61/63] fix: check that a transaction is open while holding the
 connection

---
 connection/connection.go  | 13 +++++++++----
 connection/transaction.go | 14 ++++----------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 70c4457..cd547b1 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -461,7 +461,7 @@ func (c *Connection) ExecWithDb(query string, params QueryParams, db string) (IR
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	_, metadata, err := c.runQuery(query, params, db, false)
+	_, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -478,7 +478,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	rows, metadata, err := c.runQuery(query, params, db, false)
+	rows, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -486,7 +486,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 	return rows, newBoltResult(metadata), nil
 }
 
-func (c *Connection) runQuery(query string, params QueryParams, dbName string, inTx bool) ([][]interface{}, map[string]interface{}, error) {
+func (c *Connection) runQuery(query string, params QueryParams, dbName string, tx *boltTransaction) ([][]interface{}, map[string]interface{}, error) {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 	if c.openQuery {
@@ -497,8 +497,13 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 		return nil, nil, errors.New("connection already closed")
 	}
 
+	// it may have ended while waiting for the connection
+	if tx != nil && tx.closed {
+		return nil, nil, errors.New("Transaction already closed")
+	}
+
 	log.Tracef("running query")
-	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, !inTx))
+	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, tx == nil))
 	if err != nil {
 		return nil, nil, err
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index cfc39b1..375ce81 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -18,10 +18,6 @@ func (t *boltTransaction) Exec(query string, params QueryParams) (IResult, error
 }
 
 func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string) (IResult, error) {
-	if t.closed {
-		return nil, errors.New("Transaction already closed")
-	}
-
 	if !t.conn.boltProtocol.SupportsMultiDatabase() && db != "" {
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
@@ -30,7 +26,7 @@ func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string
 		return nil, fmt.Errorf("can not use database [%s] in a transaction on database [%s]", db, t.db)
 	}
 
-	_, metadata, err := t.conn.runQuery(query, params, db, true)
+	_, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, err
 	}
@@ -43,10 +39,6 @@ func (t *boltTransaction) Query(query string, params QueryParams) ([][]interface
 }
 
 func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db string) ([][]interface{}, IResult, error) {
-	if t.closed {
-		return nil, nil, errors.New("Transaction already closed")
-	}
-
 	if !t.conn.boltProtocol.SupportsMultiDatabase() && db != "" {
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
@@ -55,7 +47,7 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 		return nil, nil, fmt.Errorf("can not use database [%s] in a transaction on database [%s]", db, t.db)
 	}
 
-	rows, metadata, err := t.conn.runQuery(query, params, db, true)
+	rows, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -194,5 +186,7 @@ func (t *boltTransaction) Rollback() error {
 }
 
 func (t *boltTransaction) IsClosed() bool {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
 	return t.closed
 }
-- 
2.43.0


From f735bb50f0348be611a09ef25d8ceda709d80172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:47 +0000
Subject: [PATCH 62/63] fix: take what was read before the end of an encrypted
 connection

---
 connection/connection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index cd547b1..ba9b941 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -50,6 +50,11 @@ func (r *readWrite) Read(p []byte) (n int, err error) {
 	}
 
 	n, err = r.connection.conn.Read(p)
+	if n > 0 {
+		// tls reports the end together with the last of the data, the next read
+		// reports it again
+		return n, nil
+	}
 	if err != nil && err != io.EOF {
 		err = driver.ErrBadConn
 	}
-- 
2.43.0


From fec421eff0919aee4b1c056d58a0050b4477ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:04 +0000
Subject: [PATCH 63/63] fix: report a bad connection when the server hangs up

---
 connection/connection.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index ba9b941..da8f7aa 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -55,11 +55,9 @@ func (r *readWrite) Read(p []byte) (n int, err error) {
 		// reports it again
 		return n, nil
 	}
-	if err != nil && err != io.EOF {
-		err = driver.ErrBadConn
-	}
 	if err != nil {
 		r.connection.abort()
+		err = driver.ErrBadConn
 	}
 	return n, err
 }
-- 
2.43.0

