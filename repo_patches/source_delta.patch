From b4ec72f9080d9db979936673580d7d3a84946aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:55 +0000
Subject: [PATCH 01/45] fix: send every message as correctly sized chunks, and
 only once fully encoded

The encoder emitted one chunk per buffer write and announced the remainder
as uint16(length), so messages larger than the chunk size were framed
wrongly, and a message that failed to encode was left half sent.
---
 encoding/encoding_v1/encoderV1.go | 30 +++++++++++------------------
 encoding/encoding_v2/encoderV2.go | 32 +++++++++++++------------------
 2 files changed, 24 insertions(+), 38 deletions(-)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index ffcf13a..3e34e58 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -43,7 +43,7 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write buffers the message, flush sends it in chunks once it is complete
 func (e EncoderV1) Write(p []byte) (n int, err error) {
 	//log.Trace("in encode write")
 	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
@@ -55,32 +55,24 @@ func (e EncoderV1) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
 	return n, nil
 }
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e EncoderV1) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+	chunkSize := int(e.chunkSize)
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
+
+	for e.buf.Len() > 0 {
+		chunk := e.buf.Next(chunkSize)
+
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 3d5f7cc..4306b24 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -46,7 +46,7 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write buffers the message, flush sends it in chunks once it is complete
 func (e EncoderV2) Write(p []byte) (n int, err error) {
 	//log.Trace("in encode write")
 	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
@@ -58,34 +58,28 @@ func (e EncoderV2) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
 	return n, nil
 }
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e EncoderV2) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
+	chunkSize := int(e.chunkSize)
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
+
+	if e.buf.Len() > 0 {
 		log.TraceBytesFromBuf(e.buf)
+	}
+
+	for e.buf.Len() > 0 {
+		chunk := e.buf.Next(chunkSize)
 
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
-- 
2.43.0


From 9b981ecef9f45ef3581d9ea31643f67e6b55ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 02/45] fix: read string, list, map and structure sizes as
 unsigned

Sizes were decoded as signed integers, so anything with 128..255,
32768..65535 or more elements panicked or was cut to nothing.
---
 encoding/encoding_v1/decoderV1.go | 22 +++++++++++-----------
 encoding/encoding_v2/decoderV2.go | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index d15066f..fdb5cdc 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -161,19 +161,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -184,19 +184,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -207,19 +207,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -230,13 +230,13 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 0641024..8f6965f 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -156,19 +156,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -179,19 +179,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -202,19 +202,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -225,13 +225,13 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From 405310022bc948e142f8e7f9a3b98b776d0e207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 03/45] fix: report malformed server data as an error

Ill-typed graph entities panicked, truncated strings were silently
shortened, huge declared sizes were allocated, structures with a wrong
number of fields shifted the values after them, and deep nesting could
exhaust the stack.
---
 encoding/encoding_v1/decoderV1.go | 102 ++++++++++++++++++++++-----
 encoding/encoding_v2/decoderV2.go | 113 +++++++++++++++++++++++++-----
 encoding/util.go                  |   6 +-
 3 files changed, 188 insertions(+), 33 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index fdb5cdc..1ae7e0d 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -21,10 +21,14 @@ import (
 // map[string]interface{} and []interface{} are supported.
 // The interface for maps and slices may be more permissive in the future.
 type DecoderV1 struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
+// maxDepth limits the nesting of the values that are decoded, so that no message can exhaust the stack
+const maxDepth = 10000
+
 // NewDecoder Creates a new DecoderV1 object
 func NewDecoder(r io.Reader) DecoderV1 {
 	return DecoderV1{
@@ -101,6 +105,11 @@ func (d DecoderV1) Decode() (interface{}, error) {
 }
 
 func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
+	// d is a copy, so this counts the values around this one
+	d.depth++
+	if d.depth > maxDepth {
+		return nil, errors.New("Values are nested too deep. Max depth supported: %d", maxDepth)
+	}
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
@@ -159,25 +168,25 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
@@ -248,21 +257,39 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV1) decodeString(buffer *bytes.Buffer, size int) (string, error) {
+	if size > buffer.Len() {
+		return "", errors.New("String is truncated. Expected %d bytes, but only %d are left", size, buffer.Len())
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV1) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// every item takes at least one byte, and memory is only taken as items arrive
+	if size > buffer.Len() {
+		return nil, errors.New("Slice is truncated. Expected %d items, but only %d bytes are left", size, buffer.Len())
+	}
+
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	// every entry takes at least two bytes, and memory is only taken as entries arrive
+	if size > buffer.Len()/2 {
+		return nil, errors.New("Map is truncated. Expected %d entries, but only %d bytes are left", size, buffer.Len())
+	}
+
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
@@ -283,6 +310,18 @@ func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interfa
 	return mapp, nil
 }
 
+// structSizes are the numbers of fields of the structures that have a fixed one
+var structSizes = map[byte]int{
+	graph.NodeSignature:                3,
+	graph.RelationshipSignature:        5,
+	graph.PathSignature:                3,
+	graph.UnboundRelationshipSignature: 3,
+
+	messages.RecordMessageSignature:  1,
+	messages.FailureMessageSignature: 1,
+	messages.SuccessMessageSignature: 1,
+}
+
 func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, error) {
 
 	signature, err := buffer.ReadByte()
@@ -290,6 +329,21 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if expected, ok := structSizes[signature]; ok && size != expected {
+		return nil, errors.New("Structure with signature %x has %d fields, expected %d", signature, size, expected)
+	}
+
+	switch signature {
+	case messages.IgnoredMessageSignature, messages.DiscardAllMessageSignature,
+		messages.PullAllMessageSignature, messages.ResetMessageSignature:
+		// there is nothing of interest in these, but what they carry is not part of what follows
+		for i := 0; i < size; i++ {
+			if _, err := d.decode(buffer); err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
@@ -320,12 +374,16 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 
 func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: Identity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -355,26 +413,35 @@ func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d DecoderV1) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -440,14 +507,17 @@ func (d DecoderV1) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d DecoderV1) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 8f6965f..92c64ad 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -16,10 +16,14 @@ import (
 )
 
 type DecoderV2 struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
+// maxDepth limits the nesting of the values that are decoded, so that no message can exhaust the stack
+const maxDepth = 10000
+
 // NewDecoder Creates a new DecoderV2 object
 func NewDecoder(r io.Reader) DecoderV2 {
 	return DecoderV2{
@@ -96,6 +100,11 @@ func (d DecoderV2) Decode() (interface{}, error) {
 }
 
 func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
+	// d is a copy, so this counts the values around this one
+	d.depth++
+	if d.depth > maxDepth {
+		return nil, errors.New("Values are nested too deep. Max depth supported: %d", maxDepth)
+	}
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
@@ -154,25 +163,25 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
@@ -243,21 +252,39 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV2) decodeString(buffer *bytes.Buffer, size int) (string, error) {
+	if size > buffer.Len() {
+		return "", errors.New("String is truncated. Expected %d bytes, but only %d are left", size, buffer.Len())
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV2) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// every item takes at least one byte, and memory is only taken as items arrive
+	if size > buffer.Len() {
+		return nil, errors.New("Slice is truncated. Expected %d items, but only %d bytes are left", size, buffer.Len())
+	}
+
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	// every entry takes at least two bytes, and memory is only taken as entries arrive
+	if size > buffer.Len()/2 {
+		return nil, errors.New("Map is truncated. Expected %d entries, but only %d bytes are left", size, buffer.Len())
+	}
+
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
@@ -278,6 +305,29 @@ func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interfa
 	return mapp, nil
 }
 
+// structSizes are the numbers of fields of the structures that have a fixed one
+var structSizes = map[byte]int{
+	graph.NodeSignature:                3,
+	graph.RelationshipSignature:        5,
+	graph.PathSignature:                3,
+	graph.UnboundRelationshipSignature: 3,
+
+	messages.RecordMessageSignature:  1,
+	messages.FailureMessageSignature: 1,
+	messages.SuccessMessageSignature: 1,
+
+	types.Point2DStructSignature: types.Point2DStructSize,
+	types.Point3DStructSignature: types.Point3DStructSize,
+
+	encode_consts.DateSignature:                   encode_consts.DateStructSize,
+	encode_consts.TimeSignature:                   encode_consts.TimeStructSize,
+	encode_consts.LocalTimeSignature:              encode_consts.LocalTimeStructSize,
+	encode_consts.LocalDateTimeSignature:          encode_consts.LocalDateTimeStructSize,
+	encode_consts.DateTimeWithZoneOffsetSignature: encode_consts.DateTimeStructSize,
+	encode_consts.DateTimeWithZoneIdSignature:     encode_consts.DateTimeStructSize,
+	encode_consts.DurationSignature:               encode_consts.DurationTimeStructSize,
+}
+
 func (d DecoderV2) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, error) {
 
 	signature, err := buffer.ReadByte()
@@ -285,6 +335,21 @@ func (d DecoderV2) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if expected, ok := structSizes[signature]; ok && size != expected {
+		return nil, errors.New("Structure with signature %x has %d fields, expected %d", signature, size, expected)
+	}
+
+	switch signature {
+	case messages.IgnoredMessageSignature, messages.DiscardAllMessageSignature,
+		messages.PullAllMessageSignature, messages.ResetMessageSignature:
+		// there is nothing of interest in these, but what they carry is not part of what follows
+		for i := 0; i < size; i++ {
+			if _, err := d.decode(buffer); err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
@@ -632,12 +697,16 @@ func (d DecoderV2) decodePoint3D(buffer *bytes.Buffer) (types.Point3D, error) {
 
 func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: Identity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -667,26 +736,35 @@ func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d DecoderV2) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -752,14 +830,17 @@ func (d DecoderV2) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d DecoderV2) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: Identity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index b1409c6..bd6e2b0 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func SliceInterfaceToString(from []interface{}) ([]string, error) {
 func SliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From 05231d5247125f53934da1bf3f49afc35280641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 04/45] fix: do not print every decoded local time to standard
 output

---
 encoding/encoding_v2/decoderV2.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 92c64ad..136523f 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -445,7 +445,6 @@ func (d DecoderV2) decodeLocalTime(buffer *bytes.Buffer) (gotime.LocalClock, err
 	}
 
 	nanoOfDayLocal, ok := nanoOfDayLocalI.(int64)
-	fmt.Println(nanoOfDayLocal)
 	if !ok {
 		return gotime.LocalClock{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayLocalI)
 	}
-- 
2.43.0


From bacbc96a31842e8c04dc91a5f49ae62d901ab948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:26 +0000
Subject: [PATCH 05/45] fix: encode and decode durations as the length they
 denote

Each field was encoded as a float holding the whole duration, and the
decoded fields were multiplied with each other.
---
 encoding/encoding_v2/decoderV2.go | 17 ++++++++++++++++-
 encoding/encoding_v2/encoderV2.go |  9 +++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 136523f..576b45f 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -12,6 +12,7 @@ import (
 	"github.com/mindstand/go-bolt/structures/types"
 	"github.com/mindstand/gotime"
 	"io"
+	"math/big"
 	"time"
 )
 
@@ -604,7 +605,21 @@ func (d DecoderV2) decodeDuration(buffer *bytes.Buffer) (time.Duration, error) {
 		return -1, fmt.Errorf("unable to cast [%T] to [int64]", nanoSecondsI)
 	}
 
-	return time.Duration(month * days * seconds * nanoSeconds), nil
+	// a month has the average length neo4j gives it
+	total := big.NewInt(0)
+	for _, part := range []struct{ count, length int64 }{
+		{month, 2629746}, {days, 86400}, {seconds, 1},
+	} {
+		total.Add(total, new(big.Int).Mul(big.NewInt(part.count), big.NewInt(part.length)))
+	}
+	total.Mul(total, big.NewInt(int64(time.Second)))
+	total.Add(total, big.NewInt(nanoSeconds))
+
+	if !total.IsInt64() {
+		return -1, fmt.Errorf("duration of [%v] nanoseconds is too long", total)
+	}
+
+	return time.Duration(total.Int64()), nil
 }
 
 func (d DecoderV2) decodePoint2D(buffer *bytes.Buffer) (types.Point2D, error) {
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 4306b24..5c3ddd2 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -297,10 +297,11 @@ func (e EncoderV2) encodeTime(t time.Time) error {
 }
 
 func (e EncoderV2) encodeDuration(d time.Duration) error {
-	months := d.Seconds() / 2600640
-	days := d.Seconds() / 86400
-	seconds := d.Seconds()
-	nano := d.Nanoseconds()
+	// the length is split between the fields, and neither months nor days have a fixed one
+	months := 0
+	days := 0
+	seconds := int64(d / time.Second)
+	nano := int64(d % time.Second)
 
 	_, err := e.Write([]byte{byte(encode_consts.TinyStructMarker | encode_consts.DurationTimeStructSize)})
 	if err != nil {
-- 
2.43.0


From 674c2d6b85d0d1583ff4509e5b420c519bf0bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:27 +0000
Subject: [PATCH 06/45] fix: let point values be sent, not only pointers to
 them

Points are received as values, but only pointers could be encoded.
---
 structures/types/point.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structures/types/point.go b/structures/types/point.go
index 6b7dff2..defac79 100644
--- a/structures/types/point.go
+++ b/structures/types/point.go
@@ -13,11 +13,11 @@ type Point2D struct {
 	X, Y float64
 }
 
-func (p *Point2D) Signature() int {
+func (p Point2D) Signature() int {
 	return int(Point2DStructSignature)
 }
 
-func (p *Point2D) AllFields() []interface{} {
+func (p Point2D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y}
 }
 
@@ -26,10 +26,10 @@ type Point3D struct {
 	X, Y, Z float64
 }
 
-func (p *Point3D) Signature() int {
+func (p Point3D) Signature() int {
 	return int(Point3DStructSignature)
 }
 
-func (p *Point3D) AllFields() []interface{} {
+func (p Point3D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y, p.Z}
 }
-- 
2.43.0


From 07089e41d16c1e5592de20b761bd969895efa542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 07/45] fix: decode times in a zone by their wall clock

The zone's offset was looked up at the wrong instant, so times near a
daylight saving change were off by an hour.
---
 encoding/encoding_v2/decoderV2.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 576b45f..8a2f2ed 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -474,7 +474,7 @@ func (d DecoderV2) decodeLocalDateTime(buffer *bytes.Buffer) (gotime.LocalTime,
 		return gotime.LocalTime{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayI)
 	}
 
-	return gotime.NewLocalTimeFromUnix(epochSeconds, nanoOfDay), nil
+	return gotime.NewLocalTimeFromTime(wallClockIn(time.Local, epochSeconds, nanoOfDay)), nil
 }
 
 func (d DecoderV2) decodeDateTimeWithZoneOffset(buffer *bytes.Buffer) (time.Time, error) {
@@ -554,13 +554,15 @@ func (d DecoderV2) decodeTimeWithZoneId(buffer *bytes.Buffer) (time.Time, error)
 		return time.Time{}, fmt.Errorf("unable to load zone info for [%v]", loc)
 	}
 
-	timeWithoutOffsetCorrection := time.Unix(epochSecondLocal, nanoOfDayLocal).In(loc)
+	return wallClockIn(loc, epochSecondLocal, nanoOfDayLocal), nil
+}
 
-	_, offset := timeWithoutOffsetCorrection.Zone() // get second offset from zone
+// wallClockIn returns the time at which clocks in loc show what is given as seconds and nanoseconds since the epoch
+func wallClockIn(loc *time.Location, epochSecondLocal, nanoLocal int64) time.Time {
+	local := time.Unix(epochSecondLocal, nanoLocal).UTC()
 
-	return timeWithoutOffsetCorrection.
-			Add(time.Duration(-offset) * time.Second), // correct for zone offset
-		nil
+	return time.Date(local.Year(), local.Month(), local.Day(),
+		local.Hour(), local.Minute(), local.Second(), local.Nanosecond(), loc)
 }
 
 // todo improve time functions
-- 
2.43.0


From 6a28ad3e00291c38ec9dcad9c0913934e60521b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 08/45] fix: encode dates far from the epoch and clocks on any
 date

Dates more than 292 years from the epoch were clamped, and clocks made
from a time, which live in year 1, were sent as days of nanoseconds.
---
 encoding/encoding_v2/encoderV2.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 5c3ddd2..6636c8a 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -204,7 +204,8 @@ func (e EncoderV2) encodeDate(d gotime.Date) error {
 		return err
 	}
 
-	return e.encode(int64(d.ToEpochDays()))
+	// midnight UTC, so this is exact. time.Duration is too short for dates far from the epoch
+	return e.encode(d.GetTime().Unix() / (24 * 60 * 60))
 }
 
 func (e EncoderV2) encodeClock(c gotime.Clock) error {
@@ -218,7 +219,7 @@ func (e EncoderV2) encodeClock(c gotime.Clock) error {
 		return err
 	}
 
-	err = e.encode(c.ToDayNano())
+	err = e.encode(nanoOfDay(c.GetTime()))
 	if err != nil {
 		return err
 	}
@@ -228,6 +229,13 @@ func (e EncoderV2) encodeClock(c gotime.Clock) error {
 	return e.encode(offset)
 }
 
+// nanoOfDay returns what a clock shows at t as nanoseconds since midnight, whatever the date of t
+func nanoOfDay(t time.Time) int64 {
+	hour, minute, second := t.Clock()
+
+	return int64(hour*60*60+minute*60+second)*int64(time.Second) + int64(t.Nanosecond())
+}
+
 func (e EncoderV2) encodeLocalClock(lc gotime.LocalClock) error {
 	_, err := e.Write([]byte{byte(encode_consts.TinyStructMarker | encode_consts.LocalTimeStructSize)})
 	if err != nil {
@@ -239,7 +247,7 @@ func (e EncoderV2) encodeLocalClock(lc gotime.LocalClock) error {
 		return err
 	}
 
-	return e.encode(lc.ToDayNano())
+	return e.encode(nanoOfDay(lc.GetTime()))
 }
 
 func (e EncoderV2) encodeLocalTime(lt gotime.LocalTime) error {
-- 
2.43.0


From 1162babf43436ab6679e91ed21f45a6f426727d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:54 +0000
Subject: [PATCH 09/45] fix: refuse dates and offsets that are out of range

They overflowed and were returned as some other date or time.
---
 encoding/encoding_v2/decoderV2.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 8a2f2ed..e1953e5 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -397,6 +397,13 @@ func (d DecoderV2) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 	}
 }
 
+const (
+	// maxEpochDay is the distance of the last date neo4j supports from the epoch, in days
+	maxEpochDay = 365243219162
+	// maxOffset is more than any offset of a time zone, in seconds
+	maxOffset = 24 * 60 * 60
+)
+
 func (d DecoderV2) decodeDate(buffer *bytes.Buffer) (gotime.Date, error) {
 	epochDayI, err := d.decode(buffer)
 	if err != nil {
@@ -408,6 +415,10 @@ func (d DecoderV2) decodeDate(buffer *bytes.Buffer) (gotime.Date, error) {
 	if !ok {
 		return gotime.Date{}, errors.New("unable to cast to int64")
 	}
+	if epochDay > maxEpochDay || epochDay < -maxEpochDay {
+		return gotime.Date{}, errors.New("date [%v] days from the epoch is out of range", epochDay)
+	}
+
 	// add epochDays to unix epoch
 	return gotime.NewDateOfEpochDays(int(epochDay)), nil
 }
@@ -433,6 +444,10 @@ func (d DecoderV2) decodeTime(buffer *bytes.Buffer) (gotime.Clock, error) {
 		return gotime.Clock{}, fmt.Errorf("unable to cast [%T] to [int64]", offsetI)
 	}
 
+	if offset > maxOffset || offset < -maxOffset {
+		return gotime.Clock{}, fmt.Errorf("offset of [%v] seconds is out of range", offset)
+	}
+
 	tzName := fmt.Sprintf("UTC%+d", int(offset)/(60*60)) // offset seconds to offset hours
 	tz := time.FixedZone(tzName, int(offset))            // create named time zone UTC+(offset in hours)
 
@@ -508,6 +523,10 @@ func (d DecoderV2) decodeDateTimeWithZoneOffset(buffer *bytes.Buffer) (time.Time
 		return time.Time{}, fmt.Errorf("unable to cast [%T] to [int64]", offsetI)
 	}
 
+	if offset > maxOffset || offset < -maxOffset {
+		return time.Time{}, fmt.Errorf("offset of [%v] seconds is out of range", offset)
+	}
+
 	tzName := fmt.Sprintf("UTC%+d", int(offset)/(60*60)) // offset seconds to offset hours
 	tz := time.FixedZone(tzName, int(offset))            // create named time zone UTC+(offset in hours)
 
-- 
2.43.0


From f21c40777f40a5bb907dcc048ae7e92cb4f41b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 10/45] fix: refuse nil pointers to structures instead of
 panicking

---
 encoding/encoding_v1/encoderV1.go | 3 +++
 encoding/encoding_v2/encoderV2.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index 3e34e58..f866228 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -373,6 +373,9 @@ func (e EncoderV1) encodeMap(val map[string]interface{}) error {
 }
 
 func (e EncoderV1) encodeStructure(val structures.Structure) error {
+	if v := reflect.ValueOf(val); v.Kind() == reflect.Ptr && v.IsNil() {
+		return errors.New("Can not encode nil structure: %T", val)
+	}
 
 	fields := val.AllFields()
 	length := len(fields)
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 6636c8a..6412828 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -553,6 +553,9 @@ func (e EncoderV2) encodeMap(val map[string]interface{}) error {
 }
 
 func (e EncoderV2) encodeStructure(val structures.Structure) error {
+	if v := reflect.ValueOf(val); v.Kind() == reflect.Ptr && v.IsNil() {
+		return errors.New("Can not encode nil structure: %T", val)
+	}
 
 	fields := val.AllFields()
 	length := len(fields)
-- 
2.43.0


From d8997365727d27a7744e631246feb304ce03b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 11/45] fix: send DISCARD with its metadata on v4 and without
 any on v3

v4 requires the metadata, and v3 only knows DISCARD_ALL.
---
 protocol/protocol_v3/bolt.go   | 2 +-
 structures/messages/discard.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/protocol_v3/bolt.go b/protocol/protocol_v3/bolt.go
index fae8b4a..2eca833 100644
--- a/protocol/protocol_v3/bolt.go
+++ b/protocol/protocol_v3/bolt.go
@@ -20,7 +20,7 @@ func (b *BoltProtocolV3) GetResultConsumedAfterKey() string {
 }
 
 func (b *BoltProtocolV3) GetDiscardMessage(qid int64) structures.Structure {
-	return messages.NewDiscardMessage(messages.StreamUnlimited, qid)
+	return messages.NewDiscardAllMessage()
 }
 
 func (b *BoltProtocolV3) GetDiscardAllMessage() structures.Structure {
diff --git a/structures/messages/discard.go b/structures/messages/discard.go
index 1be4272..451aa70 100644
--- a/structures/messages/discard.go
+++ b/structures/messages/discard.go
@@ -33,5 +33,5 @@ func (i DiscardMessage) Signature() int {
 
 // AllFields gets the fields to encode for the struct
 func (i DiscardMessage) AllFields() []interface{} {
-	return []interface{}{}
+	return []interface{}{i.metadata}
 }
-- 
2.43.0


From a064f79f8a465343455beef794cc219708173cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:29 +0000
Subject: [PATCH 12/45] fix: send the realm when there is one, not when there
 is none

---
 structures/messages/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structures/messages/init.go b/structures/messages/init.go
index dc1a48f..f8ba096 100644
--- a/structures/messages/init.go
+++ b/structures/messages/init.go
@@ -28,7 +28,7 @@ func BuildAuthTokenBasicWithRealm(username, password, realm string) map[string]i
 		CredentialsKey: password,
 	}
 
-	if realm == "" {
+	if realm != "" {
 		toReturn[RealmKey] = realm
 	}
 
-- 
2.43.0


From 09130a2a1e9fad6feb6d6029b38f5d29048207ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 13/45] fix: announce read access for read mode instead of
 write mode

Connections never asked for a mode, which keeps meaning write access.
---
 connection/connection.go       | 8 +++++---
 structures/messages/builder.go | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 2308c83..2ddcb50 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -112,9 +112,11 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	}
 
 	connection := Connection{
-		timeout:   time.Second * time.Duration(60),
-		chunkSize: math.MaxUint16,
-		mutex:     sync.Mutex{},
+		// what the server assumes when no mode is sent
+		accessMode: bolt_mode.WriteMode,
+		timeout:    time.Second * time.Duration(60),
+		chunkSize:  math.MaxUint16,
+		mutex:      sync.Mutex{},
 	}
 
 	connection.hostPort = _url.Host
diff --git a/structures/messages/builder.go b/structures/messages/builder.go
index fe4f891..abfc6d1 100644
--- a/structures/messages/builder.go
+++ b/structures/messages/builder.go
@@ -25,7 +25,7 @@ func BuildTxMetadataWithDatabase(txTimeout *time.Duration, txMetadata map[string
 	bookmarksPresent := false
 	txTimeoutPresent := txTimeout != nil && *txTimeout != 0
 	txMetaDataPresent := txMetadata != nil && len(txMetadata) != 0
-	accessModePresent := mode != bolt_mode.ReadMode
+	accessModePresent := mode == bolt_mode.ReadMode
 	databaseNamePresent := databaseName != ""
 
 	if !bookmarksPresent && !txTimeoutPresent && !txMetaDataPresent && !accessModePresent && !databaseNamePresent {
-- 
2.43.0


From 4bfd59abfb5432324f8aa6c114b28f04e8c00dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 14/45] fix: read the whole handshake reply even if it arrives
 in pieces

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 2ddcb50..c752d15 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -244,7 +244,7 @@ func (c *Connection) handshake() ([]byte, error) {
 	}
 
 	version := make([]byte, 4, 4)
-	numRead, err := c.readWrite.Read(version)
+	numRead, err := io.ReadFull(c.readWrite, version)
 	if err != nil {
 		return nil, err
 	} else if numRead != 4 {
-- 
2.43.0


From c66db7f3e1c2c493cc0ce57b5c807e35b21b3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:49 +0000
Subject: [PATCH 15/45] fix: report a connection the server closed as a bad
 connection

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index c752d15..246f190 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -47,7 +47,7 @@ func (r *readWrite) Read(p []byte) (n int, err error) {
 	}
 
 	n, err = r.connection.conn.Read(p)
-	if err != nil && err != io.EOF {
+	if err != nil {
 		err = driver.ErrBadConn
 	}
 	return n, err
-- 
2.43.0


From e34ff1fb685830775178b2bc52735c46436d594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:10 +0000
Subject: [PATCH 16/45] fix: stop using a connection after an I/O error or an
 unexpected answer

It stayed usable, so a late or left over answer was taken for the result
of the next statement, and its socket was left open.
---
 connection/connection.go  | 29 ++++++++++++++++++++++++-----
 connection/transaction.go |  4 ++++
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 246f190..06579e1 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -30,12 +30,14 @@ type readWrite struct {
 func (r *readWrite) Write(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetWriteDeadline(time.Now().Add(r.connection.timeout)); err != nil {
 		//c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
+		r.connection.disconnect()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Write(p)
 
 	if err != nil {
+		r.connection.disconnect()
 		err = driver.ErrBadConn
 	}
 	return n, err
@@ -43,11 +45,13 @@ func (r *readWrite) Write(p []byte) (n int, err error) {
 
 func (r *readWrite) Read(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetReadDeadline(time.Now().Add(r.connection.timeout)); err != nil {
+		r.connection.disconnect()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Read(p)
 	if err != nil {
+		r.connection.disconnect()
 		err = driver.ErrBadConn
 	}
 	return n, err
@@ -328,6 +332,18 @@ func (c *Connection) ValidateOpen() bool {
 	}
 }
 
+// disconnect gives up on a connection once it is not known anymore what the server has received or will send,
+// so that nothing is sent on it again and no answer is taken for that to another request
+func (c *Connection) disconnect() {
+	c.closed = true
+
+	if c.conn != nil {
+		if err := c.conn.Close(); err != nil {
+			log.Tracef("closing broken connection: %v", err)
+		}
+	}
+}
+
 // Sets the size of the chunks to write to the stream
 func (c *Connection) SetChunkSize(chunkSize uint16) {
 	c.chunkSize = chunkSize
@@ -404,6 +420,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 
 	_, ok := resp.(messages.SuccessMessage)
 	if !ok {
+		c.disconnect()
 		return nil, nil, fmt.Errorf("unexpected response of type [%T], should be [messages.SuccessMessage]", resp)
 	}
 
@@ -422,6 +439,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 			log.Tracef("Got record message: %#v", resp)
 			output = append(output, resp.Fields)
 		default:
+			c.disconnect()
 			return nil, nil, errors.New("Unrecognized response type getting next runQuery row: %#v", resp)
 		}
 	}
@@ -510,12 +528,14 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		c.disconnect()
 		return nil, errors.New("Unrecognized response type beginning transaction: %#v", success)
 	}
 
 	if !isBeginMsg {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			c.disconnect()
 			return nil, errors.New("Unrecognized response beginning transaction:  %#v", pull)
 		}
 	}
@@ -553,6 +573,7 @@ func (c *Connection) consume() (interface{}, error) {
 
 	respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 	if err != nil {
+		c.disconnect()
 		return respInt, err
 	}
 
@@ -584,6 +605,7 @@ func (c *Connection) reset() error {
 	for {
 		respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 		if err != nil {
+			c.disconnect()
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
 
@@ -596,14 +618,11 @@ func (c *Connection) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
-			err = c.Close()
-			if err != nil {
-				log.Errorf("An error occurred closing the session: %s", err)
-			}
+			c.disconnect()
 			return errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
 		default:
 			log.Errorf("Got unrecognized response from resetting session: %#v", resp)
-			c.Close()
+			c.disconnect()
 			return driver.ErrBadConn
 		}
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index 36a14d3..a2846ca 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -88,6 +88,7 @@ func (t *boltTransaction) Commit() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		t.conn.disconnect()
 		return errors.New("Unrecognized response type committing transaction: %#v", success)
 	}
 
@@ -96,6 +97,7 @@ func (t *boltTransaction) Commit() error {
 	if !isCommitType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			t.conn.disconnect()
 			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
 		}
 
@@ -149,6 +151,7 @@ func (t *boltTransaction) Rollback() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		t.conn.disconnect()
 		return errors.New("Unrecognized response type rolling back transaction: %#v", success)
 	}
 
@@ -157,6 +160,7 @@ func (t *boltTransaction) Rollback() error {
 	if !isRollbackType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			t.conn.disconnect()
 			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
 		}
 
-- 
2.43.0


From 2285702ba8f89cce0768f64ee1f2dca5718cbaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 17/45] fix: end a transaction when the server fails it, and
 refuse to use it afterwards

Statements on a finished transaction ran outside of any transaction, and
after a failure, which ends the transaction on the server, it stayed open
on the client.
---
 connection/connection.go  | 12 ++++++++++++
 connection/transaction.go | 10 +++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 06579e1..cc11b7c 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -336,6 +336,7 @@ func (c *Connection) ValidateOpen() bool {
 // so that nothing is sent on it again and no answer is taken for that to another request
 func (c *Connection) disconnect() {
 	c.closed = true
+	c.abandonTransaction()
 
 	if c.conn != nil {
 		if err := c.conn.Close(); err != nil {
@@ -344,6 +345,15 @@ func (c *Connection) disconnect() {
 	}
 }
 
+// abandonTransaction ends the open transaction if there is one, after the server has ended it on its side
+func (c *Connection) abandonTransaction() {
+	if t, ok := c.transaction.(*boltTransaction); ok {
+		t.closed = true
+	}
+
+	c.transaction = nil
+}
+
 // Sets the size of the chunks to write to the stream
 func (c *Connection) SetChunkSize(chunkSize uint16) {
 	c.chunkSize = chunkSize
@@ -615,6 +625,8 @@ func (c *Connection) reset() error {
 			continue
 		case messages.SuccessMessage:
 			log.Tracef("Got success message when resetting session: %#v", resp)
+			// the server rolls back what was open when it failed
+			c.abandonTransaction()
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
diff --git a/connection/transaction.go b/connection/transaction.go
index a2846ca..19804c3 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -13,10 +13,14 @@ type boltTransaction struct {
 }
 
 func (t *boltTransaction) Exec(query string, params QueryParams) (IResult, error) {
-	return t.conn.Exec(query, params)
+	return t.ExecWithDb(query, params, "")
 }
 
 func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string) (IResult, error) {
+	if t.closed {
+		return nil, errors.New("Transaction already closed")
+	}
+
 	if !t.conn.boltProtocol.SupportsMultiDatabase() && db != "" {
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
@@ -34,6 +38,10 @@ func (t *boltTransaction) Query(query string, params QueryParams) ([][]interface
 }
 
 func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db string) ([][]interface{}, IResult, error) {
+	if t.closed {
+		return nil, nil, errors.New("Transaction already closed")
+	}
+
 	if !t.conn.boltProtocol.SupportsMultiDatabase() && db != "" {
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
-- 
2.43.0


From cd78f18c0d614f137be33468c41515739900145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:41 +0000
Subject: [PATCH 18/45] fix: refuse a database that can not be honoured

Beginning a transaction on a named database was not refused on protocols
without multi database support, and a statement in a transaction silently
ran on the transaction's database instead of the named one.
---
 connection/connection.go  | 14 ++++++++++++++
 connection/transaction.go |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index cc11b7c..8c98b2c 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -409,6 +409,15 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 		return nil, nil, errors.New("connection already closed")
 	}
 
+	if t, ok := c.transaction.(*boltTransaction); ok {
+		// the database is chosen when the transaction begins
+		if dbName != "" && dbName != t.db {
+			return nil, nil, fmt.Errorf("can not use database [%s] in a transaction on database [%s]", dbName, t.db)
+		}
+
+		inTx = true
+	}
+
 	log.Tracef("running query")
 	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, !inTx))
 	if err != nil {
@@ -506,6 +515,10 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 		return nil, errors.New("can not open transaction on closed connection")
 	}
 
+	if !c.boltProtocol.SupportsMultiDatabase() && db != "" {
+		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
+	}
+
 	msg := c.boltProtocol.GetTxBeginMessage(db, c.accessMode)
 
 	_, isBeginMsg := msg.(messages.BeginMessage)
@@ -553,6 +566,7 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 	c.transaction = &boltTransaction{
 		conn:   c,
 		closed: false,
+		db:     db,
 	}
 
 	return c.transaction, nil
diff --git a/connection/transaction.go b/connection/transaction.go
index 19804c3..c486b18 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -10,6 +10,8 @@ import (
 type boltTransaction struct {
 	conn   *Connection
 	closed bool
+	// database the transaction was begun on, empty for the default
+	db string
 }
 
 func (t *boltTransaction) Exec(query string, params QueryParams) (IResult, error) {
-- 
2.43.0


From f4ab8a674cef8a26bd14614c3d921f8823eebf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 19/45] fix: close the socket even if the rollback or the
 farewell fails

---
 connection/connection.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 8c98b2c..23befb2 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -469,33 +469,38 @@ func (c *Connection) Close() error {
 		return errors.ErrClosed
 	}
 
-	if c.transaction != nil {
-		err := c.transaction.Rollback()
-		if err != nil {
-			return err
-		}
-	}
-
 	if c.conn == nil {
 		return errors.New("can not close nil transaction")
 	}
 
-	if msg, ok := c.boltProtocol.GetCloseMessage(); ok {
+	// whatever fails on the way, the connection is closed in the end
+	var firstErr error
+
+	if c.transaction != nil {
+		firstErr = c.transaction.Rollback()
+	}
+
+	if msg, ok := c.boltProtocol.GetCloseMessage(); ok && !c.closed {
 		err := c.sendMessage(msg)
-		if err != nil {
-			return err
+		if firstErr == nil {
+			firstErr = err
 		}
 
 		// explicitly not consuming since we're closing the connection
 	}
 
+	if c.closed {
+		// it broke meanwhile, which has closed it already
+		return firstErr
+	}
+
 	err := c.conn.Close()
 	c.closed = true
-	if err != nil {
-		return err
+	if firstErr == nil {
+		firstErr = err
 	}
 
-	return nil
+	return firstErr
 }
 
 func (c *Connection) MakeIdle() error {
-- 
2.43.0


From 68eaf87d7a4c0fddf65fca14939e7f2f13d2e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 20/45] fix: fail to connect, and close the socket, if the
 server does not accept

An unexpected answer to the initialization was reported as success with a
closed connection, and every failed attempt leaked its socket.
---
 connection/connection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 23befb2..ecd54af 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -101,6 +101,7 @@ func CreateBoltConn(connStr string) (IConnection, error) {
 
 	err = conn.initialize()
 	if err != nil {
+		conn.disconnect()
 		return nil, err
 	}
 
@@ -306,7 +307,7 @@ func (c *Connection) sendInit(message structures.Structure) error {
 		return nil
 	default:
 		log.Errorf("Got an unrecognized message when initializing connection :%+v", resp)
-		return c.Close()
+		return errors.New("Unrecognized response type initializing connection: %#v", resp)
 	}
 }
 
-- 
2.43.0


From 73ef3f4f0720d3d8aa8182b950199016af61b74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:05 +0000
Subject: [PATCH 21/45] fix: report counters the server did not send as absent
 instead of panicking

---
 connection/result.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/connection/result.go b/connection/result.go
index 12159c6..e802a75 100644
--- a/connection/result.go
+++ b/connection/result.go
@@ -24,14 +24,23 @@ func (b *boltResult) GetStats() (map[string]interface{}, bool) {
 	return statMap, true
 }
 
+// counter returns a value from the stats if it is there and is a number
+func counter(value interface{}) (int64, bool) {
+	num, ok := value.(int64)
+	if !ok {
+		return -1, false
+	}
+
+	return num, true
+}
+
 func (b *boltResult) GetNodesCreated() (int64, bool) {
 	stats, ok := b.GetStats()
 	if !ok {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-created"]
-	return num.(int64), ok
+	return counter(stats["nodes-created"])
 }
 
 func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
@@ -40,8 +49,7 @@ func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-created"]
-	return num.(int64), ok
+	return counter(stats["relationships-created"])
 }
 
 func (b *boltResult) GetNodesDeleted() (int64, bool) {
@@ -50,11 +58,7 @@ func (b *boltResult) GetNodesDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-deleted"]
-	if !ok {
-		return -1, false
-	}
-	return num.(int64), ok
+	return counter(stats["nodes-deleted"])
 }
 
 func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
@@ -63,8 +67,7 @@ func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-deleted"]
-	return num.(int64), ok
+	return counter(stats["relationships-deleted"])
 }
 
 func (b *boltResult) Metadata() map[string]interface{} {
-- 
2.43.0


From 18bb430ccdcf388d9076b920ca3c9311cc9a1428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:26 +0000
Subject: [PATCH 22/45] fix: notice that the server has closed an idle
 connection

The read used to test the connection had a deadline that had passed
already, so it never saw the end of the stream.
---
 connection/connection.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index ecd54af..1a6082d 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -321,16 +321,22 @@ func (c *Connection) ValidateOpen() bool {
 		return false
 	}
 
+	// with a deadline that has passed already the end of the stream would never be noticed
 	one := make([]byte, 1)
-	err := c.conn.SetReadDeadline(time.Now())
+	err := c.conn.SetReadDeadline(time.Now().Add(time.Millisecond))
 	if err != nil {
+		c.disconnect()
 		return false
 	}
-	if _, err := c.conn.Read(one); err == io.EOF {
-		return false
-	} else {
+
+	_, err = c.conn.Read(one)
+	if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
 		return true
 	}
+
+	// either the connection is broken, or there is something to read, which nobody has asked for
+	c.disconnect()
+	return false
 }
 
 // disconnect gives up on a connection once it is not known anymore what the server has received or will send,
-- 
2.43.0


From c64b7105e5087122e3ff8592d35b29a9b3f53848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:28 +0000
Subject: [PATCH 23/45] fix: apply the timeout to the TLS handshake

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 1a6082d..f71a801 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -185,7 +185,7 @@ func (c *Connection) createConnection() error {
 			return err
 		}
 
-		conn, err = tls.Dial("tcp", c.hostPort, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.hostPort, config)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 8958d41400f6595192417f3904b8dca2d9f33ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:44 +0000
Subject: [PATCH 24/45] fix: let the pool replace dead connections instead of
 swapping them in place

The pool identifies connections by their address, so a swapped one could
not be returned and its slot was lost.
---
 connection_pool_factory.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/connection_pool_factory.go b/connection_pool_factory.go
index fda8531..ffc56bd 100644
--- a/connection_pool_factory.go
+++ b/connection_pool_factory.go
@@ -73,15 +73,9 @@ func (c *ConnectionPooledObjectFactory) ActivateObject(ctx context.Context, obje
 		return fmt.Errorf("unable to cast [%T] to [connection.IConnection]", object.Object)
 	}
 
-	var err error
-
+	// the pool knows objects by their identity, so a dead one has to be replaced by the pool
 	if !conn.ValidateOpen() {
-		conn, err = connection.CreateBoltConn(c.connectionString)
-		if err != nil {
-			return err
-		}
-
-		object.Object = conn
+		return errors.New("pooled connection is not open anymore")
 	}
 
 	return nil
-- 
2.43.0


From 1ef3c7925b21dfcf03a0fb7b3c5e9fda1e4efcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:23 +0000
Subject: [PATCH 25/45] fix: wait for capacity in the driver pool

Capacity was lost, and those waiting for it blocked forever, when a connection could not be
created or turned out to be dead; Close blocked behind an Open that waited.
---
 driver_pool.go | 74 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 65 insertions(+), 9 deletions(-)

diff --git a/driver_pool.go b/driver_pool.go
index 1d8f3b8..416864a 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -15,9 +15,18 @@ type driverPool struct {
 	pool     *pool.ObjectPool
 	refLock  sync.Mutex
 	closed   bool
+
+	// holds one token for every connection that is in use
+	inUse chan struct{}
+	// closed together with the pool
+	done chan struct{}
 }
 
 func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
+	if maxConns < 1 {
+		return nil, errors.Wrap(errors.ErrConfiguration, "number of connections must be at least 1, provided [%v]", maxConns)
+	}
+
 	dPool := pool.NewObjectPool(context.Background(), &ConnectionPooledObjectFactory{connectionString: connStr}, &pool.ObjectPoolConfig{
 		LIFO:                     true,
 		MaxTotal:                 maxConns,
@@ -38,13 +47,50 @@ func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
 		connStr:  connStr,
 		maxConns: maxConns,
 		pool:     dPool,
+		inUse:    make(chan struct{}, maxConns),
+		done:     make(chan struct{}),
 	}, nil
 }
 
-func (d *driverPool) open() (connection.IConnection, error) {
+func (d *driverPool) isClosed() bool {
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
-	if !d.closed {
+
+	return d.closed
+}
+
+func (d *driverPool) open() (connection.IConnection, error) {
+	// wait here and not in the pool, which does not notice capacity that failures give back
+	select {
+	case d.inUse <- struct{}{}:
+	case <-d.done:
+	}
+
+	if d.isClosed() {
+		// everybody else who waits is woken up by done, so a token taken here is not missed
+		return nil, errors.New("Driver pool has been closed")
+	}
+
+	conn, err := d.borrow()
+	if err != nil {
+		<-d.inUse
+		return nil, err
+	}
+
+	if d.isClosed() {
+		// closed in the meantime, which closes what is returned to it
+		if err := d.reclaim(conn); err != nil {
+			return nil, err
+		}
+
+		return nil, errors.New("Driver pool has been closed")
+	}
+
+	return conn, nil
+}
+
+func (d *driverPool) borrow() (connection.IConnection, error) {
+	for {
 		connObj, err := d.pool.BorrowObject(context.Background())
 		if err != nil {
 			return nil, err
@@ -55,13 +101,16 @@ func (d *driverPool) open() (connection.IConnection, error) {
 			return nil, errors.Wrap(errors.ErrInternal, "cannot cast from [%T] to [IConnection]", connObj)
 		}
 
-		if !conn.ValidateOpen() {
-			return nil, errors.New("pool returned dead connection")
+		if conn.ValidateOpen() {
+			return conn, nil
 		}
 
-		return conn, nil
+		// pool returned dead connection
+		err = d.pool.InvalidateObject(context.Background(), connObj)
+		if err != nil {
+			return nil, err
+		}
 	}
-	return nil, errors.New("Driver pool has been closed")
 }
 
 func (d *driverPool) close() error {
@@ -76,9 +125,10 @@ func (d *driverPool) close() error {
 		return errors.Wrap(errors.ErrPool, "connection pool is nil")
 	}
 
-	d.pool.Close(context.Background())
-
 	d.closed = true
+	close(d.done)
+
+	d.pool.Close(context.Background())
 
 	return nil
 }
@@ -88,7 +138,13 @@ func (d *driverPool) reclaim(conn connection.IConnection) error {
 		return errors.New("cannot reclaim nil connection")
 	}
 
-	return d.pool.ReturnObject(context.Background(), conn)
+	err := d.pool.ReturnObject(context.Background(), conn)
+	if err != nil {
+		return err
+	}
+
+	<-d.inUse
+	return nil
 }
 
 // ----------------------
-- 
2.43.0


From ee9211badab184baa15a31b1231faa80b62cd702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 26/45] fix: borrow from the routing pool under its exclusive
 lock

Borrowing changes the maps and queues of the pool, so concurrent borrows crashed.
---
 routing/pool.go | 12 ++++++++----
 routing/util.go |  7 +++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 2451d5f..fd89fc7 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -459,8 +459,8 @@ func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, erro
 }
 
 func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 
 	connWrap, err := r.internalBorrow(r.readQueue)
 	if err != nil {
@@ -471,8 +471,8 @@ func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
 }
 
 func (r *routingPool) BorrowRWConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 
 	connWrap, err := r.internalBorrow(r.writeQueue)
 	if err != nil {
@@ -507,6 +507,10 @@ func (r *routingPool) setUpdating(b bool) {
 }
 
 func (r *routingPool) Reclaim(conn connection.IConnection) error {
+	if conn == nil {
+		return errors.New("can not reclaim nil connection")
+	}
+
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
diff --git a/routing/util.go b/routing/util.go
index 8d4e151..447ce39 100644
--- a/routing/util.go
+++ b/routing/util.go
@@ -2,13 +2,20 @@ package routing
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
+// seededRand is shared by all pools
+var randMutex sync.Mutex
+
 var seededRand *rand.Rand = rand.New(
 	rand.NewSource(time.Now().UnixNano()))
 
 func stringWithCharset(length int, charset string) string {
+	randMutex.Lock()
+	defer randMutex.Unlock()
+
 	b := make([]byte, length)
 	for i := range b {
 		b[i] = charset[seededRand.Intn(len(charset))]
-- 
2.43.0


From 9dfad4fd6f4cfef232b94567222ade8fde8da842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 27/45] fix: close the connections that the routing pool
 removes

Those still open were never closed, and a dead one made borrowing fail instead of being skipped.
---
 routing/pool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index fd89fc7..a3aef28 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -103,10 +103,10 @@ func (r *routingPool) removeConn(conn *connectionPoolWrapper) error {
 		return errors.New("invalid connection, can not be nil")
 	}
 
-	if !conn.Connection.ValidateOpen() {
-		err := conn.Connection.Close()
-		if err != nil {
-			return err
+	if conn.Connection.ValidateOpen() {
+		// it is of no use anymore even if it can not say goodbye
+		if err := conn.Connection.Close(); err != nil {
+			log.Tracef("closing removed connection: %v", err)
 		}
 	}
 
-- 
2.43.0


From 18a5ff8470fb49232f8ec356d0e6040053795327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 28/45] fix: survive a topology that has become smaller

---
 routing/pool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index a3aef28..963d417 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -123,7 +123,7 @@ func (r *routingPool) addWriteConn() error {
 	r.rwIndex++
 
 	// make sure its not an overflow
-	if r.rwIndex == len(r.rwStrings) {
+	if r.rwIndex >= len(r.rwStrings) {
 		r.rwIndex = 0
 	}
 
@@ -148,7 +148,7 @@ func (r *routingPool) addReadConn() error {
 	r.readIndex++
 
 	// make sure its not an overflow
-	if r.readIndex == len(r.readStrings) {
+	if r.readIndex >= len(r.readStrings) {
 		r.readIndex = 0
 	}
 
-- 
2.43.0


From d363fd3a48a175f4a73104e45646ec040a09b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:21 +0000
Subject: [PATCH 29/45] fix: retire connections to members that lost their role

Their connection strings were compared without credentials, so that none was ever found dead, or all
were; and a connection that was reclaimed dead was handed out again.
---
 routing/pool.go | 102 +++++++++++++++++++-----------------------------
 1 file changed, 41 insertions(+), 61 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 963d417..fd35288 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -36,7 +36,6 @@ type routingPool struct {
 	routingHandler  *boltRoutingHandler
 
 	// lookups
-	connStrLookup map[string][]*connectionPoolWrapper
 	borrowedConns map[string]*connectionPoolWrapper
 	heldConns     map[string]*connectionPoolWrapper
 
@@ -86,7 +85,6 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 			Followers:    []neoNodeConfig{},
 			ReadReplicas: []neoNodeConfig{},
 		},
-		connStrLookup: map[string][]*connectionPoolWrapper{},
 		borrowedConns: map[string]*connectionPoolWrapper{},
 		heldConns:     map[string]*connectionPoolWrapper{},
 		rwStrings:     []string{},
@@ -199,66 +197,32 @@ func (r *routingPool) refreshConnections() {
 	defer conn.Close()
 
 	err = r.routingHandler.refreshClusterInfo(conn)
-
-	newWriteStrs := r.routingHandler.getWriteConnectionStrings()
-	newReadStrs := r.routingHandler.getReadOnlyConnectionString()
-
-	var deadStrs, actualWrites, actualReads []string
-
-	// check for dead strings
-	for _, curStr := range r.rwStrings {
-		// string is not found, so it must be dead
-		if !stringSliceContains(newWriteStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
-		} else {
-			actualWrites = append(actualWrites, curStr)
-		}
+	if err != nil {
+		// keep going with the last topology that could be read
+		log.Error(err)
+		return
 	}
 
-	for _, curStr := range r.readStrings {
-		// string is not found, so it must be dead
-		if !stringSliceContains(newReadStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
-		} else {
-			actualReads = append(actualReads, curStr)
-		}
-	}
+	r.rwStrings = r.addAuthInfoToConnStrs(r.routingHandler.getWriteConnectionStrings())
+	r.readStrings = r.addAuthInfoToConnStrs(r.routingHandler.getReadOnlyConnectionString())
 
-	// add anything new
-	for _, newStr := range newWriteStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
-		if !stringSliceContains(actualWrites, newStr) {
-			actualWrites = append(actualWrites, newStr)
-		}
+	// mark those to members that have lost the role for deletion, system will rebalance elsewhere
+	for _, connWrap := range r.heldConns {
+		connWrap.markForDeletion = !r.isEligible(connWrap)
 	}
 
-	for _, newStr := range newReadStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
-		if !stringSliceContains(actualReads, newStr) {
-			actualReads = append(actualReads, newStr)
-		}
+	for _, connWrap := range r.borrowedConns {
+		connWrap.markForDeletion = !r.isEligible(connWrap)
 	}
+}
 
-	// mark them for deletion, system will rebalance elsewhere
-	if len(deadStrs) != 0 {
-		for _, str := range deadStrs {
-			conns, ok := r.connStrLookup[str]
-			if !ok || conns == nil || len(conns) == 0 {
-				continue
-			}
-
-			for _, markedConn := range conns {
-				if markedConn == nil {
-					continue
-				}
-
-				markedConn.markForDeletion = true
-			}
-		}
+// isEligible tells whether the member has the role the connection is for
+func (r *routingPool) isEligible(connWrap *connectionPoolWrapper) bool {
+	if connWrap.ConnType == bolt_mode.WriteMode {
+		return stringSliceContains(r.rwStrings, connWrap.ConnStr)
 	}
 
-	r.rwStrings = actualWrites
-	r.readStrings = actualReads
+	return stringSliceContains(r.readStrings, connWrap.ConnStr)
 }
 
 func (r *routingPool) prune() {
@@ -266,7 +230,7 @@ func (r *routingPool) prune() {
 	writes := []*connectionPoolWrapper{}
 	for _, connWrap := range r.readQueue.items {
 		if connWrap.markForDeletion {
-			err := connWrap.Connection.Close()
+			err := r.removeConn(connWrap)
 			if err != nil {
 				log.Error(err)
 				continue
@@ -533,15 +497,17 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 	delete(r.borrowedConns, connId)
 	r.heldConns[connId] = connWrap
 
-	// check if the connection is dead, if it is discard and make a new one
-	if !connWrap.Connection.ValidateOpen() {
+	// check if the connection is dead or not wanted anymore, if it is discard and make a new one
+	if connWrap.markForDeletion || !connWrap.Connection.ValidateOpen() {
 		err := r.removeConn(connWrap)
 		if err != nil {
-			if connWrap.ConnType == bolt_mode.WriteMode {
-				return r.addWriteConn()
-			} else {
-				return r.addReadConn()
-			}
+			return err
+		}
+
+		if connWrap.ConnType == bolt_mode.WriteMode {
+			return r.addWriteConn()
+		} else {
+			return r.addReadConn()
 		}
 	}
 
@@ -563,3 +529,17 @@ func (r *routingPool) addAuthInfoToConnStr(connStr string) string {
 	hostPort := strings.Replace(connStr, "bolt://", "", -1)
 	return fmt.Sprintf("bolt://%s@%s%s", r.userPassPart, hostPort, r.tlsInfo)
 }
+
+// addAuthInfoToConnStrs leaves out members that are listed more than once
+func (r *routingPool) addAuthInfoToConnStrs(connStrs []string) []string {
+	var withAuth []string
+
+	for _, connStr := range connStrs {
+		connStr = r.addAuthInfoToConnStr(connStr)
+		if !stringSliceContains(withAuth, connStr) {
+			withAuth = append(withAuth, connStr)
+		}
+	}
+
+	return withAuth
+}
-- 
2.43.0


From 52be284483631a7b3eb1027ddc0535799491e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 30/45] fix: bring the routing pool back to its size when it is
 refreshed

The loops that were to add or remove connections never ran.
---
 routing/pool.go | 78 +++++++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 42 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index fd35288..07db229 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -28,9 +28,7 @@ type routingPool struct {
 
 	// configuration
 	totalConns      int
-	minWriteIdle    int
 	maxWriteIdle    int
-	minReadIdle     int
 	maxReadIdle     int
 	refreshInterval time.Duration
 	routingHandler  *boltRoutingHandler
@@ -75,9 +73,7 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		running:         &run,
 		updating:        &update,
 		totalConns:      numConns,
-		minWriteIdle:    0,
 		maxWriteIdle:    0,
-		minReadIdle:     0,
 		maxReadIdle:     0,
 		refreshInterval: refreshInterval,
 		routingHandler: &boltRoutingHandler{
@@ -229,7 +225,7 @@ func (r *routingPool) prune() {
 	reads := []*connectionPoolWrapper{}
 	writes := []*connectionPoolWrapper{}
 	for _, connWrap := range r.readQueue.items {
-		if connWrap.markForDeletion {
+		if connWrap.markForDeletion || !connWrap.Connection.ValidateOpen() {
 			err := r.removeConn(connWrap)
 			if err != nil {
 				log.Error(err)
@@ -241,7 +237,7 @@ func (r *routingPool) prune() {
 	}
 
 	for _, connWrap := range r.writeQueue.items {
-		if connWrap.markForDeletion {
+		if connWrap.markForDeletion || !connWrap.Connection.ValidateOpen() {
 			err := r.removeConn(connWrap)
 			if err != nil {
 				log.Error(err)
@@ -256,52 +252,50 @@ func (r *routingPool) prune() {
 	r.readQueue = NewQueueFromSlice(reads...)
 }
 
-func (r *routingPool) balance() {
-	if r.readQueue.Size() < r.minReadIdle {
-		for r.readQueue.Size() == r.minReadIdle {
-			err := r.addReadConn()
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+// numBorrowed counts the connections of the type that are in use
+func (r *routingPool) numBorrowed(connType bolt_mode.AccessMode) int {
+	num := 0
+	for _, connWrap := range r.borrowedConns {
+		if connWrap.ConnType == connType {
+			num++
 		}
 	}
 
+	return num
+}
+
+func (r *routingPool) balance() {
 	// make sure amount of conns is correct and within limits
-	if r.writeQueue.Size() < r.minWriteIdle {
-		for r.writeQueue.Size() == r.minWriteIdle {
-			err := r.addWriteConn()
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	borrowed := r.numBorrowed(bolt_mode.WriteMode)
+	for r.writeQueue.Size()+borrowed < r.maxWriteIdle {
+		err := r.addWriteConn()
+		if err != nil {
+			log.Error(err)
+			break
 		}
-	} else if r.writeQueue.Size() > r.maxWriteIdle {
-		for r.writeQueue.Size() == r.maxWriteIdle {
-			err := r.removeConn(r.writeQueue.Dequeue())
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	}
+
+	for r.writeQueue.Size() > 0 && r.writeQueue.Size()+borrowed > r.maxWriteIdle {
+		err := r.removeConn(r.writeQueue.Dequeue())
+		if err != nil {
+			log.Error(err)
 		}
 	}
 
 	// make sure amount of conns is correct and within limits
-	if r.readQueue.Size() < r.minReadIdle {
-		for r.readQueue.Size() == r.minReadIdle {
-			err := r.addReadConn()
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	borrowed = r.numBorrowed(bolt_mode.ReadMode)
+	for r.readQueue.Size()+borrowed < r.maxReadIdle {
+		err := r.addReadConn()
+		if err != nil {
+			log.Error(err)
+			break
 		}
-	} else if r.readQueue.Size() > r.maxReadIdle {
-		for r.readQueue.Size() == r.maxReadIdle {
-			err := r.removeConn(r.readQueue.Dequeue())
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	}
+
+	for r.readQueue.Size() > 0 && r.readQueue.Size()+borrowed > r.maxReadIdle {
+		err := r.removeConn(r.readQueue.Dequeue())
+		if err != nil {
+			log.Error(err)
 		}
 	}
 }
-- 
2.43.0


From 574882684b0e94abc6d88d56c416e45987d6f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 31/45] fix: release all connections of a routing pool that is
 stopped or fails to start

Stopping raced with the refresh, which opened connections again, and connections reclaimed
afterwards or opened before starting failed were left open.
---
 routing/pool.go | 63 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 07db229..6a02157 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -25,6 +25,8 @@ type routingPool struct {
 	running *int32
 	// is updating
 	updating *int32
+	// closed when the pool is stopped
+	stopped chan struct{}
 
 	// configuration
 	totalConns      int
@@ -300,11 +302,24 @@ func (r *routingPool) balance() {
 	}
 }
 
-func (r *routingPool) refreshHandler() {
-	for r.isRunning() {
+func (r *routingPool) refreshHandler(stopped <-chan struct{}) {
+	for {
 		// block routine until interval is up
-		<-time.After(r.refreshInterval)
+		select {
+		case <-time.After(r.refreshInterval):
+		case <-stopped:
+			return
+		}
+
 		r.mutex.Lock()
+		// stopped while waiting for the pool
+		select {
+		case <-stopped:
+			r.mutex.Unlock()
+			return
+		default:
+		}
+
 		// refresh connections and mark dead conns
 		r.refreshConnections()
 		// remove dead conns
@@ -316,6 +331,9 @@ func (r *routingPool) refreshHandler() {
 }
 
 func (r *routingPool) Start() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if r.isRunning() {
 		return errors.New("pool already running")
 	}
@@ -341,32 +359,52 @@ func (r *routingPool) Start() error {
 	// refresh connections and mark dead conns
 	r.refreshConnections()
 
-	for i := 0; i < r.maxWriteIdle; i++ {
+	for i := r.numBorrowed(bolt_mode.WriteMode); i < r.maxWriteIdle; i++ {
 		err := r.addWriteConn()
 		if err != nil {
-			return err
+			return r.abortStart(err)
 		}
 	}
 
-	for i := 0; i < r.maxReadIdle; i++ {
+	for i := r.numBorrowed(bolt_mode.ReadMode); i < r.maxReadIdle; i++ {
 		err := r.addReadConn()
 		if err != nil {
-			return err
+			return r.abortStart(err)
 		}
 	}
 
-	go r.refreshHandler()
+	r.stopped = make(chan struct{})
+	go r.refreshHandler(r.stopped)
 
 	return nil
 }
 
+// abortStart releases what has been opened so far
+func (r *routingPool) abortStart(cause error) error {
+	r.setRunning(false)
+
+	if err := r.removeIdle(); err != nil {
+		log.Error(err)
+	}
+
+	return cause
+}
+
 func (r *routingPool) Stop() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if !r.isRunning() {
 		return errors.New("routingPool is not running")
 	}
 
 	r.setRunning(false)
+	close(r.stopped)
+
+	return r.removeIdle()
+}
 
+func (r *routingPool) removeIdle() error {
 	for r.readQueue.Size() != 0 {
 		err := r.removeConn(r.readQueue.Dequeue())
 		if err != nil {
@@ -472,10 +510,6 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	if !r.isRunning() {
-		return errors.New("pool is not running")
-	}
-
 	connId := conn.GetConnectionId()
 
 	connWrap, ok := r.borrowedConns[connId]
@@ -489,6 +523,11 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 
 	// remove from borrowed and replace in held
 	delete(r.borrowedConns, connId)
+
+	if !r.isRunning() {
+		return r.removeConn(connWrap)
+	}
+
 	r.heldConns[connId] = connWrap
 
 	// check if the connection is dead or not wanted anymore, if it is discard and make a new one
-- 
2.43.0


From 15c1f5d8f68c58a0c154afb7ce331da3f2d92532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 32/45] fix: roll back what the last borrower of a routed
 connection left open

---
 routing/pool.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/routing/pool.go b/routing/pool.go
index 6a02157..3485dc5 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -530,8 +530,11 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 
 	r.heldConns[connId] = connWrap
 
+	// the next borrower must not find the transaction of this one
+	idleErr := connWrap.Connection.MakeIdle()
+
 	// check if the connection is dead or not wanted anymore, if it is discard and make a new one
-	if connWrap.markForDeletion || !connWrap.Connection.ValidateOpen() {
+	if connWrap.markForDeletion || idleErr != nil || !connWrap.Connection.ValidateOpen() {
 		err := r.removeConn(connWrap)
 		if err != nil {
 			return err
-- 
2.43.0


From 509469d0bb9b5e5d8d30f7fbd66ea96f832e0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 33/45] fix: tell the Bolt address of a cluster member by its
 scheme

Any address with bolt in it was taken for it, for instance http://neo4j-bolt-1:7474.
---
 routing/routing_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/routing/routing_handler.go b/routing/routing_handler.go
index 15ff404..00f65a2 100644
--- a/routing/routing_handler.go
+++ b/routing/routing_handler.go
@@ -130,7 +130,7 @@ func (c *boltRoutingHandler) refreshClusterInfo(conn connection.IConnection) err
 		var boltStr string
 
 		for _, str := range addresses {
-			if strings.Contains(str, "bolt") {
+			if strings.HasPrefix(strings.ToLower(str), "bolt://") {
 				boltStr = str
 			}
 		}
-- 
2.43.0


From a22ab8b7aef7d43b0ab3bff5e04753eff02ebfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 34/45] fix: make every connection with TLS when TLS is
 configured

WithTLS built a connection string that does not ask for TLS, so the connection was in the clear, and
members of a cluster were connected to in the clear unless there was a client certificate. User names
and passwords with special characters broke the connection string, as did IPv6 addresses.
---
 client.go | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/client.go b/client.go
index a9002be..c5f9365 100644
--- a/client.go
+++ b/client.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mindstand/go-bolt/errors"
 	"math"
+	"net"
 	"net/url"
 	"strconv"
 	"strings"
@@ -95,13 +96,12 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "user can not be empty")
 		}
 
-		client.connStr = fmt.Sprintf("%s://%s:%s@%s:%v", protocol, client.user, client.password, client.host, client.port)
+		client.connStr = fmt.Sprintf("%s://%s@%s", protocol, url.UserPassword(client.user, client.password),
+			net.JoinHostPort(client.host, strconv.Itoa(client.port)))
 
 		// append tls portion if needed
 		if client.useTLS {
-			tlsPortion := fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-				client.certFile, client.keyFile, client.caCertFile, client.tlsNoVerify)
-			client.connStr += tlsPortion
+			client.connStr += "?" + client.tlsParams().Encode()
 		}
 	} else {
 		client.routing = strings.Contains(client.connStr, "+routing")
@@ -161,29 +161,24 @@ func NewClient(opts ...Opt) (IClient, error) {
 	return client, nil
 }
 
-func (c *Client) getTlsPortion() (string, error) {
-	if c.certFile != "" {
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-			c.certFile, c.keyFile, c.caCertFile, c.tlsNoVerify), nil
-	} else {
-		// parse connection string
-		u, err := url.Parse(c.connStr)
-		if err != nil {
-			return "", nil
-		}
-
-		certFile := u.Query().Get("tls_cert_file")
-		keyFile := u.Query().Get("tls_key_file")
-		caCertFile := u.Query().Get("tls_ca_cert_file")
-		tlsNoVerify := u.Query().Get("tls_no_verify")
-
-		if certFile == "" {
-			return "", nil
-		}
+// tlsParams are the parameters of the connection string that ask for the configured tls
+func (c *Client) tlsParams() url.Values {
+	return url.Values{
+		"tls":              {"true"},
+		"tls_cert_file":    {c.certFile},
+		"tls_key_file":     {c.keyFile},
+		"tls_ca_cert_file": {c.caCertFile},
+		"tls_no_verify":    {strconv.FormatBool(c.tlsNoVerify)},
+	}
+}
 
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%s",
-			certFile, keyFile, caCertFile, tlsNoVerify), nil
+// getTlsPortion is what other members of a cluster are connected to with
+func (c *Client) getTlsPortion() (string, error) {
+	if !c.useTLS {
+		return "", nil
 	}
+
+	return "?" + c.tlsParams().Encode(), nil
 }
 
 func (c *Client) getUsernamePassword() (string, error) {
-- 
2.43.0


From 01e5a5509573e4cc6257ede11d7aac6598f6ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 35/45] fix: present the same credentials to all members of a
 cluster

Those with special characters were taken apart differently for the members that were discovered.
---
 client.go       | 10 +++-------
 routing/pool.go |  8 ++++++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/client.go b/client.go
index c5f9365..22b81c1 100644
--- a/client.go
+++ b/client.go
@@ -187,16 +187,12 @@ func (c *Client) getUsernamePassword() (string, error) {
 		return "", nil
 	}
 
-	if u.User.Username() == "" {
+	if u.User == nil {
 		return "", nil
 	}
 
-	pwd, ok := u.User.Password()
-	if !ok {
-		pwd = ""
-	}
-
-	return fmt.Sprintf("%s:%s", u.User.Username(), pwd), nil
+	// escaped, as it is put into the connection strings of other members
+	return u.User.String(), nil
 }
 
 func (c *Client) NewDriver() (IDriver, error) {
diff --git a/routing/pool.go b/routing/pool.go
index 3485dc5..00c543d 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -562,8 +562,12 @@ func (r *routingPool) addAuthInfoToConnStr(connStr string) string {
 		return connStr
 	}
 
-	hostPort := strings.Replace(connStr, "bolt://", "", -1)
-	return fmt.Sprintf("bolt://%s@%s%s", r.userPassPart, hostPort, r.tlsInfo)
+	hostPort := connStr[len("bolt://"):]
+	if r.userPassPart != "" {
+		hostPort = r.userPassPart + "@" + hostPort
+	}
+
+	return fmt.Sprintf("bolt://%s%s", hostPort, r.tlsInfo)
 }
 
 // addAuthInfoToConnStrs leaves out members that are listed more than once
-- 
2.43.0


From fd510a121503e8b587f16f2353c79f0e0498ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 36/45] fix: take host, port and routing from the parts of the
 connection string that say so

A user name or password with +routing in it turned on routing or was altered, IPv6 hosts were refused,
and a missing host or invalid port was not.
---
 client.go       | 24 ++++++++++--------------
 opt.go          |  4 ++++
 routing/pool.go |  6 +++---
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/client.go b/client.go
index 22b81c1..e47da52 100644
--- a/client.go
+++ b/client.go
@@ -88,7 +88,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "host can not be empty")
 		}
 
-		if client.port <= 0 {
+		if client.port <= 0 || client.port > math.MaxUint16 {
 			return nil, errors.Wrap(errors.ErrConfiguration, "invalid port [%v]", client.port)
 		}
 
@@ -104,7 +104,6 @@ func NewClient(opts ...Opt) (IClient, error) {
 			client.connStr += "?" + client.tlsParams().Encode()
 		}
 	} else {
-		client.routing = strings.Contains(client.connStr, "+routing")
 		_url, err := url.Parse(client.connStr)
 		if err != nil {
 			return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
@@ -112,19 +111,16 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
 		}
 
-		hostPort := _url.Host
-		if strings.Contains(hostPort, ":") {
-			parts := strings.Split(hostPort, ":")
-			if len(parts) != 2 {
-				return nil, errors.New("host/port invalid")
-			}
-			client.host = parts[0]
-			_port, err := strconv.ParseInt(parts[1], 10, 64)
-			if err != nil {
-				return nil, err
-			}
+		client.routing = strings.ToLower(_url.Scheme) == "bolt+routing"
+
+		client.host = _url.Hostname()
+		if client.host == "" {
+			return nil, errors.Wrap(errors.ErrConfiguration, "host can not be empty")
+		}
 
-			client.port = int(_port)
+		client.port, err = strconv.Atoi(_url.Port())
+		if err != nil || client.port <= 0 || client.port > math.MaxUint16 {
+			return nil, errors.Wrap(errors.ErrConfiguration, "invalid port [%v]", _url.Port())
 		}
 
 		if _url.User != nil {
diff --git a/opt.go b/opt.go
index 5380af0..adf6696 100644
--- a/opt.go
+++ b/opt.go
@@ -18,6 +18,10 @@ func WithConnectionString(connString string) Opt {
 			return errors.Wrap(errors.ErrConfiguration, "can not call WithConnectionString and WithHostPort")
 		}
 
+		if client.routing {
+			return errors.Wrap(errors.ErrConfiguration, "can not call WithConnectionString and WithRouting")
+		}
+
 		client.connStr = connString
 		return nil
 	}
diff --git a/routing/pool.go b/routing/pool.go
index 00c543d..66e2009 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -56,11 +56,11 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		return nil, errors.New("leaderConnStr can not be nil")
 	}
 
-	if strings.Contains(leaderConnStr, "+routing") {
-		leaderConnStr = strings.Replace(leaderConnStr, "+routing", "", -1)
+	if scheme := "bolt+routing://"; strings.HasPrefix(strings.ToLower(leaderConnStr), scheme) {
+		leaderConnStr = "bolt://" + leaderConnStr[len(scheme):]
 	}
 
-	if numConns == 0 || numConns == 1 {
+	if numConns < 2 {
 		return nil, fmt.Errorf("number of connections must be greater than 1, provided [%v]", numConns)
 	}
 
-- 
2.43.0


From 21946532af8a77852ad9f3f7ba3785c276db6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 37/45] fix: honour timeout, credentials and TLS wherever they
 are configured

WithTimeout was ignored, and so were WithTLS and WithBasicAuth together with a connection string; a
timeout in the connection string did not apply to the members of a cluster; a connection string with
a malformed parameter silently lost it, TLS included.
---
 client.go                | 94 ++++++++++++++++++++++++++++------------
 connection/connection.go | 26 +++++++----
 2 files changed, 84 insertions(+), 36 deletions(-)

diff --git a/client.go b/client.go
index e47da52..2459293 100644
--- a/client.go
+++ b/client.go
@@ -61,9 +61,8 @@ func NewClient(opts ...Opt) (IClient, error) {
 		}
 	}
 
-	// timeout not set
-	if client.timeout == 0 {
-		client.timeout = time.Second * time.Duration(60)
+	if client.timeout < 0 {
+		return nil, errors.Wrap(errors.ErrConfiguration, "invalid timeout [%v]", client.timeout)
 	}
 
 	// check chunk size
@@ -96,13 +95,13 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "user can not be empty")
 		}
 
-		client.connStr = fmt.Sprintf("%s://%s@%s", protocol, url.UserPassword(client.user, client.password),
-			net.JoinHostPort(client.host, strconv.Itoa(client.port)))
-
-		// append tls portion if needed
-		if client.useTLS {
-			client.connStr += "?" + client.tlsParams().Encode()
+		_url := url.URL{
+			Scheme:   protocol,
+			User:     url.UserPassword(client.user, client.password),
+			Host:     net.JoinHostPort(client.host, strconv.Itoa(client.port)),
+			RawQuery: client.params().Encode(),
 		}
+		client.connStr = _url.String()
 	} else {
 		_url, err := url.Parse(client.connStr)
 		if err != nil {
@@ -123,6 +122,14 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "invalid port [%v]", _url.Port())
 		}
 
+		query, err := url.ParseQuery(_url.RawQuery)
+		if err != nil {
+			return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
+		}
+
+		// what the options say, which must not be said differently by the connection string
+		byOption := *client
+
 		if _url.User != nil {
 			client.user = _url.User.Username()
 			var isSet bool
@@ -130,51 +137,82 @@ func NewClient(opts ...Opt) (IClient, error) {
 			if !isSet {
 				return nil, errors.New("must specify password when passing user")
 			}
+
+			if byOption.user != "" && (byOption.user != client.user || byOption.password != client.password) {
+				return nil, errors.Wrap(errors.ErrConfiguration, "credentials differ from those in the connection string")
+			}
+		} else if client.user != "" {
+			_url.User = url.UserPassword(client.user, client.password)
 		}
 
-		timeout := _url.Query().Get("timeout")
+		timeout := query.Get("timeout")
 		if timeout != "" {
 			timeoutInt, err := strconv.Atoi(timeout)
 			if err != nil {
 				return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
 			}
 
+			if timeoutInt <= 0 || int64(timeoutInt) > int64(math.MaxInt64/time.Second) {
+				return nil, errors.Wrap(errors.ErrConfiguration, "invalid timeout [%v]", timeout)
+			}
+
 			client.timeout = time.Duration(timeoutInt) * time.Second
+			if byOption.timeout != 0 && byOption.timeout != client.timeout {
+				return nil, errors.Wrap(errors.ErrConfiguration, "timeout differs from that in the connection string")
+			}
 		}
 
-		useTLS := _url.Query().Get("tls")
-		client.useTLS = strings.HasPrefix(strings.ToLower(useTLS), "t") || useTLS == "1"
+		useTLS := query.Get("tls")
+		if useTLS != "" {
+			client.useTLS = strings.HasPrefix(strings.ToLower(useTLS), "t") || useTLS == "1"
+
+			if client.useTLS {
+				client.certFile = query.Get("tls_cert_file")
+				client.keyFile = query.Get("tls_key_file")
+				client.caCertFile = query.Get("tls_ca_cert_file")
+				noVerify := query.Get("tls_no_verify")
+				client.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
+			}
 
-		if client.useTLS {
-			client.certFile = _url.Query().Get("tls_cert_file")
-			client.keyFile = _url.Query().Get("tls_key_file")
-			client.caCertFile = _url.Query().Get("tls_ca_cert_file")
-			noVerify := _url.Query().Get("tls_no_verify")
-			client.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
+			if byOption.useTLS && (!client.useTLS || byOption.params().Encode() != client.params().Encode()) {
+				return nil, errors.Wrap(errors.ErrConfiguration, "tls differs from that in the connection string")
+			}
 		}
+
+		_url.RawQuery = client.params().Encode()
+		client.connStr = _url.String()
 	}
 
 	return client, nil
 }
 
-// tlsParams are the parameters of the connection string that ask for the configured tls
-func (c *Client) tlsParams() url.Values {
-	return url.Values{
-		"tls":              {"true"},
-		"tls_cert_file":    {c.certFile},
-		"tls_key_file":     {c.keyFile},
-		"tls_ca_cert_file": {c.caCertFile},
-		"tls_no_verify":    {strconv.FormatBool(c.tlsNoVerify)},
+// params are the parameters of the connection string that ask for what is configured
+func (c *Client) params() url.Values {
+	params := url.Values{}
+
+	if c.timeout != 0 {
+		params.Set("timeout", c.timeout.String())
+	}
+
+	if c.useTLS {
+		params.Set("tls", "true")
+		params.Set("tls_cert_file", c.certFile)
+		params.Set("tls_key_file", c.keyFile)
+		params.Set("tls_ca_cert_file", c.caCertFile)
+		params.Set("tls_no_verify", strconv.FormatBool(c.tlsNoVerify))
 	}
+
+	return params
 }
 
 // getTlsPortion is what other members of a cluster are connected to with
 func (c *Client) getTlsPortion() (string, error) {
-	if !c.useTLS {
+	params := c.params().Encode()
+	if params == "" {
 		return "", nil
 	}
 
-	return "?" + c.tlsParams().Encode(), nil
+	return "?" + params, nil
 }
 
 func (c *Client) getUsernamePassword() (string, error) {
diff --git a/connection/connection.go b/connection/connection.go
index f71a801..c65abd6 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -135,24 +135,34 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 		}
 	}
 
-	timeout := _url.Query().Get("timeout")
+	query, err := url.ParseQuery(_url.RawQuery)
+	if err != nil {
+		return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
+	}
+
+	timeout := query.Get("timeout")
 	if timeout != "" {
 		timeoutInt, err := strconv.Atoi(timeout)
-		if err != nil {
+		if err == nil {
+			connection.timeout = time.Duration(timeoutInt) * time.Second
+		} else if connection.timeout, err = time.ParseDuration(timeout); err != nil {
+			// the client may ask for parts of a second as well
 			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
 		}
 
-		connection.timeout = time.Duration(timeoutInt) * time.Second
+		if connection.timeout <= 0 || int64(timeoutInt) > int64(math.MaxInt64/time.Second) {
+			return nil, fmt.Errorf("invalid timeout: %s", timeout)
+		}
 	}
 
-	useTLS := _url.Query().Get("tls")
+	useTLS := query.Get("tls")
 	connection.useTLS = strings.HasPrefix(strings.ToLower(useTLS), "t") || useTLS == "1"
 
 	if connection.useTLS {
-		connection.certFile = _url.Query().Get("tls_cert_file")
-		connection.keyFile = _url.Query().Get("tls_key_file")
-		connection.caCertFile = _url.Query().Get("tls_ca_cert_file")
-		noVerify := _url.Query().Get("tls_no_verify")
+		connection.certFile = query.Get("tls_cert_file")
+		connection.keyFile = query.Get("tls_key_file")
+		connection.caCertFile = query.Get("tls_ca_cert_file")
+		noVerify := query.Get("tls_no_verify")
 		connection.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
 	}
 
-- 
2.43.0


From 6cca67ad9ec95d6356cb6045f17820864de48e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 38/45] fix: refuse TLS files that can not be used as
 configured

---
 connection/connection.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index c65abd6..9171ab5 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -225,7 +225,9 @@ func (c *Connection) tlsConfig() (*tls.Config, error) {
 			return nil, err
 		}
 		caCertPool := x509.NewCertPool()
-		caCertPool.AppendCertsFromPEM(caCert)
+		if !caCertPool.AppendCertsFromPEM(caCert) {
+			return nil, fmt.Errorf("no certificate in [%s]", c.caCertFile)
+		}
 
 		config.RootCAs = caCertPool
 	}
@@ -243,6 +245,10 @@ func (c *Connection) tlsConfig() (*tls.Config, error) {
 		config.Certificates = []tls.Certificate{cert}
 	}
 
+	if c.keyFile != "" && c.certFile == "" {
+		return nil, errors.New("If you're providing a key file, you must also provide a cert file")
+	}
+
 	if c.tlsNoVerify {
 		config.InsecureSkipVerify = true
 	}
-- 
2.43.0


From 87b0797ec5dcdccaaf118bd52191f825d65a4762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 39/45] fix: let begin, commit and rollback wait for the
 statement that is running

They were sent into the middle of it. And a statement that had waited for one that ended the
transaction was executed outside of it.
---
 connection/connection.go  | 23 ++++++++++++++---------
 connection/transaction.go | 10 ++++++++--
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 9171ab5..a64fdee 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -396,7 +396,7 @@ func (c *Connection) ExecWithDb(query string, params QueryParams, db string) (IR
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	_, metadata, err := c.runQuery(query, params, db, false)
+	_, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -413,7 +413,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	rows, metadata, err := c.runQuery(query, params, db, false)
+	rows, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -421,7 +421,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 	return rows, newBoltResult(metadata), nil
 }
 
-func (c *Connection) runQuery(query string, params QueryParams, dbName string, inTx bool) ([][]interface{}, map[string]interface{}, error) {
+func (c *Connection) runQuery(query string, params QueryParams, dbName string, tx *boltTransaction) ([][]interface{}, map[string]interface{}, error) {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 	if c.openQuery {
@@ -432,13 +432,15 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 		return nil, nil, errors.New("connection already closed")
 	}
 
-	if t, ok := c.transaction.(*boltTransaction); ok {
-		// the database is chosen when the transaction begins
-		if dbName != "" && dbName != t.db {
-			return nil, nil, fmt.Errorf("can not use database [%s] in a transaction on database [%s]", dbName, t.db)
-		}
+	if tx != nil && tx.closed {
+		// it has ended while this statement was waiting for another one
+		return nil, nil, errors.New("Transaction already closed")
+	}
 
-		inTx = true
+	t, inTx := c.transaction.(*boltTransaction)
+	if inTx && dbName != "" && dbName != t.db {
+		// the database is chosen when the transaction begins
+		return nil, nil, fmt.Errorf("can not use database [%s] in a transaction on database [%s]", dbName, t.db)
 	}
 
 	log.Tracef("running query")
@@ -535,6 +537,9 @@ func (c *Connection) MakeIdle() error {
 }
 
 func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.transaction != nil {
 		return nil, errors.New("transaction already open")
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index c486b18..9cc634e 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -27,7 +27,7 @@ func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	_, metadata, err := t.conn.runQuery(query, params, db, true)
+	_, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, err
 	}
@@ -48,7 +48,7 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	rows, metadata, err := t.conn.runQuery(query, params, db, true)
+	rows, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -57,6 +57,9 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 }
 
 func (t *boltTransaction) Commit() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
@@ -120,6 +123,9 @@ func (t *boltTransaction) Commit() error {
 }
 
 func (t *boltTransaction) Rollback() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
-- 
2.43.0


From cf3df537fda21353315e8f1fdb9ca2f0a2ee91be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:03 +0000
Subject: [PATCH 40/45] fix: forget what was encoded of a value that is refused

---
 encoding/encoding_v1/encoderV1.go | 2 ++
 encoding/encoding_v2/encoderV2.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index f866228..dbff79d 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -91,6 +91,8 @@ func (e EncoderV1) Encode(iVal interface{}) error {
 
 	err := e.encode(iVal)
 	if err != nil {
+		// what was written of it must not become part of the next message
+		e.buf.Reset()
 		return err
 	}
 
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 6412828..3702fee 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -98,6 +98,8 @@ func (e EncoderV2) Encode(iVal interface{}) error {
 
 	err := e.encode(iVal)
 	if err != nil {
+		// what was written of it must not become part of the next message
+		e.buf.Reset()
 		return err
 	}
 
-- 
2.43.0


From 3f512b0176fee80b046b244a1dd36b8f65ab54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:04 +0000
Subject: [PATCH 41/45] fix: keep message data that arrives together with the
 end of the stream

---
 encoding/encoding_v1/decoderV1.go | 18 +++---------------
 encoding/encoding_v2/decoderV2.go | 18 +++---------------
 2 files changed, 6 insertions(+), 30 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 1ae7e0d..c713046 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -73,22 +73,10 @@ func (d DecoderV1) read() (*bytes.Buffer, error) {
 }
 
 func (d DecoderV1) readData(messageLen uint16) ([]byte, error) {
+	// a reader may deliver data along with the error that follows it, and in any number of pieces
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	if numRead, err := io.ReadFull(d.r, output); err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index e1953e5..8bea5f5 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -69,22 +69,10 @@ func (d DecoderV2) read() (*bytes.Buffer, error) {
 }
 
 func (d DecoderV2) readData(messageLen uint16) ([]byte, error) {
+	// a reader may deliver data along with the error that follows it, and in any number of pieces
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	if numRead, err := io.ReadFull(d.r, output); err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
-- 
2.43.0


From 8ba305c216de0e6633cb94685874276167b018d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:33 +0000
Subject: [PATCH 42/45] fix: refuse times that are not times

---
 encoding/encoding_v2/decoderV2.go | 41 +++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 8bea5f5..1200bc1 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -390,8 +390,29 @@ const (
 	maxEpochDay = 365243219162
 	// maxOffset is more than any offset of a time zone, in seconds
 	maxOffset = 24 * 60 * 60
+	// maxEpochSecond is the distance of the last date neo4j supports from the epoch, in seconds
+	maxEpochSecond = maxEpochDay * 24 * 60 * 60
 )
 
+// checkNanoOfDay refuses what is not the time of a day
+func checkNanoOfDay(nanoOfDay int64) error {
+	if nanoOfDay < 0 || nanoOfDay >= int64(24*time.Hour) {
+		return fmt.Errorf("[%v] nanoseconds is not a time of day", nanoOfDay)
+	}
+	return nil
+}
+
+// checkEpoch refuses what is not a time counted from the epoch
+func checkEpoch(epochSecond, nano int64) error {
+	if epochSecond > maxEpochSecond || epochSecond < -maxEpochSecond {
+		return fmt.Errorf("time [%v] seconds from the epoch is out of range", epochSecond)
+	}
+	if nano < 0 || nano >= int64(time.Second) {
+		return fmt.Errorf("[%v] nanoseconds is not a part of a second", nano)
+	}
+	return nil
+}
+
 func (d DecoderV2) decodeDate(buffer *bytes.Buffer) (gotime.Date, error) {
 	epochDayI, err := d.decode(buffer)
 	if err != nil {
@@ -439,6 +460,10 @@ func (d DecoderV2) decodeTime(buffer *bytes.Buffer) (gotime.Clock, error) {
 	tzName := fmt.Sprintf("UTC%+d", int(offset)/(60*60)) // offset seconds to offset hours
 	tz := time.FixedZone(tzName, int(offset))            // create named time zone UTC+(offset in hours)
 
+	if err := checkNanoOfDay(nanoOfDayLocal); err != nil {
+		return gotime.Clock{}, err
+	}
+
 	return gotime.NewClockOfDayNano(nanoOfDayLocal, tz), nil
 }
 
@@ -453,6 +478,10 @@ func (d DecoderV2) decodeLocalTime(buffer *bytes.Buffer) (gotime.LocalClock, err
 		return gotime.LocalClock{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayLocalI)
 	}
 
+	if err := checkNanoOfDay(nanoOfDayLocal); err != nil {
+		return gotime.LocalClock{}, err
+	}
+
 	return gotime.NewLocalClockOfDayNano(nanoOfDayLocal), nil
 }
 
@@ -477,6 +506,10 @@ func (d DecoderV2) decodeLocalDateTime(buffer *bytes.Buffer) (gotime.LocalTime,
 		return gotime.LocalTime{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayI)
 	}
 
+	if err := checkEpoch(epochSeconds, nanoOfDay); err != nil {
+		return gotime.LocalTime{}, err
+	}
+
 	return gotime.NewLocalTimeFromTime(wallClockIn(time.Local, epochSeconds, nanoOfDay)), nil
 }
 
@@ -518,6 +551,10 @@ func (d DecoderV2) decodeDateTimeWithZoneOffset(buffer *bytes.Buffer) (time.Time
 	tzName := fmt.Sprintf("UTC%+d", int(offset)/(60*60)) // offset seconds to offset hours
 	tz := time.FixedZone(tzName, int(offset))            // create named time zone UTC+(offset in hours)
 
+	if err := checkEpoch(epochSecondsLocal, nanoOfDayLocal); err != nil {
+		return time.Time{}, err
+	}
+
 	return time.Unix(epochSecondsLocal, nanoOfDayLocal).
 			In(tz).                                    // change timezone (sets offset)
 			Add(time.Duration(-offset) * time.Second), // add back reverse of offset
@@ -561,6 +598,10 @@ func (d DecoderV2) decodeTimeWithZoneId(buffer *bytes.Buffer) (time.Time, error)
 		return time.Time{}, fmt.Errorf("unable to load zone info for [%v]", loc)
 	}
 
+	if err := checkEpoch(epochSecondLocal, nanoOfDayLocal); err != nil {
+		return time.Time{}, err
+	}
+
 	return wallClockIn(loc, epochSecondLocal, nanoOfDayLocal), nil
 }
 
-- 
2.43.0


From d415cd5553f221f2ec21ebddb2a3c6cca5c7533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 43/45] fix: refuse a time in a zone that has no name

---
 encoding/encoding_v2/decoderV2.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 1200bc1..f081588 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -593,6 +593,11 @@ func (d DecoderV2) decodeTimeWithZoneId(buffer *bytes.Buffer) (time.Time, error)
 		return time.Time{}, fmt.Errorf("unable to cast [%T] to [string]", zoneIdI)
 	}
 
+	// these two have a meaning of their own here, but are no zones of the server
+	if zoneId == "" || zoneId == "Local" {
+		return time.Time{}, fmt.Errorf("[%v] is not a time zone", zoneId)
+	}
+
 	loc, err := time.LoadLocation(zoneId)
 	if err != nil {
 		return time.Time{}, fmt.Errorf("unable to load zone info for [%v]", loc)
-- 
2.43.0


From 40bfaf46e570193cddf2b93f243886e1c3321bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:53 +0000
Subject: [PATCH 44/45] fix: refuse a connection string without a host

---
 connection/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index a64fdee..32525d7 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -125,6 +125,10 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	}
 
 	connection.hostPort = _url.Host
+	if _url.Hostname() == "" {
+		// dialing it would reach this very machine
+		return nil, errors.Wrap(errors.ErrConfiguration, "host can not be empty")
+	}
 
 	if _url.User != nil {
 		connection.user = _url.User.Username()
-- 
2.43.0


From 3118508c46dc4f00365944108561cd688c9e052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:36 +0000
Subject: [PATCH 45/45] fix: do not wait for a peer that does not read when
 giving up a TLS connection

---
 connection/connection.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 32525d7..7ca674b 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -366,7 +366,14 @@ func (c *Connection) disconnect() {
 	c.abandonTransaction()
 
 	if c.conn != nil {
-		if err := c.conn.Close(); err != nil {
+		conn := c.conn
+
+		// ending a TLS session politely would wait for a peer that may not even be reading
+		if session, ok := conn.(interface{ NetConn() net.Conn }); ok {
+			conn = session.NetConn()
+		}
+
+		if err := conn.Close(); err != nil {
 			log.Tracef("closing broken connection: %v", err)
 		}
 	}
-- 
2.43.0

