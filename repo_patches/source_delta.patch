From 6572f45c29b60fd1aafb98855312703c3aeda152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 01/36] fix: encode element indexes from 65536 up as 32-bit
 segments and report their length

---
 cip_definitions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cip_definitions.go b/cip_definitions.go
index 17f3279..cf56d77 100644
--- a/cip_definitions.go
+++ b/cip_definitions.go
@@ -112,7 +112,7 @@ func (p CIPElement) Bytes() []byte {
 	} else {
 
 		b := make([]byte, 6)
-		b[0] = byte(cipElement_16bit)
+		b[0] = byte(cipElement_32bit)
 		binary.LittleEndian.PutUint32(b[2:], uint32(p))
 		return b
 	}
@@ -121,7 +121,7 @@ func (p CIPElement) Bytes() []byte {
 func (p CIPElement) Len() int {
 	if p < 256 {
 		return 2
-	} else if p < 65535 {
+	} else if p < 65536 {
 		return 4
 	}
 	return 6
-- 
2.43.0


From c86e06ef5dc74a2e7d0ee005dce74421d68de80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 02/36] fix: report the encoded length of port and address path
 parts

---
 cip_definitions.go | 2 +-
 path.go            | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cip_definitions.go b/cip_definitions.go
index cf56d77..e006daf 100644
--- a/cip_definitions.go
+++ b/cip_definitions.go
@@ -13,7 +13,7 @@ func (p CIPAddress) Bytes() []byte {
 }
 
 func (p CIPAddress) Len() int {
-	return 0
+	return 1
 }
 
 // Represents a CIP class attribute id - that is a specific attribute of a given class.
diff --git a/path.go b/path.go
index 5a5871a..6a7c73c 100644
--- a/path.go
+++ b/path.go
@@ -44,7 +44,10 @@ type CIPPort struct {
 }
 
 func (p CIPPort) Len() int {
-	return 2
+	if p.ExtensionLen != 0 {
+		return 2
+	}
+	return 1
 }
 
 func (p CIPPort) Bytes() []byte {
-- 
2.43.0


From 5c87786383c2aa1676f1580d1bdfb628e7e7beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 03/36] fix: reject tag paths whose array index is not a list
 of numbers instead of panicking or dropping indexes

---
 ioi.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ioi.go b/ioi.go
index 0ae72ff..5682ee9 100644
--- a/ioi.go
+++ b/ioi.go
@@ -150,6 +150,9 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 		if strings.HasSuffix(tag_part, "]") {
 			// part of an array
 			start_index := strings.Index(tag_part, "[")
+			if start_index < 0 {
+				return nil, fmt.Errorf("no opening bracket for the array index in %q", tag_part)
+			}
 			ioi_part, err := marshalIOIPart(tag_part[0:start_index])
 			if err != nil {
 				return nil, err
@@ -160,12 +163,12 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 			}
 
-			t, err := parse_tag_name(tag_part)
+			array_order, err := parseArrayIndex(tag_part[start_index+1 : len(tag_part)-1])
 			if err != nil {
-				client.Logger.Warn("problem parsing path", "error", err)
+				return nil, fmt.Errorf("problem parsing path: %w", err)
 			}
 
-			for _, order_size := range t.Array_Order {
+			for _, order_size := range array_order {
 				if order_size < 256 {
 					// byte, byte
 					index_part := []byte{byte(cipElement_8bit), byte(order_size)}
@@ -187,7 +190,7 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 					if err != nil {
 						return nil, err
 					}
-					index_part1 := []uint32{uint32(order_size)}
+					index_part1 := []uint32{order_size}
 					err = binary.Write(ioi, binary.LittleEndian, index_part1)
 					if err != nil {
 						return nil, err
@@ -223,6 +226,20 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 	return
 }
 
+// parseArrayIndex parses the text between the brackets of an array access into its indexes.
+func parseArrayIndex(text string) ([]uint32, error) {
+	parts := strings.Split(text, ",")
+	order := make([]uint32, len(parts))
+	for i, part := range parts {
+		index, err := strconv.ParseUint(strings.TrimSpace(part), 10, 32)
+		if err != nil {
+			return nil, fmt.Errorf("couldn't parse %q to an array position. %w", part, err)
+		}
+		order[i] = uint32(index)
+	}
+	return order, nil
+}
+
 func marshalIOIPart(tagpath string) ([]byte, error) {
 	t, err := parse_tag_name(tagpath)
 	if err != nil {
-- 
2.43.0


From c3ac4cf0b0ccf7a6172bb5098bc0ebf6efa09019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 04/36] fix: reject tag paths with a negative bit number

---
 ioi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ioi.go b/ioi.go
index 5682ee9..4f7521f 100644
--- a/ioi.go
+++ b/ioi.go
@@ -201,6 +201,9 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 		} else {
 			// not part of an array
 			bit_access, err := strconv.Atoi(tag_part)
+			if err == nil && bit_access < 0 {
+				return nil, fmt.Errorf("bit number %q is negative", tag_part)
+			}
 			if err == nil && bit_access <= 31 {
 				// This is a bit access.
 				// we won't do anything for now and will just parse the
-- 
2.43.0


From e55b3370c121b20c2cb9d86b175ab801c565753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 05/36] fix: reject tag names and paths longer than their one
 byte size fields can hold

---
 ioi.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ioi.go b/ioi.go
index 4f7521f..9a010a3 100644
--- a/ioi.go
+++ b/ioi.go
@@ -225,6 +225,11 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 	}
 
+	// the path size on the wire is a single byte counting 16 bit words.
+	if len(ioi.Buffer) > 2*255 {
+		return nil, fmt.Errorf("tag path %q is too long", tagpath)
+	}
+
 	client.ioi_cache[tagpath] = ioi
 	return
 }
@@ -249,6 +254,9 @@ func marshalIOIPart(tagpath string) ([]byte, error) {
 		return nil, fmt.Errorf("could not parse tag path: %w", err)
 	}
 	tag_size := len(t.BasePath)
+	if tag_size > 255 {
+		return nil, fmt.Errorf("tag name %q is longer than 255 bytes", t.BasePath)
+	}
 	need_extend := false
 	if tag_size%2 == 1 {
 		need_extend = true
-- 
2.43.0


From f89994f33f430778aff6ba1148068429d2aeecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 06/36] fix: reject an array index without a tag name and
 accept 32-bit indexes in request paths

---
 ioi.go | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/ioi.go b/ioi.go
index 9a010a3..bed197a 100644
--- a/ioi.go
+++ b/ioi.go
@@ -295,6 +295,18 @@ func getAsciiTagPart(item *CIPItem) (string, error) {
 	tag_str := string(b)
 	return tag_str, nil
 }
+
+// appendTagIndex adds an array index to a tag path, "tag" -> "tag[1]" -> "tag[1,2]"
+func appendTagIndex(tag_str string, array_index uint32) (string, error) {
+	if tag_str == "" {
+		return "", errors.New("array index without a tag name")
+	}
+	if strings.HasSuffix(tag_str, "]") {
+		return fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index), nil
+	}
+	return fmt.Sprintf("%s[%d]", tag_str, array_index), nil
+}
+
 func getTagFromPath(item *CIPItem) (string, error) {
 
 	tag_str := ""
@@ -319,10 +331,9 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
-			if tag_str[len(tag_str)-1] == ']' {
-				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
-			} else {
-				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			tag_str, err = appendTagIndex(tag_str, uint32(array_index))
+			if err != nil {
+				return "", err
 			}
 		case 0x29:
 			// two byte index
@@ -336,10 +347,25 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
-			if tag_str[len(tag_str)-1] == ']' {
-				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
-			} else {
-				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			tag_str, err = appendTagIndex(tag_str, uint32(array_index))
+			if err != nil {
+				return "", err
+			}
+		case 0x2A:
+			// four byte index
+			var pad byte
+			err = item.DeSerialize(&pad)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get padding: %w", err)
+			}
+			var array_index uint32
+			err = item.DeSerialize(&array_index)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get array index: %w", err)
+			}
+			tag_str, err = appendTagIndex(tag_str, array_index)
+			if err != nil {
+				return "", err
 			}
 		case 0x91:
 			// ascii portion of tag path
-- 
2.43.0


From fefdeff97f20ffd0c6d86e9b6f110170611c01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 07/36] fix: read request paths by their announced size so that
 an element count is never taken for a path segment

---
 ioi.go                | 18 ++++++++++++++++++
 server_connected.go   | 17 +++++++++++------
 server_unconnected.go | 16 ++++++++--------
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/ioi.go b/ioi.go
index bed197a..8d73abc 100644
--- a/ioi.go
+++ b/ioi.go
@@ -296,6 +296,24 @@ func getAsciiTagPart(item *CIPItem) (string, error) {
 	return tag_str, nil
 }
 
+// getTagFromSizedPath reads a request path of the given number of 16 bit words and returns the tag it names.
+// Nothing past the path is looked at, and a path with anything but tag segments in it is an error.
+func getTagFromSizedPath(item *CIPItem, words byte) (string, error) {
+	path := CIPItem{Data: make([]byte, int(words)*2)}
+	err := item.DeSerialize(&path.Data)
+	if err != nil {
+		return "", fmt.Errorf("couldn't get the %d words of the path: %w", words, err)
+	}
+	tag, err := getTagFromPath(&path)
+	if err != nil {
+		return "", err
+	}
+	if path.Pos != len(path.Data) {
+		return "", fmt.Errorf("unexpected path segment 0x%02X after tag %q", path.Data[path.Pos], tag)
+	}
+	return tag, nil
+}
+
 // appendTagIndex adds an array index to a tag path, "tag" -> "tag[1]" -> "tag[1,2]"
 func appendTagIndex(tag_str string, array_index uint32) (string, error) {
 	if tag_str == "" {
diff --git a/server_connected.go b/server_connected.go
index 4e500c9..0042d93 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -14,7 +14,7 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 		return fmt.Errorf("problem deserializing item length %w", err)
 	}
 
-	tag, err := getTagFromPath(&item)
+	tag, err := getTagFromSizedPath(&item, l)
 	if err != nil {
 		return fmt.Errorf("problem deserializing tag bytes %w", err)
 	}
@@ -132,12 +132,11 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("problem getting service req payload size for item %d: %w", i, err)
 		}
-		_ = svcReqSize // don't need this yet.  It is in 16 bit words.
 
 		switch svc {
 		case CIPService_FragRead,
 			CIPService_Read:
-			tagname, err := getTagFromPath(&item)
+			tagname, err := getTagFromSizedPath(&item, svcReqSize)
 			if err != nil {
 				return fmt.Errorf("problem getting multiread tagname for item %d: %w", i, err)
 			}
@@ -188,7 +187,7 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 		case CIPService_Write,
 			CIPService_FragWrite:
 
-			tag, err := getTagFromPath(&item)
+			tag, err := getTagFromSizedPath(&item, svcReqSize)
 			if err != nil {
 				return fmt.Errorf("problem deserializing tag bytes %w", err)
 			}
@@ -281,13 +280,19 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("error getting sequence ID: %w / %v", err, err2)
 	}
-	var pathlen uint16
+	var svc CIPService
+	err = item.DeSerialize(&svc)
+	if err != nil {
+		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
+		return fmt.Errorf("error getting service: %w / %v", err, err2)
+	}
+	var pathlen byte
 	err = item.DeSerialize(&pathlen)
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("error getting path len: %w / %v", err, err2)
 	}
-	tag, err := getTagFromPath(&item)
+	tag, err := getTagFromSizedPath(&item, pathlen)
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("couldn't parse path: %w / %v", err, err2)
diff --git a/server_unconnected.go b/server_unconnected.go
index 2e674fa..017d3f4 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -334,12 +334,12 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 }
 
 func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
+	var tag_words byte
+	err := item.DeSerialize(&tag_words)
 	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
+		return fmt.Errorf("error getting tag path size. %w", err)
 	}
-	tag, err := getTagFromPath(&item)
+	tag, err := getTagFromSizedPath(&item, tag_words)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
@@ -575,12 +575,12 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 }
 
 func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
+	var tag_words byte
+	err := item.DeSerialize(&tag_words)
 	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
+		return fmt.Errorf("error getting tag path size. %w", err)
 	}
-	tag, err := getTagFromPath(&item)
+	tag, err := getTagFromSizedPath(&item, tag_words)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
-- 
2.43.0


From ac34bb4094631a4a7a1b0d6d22d1815137d54da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 08/36] fix: reject an address without a port in a route path
 and pad odd length addresses

---
 path.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/path.go b/path.go
index 6a7c73c..2736c0c 100644
--- a/path.go
+++ b/path.go
@@ -73,6 +73,7 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 	parts := strings.Split(path, ",")
 
 	byte_path := make([]byte, 0, len(parts))
+	after_number := false // whether the previous part was a number, so it can be the port of an ip address
 
 	for _, part := range parts {
 		// first see if this looks like an IP address.
@@ -80,13 +81,27 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 		if is_ip {
 			// for some god forsaken reason the path doesn't use the ip address as actual bytes but as an ascii string.
 			// we first have to set bit 5 in the previous byte to say we're using an extended address for this part.
+			if !after_number {
+				return nil, fmt.Errorf("address %v does not follow a port number", part)
+			}
+			after_number = false
 			last_pos := len(byte_path) - 1
 			last_byte := byte_path[last_pos]
+			if last_byte > 14 {
+				return nil, fmt.Errorf("port %d of address %v out of range", last_byte, part)
+			}
 			byte_path[last_pos] = last_byte | 1<<4
 			l := len(part)
+			if l > 255 {
+				return nil, fmt.Errorf("address of %d characters is too long", l)
+			}
 			byte_path = append(byte_path, byte(l))
 			string_bytes := []byte(part)
 			byte_path = append(byte_path, string_bytes...)
+			if l%2 == 1 {
+				// the address is padded to a whole number of words
+				byte_path = append(byte_path, 0)
+			}
 			continue
 		}
 		// not an IP address
@@ -98,6 +113,7 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			return nil, fmt.Errorf("number out of range. %v", part)
 		}
 		byte_path = append(byte_path, byte(val))
+		after_number = true
 	}
 
 	return bytes.NewBuffer(byte_path), nil
-- 
2.43.0


From b94140172fca9e75dd13ab9ba21e30080af5a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 09/36] fix: refuse to serialize an item longer than its length
 field can hold

---
 items.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/items.go b/items.go
index e628b49..d3abb5e 100644
--- a/items.go
+++ b/items.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 type CIPItemID uint16
@@ -291,6 +292,9 @@ func (item *CIPItem) DeSerialize(str any) error {
 
 func (item *CIPItem) Bytes() ([]byte, error) {
 	b := bytes.Buffer{}
+	if len(item.Data) > math.MaxUint16 {
+		return nil, fmt.Errorf("item data of %d bytes is too long", len(item.Data))
+	}
 	err := binary.Write(&b, binary.LittleEndian, item.Header)
 	if err != nil {
 		return b.Bytes(), fmt.Errorf("problem writing data. %v", err)
-- 
2.43.0


From fd6c492d5069d521dd9c80cf06bcfbe65c328911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 10/36] fix: read bits of SINT tags, report out of range bits
 and decode ULINT values

---
 types.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index 75730d6..7f7f3ce 100644
--- a/types.go
+++ b/types.go
@@ -269,7 +269,7 @@ func readValue(t CIPType, r io.Reader) (any, error) {
 		var trueval uint32
 		err = binary.Read(r, binary.LittleEndian, &trueval)
 		value = trueval
-	case CIPTypeLWORD:
+	case CIPTypeLWORD, CIPTypeULINT:
 		var trueval uint64
 		err = binary.Read(r, binary.LittleEndian, &trueval)
 		value = trueval
@@ -336,9 +336,9 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 		}
 	case CIPTypeSINT:
 		if bitpos >= 0 && bitpos < 8 {
-			x, ok := v.(byte)
+			x, ok := v.(int8)
 			if ok {
-				mask := byte(1 << bitpos)
+				mask := int8(1 << bitpos)
 				masked := x & mask
 				return masked != 0, nil
 			}
@@ -404,7 +404,7 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 			}
 			err = fmt.Errorf("value was a UDINT, but bit %d was requested. must be 0-31 for UDINT", bitpos)
 		}
-	case CIPTypeLWORD:
+	case CIPTypeLWORD, CIPTypeULINT:
 		if bitpos >= 0 && bitpos < 64 {
 			x, ok := v.(uint64)
 			if ok {
@@ -448,5 +448,5 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	return false, err
+	return false, fmt.Errorf("bit %d is out of range for %s", bitpos, t)
 }
-- 
2.43.0


From bcbfd378dab5c010705ef7c1a269612f8838fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 11/36] fix: pack arrays of structures element by element and
 read padding completely

---
 pack.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pack.go b/pack.go
index 01cb4f4..0577f2a 100644
--- a/pack.go
+++ b/pack.go
@@ -208,7 +208,24 @@ func Pack(w io.Writer, data any) (int, error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if k == reflect.Array && field.Type.Elem().Kind() == reflect.Struct {
+			// every element is packed like a sub-structure and padded to its alignment
+			s = 0
+			for ai := 0; ai < refVal.Field(i).Len(); ai++ {
+				n, err := Pack(w, refVal.Field(i).Index(ai).Interface())
+				if err != nil {
+					return pos, fmt.Errorf("problem packing array element %d: %w", ai, err)
+				}
+				if n%a != 0 {
+					_, err = w.Write(make([]byte, a-n%a))
+					if err != nil {
+						return pos, fmt.Errorf("problem writing pad to buffer. %w", err)
+					}
+					n += a - n%a
+				}
+				s += n
+			}
+		} else if k != reflect.Struct {
 			err := binary.Write(w, p.Order(), refVal.Field(i).Interface())
 			if err != nil {
 				return pos, fmt.Errorf("problem reading sub-structure. %v", err)
@@ -271,7 +288,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 			n += s
 			align := p.Align(refType.Elem())
 			if s%align != 0 {
-				s, err = r.Read(make([]byte, align-s%align))
+				s, err = io.ReadFull(r, make([]byte, align-s%align))
 				if err != nil {
 					return n, fmt.Errorf("problem reading slice element padding: %w", err)
 				}
@@ -359,7 +376,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		if rem < a && rem > 0 {
 			// need paddding bits
 			pad := make([]byte, rem)
-			_, err = r.Read(pad)
+			_, err = io.ReadFull(r, pad)
 			if err != nil {
 				return
 			}
@@ -367,7 +384,13 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if k == reflect.Array && field.Type.Elem().Kind() == reflect.Struct {
+			// the elements are laid out like those of a slice of structures
+			s, err = Unpack(r, refVal.Field(i).Slice(0, refVal.Field(i).Len()).Interface())
+			if err != nil {
+				return
+			}
+		} else if k != reflect.Struct {
 			//binary.Read(r, p.Order(), refVal.Field(i).Interface())
 			err = binary.Read(r, p.Order(), refVal.Field(i).Addr().Interface())
 			if err != nil {
-- 
2.43.0


From 900775cdbf52b7b4afe5c9e8615a4659c2dbfa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 12/36] fix: report a failed write when packing a serializable
 value

---
 pack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack.go b/pack.go
index 0577f2a..4c9bd88 100644
--- a/pack.go
+++ b/pack.go
@@ -102,7 +102,7 @@ func Pack(w io.Writer, data any) (int, error) {
 	case Serializable:
 		n, err := w.Write(d.Bytes())
 		if err != nil {
-			return 0, nil
+			return n, fmt.Errorf("problem writing serialized bytes. %w", err)
 		}
 		return n, nil
 	}
-- 
2.43.0


From 73526bc7c71e4bb41b85821736cff2711d976429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 13/36] fix: the map tag provider converts only representable
 values, rejects bad counts and does not share its storage

---
 server_router.go | 75 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 7 deletions(-)

diff --git a/server_router.go b/server_router.go
index 1a9b5ae..7445e59 100644
--- a/server_router.go
+++ b/server_router.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -111,6 +112,10 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 
 	t := reflect.ValueOf(val)
 
+	if qty < 0 {
+		return nil, fmt.Errorf("tag %v: requested %d elements", tag, qty)
+	}
+
 	if hasElem {
 		if t.Kind() != reflect.Slice {
 			return nil, fmt.Errorf("tag %v: element access on non-slice (%T)", tag, val)
@@ -127,21 +132,30 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 		if qty == 1 {
 			return t.Index(elemIdx).Interface(), nil
 		}
-		return t.Slice(elemIdx, end).Interface(), nil
+		return cloneSlice(t.Slice(elemIdx, end)).Interface(), nil
 	}
 
 	if t.Kind() == reflect.Slice {
 		if int(qty) <= t.Len() {
-			values := reflect.Indirect(t)
-			v := values.Slice(0, int(qty))
-			return v.Interface(), nil
+			return cloneSlice(t.Slice(0, int(qty))).Interface(), nil
 		}
 		return nil, fmt.Errorf("too many elements requested %v > %v", qty, t.Len())
 	}
 
+	if qty > 1 && t.Kind() != reflect.Array {
+		return nil, fmt.Errorf("too many elements requested %v > 1", qty)
+	}
+
 	return val, nil
 }
 
+// cloneSlice copies a slice so that the stored data is only ever accessed under the provider's lock.
+func cloneSlice(v reflect.Value) reflect.Value {
+	out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+	reflect.Copy(out, v)
+	return out
+}
+
 // this is a thread-safe way to write a value to a tag. Like TagRead, it
 // supports element addressing (`name[N]`) AND preserves the underlying
 // element type of an existing typed slice when the caller hands us a
@@ -204,6 +218,9 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		}
 	}
 
+	if nv := reflect.ValueOf(value); nv.Kind() == reflect.Slice && !nv.IsNil() {
+		value = cloneSlice(nv).Interface()
+	}
 	p.Data[baseName] = value
 	return nil
 }
@@ -233,13 +250,57 @@ func parseElementTag(tag string) (base string, idx int, hasElem bool) {
 // converted value or an error if the cast isn't representable.
 func convertToElement(value any, target reflect.Type) (any, error) {
 	v := reflect.ValueOf(value)
-	if v.Type() == target {
+	if !v.IsValid() {
+		return nil, fmt.Errorf("cannot convert %T to %v", value, target)
+	}
+	if v.Type() == target || target.Kind() == reflect.Interface && v.Type().Implements(target) {
 		return value, nil
 	}
-	if v.Type().ConvertibleTo(target) {
+	if v.Type().ConvertibleTo(target) && representable(v, target) {
 		return v.Convert(target).Interface(), nil
 	}
-	return nil, fmt.Errorf("cannot convert %T to %v", value, target)
+	return nil, fmt.Errorf("cannot convert %v (%T) to %v", value, value, target)
+}
+
+// representable reports whether converting the number v to target keeps its value. Only the rounding between
+// floating point types is accepted.  A number is never converted to text.
+func representable(v reflect.Value, target reflect.Type) bool {
+	zero := reflect.Zero(target)
+	switch {
+	case v.CanInt():
+		n := v.Int()
+		switch {
+		case zero.CanInt():
+			return !zero.OverflowInt(n)
+		case zero.CanUint():
+			return n >= 0 && !zero.OverflowUint(uint64(n))
+		case zero.CanFloat():
+			f := v.Convert(target).Float()
+			return f < 1<<63 && int64(f) == n
+		}
+		return false
+	case v.CanUint():
+		n := v.Uint()
+		switch {
+		case zero.CanInt():
+			return n <= math.MaxInt64 && !zero.OverflowInt(int64(n))
+		case zero.CanUint():
+			return !zero.OverflowUint(n)
+		case zero.CanFloat():
+			f := v.Convert(target).Float()
+			return f < 1<<64 && uint64(f) == n
+		}
+		return false
+	case v.CanFloat():
+		f := v.Float()
+		switch {
+		case zero.CanInt():
+			return f >= -1<<63 && f < 1<<63 && f == math.Trunc(f) && !zero.OverflowInt(int64(f))
+		case zero.CanUint():
+			return f >= 0 && f < 1<<64 && f == math.Trunc(f) && !zero.OverflowUint(uint64(f))
+		}
+	}
+	return true
 }
 
 // TagList implements the optional TagLister interface and returns a snapshot
-- 
2.43.0


From 8acd4166b33cb176d8a3062757851f0a4d39d740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 14/36] fix: store a new array tag with its element type so
 that it can be read back

---
 server_router.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/server_router.go b/server_router.go
index 7445e59..9bc208d 100644
--- a/server_router.go
+++ b/server_router.go
@@ -218,6 +218,19 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		}
 	}
 
+	// A new array tag takes the type its elements have in common, so that it can be serialized when it is read.
+	if values, ok := value.([]any); ok && len(values) > 0 && values[0] != nil {
+		elemType := reflect.TypeOf(values[0])
+		out := reflect.MakeSlice(reflect.SliceOf(elemType), len(values), len(values))
+		for i := range values {
+			if reflect.TypeOf(values[i]) != elemType {
+				return fmt.Errorf("tag %v element %d: %T in an array of %v", tag, i, values[i], elemType)
+			}
+			out.Index(i).Set(reflect.ValueOf(values[i]))
+		}
+		value = out.Interface()
+	}
+
 	if nv := reflect.ValueOf(value); nv.Kind() == reflect.Slice && !nv.IsNil() {
 		value = cloneSlice(nv).Interface()
 	}
-- 
2.43.0


From 5ef669d6c5510fd4cf969cc96c19fdb8b94ad228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 15/36] fix: load L5X values in every radix, report invalid
 text and keep nested members and controller structures

---
 l5x/load_tags.go | 159 +++++++++++++++++++++++++-------------------
 l5x/types.go     | 169 +++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 232 insertions(+), 96 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index 23db452..c06cb10 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -8,85 +8,37 @@ import (
 
 func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 
-	var err error
 	tags := make(map[string]any)
+	if l5xData == nil || l5xData.Controller == nil {
+		return tags, nil
+	}
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
-		if tag.Data != nil {
-			if len(tag.Data) > 1 {
-				if tag.Data[1].DataValue != nil {
-					tags[tag.NameAttr], err = L5xTypeToGoType(tag.DataTypeAttr, tag.Data[1].DataValue.ValueAttr)
-				}
+	if l5xData.Controller.Tags != nil {
+		for _, tag := range l5xData.Controller.Tags.Tag {
+			value, ok, err := tagToGo(tag)
+			if err != nil {
+				return nil, fmt.Errorf("error converting %s: %w", tag.NameAttr, err)
+			}
+			if ok {
+				tags[tag.NameAttr] = value
 			}
-		}
-		if err != nil {
-			return nil, fmt.Errorf("error converting %s: %s", tag.NameAttr, err)
 		}
 	}
 
+	if l5xData.Controller.Programs == nil {
+		return tags, nil
+	}
 	for _, program := range l5xData.Controller.Programs.Program {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
 		progtags := make(map[string]any)
-		for _, tag := range program.Tags.Tag {
-			tagname := tag.NameAttr
-			tagtype := tag.DataTypeAttr
-			if len(tag.Data) > 1 {
-				// could be an atomic value
-				if tag.Data[1].DataValue != nil {
-					progtags[tagname], err = L5xTypeToGoType(tagtype, tag.Data[1].DataValue.ValueAttr)
-					if err != nil {
-						return nil, fmt.Errorf("error converting %s.%s: %s", progprefix, tagname, err)
-					}
-					continue
-				}
-				// or a structure
-				if tag.Data[1].Structure != nil {
-					mapValue := make(map[string]any)
-					for _, member := range tag.Data[1].Structure.DataValueMember {
-						mapValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
-						if err != nil {
-							return nil, fmt.Errorf("error converting %s.%s.%s: %s", progprefix, tagname, member.NameAttr, err)
-						}
-					}
-					progtags[tagname] = mapValue
-					continue
+		if program.Tags != nil {
+			for _, tag := range program.Tags.Tag {
+				value, ok, err := tagToGo(tag)
+				if err != nil {
+					return nil, fmt.Errorf("error converting %s.%s: %w", progprefix, tag.NameAttr, err)
 				}
-				// or an array of atomic values or structures
-				if tag.Data[1].Array != nil {
-
-					dims, err := strconv.ParseInt(tag.DimensionsAttr, 10, 64)
-					if err != nil {
-						return nil, fmt.Errorf("%s.%s invalid dimensions on %s: %s", progprefix, tagname, tag.DimensionsAttr, err)
-					}
-					arrValue := make([]any, 0, dims)
-					for _, element := range tag.Data[1].Array.Element {
-						if element.Structure != nil {
-							// this is an array of structures
-							myValue := make(map[string]any)
-							for _, member := range element.Structure[0].DataValueMember {
-								if member.DataTypeAttr == "STRING" {
-									myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.CData())
-									if err != nil {
-										return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
-									}
-									continue
-								}
-								myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
-								if err != nil {
-									return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
-								}
-							}
-							arrValue = append(arrValue, myValue)
-							continue
-						}
-
-						val, err := L5xTypeToGoType(tagtype, element.ValueAttr)
-						if err != nil {
-							return nil, fmt.Errorf("error converting %s: %s", tagname, err)
-						}
-						arrValue = append(arrValue, val)
-					}
-					progtags[tagname] = arrValue
+				if ok {
+					progtags[tag.NameAttr] = value
 				}
 			}
 		}
@@ -97,6 +49,75 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 
 }
 
+// tagToGo returns the value of a tag, or false if the file has none that we understand.
+func tagToGo(tag *TagType) (any, bool, error) {
+	for _, data := range tag.Data {
+		switch {
+		case data.DataValue != nil:
+			value, err := L5xTypeToGoType(tag.DataTypeAttr, data.DataValue.ValueAttr)
+			return value, err == nil, err
+		case data.Structure != nil:
+			value, err := structureToGo(data.Structure)
+			return value, err == nil, err
+		case data.Array != nil:
+			value, err := arrayToGo(tag.DataTypeAttr, data.Array)
+			return value, err == nil, err
+		case data.FormatAttr == "String":
+			return data.CData(), true, nil
+		}
+	}
+	return nil, false, nil
+}
+
+// structureToGo returns the members of a structure by name.
+func structureToGo(structure *DataStructure) (map[string]any, error) {
+	var err error
+	values := make(map[string]any)
+	for _, member := range structure.DataValueMember {
+		if member.DataTypeAttr == "STRING" || member.ValueAttr == "" && len(member.InnerValue) > 0 {
+			// the text of a STRING or of a user defined string type
+			values[member.NameAttr] = member.CData()
+			continue
+		}
+		values[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
+		if err != nil {
+			return nil, fmt.Errorf("member %s: %w", member.NameAttr, err)
+		}
+	}
+	for _, member := range structure.StructureMember {
+		values[member.NameAttr], err = structureToGo(member)
+		if err != nil {
+			return nil, fmt.Errorf("member %s: %w", member.NameAttr, err)
+		}
+	}
+	for _, member := range structure.ArrayMember {
+		values[member.NameAttr], err = arrayToGo(member.DataTypeAttr, member)
+		if err != nil {
+			return nil, fmt.Errorf("member %s: %w", member.NameAttr, err)
+		}
+	}
+	return values, nil
+}
+
+// arrayToGo returns the elements of an array of atomic values or structures.
+func arrayToGo(elementType string, array *DataArray) ([]any, error) {
+	values := make([]any, 0, len(array.Element))
+	for _, element := range array.Element {
+		var value any
+		var err error
+		if len(element.Structure) > 0 {
+			value, err = structureToGo(element.Structure[0])
+		} else {
+			value, err = L5xTypeToGoType(elementType, element.ValueAttr)
+		}
+		if err != nil {
+			return nil, fmt.Errorf("element %s: %w", element.IndexAttr, err)
+		}
+		values = append(values, value)
+	}
+	return values, nil
+}
+
 func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	dtm := GetDataTypeMap(l5xData)
 
diff --git a/l5x/types.go b/l5x/types.go
index f76db98..c2679ab 100644
--- a/l5x/types.go
+++ b/l5x/types.go
@@ -2,45 +2,160 @@ package l5x
 
 import (
 	"fmt"
+	"math"
 	"strconv"
+	"strings"
 )
 
 func L5xTypeToGoType(typestr string, valuestr string) (any, error) {
 	switch typestr {
-	case "REAL":
-		value, _ := strconv.ParseFloat(valuestr, 64)
-		return float64(value), nil
-	case "DINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
-		return int32(value), nil
+	case "REAL", "LREAL":
+		return parseFloat(valuestr)
 	case "BOOL", "BIT":
-		value, _ := strconv.ParseBool(valuestr)
-		return bool(value), nil
-	case "INT":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
-		return int16(value), nil
+		value, err := parseInteger(valuestr, 1, false)
+		if err != nil {
+			return strconv.ParseBool(valuestr)
+		}
+		return value != 0, nil
 	case "STRING":
 		return valuestr, nil
 	case "SINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
-		return int8(value), nil
+		value, err := parseInteger(valuestr, 8, true)
+		return int8(value), err
+	case "INT":
+		value, err := parseInteger(valuestr, 16, true)
+		return int16(value), err
+	case "DINT":
+		value, err := parseInteger(valuestr, 32, true)
+		return int32(value), err
 	case "LINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
-		return int64(value), nil
-	case "BYTE":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
-		return uint8(value), nil
-	case "WORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
-		return uint16(value), nil
-	case "DWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
-		return uint32(value), nil
-	case "LWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
-		return uint64(value), nil
+		value, err := parseInteger(valuestr, 64, true)
+		return int64(value), err
+	case "BYTE", "USINT":
+		value, err := parseInteger(valuestr, 8, false)
+		return uint8(value), err
+	case "WORD", "UINT":
+		value, err := parseInteger(valuestr, 16, false)
+		return uint16(value), err
+	case "DWORD", "UDINT":
+		value, err := parseInteger(valuestr, 32, false)
+		return uint32(value), err
+	case "LWORD", "ULINT":
+		value, err := parseInteger(valuestr, 64, false)
+		return value, err
 
 	default:
 		return fmt.Sprintf("Unknown type: %s", typestr), nil
 	}
 }
+
+// parseFloat reads a floating point value.  Studio 5000 writes the special values as 1.#QNAN, 1.#INF and so on.
+func parseFloat(text string) (float64, error) {
+	number, special, ok := strings.Cut(text, "#")
+	if !ok {
+		return strconv.ParseFloat(text, 64)
+	}
+	if number != "1." && number != "-1." {
+		return 0, fmt.Errorf("invalid number %q", text)
+	}
+	if strings.HasPrefix(special, "QNAN") || strings.HasPrefix(special, "SNAN") || strings.HasPrefix(special, "IND") {
+		return math.NaN(), nil
+	}
+	if strings.HasPrefix(special, "INF") {
+		if number == "-1." {
+			return math.Inf(-1), nil
+		}
+		return math.Inf(1), nil
+	}
+	return 0, fmt.Errorf("invalid number %q", text)
+}
+
+// parseInteger reads an integer of the given size in any radix: 12, 16#0c, 8#14, 2#1100 (with or without
+// underscores between the digits) or text like '$00$0C'.
+// Signed numbers in a radix other than decimal are written as their two's complement bits.
+func parseInteger(text string, bits int, signed bool) (uint64, error) {
+	if strings.HasPrefix(text, "'") {
+		return parseASCII(text, bits)
+	}
+	base := 10
+	if radix, digits, ok := strings.Cut(text, "#"); ok {
+		switch radix {
+		case "2":
+			base = 2
+		case "8":
+			base = 8
+		case "16":
+			base = 16
+		default:
+			return 0, fmt.Errorf("invalid radix in %q", text)
+		}
+		text = digits
+	}
+	text = strings.ReplaceAll(text, "_", "")
+	if signed && base == 10 {
+		value, err := strconv.ParseInt(text, base, bits)
+		if err != nil {
+			return 0, err
+		}
+		return uint64(value), nil
+	}
+	value, err := strconv.ParseUint(text, base, bits)
+	if err != nil {
+		return 0, err
+	}
+	if shift := 64 - bits; signed {
+		// extend the sign
+		return uint64(int64(value<<shift) >> shift), nil
+	}
+	return value, nil
+}
+
+// parseASCII reads an integer written as quoted text, most significant byte first.
+func parseASCII(text string, bits int) (uint64, error) {
+	if len(text) < 2 || !strings.HasSuffix(text, "'") {
+		return 0, fmt.Errorf("invalid text %q", text)
+	}
+	var value uint64
+	n := 0
+	for rest := text[1 : len(text)-1]; rest != ""; n++ {
+		c := rest[0]
+		rest = rest[1:]
+		switch {
+		case c == '\'':
+			return 0, fmt.Errorf("invalid text %q", text)
+		case c == '$':
+			if rest == "" {
+				return 0, fmt.Errorf("invalid text %q", text)
+			}
+			escape := rest[0]
+			switch escape {
+			case '$', '\'':
+				c = escape
+			case 'l', 'L', 'n', 'N':
+				c = '\n'
+			case 'p', 'P':
+				c = '\f'
+			case 'r', 'R':
+				c = '\r'
+			case 't', 'T':
+				c = '\t'
+			default:
+				if len(rest) < 2 {
+					return 0, fmt.Errorf("invalid text %q", text)
+				}
+				hex, err := strconv.ParseUint(rest[:2], 16, 8)
+				if err != nil {
+					return 0, fmt.Errorf("invalid text %q", text)
+				}
+				c = byte(hex)
+				rest = rest[1:]
+			}
+			rest = rest[1:]
+		}
+		value = value<<8 | uint64(c)
+	}
+	if n == 0 || n > bits/8 {
+		return 0, fmt.Errorf("text %q does not fit %d bits", text, bits)
+	}
+	return value, nil
+}
-- 
2.43.0


From 2e7ccf758f7da895c3fdf605bfd94dc42fabfbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 16/36] fix: read single element and empty slices, report
 encapsulation errors and impossible string lengths

---
 read.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index d81fc46..b7adfd8 100644
--- a/read.go
+++ b/read.go
@@ -435,7 +435,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	if err != nil {
 		return nil, err
 	}
-	_ = hdr
+	if hdr.Status != 0 {
+		return nil, fmt.Errorf("read of %s got encapsulation status %d", tag, hdr.Status)
+	}
 
 	read_result_header := msgCIPResultHeader{}
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
@@ -488,6 +490,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
 				}
+				if uint64(str_hdr.Length) > uint64(len(items[1].Rest())) {
+					return nil, fmt.Errorf("string of %d characters is longer than its reply", str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = items[1].DeSerialize(&str)
 				if err != nil {
@@ -508,6 +513,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
+				if str_hdr.Length > uint32(len(str)) {
+					return nil, fmt.Errorf("string %d of %s claims to hold %d characters", i, tag, str_hdr.Length)
+				}
 				response[i] = str[:str_hdr.Length]
 			}
 			return response, nil
@@ -551,11 +559,18 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 
 func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T, error) {
 	t := make([]T, elements)
+	if elements == 0 {
+		return t, fmt.Errorf("no elements of %s requested", tag)
+	}
 	ct, _ := GoVarToCIPType(t[0])
 	val, err := client.Read_single(tag, ct, elements)
 	if err != nil {
 		return t, err
 	}
+	if elements == 1 && ct != CIPTypeStruct {
+		// a single element comes back as itself
+		val = []any{val}
+	}
 
 	if ct == CIPTypeStruct {
 		b, ok := val.([]byte)
-- 
2.43.0


From 0a9ed7b394b60a5b4f52e6a61181db8ec7d12150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 17/36] fix: stop a fragmented read that makes no progress and
 report encapsulation errors in it

---
 read.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index b7adfd8..32c77bf 100644
--- a/read.go
+++ b/read.go
@@ -1192,6 +1192,9 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 		if status != byte(CIPStatus_PartialTransfer) {
 			return nil, fmt.Errorf("FragRead at offset %d returned status %v", offset, CIPStatus(status))
 		}
+		if len(fragData) == 0 {
+			return nil, fmt.Errorf("FragRead at offset %d made no progress", offset)
+		}
 	}
 }
 
@@ -1218,10 +1221,13 @@ func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset u
 		return nil, 0, fmt.Errorf("problem serializing FragRead items: %w", err)
 	}
 
-	_, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
+	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
 	if err != nil {
 		return nil, 0, fmt.Errorf("transport: %w", err)
 	}
+	if hdr.Status != 0 {
+		return nil, 0, fmt.Errorf("encapsulation status %d", hdr.Status)
+	}
 
 	var resultHdr msgCIPResultHeader
 	if err := binary.Read(data, binary.LittleEndian, &resultHdr); err != nil {
-- 
2.43.0


From 7e2935111435949dbd55abab7a3518e8b50679ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 18/36] fix: read a list or structure of tags only from a
 complete, matching reply and split it by its real size

---
 partialread.go |   6 ++-
 read.go        | 113 ++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 89 insertions(+), 30 deletions(-)

diff --git a/partialread.go b/partialread.go
index 3d923f7..658bc23 100644
--- a/partialread.go
+++ b/partialread.go
@@ -57,6 +57,10 @@ func (client *Client) ReadList(tagnames []string, types []any, elements []int) (
 	results := make([]any, 0, total)
 	msgs := 0
 
+	if len(types) != total || len(elements) != total {
+		return nil, fmt.Errorf("got %d tag names, %d types and %d element counts", total, len(types), len(elements))
+	}
+
 	tags := make([]tagDesc, total)
 
 	for i := range tagnames {
@@ -132,7 +136,7 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 
 		// Calculate the size of the data once we add this ioi to the list.
 		newSize := mainhdr_size                                // length of the multi-read header
-		newSize += 2 * n                                       // add in the jump table
+		newSize += 2 * (i + 1)                                 // add in the jump table
 		newSize += b.Len()                                     // everything we have so far
 		newSize += ioihdr_size + len(ioi.Buffer) + ioiftr_size // the new ioi data
 		//newSize += 4                                           // Fudge for alignment if needed
diff --git a/read.go b/read.go
index 32c77bf..b66393d 100644
--- a/read.go
+++ b/read.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -728,12 +729,13 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	}
 
 	// build the tag list from the structure by reflecting through the tags on the fields of the struct.
-	T := reflect.TypeOf(tag_str).Elem()
-	vf := reflect.VisibleFields(T)
+	val := reflect.Indirect(reflect.ValueOf(tag_str))
+	if val.Kind() != reflect.Struct || !val.CanSet() {
+		return fmt.Errorf("can only read into a map or a pointer to a struct, not %T", tag_str)
+	}
+	vf := reflect.VisibleFields(val.Type())
 	taglist := make([]tagDesc, 0, len(vf))
-	tags := make([]string, 0)
-	tag_map := make(map[string]int)
-	val := reflect.ValueOf(tag_str).Elem()
+	fields := make([]reflect.Value, 0, len(vf))
 	for i := range vf {
 		field := vf[i]
 		tagPath, ok := field.Tag.Lookup("gologix")
@@ -743,10 +745,13 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		v := val.Field(i).Interface()
+		fieldVal, err := val.FieldByIndexErr(field.Index)
+		if err != nil {
+			return fmt.Errorf("problem reading into %s: %w", field.Name, err)
+		}
+		v := fieldVal.Interface()
 		t, elem := GoVarToCIPType(v)
-		tags = append(tags, tagPath)
-		tag_map[tagPath] = i
+		fields = append(fields, fieldVal)
 		taglist = append(taglist, tagDesc{
 			TagName:  tagPath,
 			TagType:  t,
@@ -760,21 +765,30 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		return fmt.Errorf("problem in read list: %w", err)
 	}
 
-	// now unpack the result values back into the given structure
-	for i, tag := range tags {
-		fieldNo := tag_map[tag]
-		val := result_values[i]
-
-		v := reflect.ValueOf(&tag_str).Elem().Elem().Elem()
-
-		fieldVal := v.Field(fieldNo)
+	if len(result_values) != len(fields) {
+		return fmt.Errorf("got %d values for %d tags", len(result_values), len(fields))
+	}
 
-		if fieldVal.Type().Kind() != reflect.Slice {
-			fieldVal.Set(reflect.ValueOf(val))
-		} else {
-			l := fieldVal.Len()
-			for j := 0; j < l; j++ {
-				fieldVal.Index(j).Set(reflect.ValueOf(val).Index(j).Elem())
+	// now unpack the result values back into the given structure
+	for i, fieldVal := range fields {
+		result := result_values[i]
+		if fieldVal.Kind() != reflect.Slice {
+			if err := setField(fieldVal, result); err != nil {
+				return fmt.Errorf("problem reading %s: %w", taglist[i].TagName, err)
+			}
+			continue
+		}
+		elements, ok := result.([]any)
+		if !ok {
+			// a single element comes back as itself
+			elements = []any{result}
+		}
+		if len(elements) != fieldVal.Len() {
+			return fmt.Errorf("problem reading %s: got %d instead of %d elements", taglist[i].TagName, len(elements), fieldVal.Len())
+		}
+		for j := range elements {
+			if err := setField(fieldVal.Index(j), elements[j]); err != nil {
+				return fmt.Errorf("problem reading element %d of %s: %w", j, taglist[i].TagName, err)
 			}
 		}
 	}
@@ -782,6 +796,16 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	return nil
 }
 
+// setField puts a value read from the controller into a field, which has to be of the type the controller sent.
+func setField(field reflect.Value, value any) error {
+	v := reflect.ValueOf(value)
+	if !v.IsValid() || !v.Type().AssignableTo(field.Type()) {
+		return fmt.Errorf("couldn't convert %T to %v", value, field.Type())
+	}
+	field.Set(v)
+	return nil
+}
+
 type tagDesc struct {
 	TagName  string
 	TagType  CIPType
@@ -796,6 +820,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	iois := make([]*tagIOI, qty)
 	for i, tag := range tags {
 		var err error
+		if tag.Elements < 1 || tag.Elements > math.MaxUint16 {
+			return nil, fmt.Errorf("can't read %d elements of %s", tag.Elements, tag.TagName)
+		}
 		iois[i], err = client.newIOI(tag.TagName, tag.TagType)
 		if err != nil {
 			return nil, err
@@ -838,11 +865,13 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			return nil, fmt.Errorf("problem writing ioi buffer to msg buffer. %w", err)
 		}
 
-		totalMsgSize := b.Len() + SizeOf(h) + SizeOf(f) + 2 // 2 for the jump table entry
-		// TODO: calculate the actual message size, not just the IOI data size.
+		totalMsgSize := binary.Size(ioi_header) + 2*(i+1) + b.Len() // 2 for each jump table entry
 		// TODO: We also need to calculate the response size we expect from the PLC and split
 		//       into multiple messages on that also.
 		if totalMsgSize > int(client.ConnectionSize) {
+			if i == 0 {
+				return nil, fmt.Errorf("reading %s does not fit in a message of %d bytes", tags[i].TagName, client.ConnectionSize)
+			}
 			first_part := tags[:i]
 			rest := tags[i:]
 
@@ -923,6 +952,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	if err != nil {
 		return nil, fmt.Errorf("problem reading reply header item count. %w", err)
 	}
+	if int(reply_hdr.Reply_Count) != qty {
+		return nil, fmt.Errorf("got %d replies for %d tags", reply_hdr.Reply_Count, qty)
+	}
 
 	offset_table := make([]uint16, reply_hdr.Reply_Count)
 	err = binary.Read(&rItem, binary.LittleEndian, &offset_table)
@@ -935,8 +967,17 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	}
 	result_values := make([]interface{}, reply_hdr.Reply_Count)
 	for i := 0; i < int(reply_hdr.Reply_Count); i++ {
-		offset := offset_table[i] + 10 // offset doesn't start at 0 in the item
-		myBytes := bytes.NewBuffer(rb[offset:])
+		// the reply to a tag goes up to the start of the next one.
+		start, end := int(offset_table[i]), len(rb)-10
+		for _, next := range offset_table {
+			if int(next) > start && int(next) < end {
+				end = int(next)
+			}
+		}
+		if start < 2+2*qty || start > end {
+			return nil, fmt.Errorf("reply %d is at offset %d of %d", i, start, len(rb)-10)
+		}
+		myBytes := bytes.NewBuffer(rb[start+10 : end+10]) // offset doesn't start at 0 in the item
 		rHdr := msgMultiReadResult{}
 		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
 		if err != nil {
@@ -960,16 +1001,21 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				}
 				val, err := getBit(rHdr.Type, value, iois[i].BitPosition)
 				if err != nil {
-					client.Logger.Warn("problem reading value for this guy")
-					continue
+					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i], err)
 				}
 				result_values[i] = val
 			} else if tags[i].TagType == CIPTypeSTRING {
+				if rHdr.Type != CIPTypeStruct {
+					return nil, fmt.Errorf("problem reading tag %v: expected a string, got %v", tags[i], rHdr.Type)
+				}
 				str_hdr := cipStringHeader{}
 				err = binary.Read(myBytes, binary.LittleEndian, &str_hdr)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string struct header. %w", err)
 				}
+				if uint64(str_hdr.Length) > uint64(myBytes.Len()) {
+					return nil, fmt.Errorf("problem reading tag %v: string of %d characters is longer than its reply", tags[i], str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = binary.Read(myBytes, binary.LittleEndian, str)
 				if err != nil {
@@ -988,8 +1034,11 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 					result_values[i] = myBytes.Bytes()
 					continue
 				}
+				if reflect.TypeOf(tags[i].Struct).Kind() != reflect.Struct {
+					return nil, fmt.Errorf("problem reading tag %v: got a structure for a %T", tags[i], tags[i].Struct)
+				}
 				x := reflect.New(reflect.TypeOf(tags[i].Struct)).Interface()
-				err = binary.Read(myBytes, binary.LittleEndian, x)
+				_, err = Unpack(myBytes, x)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
@@ -1009,6 +1058,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			// string length. Reading only Length bytes would misalign the next
 			// element. This mirrors the per-element loop used in Read for
 			// arrays of strings (see read.go above).
+			if rHdr.Type != CIPTypeStruct {
+				return nil, fmt.Errorf("problem reading tag %v: expected strings, got %v", tags[i], rHdr.Type)
+			}
 			val := make([]any, tags[i].Elements)
 			for respIndex := 0; respIndex < tags[i].Elements; respIndex++ {
 				str_hdr := cipStringHeader{}
@@ -1021,6 +1073,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string data for tag %v element %d: %w", tags[i], respIndex, err)
 				}
+				if str_hdr.Length > uint32(len(str)) {
+					return nil, fmt.Errorf("string %d of tag %v claims to hold %d characters", respIndex, tags[i], str_hdr.Length)
+				}
 				val[respIndex] = string(str[:str_hdr.Length])
 			}
 			result_values[i] = val
-- 
2.43.0


From fbcb9a6f19e96093fa30b549bf29ae230ee17b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 19/36] fix: report every failed or malformed write reply and
 refuse values, bits and sizes a write cannot carry

---
 sendreceive.go |   4 ++
 types.go       |   2 +
 write.go       | 122 ++++++++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 117 insertions(+), 11 deletions(-)

diff --git a/sendreceive.go b/sendreceive.go
index ad1efd2..0a494cb 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"time"
 )
 
@@ -23,6 +24,9 @@ func (client *Client) sendMsgBuild(cmd CIPCommand, msgs ...any) ([]byte, error)
 	for _, msg := range msgs {
 		messageLen += binary.Size(msg)
 	}
+	if messageLen > math.MaxUint16 {
+		return nil, fmt.Errorf("message of %d bytes is too long", messageLen)
+	}
 	// build header based on size
 	hdr := client.newEIPHeader(cmd, messageLen)
 
diff --git a/types.go b/types.go
index 7f7f3ce..12a0dfe 100644
--- a/types.go
+++ b/types.go
@@ -45,6 +45,8 @@ func GoVarToCIPType(T any) (CIPType, int) {
 		return CIPTypeLREAL, 1
 	case string, *string:
 		return CIPTypeSTRING, 1
+	case []bool:
+		return CIPTypeBOOL, len(x)
 	case []byte:
 		return CIPTypeBYTE, len(x)
 	case []int8:
diff --git a/write.go b/write.go
index 72d2f70..96d2238 100644
--- a/write.go
+++ b/write.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -120,6 +121,9 @@ func (client *Client) write_udt(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem generating IOI. %w", err)
 	}
+	if ioi.BitAccess {
+		return fmt.Errorf("can't write a %T to a single bit of %s", value, tag)
+	}
 	elements := uint16(1)
 
 	ioi_header := msgCIPIOIHeader{
@@ -196,11 +200,17 @@ func (client *Client) write_udt(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
+	if len(items) != 2 {
+		return fmt.Errorf("wrong number of items in write response. Expected 2 but got %d", len(items))
+	}
 	var hdr2 msgWriteResultHeader
 	err = items[1].DeSerialize(&hdr2)
 	if err != nil {
 		return fmt.Errorf("problem deserializing write response header, %w", err)
 	}
+	if hdr2.Service != CIPService_Write.AsResponse() {
+		return fmt.Errorf("got service %v instead of a write response", hdr2.Service)
+	}
 	if hdr2.Status != CIPStatus_OK {
 		extended := uint16(0)
 		if hdr2.StatusExtended == 1 {
@@ -225,11 +235,12 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem generating IOI. %w", err)
 	}
-	elements := uint16(1)
-
-	v := reflect.ValueOf(value)
-	if v.Kind() == reflect.Slice {
-		elements = uint16(v.Len())
+	if ioi.BitAccess {
+		return fmt.Errorf("can't write a single bit of %s", tag)
+	}
+	footer, payload, err := writePayload(datatype, value)
+	if err != nil {
+		return fmt.Errorf("problem preparing to write %s. %w", tag, err)
 	}
 
 	ioi_header := msgCIPIOIHeader{
@@ -237,10 +248,6 @@ func (client *Client) write_single(tag string, value any) error {
 		Service:  CIPService_Write,
 		Size:     byte(len(ioi.Buffer) / 2),
 	}
-	ioi_footer := msgCIPWriteIOIFooter{
-		DataType: uint16(datatype),
-		Elements: elements,
-	}
 
 	reqitems := make([]CIPItem, 2)
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
@@ -255,12 +262,12 @@ func (client *Client) write_single(tag string, value any) error {
 		return fmt.Errorf("problem serializing ioi buffer. %w", err)
 	}
 
-	err = reqitems[1].Serialize(ioi_footer)
+	err = reqitems[1].Serialize(footer)
 	if err != nil {
 		return fmt.Errorf("problem serializing ioi footer. %w", err)
 	}
 
-	err = reqitems[1].Serialize(value)
+	err = reqitems[1].Serialize(payload)
 	if err != nil {
 		return fmt.Errorf("problem serializing value. %w", err)
 	}
@@ -285,11 +292,17 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
+	if len(items) != 2 {
+		return fmt.Errorf("wrong number of items in write response. Expected 2 but got %d", len(items))
+	}
 	var hdr2 msgWriteResultHeader
 	err = items[1].DeSerialize(&hdr2)
 	if err != nil {
 		return fmt.Errorf("problem deserializing write response header, %w", err)
 	}
+	if hdr2.Service != CIPService_Write.AsResponse() {
+		return fmt.Errorf("got service %v instead of a write response", hdr2.Service)
+	}
 	if hdr2.Status != CIPStatus_OK {
 		extended := uint16(0)
 		if hdr2.StatusExtended == 1 {
@@ -306,6 +319,93 @@ func (client *Client) write_single(tag string, value any) error {
 	return err
 }
 
+// writePayload gets what a write request carries after the path: the type and element count, and the value itself.
+func writePayload(datatype CIPType, value any) (footer []byte, payload []byte, err error) {
+	elements := 1
+	v := reflect.ValueOf(value)
+	if v.Kind() == reflect.Slice {
+		elements = v.Len()
+	}
+	if elements > math.MaxUint16 {
+		return nil, nil, fmt.Errorf("%d elements are too many for a single write", elements)
+	}
+
+	switch x := value.(type) {
+	case string:
+		err = checkStringLength(x)
+	case []string:
+		err = checkStringLength(x...)
+	}
+	if err != nil {
+		return nil, nil, err
+	}
+
+	if datatype == CIPTypeUnknown {
+		return nil, nil, fmt.Errorf("don't know the controller's type for a %T", value)
+	}
+	if datatype == CIPTypeStruct {
+		return writeStructPayload(v, elements)
+	}
+
+	ftr := msgCIPWriteIOIFooter{
+		DataType: uint16(datatype),
+		Elements: uint16(elements),
+	}
+	item := CIPItem{}
+	err = item.Serialize(value)
+	if err != nil {
+		return nil, nil, fmt.Errorf("problem serializing value. %w", err)
+	}
+	return ftr.Bytes(), item.Data, nil
+}
+
+// writeStructPayload is writePayload for a structure or a slice of structures.
+func writeStructPayload(v reflect.Value, elements int) (footer []byte, payload []byte, err error) {
+	t := v.Type()
+	if t.Kind() == reflect.Slice {
+		t = t.Elem()
+	}
+	if t.Kind() != reflect.Struct {
+		return nil, nil, fmt.Errorf("don't know the controller's type for a %v", v.Type())
+	}
+
+	_, typecrc, err := TypeEncode(reflect.New(t).Elem().Interface())
+	if err != nil {
+		return nil, nil, fmt.Errorf("problem encoding type. %w", err)
+	}
+	footer = []byte{byte(CIPTypeStruct), 2}
+	footer = binary.LittleEndian.AppendUint16(footer, typecrc)
+	footer = binary.LittleEndian.AppendUint16(footer, uint16(elements))
+
+	align := cipPack{}.Align(t)
+	data := new(bytes.Buffer)
+	if v.Kind() == reflect.Struct {
+		_, err = Pack(data, v.Interface())
+		return footer, data.Bytes(), err
+	}
+	for i := 0; i < elements; i++ {
+		_, err = Pack(data, v.Index(i).Interface())
+		if err != nil {
+			return nil, nil, fmt.Errorf("problem packing element %d. %w", i, err)
+		}
+		// the elements of an array are padded to their alignment
+		for data.Len()%align != 0 {
+			data.WriteByte(0)
+		}
+	}
+	return footer, data.Bytes(), nil
+}
+
+// checkStringLength makes sure the strings fit the controller's STRING type.
+func checkStringLength(strs ...string) error {
+	for _, s := range strs {
+		if len(s) > 84 {
+			return fmt.Errorf("a string of %d characters is too long", len(s))
+		}
+	}
+	return nil
+}
+
 type msgWriteResultHeader struct {
 	SequenceCount  uint16
 	Service        CIPService
-- 
2.43.0


From bc676634b53b5672961984a2ef6dfc81308da1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 20/36] fix: write every entry of a map or structure with its
 own type and count, in messages that fit, and check every reply

---
 udt_write.go | 175 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 128 insertions(+), 47 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index 593cdb1..7b1225a 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -15,10 +15,15 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 
 	vs := reflect.ValueOf(data)
 	fs := reflect.TypeOf(data)
-	for i := 0; i < vs.NumField(); i++ {
-		v := vs.Field(i)
-		f := fs.Field(i)
-		fulltag := f.Tag.Get("gologix")
+	for _, f := range reflect.VisibleFields(fs) {
+		fulltag, ok := f.Tag.Lookup("gologix")
+		if !ok {
+			continue
+		}
+		v, err := vs.FieldByIndexErr(f.Index)
+		if err != nil {
+			return nil, fmt.Errorf("problem getting %s. %w", fulltag, err)
+		}
 		switch v.Kind() {
 		case reflect.Struct:
 			d2, err := udt_to_dict(fulltag, v.Interface())
@@ -29,7 +34,7 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 				d[k] = d2[k]
 			}
 		case reflect.Array:
-			//TODO
+			d[fulltag] = arrayToSlice(v)
 		default:
 			d[fulltag] = v.Interface()
 		}
@@ -65,7 +70,7 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 				d[k] = d2[k]
 			}
 		case reflect.Array:
-			//TODO
+			d[fulltag] = arrayToSlice(v)
 		default:
 			d[fulltag] = v.Interface()
 		}
@@ -76,6 +81,13 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 
 }
 
+// an array is written the same as a slice of its elements
+func arrayToSlice(v reflect.Value) any {
+	s := reflect.MakeSlice(reflect.SliceOf(v.Type().Elem()), v.Len(), v.Len())
+	reflect.Copy(s, v)
+	return s.Interface()
+}
+
 // WriteMap writes multiple tags efficiently using a map where keys are tag names and values are the data to write.
 //
 // The map keys specify the tag names to write to in the PLC (case insensitive).
@@ -126,6 +138,11 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 // or any tags are read-only.
 func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 
+	err := client.checkConnection()
+	if err != nil {
+		return fmt.Errorf("could not start multi write: %w", err)
+	}
+
 	// build the tag list from the structure
 	tags := make([]string, 0)
 	types := make([]CIPType, 0)
@@ -135,17 +152,59 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 		tags = append(tags, k)
 	}
 
-	// first generate IOIs for each tag
+	// first generate the write request of each tag
 	qty := len(tags)
-	iois := make([]*tagIOI, qty)
+	requests := make([][]byte, qty)
 	for i, tag := range tags {
-		var err error
-		iois[i], err = client.newIOI(tag, types[i])
+		ioi, err := client.newIOI(tag, types[i])
+		if err != nil {
+			return err
+		}
+		if ioi.BitAccess {
+			return fmt.Errorf("can't write a single bit of %s", tag)
+		}
+		footer, payload, err := writePayload(types[i], tag_str[tag])
+		if err != nil {
+			return fmt.Errorf("problem preparing to write %s: %w", tag, err)
+		}
+		b := bytes.Buffer{}
+		h := msgCIPMultiIOIHeader{
+			Service: CIPService_Write,
+			Size:    byte(len(ioi.Buffer) / 2),
+		}
+		err = binary.Write(&b, binary.LittleEndian, h)
+		if err != nil {
+			return fmt.Errorf("problem writing udt item header to buffer. %w", err)
+		}
+		b.Write(ioi.Buffer)
+		b.Write(footer)
+		b.Write(payload)
+		requests[i] = b.Bytes()
+	}
+
+	// then send as many of them at once as fit in a message
+	for len(tags) > 0 {
+		n := 0
+		msgSize := binary.Size(msgCIPConnectedMultiServiceReq{})
+		for n < len(tags) && msgSize+2+len(requests[n]) <= int(client.ConnectionSize) {
+			msgSize += 2 + len(requests[n]) // 2 for the jump table entry
+			n++
+		}
+		if n == 0 {
+			return fmt.Errorf("writing %s does not fit in a message of %d bytes", tags[0], client.ConnectionSize)
+		}
+		err = client.writeList(tags[:n], requests[:n])
 		if err != nil {
 			return err
 		}
+		tags, requests = tags[n:], requests[n:]
 	}
+	return nil
+}
 
+// writeList sends the write requests of the tags in a single message and checks the reply to every one of them.
+func (client *Client) writeList(tags []string, requests [][]byte) error {
+	qty := len(tags)
 	reqitems := make([]CIPItem, 2)
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
@@ -164,39 +223,7 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	jump_start := 2 + qty*2 // 2 bytes + 2 bytes per jump entry
 	for i := 0; i < qty; i++ {
 		jump_table[i] = uint16(jump_start + b.Len())
-		ioi := iois[i]
-		h := msgCIPMultiIOIHeader{
-			Service: CIPService_Write,
-			Size:    byte(len(ioi.Buffer) / 2),
-		}
-		f := msgCIPWriteIOIFooter{
-			DataType: uint16(types[i]),
-			Elements: 1,
-		}
-		//f := msgCIPIOIFooter{
-		//Elements: 1,
-		//}
-		err := binary.Write(&b, binary.LittleEndian, h)
-		if err != nil {
-			return fmt.Errorf("problem writing udt item header to buffer. %w", err)
-		}
-		b.Write(ioi.Buffer)
-		ftr_buf, err := Serialize(f)
-		if err != nil {
-			return fmt.Errorf("problem serializing footer for item %d: %w", i, err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, ftr_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt item footer to buffer. %w", err)
-		}
-		item_buf, err := Serialize(tag_str[tags[i]])
-		if err != nil {
-			return fmt.Errorf("problem serializing %v: %w", tags[i], err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, item_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt tag name to buffer. %w", err)
-		}
+		b.Write(requests[i])
 	}
 
 	// right now I'm putting the IOI data into the cip Item, but I suspect it might actually be that the readsequencer is
@@ -216,9 +243,63 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	if err != nil {
 		return err
 	}
-	_ = hdr
-	_ = data
-	//TODO: do something with the result here!
-
+	if hdr.Status != 0 {
+		return fmt.Errorf("got non-success status %d when writing", hdr.Status)
+	}
+	read_result_header := msgCIPResultHeader{}
+	err = binary.Read(data, binary.LittleEndian, &read_result_header)
+	if err != nil {
+		client.Logger.Warn("Problem reading read result header", "error", err)
+	}
+	items, err := readItems(data)
+	if err != nil {
+		return fmt.Errorf("problem reading items from write. %w", err)
+	}
+	if len(items) != 2 {
+		return fmt.Errorf("wrong number of items in write response. Expected 2 but got %d", len(items))
+	}
+	reply_hdr := msgMultiReadResultHeader{}
+	err = items[1].DeSerialize(&reply_hdr)
+	if err != nil {
+		return fmt.Errorf("problem reading multi write reply header. %w", err)
+	}
+	if reply_hdr.Service != CIPService_MultipleService.AsResponse() {
+		return fmt.Errorf("got service %v instead of a multiple service response", reply_hdr.Service)
+	}
+	if reply_hdr.Status != uint16(CIPStatus_OK) {
+		return fmt.Errorf("service returned status %v", CIPStatus(reply_hdr.Status))
+	}
+	if int(reply_hdr.Reply_Count) != qty {
+		return fmt.Errorf("got %d replies for %d tags", reply_hdr.Reply_Count, qty)
+	}
+	offset_table := make([]uint16, qty)
+	err = items[1].DeSerialize(&offset_table)
+	if err != nil {
+		return fmt.Errorf("problem reading offset table. %w", err)
+	}
+	replies := items[1].Data[6:] // offsets count from the reply count
+	for i, tag := range tags {
+		// the reply to a tag goes up to the start of the next one.
+		start, end := int(offset_table[i]), len(replies)
+		for _, next := range offset_table {
+			if int(next) > start && int(next) < end {
+				end = int(next)
+			}
+		}
+		if start < jump_start || start > end {
+			return fmt.Errorf("reply %d is at offset %d of %d", i, start, len(replies))
+		}
+		result := msgUnconnWriteResultHeader{}
+		err = binary.Read(bytes.NewReader(replies[start:end]), binary.LittleEndian, &result)
+		if err != nil {
+			return fmt.Errorf("problem reading the result of writing %s. %w", tag, err)
+		}
+		if result.Service != CIPService_Write.AsResponse() {
+			return fmt.Errorf("got service %v instead of a write response for %s", result.Service, tag)
+		}
+		if result.Status != CIPStatus_OK {
+			return fmt.Errorf("problem writing %s. Status %v", tag, result.Status)
+		}
+	}
 	return nil
 }
-- 
2.43.0


From 54120a57d598a2a9b54b33cd20b609b6795f05b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 21/36] fix: attribute and generic messages report error
 statuses, foreign replies and malformed frames

---
 getattr.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/getattr.go b/getattr.go
index bf1e9ac..15b8141 100644
--- a/getattr.go
+++ b/getattr.go
@@ -139,7 +139,9 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		return nil, err
 	}
-	_ = hdr
+	if hdr.Status != 0 {
+		return nil, fmt.Errorf("problem reading attribute. Status %d", hdr.Status)
+	}
 
 	read_result_header := msgCIPResultHeader{}
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
@@ -152,11 +154,18 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 		return nil, err
 	}
 
+	if len(items) != 2 {
+		return nil, fmt.Errorf("wrong number of items. Expected 2 but got %d", len(items))
+	}
+
 	var resphdr cipAttributeResponseHdr
 	err = items[1].DeSerialize(&resphdr)
 	if err != nil {
 		return nil, fmt.Errorf("couldn't read response header. %w", err)
 	}
+	if resphdr.Status != uint16(CIPStatus_OK) {
+		return nil, fmt.Errorf("response header has status 0x%X (%v)", resphdr.Status, CIPStatus(resphdr.Status))
+	}
 	//dat := make([]byte, hdr.Length-26)
 	//items[1].DeSerialize(&dat)
 	return &items[1], nil
@@ -220,6 +229,10 @@ func (client *Client) GetControllerPropList() (msgGetControllerPropList, error)
 	if err != nil {
 		return msgGetControllerPropList{}, fmt.Errorf("couldn't read data. %w", err)
 	}
+	// an attribute with another status has no value
+	if result.Attr1_Status != 0 || result.Attr2_Status != 0 || result.Attr3_Status != 0 || result.Attr4_Status != 0 || result.Attr5_Status != 0 {
+		return msgGetControllerPropList{}, fmt.Errorf("couldn't read all controller properties: %+v", result)
+	}
 	client.Logger.Debug("Controller Prop", "result", result)
 
 	return result, nil
@@ -283,7 +296,9 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	if err != nil {
 		return nil, err
 	}
-	_ = hdr
+	if hdr.Status != 0 {
+		return nil, fmt.Errorf("problem reading attributes. Status %d", hdr.Status)
+	}
 
 	read_result_header := msgCIPResultHeader{}
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
@@ -297,6 +312,10 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 		return nil, err
 	}
 
+	if len(items) != 2 {
+		return nil, fmt.Errorf("wrong number of items. Expected 2 but got %d", len(items))
+	}
+
 	var respHdr cipAttributeResponseHdr
 	err = items[1].DeSerialize(&respHdr)
 	if err != nil {
@@ -420,6 +439,11 @@ func (e CIPStatusError) Error() string {
 // access. For standard tag operations, use Read(), Write(), and related functions.
 func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byte) (*CIPItem, error) {
 
+	// the path size is sent as a single byte counting 16 bit words
+	if len(path)%2 != 0 || len(path)/2 > 255 {
+		return nil, fmt.Errorf("a path can't be %d bytes long", len(path))
+	}
+
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
@@ -449,7 +473,9 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	if err != nil {
 		return nil, err
 	}
-	_ = hdr
+	if hdr.Status != 0 {
+		return nil, fmt.Errorf("problem sending message. Status %d", hdr.Status)
+	}
 
 	read_result_header := msgCIPResultHeader{}
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
@@ -460,6 +486,9 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items: %w", err)
 	}
+	if len(items) != 2 {
+		return nil, fmt.Errorf("wrong number of items. Expected 2 but got %d", len(items))
+	}
 
 	// There is a count before there is any result data - we'll remove that here.
 	// If needed, the item can always be Reset() to get all the data from the start.
@@ -472,7 +501,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 		return nil, fmt.Errorf("problem reading service response: %w", err)
 	}
 
-	if CIPService(s_response).UnResponse() != service {
+	if CIPService(s_response) != service.AsResponse() {
 		return nil, fmt.Errorf("expected service response 0x%X but got 0x%X", service, CIPService(s_response).UnResponse())
 	}
 	status, err := items[1].Int16()
-- 
2.43.0


From ca4fabb2f6e3198e46aa87878d919e8fce3992c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 22/36] fix: the reply to a session registration, forward open
 or close is checked and an unsendable path refused

---
 connect.go    | 34 +++++++++++++++++++++++++++++++---
 disconnect.go |  6 +++++-
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/connect.go b/connect.go
index 83ca1b4..0f26956 100644
--- a/connect.go
+++ b/connect.go
@@ -187,6 +187,9 @@ func (client *Client) registerSession() error {
 		client.Logger.Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
+	if header.Status != 0 {
+		return fmt.Errorf("session registration failed. status: %v", header.Status)
+	}
 	client.SessionHandle = header.SessionHandle
 	client.Logger.Info("Session connected", slog.Any("sessionHandle", client.SessionHandle))
 	return nil
@@ -346,6 +349,10 @@ func (client *Client) newForwardOpenLarge() (CIPItem, error) {
 	if err != nil {
 		return item, fmt.Errorf("couldn't build path. %w", err)
 	}
+	err = checkConnectionPath(path)
+	if err != nil {
+		return item, err
+	}
 
 	client.ConnectionSerialNumber = uint16(client.sequenceNumber.Add(1))
 	const (
@@ -398,6 +405,14 @@ func (client *Client) newForwardOpenLarge() (CIPItem, error) {
 	return item, nil
 }
 
+// checkConnectionPath makes sure that the size of the path can be sent, which is a single byte counting 16 bit words.
+func checkConnectionPath(path *bytes.Buffer) error {
+	if path.Len()%2 != 0 || path.Len()/2 > 255 {
+		return fmt.Errorf("a path can't be %d bytes long", path.Len())
+	}
+	return nil
+}
+
 type msgCIPRegister struct {
 	ProtocolVersion uint16
 	OptionFlag      uint16
@@ -425,6 +440,10 @@ func (client *Client) newForwardOpenStandard() (CIPItem, error) {
 	if err != nil {
 		return item, fmt.Errorf("couldn't build path. %w", err)
 	}
+	err = checkConnectionPath(path)
+	if err != nil {
+		return item, err
+	}
 
 	client.ConnectionSerialNumber = uint16(client.sequenceNumber.Add(1))
 	const (
@@ -492,7 +511,7 @@ func (client *Client) forwardOpen(forwardOpenMsg CIPItem) error {
 		return err
 	}
 
-	items, err := client.parseResponse(&header, data)
+	items, err := client.parseResponse(&header, data, CIPService(forwardOpenMsg.Data[0]))
 	if err != nil {
 		client.Logger.Error("error parsing response", slog.Any("err", err))
 		return err
@@ -558,7 +577,8 @@ func (client *Client) checkConnection() error {
 	return nil
 }
 
-func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CIPItem, error) {
+// parseResponse gets the items from the reply to an unconnected request for the service
+func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer, service CIPService) ([]CIPItem, error) {
 	if header.Status != 0 {
 		return nil, fmt.Errorf("forward open failed. status: %v", header.Status)
 	}
@@ -574,13 +594,21 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 		return nil, fmt.Errorf("problem reading items from forward open request. %w", err)
 	}
 
+	if len(items) != 2 {
+		return nil, fmt.Errorf("wrong number of items in response. expected 2 but got %d", len(items))
+	}
+
 	respHeader := msgCIPMessageRouterResponse{}
 	err = items[1].DeSerialize(&respHeader)
 	if err != nil {
 		return nil, fmt.Errorf("error deserializing forward open response header. %w", err)
 	}
 
-	extended_status := make([]byte, respHeader.StatusLen*2)
+	if respHeader.Service != service.AsResponse() {
+		return nil, fmt.Errorf("got service %v instead of a response to %v", respHeader.Service, service)
+	}
+
+	extended_status := make([]byte, 2*int(respHeader.StatusLen))
 	if respHeader.StatusLen != 0 {
 		err = items[1].DeSerialize(&extended_status)
 		if err != nil {
diff --git a/disconnect.go b/disconnect.go
index d32051c..1fd5dcb 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -82,6 +82,10 @@ func (client *Client) Disconnect() error {
 		client.Logger.Error("Error serializing path", slog.Any("err", err))
 		return fmt.Errorf("error serializing path: %w", err)
 	}
+	err = checkConnectionPath(path)
+	if err != nil {
+		return fmt.Errorf("error serializing path: %w", err)
+	}
 
 	msg := msgCipUnRegister{
 		Service:                CIPService_ForwardClose,
@@ -122,7 +126,7 @@ func (client *Client) Disconnect() error {
 				slog.Any("err", err),
 			)
 		} else {
-			_, err = client.parseResponse(&header, data)
+			_, err = client.parseResponse(&header, data, CIPService_ForwardClose)
 			if err != nil {
 				client.Logger.Error(
 					"error parsing disconnect response",
-- 
2.43.0


From 827e326d0d0249c57024beb34efe8d6f1108cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:49 +0000
Subject: [PATCH 23/36] fix: a client that loses its connection closes it, and
 a call without a connection is an error

---
 connect.go     | 27 ++++++++++++++++++++++-----
 disconnect.go  | 25 ++++++++++++++++---------
 sendreceive.go |  9 +++++++++
 3 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/connect.go b/connect.go
index 0f26956..f9bd503 100644
--- a/connect.go
+++ b/connect.go
@@ -76,6 +76,11 @@ func (client *Client) Connect() error {
 	defer func() {
 		if !success {
 			client.mutex.Lock()
+			if client.conn != nil {
+				// don't leave the socket of a failed attempt open
+				_ = client.conn.Close()
+				client.conn = nil
+			}
 			client.connStatus = connectionStatusDisconnected
 			client.mutex.Unlock()
 		}
@@ -127,12 +132,15 @@ func (client *Client) Connect() error {
 	}
 
 	address := fmt.Sprintf("%s:%v", client.Controller.IpAddress, client.Controller.Port)
-	client.conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
+	conn, err := net.DialTimeout("tcp", address, client.SocketTimeout)
 	if err != nil {
 		msg := "cannot connect to controller"
 		client.Logger.Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
+	client.mutex.Lock()
+	client.conn = conn
+	client.mutex.Unlock()
 
 	err = client.registerSession()
 	if err != nil {
@@ -199,14 +207,23 @@ func (client *Client) KeepAlive() {
 	if !client.KeepAliveAutoStart || client.SocketTimeout == 0 {
 		return
 	}
+	cancel := make(chan struct{})
+	client.mutex.Lock()
 	if client.keepAliveRunning {
+		client.mutex.Unlock()
 		err := errors.New("keepalive already running")
 		client.Logger.Warn(err.Error())
+		return
 	}
-	client.Logger.Debug("starting keep alive")
-	client.cancel_keepalive = make(chan struct{})
+	client.cancel_keepalive = cancel
 	client.keepAliveRunning = true
-	defer func() { client.keepAliveRunning = false }()
+	client.mutex.Unlock()
+	client.Logger.Debug("starting keep alive")
+	defer func() {
+		client.mutex.Lock()
+		client.keepAliveRunning = false
+		client.mutex.Unlock()
+	}()
 
 	originalProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 	if err != nil {
@@ -267,7 +284,7 @@ func (client *Client) KeepAlive() {
 				originalProps = newProps
 			}
 
-		case <-client.cancel_keepalive:
+		case <-cancel:
 			client.KeepAliveAutoStart = false
 			return
 		}
diff --git a/disconnect.go b/disconnect.go
index 1fd5dcb..ae26e69 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -60,14 +60,16 @@ func (client *Client) Disconnect() error {
 
 	// No matter what happens, when we finish here, we'll consider the connection disconnected.
 	defer func() {
+		err := client.conn.Close()
+		if err != nil {
+			client.Logger.Error("error closing connection", slog.Any("err", err))
+		}
 		client.mutex.Lock()
 		client.connStatus = connectionStatusDisconnected
 		client.mutex.Unlock()
 	}()
 
-	if client.keepAliveRunning {
-		close(client.cancel_keepalive)
-	}
+	client.stopKeepAlive()
 
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{} // null item
@@ -136,11 +138,6 @@ func (client *Client) Disconnect() error {
 		}
 	}
 
-	err = client.conn.Close()
-	if err != nil {
-		client.Logger.Error("error closing connection", slog.Any("err", err))
-	}
-
 	client.Logger.Info("successfully disconnected from controller")
 	return nil
 }
@@ -151,10 +148,20 @@ func (client *Client) KeepAliveCancel(force bool) error {
 	if client.KeepAliveAutoStart && !force {
 		return fmt.Errorf("unable to cancel keepalive due to AutoKeepAlive == true")
 	}
-	close(client.cancel_keepalive)
+	client.stopKeepAlive()
 	return nil
 }
 
+// stopKeepAlive ends the keepalive if it is running.
+func (client *Client) stopKeepAlive() {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	if client.keepAliveRunning && client.cancel_keepalive != nil {
+		close(client.cancel_keepalive)
+		client.cancel_keepalive = nil
+	}
+}
+
 type msgCipUnRegister struct {
 	Service                CIPService
 	CipPathSize            byte
diff --git a/sendreceive.go b/sendreceive.go
index 0a494cb..51b2cf7 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -86,9 +86,14 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
 	client.mutex.Lock()
+	if client.conn == nil {
+		client.mutex.Unlock()
+		return eipHeader{}, nil, fmt.Errorf("not connected")
+	}
 
 	err = client.sendData(buffer)
 	if err != nil {
+		_ = client.conn.Close()
 		client.mutex.Unlock()
 		err2 := client.Disconnect()
 		if err2 != nil {
@@ -98,6 +103,10 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	}
 
 	hdr, buf, err := client.recvData()
+	if err != nil {
+		// the reply may still arrive, so nobody else can use this connection any more.
+		_ = client.conn.Close()
+	}
 	client.mutex.Unlock()
 	if err != nil {
 		err2 := client.Disconnect()
-- 
2.43.0


From 356447ee8b2190f462e29c3a2b1515611b63af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 24/36] fix: tag and program lists continue after the last
 instance, return every page and report failed or truncated ones

---
 listallprograms.go |   9 ++--
 listalltags.go     | 113 +++++++++++++++++++--------------------------
 listsubtags.go     |  99 +++++++++++++--------------------------
 3 files changed, 86 insertions(+), 135 deletions(-)

diff --git a/listallprograms.go b/listallprograms.go
index b29c645..ba65749 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -31,15 +31,18 @@ func (client *Client) ListAllPrograms() error {
 
 	results := make(map[string]*KnownProgram)
 
-	for {
+	for len(resp.Rest()) > 0 {
 		var hdr listprograms_resp_header
 		err = resp.DeSerialize(&hdr)
 		if err != nil {
-			client.Logger.Debug("got last item")
-			break
+			client.Logger.Warn("could not read program header", "error", err)
+			return err
 		}
 
 		// read the name
+		if uint64(hdr.NameLen) > uint64(len(resp.Rest())) {
+			return fmt.Errorf("program name of %d bytes is longer than the response", hdr.NameLen)
+		}
 		name := make([]byte, hdr.NameLen)
 		err = resp.DeSerialize(&name)
 		if err != nil {
diff --git a/listalltags.go b/listalltags.go
index 9df6b54..e1cc249 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -57,13 +58,6 @@ func (f TagInfo) Template_ID() uint16 {
 
 }
 
-type msgListInstanceHeader struct {
-	Service       CIPService
-	Reserved      byte
-	SequenceCount uint16
-	Status        uint16
-}
-
 // ListAllTags discovers and catalogs all tags available in the PLC, starting from the specified instance ID.
 //
 // This function performs a comprehensive scan of the PLC's symbol table to build a complete inventory
@@ -141,92 +135,82 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		}
 	}
 
-	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
-
-	path, err := Serialize(
-		CipObject_Symbol, CIPInstance(start_instance),
-	)
-	if err != nil {
-		return fmt.Errorf("couldn't build path. %w", err)
-	}
-
-	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
-		Service:       CIPService_GetInstanceAttributeList,
-		PathLength:    byte(path.Len() / 2),
+	for {
+		next, err := client.listTagPage(start_instance, fallbackProgramNames)
+		if err != nil {
+			return err
+		}
+		if next == 0 {
+			return nil
+		}
+		start_instance = next
 	}
+}
 
-	// setup item
-	reqItems[1] = newItem(cipItem_ConnectedData, readMsg)
-	// add path
-	err = reqItems[1].Serialize(path.Bytes())
-	if err != nil {
-		return fmt.Errorf("problem serializing path: %w", err)
-	}
-	// add service specific data
+// readSymbolPage gets the symbols at the path.  It returns their data and whether there are more symbols after them.
+func (client *Client) readSymbolPage(path []byte) (*bytes.Buffer, bool, error) {
 	number_of_attr_to_receive := 3
 	attr1_symbol_name := 1
 	attr2_symbol_type := 2
 	attr8_arrayDims := 8
-	err = reqItems[1].Serialize([4]uint16{
+	attrs, err := Serialize([4]uint16{
 		uint16(number_of_attr_to_receive),
 		uint16(attr1_symbol_name),
 		uint16(attr2_symbol_type),
 		uint16(attr8_arrayDims),
 	})
 	if err != nil {
-		return fmt.Errorf("problem serializing item data: %w", err)
+		return nil, false, fmt.Errorf("problem serializing item data: %w", err)
 	}
-
-	itemData, err := serializeItems(reqItems)
-	if err != nil {
-		return fmt.Errorf("problem serializing items: %w", err)
+	item, err := client.GenericCIPMessage(CIPService_GetInstanceAttributeList, path, attrs.Bytes())
+	var cipErr CIPStatusError
+	if item != nil && errors.As(err, &cipErr) && cipErr.Status == CIPStatus_PartialTransfer {
+		return bytes.NewBuffer(item.Rest()), true, nil
 	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
 	if err != nil {
-		return err
+		return nil, false, err
 	}
-	_ = hdr
-	_ = data
-	//data_hdr := ListInstanceHeader{}
-	//binary.Read(data, binary.LittleEndian, &data_hdr)
-
-	// first six bytes are zero.
-	padding := make([]byte, 6)
-	_, err = data.Read(padding)
-	if err != nil {
-		return fmt.Errorf("problem getting padding bytes. %w", err)
+	return bytes.NewBuffer(item.Rest()), false, nil
+}
+
+// nextSymbol is the instance to continue from when more symbols follow the last one.
+func nextSymbol(start, last uint32) (uint32, error) {
+	if last < start || last == math.MaxUint32 {
+		return 0, fmt.Errorf("no symbols from instance %d in response", start)
 	}
+	return last + 1, nil
+}
 
-	resp_items, err := readItems(data)
+// listTagPage reads the tags from one reply and returns the instance to continue from, or 0 after the last one.
+func (client *Client) listTagPage(start_instance uint32, fallbackProgramNames bool) (uint32, error) {
+	path, err := Serialize(
+		CipObject_Symbol, CIPInstance(start_instance),
+	)
 	if err != nil {
-		return fmt.Errorf("couldn't parse items. %w", err)
+		return 0, fmt.Errorf("couldn't build path. %w", err)
 	}
 
-	// get ready to read tag info from item 1 data
-	data2 := bytes.NewBuffer(resp_items[1].Data)
-	//data2.Next(4)
-	data_hdr := msgListInstanceHeader{}
-	err = binary.Read(data2, binary.LittleEndian, &data_hdr)
+	// get ready to read tag info
+	data2, more, err := client.readSymbolPage(path.Bytes())
 	if err != nil {
-		return fmt.Errorf("problem reading list instance header. %w", err)
+		return 0, fmt.Errorf("problem reading tags: %w", err)
 	}
 
+	last := uint32(0)
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
 	for data2.Len() > 0 {
 
 		err = binary.Read(data2, binary.LittleEndian, tag_hdr)
 		if err != nil {
-			return fmt.Errorf("problem reading tag header. %w", err)
+			return 0, fmt.Errorf("problem reading tag header. %w", err)
 		}
-		start_instance = tag_hdr.InstanceID
+		last = tag_hdr.InstanceID
 
 		tag_name := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &tag_name)
 		if err != nil {
-			return fmt.Errorf("problem reading tag name. %w", err)
+			return 0, fmt.Errorf("problem reading tag name. %w", err)
 		}
 		tag_string := string(tag_name)
 
@@ -237,7 +221,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		//}
 		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
 		if err != nil {
-			return fmt.Errorf("problem reading tag footer. %w", err)
+			return 0, fmt.Errorf("problem reading tag footer. %w", err)
 		}
 
 		kt := KnownTag{
@@ -280,7 +264,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 				client.KnownPrograms[strings.ToLower(p.Name)] = p
 				_, err := client.ListSubTags(p, 1)
 				if err != nil {
-					return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
+					return 0, fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
 				}
 
 			}
@@ -313,14 +297,11 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 
 	}
 
-	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) { //} && start_instance < 200 {
-		err = client.ListAllTags(start_instance)
-		if err != nil {
-			return err
-		}
+	if more {
+		return nextSymbol(start_instance, last)
 	}
 
-	return nil
+	return 0, nil
 }
 
 // per 1756-PM020H-EN-P page 43 there are some conditions in which we should discard the tags
diff --git a/listsubtags.go b/listsubtags.go
index a60d505..cc5f8df 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -1,7 +1,6 @@
 package gologix
 
 import (
-	"bytes"
 	"encoding/binary"
 	"fmt"
 	"strings"
@@ -22,82 +21,55 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		start_instance = 1
 	}
 
-	reqitems := make([]CIPItem, 2)
-	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	for {
+		kts, next, err := client.listSubTagPage(Program, start_instance)
+		new_kts = append(new_kts, kts...)
+		if err != nil {
+			return new_kts, err
+		}
+		if next == 0 {
+			return new_kts, nil
+		}
+		start_instance = next
+	}
+}
+
+// listSubTagPage reads the tags from one reply and returns them with the instance to continue from, or 0 after the last one.
+func (client *Client) listSubTagPage(Program *KnownProgram, start_instance uint32) ([]KnownTag, uint32, error) {
+	var new_kts []KnownTag
 
+	if Program.Len() == 0 {
+		return nil, 0, fmt.Errorf("no path to program %s", Program.Name)
+	}
 	p, err := Serialize(
 		Program.Bytes(),
 		CipObject_Symbol, CIPInstance(start_instance),
 	)
 	if err != nil {
-		return new_kts, fmt.Errorf("couldn't build path. %w", err)
-	}
-
-	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
-		Service:       CIPService_GetInstanceAttributeList,
-		PathLength:    byte(p.Len() / 2),
-	}
-
-	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
-	err = reqitems[1].Serialize(p.Bytes())
-	if err != nil {
-		return new_kts, fmt.Errorf("problem serializing path: %w", err)
-	}
-	number_of_attr_to_receive := 3
-	attr1_symbol_name := 1
-	attr2_symbol_type := 2
-	attr8_arraydims := 8
-	err = reqitems[1].Serialize([4]uint16{uint16(number_of_attr_to_receive), uint16(attr1_symbol_name), uint16(attr2_symbol_type), uint16(attr8_arraydims)})
-	if err != nil {
-		return new_kts, fmt.Errorf("problem serializing item attribute list: %w", err)
-	}
-
-	itemdata, err := serializeItems(reqitems)
-	if err != nil {
-		return nil, fmt.Errorf("problem serializing items: %w", err)
-	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
-	if err != nil {
-		return new_kts, err
+		return nil, 0, fmt.Errorf("couldn't build path. %w", err)
 	}
-	_ = hdr
-	_ = data
 
-	// first six bytes are zero.
-	padding := make([]byte, 6)
-	_, err = data.Read(padding)
+	// get ready to read tag info
+	data2, more, err := client.readSymbolPage(p.Bytes())
 	if err != nil {
-		return nil, fmt.Errorf("problem reading padding. %w", err)
-	}
-
-	resp_items, err := readItems(data)
-	if err != nil {
-		return new_kts, fmt.Errorf("couldn't parse items. %w", err)
-	}
-
-	// get ready to read tag info from item 1 data
-	data2 := bytes.NewBuffer(resp_items[1].Data)
-	//data2.Next(4)
-	data_hdr := msgListInstanceHeader{}
-	err = binary.Read(data2, binary.LittleEndian, &data_hdr)
-	if err != nil {
-		return nil, fmt.Errorf("problem reading tag header. %w", err)
+		return nil, 0, fmt.Errorf("problem reading tags: %w", err)
 	}
 
+	last := uint32(0)
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
 	for data2.Len() > 0 {
 
 		err = binary.Read(data2, binary.LittleEndian, tag_hdr)
 		if err != nil {
-			return nil, fmt.Errorf("problem reading tag header. %w", err)
+			return nil, 0, fmt.Errorf("problem reading tag header. %w", err)
 		}
+		last = tag_hdr.InstanceID
+
 		newtag_bytes := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &newtag_bytes)
 		if err != nil {
-			return nil, fmt.Errorf("problem reading tag header. %w", err)
+			return nil, 0, fmt.Errorf("problem reading tag header. %w", err)
 		}
 		newtag_name := fmt.Sprintf("program:%s.%s", Program.Name, string(newtag_bytes))
 
@@ -108,7 +80,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		//}
 		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
 		if err != nil {
-			return nil, fmt.Errorf("problem reading tag footer. %w", err)
+			return nil, 0, fmt.Errorf("problem reading tag footer. %w", err)
 		}
 
 		kt := KnownTag{
@@ -137,17 +109,12 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		}
 		client.KnownTags[strings.ToLower(newtag_name)] = kt
 		new_kts = append(new_kts, kt)
-
-		start_instance = tag_hdr.InstanceID
-
 	}
 
-	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) {
-		_, err = client.ListSubTags(Program, start_instance)
-		if err != nil {
-			return new_kts, fmt.Errorf("problem listing subtags. %w", err)
-		}
+	if more {
+		next, err := nextSymbol(start_instance, last)
+		return new_kts, next, err
 	}
 
-	return new_kts, nil
+	return new_kts, 0, nil
 }
-- 
2.43.0


From 29de87117711d724bd161e1c826c2bd8f97c1d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 25/36] fix: structure definitions keep their names, are read
 in full and report failed or malformed replies

---
 listmembers.go | 183 +++++++++++++++++++------------------------------
 1 file changed, 71 insertions(+), 112 deletions(-)

diff --git a/listmembers.go b/listmembers.go
index 914a954..92fd46d 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -3,7 +3,10 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
+	"math"
+	"slices"
 	"strings"
 )
 
@@ -50,10 +53,6 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 		str_instance = 1
 	}
 
-	reqitems := make([]CIPItem, 2)
-	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
-
 	p, err := Serialize(
 		CipObject_Template, CIPInstance(str_instance),
 		//cipObject_Symbol, cipInstance(start_instance),
@@ -62,29 +61,21 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't build path. %w", err)
 	}
 
-	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
-		Service:       CIPService_GetAttributeList,
-		PathLength:    byte(p.Len() / 2),
-	}
-
-	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
-	err = reqitems[1].Serialize(p.Bytes())
-	if err != nil {
-		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem serializing path: %w", err)
-	}
 	number_of_attr_to_receive := 4
 	attr_Size_32bitWords := 4
 	attr_Size_Bytes := 5
 	attr_MemberCount := 2
 	attr_symbol_type := 1
-	err = reqitems[1].Serialize([5]uint16{
+	attrs, err := Serialize([5]uint16{
 		uint16(number_of_attr_to_receive),
 		uint16(attr_Size_32bitWords),
 		uint16(attr_Size_Bytes),
 		uint16(attr_MemberCount),
 		uint16(attr_symbol_type),
 	})
+	if err != nil {
+		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem serializing attribute list: %w", err)
+	}
 	// the attributes for the template object are
 	// 1 uint16 = Template Handle (Is this the CRC?)
 	// 2 uint16 = Number of members
@@ -95,49 +86,28 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 	// 7 uint32 = Multiply Code?
 	// 8 uint8  = Recon Data
 
-	itemdata, err := serializeItems(reqitems)
-	if err != nil {
-		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem serializing item data: %w", err)
-	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
+	item, err := client.GenericCIPMessage(CIPService_GetAttributeList, p.Bytes(), attrs.Bytes())
 	if err != nil {
 		return msgGetTemplateAttrListResponse{}, err
 	}
-	_ = hdr
-	_ = data
-	//data_hdr := ListInstanceHeader{}
-	//binary.Read(data, binary.LittleEndian, &data_hdr)
-
-	// first six bytes are zero.
-	padding := make([]byte, 6)
-	_, err = data.Read(padding)
-	if err != nil {
-		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem reading padding. %w", err)
-	}
-
-	resp_items, err := readItems(data)
-	if err != nil {
-		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't parse items. %w", err)
-	}
-
-	// get ready to read tag info from item 1 data
-	data2 := bytes.NewBuffer(resp_items[1].Data)
+	item.Reset()
 
 	result := msgGetTemplateAttrListResponse{}
-	err = binary.Read(data2, binary.LittleEndian, &result)
+	err = item.DeSerialize(&result)
 	if err != nil {
 		return result, fmt.Errorf("problem reading result. %w", err)
 	}
+	if result.Count != 4 ||
+		result.SizeWords_ID != uint16(attr_Size_32bitWords) || result.SizeWords_Status != 0 ||
+		result.SizeBytes_ID != uint16(attr_Size_Bytes) || result.SizeBytes_Status != 0 ||
+		result.MemberCount_ID != uint16(attr_MemberCount) || result.MemberCount_Status != 0 ||
+		result.Handle_ID != uint16(attr_symbol_type) || result.Handle_Status != 0 {
+		return result, fmt.Errorf("template %d doesn't have all the attributes", str_instance)
+	}
 
 	return result, nil
 }
 
-type msgMemberInfoHdr struct {
-	SequenceCount uint16
-	Service       CIPService
-	Reserved      byte
-	Status        uint16
-}
 type msgMemberInfo struct {
 	Info   uint16
 	Type   uint16
@@ -152,87 +122,75 @@ func (m msgMemberInfo) CIPType() CIPType {
 // exactly, but V32 it works and V20 it does not.  I suspect v24 or v28 since they were pretty substantial
 // changes, but v21 could also be the version since that is the swap from rslogix to studio
 func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
-	client.Logger.Debug("list members", "instance", str_instance)
-
-	d, ok := client.KnownTypesByID[str_instance]
-	if ok {
-		return d, nil
-	}
-
-	template_info, err := client.GetTemplateInstanceAttr(str_instance)
-
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't get template info. %w", err)
-	}
-
-	reqitems := make([]CIPItem, 2)
-	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	return client.listMembers(str_instance, nil)
+}
 
+// readTemplate gets the definition of a template.
+func (client *Client) readTemplate(str_instance uint32, size uint16) ([]byte, error) {
 	p, err := Serialize(
 		CipObject_Template, CIPInstance(str_instance),
 		//cipObject_Symbol, cipInstance(start_instance),
 	)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't build path. %w", err)
+		return nil, fmt.Errorf("couldn't build path. %w", err)
 	}
-
-	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
-		Service:       CIPService_Read,
-		PathLength:    byte(p.Len() / 2),
+	var data []byte
+	for {
+		start_offset := uint32(len(data))
+		read_length := size - uint16(len(data))
+		msg, err := Serialize(start_offset, read_length)
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing offset and length: %w", err)
+		}
+		item, err := client.GenericCIPMessage(CIPService_Read, p.Bytes(), msg.Bytes())
+		var cipErr CIPStatusError
+		more := item != nil && errors.As(err, &cipErr) && cipErr.Status == CIPStatus_PartialTransfer
+		if err != nil && !more {
+			return nil, err
+		}
+		part := item.Rest()
+		data = append(data, part...)
+		if !more {
+			return data, nil
+		}
+		// the rest of a definition that doesn't fit one reply follows at the offset reached.
+		if len(part) == 0 || len(data) >= int(size) {
+			return nil, fmt.Errorf("template %d has more than %d bytes", str_instance, len(data))
+		}
 	}
+}
 
-	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
-	err = reqitems[1].Serialize(p.Bytes())
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing path: %w", err)
-	}
-	start_offset := uint32(0)
-	read_length := uint16(template_info.SizeWords*4 - 23)
-	err = reqitems[1].Serialize(start_offset)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item start offset: %w", err)
-	}
-	err = reqitems[1].Serialize(read_length)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item read length: %w", err)
-	}
+// listMembers is ListMembers for a template used within parents
+func (client *Client) listMembers(str_instance uint32, parents []uint32) (UDTDescriptor, error) {
+	client.Logger.Debug("list members", "instance", str_instance)
 
-	itemdata, err := serializeItems(reqitems)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item data: %w", err)
-	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
-	if err != nil {
-		return UDTDescriptor{}, err
+	d, ok := client.KnownTypesByID[str_instance]
+	if ok {
+		return d, nil
 	}
-	_ = hdr
-	_ = data
-	//data_hdr := ListInstanceHeader{}
-	//binary.Read(data, binary.LittleEndian, &data_hdr)
-
-	// first six bytes are zero.
-	padding := make([]byte, 6)
-	_, err = data.Read(padding)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read padding. %w", err)
+
+	if slices.Contains(parents, str_instance) {
+		return UDTDescriptor{}, fmt.Errorf("template %d contains itself", str_instance)
 	}
 
-	resp_items, err := readItems(data)
+	template_info, err := client.GetTemplateInstanceAttr(str_instance)
+
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't parse items. %w", err)
+		return UDTDescriptor{}, fmt.Errorf("couldn't get template info. %w", err)
 	}
 
-	// get ready to read tag info from item 1 data
-	data2 := bytes.NewBuffer(resp_items[1].Data)
-
-	mihdr := msgMemberInfoHdr{}
-	err = binary.Read(data2, binary.LittleEndian, &mihdr)
+	size := template_info.SizeWords*4 - 23
+	if template_info.SizeWords < 6 || template_info.SizeWords > math.MaxUint16/4 {
+		return UDTDescriptor{}, fmt.Errorf("template %d can't have a definition of %d words", str_instance, template_info.SizeWords)
+	}
+	data, err := client.readTemplate(str_instance, uint16(size))
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read member info header. %w", err)
+		return UDTDescriptor{}, fmt.Errorf("couldn't read template. %w", err)
 	}
 
+	// get ready to read member info
+	data2 := bytes.NewBuffer(data)
+
 	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
 	err = binary.Read(data2, binary.LittleEndian, &memberInfos)
 	if err != nil {
@@ -249,10 +207,10 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read struct name. %w", err)
 	}
 
+	struct_name = struct_name[:len(struct_name)-1]
 	if strings.Contains(struct_name, ";") {
 		struct_name = strings.Split(struct_name, ";")[0]
 	}
-	struct_name = struct_name[:len(struct_name)-1]
 	descriptor.Name = struct_name
 
 	for i := 0; i < int(template_info.MemberCount); i++ {
@@ -261,14 +219,15 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		if err != nil && fieldname == "" {
 			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
 		}
-		fieldname = fieldname[:len(fieldname)-1]
+		// the last one may come without its terminator
+		fieldname = strings.TrimSuffix(fieldname, "\x00")
 
 		descriptor.Members[i].Name = fieldname
 		descriptor.Members[i].Info = memberInfos[i]
 		id := descriptor.Members[i].Template_ID()
 		if id != 0 {
 			// this is a UDT
-			d2, err := client.ListMembers(uint32(descriptor.Members[i].Template_ID()))
+			d2, err := client.listMembers(uint32(descriptor.Members[i].Template_ID()), append(parents, str_instance))
 			if err == nil {
 				descriptor.Members[i].UDT = &d2
 			} else {
-- 
2.43.0


From 52e5fc4de57f792c1262391566de9e8d105ebe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 26/36] fix: failed or foreign identity and service replies are
 errors and the server's service list is well formed

---
 listidentity.go | 9 ++++++++-
 listservices.go | 8 +++++++-
 server.go       | 6 +++---
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/listidentity.go b/listidentity.go
index dba1be3..34195aa 100644
--- a/listidentity.go
+++ b/listidentity.go
@@ -47,10 +47,13 @@ import (
 func (client *Client) ListIdentity() (*listIdentityResponeBody, error) {
 	client.Logger.Debug("listing identity")
 
-	_, data, err := client.send_recv_data(cipCommandListIdentity)
+	hdr, data, err := client.send_recv_data(cipCommandListIdentity)
 	if err != nil {
 		return nil, err
 	}
+	if hdr.Status != 0 {
+		return nil, fmt.Errorf("problem listing identity. Status %d", hdr.Status)
+	}
 
 	items, err := readItems(data)
 	if err != nil {
@@ -61,6 +64,10 @@ func (client *Client) ListIdentity() (*listIdentityResponeBody, error) {
 		return nil, fmt.Errorf("expected at least 1 item, got %d", len(items))
 	}
 
+	if items[0].Header.ID != cipItem_ListIdentityResponse {
+		return nil, fmt.Errorf("expected an identity item, got type 0x%X", items[0].Header.ID)
+	}
+
 	// Parse the first identity item (PLCs with dual-port Ethernet may return multiple).
 	response := listIdentityResponeBody{}
 	err = response.ParseFromBytes(items[0].Data)
diff --git a/listservices.go b/listservices.go
index ee15121..088dee1 100644
--- a/listservices.go
+++ b/listservices.go
@@ -40,10 +40,13 @@ import (
 func (client *Client) ListServices() ([]CIPListService, error) {
 	client.Logger.Debug("listing services")
 
-	_, data, err := client.send_recv_data(cipCommandListServices)
+	hdr, data, err := client.send_recv_data(cipCommandListServices)
 	if err != nil {
 		return nil, err
 	}
+	if hdr.Status != 0 {
+		return nil, fmt.Errorf("problem listing services. Status %d", hdr.Status)
+	}
 
 	items, err := readItems(data)
 	if err != nil {
@@ -52,6 +55,9 @@ func (client *Client) ListServices() ([]CIPListService, error) {
 
 	services := make([]CIPListService, len(items))
 	for i, item := range items {
+		if item.Header.ID != cipItem_ListServiceResponse {
+			return nil, fmt.Errorf("expected a service item, got type 0x%X", item.Header.ID)
+		}
 		err := services[i].ParseFromBytes(item.Data)
 		if err != nil {
 			return nil, fmt.Errorf("problem reading list services response. %w", err)
diff --git a/server.go b/server.go
index 43cd03e..a30326c 100644
--- a/server.go
+++ b/server.go
@@ -960,10 +960,10 @@ func (h *serverTCPHandler) sendListServicesData(hdr eipHeader) error {
 	response := listServicesReply{
 		Count:    1,
 		TypeCode: 0x0100,
-		Length:   10,
+		Length:   20,
 		Version:  1,
 		CapFlags: ServiceCapabilityFlag_CipEncapsulation | ServiceCapabilityFlag_SupportsClass1UDP,
-		Name:     [16]byte{'C', 'o', 'm', 'm', 'u', 'n', 'i', 'c', 'a', 't', 'i', 'o', 'n', 's', ' ', ' '},
+		Name:     [16]byte{'C', 'o', 'm', 'm', 'u', 'n', 'i', 'c', 'a', 't', 'i', 'o', 'n', 's'},
 	}
-	return h.send(cipCommandSendRRData, response)
+	return h.send(cipCommandListServices, response)
 }
-- 
2.43.0


From d088a74a5369d6bc4431ed62191bc20f4c0c901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 27/36] fix: an aggregate of errors can be searched when empty
 and by kind, and error codes are separable

---
 errors.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/errors.go b/errors.go
index 2f514c8..7bf4450 100644
--- a/errors.go
+++ b/errors.go
@@ -1,7 +1,6 @@
 package gologix
 
 import (
-	"errors"
 	"fmt"
 )
 
@@ -12,7 +11,7 @@ type CIPError struct {
 }
 
 func (err *CIPError) Error() string {
-	ec := fmt.Sprintf("error %X%X: ", err.Code, err.Extended)
+	ec := fmt.Sprintf("error %02X:%04X: ", err.Code, err.Extended)
 	switch err.Code {
 	case 0x00:
 		return ec + " no error?  This shouldn't happen :/"
@@ -93,20 +92,6 @@ func (e multiError) Error() string {
 	return err_str
 }
 
-func (e multiError) Unwrap() error {
-	if len(e.errs) > 2 {
-		e.errs = e.errs[1:]
-		return e
-	}
-	if len(e.errs) == 2 {
-		return e.errs[1]
-	}
-	if len(e.errs) == 1 {
-		return e.errs[0]
-	}
-	return nil
-}
-
-func (e multiError) Is(target error) bool {
-	return errors.Is(e.errs[0], target)
+func (e multiError) Unwrap() []error {
+	return e.errs
 }
-- 
2.43.0


From 9368331beb8f191afbc81ec3e0dfeceaa453101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 28/36] fix: force status tests its own bits and failed force
 attributes are errors, temperature fault has its code

---
 canned/fault_descriptions.go | 4 ++--
 canned/forces.go             | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/canned/fault_descriptions.go b/canned/fault_descriptions.go
index 29ef8a4..e007535 100644
--- a/canned/fault_descriptions.go
+++ b/canned/fault_descriptions.go
@@ -1445,9 +1445,9 @@ var FaultDescriptions = map[int]map[int]FaultDescription{
 			Major:            false,
 			TypeName:         "Diagnostic",
 		},
-		32: {
+		34: {
 			Type:             17,
-			Code:             31,
+			Code:             34,
 			Display:          "Major Fault T17:C34 - Diagnostic Fault: Controller internal temperature has exceeded operating limit.",
 			Description:      "Controller internal temperature has exceeded the operating limit.",
 			CorrectiveAction: "Take measures to reduce the ambient temperature of the module. Follow the recommended limits for the ambient (inlet) temperature and apply the required clearance around the chassis.",
diff --git a/canned/forces.go b/canned/forces.go
index 7311d7b..aa2fe09 100644
--- a/canned/forces.go
+++ b/canned/forces.go
@@ -9,7 +9,7 @@ import (
 type ForceStatus uint16
 
 func (f ForceStatus) Enabled() bool {
-	return f&1 != 0
+	return f&2 != 0
 }
 func (f ForceStatus) Exist() bool {
 	return f&1 != 0
@@ -36,6 +36,10 @@ func GetForces(client *gologix.Client) (ForceStatus, error) {
 		return 0, fmt.Errorf("could not deserialize response: %v", err)
 	}
 
+	if response.ID != 9 || response.Status != 0 {
+		return 0, fmt.Errorf("force status attribute %d has status %v", response.ID, gologix.CIPStatus(response.Status))
+	}
+
 	return response.Forces, nil
 
 }
-- 
2.43.0


From d2ad1e625848b10426c15e483950dd7fca00c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:16 +0000
Subject: [PATCH 29/36] fix: a short or truncated I/O datagram leaves the
 output unchanged and every I/O receiver gets its data

---
 server.go           |  5 ++---
 server_io.go        | 18 +++++++++++-------
 server_iochannel.go | 18 +++++++++++-------
 3 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/server.go b/server.go
index a30326c..457dd4c 100644
--- a/server.go
+++ b/server.go
@@ -142,8 +142,7 @@ type cipIOSeqAccessData struct {
 func (srv *Server) serveUDP() error {
 	bufSize := 4096
 	for {
-		b := make([]byte, 4096)
-		buf := bytes.NewBuffer(b)
+		b := make([]byte, bufSize)
 		n, addr, err := srv.UDPListener.ReadFrom(b)
 		if n == 0 {
 			srv.Logger.Debug("Read 0 bytes on udp listener.")
@@ -160,7 +159,7 @@ func (srv *Server) serveUDP() error {
 		_ = addr // don't need this yet.
 		// we've read a packet on udp so we need to parse the eip data
 
-		items, err := readItems(buf)
+		items, err := readItems(bytes.NewBuffer(b[:n]))
 		if err != nil {
 			srv.Logger.Debug("problem reading udp items", "error", err)
 			continue
diff --git a/server_io.go b/server_io.go
index cde4d06..6d643d1 100644
--- a/server_io.go
+++ b/server_io.go
@@ -27,6 +27,9 @@ type IOProvider[Tin, Tout any] struct {
 func (p *IOProvider[Tin, Tout]) IORead() ([]byte, error) {
 	p.InMutex.Lock()
 	defer p.InMutex.Unlock()
+	if p.In == nil {
+		return nil, errors.New("no input data")
+	}
 	b := bytes.Buffer{}
 	_, err := Pack(&b, *(p.In))
 	if err != nil {
@@ -58,20 +61,21 @@ func (p *IOProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem getting header. %w", err)
 	}
-	payload := make([]byte, items[1].Header.Length-6)
-	err = items[1].DeSerialize(&payload)
-	if err != nil {
-		return fmt.Errorf("problem getting raw data. %w", err)
-	}
-	b := bytes.NewBuffer(payload)
+	b := bytes.NewBuffer(items[1].Rest())
 
 	p.OutMutex.Lock()
 	defer p.OutMutex.Unlock()
+	if p.Out == nil {
+		return errors.New("no output data")
+	}
 
-	_, err = Unpack(b, p.Out)
+	// the output only changes once all of the data has been unpacked.
+	out := *p.Out
+	_, err = Unpack(b, &out)
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	*p.Out = out
 
 	return nil
 }
diff --git a/server_iochannel.go b/server_iochannel.go
index 2c2d9ff..a997ca8 100644
--- a/server_iochannel.go
+++ b/server_iochannel.go
@@ -19,6 +19,7 @@ import (
 // it does not handle class 3 tag reads or writes.
 type IOChannelProvider[Tin, Tout any] struct {
 	inMutex     sync.Mutex
+	outMutex    sync.Mutex
 	in          Tin
 	outChannels []chan Tout
 }
@@ -58,25 +59,26 @@ func (p *IOChannelProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem getting header. %w", err)
 	}
-	payload := make([]byte, items[1].Header.Length-6)
-	err = items[1].DeSerialize(&payload)
-	if err != nil {
-		return fmt.Errorf("problem getting raw data. %w", err)
-	}
-	b := bytes.NewBuffer(payload)
+	b := bytes.NewBuffer(items[1].Rest())
 
 	var out Tout
 	_, err = Unpack(b, &out)
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
+	full := 0
 	for i := range p.outChannels {
 		select {
 		case p.outChannels[i] <- out:
 		default:
-			return errors.New("problem sending IOWrite data. channel full?")
+			full++
 		}
 	}
+	if full > 0 {
+		return errors.New("problem sending IOWrite data. channel full?")
+	}
 
 	return nil
 }
@@ -92,6 +94,8 @@ func (p *IOChannelProvider[Tin, Tout]) TagWrite(tag string, value any) error {
 // returns the most udpated copy of the output data
 // this output data is what the PLC is writing to us
 func (p *IOChannelProvider[Tin, Tout]) GetOutputDataChannel() <-chan Tout {
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
 	newout := make(chan Tout)
 	p.outChannels = append(p.outChannels, newout)
 	return newout
-- 
2.43.0


From d97f1937cf478ac712f1b3389de3fb9ca05adf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 30/36] fix: a data table buffer keeps its indexes after a
 removal, checks its replies and splits long additions; tag groups substitute
 and expand names exactly

---
 datatable.go        | 352 +++++++++++++++++++++++++++-----------------
 taggroup.go         |  70 +++++----
 taggroup_readmap.go |  11 +-
 3 files changed, 269 insertions(+), 164 deletions(-)

diff --git a/datatable.go b/datatable.go
index 06bbbe5..c120a1f 100644
--- a/datatable.go
+++ b/datatable.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strings"
@@ -43,6 +44,8 @@ type DataTableBuffer struct {
 	// Value: the expanded individual tag names (e.g. ["EXAMPLE[1,0]", ..., "EXAMPLE[1,4]"])
 	expansions map[string][]string
 
+	accepted uint16 // number of tags the PLC has taken so far, removed ones included. The next tag gets the index after it.
+
 	created bool // true after successful Create
 	synched bool // internal flag to track if tags have been added on this side but not yet sent to PLC via AddTag/AddTags
 }
@@ -97,6 +100,9 @@ func (buf *DataTableBuffer) resolveTypeSize(tagName string, cipType CIPType) (ui
 	if cipType == CIPTypeSTRING || cipType == CIPTypeStruct {
 		kt, ok := buf.client.KnownTags[strings.ToLower(tagName)]
 		if ok && kt.UDT != nil && kt.UDT.Info.SizeBytes > 0 {
+			if kt.UDT.Info.SizeBytes > math.MaxUint16 {
+				return 0, fmt.Errorf("a value of %d bytes is too long for a datatable buffer", kt.UDT.Info.SizeBytes)
+			}
 			return uint16(kt.UDT.Info.SizeBytes), nil
 		}
 	}
@@ -114,11 +120,13 @@ func decodeDataTableValue(cipType CIPType, raw []byte) (any, error) {
 			return nil, fmt.Errorf("STRING data too short: got %d bytes, need at least 4", len(raw))
 		}
 		strLen := binary.LittleEndian.Uint32(raw[0:4])
-		if strLen > uint32(len(raw)-4) {
-			strLen = uint32(len(raw) - 4)
+		// the standard string has two bytes of padding after its 82 characters.
+		capacity := uint32(len(raw) - 4)
+		if len(raw) == 88 {
+			capacity = 82
 		}
-		if strLen > 82 {
-			strLen = 82
+		if strLen > capacity {
+			return nil, fmt.Errorf("STRING length %d is more than the %d bytes it has", strLen, capacity)
 		}
 		return string(raw[4 : 4+strLen]), nil
 	}
@@ -181,6 +189,12 @@ type addTagEntry struct {
 	index        int // the position of this tag in the buffer's tags slice, used to update batchID and synched after a successful add
 }
 
+// dataTableMaxBatch is the largest number of tags one 0x4E call can add.
+const dataTableMaxBatch = 255
+
+// dataTableAddOverhead is the size of a 0x4E call without its tags: sequence count, service, path, header and tag count.
+const dataTableAddOverhead = 2 + 2 + 6 + 5
+
 // DataTableAddTags sends a CIP service 0x4E to the specified datatable buffer instance,
 // adding one or more tags in a single call. Each tag carries its own dataTypeSize and
 // IOI EPath — mixed type sizes are supported.
@@ -203,6 +217,11 @@ func (client *Client) DataTableAddTags(instanceID uint16, entries []addTagEntry)
 		return 0, fmt.Errorf("could not add tag to datatable buffer: %w", err)
 	}
 
+	// the count is sent as one byte.
+	if len(entries) == 0 || len(entries) > dataTableMaxBatch {
+		return 0, fmt.Errorf("can't add %d tags to a datatable buffer at once", len(entries))
+	}
+
 	path := dataTablePath(instanceID)
 
 	// Estimate capacity: 5 header + per-tag (2 typeSize + 1 ioiLen + IOI bytes)
@@ -218,6 +237,10 @@ func (client *Client) DataTableAddTags(instanceID uint16, entries []addTagEntry)
 	msgData = append(msgData, byte(len(entries)))
 
 	for _, e := range entries {
+		// the length of the path is sent as one byte counting 16 bit words
+		if len(e.ioi)%2 != 0 || len(e.ioi)/2 > 255 {
+			return 0, fmt.Errorf("a tag path can't be %d bytes long", len(e.ioi))
+		}
 		// Per-tag: dataTypeSize LE16
 		sizeBytes := make([]byte, 2)
 		binary.LittleEndian.PutUint16(sizeBytes, e.dataTypeSize)
@@ -329,6 +352,10 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 	if !buf.created {
 		return fmt.Errorf("datatable buffer not created")
 	}
+	err := checkGoVar(data)
+	if err != nil {
+		return fmt.Errorf("tag %q: %w", tagName, err)
+	}
 	cipType, _ := GoVarToCIPType(data)
 
 	ioi, err := buf.client.newIOI(tagName, cipType)
@@ -347,12 +374,12 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
 		Var:          data,
 	})
+	buf.renumber()
 
 	return nil
 }
@@ -383,11 +410,11 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
 	})
+	buf.renumber()
 
 	return nil
 }
@@ -396,26 +423,56 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 // marking them as synched if successful. This is called automatically by ReadAll if there are unsynched tags, but can be
 // called manually if you want to control when the tags are sent to the PLC (e.g. to group multiple AddTag calls into one batch).
 func (buf *DataTableBuffer) SyncTags() error {
-	entries := make([]addTagEntry, 0)
-	for i := range buf.tags {
-		if buf.tags[i].synched {
-			continue
-		}
-		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi, i})
+	if !buf.created {
+		return fmt.Errorf("datatable buffer not created")
 	}
+	buf.renumber()
+	for {
+		entries := make([]addTagEntry, 0)
+		msgSize := dataTableAddOverhead
+		for i := range buf.tags {
+			tag := buf.tags[i]
+			if tag.synched {
+				continue
+			}
+			msgSize += 3 + len(tag.ioi)
+			if len(entries) == dataTableMaxBatch || (len(entries) > 0 && msgSize > int(buf.client.ConnectionSize)) {
+				break
+			}
+			entries = append(entries, addTagEntry{tag.DataTypeSize, tag.ioi, i})
+		}
+		if len(entries) == 0 {
+			break
+		}
+		if int(buf.accepted)+len(entries) > math.MaxUint16 {
+			return fmt.Errorf("no more tags can be added to this buffer")
+		}
 
-	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
-	if err != nil {
-		return fmt.Errorf("could not add tags to buffer: %w", err)
-	}
-	for _, entry := range entries {
-		buf.tags[entry.index].batchID = batchID
-		buf.tags[entry.index].synched = true
+		batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
+		if err != nil {
+			return fmt.Errorf("could not add tags to buffer: %w", err)
+		}
+		for _, entry := range entries {
+			buf.tags[entry.index].batchID = batchID
+			buf.tags[entry.index].synched = true
+		}
+		buf.accepted += uint16(len(entries))
 	}
 	buf.synched = true
 	return nil
 }
 
+// renumber gives the tags not yet sent to the PLC the indexes they will get, which follow those of all the tags sent before.
+func (buf *DataTableBuffer) renumber() {
+	next := buf.accepted
+	for i := range buf.tags {
+		if !buf.tags[i].synched {
+			next++
+			buf.tags[i].index = next
+		}
+	}
+}
+
 // AddTags adds multiple tags to the datatable buffer in a single 0x4E call.
 // Each tag carries its own dataTypeSize and IOI EPath — mixed type sizes are
 // supported in one call (confirmed via pcap).
@@ -453,29 +510,18 @@ func (buf *DataTableBuffer) AddTags(tags map[string]CIPType) error {
 		})
 	}
 
-	// Build entries for a single DataTableAddTags call.
-	entries := make([]addTagEntry, len(prepared))
-	for i, t := range prepared {
-		entries[i] = addTagEntry{
-			dataTypeSize: t.typeSize,
-			ioi:          t.ioi,
-		}
-	}
-
-	// Assign sequential indices and record the batch ID for read parsing.
-	baseIndex := uint16(len(buf.tags) + 1)
-	for i, t := range prepared {
+	for _, t := range prepared {
 		buf.tags = append(buf.tags, DataTableBufferTag{
 			Name:         t.name,
 			CIPType:      t.cipType,
 			DataTypeSize: t.typeSize,
-			index:        baseIndex + uint16(i),
 			ioi:          t.ioi,
 			batchID:      0,
 			synched:      false,
 		})
 	}
 	buf.synched = false
+	buf.renumber()
 
 	return nil
 }
@@ -508,6 +554,44 @@ func (buf *DataTableBuffer) AddTags(tags map[string]CIPType) error {
 // variable-length within that slot: [4-byte uint32 LEN][LEN chars][padding].
 // decodeDataTableValue reads LEN to extract only the meaningful characters.
 func (buf *DataTableBuffer) ReadAll() (map[string]any, error) {
+	slots, err := buf.readSlots()
+	if err != nil {
+		return nil, err
+	}
+
+	// Decode every value before any variable is changed.
+	result := make(map[string]any, len(slots))
+	values := make([]any, len(slots))
+	for i, slot := range slots {
+		value, err := decodeDataTableValue(slot.tag.CIPType, slot.raw)
+		if err != nil {
+			return nil, fmt.Errorf("could not decode value for tag %q: %w", slot.tag.Name, err)
+		}
+		result[slot.tag.Name] = value
+		values[i] = value
+	}
+	for i, slot := range slots {
+		if slot.tag.Var != nil {
+			// If the caller has set the Var field, also store the value there for direct access.
+			// use reflection to set the value of the caller's variable, if possible
+			err := setGoVar(slot.tag.Var, values[i])
+			if err != nil {
+				return nil, fmt.Errorf("could not set Var field for tag %q: %w", slot.tag.Name, err)
+			}
+		}
+	}
+
+	return result, nil
+}
+
+// dataTableSlot is the raw value of one tag in a read response.
+type dataTableSlot struct {
+	tag DataTableBufferTag
+	raw []byte
+}
+
+// readSlots reads the buffer and returns the bytes of every tag in index order. See ReadAll for the layout.
+func (buf *DataTableBuffer) readSlots() ([]dataTableSlot, error) {
 	if !buf.created {
 		return nil, fmt.Errorf("datatable buffer not created")
 	}
@@ -534,15 +618,17 @@ func (buf *DataTableBuffer) ReadAll() (map[string]any, error) {
 		return sorted[i].index < sorted[j].index
 	})
 
-	result := make(map[string]any, len(sorted))
-	currentBatch := uint16(0)
-	for _, tag := range sorted {
-		// When we hit a new batch, skip the 2-byte entry header.
-		if tag.batchID != currentBatch {
-			if _, err := resp.Uint16(); err != nil {
+	slots := make([]dataTableSlot, 0, len(sorted))
+	for i, tag := range sorted {
+		// Every new batch starts with a 2-byte entry header.
+		if i == 0 || tag.batchID != sorted[i-1].batchID {
+			header, err := resp.Uint16()
+			if err != nil {
 				return nil, fmt.Errorf("could not read batch header before tag %q: %w", tag.Name, err)
 			}
-			currentBatch = tag.batchID
+			if header != tag.batchID {
+				return nil, fmt.Errorf("expected batch %d before tag %q but got %d", tag.batchID, tag.Name, header)
+			}
 		}
 
 		// Read exactly DataTypeSize bytes — this is the fixed slot size for
@@ -554,23 +640,20 @@ func (buf *DataTableBuffer) ReadAll() (map[string]any, error) {
 		raw := make([]byte, tag.DataTypeSize)
 		copy(raw, resp.Data[resp.Pos:resp.Pos+int(tag.DataTypeSize)])
 		resp.Pos += int(tag.DataTypeSize)
-
-		value, err := decodeDataTableValue(tag.CIPType, raw)
-		if err != nil {
-			return nil, fmt.Errorf("could not decode value for tag %q: %w", tag.Name, err)
-		}
-		result[tag.Name] = value
-		if tag.Var != nil {
-			// If the caller has set the Var field, also store the value there for direct access.
-			// use reflection to set the value of the caller's variable, if possible
-			err := setGoVar(tag.Var, value)
-			if err != nil {
-				return nil, fmt.Errorf("could not set Var field for tag %q: %w", tag.Name, err)
-			}
-		}
+		slots = append(slots, dataTableSlot{tag, raw})
 	}
 
-	return result, nil
+	return slots, nil
+}
+
+// checkGoVar returns an error if dest is not a pointer to a variable that can hold the value of a single tag.
+func checkGoVar(dest any) error {
+	v := reflect.ValueOf(dest)
+	cipType, _ := GoVarToCIPType(dest)
+	if v.Kind() == reflect.Ptr && !v.IsNil() && cipType != CIPTypeStruct {
+		return nil
+	}
+	return fmt.Errorf("a variable of type %T can't hold the value of a tag", dest)
 }
 
 func setGoVar(dest any, value any) error {
@@ -596,50 +679,14 @@ func setGoVar(dest any, value any) error {
 // wire layout), but the raw DataTypeSize bytes for each tag are returned
 // directly instead of being decoded into Go types.
 func (buf *DataTableBuffer) ReadAllRaw() (map[string][]byte, error) {
-	if !buf.created {
-		return nil, fmt.Errorf("datatable buffer not created")
-	}
-	if len(buf.tags) == 0 {
-		return nil, fmt.Errorf("no tags in datatable buffer")
-	}
-
-	if !buf.synched {
-		err := buf.SyncTags()
-		if err != nil {
-			return nil, fmt.Errorf("could not sync tags before read: %w", err)
-		}
-	}
-
-	resp, err := buf.client.DataTableReadBuffer(buf.instanceID)
+	slots, err := buf.readSlots()
 	if err != nil {
 		return nil, err
 	}
 
-	sorted := make([]DataTableBufferTag, len(buf.tags))
-	copy(sorted, buf.tags)
-	sort.Slice(sorted, func(i, j int) bool {
-		return sorted[i].index < sorted[j].index
-	})
-
-	result := make(map[string][]byte, len(sorted))
-	currentBatch := uint16(0)
-	for _, tag := range sorted {
-		// When we hit a new batch, skip the 2-byte entry header (see ReadAll).
-		if tag.batchID != currentBatch {
-			if _, err := resp.Uint16(); err != nil {
-				return nil, fmt.Errorf("could not read batch header before tag %q: %w", tag.Name, err)
-			}
-			currentBatch = tag.batchID
-		}
-
-		if resp.Pos+int(tag.DataTypeSize) > len(resp.Data) {
-			return nil, fmt.Errorf("not enough data for tag %q (index %d): need %d bytes at offset %d, have %d total",
-				tag.Name, tag.index, tag.DataTypeSize, resp.Pos, len(resp.Data))
-		}
-		raw := make([]byte, tag.DataTypeSize)
-		copy(raw, resp.Data[resp.Pos:resp.Pos+int(tag.DataTypeSize)])
-		resp.Pos += int(tag.DataTypeSize)
-		result[tag.Name] = raw
+	result := make(map[string][]byte, len(slots))
+	for _, slot := range slots {
+		result[slot.tag.Name] = slot.raw
 	}
 
 	return result, nil
@@ -663,12 +710,31 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 		return fmt.Errorf("tag %q not found in buffer", tagName)
 	}
 
-	err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
-	if err != nil {
-		return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+	// A tag that was not sent to the PLC yet is only known here.
+	if buf.tags[idx].synched {
+		err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
+		if err != nil {
+			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+		}
 	}
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
+	buf.renumber()
+
+	// Expansions the tag was part of can't be collapsed any more.
+	for _, tag := range buf.tags {
+		if tag.Name == tagName {
+			return nil
+		}
+	}
+	for base, expanded := range buf.expansions {
+		for _, name := range expanded {
+			if name == tagName {
+				delete(buf.expansions, base)
+				break
+			}
+		}
+	}
 	return nil
 }
 
@@ -712,25 +778,31 @@ func (buf *DataTableBuffer) AddTagGroup(group *TagGroup, args ...any) error {
 		return fmt.Errorf("datatable buffer not created")
 	}
 
+	defs, err := group.resolve(args...)
+	if err != nil {
+		return err
+	}
+
 	// Collect all resolved tag names with their types for batched AddTags.
 	tagMap := make(map[string]CIPType)
+	expansions := make(map[string][]string)
 
-	for _, def := range group.defs {
-		resolvedName := formatName(def.Name, args...)
-
-		if def.Elements > 1 {
-			expanded := expandArrayTag(resolvedName, def.Elements)
-			buf.expansions[resolvedName] = expanded
-			for _, name := range expanded {
-				tagMap[name] = def.Type
-			}
-		} else {
-			buf.expansions[resolvedName] = []string{resolvedName}
-			tagMap[resolvedName] = def.Type
+	for _, def := range defs {
+		expanded := expandArrayTag(def.Name, def.Elements)
+		expansions[def.Name] = expanded
+		for _, name := range expanded {
+			tagMap[name] = def.Type
 		}
 	}
 
-	return buf.AddTags(tagMap)
+	err = buf.AddTags(tagMap)
+	if err != nil {
+		return err
+	}
+	for base, expanded := range expansions {
+		buf.expansions[base] = expanded
+	}
+	return nil
 }
 
 // ---------------------------------------------------------------------------
@@ -762,22 +834,18 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		return fmt.Errorf("datatable buffer not created")
 	}
 
-	// Reflect over struct fields
-	T := reflect.TypeOf(str)
-	if T.Kind() == reflect.Ptr {
-		T = T.Elem()
-	}
+	// The values are stored in the fields after a read so they have to be settable.
 	v := reflect.ValueOf(str)
-	if v.Kind() == reflect.Ptr {
-		v = v.Elem()
+	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("expected a pointer to a struct but got %T", str)
 	}
+	v = v.Elem()
 
-	vf := reflect.VisibleFields(T)
 	tagMap := make(map[string]CIPType)
 	varPtrs := make(map[string]any)
+	expansions := make(map[string][]string)
 
-	for i := range vf {
-		field := vf[i]
+	for _, field := range reflect.VisibleFields(v.Type()) {
 		tagPath, ok := field.Tag.Lookup("gologix")
 		if !ok || tagPath == "" {
 			continue
@@ -785,35 +853,53 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		fieldVal := v.Field(i)
-		cipType, elements := GoVarToCIPType(fieldVal.Interface())
+		fieldVal, err := v.FieldByIndexErr(field.Index)
+		if err != nil {
+			return fmt.Errorf("field %s: %w", field.Name, err)
+		}
+		if !fieldVal.CanSet() {
+			return fmt.Errorf("field %s can't be set", field.Name)
+		}
 
 		// Handle slices/arrays (multi-element tags)
-		if elements > 1 {
-			expanded := expandArrayTag(tagPath, elements)
-			buf.expansions[tagPath] = expanded
+		if fieldVal.Kind() == reflect.Slice || fieldVal.Kind() == reflect.Array {
+			if fieldVal.Len() == 0 {
+				return fmt.Errorf("field %s has no elements", field.Name)
+			}
+			expanded := expandArrayTag(tagPath, fieldVal.Len())
+			expansions[tagPath] = expanded
 			for idx, name := range expanded {
-				tagMap[name] = cipType
 				// For slices, set Var to the element pointer
-				if fieldVal.Kind() == reflect.Slice && fieldVal.Len() > idx {
-					varPtrs[name] = fieldVal.Index(idx).Addr().Interface()
+				ptr := fieldVal.Index(idx).Addr().Interface()
+				if err := checkGoVar(ptr); err != nil {
+					return fmt.Errorf("field %s: %w", field.Name, err)
 				}
+				tagMap[name], _ = GoVarToCIPType(ptr)
+				varPtrs[name] = ptr
 			}
 		} else {
-			buf.expansions[tagPath] = []string{tagPath}
-			tagMap[tagPath] = cipType
-			varPtrs[tagPath] = fieldVal.Addr().Interface()
+			ptr := fieldVal.Addr().Interface()
+			if err := checkGoVar(ptr); err != nil {
+				return fmt.Errorf("field %s: %w", field.Name, err)
+			}
+			expansions[tagPath] = []string{tagPath}
+			tagMap[tagPath], _ = GoVarToCIPType(ptr)
+			varPtrs[tagPath] = ptr
 		}
 	}
 
 	// Add tags to buffer
+	first := len(buf.tags)
 	err := buf.AddTags(tagMap)
 	if err != nil {
 		return err
 	}
+	for base, expanded := range expansions {
+		buf.expansions[base] = expanded
+	}
 
-	// Set Var pointers for each tag
-	for i := range buf.tags {
+	// Set Var pointers for each new tag
+	for i := first; i < len(buf.tags); i++ {
 		if ptr, ok := varPtrs[buf.tags[i].Name]; ok {
 			buf.tags[i].Var = ptr
 		}
diff --git a/taggroup.go b/taggroup.go
index de7644d..bd6bb0b 100644
--- a/taggroup.go
+++ b/taggroup.go
@@ -2,6 +2,7 @@ package gologix
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -43,12 +44,31 @@ func (g *TagGroup) Defs() []TagDef {
 // formatName replaces {0}, {1}, ... placeholders in a tag name template
 // with the provided arguments.
 func formatName(template string, args ...any) string {
-	s := template
+	// all placeholders are replaced in one pass so that one inside an argument is left alone.
+	replacements := make([]string, 0, 2*len(args))
 	for i, arg := range args {
-		placeholder := fmt.Sprintf("{%d}", i)
-		s = strings.ReplaceAll(s, placeholder, fmt.Sprintf("%v", arg))
+		replacements = append(replacements, fmt.Sprintf("{%d}", i), fmt.Sprintf("%v", arg))
 	}
-	return s
+	return strings.NewReplacer(replacements...).Replace(template)
+}
+
+// resolve returns the tag definitions with the args substituted into their names.
+// Definitions that get the same name have to be the same, there is only one value for each name.
+func (g *TagGroup) resolve(args ...any) ([]TagDef, error) {
+	defs := make([]TagDef, 0, len(g.defs))
+	seen := make(map[string]TagDef, len(g.defs))
+	for _, def := range g.defs {
+		def.Name = formatName(def.Name, args...)
+		if other, ok := seen[def.Name]; ok {
+			if other != def {
+				return nil, fmt.Errorf("tag group has two different definitions of %q", def.Name)
+			}
+			continue
+		}
+		seen[def.Name] = def
+		defs = append(defs, def)
+	}
+	return defs, nil
 }
 
 // zeroValueForTagDef returns a zero-valued Go variable matching the TagDef's
@@ -65,7 +85,7 @@ func zeroValueForTagDef(def TagDef) any {
 			return make([]byte, def.Elements)
 		case CIPTypeINT:
 			return make([]int16, def.Elements)
-		case CIPTypeUINT:
+		case CIPTypeUINT, CIPTypeWORD:
 			return make([]uint16, def.Elements)
 		case CIPTypeDINT:
 			return make([]int32, def.Elements)
@@ -118,44 +138,40 @@ func zeroValueForTagDef(def TagDef) any {
 // expandArrayTag takes a resolved tag name like "STATS[1,0]" and a count,
 // and returns individual tag names with the last array dimension incremented:
 // ["STATS[1,0]", "STATS[1,1]", ..., "STATS[1,4]"]
+//
+// A name that doesn't end with an index is an array from its first element on.
 func expandArrayTag(baseName string, count int) []string {
 	if count <= 1 {
 		return []string{baseName}
 	}
 
-	tag, err := parse_tag_name(baseName)
-	if err != nil || tag.Array_Order == nil || len(tag.Array_Order) == 0 {
-		// No array index found — just return the base name repeated.
-		// This shouldn't happen in normal use.
-		result := make([]string, count)
+	result := make([]string, count)
+
+	bracketPos := strings.LastIndex(baseName, "[")
+	if bracketPos < 0 || !strings.HasSuffix(baseName, "]") {
 		for i := range result {
-			result[i] = baseName
+			result[i] = fmt.Sprintf("%s[%d]", baseName, i)
 		}
 		return result
 	}
 
-	// Find the bracket position to reconstruct the name
-	bracketPos := strings.LastIndex(baseName, "[")
-	if bracketPos < 0 {
-		result := make([]string, count)
+	// Everything up to the last dimension stays as it is.
+	lastPos := bracketPos + 1
+	if comma := strings.LastIndex(baseName[lastPos:], ","); comma >= 0 {
+		lastPos += comma + 1
+	}
+	prefix := baseName[:lastPos]
+	baseIndex, err := strconv.Atoi(strings.TrimSpace(baseName[lastPos : len(baseName)-1]))
+	if err != nil {
+		// Not a valid index, which is reported when the tag is used.
 		for i := range result {
 			result[i] = baseName
 		}
 		return result
 	}
-	prefix := baseName[:bracketPos]
 
-	lastDim := len(tag.Array_Order) - 1
-	baseIndex := tag.Array_Order[lastDim]
-
-	result := make([]string, count)
-	for i := 0; i < count; i++ {
-		indices := make([]string, len(tag.Array_Order))
-		for d := 0; d < lastDim; d++ {
-			indices[d] = fmt.Sprintf("%d", tag.Array_Order[d])
-		}
-		indices[lastDim] = fmt.Sprintf("%d", baseIndex+i)
-		result[i] = fmt.Sprintf("%s[%s]", prefix, strings.Join(indices, ","))
+	for i := range result {
+		result[i] = fmt.Sprintf("%s%d]", prefix, baseIndex+i)
 	}
 	return result
 }
diff --git a/taggroup_readmap.go b/taggroup_readmap.go
index 8db5a3c..e7c740f 100644
--- a/taggroup_readmap.go
+++ b/taggroup_readmap.go
@@ -24,11 +24,14 @@ func (client *Client) ReadTagGroup(group *TagGroup, args ...any) (*TagGroupResul
 		return nil, fmt.Errorf("could not start tag group read: %w", err)
 	}
 
-	m := make(map[string]any, len(group.defs))
+	defs, err := group.resolve(args...)
+	if err != nil {
+		return nil, err
+	}
+	m := make(map[string]any, len(defs))
 
-	for _, def := range group.defs {
-		name := formatName(def.Name, args...)
-		m[name] = zeroValueForTagDef(def)
+	for _, def := range defs {
+		m[def.Name] = zeroValueForTagDef(def)
 	}
 
 	err = client.ReadMap(m)
-- 
2.43.0


From bbe8d09ee56b8065103b7ce07e3224a7987ac903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:00 +0000
Subject: [PATCH 31/36] fix: the server reads frames exactly, checks and
 answers every request, echoes the request's identifiers, and keeps its
 connections by originator

---
 server.go             | 346 +++++++++++++----------
 server_connected.go   | 625 ++++++++++++++++--------------------------
 server_connections.go |  59 +++-
 server_unconnected.go | 348 +++++++++--------------
 4 files changed, 620 insertions(+), 758 deletions(-)

diff --git a/server.go b/server.go
index 457dd4c..35ebcd0 100644
--- a/server.go
+++ b/server.go
@@ -4,10 +4,11 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"log/slog"
+	"math"
 	"math/rand"
 	"net"
-	"strings"
 	"time"
 )
 
@@ -34,11 +35,20 @@ type serverTCPHandler struct {
 	options        uint32
 	context        uint64
 	OTConnectionID uint32
-	TOConnectionID uint32
+	TOConnectionID uint32 // of the connection the current request came in on.
 
 	UnitDataSequencer uint16
 }
 
+// status codes of the encapsulation protocol
+const (
+	eipStatus_UnsupportedCommand uint32 = 0x01
+	eipStatus_IncorrectData      uint32 = 0x03
+)
+
+// the most data an item of a reply can hold such that the whole reply fits in a frame.
+const serverMaxReplyData = math.MaxUint16 - 20
+
 // Sets up a main server object for handling incoming EIP messages according to PathRouter r
 // After setting up the server use the Serve() method to listen on the appropriate TCP and UDP ports
 func NewServer(r *PathRouter) *Server {
@@ -211,23 +221,35 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 		if err != nil {
 			return fmt.Errorf("problem reading eip header. %w", err)
 		}
+		// the request ends where its header says, whatever is in it.
+		data := make([]byte, eipHdr.Length)
+		_, err = io.ReadFull(h.conn, data)
+		if err != nil {
+			return fmt.Errorf("problem reading eip data. %w", err)
+		}
+		body := bytes.NewReader(data)
 		h.context = eipHdr.Context
+		h.handle = eipHdr.SessionHandle
 		h.server.Logger.Debug("New Context", "context", h.context)
 		switch eipHdr.Command {
+		case cipCommand_NOP:
+			// there is no reply to this one.
+		case cipCommandUnRegisterSession:
+			return nil
 		case cipCommandRegisterSession:
-			err = h.registerSession(eipHdr)
+			err = h.registerSession(eipHdr, body)
 			if err != nil {
 				return fmt.Errorf("problem with register session %w", err)
 			}
 		case cipCommandSendRRData:
 			// this is things like forward opens
-			err = h.sendRRData(eipHdr)
+			err = h.sendRRData(body)
 			if err != nil {
 				return fmt.Errorf("problem with sendRRData %w", err)
 			}
 		case cipCommandSendUnitData:
 			// this is things like writes and reads
-			err = h.sendUnitData(eipHdr)
+			err = h.sendUnitData(body)
 			if err != nil {
 				return fmt.Errorf("problem with sendUnitData %w", err)
 			}
@@ -241,24 +263,29 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 			if err != nil {
 				return fmt.Errorf("problem with sendListIdentity %w", err)
 			}
-
+		default:
+			h.server.Logger.Warn("unsupported command", "command", eipHdr.Command)
+			err = h.sendStatus(eipHdr.Command, eipStatus_UnsupportedCommand)
+			if err != nil {
+				return fmt.Errorf("problem with unsupported command %w", err)
+			}
 		}
 	}
 
 }
 
-func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
+func (h *serverTCPHandler) sendUnitData(body io.Reader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -274,6 +301,9 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	if err != nil {
 		return fmt.Errorf("problem deserializing connection ID %w", err)
 	}
+	if items[1].Header.ID != cipItem_ConnectedData {
+		return fmt.Errorf("should have had a connected data item in position 1. got %v", items[1].Header.ID)
+	}
 
 	err = items[1].DeSerialize(&h.UnitDataSequencer)
 	if err != nil {
@@ -284,29 +314,39 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	if err != nil {
 		return fmt.Errorf("problem deserializing service %w", err)
 	}
+	connection, err := h.server.ConnMgr.GetByOT(connId)
+	if err != nil {
+		h.server.Logger.Warn("request on an unknown connection", "connection", connId)
+		h.TOConnectionID = 0
+		return h.sendUnitDataErrorReply(service, CIPStatus_ConnectionLost)
+	}
+	h.TOConnectionID = connection.TO
+
+	// what is left of the item is the request path and the data of the service.
+	item := &items[1]
 	switch service {
 	case CIPService_Write:
-		err = h.cipConnectedWrite(items)
+		err = h.cipConnectedWrite(connection, item)
 		if err != nil {
 			return fmt.Errorf("problem handling write. %w", err)
 		}
 	case CIPService_FragRead:
-		err = h.connectedRead(CIPService_FragRead, items)
+		err = h.connectedRead(CIPService_FragRead, connection, item)
 		if err != nil {
 			return fmt.Errorf("problem handling frag read. %w", err)
 		}
 	case CIPService_Read:
-		err = h.connectedRead(CIPService_Read, items)
+		err = h.connectedRead(CIPService_Read, connection, item)
 		if err != nil {
 			return fmt.Errorf("problem handling non-frag read. %w", err)
 		}
 	case CIPService_MultipleService:
-		err = h.connectedMulti(items)
+		err = h.connectedMulti(connection, item)
 		if err != nil {
 			return fmt.Errorf("problem handling multi service. %w", err)
 		}
 	case CIPService_GetAttributeSingle:
-		err = h.connectedGetAttr(items)
+		err = h.connectedGetAttr(item)
 		if err != nil {
 			return fmt.Errorf("problem handling getAttrSingle %w", err)
 		}
@@ -315,7 +355,7 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 		// Class 0x64 (Program Object) Instance 1 over the established
 		// connection after Forward Open. Previously this fell through to
 		// the silent default which left the client hanging until timeout.
-		err = h.connectedGetAttributeAll(items)
+		err = h.connectedGetAttributeAll(item)
 		if err != nil {
 			return fmt.Errorf("problem handling connected getAttributesAll %w", err)
 		}
@@ -326,7 +366,7 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 		// "Get Tags from Controller" all rely on this service. We answer
 		// with one Symbol Object instance per tag exposed by the active
 		// TagProvider (provided it implements the TagLister interface).
-		err = h.connectedSymbolList(items)
+		err = h.connectedSymbolList(connection, item)
 		if err != nil {
 			return fmt.Errorf("problem handling connected symbol list %w", err)
 		}
@@ -372,29 +412,11 @@ func (h *serverTCPHandler) sendUnitDataErrorReply(s CIPService, status CIPStatus
 // after Forward Open to learn the controller name; routing that through
 // the same Identity attribute map we already expose keeps a single
 // source of truth for the device's product name string.
-func (h *serverTCPHandler) connectedGetAttributeAll(items []CIPItem) error {
-	items[1].Reset()
-	item := items[1]
-
-	if _, err := item.Uint16(); err != nil {
-		return fmt.Errorf("connected GAA: read seq: %w", err)
-	}
-	if _, err := item.Byte(); err != nil {
-		return fmt.Errorf("connected GAA: read service byte: %w", err)
-	}
-	pathSize, err := item.Byte()
-	if err != nil {
-		return fmt.Errorf("connected GAA: read path size: %w", err)
-	}
-	pathBytes := make([]byte, int(pathSize)*2)
-	if err := item.DeSerialize(&pathBytes); err != nil {
-		return fmt.Errorf("connected GAA: read path: %w", err)
-	}
-
-	class, instance, err := parseClassInstancePath(bytes.NewBuffer(pathBytes))
-	if err != nil {
-		h.server.Logger.Warn("connected GAA: malformed path", "bytes", pathBytes, "error", err)
-		return h.sendUnitDataErrorReply(CIPService_GetAttributeAll, CIPStatus_PathSegmentError)
+func (h *serverTCPHandler) connectedGetAttributeAll(item *CIPItem) error {
+	class, instance, status := readClassInstancePath(item)
+	if status != CIPStatus_OK {
+		h.server.Logger.Warn("connected GAA: malformed path", "status", status)
+		return h.sendUnitDataErrorReply(CIPService_GetAttributeAll, status)
 	}
 
 	switch class {
@@ -404,7 +426,8 @@ func (h *serverTCPHandler) connectedGetAttributeAll(items []CIPItem) error {
 		}
 		payload, err := buildIdentityGetAttributesAllResponse(h.server.Attributes)
 		if err != nil {
-			return fmt.Errorf("connected GAA identity: %w", err)
+			h.server.Logger.Warn("connected GAA identity", "error", err)
+			return h.sendUnitDataErrorReply(CIPService_GetAttributeAll, CIPStatus_NoStoredAttributeData)
 		}
 		return h.sendUnitDataReplyWithPayload(CIPService_GetAttributeAll, payload)
 
@@ -414,7 +437,8 @@ func (h *serverTCPHandler) connectedGetAttributeAll(items []CIPItem) error {
 		}
 		payload, err := buildProgramObjectGetAttributesAllResponse(h.server.Attributes)
 		if err != nil {
-			return fmt.Errorf("connected GAA program: %w", err)
+			h.server.Logger.Warn("connected GAA program", "error", err)
+			return h.sendUnitDataErrorReply(CIPService_GetAttributeAll, CIPStatus_NoStoredAttributeData)
 		}
 		return h.sendUnitDataReplyWithPayload(CIPService_GetAttributeAll, payload)
 
@@ -437,19 +461,19 @@ func (h *serverTCPHandler) connectedGetAttributeAll(items []CIPItem) error {
 // The response is a list of {InstanceID u32, NameLen u16, Name bytes, Type u16}
 // triplets — the standard Logix wire format that pycomm3.LogixDriver
 // expects in its _get_symbols_from_controller() loop.
-func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
-	items[0].Reset()
-	var connID uint32
-	if err := items[0].DeSerialize(&connID); err != nil {
-		return fmt.Errorf("symbol list: conn ID: %w", err)
+func (h *serverTCPHandler) connectedSymbolList(connection *serverConnection, item *CIPItem) error {
+	class, start, status := readClassInstancePath(item)
+	if status != CIPStatus_OK {
+		h.server.Logger.Warn("symbol list: malformed path", "status", status)
+		return h.sendUnitDataErrorReply(CIPService_GetInstanceAttributeList, status)
 	}
-	conn, err := h.server.ConnMgr.GetByOT(connID)
-	if err != nil {
-		return fmt.Errorf("symbol list: conn lookup: %w", err)
+	if class != CipObject_Symbol {
+		return h.sendUnitDataErrorReply(CIPService_GetInstanceAttributeList, CIPStatus_PathDestinationUnknown)
 	}
-	provider, err := h.server.Router.Resolve(conn.Path)
+	provider, err := h.server.Router.Resolve(connection.Path)
 	if err != nil {
-		return fmt.Errorf("symbol list: provider lookup: %w", err)
+		h.server.Logger.Warn("symbol list: provider lookup", "error", err)
+		return h.sendUnitDataErrorReply(CIPService_GetInstanceAttributeList, CIPStatus_PathDestinationUnknown)
 	}
 
 	// Type-assert to the optional TagLister interface. A provider that
@@ -462,7 +486,7 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 		return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, nil)
 	}
 
-	payload := buildSymbolObjectInstanceListResponse(lister.TagList(), 0)
+	payload := buildSymbolObjectInstanceListResponse(lister.TagList(), uint32(start))
 	return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, payload)
 }
 
@@ -471,16 +495,27 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 // the connected Get_Attributes_All handler to ship the Identity /
 // Program Object attribute bytes back to the client.
 func (h *serverTCPHandler) sendUnitDataReplyWithPayload(s CIPService, payload []byte) error {
+	return h.sendUnitDataReplyWithStatus(s, CIPStatus_OK, payload)
+}
+
+// sendUnitDataReplyWithStatus is sendUnitDataReplyWithPayload for a service that has data for the client even
+// though its status is not success.
+func (h *serverTCPHandler) sendUnitDataReplyWithStatus(s CIPService, status CIPStatus, payload []byte) error {
 	items := make([]CIPItem, 2)
 	items[0] = newItem(cipItem_ConnectionAddress, h.TOConnectionID)
 	items[1] = newItem(cipItem_ConnectedData, nil)
 	resp := msgWriteResultHeader{
 		SequenceCount: h.UnitDataSequencer,
 		Service:       s.AsResponse(),
+		Status:        status,
 	}
 	if err := items[1].Serialize(resp); err != nil {
 		return fmt.Errorf("serialize connected reply header: %w", err)
 	}
+	if len(items[1].Data)+len(payload) > serverMaxReplyData {
+		h.server.Logger.Warn("reply too large", "service", s, "size", len(payload))
+		return h.sendUnitDataErrorReply(s, CIPStatus_ReplyDataTooLarge)
+	}
 	if err := items[1].Serialize(payload); err != nil {
 		return fmt.Errorf("serialize connected reply payload: %w", err)
 	}
@@ -510,36 +545,29 @@ func (h *serverTCPHandler) sendUnitDataReply(s CIPService) error {
 	return h.send(cipCommandSendUnitData, itemData)
 }
 
-func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
+func (h *serverTCPHandler) sendRRData(body io.Reader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
 	if len(items) != 2 {
 		return fmt.Errorf("expected 2 items. got %v", len(items))
 	}
-	switch items[1].Header.ID {
-	case cipItem_ConnectedData:
-		var service CIPService
-		err = items[1].DeSerialize(&service)
-		if err != nil {
-			return fmt.Errorf("failed to get service. %w", err)
-		}
-		return h.connectedRead(service, items)
-	case cipItem_UnconnectedData:
-		return h.unconnectedData(items[1])
+	if items[1].Header.ID != cipItem_UnconnectedData {
+		h.server.Logger.Warn("should have had an unconnected data item in position 1", "id", items[1].Header.ID)
+		return h.sendStatus(cipCommandSendRRData, eipStatus_IncorrectData)
 	}
-	return nil
+	return h.unconnectedData(items[1])
 }
 
 func (h *serverTCPHandler) forwardClose(i CIPItem) error {
@@ -549,18 +577,27 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem parsing forward close %w", err)
 	}
+	if !isConnectionManagerPath(fwd_close.PathSize, fwd_close.ClassType, fwd_close.Class, fwd_close.InstanceType, fwd_close.Instance) {
+		return h.sendUnconnectedErrorReply(fwd_close.Service, CIPStatus_PathDestinationUnknown)
+	}
 	h.server.Logger.Info("Closing connection", "serial", fwd_close.ConnectionSerialNumber)
-	err = h.server.ConnMgr.CloseByID(fwd_close.ConnectionSerialNumber)
+	err = h.server.ConnMgr.CloseByOriginator(fwd_close.ConnectionSerialNumber, fwd_close.VendorID, fwd_close.OriginatorSerialNumber)
 	if err != nil {
-		return fmt.Errorf("couldn't close open connection with ID %v. %v", fwd_close.ConnectionSerialNumber, err)
-	}
+		h.server.Logger.Warn("couldn't close connection", "serial", fwd_close.ConnectionSerialNumber, "error", err)
+		return h.sendUnconnectedErrorReply(fwd_close.Service, CIPStatus_ConnectionFailure)
+	}
+	return h.sendUnconnectedRRDataReply(fwd_close.Service,
+		fwd_close.ConnectionSerialNumber,
+		fwd_close.VendorID,
+		fwd_close.OriginatorSerialNumber,
+		uint16(0), // no application reply
+	)
+}
 
-	path := make([]byte, fwd_close.PathSize*2)
-	err = i.DeSerialize(&path)
-	if err != nil {
-		return fmt.Errorf("problem parsing forward close path %w", err)
-	}
-	return nil
+// isConnectionManagerPath tells whether the path at the start of a forward open or close is the connection manager's.
+func isConnectionManagerPath(words, classType, class, instanceType, instance byte) bool {
+	return words == 2 && classType == byte(cipClass_8bit) && CIPClass(class) == CipObject_ConnectionManager &&
+		instanceType == byte(cipInstance_8bit) && instance == 1
 }
 
 // in this message T is for target and O is for originator so
@@ -622,12 +659,22 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	if !isConnectionManagerPath(fwd_open.PathSize, byte(fwd_open.ClassType), fwd_open.Class, byte(fwd_open.InstanceType), fwd_open.Instance) {
+		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_PathDestinationUnknown)
+	}
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
 	}
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
+	if len(fwd_path) < 2 {
+		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_PathSegmentError)
+	}
+	if fwd_open.TransportTrigger == 1 {
+		h.server.Logger.Warn("Large Forward Open IO Connections Not Yet Supported")
+		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_ConnectionFailure)
+	}
 	path := fwd_path[:2]
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
@@ -635,18 +682,23 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	items[0] = CIPItem{Header: cipItemHeader{ID: cipItem_Null}}
 	items[1] = newItem(cipItem_UnconnectedData, nil)
 
-	if fwd_open.TOConnectionID == 0 {
-		h.TOConnectionID = rand.Uint32()
-	} else {
-		h.TOConnectionID = fwd_open.TOConnectionID
-	}
-	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+	cipConnection := &serverConnection{
+		TO:                     fwd_open.TOConnectionID,
+		OT:                     fwd_open.OTConnectionID,
+		ID:                     fwd_open.ConnectionSerialNumber,
+		VendorID:               fwd_open.VendorID,
+		OriginatorSerialNumber: fwd_open.OriginatorSerialNumber,
+		RPI:                    time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path:                   path,
+		Open:                   true,
 	}
+
+	// the connection ID the originator uses to talk to us is ours to choose.
+	h.server.ConnMgr.Open(cipConnection)
+	h.OTConnectionID = cipConnection.OT
+	h.TOConnectionID = cipConnection.TO
 	fwd_open.OTConnectionID = h.OTConnectionID
+	fwd_open.TOConnectionID = h.TOConnectionID
 	// Echo the requested RPI back as the Actual Packet Interval (API). CIP
 	// spec ODVA Vol 1 §3-5.6 allows the target to commit to a different API
 	// than what was requested, but it MUST report a non-zero value the
@@ -679,24 +731,11 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	}
 	err = h.send(cipCommandSendRRData, itemData)
 	if err != nil {
+		// nobody knows about this connection.
+		h.server.ConnMgr.CloseByOT(cipConnection.OT)
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
-	if fwd_open.TransportTrigger == 1 {
-		h.server.Logger.Warn("Large Forward Open IO Connections Not Yet Supported")
-	}
-
 	return nil
 }
 
@@ -707,7 +746,10 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	if !isConnectionManagerPath(fwd_open.PathSize, fwd_open.ClassType, fwd_open.Class, fwd_open.InstanceType, fwd_open.Instance) {
+		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_PathDestinationUnknown)
+	}
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
@@ -722,25 +764,46 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	// then a "simple data segment" of some mystery data.
 
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
+	if len(fwd_path) < 2 {
+		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_PathSegmentError)
+	}
 	path := fwd_path[:2]
 
+	var tp CIPEndpoint
+	if fwd_open.TransportTrigger == 1 {
+		// this is a cyclic IO connection, so there has to be somebody to produce the data, and a rate to do it at.
+		tp, err = h.server.Router.Resolve(path)
+		if err != nil {
+			h.server.Logger.Warn("no tag provider for IO connection", "path", path)
+			return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_PathDestinationUnknown)
+		}
+		if fwd_open.TORPI == 0 {
+			return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_InvalidParameter)
+		}
+	}
+
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{Header: cipItemHeader{ID: cipItem_Null}}
 	items[1] = newItem(cipItem_UnconnectedData, nil)
 
-	if fwd_open.TOConnectionID == 0 {
-		h.TOConnectionID = rand.Uint32()
-	} else {
-		h.TOConnectionID = fwd_open.TOConnectionID
-	}
-	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+	cipConnection := &serverConnection{
+		TO:                     fwd_open.TOConnectionID,
+		OT:                     fwd_open.OTConnectionID,
+		ID:                     fwd_open.ConnectionSerialNumber,
+		VendorID:               fwd_open.VendorID,
+		OriginatorSerialNumber: fwd_open.OriginatorSerialNumber,
+		RPI:                    time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path:                   path,
+		Open:                   true,
 	}
+
+	// the connection ID the originator uses to talk to us is ours to choose.
+	h.server.ConnMgr.Open(cipConnection)
+	h.OTConnectionID = cipConnection.OT
+	h.TOConnectionID = cipConnection.TO
 	fwd_open.OTConnectionID = h.OTConnectionID
+	fwd_open.TOConnectionID = h.TOConnectionID
 	// See largeForwardOpen above for why API must echo the requested RPI
 	// instead of zero. Same fix applies to the standard (small) Forward
 	// Open path because real Logix MSG instructions hit this code path for
@@ -767,26 +830,12 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	}
 	err = h.send(cipCommandSendRRData, itemData)
 	if err != nil {
+		// nobody knows about this connection.
+		h.server.ConnMgr.CloseByOT(cipConnection.OT)
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
 	if fwd_open.TransportTrigger == 1 {
-		// this is a cyclic IO connection
-		tp, err := h.server.Router.Resolve(path)
-		if err != nil {
-			return fmt.Errorf("no tag provider for path %v", path)
-		}
 		go h.ioConnection(fwd_open, tp, cipConnection)
 	}
 
@@ -797,13 +846,16 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	rpi := time.Duration(fwd_open.TORPI) * time.Microsecond
 	h.server.Logger.Info("IO Connection", "rpi", rpi)
 	t := time.NewTicker(rpi)
+	defer t.Stop()
 	seq := uint32(0)
 
 	// get the address to send the response back to, trim off the port number, and add the eip udp port number (2222) back on.
-	// I suspect this will break with IPV6 since it uses colons in the IP address itself.
-	remote := h.conn.RemoteAddr().String()
-	remote = strings.Split(remote, ":")[0]
-	addr := fmt.Sprintf("%s:2222", remote)
+	remote, _, err := net.SplitHostPort(h.conn.RemoteAddr().String())
+	if err != nil {
+		h.server.Logger.Error("Problem with the remote address", "error", err)
+		return
+	}
+	addr := net.JoinHostPort(remote, "2222")
 
 	udpConn, err := net.Dial("udp", addr)
 	if err != nil {
@@ -815,8 +867,8 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	for {
 		seq++
 		<-t.C
-		if !conn.Open {
-			h.server.Logger.Warn("connection closed. no longer sending IO messages", "conn", *conn)
+		if !h.server.ConnMgr.isOpen(conn) {
+			h.server.Logger.Warn("connection closed. no longer sending IO messages", "connection", conn.OT)
 			return
 
 		}
@@ -858,16 +910,16 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	}
 }
 
-func (h *serverTCPHandler) registerSession(hdr eipHeader) error {
+func (h *serverTCPHandler) registerSession(hdr eipHeader, body io.Reader) error {
 
 	reg_msg := msgCIPRegister{}
-	err := binary.Read(h.conn, binary.LittleEndian, &reg_msg)
+	err := binary.Read(body, binary.LittleEndian, &reg_msg)
 	if err != nil {
 		return fmt.Errorf("problem reading register session message. %w", err)
 	}
 	h.server.Logger.Debug("register message", "msg", reg_msg)
 	h.handle = hdr.SessionHandle
-	if h.handle == 0 {
+	for h.handle == 0 {
 		h.handle = rand.Uint32()
 	}
 	h.options = hdr.Options
@@ -890,6 +942,9 @@ func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
 	for _, msg := range msgs {
 		size += binary.Size(msg)
 	}
+	if size > math.MaxUint16 {
+		return fmt.Errorf("message of %d bytes is too long", size)
+	}
 	// build header based on size
 	hdr := h.newEIPHeader(cmd, size)
 
@@ -924,6 +979,19 @@ func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
 
 }
 
+// sendStatus answers a command that can't be carried out.
+func (h *serverTCPHandler) sendStatus(cmd CIPCommand, status uint32) error {
+	hdr := h.newEIPHeader(cmd, 0)
+	hdr.Status = status
+	b := new(bytes.Buffer)
+	err := binary.Write(b, binary.LittleEndian, hdr)
+	if err != nil {
+		return fmt.Errorf("problem writing header to buffer. %w", err)
+	}
+	_, err = h.conn.Write(b.Bytes())
+	return err
+}
+
 func (h *serverTCPHandler) newEIPHeader(cmd CIPCommand, size int) (hdr eipHeader) {
 
 	hdr.Command = cmd
diff --git a/server_connected.go b/server_connected.go
index 0042d93..4a79f96 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -1,348 +1,213 @@
 package gologix
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 )
 
-func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
-	var l byte // length in words
-	item := items[1]
-	err := item.DeSerialize(&l)
+func (h *serverTCPHandler) cipConnectedWrite(connection *serverConnection, item *CIPItem) error {
+	// path is part of the forward open we've previously received.
+	p, err := h.server.Router.Resolve(connection.Path)
 	if err != nil {
-		return fmt.Errorf("problem deserializing item length %w", err)
+		h.server.Logger.Warn("problem finding tag provider", "path", connection.Path, "error", err)
+		return h.sendUnitDataErrorReply(CIPService_Write, CIPStatus_PathDestinationUnknown)
 	}
-
-	tag, err := getTagFromSizedPath(&item, l)
-	if err != nil {
-		return fmt.Errorf("problem deserializing tag bytes %w", err)
+	status := h.writeTagService(CIPService_Write, item, p)
+	if status != CIPStatus_OK {
+		return h.sendUnitDataErrorReply(CIPService_Write, status)
 	}
+	return h.sendUnitDataReply(CIPService_Write)
+}
 
-	results, err := parseWriteValues(&item)
+// readTagService carries out a read or fragmented read of one of p's tags. What is left of item is the request
+// from the size of the tag path on.  It returns the data for the reply, or the status that says why there is none.
+func (h *serverTCPHandler) readTagService(svc CIPService, item *CIPItem, p CIPEndpoint) ([]byte, CIPStatus) {
+	words, err := item.Byte()
 	if err != nil {
-		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
+		return nil, CIPStatus_NotEnoughData
 	}
-	qty := uint16(len(results))
-	h.server.Logger.Debug("write", "tag", tag, "value", results)
-
-	if items[0].Header.ID != cipItem_ConnectionAddress {
-		return fmt.Errorf("expected a connection address item in item 0. got %v", items[0].Header.ID)
-	}
-	items[0].Reset()
-	var connID uint32
-	err = items[0].DeSerialize(&connID)
+	tag, err := getTagFromSizedPath(item, words)
 	if err != nil {
-		return fmt.Errorf("problem deserializing connection ID (%+v) %w", items[0], err)
+		h.server.Logger.Warn("couldn't parse path", "error", err)
+		return nil, CIPStatus_PathSegmentError
 	}
-
-	conn, err := h.server.ConnMgr.GetByOT(connID)
+	qty, err := item.Uint16()
 	if err != nil {
-		return fmt.Errorf("no server handler for %v. %w", connID, err)
+		return nil, CIPStatus_NotEnoughData
 	}
-
-	p, err := h.server.Router.Resolve(conn.Path)
-	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v(%v). %w", connID, conn.Path, err)
+	if qty > math.MaxInt16 {
+		return nil, CIPStatus_InvalidParameter
 	}
-	if qty > 1 {
-		err = p.TagWrite(tag, results)
+	offset := uint32(0)
+	if svc == CIPService_FragRead && len(item.Rest()) > 0 {
+		offset, err = item.Uint32()
 		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
-	} else {
-		err = p.TagWrite(tag, results[0])
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
+			return nil, CIPStatus_NotEnoughData
 		}
 	}
 
-	// path is part of the forward open we've previously received.
-
-	return h.sendUnitDataReply(CIPService_Write)
-}
-
-func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
-	items[0].Reset()
-	var connID uint32
-	err := items[0].DeSerialize(&connID)
+	result, err := p.TagRead(tag, int16(qty))
 	if err != nil {
-		return fmt.Errorf("couldn't get connection ID from item 0: %w", err)
+		h.server.Logger.Warn("problem getting data from provider", "tag", tag, "error", err)
+		return nil, CIPStatus_InvalidMemberID
 	}
-	connection, err := h.server.ConnMgr.GetByOT(connID)
+	h.server.Logger.Debug("read", "tag", tag, "qty", qty, "value", result)
+	typ, data, err := tagValueBytes(result)
 	if err != nil {
-		return fmt.Errorf("couldn't get connection with ID %v: %w", connID, err)
+		h.server.Logger.Warn("problem serializing tag", "tag", tag, "error", err)
+		return nil, CIPStatus_InvalidAttributeValue
 	}
-
-	path := connection.Path
-
-	provider, err := h.server.Router.Resolve(path)
-	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
+	if uint64(offset) > uint64(len(data)) {
+		return nil, CIPStatus_InvalidParameter
 	}
-	p := provider
-
-	items[1].Reset()
-	item := items[1]
+	return append(typ, data[offset:]...), CIPStatus_OK
+}
 
-	var seq uint16
-	err = item.DeSerialize(&seq)
+// writeTagService carries out a write or fragmented write of one of p's tags. What is left of item is the request
+// from the size of the tag path on.
+func (h *serverTCPHandler) writeTagService(svc CIPService, item *CIPItem, p CIPEndpoint) CIPStatus {
+	words, err := item.Byte()
 	if err != nil {
-		return fmt.Errorf("error getting sequence ID: %w", err)
+		return CIPStatus_NotEnoughData
 	}
-	var service CIPService
-	err = item.DeSerialize(&service)
+	tag, err := getTagFromSizedPath(item, words)
 	if err != nil {
-		return fmt.Errorf("error getting service: %w", err)
+		h.server.Logger.Warn("couldn't parse path", "error", err)
+		return CIPStatus_PathSegmentError
 	}
-	var pathlen byte
-	err = item.DeSerialize(&pathlen)
+	results, status, err := parseWriteRequest(svc, item)
 	if err != nil {
-		return fmt.Errorf("error getting path len: %w", err)
+		h.server.Logger.Warn("problem parsing write values", "tag", tag, "error", err)
+		return status
 	}
-
-	// need to handle this differently!
-	pb := make([]byte, pathlen*2)
-	err = item.DeSerialize(&pb)
-	if err != nil {
-		return fmt.Errorf("problem dumping path bytes from multi-svc header")
+	h.server.Logger.Debug("write", "tag", tag, "value", results)
+	if len(results) == 1 {
+		err = p.TagWrite(tag, results[0])
+	} else {
+		err = p.TagWrite(tag, results)
 	}
-	qty, err := item.Uint16()
 	if err != nil {
-		return fmt.Errorf("problem getting multisvc item count: %w", err)
-	}
-	offsets := make([]int16, qty)
-	results := make([][]byte, qty)
-	for i := range offsets {
-		offsets[i], err = item.Int16()
-		if err != nil {
-			return fmt.Errorf("problem getting multisvc offset for item %d: %w", i, err)
-		}
+		h.server.Logger.Warn("problem writing tag", "tag", tag, "error", err)
+		return CIPStatus_InvalidAttributeValue
 	}
+	return CIPStatus_OK
+}
 
-	for i := range results {
-		item.Pos = int(offsets[i]) + 8 // seek to the start of the multi-service payload data.
-		var svc CIPService
-		err = item.DeSerialize(&svc)
-		if err != nil {
-			return fmt.Errorf("problem getting multiread service for item %d: %w", i, err)
+// tagValueBytes gets the type a value is announced with in the reply to a read, and its data.
+func tagValueBytes(value any) ([]byte, []byte, error) {
+	typ, _ := GoVarToCIPType(value)
+	switch typ {
+	case CIPTypeUnknown:
+		return nil, nil, fmt.Errorf("%T has no type", value)
+	case CIPTypeSTRING:
+		// STRINGs are a structure. It is announced once, and is then followed by a slot of 88 bytes for each of them.
+		var values []string
+		switch v := value.(type) {
+		case string:
+			values = []string{v}
+		case []string:
+			values = v
+		default:
+			return nil, nil, fmt.Errorf("expected a string but got %T", value)
 		}
-
-		svcReqSize, err := item.Byte()
-		if err != nil {
-			return fmt.Errorf("problem getting service req payload size for item %d: %w", i, err)
+		header := cipStringPacker("").Bytes()[:cipStringSlotLen-cipStringTagDataLen]
+		var data []byte
+		for _, v := range values {
+			data = append(data, cipStringPacker(v).Bytes()[len(header):]...)
 		}
-
-		switch svc {
-		case CIPService_FragRead,
-			CIPService_Read:
-			tagname, err := getTagFromSizedPath(&item, svcReqSize)
-			if err != nil {
-				return fmt.Errorf("problem getting multiread tagname for item %d: %w", i, err)
-			}
-			qty, err := item.Uint16()
-			if err != nil {
-				return fmt.Errorf("error getting write qty: %w", err)
-			}
-
-			result, err := p.TagRead(tagname, int16(qty))
-			if err != nil {
-				return fmt.Errorf("problem getting data for %s from provider. %w", tagname, err)
-			}
-
-			// build this portion of the response msg
-
-			typ, _ := GoVarToCIPType(result)
-			rhdr := msgMultiReadResult{Service: svc.AsResponse(), Status: 0, Type: typ}
-			b, err := Serialize(rhdr)
-			if err != nil {
-				return fmt.Errorf("problem serializing header for %s: %w", tagname, err)
-			}
-			if typ == CIPTypeSTRING {
-				res_str, ok := result.(string)
-				if !ok {
-					return errors.New("expected a string but didn't get one")
-				}
-				b_dat, err := Serialize(cipStringPacker(res_str))
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				b.Truncate(4)
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			} else {
-				b_dat, err := Serialize(result)
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			}
-
-			results[i] = b.Bytes()
-		case CIPService_Write,
-			CIPService_FragWrite:
-
-			tag, err := getTagFromSizedPath(&item, svcReqSize)
-			if err != nil {
-				return fmt.Errorf("problem deserializing tag bytes %w", err)
-			}
-
-			var typ CIPType
-			err = item.DeSerialize(&typ)
-			if err != nil {
-				return fmt.Errorf("problem deserializing cip type %w", err)
-			}
-			var reserved byte
-			err = item.DeSerialize(&reserved)
-			if err != nil {
-				return fmt.Errorf("problem deserializing reserved byte %w", err)
-			}
-			var qty uint16
-			err = item.DeSerialize(&qty)
-			if err != nil {
-				return fmt.Errorf("problem deserializing element count %w", err)
-			}
-
-			writeTags := make([]any, qty)
-			for i := 0; i < int(qty); i++ {
-				writeTags[i], err = typ.readValue(&item)
-				if err != nil {
-					return fmt.Errorf("problem getting write element %d: %w", i, err)
-				}
-			}
-			h.server.Logger.Debug("Write", "tag", tag, "value", writeTags)
-
-			if qty > 1 {
-				err = p.TagWrite(tag, writeTags)
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
-			} else {
-				err = p.TagWrite(tag, writeTags[0])
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
-			}
-
-			results[i] = []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}
-
-		}
-
+		return header, data, nil
 	}
-
-	response := make([]any, qty+2)
-	response[0] = qty
-
-	pos := (int(qty) + 1) * 2
-	jump_table := make([]uint16, qty)
-	for i := range jump_table {
-		jump_table[i] = uint16(pos)
-		pos += len(results[i])
-	}
-	response[1] = jump_table
-	for i := range results {
-		response[2+i] = results[i]
+	data, err := Serialize(value)
+	if err != nil {
+		return nil, nil, err
 	}
-
-	return h.sendConnectedReply(CIPService_MultipleService, seq, connection.TO, response...)
+	return []byte{byte(typ), 0}, data.Bytes(), nil
 }
 
-// connectedRead handles both CIPService_Read (0x4C) and CIPService_FragRead
-// (0x52). Callers MUST pass the request service so reply and error frames
-// echo the matching response code (0xCC for Read, 0xD2 for FragRead) — some
-// CIP clients (pylogix on older firmware paths) tolerate a mismatched code,
-// but Logix MSG instructions and stricter SCADA stacks reject it.
-func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) error {
-	items[0].Reset()
-	var connID uint32
-	err := items[0].DeSerialize(&connID)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("couldn't get connection ID from item 0: %w / %v", err, err2)
+// connectedMulti carries out the services of a multiple service packet in order. Each of them gets a reply of its
+// own with its own status.
+func (h *serverTCPHandler) connectedMulti(connection *serverConnection, item *CIPItem) error {
+	class, instance, status := readClassInstancePath(item)
+	if status != CIPStatus_OK {
+		return h.sendUnitDataErrorReply(CIPService_MultipleService, status)
 	}
-	connection, err := h.server.ConnMgr.GetByOT(connID)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_ConnectionLost, 0)
-		return fmt.Errorf("couldn't get connection with ID %v: %w /%v", connID, err, err2)
+	if class != CipObject_MessageRouter || instance != 1 {
+		return h.sendUnitDataErrorReply(CIPService_MultipleService, CIPStatus_PathDestinationUnknown)
 	}
-
-	items[1].Reset()
-	item := items[1]
-
-	var seq uint16
-	err = item.DeSerialize(&seq)
+	p, err := h.server.Router.Resolve(connection.Path)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting sequence ID: %w / %v", err, err2)
+		h.server.Logger.Warn("problem finding tag provider", "path", connection.Path, "error", err)
+		return h.sendUnitDataErrorReply(CIPService_MultipleService, CIPStatus_PathDestinationUnknown)
 	}
-	var svc CIPService
-	err = item.DeSerialize(&svc)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting service: %w / %v", err, err2)
+
+	// the offsets count from the number of services.
+	data := item.Rest()
+	if len(data) < 2 {
+		return h.sendUnitDataErrorReply(CIPService_MultipleService, CIPStatus_NotEnoughData)
 	}
-	var pathlen byte
-	err = item.DeSerialize(&pathlen)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting path len: %w / %v", err, err2)
+	qty := int(binary.LittleEndian.Uint16(data))
+	tableEnd := (qty + 1) * 2
+	if len(data) < tableEnd {
+		return h.sendUnitDataErrorReply(CIPService_MultipleService, CIPStatus_NotEnoughData)
 	}
-	tag, err := getTagFromSizedPath(&item, pathlen)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("couldn't parse path: %w / %v", err, err2)
+	offsets := make([]int, qty+1)
+	offsets[qty] = len(data)
+	for i := 0; i < qty; i++ {
+		offsets[i] = int(binary.LittleEndian.Uint16(data[2+2*i:]))
 	}
-	var qty uint16
-	err = item.DeSerialize(&qty)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting write qty: %w / %v", err, err2)
+	for i := 0; i < qty; i++ {
+		if offsets[i] < tableEnd || offsets[i] >= offsets[i+1] || offsets[i+1] > len(data) {
+			return h.sendUnitDataErrorReply(CIPService_MultipleService, CIPStatus_InvalidParameter)
+		}
 	}
 
-	path := connection.Path
+	overall := CIPStatus_OK
+	table := make([]byte, tableEnd)
+	binary.LittleEndian.PutUint16(table, uint16(qty))
+	var replies []byte
+	for i := 0; i < qty; i++ {
+		binary.LittleEndian.PutUint16(table[2+2*i:], uint16(tableEnd+len(replies)))
+		request := CIPItem{Data: data[offsets[i]:offsets[i+1]]}
+		svc := CIPService(request.Data[0])
+		request.Pos = 1
 
-	provider, err := h.server.Router.Resolve(path)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_PathDestinationUnknown, 0)
-		return fmt.Errorf("problem finding tag provider for %v. %w: %v", path, err, err2)
+		var result []byte
+		status := CIPStatus_ServiceNotSupported
+		switch svc {
+		case CIPService_FragRead, CIPService_Read:
+			result, status = h.readTagService(svc, &request, p)
+		case CIPService_Write, CIPService_FragWrite:
+			status = h.writeTagService(svc, &request, p)
+		}
+		if status != CIPStatus_OK {
+			overall = CIPStatus_EmbeddedServiceError
+		}
+		replies = append(replies, byte(svc.AsResponse()), 0, byte(status), 0)
+		replies = append(replies, result...)
 	}
-	p := provider
-	result, err := p.TagRead(tag, int16(qty))
+
+	return h.sendUnitDataReplyWithStatus(CIPService_MultipleService, overall, append(table, replies...))
+}
+
+// connectedRead handles both CIPService_Read (0x4C) and CIPService_FragRead
+// (0x52). Callers MUST pass the request service so reply and error frames
+// echo the matching response code (0xCC for Read, 0xD2 for FragRead) — some
+// CIP clients (pylogix on older firmware paths) tolerate a mismatched code,
+// but Logix MSG instructions and stricter SCADA stacks reject it.
+func (h *serverTCPHandler) connectedRead(reqSvc CIPService, connection *serverConnection, item *CIPItem) error {
+	p, err := h.server.Router.Resolve(connection.Path)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)
-		return fmt.Errorf("problem getting data from provider. %w / %v", err, err2)
+		h.server.Logger.Warn("problem finding tag provider", "path", connection.Path, "error", err)
+		return h.sendUnitDataErrorReply(reqSvc, CIPStatus_PathDestinationUnknown)
 	}
-	typ, _ := GoVarToCIPType(result)
-
-	if typ == CIPTypeSTRING {
-		// Single STRING — the common case for atomic tag reads.
-		if res_str, ok := result.(string); ok {
-			return h.sendConnectedReply(reqSvc, seq, connection.TO, cipStringPacker(res_str))
-		}
-		// STRING array — emit one cipStringPacker block per element, back
-		// to back. The L24ER MSG and pylogix both unpack the wire as N×90
-		// contiguous STRING slots when the request asks for multiple
-		// elements of a STRING tag. Without this branch, full-array reads
-		// of `strarr` failed with "Invalid Attribute" because the generic
-		// fallback below tried binary.Write on a Go `[]string`, which is
-		// not fixed-size and explodes inside the serializer.
-		if res_strs, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(res_strs))
-			for _, s := range res_strs {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendConnectedReply(reqSvc, seq, connection.TO, payloads...)
-		}
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidAttributeValue, 0)
-		return fmt.Errorf("was expecting a string but didn't get one: %w", err2)
-	} else {
-		return h.sendConnectedReply(reqSvc, seq, connection.TO, typ, byte(0), result)
+	result, status := h.readTagService(reqSvc, item, p)
+	if status != CIPStatus_OK {
+		return h.sendUnitDataErrorReply(reqSvc, status)
 	}
+	return h.sendUnitDataReplyWithPayload(reqSvc, result)
 }
 
 // cipStringStructCRC is the StructTypeCRC the Logix STRING UDT serializes
@@ -409,7 +274,9 @@ func (c cipStringPacker) Bytes() []byte {
 //	[qty: uint16]
 //	for each element:
 //	    atomic: typ.readValue
-//	    STRING struct (CRC 0x0FCE): [LEN: uint32] [DATA: 82 bytes]
+//	    STRING struct (CRC 0x0FCE): [LEN: uint32] [DATA: 82 bytes] [padding: 2 bytes]
+//
+// The padding of STRINGs is missing in the requests of some clients.
 //
 // For atomic writes type_info_length_bytes is 0 — the field doubles as the
 // high byte of the uint16 DataType the gologix client serializes — so the
@@ -421,13 +288,20 @@ func (c cipStringPacker) Bytes() []byte {
 // Both cipConnectedWrite and unconnectedServiceWrite go through this helper
 // so the wire format stays in one place.
 func parseWriteValues(item *CIPItem) ([]any, error) {
+	results, _, err := parseWriteRequest(CIPService_Write, item)
+	return results, err
+}
+
+// parseWriteRequest decodes what parseWriteValues does, and for a fragmented write the offset after the quantity too.
+// If there is an error the status is the one to report.
+func parseWriteRequest(svc CIPService, item *CIPItem) ([]any, CIPStatus, error) {
 	var typ CIPType
 	if err := item.DeSerialize(&typ); err != nil {
-		return nil, fmt.Errorf("error reading write type: %w", err)
+		return nil, CIPStatus_NotEnoughData, fmt.Errorf("error reading write type: %w", err)
 	}
 	var typeInfoLen byte
 	if err := item.DeSerialize(&typeInfoLen); err != nil {
-		return nil, fmt.Errorf("error reading type-info length: %w", err)
+		return nil, CIPStatus_NotEnoughData, fmt.Errorf("error reading type-info length: %w", err)
 	}
 
 	// Read whatever type info bytes the segment declares before qty.
@@ -435,7 +309,7 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 	if typeInfoLen > 0 {
 		typeInfo := make([]byte, int(typeInfoLen))
 		if err := item.DeSerialize(&typeInfo); err != nil {
-			return nil, fmt.Errorf("error reading %d bytes of type info: %w", len(typeInfo), err)
+			return nil, CIPStatus_NotEnoughData, fmt.Errorf("error reading %d bytes of type info: %w", len(typeInfo), err)
 		}
 		if typ == CIPTypeStruct && len(typeInfo) >= 2 {
 			structCRC = binary.LittleEndian.Uint16(typeInfo[0:2])
@@ -444,151 +318,122 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 
 	var qty uint16
 	if err := item.DeSerialize(&qty); err != nil {
-		return nil, fmt.Errorf("error reading element count: %w", err)
+		return nil, CIPStatus_NotEnoughData, fmt.Errorf("error reading element count: %w", err)
+	}
+
+	if qty == 0 {
+		return nil, CIPStatus_InvalidParameter, errors.New("nothing to write")
+	}
+	if svc == CIPService_FragWrite {
+		offset, err := item.Uint32()
+		if err != nil {
+			return nil, CIPStatus_NotEnoughData, fmt.Errorf("error reading offset: %w", err)
+		}
+		if offset != 0 {
+			return nil, CIPStatus_InvalidParameter, fmt.Errorf("writing at offset %d is not supported", offset)
+		}
 	}
 
 	results := make([]any, qty)
 	if typ == CIPTypeStruct {
 		if structCRC != cipStringStructCRC {
-			return nil, fmt.Errorf("server only supports STRING struct writes (CRC 0x%04X); got CRC 0x%04X", cipStringStructCRC, structCRC)
+			return nil, CIPStatus_InvalidParameter, fmt.Errorf("server only supports STRING struct writes (CRC 0x%04X); got CRC 0x%04X", cipStringStructCRC, structCRC)
+		}
+		pad := cipStringStructPad
+		if len(item.Rest()) < int(qty)*cipStringTagDataLen {
+			pad = 0
 		}
 		for i := 0; i < int(qty); i++ {
 			var slen uint32
 			if err := item.DeSerialize(&slen); err != nil {
-				return nil, fmt.Errorf("error reading STRING LEN for element %d: %w", i, err)
+				return nil, CIPStatus_NotEnoughData, fmt.Errorf("error reading STRING LEN for element %d: %w", i, err)
 			}
-			data := make([]byte, cipStringDataLen)
+			data := make([]byte, cipStringDataLen+pad)
 			if err := item.DeSerialize(&data); err != nil {
-				return nil, fmt.Errorf("error reading STRING DATA for element %d: %w", i, err)
+				return nil, CIPStatus_NotEnoughData, fmt.Errorf("error reading STRING DATA for element %d: %w", i, err)
 			}
 			if slen > cipStringDataLen {
 				slen = cipStringDataLen
 			}
 			results[i] = string(data[:slen])
 		}
-		return results, nil
+		return results, CIPStatus_OK, nil
 	}
 
 	for i := 0; i < int(qty); i++ {
 		val, err := typ.readValue(item)
 		if err != nil {
-			return nil, fmt.Errorf("error reading element %d: %w", i, err)
+			return nil, CIPStatus_NotEnoughData, fmt.Errorf("error reading element %d: %w", i, err)
 		}
 		results[i] = val
 	}
-	return results, nil
+	return results, CIPStatus_OK, nil
 }
 
-func (h *serverTCPHandler) sendConnectedReply(s CIPService, seq uint16, connID uint32, payload ...any) error {
-	items := make([]CIPItem, 2)
-	items[0] = newItem(cipItem_ConnectionAddress, connID)
-	items[1] = newItem(cipItem_ConnectedData, seq)
-	resp := msgUnconnWriteResultHeader{
-		Service: s.AsResponse(),
-	}
-	err := items[1].Serialize(resp)
-	if err != nil {
-		return fmt.Errorf("couldn't serialize error response: %w", err)
-	}
-	for i := range payload {
-		err = items[1].Serialize(payload[i])
-		if err != nil {
-			return fmt.Errorf("problem serializing unconnected data payload. %w", err)
-		}
+// connectedGetAttr handles CIP Get_Attribute_Single on an established connection.  The reply is the bare attribute.
+func (h *serverTCPHandler) connectedGetAttr(item *CIPItem) error {
+	const svc = CIPService_GetAttributeSingle
+	cls, inst, attr, status := readAttributePath(item)
+	if status != CIPStatus_OK {
+		return h.sendUnitDataErrorReply(svc, status)
 	}
-	itemdata, err := serializeItems(items)
-	if err != nil {
-		return fmt.Errorf("could not serialize items: %w", err)
+	if cls != CipObject_Identity || inst != 1 {
+		h.server.Logger.Warn("connected getattrsingle: only support class 1 instance 1 so far", "class", cls, "instance", inst)
+		return h.sendUnitDataErrorReply(svc, CIPStatus_PathDestinationUnknown)
 	}
-	return h.send(cipCommandSendUnitData, itemdata)
-}
-
-func (h *serverTCPHandler) sendConnectedError(s CIPService, seq uint16, connID uint32, status CIPStatus, statusExtended byte) error {
-	items := make([]CIPItem, 2)
-	items[0] = newItem(cipItem_ConnectionAddress, connID)
-	items[1] = newItem(cipItem_ConnectedData, seq)
-	resp := msgUnconnWriteResultHeader{
-		Service:        s.AsResponse(),
-		Status:         status,
-		StatusExtended: statusExtended,
-	}
-	err := items[1].Serialize(resp)
-	if err != nil {
-		return fmt.Errorf("couldn't serialize error response: %w", err)
+	result, ok := h.server.Attributes[attr]
+	if !ok {
+		return h.sendUnitDataErrorReply(svc, CIPStatus_AttributeNotSupported)
 	}
-	itemdata, err := serializeItems(items)
+	value := CIPItem{}
+	err := value.Serialize(result)
 	if err != nil {
-		return fmt.Errorf("could not serialize items: %w", err)
+		h.server.Logger.Warn("connected getattrsingle: problem serializing attribute", "attr", attr, "error", err)
+		return h.sendUnitDataErrorReply(svc, CIPStatus_NoStoredAttributeData)
 	}
-	return h.send(cipCommandSendUnitData, itemdata)
+	return h.sendUnitDataReplyWithPayload(svc, value.Data)
 }
 
-func (h *serverTCPHandler) connectedGetAttr(items []CIPItem) error {
-	items[0].Reset()
-	var connID uint32
-	err := items[0].DeSerialize(&connID)
-	if err != nil {
-		return fmt.Errorf("couldn't get connection ID from item 0: %w", err)
+// readClassInstancePath reads a path of nothing but a class and an instance, and the size before it, from a request.
+func readClassInstancePath(item *CIPItem) (CIPClass, CIPInstance, CIPStatus) {
+	path, status := readSizedPath(item)
+	if status != CIPStatus_OK {
+		return 0, 0, status
 	}
-	connection, err := h.server.ConnMgr.GetByOT(connID)
-	if err != nil {
-		return fmt.Errorf("couldn't get connection with ID %v: %w", connID, err)
+	class, instance, err := parseClassInstancePath(path)
+	if err != nil || path.Len() > 0 {
+		return 0, 0, CIPStatus_PathSegmentError
 	}
-
-	items[1].Reset()
-	return h.getAttrSingle(connection, items[1])
-
+	return class, instance, CIPStatus_OK
 }
 
-func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPItem) error {
-
-	var seq uint16
-	err := item.DeSerialize(&seq)
-	if err != nil {
-		return fmt.Errorf("error getting sequence ID: %w", err)
+// readAttributePath is readClassInstancePath for a path that goes on to an attribute.
+func readAttributePath(item *CIPItem) (CIPClass, CIPInstance, CIPAttribute, CIPStatus) {
+	path, status := readSizedPath(item)
+	if status != CIPStatus_OK {
+		return 0, 0, 0, status
 	}
-
-	_, err = item.Byte()
+	class, instance, err := parseClassInstancePath(path)
 	if err != nil {
-		return fmt.Errorf("couldn't read cmd type: %w", err)
+		return 0, 0, 0, CIPStatus_PathSegmentError
 	}
-
-	path_size, err := item.Byte()
-	if err != nil {
-		return fmt.Errorf("couldn't read data len: %w", err)
-	}
-
-	if path_size != 3 {
-		return fmt.Errorf("currently only support getattrsingle path size of 3. got %d", path_size)
-	}
-
-	var cls CIPClass
-	err = cls.Read(&item)
-	if err != nil {
-		return fmt.Errorf("could not read class: %w", err)
+	var attribute CIPAttribute
+	err = attribute.Read(path)
+	if err != nil || path.Len() > 0 {
+		return 0, 0, 0, CIPStatus_PathSegmentError
 	}
+	return class, instance, attribute, CIPStatus_OK
+}
 
-	var inst CIPInstance
-	err = inst.Read(&item)
+func readSizedPath(item *CIPItem) (*bytes.Reader, CIPStatus) {
+	words, err := item.Byte()
 	if err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
+		return nil, CIPStatus_NotEnoughData
 	}
-
-	if cls != 1 || inst != 1 {
-		return fmt.Errorf("only support class 1 instance 1 so far. got %d:%d", cls, inst)
-	}
-
-	var attr CIPAttribute
-	err = attr.Read(&item)
+	path := make([]byte, int(words)*2)
+	err = item.DeSerialize(&path)
 	if err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
+		return nil, CIPStatus_PathSegmentError
 	}
-
-	result, ok := h.server.Attributes[attr]
-	if !ok {
-		return fmt.Errorf("bad attribute %d", attr)
-	}
-
-	return h.sendConnectedReply(CIPService_FragRead, seq, connection.TO, result)
-
+	return bytes.NewReader(path), CIPStatus_OK
 }
diff --git a/server_connections.go b/server_connections.go
index 37cf22f..6b6e292 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -3,14 +3,20 @@ package gologix
 import (
 	"fmt"
 	"log/slog"
+	"math/rand"
 	"sync"
 	"time"
 )
 
 type serverConnection struct {
-	ID   uint16
-	OT   uint32
-	TO   uint32
+	ID uint16
+	OT uint32
+	TO uint32
+
+	// together with the ID these identify the connection to its originator.
+	VendorID               uint16
+	OriginatorSerialNumber uint32
+
 	RPI  time.Duration
 	Path []byte
 	Open bool
@@ -32,6 +38,37 @@ func (cm *serverConnectionManager) Add(conn *serverConnection) {
 	defer cm.Lock.Unlock()
 	cm.Connections = append(cm.Connections, conn)
 }
+
+// Open adds a connection after giving it connection IDs it can be found by: the originator->target ID is changed if it
+// is 0 or belongs to another connection, and the target->originator ID if it is 0.
+func (cm *serverConnectionManager) Open(conn *serverConnection) {
+	cm.Lock.Lock()
+	for conn.OT == 0 || cm.hasOT(conn.OT) {
+		conn.OT = rand.Uint32()
+	}
+	for conn.TO == 0 {
+		conn.TO = rand.Uint32()
+	}
+	cm.Connections = append(cm.Connections, conn)
+	cm.Lock.Unlock()
+	cm.Logger.Info("New Managed Connection.", "OT", conn.OT, "TO", conn.TO)
+}
+
+// the lock must be held.
+func (cm *serverConnectionManager) hasOT(OT uint32) bool {
+	for _, conn := range cm.Connections {
+		if conn.OT == OT {
+			return true
+		}
+	}
+	return false
+}
+
+func (cm *serverConnectionManager) isOpen(conn *serverConnection) bool {
+	cm.Lock.RLock()
+	defer cm.Lock.RUnlock()
+	return conn.Open
+}
 func (cm *serverConnectionManager) GetByID(ID uint16) (*serverConnection, error) {
 	cm.Lock.RLock()
 	defer cm.Lock.RUnlock()
@@ -113,3 +150,19 @@ func (cm *serverConnectionManager) CloseByTO(TO uint32) error {
 	}
 	return fmt.Errorf("couldn't find connection %v by TO", TO)
 }
+
+// CloseByOriginator closes the connection an originator opened with a serial number.  Serial numbers of different
+// originators can be the same.
+func (cm *serverConnectionManager) CloseByOriginator(ID uint16, VendorID uint16, OriginatorSerialNumber uint32) error {
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	for i, conn := range cm.Connections {
+		if conn.ID == ID && conn.VendorID == VendorID && conn.OriginatorSerialNumber == OriginatorSerialNumber {
+			conn.Open = false
+			cm.Connections[i] = cm.Connections[len(cm.Connections)-1]
+			cm.Connections = cm.Connections[:len(cm.Connections)-1]
+			return nil
+		}
+	}
+	return fmt.Errorf("couldn't find connection %v of originator %v", ID, OriginatorSerialNumber)
+}
diff --git a/server_unconnected.go b/server_unconnected.go
index 017d3f4..e47ddad 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -65,60 +65,8 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		}
 
 	case 0x52:
-		// unconnected send?
-		var pathsize byte
-		err = item.DeSerialize(&pathsize)
-		if err != nil {
-			return fmt.Errorf("error getting path size 305. %w", err)
-		}
-		path := make([]byte, pathsize*2)
-		err = item.DeSerialize(&path)
-		if err != nil {
-			return fmt.Errorf("error getting path. %w", err)
-		}
-		var timeout uint16
-		err = item.DeSerialize(&timeout)
-		if err != nil {
-			return fmt.Errorf("error getting timeout. %w", err)
-		}
-		var embedded_size uint16
-		err = item.DeSerialize(&embedded_size)
-		if err != nil {
-			return fmt.Errorf("error getting embedded size. %w", err)
-		}
-		var emService CIPService
-		err = item.DeSerialize(&emService)
-		if err != nil {
-			return fmt.Errorf("error getting embedded service. %w", err)
-		}
-		switch emService {
-		case CIPService_Write:
-			return h.unconnectedServiceWrite(item)
-		case CIPService_Read:
-			return h.unconnectedServiceRead(item)
-		case CIPService_GetAttributeSingle:
-			return h.unconnectedServiceGetAttrSingle(item)
-		case CIPService_SetAttributeSingle:
-			// Reached via FactoryTalk View's CIP Object write path: the
-			// request is wrapped in UnconnectedSend (0x52) instead of going
-			// straight as a direct UCMM SetAttributeSingle. Without this
-			// case the wrapped write fell through to the default branch and
-			// FT View saw "Service not supported", which surfaced in its
-			// Diagnostics List as "Problem writing value ... to item ...".
-			return h.unconnectedServiceSetAttrSingle(item)
-		case CIPService_GetAttributeAll:
-			return h.unconnectedGetAttributeAll(item)
-		default:
-			// Reply with an explicit ServiceNotSupported CIP error so the
-			// originator knows the device is alive but the service isn't
-			// implemented. Returning a Go error here used to bubble up to
-			// the connection loop and silently drop the reply, which made
-			// FactoryTalk Linx (and any other strict client) interpret the
-			// device as dead and tear down the shortcut bind. See upstream
-			// issue danomagnum/gologix#13.
-			h.server.Logger.Warn("unsupported embedded service in UnconnectedSend", "service", emService)
-			return h.sendUnconnectedErrorReply(emService, CIPStatus_ServiceNotSupported)
-		}
+		// unconnected send
+		return h.unconnectedSend(item)
 
 	default:
 		// Top-level service code that we don't recognize — same rule as the
@@ -131,6 +79,74 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 	return nil
 }
 
+// unconnectedSend handles the request that is embedded in an Unconnected_Send. What is left of the item is
+//
+//	[path size u8] [path of the connection manager] [priority and timeout u16]
+//	[embedded size u16] [embedded request] [a byte of padding if the size is odd]
+//	[route size u8] [reserved u8] [route]
+func (h *serverTCPHandler) unconnectedSend(item CIPItem) error {
+	const svc CIPService = 0x52
+	class, instance, status := readClassInstancePath(&item)
+	if status != CIPStatus_OK {
+		return h.sendUnconnectedErrorReply(svc, status)
+	}
+	if class != CipObject_ConnectionManager || instance != 1 {
+		return h.sendUnconnectedErrorReply(svc, CIPStatus_PathDestinationUnknown)
+	}
+	if _, err := item.Uint16(); err != nil {
+		return h.sendUnconnectedErrorReply(svc, CIPStatus_NotEnoughData)
+	}
+	size, err := item.Uint16()
+	if err != nil {
+		return h.sendUnconnectedErrorReply(svc, CIPStatus_NotEnoughData)
+	}
+	rest := item.Rest()
+	if size == 0 || len(rest) < int(size) {
+		return h.sendUnconnectedErrorReply(svc, CIPStatus_NotEnoughData)
+	}
+	embedded := CIPItem{Data: rest[:size], Pos: 1}
+	emService := CIPService(rest[0])
+
+	// not every service needs a route, so it is only missed by those that do.
+	var route []byte
+	rest = rest[size:]
+	if size%2 == 1 && len(rest) > 0 {
+		rest = rest[1:]
+	}
+	if len(rest) >= 2 && len(rest) >= 2+2*int(rest[0]) {
+		route = rest[2 : 2+2*int(rest[0])]
+	}
+
+	switch emService {
+	case CIPService_Write:
+		return h.unconnectedServiceWrite(embedded, route)
+	case CIPService_Read:
+		return h.unconnectedServiceRead(embedded, route)
+	case CIPService_GetAttributeSingle:
+		return h.unconnectedServiceGetAttrSingle(embedded)
+	case CIPService_SetAttributeSingle:
+		// Reached via FactoryTalk View's CIP Object write path: the
+		// request is wrapped in UnconnectedSend (0x52) instead of going
+		// straight as a direct UCMM SetAttributeSingle. Without this
+		// case the wrapped write fell through to the default branch and
+		// FT View saw "Service not supported", which surfaced in its
+		// Diagnostics List as "Problem writing value ... to item ...".
+		return h.unconnectedServiceSetAttrSingle(embedded)
+	case CIPService_GetAttributeAll:
+		return h.unconnectedGetAttributeAll(embedded)
+	default:
+		// Reply with an explicit ServiceNotSupported CIP error so the
+		// originator knows the device is alive but the service isn't
+		// implemented. Returning a Go error here used to bubble up to
+		// the connection loop and silently drop the reply, which made
+		// FactoryTalk Linx (and any other strict client) interpret the
+		// device as dead and tear down the shortcut bind. See upstream
+		// issue danomagnum/gologix#13.
+		h.server.Logger.Warn("unsupported embedded service in UnconnectedSend", "service", emService)
+		return h.sendUnconnectedErrorReply(emService, CIPStatus_ServiceNotSupported)
+	}
+}
+
 // unconnectedGetAttributeAll handles CIP Get_Attributes_All (service 0x01).
 // External CIP clients (FactoryTalk Linx shortcut bind, pycomm3
 // LogixDriver.open(), RSLogix MSG path browse) probe Identity Object
@@ -139,21 +155,12 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 // service byte; the remaining wire layout is `pathSize:byte` followed by
 // `pathSize*2` bytes of EPATH segments.
 func (h *serverTCPHandler) unconnectedGetAttributeAll(item CIPItem) error {
-	var pathSize byte
-	if err := item.DeSerialize(&pathSize); err != nil {
-		return fmt.Errorf("get_attributes_all: read path size: %w", err)
-	}
-	pathBytes := make([]byte, int(pathSize)*2)
-	if err := item.DeSerialize(&pathBytes); err != nil {
-		return fmt.Errorf("get_attributes_all: read path: %w", err)
-	}
-
-	class, instance, err := parseClassInstancePath(bytes.NewBuffer(pathBytes))
-	if err != nil {
+	class, instance, status := readClassInstancePath(&item)
+	if status != CIPStatus_OK {
 		// The path is malformed (or uses segment types we don't decode).
 		// Treat it as a path error rather than a silent drop.
-		h.server.Logger.Warn("get_attributes_all: malformed path", "bytes", pathBytes)
-		return h.sendUnconnectedErrorReply(CIPService_GetAttributeAll, CIPStatus_PathSegmentError)
+		h.server.Logger.Warn("get_attributes_all: malformed path", "status", status)
+		return h.sendUnconnectedErrorReply(CIPService_GetAttributeAll, status)
 	}
 
 	switch class {
@@ -163,7 +170,8 @@ func (h *serverTCPHandler) unconnectedGetAttributeAll(item CIPItem) error {
 		}
 		payload, err := buildIdentityGetAttributesAllResponse(h.server.Attributes)
 		if err != nil {
-			return fmt.Errorf("get_attributes_all: build identity response: %w", err)
+			h.server.Logger.Warn("get_attributes_all: build identity response", "error", err)
+			return h.sendUnconnectedErrorReply(CIPService_GetAttributeAll, CIPStatus_NoStoredAttributeData)
 		}
 		return h.sendUnconnectedRRDataReply(CIPService_GetAttributeAll, payload)
 
@@ -179,7 +187,8 @@ func (h *serverTCPHandler) unconnectedGetAttributeAll(item CIPItem) error {
 		}
 		payload, err := buildProgramObjectGetAttributesAllResponse(h.server.Attributes)
 		if err != nil {
-			return fmt.Errorf("get_attributes_all: build program response: %w", err)
+			h.server.Logger.Warn("get_attributes_all: build program response", "error", err)
+			return h.sendUnconnectedErrorReply(CIPService_GetAttributeAll, CIPStatus_NoStoredAttributeData)
 		}
 		return h.sendUnconnectedRRDataReply(CIPService_GetAttributeAll, payload)
 
@@ -333,51 +342,17 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 	return buf.Bytes(), nil
 }
 
-func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
-	var tag_words byte
-	err := item.DeSerialize(&tag_words)
-	if err != nil {
-		return fmt.Errorf("error getting tag path size. %w", err)
-	}
-	tag, err := getTagFromSizedPath(&item, tag_words)
-	if err != nil {
-		return fmt.Errorf("couldn't parse path. %w", err)
-	}
-	results, err := parseWriteValues(&item)
-	if err != nil {
-		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
-	}
-	qty := uint16(len(results))
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
-	if err != nil {
-		return fmt.Errorf("couldn't get path size 374. %w", err)
-	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
-	if err != nil {
-		return fmt.Errorf("couldn't get path. %w", err)
-	}
-
-	provider, err := h.server.Router.Resolve(path)
+func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, route []byte) error {
+	p, err := h.server.Router.Resolve(route)
 	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
+		h.server.Logger.Warn("problem finding tag provider", "path", route, "error", err)
+		return h.sendUnconnectedErrorReply(CIPService_Write, CIPStatus_PathDestinationUnknown)
 	}
-	p := provider
-	if qty > 1 {
-		err = p.TagWrite(tag, results)
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
-	} else {
-		err = p.TagWrite(tag, results[0])
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
+	status := h.writeTagService(CIPService_Write, &item, p)
+	if status != CIPStatus_OK {
+		return h.sendUnconnectedErrorReply(CIPService_Write, status)
 	}
-
 	return h.sendUnconnectedRRDataReply(CIPService_Write)
-
 }
 
 func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
@@ -387,31 +362,11 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 	// same shape in both the direct UCMM case (where the dispatcher just
 	// consumed the service byte) and the embedded-in-UnconnectedSend case
 	// (where the wrapper's outer fields were already drained before reaching
-	// here). The previous `item.Uint16()` read silently consumed an extra
-	// byte and only happened to match `!= 3` because nothing else was read
-	// from the item after `attr.Read`; the moment FactoryTalk Linx started
-	// probing real Identity attributes (0x15, 0x16, ...) it tripped the
-	// "Path segment error" branch instead of looking up the attribute.
-	pathSize, err := item.Byte()
-	if err != nil {
-		return fmt.Errorf("couldn't read path size: %w", err)
-	}
-	if pathSize != 3 {
-		h.server.Logger.Debug("getattrsingle: unsupported path size", "size", pathSize)
-		return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathSegmentError)
-	}
-
-	var cls CIPClass
-	if err := cls.Read(&item); err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-	var inst CIPInstance
-	if err := inst.Read(&item); err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
-	}
-	var attr CIPAttribute
-	if err := attr.Read(&item); err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
+	// here).
+	cls, inst, attr, status := readAttributePath(&item)
+	if status != CIPStatus_OK {
+		h.server.Logger.Debug("getattrsingle: malformed path", "status", status)
+		return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, status)
 	}
 
 	// Custom class 0xC8: per-tag attribute container — see
@@ -421,7 +376,7 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 	// (`CIA:C8:<instance>:1`) without going through the Rockwell-only
 	// Service 0x4B/0x64 tag-browsing extension.
 	if cls == 0xC8 {
-		tagName, found := h.resolveSymbolicTagFromCustomClass(uint16(inst))
+		tagName, found := h.resolveSymbolicTagFromCustomClass(inst)
 		if !found {
 			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathDestinationUnknown)
 		}
@@ -436,13 +391,12 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 		if err != nil {
 			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_ObjectDoesNotExist)
 		}
-		typ, _ := GoVarToCIPType(val)
-		if typ == CIPTypeSTRING {
-			if s, ok := val.(string); ok {
-				return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, cipStringPacker(s))
-			}
+		typ, data, err := tagValueBytes(val)
+		if err != nil {
+			h.server.Logger.Warn("getattrsingle: problem serializing tag", "tag", tagName, "error", err)
+			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_InvalidAttributeValue)
 		}
-		return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, typ, byte(0), val)
+		return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, typ, data)
 	}
 
 	// Class 0x01 Identity is the only standard class with attribute data
@@ -484,24 +438,9 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 // considered read-only here. SCADA clients writing back to symbolic tags
 // via CIA paths land here.
 func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
-	pathSize, err := item.Byte()
-	if err != nil {
-		return fmt.Errorf("couldn't read path size: %w", err)
-	}
-	if pathSize != 3 {
-		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathSegmentError)
-	}
-	var cls CIPClass
-	if err := cls.Read(&item); err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-	var inst CIPInstance
-	if err := inst.Read(&item); err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
-	}
-	var attr CIPAttribute
-	if err := attr.Read(&item); err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
+	cls, inst, attr, status := readAttributePath(&item)
+	if status != CIPStatus_OK {
+		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, status)
 	}
 
 	if cls != 0xC8 {
@@ -510,7 +449,7 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
 	if attr != 1 {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_AttributeNotSupported)
 	}
-	tagName, found := h.resolveSymbolicTagFromCustomClass(uint16(inst))
+	tagName, found := h.resolveSymbolicTagFromCustomClass(inst)
 	if !found {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathDestinationUnknown)
 	}
@@ -521,18 +460,19 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
 	// <padding[2]>`) for STRING. This is the same wire format the gologix
 	// client itself emits for writes, so existing tests cover most of the
 	// parsing edge cases via parseWriteValues.
-	values, err := parseWriteValues(&item)
+	values, status, err := parseWriteRequest(CIPService_SetAttributeSingle, &item)
 	if err != nil {
-		return fmt.Errorf("set_attr_single: parse value: %w", err)
-	}
-	if len(values) == 0 {
-		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_NotEnoughData)
+		h.server.Logger.Warn("set_attr_single: parse value", "tag", tagName, "error", err)
+		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, status)
 	}
 
 	provider, err := h.server.Router.Resolve(defaultLocalPath)
 	if err != nil {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathDestinationUnknown)
 	}
+	if len(values) > 1 {
+		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_TooMuchData)
+	}
 	value := values[0]
 	if err := provider.TagWrite(tagName, value); err != nil {
 		h.server.Logger.Warn("set_attr_single: tag write failed", "tag", tagName, "err", err)
@@ -557,7 +497,7 @@ var defaultLocalPath = []byte{1, 0}
 // Returns ok=false if the provider doesn't implement TagLister (no
 // browsable tag set), if the instance is out of range, or if the index
 // arithmetic underflows.
-func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (string, bool) {
+func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance CIPInstance) (string, bool) {
 	provider, err := h.server.Router.Resolve(defaultLocalPath)
 	if err != nil {
 		return "", false
@@ -568,72 +508,23 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 	}
 	tags := lister.TagList()
 	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
-	if instance == 0 || int(instance) > len(tags) {
+	if instance == 0 || uint64(instance) > uint64(len(tags)) {
 		return "", false
 	}
 	return tags[instance-1].Name, true
 }
 
-func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
-	var tag_words byte
-	err := item.DeSerialize(&tag_words)
-	if err != nil {
-		return fmt.Errorf("error getting tag path size. %w", err)
-	}
-	tag, err := getTagFromSizedPath(&item, tag_words)
-	if err != nil {
-		return fmt.Errorf("couldn't parse path. %w", err)
-	}
-	var qty uint16
-	err = item.DeSerialize(&qty)
-	if err != nil {
-		return fmt.Errorf("error getting write qty. %w", err)
-	}
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
-	if err != nil {
-		return fmt.Errorf("couldn't get path size 374. %w", err)
-	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
-	if err != nil {
-		return fmt.Errorf("couldn't get path. %w", err)
-	}
-	h.server.Logger.Debug("read", "tag", tag, "path", path, "qty", qty)
-
-	provider, err := h.server.Router.Resolve(path)
+func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, route []byte) error {
+	p, err := h.server.Router.Resolve(route)
 	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
+		h.server.Logger.Warn("problem finding tag provider", "path", route, "error", err)
+		return h.sendUnconnectedErrorReply(CIPService_Read, CIPStatus_PathDestinationUnknown)
 	}
-	p := provider
-	result, err := p.TagRead(tag, int16(qty))
-	if err != nil {
-		return fmt.Errorf("problem getting data from provider. %w", err)
-	}
-	h.server.Logger.Debug("Read", "tag", tag, "path", path, "qty", qty, "results", result)
-	typ, _ := GoVarToCIPType(result)
-
-	// STRING values need the Logix STRING UDT wire format (type segment
-	// `0xA0 0x02 0x0FCE` + LEN + DATA[82] + alignment padding) instead of
-	// raw bytes, otherwise external clients (pylogix, FT Linx, MSG read on
-	// a real Logix controller) can't decode the reply. Mirror the special
-	// branch the connected read path already had, so a single STRING tag
-	// and a STRING element of an array both deserialize cleanly.
-	if typ == CIPTypeSTRING {
-		if s, ok := result.(string); ok {
-			return h.sendUnconnectedRRDataReply(CIPService_Read, cipStringPacker(s))
-		}
-		if ss, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(ss))
-			for _, s := range ss {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendUnconnectedRRDataReply(CIPService_Read, payloads...)
-		}
+	result, status := h.readTagService(CIPService_Read, &item, p)
+	if status != CIPStatus_OK {
+		return h.sendUnconnectedErrorReply(CIPService_Read, status)
 	}
-
-	return h.sendUnconnectedRRDataReply(CIPService_Read, typ, byte(0), result)
-
+	return h.sendUnconnectedRRDataReply(CIPService_Read, result)
 }
 
 // sendUnconnectedErrorReply emits a CIP error response carrying a non-zero
@@ -678,9 +569,14 @@ func (h *serverTCPHandler) sendUnconnectedRRDataReply(s CIPService, payload ...a
 	for i := range payload {
 		err = items[1].Serialize(payload[i])
 		if err != nil {
-			return fmt.Errorf("problem serializing unconnected data payload. %w", err)
+			h.server.Logger.Warn("problem serializing unconnected data payload", "error", err)
+			return h.sendUnconnectedErrorReply(s, CIPStatus_NoStoredAttributeData)
 		}
 	}
+	if len(items[1].Data) > serverMaxReplyData {
+		h.server.Logger.Warn("reply too large", "service", s, "size", len(items[1].Data))
+		return h.sendUnconnectedErrorReply(s, CIPStatus_ReplyDataTooLarge)
+	}
 	itemdata, err := serializeItems(items)
 	if err != nil {
 		return err
-- 
2.43.0


From 7a9e47478af706afe319a978277ad8bcb3d2c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 32/36] fix: share a client between goroutines without data
 races

A message's header was built and the session, connection ID and size were read
outside the client's mutex, the known tags were changed by the keepalive while
requests looked tags up, and a cancelled keepalive switched off its automatic
start on the next connection.
---
 client.go          |  1 +
 connect.go         | 37 ++++++++++++++++++++++++++++++-------
 datatable.go       |  5 ++---
 getattr.go         |  6 +++---
 ioi.go             |  2 +-
 listallprograms.go |  2 ++
 listalltags.go     | 29 +++++++++++++++++++++++++++--
 listmembers.go     |  4 ++++
 listsubtags.go     |  3 +--
 partialread.go     |  4 ++--
 read.go            | 10 +++++-----
 sendreceive.go     |  5 ++++-
 udt_write.go       |  6 +++---
 write.go           |  4 ++--
 14 files changed, 87 insertions(+), 31 deletions(-)

diff --git a/client.go b/client.go
index 5b9ae84..50e7c6a 100644
--- a/client.go
+++ b/client.go
@@ -82,6 +82,7 @@ type Client struct {
 	KnownTypes     map[string]UDTDescriptor
 	KnownTypesByID map[uint32]UDTDescriptor
 	KnownPrograms  map[string]*KnownProgram
+	known_lock     sync.Mutex // the keepalive may update the above while requests use them
 
 	// used for optimization.  v20 and before vs v21 and after have different
 	// tag reading functionality.
diff --git a/connect.go b/connect.go
index f9bd503..d30ff9d 100644
--- a/connect.go
+++ b/connect.go
@@ -100,7 +100,7 @@ func (client *Client) Connect() error {
 		}
 	}
 	if client.ConnectionSize == 0 {
-		client.ConnectionSize = connSizeLargeDefault
+		client.setConnectionSize(connSizeLargeDefault)
 	}
 
 	if client.Controller.Port == 0 {
@@ -155,7 +155,7 @@ func (client *Client) Connect() error {
 		err = client.forwardOpen(item)
 		if err != nil {
 			client.Logger.Warn("Large forward open failed. Not all devices support this.  Falling back to standard forward open", slog.Any("err", err))
-			client.ConnectionSize = connSizeStandardDefault
+			client.setConnectionSize(connSizeStandardDefault)
 		}
 	}
 	if client.ConnectionSize <= connSizeStandardMax {
@@ -198,8 +198,10 @@ func (client *Client) registerSession() error {
 	if header.Status != 0 {
 		return fmt.Errorf("session registration failed. status: %v", header.Status)
 	}
+	client.mutex.Lock()
 	client.SessionHandle = header.SessionHandle
-	client.Logger.Info("Session connected", slog.Any("sessionHandle", client.SessionHandle))
+	client.mutex.Unlock()
+	client.Logger.Info("Session connected", slog.Any("sessionHandle", header.SessionHandle))
 	return nil
 }
 
@@ -285,7 +287,6 @@ func (client *Client) KeepAlive() {
 			}
 
 		case <-cancel:
-			client.KeepAliveAutoStart = false
 			return
 		}
 	}
@@ -348,7 +349,7 @@ type cipForwardOpen[T uint16 | uint32] struct {
 func (client *Client) newForwardOpenLarge() (CIPItem, error) {
 	item := CIPItem{Header: cipItemHeader{ID: cipItem_UnconnectedData}}
 	if client.ConnectionSize == 0 {
-		client.ConnectionSize = connSizeLargeDefault
+		client.setConnectionSize(connSizeLargeDefault)
 	}
 	if client.ConnectionSize <= connSizeStandardMax {
 		client.Logger.Info(
@@ -437,7 +438,7 @@ type msgCIPRegister struct {
 
 func (client *Client) newForwardOpenStandard() (CIPItem, error) {
 	if client.ConnectionSize == 0 {
-		client.ConnectionSize = connSizeStandardDefault
+		client.setConnectionSize(connSizeStandardDefault)
 	}
 	if client.ConnectionSize > connSizeStandardMax {
 		client.Logger.Warn(
@@ -445,7 +446,7 @@ func (client *Client) newForwardOpenStandard() (CIPItem, error) {
 			slog.Any("oldConnectionSize", client.ConnectionSize),
 			slog.Any("newConnectionSize", connSizeStandardMax),
 		)
-		client.ConnectionSize = connSizeStandardMax
+		client.setConnectionSize(connSizeStandardMax)
 	}
 	item := CIPItem{Header: cipItemHeader{ID: cipItem_UnconnectedData}}
 
@@ -541,7 +542,9 @@ func (client *Client) forwardOpen(forwardOpenMsg CIPItem) error {
 		return fmt.Errorf("error deserializing forward open response content. %w", err)
 	}
 
+	client.mutex.Lock()
 	client.OTNetworkConnectionID = respContent.OtNetworkConnectionId
+	client.mutex.Unlock()
 
 	client.Logger.Info(
 		"successfully opened connection",
@@ -580,6 +583,26 @@ type msgEIPForwardOpen_Standard_Reply struct {
 	Reserved2              byte
 }
 
+// connectionID is the ID that requests on the current connection carry.
+func (client *Client) connectionID() uint32 {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	return client.OTNetworkConnectionID
+}
+
+// connectionSize is how long a message on the current connection can be.
+func (client *Client) connectionSize() uint16 {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	return client.ConnectionSize
+}
+
+func (client *Client) setConnectionSize(size uint16) {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	client.ConnectionSize = size
+}
+
 func (client *Client) checkConnection() error {
 	if !client.Connected() {
 		if client.AutoConnect {
diff --git a/datatable.go b/datatable.go
index c120a1f..eb71458 100644
--- a/datatable.go
+++ b/datatable.go
@@ -7,7 +7,6 @@ import (
 	"math"
 	"reflect"
 	"sort"
-	"strings"
 )
 
 // DataTableBufferTag tracks a single tag that has been added to a datatable buffer.
@@ -98,7 +97,7 @@ func dataTableTypeSize(t CIPType) (uint16, error) {
 // Falls back to dataTableTypeSize() if the tag is not in KnownTags or has no UDT.
 func (buf *DataTableBuffer) resolveTypeSize(tagName string, cipType CIPType) (uint16, error) {
 	if cipType == CIPTypeSTRING || cipType == CIPTypeStruct {
-		kt, ok := buf.client.KnownTags[strings.ToLower(tagName)]
+		kt, ok := buf.client.knownTag(tagName)
 		if ok && kt.UDT != nil && kt.UDT.Info.SizeBytes > 0 {
 			if kt.UDT.Info.SizeBytes > math.MaxUint16 {
 				return 0, fmt.Errorf("a value of %d bytes is too long for a datatable buffer", kt.UDT.Info.SizeBytes)
@@ -436,7 +435,7 @@ func (buf *DataTableBuffer) SyncTags() error {
 				continue
 			}
 			msgSize += 3 + len(tag.ioi)
-			if len(entries) == dataTableMaxBatch || (len(entries) > 0 && msgSize > int(buf.client.ConnectionSize)) {
+			if len(entries) == dataTableMaxBatch || (len(entries) > 0 && msgSize > int(buf.client.connectionSize())) {
 				break
 			}
 			entries = append(entries, addTagEntry{tag.DataTypeSize, tag.ioi, i})
diff --git a/getattr.go b/getattr.go
index 15b8141..bda2cb2 100644
--- a/getattr.go
+++ b/getattr.go
@@ -106,7 +106,7 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 	pl := class.Len() + instance.Len() + attr.Len()
 	pl = pl / 2
 
@@ -258,7 +258,7 @@ func (client *Client) GetControllerPropList() (msgGetControllerPropList, error)
 // struct as above with the proper types for the AttrX_Value instead of []byte and do an item.Serialize(&InstanceOfMyType)
 func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ...CIPAttribute) (*CIPItem, error) {
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	path, err := Serialize(class, instance)
 	if err != nil {
@@ -446,7 +446,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	readmsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
diff --git a/ioi.go b/ioi.go
index 8d73abc..6a8a3da 100644
--- a/ioi.go
+++ b/ioi.go
@@ -118,7 +118,7 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 	// on firmwares greater than 20, we can do some optimizations.
 	if client.firmware() > 20 {
-		tag_info, ok := client.KnownTags[tagpath]
+		tag_info, ok := client.knownTag(tagpath)
 		if ok {
 			// we'll assume the user knows what they're doing if they're dumping data into a struct.
 			/*
diff --git a/listallprograms.go b/listallprograms.go
index ba65749..273e0e0 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -55,7 +55,9 @@ func (client *Client) ListAllPrograms() error {
 		results[namestr] = &KnownProgram{ID: CIPInstance(hdr.InstanceID), Name: namestr}
 	}
 
+	client.known_lock.Lock()
 	client.KnownPrograms = results
+	client.known_lock.Unlock()
 
 	return nil
 }
diff --git a/listalltags.go b/listalltags.go
index e1cc249..ca4c83a 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"maps"
 	"math"
 	"strings"
 )
@@ -121,12 +122,17 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 			var cipErr CIPStatusError
 			if errors.As(err, &cipErr) {
 				fallbackProgramNames = true
+				client.known_lock.Lock()
 				client.KnownPrograms = make(map[string]*KnownProgram)
+				client.known_lock.Unlock()
 			} else {
 				return fmt.Errorf("problem listing programs: %w", err)
 			}
 		}
-		for _, p := range client.KnownPrograms {
+		client.known_lock.Lock()
+		programs := maps.Clone(client.KnownPrograms)
+		client.known_lock.Unlock()
+		for _, p := range programs {
 			_, err := client.ListSubTags(p, 1)
 			if err != nil {
 				return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
@@ -173,6 +179,21 @@ func (client *Client) readSymbolPage(path []byte) (*bytes.Buffer, bool, error) {
 	return bytes.NewBuffer(item.Rest()), false, nil
 }
 
+// addKnownTag adds a tag to the known ones by its lowercase name.
+func (client *Client) addKnownTag(kt KnownTag) {
+	client.known_lock.Lock()
+	defer client.known_lock.Unlock()
+	client.KnownTags[strings.ToLower(kt.Name)] = kt
+}
+
+// knownTag is the known tag of that name in any case.
+func (client *Client) knownTag(name string) (KnownTag, bool) {
+	client.known_lock.Lock()
+	defer client.known_lock.Unlock()
+	kt, ok := client.KnownTags[strings.ToLower(name)]
+	return kt, ok
+}
+
 // nextSymbol is the instance to continue from when more symbols follow the last one.
 func nextSymbol(start, last uint32) (uint32, error) {
 	if last < start || last == math.MaxUint32 {
@@ -261,7 +282,9 @@ func (client *Client) listTagPage(start_instance uint32, fallbackProgramNames bo
 					continue
 				}
 				p := &KnownProgram{Name: progName}
+				client.known_lock.Lock()
 				client.KnownPrograms[strings.ToLower(p.Name)] = p
+				client.known_lock.Unlock()
 				_, err := client.ListSubTags(p, 1)
 				if err != nil {
 					return 0, fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
@@ -289,11 +312,13 @@ func (client *Client) listTagPage(start_instance uint32, fallbackProgramNames bo
 			} else {
 				kt.UDT = &u
 				client.Logger.Debug("Successful member read for %s", "name", kt.Name)
+				client.known_lock.Lock()
 				client.KnownTypes[u.Name] = u
+				client.known_lock.Unlock()
 			}
 		}
 
-		client.KnownTags[strings.ToLower(string(tag_name))] = kt
+		client.addKnownTag(kt)
 
 	}
 
diff --git a/listmembers.go b/listmembers.go
index 92fd46d..929c77c 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -164,7 +164,9 @@ func (client *Client) readTemplate(str_instance uint32, size uint16) ([]byte, er
 func (client *Client) listMembers(str_instance uint32, parents []uint32) (UDTDescriptor, error) {
 	client.Logger.Debug("list members", "instance", str_instance)
 
+	client.known_lock.Lock()
 	d, ok := client.KnownTypesByID[str_instance]
+	client.known_lock.Unlock()
 	if ok {
 		return d, nil
 	}
@@ -236,7 +238,9 @@ func (client *Client) listMembers(str_instance uint32, parents []uint32) (UDTDes
 		}
 	}
 
+	client.known_lock.Lock()
 	client.KnownTypesByID[str_instance] = descriptor
+	client.known_lock.Unlock()
 	return descriptor, nil
 }
 
diff --git a/listsubtags.go b/listsubtags.go
index cc5f8df..4f4d64c 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -3,7 +3,6 @@ package gologix
 import (
 	"encoding/binary"
 	"fmt"
-	"strings"
 )
 
 // the gist here is that we want to do a fragmented read (since there will undoubtedly be more than one packet's worth)
@@ -107,7 +106,7 @@ func (client *Client) listSubTagPage(Program *KnownProgram, start_instance uint3
 		if !isValidTag(string(newtag_bytes), *tag_ftr) {
 			continue
 		}
-		client.KnownTags[strings.ToLower(newtag_name)] = kt
+		client.addKnownTag(kt)
 		new_kts = append(new_kts, kt)
 	}
 
diff --git a/partialread.go b/partialread.go
index 658bc23..2b30b54 100644
--- a/partialread.go
+++ b/partialread.go
@@ -142,7 +142,7 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 		//newSize += 4                                           // Fudge for alignment if needed
 
 		response_size += tags[i].TagType.Size() * tags[i].Elements
-		if newSize >= int(client.ConnectionSize) || response_size >= int(client.ConnectionSize) {
+		if newSize >= int(client.connectionSize()) || response_size >= int(client.connectionSize()) {
 			// break before adding this ioi to the list since it will push us over.
 			// we'll continue with n iois (n only increments after an IOI is added)
 			break
@@ -161,7 +161,7 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 		n = i + 1
 	}
 
-	client.Logger.Debug("Packed Efficiency", "tags", n, "bytes", client.ConnectionSize)
+	client.Logger.Debug("Packed Efficiency", "tags", n, "bytes", client.connectionSize())
 
 	return n, nil
 
diff --git a/read.go b/read.go
index b66393d..59fbf10 100644
--- a/read.go
+++ b/read.go
@@ -413,7 +413,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	}
 
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
@@ -830,7 +830,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	}
 
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
 		Sequence:     uint16(sequencer()),
@@ -868,9 +868,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		totalMsgSize := binary.Size(ioi_header) + 2*(i+1) + b.Len() // 2 for each jump table entry
 		// TODO: We also need to calculate the response size we expect from the PLC and split
 		//       into multiple messages on that also.
-		if totalMsgSize > int(client.ConnectionSize) {
+		if totalMsgSize > int(client.connectionSize()) {
 			if i == 0 {
-				return nil, fmt.Errorf("reading %s does not fit in a message of %d bytes", tags[i].TagName, client.ConnectionSize)
+				return nil, fmt.Errorf("reading %s does not fit in a message of %d bytes", tags[i].TagName, client.connectionSize())
 			}
 			first_part := tags[:i]
 			rest := tags[i:]
@@ -1259,7 +1259,7 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 // and any transport-level error.
 func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset uint32) ([]byte, byte, error) {
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
diff --git a/sendreceive.go b/sendreceive.go
index 51b2cf7..393c4d5 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -18,6 +18,8 @@ type eipHeader struct {
 }
 
 // prepares a bytes buffer for sending a message
+//
+// the client's mutex must be held.
 func (client *Client) sendMsgBuild(cmd CIPCommand, msgs ...any) ([]byte, error) {
 	// calculate messageLen of all message parts
 	messageLen := 0
@@ -81,11 +83,12 @@ func (client *Client) sendData(b []byte) error {
 
 // sends one message and gets one response in a mutex-protected way.
 func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
+	client.mutex.Lock()
 	buffer, err := client.sendMsgBuild(cmd, msgs...)
 	if err != nil {
+		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
-	client.mutex.Lock()
 	if client.conn == nil {
 		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("not connected")
diff --git a/udt_write.go b/udt_write.go
index 7b1225a..9f5b4f6 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -186,12 +186,12 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	for len(tags) > 0 {
 		n := 0
 		msgSize := binary.Size(msgCIPConnectedMultiServiceReq{})
-		for n < len(tags) && msgSize+2+len(requests[n]) <= int(client.ConnectionSize) {
+		for n < len(tags) && msgSize+2+len(requests[n]) <= int(client.connectionSize()) {
 			msgSize += 2 + len(requests[n]) // 2 for the jump table entry
 			n++
 		}
 		if n == 0 {
-			return fmt.Errorf("writing %s does not fit in a message of %d bytes", tags[0], client.ConnectionSize)
+			return fmt.Errorf("writing %s does not fit in a message of %d bytes", tags[0], client.connectionSize())
 		}
 		err = client.writeList(tags[:n], requests[:n])
 		if err != nil {
@@ -206,7 +206,7 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 func (client *Client) writeList(tags []string, requests [][]byte) error {
 	qty := len(tags)
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
 		Sequence:     uint16(sequencer()),
diff --git a/write.go b/write.go
index 96d2238..8bf66cc 100644
--- a/write.go
+++ b/write.go
@@ -145,7 +145,7 @@ func (client *Client) write_udt(tag string, value any) error {
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
 	err = reqitems[1].Serialize(ioi_header)
 	if err != nil {
@@ -250,7 +250,7 @@ func (client *Client) write_single(tag string, value any) error {
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
 	err = reqitems[1].Serialize(ioi_header)
 	if err != nil {
-- 
2.43.0


From 99bbe7c9dd62aaa7bee86a14d7d84b64f0569a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:57 +0000
Subject: [PATCH 33/36] fix: load the comments of program tags and of partial
 L5X exports

---
 l5x/load_tags.go | 179 ++++++++++++++++++++++++++---------------------
 1 file changed, 100 insertions(+), 79 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index c06cb10..e42ae93 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -2,6 +2,7 @@ package l5x
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -119,113 +120,121 @@ func arrayToGo(elementType string, array *DataArray) ([]any, error) {
 }
 
 func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
-	dtm := GetDataTypeMap(l5xData)
-
-	var err error
 	tags := make(map[string]string)
+	if l5xData == nil || l5xData.Controller == nil {
+		return tags, nil
+	}
+	dtm := GetDataTypeMap(l5xData)
 
-	for _, module := range l5xData.Controller.Modules.Module {
-		if module.Communications == nil {
-			continue
-		}
-		if module.Communications.Connections == nil {
-			continue
-		}
-		if module.Communications.Connections.Connection == nil {
-			continue
-		}
-		for _, connection := range module.Communications.Connections.Connection {
-			in := connection.InputTag
-			if in != nil {
-				if in.Comments != nil {
-					for _, commentGroup := range in.Comments {
-						for _, comment := range commentGroup.Comment {
-							name := fmt.Sprintf("%s:I%s", module.NameAttr, comment.OperandAttr)
-							c := comment.CData()
-							if c == "" {
-								continue
+	if l5xData.Controller.Modules != nil {
+		for _, module := range l5xData.Controller.Modules.Module {
+			if module.Communications == nil {
+				continue
+			}
+			if module.Communications.Connections == nil {
+				continue
+			}
+			if module.Communications.Connections.Connection == nil {
+				continue
+			}
+			for _, connection := range module.Communications.Connections.Connection {
+				in := connection.InputTag
+				if in != nil {
+					if in.Comments != nil {
+						for _, commentGroup := range in.Comments {
+							for _, comment := range commentGroup.Comment {
+								name := fmt.Sprintf("%s:I%s", module.NameAttr, comment.OperandAttr)
+								c := comment.CData()
+								if c == "" {
+									continue
+								}
+								tags[name] = c
 							}
-							tags[name] = c
 						}
 					}
 				}
-			}
-			out := connection.OutputTag
-			if out != nil {
-				if out.Comments != nil {
-					for _, commentGroup := range out.Comments {
-						for _, comment := range commentGroup.Comment {
-							name := fmt.Sprintf("%s:O%s", module.NameAttr, comment.OperandAttr)
-							c := comment.CData()
-							if c == "" {
-								continue
+				out := connection.OutputTag
+				if out != nil {
+					if out.Comments != nil {
+						for _, commentGroup := range out.Comments {
+							for _, comment := range commentGroup.Comment {
+								name := fmt.Sprintf("%s:O%s", module.NameAttr, comment.OperandAttr)
+								c := comment.CData()
+								if c == "" {
+									continue
+								}
+								tags[name] = c
 							}
-							tags[name] = c
 						}
 					}
 				}
-			}
 
+			}
 		}
 	}
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
-
-		mydesc := ""
-		if tag.Data != nil {
-			if len(tag.Description) > 0 {
-				mydesc = tag.Description[0].CData()
-				tags[tag.NameAttr] = mydesc
-			}
-		}
-		typeComments := GetTypeComments(dtm, tag.DataTypeAttr)
-		for typeName, typeComment := range typeComments {
-			if typeComment != "" {
-				if mydesc != "" {
-					typeComment = mydesc + " " + typeComment
-				}
-				tags[fmt.Sprintf("%s.%s", tag.NameAttr, typeName)] = typeComment
-			}
+	if l5xData.Controller.Tags != nil {
+		for _, tag := range l5xData.Controller.Tags.Tag {
+			addTagComments(tags, dtm, tag.NameAttr, tag)
 		}
 	}
 
+	if l5xData.Controller.Programs == nil {
+		return tags, nil
+	}
 	for _, program := range l5xData.Controller.Programs.Program {
-		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
-		progtags := make(map[string]any)
+		if program.Tags == nil {
+			continue
+		}
 		for _, tag := range program.Tags.Tag {
-			tagname := tag.NameAttr
-			if len(tag.Description) > 1 {
-				comment := ""
-				for d := range tag.Description {
-					comment = comment + tag.Description[d].CData()
-				}
-				progtags[tagname] = comment
-				if err != nil {
-					return nil, fmt.Errorf("error converting %s.%s: %s", progprefix, tagname, err)
-				}
-				continue
-			}
+			addTagComments(tags, dtm, fmt.Sprintf("program:%s.%s", program.NameAttr, tag.NameAttr), tag)
 		}
 	}
 	return tags, nil
 
 }
 
+// addTagComments adds the comments of a tag and of the members of its type.
+func addTagComments(tags map[string]string, dtm map[string]*DataTypeType, name string, tag *TagType) {
+	mydesc := ""
+	if len(tag.Description) > 0 {
+		mydesc = tag.Description[0].CData()
+		tags[name] = mydesc
+	}
+	typeComments := GetTypeComments(dtm, tag.DataTypeAttr)
+	for typeName, typeComment := range typeComments {
+		if typeComment != "" {
+			if mydesc != "" {
+				typeComment = mydesc + " " + typeComment
+			}
+			tags[fmt.Sprintf("%s.%s", name, typeName)] = typeComment
+		}
+	}
+}
+
 func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	comments := make(map[string]string)
 
+	if l5xData == nil || l5xData.Controller == nil || l5xData.Controller.Programs == nil {
+		return comments, nil
+	}
+
 	taskLookup := make(map[string]string)
-	tasks := l5xData.Controller.Tasks.Task
-	for _, task := range tasks {
-		if task.ScheduledPrograms == nil {
-			continue
-		}
-		for _, program := range task.ScheduledPrograms.ScheduledProgram {
-			taskLookup[program.NameAttr] = task.NameAttr
+	if l5xData.Controller.Tasks != nil {
+		for _, task := range l5xData.Controller.Tasks.Task {
+			if task.ScheduledPrograms == nil {
+				continue
+			}
+			for _, program := range task.ScheduledPrograms.ScheduledProgram {
+				taskLookup[program.NameAttr] = task.NameAttr
+			}
 		}
 	}
 
 	for _, program := range l5xData.Controller.Programs.Program {
+		if program.Routines == nil {
+			continue
+		}
 		for _, routine := range program.Routines.Routine {
 			for _, rungContent := range routine.RLLContent {
 				for _, rung := range rungContent.Rung {
@@ -248,6 +257,9 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 // convert list of data types to a map[string]any
 func GetDataTypeMap(l5xData RSLogix5000Content) map[string]*DataTypeType {
 	dataTypes := make(map[string]*DataTypeType)
+	if l5xData == nil || l5xData.Controller == nil || l5xData.Controller.DataTypes == nil {
+		return dataTypes
+	}
 
 	for _, dataType := range l5xData.Controller.DataTypes.DataType {
 		dataTypes[dataType.NameAttr] = dataType
@@ -257,18 +269,24 @@ func GetDataTypeMap(l5xData RSLogix5000Content) map[string]*DataTypeType {
 }
 
 func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string]string {
+	return typeComments(types, typeName, nil)
+}
+
+// typeComments returns the comments of a type that is used within the outer types.
+func typeComments(types map[string]*DataTypeType, typeName string, outer []string) map[string]string {
 	dt, ok := types[typeName]
-	if !ok {
+	if !ok || slices.Contains(outer, typeName) {
 		return nil
 	}
+	outer = append(outer, typeName)
 	out := make(map[string]string)
 	myDescription := ""
 	if dt.Description != nil {
 		myDescription = dt.Description.CData()
 	}
 	out[typeName] = myDescription
-	members := dt.Members
-	if members == nil {
+	if dt.Members == nil {
+		return out
 	}
 	for _, member := range dt.Members.Member {
 		//typeName := fmt.Sprintf("%s.%s", typeName, member.NameAttr)
@@ -282,10 +300,13 @@ func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string
 		}
 		name := member.NameAttr
 		//out[member.NameAttr] = memberDesc
-		submembers := GetTypeComments(types, member.DataTypeAttr)
+		submembers := typeComments(types, member.DataTypeAttr, outer)
 		if member.DataTypeAttr == "BIT" {
 			// bit number is BitNumberAttr + TargetAttr[-2:] - 1 ?
-			offset_str := member.TargetAttr[len(member.TargetAttr)-2:]
+			offset_str := member.TargetAttr
+			if len(offset_str) > 2 {
+				offset_str = offset_str[len(offset_str)-2:]
+			}
 			offset_str = strings.TrimLeft(offset_str, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
 			num, err := strconv.Atoi(offset_str)
 			if err != nil {
-- 
2.43.0


From c09f6bce5a74755d98725fb65a4d6d4701248a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:41 +0000
Subject: [PATCH 34/36] fix: ReadPacked reads its tag, Read reports what it
 can't read into instead of panicking or doing nothing

---
 pack.go | 15 +++++++--------
 read.go |  2 ++
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pack.go b/pack.go
index 4c9bd88..e98a730 100644
--- a/pack.go
+++ b/pack.go
@@ -300,6 +300,8 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 	case reflect.Struct:
 		// continue on
 
+	default:
+		return 0, fmt.Errorf("can't unpack into a %T", data)
 	}
 	for i := 0; i < refType.NumField(); i++ {
 		field := refType.Field(i)
@@ -411,17 +413,14 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 
 func ReadPacked[T any](client *Client, tag string) (T, error) {
 	var data T
-	buf := new(bytes.Buffer)
-	size, err := Pack(buf, data)
-	if err != nil {
-		return data, err
-	}
-
-	b := make([]byte, size)
-	err = client.Read(tag, &b)
+	val, err := client.Read_single(tag, CIPTypeStruct, 1)
 	if err != nil {
 		return data, fmt.Errorf("couldn't read %s as bytes. %w", tag, err)
 	}
+	b, ok := val.([]byte)
+	if !ok {
+		return data, fmt.Errorf("couldn't read %s as bytes. got %T", tag, val)
+	}
 	_, err = Unpack(bytes.NewBuffer(b), &data)
 	if err != nil {
 		return data, fmt.Errorf("problem unpacking from buffer. %w", err)
diff --git a/read.go b/read.go
index 59fbf10..86f4f2c 100644
--- a/read.go
+++ b/read.go
@@ -368,6 +368,8 @@ func (client *Client) Read(tag string, data any) error {
 			return fmt.Errorf("couldn't parse str data element %w", err)
 		}
 
+	default:
+		return fmt.Errorf("can't read into a %T", data)
 	}
 
 	return nil
-- 
2.43.0


From 50f1ccbfe8040fd365e914d3b93ccc0d3b09a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:23 +0000
Subject: [PATCH 35/36] fix: a connect right after a disconnect starts its own
 keepalive, and the old one leaves the new connection alone

---
 connect.go    | 21 ++++++++++++++++++++-
 disconnect.go |  1 +
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/connect.go b/connect.go
index d30ff9d..547a96d 100644
--- a/connect.go
+++ b/connect.go
@@ -223,9 +223,21 @@ func (client *Client) KeepAlive() {
 	client.Logger.Debug("starting keep alive")
 	defer func() {
 		client.mutex.Lock()
-		client.keepAliveRunning = false
+		// after this one was stopped another one may be running.
+		if client.cancel_keepalive == cancel {
+			client.cancel_keepalive = nil
+			client.keepAliveRunning = false
+		}
 		client.mutex.Unlock()
 	}()
+	stopped := func() bool {
+		select {
+		case <-cancel:
+			return true
+		default:
+			return false
+		}
+	}
 
 	originalProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 	if err != nil {
@@ -250,6 +262,9 @@ func (client *Client) KeepAlive() {
 	for {
 		select {
 		case <-t.C:
+			if stopped() {
+				return
+			}
 			if !client.Connected() {
 				client.Logger.Warn("keepalive failed. not connected")
 				return
@@ -258,6 +273,10 @@ func (client *Client) KeepAlive() {
 			newProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 			if err != nil {
 				client.Logger.Error("keepalive failed", slog.Any("err", err))
+				if stopped() {
+					// the connection ended with the request. Another one may be open by now.
+					return
+				}
 				err = client.Disconnect()
 				if err != nil {
 					client.Logger.Warn("keepalive disconnect failed", slog.Any("err", err))
diff --git a/disconnect.go b/disconnect.go
index ae26e69..c58e40c 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -159,6 +159,7 @@ func (client *Client) stopKeepAlive() {
 	if client.keepAliveRunning && client.cancel_keepalive != nil {
 		close(client.cancel_keepalive)
 		client.cancel_keepalive = nil
+		client.keepAliveRunning = false
 	}
 }
 
-- 
2.43.0


From 1276ce4a20b2a3626fa0c43d515ab5bd597b4e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:23 +0000
Subject: [PATCH 36/36] fix: a failed exchange only ends the connection it
 failed on, not one made since

---
 disconnect.go  | 13 +++++++++++--
 sendreceive.go |  8 +++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/disconnect.go b/disconnect.go
index c58e40c..29faa51 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -3,11 +3,15 @@ package gologix
 import (
 	"fmt"
 	"log/slog"
+	"net"
 )
 
-func (client *Client) startDisconnect() error {
+func (client *Client) startDisconnect(conn net.Conn) error {
 	client.mutex.Lock()
 	defer client.mutex.Unlock()
+	if conn != nil && conn != client.conn {
+		return fmt.Errorf("client has another connection by now")
+	}
 	switch client.connStatus {
 	case connectionStatusDisconnected:
 		return fmt.Errorf("client is already disconnected")
@@ -52,7 +56,12 @@ func (client *Client) startDisconnect() error {
 // Returns an error if already disconnected or if there are issues during the
 // disconnection sequence, but the connection will be closed regardless.
 func (client *Client) Disconnect() error {
-	err := client.startDisconnect()
+	return client.disconnect(nil)
+}
+
+// disconnect is Disconnect, as long as conn is still the connection in use.  nil is any connection.
+func (client *Client) disconnect(conn net.Conn) error {
+	err := client.startDisconnect(conn)
 	if err != nil {
 		return err
 	}
diff --git a/sendreceive.go b/sendreceive.go
index 393c4d5..c0f26d5 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -89,7 +89,9 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
-	if client.conn == nil {
+	// another goroutine may replace the connection once it failed.
+	conn := client.conn
+	if conn == nil {
 		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("not connected")
 	}
@@ -98,7 +100,7 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	if err != nil {
 		_ = client.conn.Close()
 		client.mutex.Unlock()
-		err2 := client.Disconnect()
+		err2 := client.disconnect(conn)
 		if err2 != nil {
 			return eipHeader{}, nil, fmt.Errorf("error disconnecting after send error %w: %w", err, err2)
 		}
@@ -112,7 +114,7 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	}
 	client.mutex.Unlock()
 	if err != nil {
-		err2 := client.Disconnect()
+		err2 := client.disconnect(conn)
 		if err2 != nil {
 			return hdr, buf, fmt.Errorf("error disconnecting after recvError %w: %w", err, err2)
 		}
-- 
2.43.0

