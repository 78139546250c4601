package gologix

import "encoding/binary"

// vfC31seg is the logical segment of a number: base type code 0x20 class, 0x24 instance, 0x30 attribute.
func vfC31seg(base byte, n uint32) []byte {
	switch {
	case n <= 0xFF:
		return []byte{base, byte(n)}
	case n <= 0xFFFF:
		return []byte{base + 1, 0, byte(n), byte(n >> 8)}
	}
	return []byte{base + 2, 0, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
}

// vfC31conn is a client whose controller answers with an encapsulation status and data after the sequence number.
func vfC31conn(st uint32, data []byte) (*Client, *vfConn) {
	c, conn := vfNetClient(nil)
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		return vfAnswer(f, st, vfConnBody(7, vfSeqReply(f, data)))
	}
	return c, conn
}

// VF_C31_single: GetAttrSingle of any class, instance and attribute number, any 0 to 8 reply bytes, any encapsulation status.
func VF_C31_single() {
	class, inst, attr := vfU16("class"), vfU32("instance"), vfU16("attribute")
	n := vfPick("n", 9)
	data := vfBytes("data", n)
	st := vfU32("status")
	c, conn := vfC31conn(st, data)
	item, err := c.GetAttrSingle(CIPClass(class), CIPInstance(inst), CIPAttribute(attr))
	path := vfCat(vfC31seg(0x20, uint32(class)), vfC31seg(0x24, inst), vfC31seg(0x30, uint32(attr)))
	vfAssert(len(conn.frames) == 1, "one request is sent")
	vfAssert(vfEq(vfSentConn(c, conn.frames[0]), vfCat([]byte{0x0E, byte(len(path) / 2)}, path)), "the request names service, class, instance and attribute")
	if st != 0 || n < 4 || data[2] != 0 {
		vfAssert(err != nil && item == nil, "a failed or truncated reply is an error without data")
		return
	}
	if data[0] == 0x8E && data[1] == 0 && data[3] == 0 {
		vfAssert(err == nil, "a successful reply is a success")
	}
	if err != nil {
		return
	}
	vfAssert(vfEq(item.Rest(), data[4:]), "the data is exactly the reply's")
	vfReach("data")
}

// VF_C31_list: GetAttrList of any class and instance and 0 to 3 any attributes, any 0 to 9 reply bytes, any encapsulation status.
func VF_C31_list() {
	class, inst := vfU16("class"), vfU32("instance")
	k := vfPick("k", 4)
	var attrs []CIPAttribute
	want := vfLe16(uint16(k))
	for i := 0; i < k; i++ {
		a := vfU16("attribute")
		attrs = append(attrs, CIPAttribute(a))
		want = vfCat(want, vfLe16(a))
	}
	n := vfPick("n", 10)
	data := vfBytes("data", n)
	st := vfU32("status")
	c, conn := vfC31conn(st, data)
	item, err := c.GetAttrList(CIPClass(class), CIPInstance(inst), attrs...)
	path := vfCat(vfC31seg(0x20, uint32(class)), vfC31seg(0x24, inst))
	vfAssert(len(conn.frames) == 1, "one request is sent")
	vfAssert(vfEq(vfSentConn(c, conn.frames[0]), vfCat([]byte{3, byte(len(path) / 2)}, path, want)), "the request names service, class, instance and every attribute")
	if st != 0 || n < 6 || data[2] != 0 {
		vfAssert(err != nil, "a failed or truncated reply is an error")
		return
	}
	if data[0] == 0x83 && data[1] == 0 && data[3] == 0 {
		vfAssert(err == nil, "a successful reply is a success")
	}
	if err != nil {
		return
	}
	vfAssert(vfEq(item.Rest(), data[6:]), "the data is exactly the reply's")
	vfReach("data")
}

// VF_C31_generic: any service, paths and data of 0 to 4 any bytes, any 0 to 7 reply bytes, any encapsulation status.
func VF_C31_generic() {
	service := vfU8("service")
	vfAssume(service < 0x80)
	p := vfBytes("path", vfPick("pathlen", 5))
	d := vfBytes("msg", vfPick("msglen", 5))
	n := vfPick("n", 8)
	data := vfBytes("data", n)
	st := vfU32("status")
	c, conn := vfC31conn(st, data)
	item, err := c.GenericCIPMessage(CIPService(service), p, d)
	if len(p)%2 == 1 {
		vfAssert(err != nil && len(conn.frames) == 0, "a path of an odd length is an error")
		return
	}
	vfAssert(len(conn.frames) == 1, "one request is sent")
	vfAssert(vfEq(vfSentConn(c, conn.frames[0]), vfCat([]byte{service, byte(len(p) / 2)}, p, d)), "the request carries service, path and data unchanged")
	if st != 0 || n < 4 || data[2] != 0 || data[0] != service|0x80 {
		vfAssert(err != nil, "a failed, truncated or other reply is an error")
		return
	}
	if data[1] == 0 && data[3] == 0 {
		vfAssert(err == nil, "a successful reply is a success")
	}
	if err != nil {
		return
	}
	vfAssert(vfEq(item.Rest(), data[4:]), "the data is exactly the reply's")
	vfReach("data")
}

// VF_C31_long: paths of 508, 510, 511, 512 and 700 bytes and data too long for a message.
func VF_C31_long() {
	pl := []int{508, 510, 511, 512, 700, 2}[vfPick("pathlen", 6)]
	dl := 0
	if pl == 2 {
		dl = 65536
	}
	p := make([]byte, pl)
	p[0] = vfU8("path")
	c, conn := vfC31conn(0, []byte{0x81, 0, 0, 0})
	_, err := c.GenericCIPMessage(1, p, make([]byte, dl))
	if pl > 510 || dl > 0 {
		vfAssert(err != nil && len(conn.frames) == 0, "what cannot be sent is an error")
		return
	}
	vfAssert(err == nil, "a path of at most 255 words is sent")
	vfAssert(vfEq(vfSentConn(c, conn.frames[0]), vfCat([]byte{1, byte(pl / 2)}, p)), "the request carries the path unchanged")
	vfReach("long")
}

// VF_C31_props: the controller properties from any 0, 5 and 34 to 40 reply bytes after the attribute count.
func VF_C31_props() {
	n := []int{36, 40, 35, 34, 5, 0}[vfPick("n", 6)]
	data := vfBytes("data", n)
	c, conn := vfC31conn(0, vfCat([]byte{0x83, 0, 0, 0, 5, 0}, data))
	r, err := c.GetControllerPropList()
	vfAssert(len(conn.frames) == 1, "one request is sent")
	vfAssert(vfEq(vfSentConn(c, conn.frames[0]), []byte{3, 2, 0x20, 0xAC, 0x24, 1, 5, 0, 1, 0, 2, 0, 3, 0, 4, 0, 10, 0}), "the request names the properties")
	if n < 36 {
		vfAssert(err != nil, "a truncated reply is an error")
		return
	}
	failed := false
	for _, at := range []int{2, 8, 14, 22, 30} {
		if at+2 <= n {
			failed = failed || vfU16le(data[at:]) != 0
		}
	}
	vfAssert((err != nil) == failed, "exactly a reply with every property is a success")
	if err != nil {
		return
	}
	vfAssert(r.Attr1 == vfU16le(data[4:]) && r.Attr2 == vfU16le(data[10:]), "the short properties are the reply's")
	vfAssert(r.Attr3 == vfU32le(data[16:]) && r.Attr4 == vfU32le(data[24:]) && r.Attr5 == vfU32le(data[32:]), "the long properties are the reply's")
	vfReach("props")
}

// VF_C31_frame: the three calls answered by 0 to 24 bytes after the encapsulation header with item counts and lengths inside and
// beyond them, the rest any bytes, cut anywhere, or by nothing, or refused.
func VF_C31_frame() {
	body := vfBadBody()
	cut := vfPick("cut", 4)
	c, conn := vfNetClient(nil)
	vfCutReply(conn, cut, body)
	var err error
	switch vfPick("call", 3) {
	case 0:
		_, err = c.GetAttrSingle(1, 1, 1)
	case 1:
		_, err = c.GetAttrList(1, 1, 1, 2)
	default:
		_, err = c.GenericCIPMessage(1, []byte{0x20, 1}, nil)
	}
	vfAssert(err != nil || cut == 0, "a cut or missing reply is an error")
	vfAssert(err != nil || len(body) >= 22, "a short reply is an error")
	vfReach("checked")
}

// VF_C31_large: lists of 130, 256 and 300 attributes, messages of 300 and 1500 bytes and replies of 0 to 4000 bytes of data; three bytes and attributes of each have any value.
func VF_C31_large() {
	n := []int{0, 250, 256, 300, 4000}[vfPick("n", 5)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 3)
	}
	some := func(b []byte) {
		for _, i := range []int{0, len(b) / 2, len(b) - 1} {
			if i >= 0 && i < len(b) {
				b[i] = vfU8("some")
			}
		}
	}
	some(data)
	class, inst := vfU16("class"), vfU32("instance")
	path := vfCat(vfC31seg(0x20, uint32(class)), vfC31seg(0x24, inst))
	switch vfPick("call", 3) {
	case 0:
		k := []int{130, 256, 300}[vfPick("k", 3)]
		var attrs []CIPAttribute
		want := vfLe16(uint16(k))
		for i := 0; i < k; i++ {
			a := uint16(i * 201)
			if i == 0 || i == 128 || i == k-1 {
				a = vfU16("attribute")
			}
			attrs = append(attrs, CIPAttribute(a))
			want = append(want, vfLe16(a)...)
		}
		c, conn := vfC31conn(0, vfCat([]byte{0x83, 0, 0, 0}, vfLe16(uint16(k)), data))
		item, err := c.GetAttrList(CIPClass(class), CIPInstance(inst), attrs...)
		vfAssert(vfEq(vfSentConn(c, conn.frames[0]), vfCat([]byte{3, byte(len(path) / 2)}, path, want)), "the request names service, class, instance and every attribute")
		vfAssert(err == nil && vfEq(item.Rest(), data), "the data is exactly the reply's")
	case 1:
		msg := make([]byte, []int{300, 1500}[vfPick("msg", 2)])
		for i := range msg {
			msg[i] = byte(i * 11)
		}
		some(msg)
		p := vfBytes("path", []int{0, 6, 130, 300}[vfPick("path", 4)])
		c, conn := vfC31conn(0, vfCat([]byte{0xCB, 0, 0, 0}, data))
		item, err := c.GenericCIPMessage(CIPService(0x4B), p, msg)
		vfAssert(vfEq(vfSentConn(c, conn.frames[0]), vfCat([]byte{0x4B, byte(len(p) / 2)}, p, msg)), "the request carries service, path and data unchanged")
		vfAssert(err == nil && vfEq(item.Rest(), data), "the data is exactly the reply's")
	case 2:
		c, _ := vfC31conn(0, vfCat([]byte{0x8E, 0, 0, 0}, data))
		item, err := c.GetAttrSingle(CIPClass(class), CIPInstance(inst), 3)
		vfAssert(err == nil && vfEq(item.Rest(), data), "the data is exactly the reply's")
	}
	vfReach("large")
}

// VF_C31_match: two readings of the controller properties, any values and statuses.
func VF_C31_match() {
	read := func(name string) (msgGetControllerPropList, []byte) {
		b := vfBytes(name, 34)
		p := msgGetControllerPropList{
			Attr1_Status: binary.LittleEndian.Uint16(b[2:]), Attr1: binary.LittleEndian.Uint16(b[4:]),
			Attr2_Status: binary.LittleEndian.Uint16(b[8:]), Attr2: binary.LittleEndian.Uint16(b[10:]),
			Attr3_Status: binary.LittleEndian.Uint16(b[14:]), Attr3: binary.LittleEndian.Uint32(b[16:]),
			Attr4_Status: binary.LittleEndian.Uint16(b[22:]), Attr4: binary.LittleEndian.Uint32(b[24:]),
			Attr5_Status: binary.LittleEndian.Uint16(b[28:]), Attr5: binary.LittleEndian.Uint32(b[30:]),
		}
		p.Attr1_ID, p.Attr2_ID, p.Attr3_ID, p.Attr4_ID, p.Attr5_ID = 1, 2, 3, 4, 10
		return p, b
	}
	x, a := read("old")
	y, b := read("new")
	same := true
	for _, at := range [][2]int{{2, 6}, {8, 12}, {14, 20}, {22, 28}, {28, 34}} {
		same = same && string(a[at[0]:at[1]]) == string(b[at[0]:at[1]])
	}
	m := x.Match(y)
	vfAssert(m == same, "two readings match exactly if every property is the same")
	vfAssert(x.Match(x) && m == y.Match(x), "a reading matches itself, and matching is mutual")
}
