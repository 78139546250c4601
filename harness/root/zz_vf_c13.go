package gologix

import "reflect"

// vfC13answer answers the one request of a write with an acknowledgement.
func vfC13client() (*Client, *vfConn) {
	c, conn := vfNetClient(nil)
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		vfSentConn(c, f)
		return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, []byte{0xCD, 0, 0, 0})))
	}
	return c, conn
}

// vfC13sent checks that exactly one write request with this body was sent.
func vfC13sent(c *Client, conn *vfConn, path, body []byte) {
	vfAssert(len(conn.frames) == 1, "one request is sent")
	req := vfSentConn(c, conn.frames[0])
	vfAssert(vfEq(req, vfCat([]byte{0x4D, byte(len(path) / 2)}, path, body)), "the request names the tag, type and element count and carries the value")
}

// VF_C13_scalar: any value of the eleven scalar types, given as itself or as a pointer, names of 1 to 4 letters.
func VF_C13_scalar() {
	kind := vfPick("kind", vfReadKinds)
	_, size := vfReadPtr(kind)
	raw := vfBytes("raw", size)
	v := vfGoOf(kind, raw)
	if kind == 0 {
		vfAssume(raw[0] <= 1)
	}
	name := []string{"a", "Ab", "Abc", "abcd"}[vfPick("name", 4)]
	c, conn := vfC13client()
	err := c.Write(name, v)
	vfAssert(err == nil, "an acknowledged write is a success")
	vfC13sent(c, conn, vfNameSeg([]byte(vfLower(name))), vfCat([]byte{vfWriteType(kind), 0, 1, 0}, raw))
	vfReach("sent")
}

// VF_C13_slice: slices of 0 to 3 elements of every type with any values, at a path with an index.
func VF_C13_slice() {
	kind := vfPick("kind", vfReadKinds)
	n := vfPick("n", 4)
	_, size := vfReadPtr(kind)
	raw := vfBytes("raw", size*n)
	s := reflect.ValueOf(vfReadSlice(kind, n))
	for i := 0; i < n; i++ {
		if kind == 0 {
			vfAssume(raw[i] <= 1)
		}
		s.Index(i).Set(reflect.ValueOf(vfGoOf(kind, raw[i*size:(i+1)*size])))
	}
	c, conn := vfC13client()
	err := c.Write("arr[5]", s.Interface())
	if n == 0 && err != nil {
		return
	}
	vfAssert(err == nil, "an acknowledged write is a success")
	vfC13sent(c, conn, vfCat(vfNameSeg([]byte("arr")), []byte{0x28, 5}), vfCat([]byte{vfWriteType(kind), 0}, vfLe16(uint16(n)), raw))
	vfReach("sent")
}

// VF_C13_string: strings of 0, 1, 2, 81, 82, 85 and 100 any characters, alone or as a slice of one or two.
func VF_C13_string() {
	n := []int{0, 1, 2, 81, 82, 85, 100}[vfPick("n", 7)]
	s := vfStr("s", n)
	var v any = s
	all := []string{s}
	switch vfPick("slice", 3) {
	case 1:
		v = []string{s}
	case 2:
		all = []string{"x", s}
		v = all
	}
	c, conn := vfC13client()
	err := c.Write("str", v)
	if n > 84 {
		vfAssert(err != nil && len(conn.frames) == 0, "a string that cannot be sent is an error")
		return
	}
	vfAssert(err == nil, "an acknowledged write is a success")
	body := vfCat([]byte{0xA0, 2, 0xCE, 0x0F}, vfLe16(uint16(len(all))))
	for _, x := range all {
		b := make([]byte, 84)
		copy(b, x)
		body = vfCat(body, vfLe32(uint32(len(x))), b)
	}
	vfC13sent(c, conn, vfNameSeg([]byte("str")), body)
	vfReach("sent")
}

// VF_C13_udt: a structure and slices of 1 and 2 structures with any field values; the type handle is the CRC of its type text.
func VF_C13_udt() {
	n := vfPick("n", 3)
	k := n
	if n == 0 {
		k = 1
	}
	raw := vfBytes("raw", vfUdtsize*k)
	vs := make([]vfUdt, k)
	for i := range vs {
		vs[i] = vfUdtof(raw[vfUdtsize*i:])
	}
	var v any = vs
	if n == 0 {
		v = vs[0]
	}
	c, conn := vfC13client()
	err := c.Write("Udt", v)
	vfAssert(err == nil, "an acknowledged write is a success")
	crc := vfCrc16("vfUdt,DINT,INT,INT,REAL[2],ULINT")
	vfC13sent(c, conn, vfNameSeg([]byte("udt")), vfCat([]byte{0xA0, 2}, vfLe16(crc), vfLe16(uint16(k)), raw))
	vfReach("sent")
}

// VF_C13_unsendable: values without a controller type, a bit of a tag, and more elements or bytes than a request can count.
func VF_C13_unsendable() {
	type named int16
	x := int16(vfU16("x"))
	var v any
	path := "tag"
	what := vfPick("what", 12)
	switch what {
	case 0:
		v = int(x)
	case 1:
		v = uint(x)
	case 2:
		v = named(x)
	case 3:
		v = []int{1, int(x)}
	case 4:
		v = map[string]int{}
	case 5:
		v = nil
	case 6:
		v, path = x != 0, "tag.3"
	case 7:
		v = make([]int16, 0x10000)
	case 8:
		v = make([]int16, 0x10001)
	case 9:
		v = make([]int32, 0x4001)
	case 10:
		v, path = x, "tag[x]"
	case 11:
		v, path = vfUdt{}, "tag.3"
	}
	c, conn := vfC13client()
	err := c.Write(path, v)
	vfAssert(err != nil && len(conn.frames) == 0, "what cannot be sent is an error and nothing is sent")
	vfReach("unsendable")
}

// VF_C13_reply: a scalar, string or structure write answered by any 0 to 10 bytes of connected data and any encapsulation status.
func VF_C13_reply() {
	n := vfPick("n", 11)
	data := vfBytes("data", n)
	st := vfU32("status")
	c, conn := vfNetClient(nil)
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		return vfAnswer(f, st, vfConnBody(7, data))
	}
	v := []any{int32(5), "x", vfUdt{A: 1}, []int16{1, 2}}[vfPick("value", 4)]
	err := c.Write("tag", v)
	if st != 0 || n < 6 || data[2] != 0xCD || data[4] != 0 {
		vfAssert(err != nil, "only an acknowledgement is a success")
		return
	}
	if data[3] == 0 && data[5] == 0 {
		vfAssert(err == nil, "an acknowledgement is a success")
		vfReach("acknowledged")
	}
}

// VF_C13_frame: a write answered by 0 to 26 bytes after the encapsulation header with item counts and lengths inside and
// beyond them, the rest any bytes, cut anywhere, or by nothing, or refused.
func VF_C13_frame() {
	body := vfBadBody()
	cut := vfPick("cut", 4)
	c, conn := vfNetClient(nil)
	vfCutReply(conn, cut, body)
	var v any = int32(5)
	if cut == 0 && vfPick("value", 2) == 1 {
		v = vfUdt{A: 1}
	}
	err := c.Write("tag", v)
	vfAssert(err != nil || cut == 0, "a cut or missing reply is an error")
	vfAssert(err != nil || len(body) >= 22, "a short reply is an error")
	vfReach("checked")
}

// VF_C13_long: slices of 100, 257, 481, 1000 (thorough: 16000) elements of 1 to 8 bytes, with any value at the first, the last,
// the 128th and the 256th element and fixed different values elsewhere; slices of 5 strings.
func VF_C13_long() {
	kind := []int{1, 2, 3, 7, 8, 9}[vfPick("kind", 6)]
	_, size := vfReadPtr(kind)
	k := []int{100, 257, 481, 1000, 16000 / size}[vfPick("k", 4+vfTier())]
	raw := make([]byte, k*size)
	for i := range raw {
		raw[i] = byte(i*7 + i/256)
	}
	at := []int{0, 99, k - 1}
	if k > 256 {
		at = []int{0, 127, 128, 255, 256, k - 1}
	}
	for _, i := range at {
		copy(raw[i*size:], vfBytes("value", size))
	}
	s := reflect.ValueOf(vfReadSlice(kind, k))
	for i := 0; i < k; i++ {
		s.Index(i).Set(reflect.ValueOf(vfGoOf(kind, raw[i*size:(i+1)*size])))
	}
	c, conn := vfC13client()
	vfAssert(c.Write("arr", s.Interface()) == nil, "an acknowledged write is a success")
	vfC13sent(c, conn, vfNameSeg([]byte("arr")), vfCat([]byte{vfWriteType(kind), 0}, vfLe16(uint16(k)), raw))
}

// VF_C13_longpath: paths of one to four parts of 20 to 80 characters with an index or none: the path length counts all of it,
// and a path that is too long for its length field is an error.
func VF_C13_longpath() {
	name, path := vfLongPath()
	var v any = int16(5)
	body := []byte{0xC3, 0, 1, 0, 5, 0}
	if vfBool("udt") {
		b := vfBytes("raw", vfUdtsize)
		v, body = vfUdtof(b), vfCat([]byte{0xA0, 2}, vfLe16(vfCrc16("vfUdt,DINT,INT,INT,REAL[2],ULINT")), []byte{1, 0}, b)
	}
	c, conn := vfC13client()
	err := c.Write(name, v)
	if len(path) > 510 {
		vfAssert(err != nil && len(conn.frames) == 0, "a path that is too long is an error")
		return
	}
	vfAssert(err == nil, "an acknowledged write is a success")
	vfC13sent(c, conn, path, body)
}

type vfOdd struct {
	A int32
	B int16
	C int8
}

// VF_C13_stride: slices of 1 to 4 structures whose size is not a multiple of their alignment, any values: every element starts
// at a multiple of the alignment.
func VF_C13_stride() {
	n := 1 + vfPick("n", 4)
	vs := make([]vfOdd, n)
	var raw []byte
	for i := range vs {
		b := vfBytes("raw", 7)
		vs[i] = vfOdd{int32(vfU32le(b)), int16(vfU16le(b[4:])), int8(b[6])}
		raw = vfCat(raw, b, []byte{0})
	}
	c, conn := vfC13client()
	vfAssert(c.Write("odd", vs) == nil, "an acknowledged write is a success")
	vfC13sent(c, conn, vfNameSeg([]byte("odd")), vfCat([]byte{0xA0, 2}, vfLe16(vfCrc16("vfOdd,DINT,INT,SINT")), vfLe16(uint16(n)), raw))
}
