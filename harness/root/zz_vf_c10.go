package gologix

import "reflect"

// VF_C10_scalar: Read of every elementary Go type; any encapsulation status, reply data of 0 to 7 bytes or a header followed
// by 0 to 9 bytes, every byte of it.
func VF_C10_scalar() {
	kind := vfPick("kind", vfReadKinds)
	p, size := vfReadPtr(kind)
	n := 6 + vfPick("n", size+4)
	if vfTier() > 0 {
		n = vfPick("n2", size+11)
	}
	status := vfU32("status")
	data := vfBytes("data", n)
	c, conn := vfNetClient(func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, status, vfConnBody(vfU32("toid"), data))
	})
	err := c.Read("Tag", p)
	vfReadReq(c, conn, vfNameSeg([]byte("Tag")), 1)
	good := status == 0 && n >= 8+size
	if n >= 8+size {
		good = good && data[4] == 0 && vfKindOf(data[6], kind)
	}
	if err != nil {
		ext := n >= 6 && data[5] != 0
		vfAssert(!good || ext, "a good reply is read")
		return
	}
	vfAssert(good, "only a successful complete reply of the type asked for is a success")
	vfAssert(vfHolds(vfDeref(p), data[8:8+size]), "the value is the one in the reply")
	vfReach("value")
}

// VF_C10_array: Read of slices of 1 to 3 elements of every elementary type; reply data of any bytes, complete or 1 byte short.
func VF_C10_array() {
	kind := vfPick("kind", vfReadKinds)
	if kind == 0 {
		kind = 3
	}
	_, size := vfReadPtr(kind)
	k := 1 + vfPick("elements", 3)
	n := 8 + k*size - vfPick("short", 2)
	data := vfBytes("data", n)
	vfAssume(data[5] == 0)
	c, conn := vfNetClient(func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(vfU32("toid"), data))
	})
	s := vfReadSlice(kind, k)
	err := c.Read("Tag", s)
	vfReadReq(c, conn, vfNameSeg([]byte("Tag")), uint16(k))
	good := n == 8+k*size && data[4] == 0 && vfKindOf(data[6], kind)
	vfAssert((err == nil) == good, "exactly a successful complete reply of the type asked for is a success")
	if err != nil {
		return
	}
	ok := true
	for i := 0; i < k; i++ {
		ok = ok && vfHolds(reflect.ValueOf(s).Index(i).Interface(), data[8+i*size:8+(i+1)*size])
	}
	vfAssert(ok, "every element is the one in the reply")
	vfReach("value")
}

// VF_C10_bools: Read of 0, 32, 64, 96 (thorough: 1024) booleans from 32-bit words of any value and any type; other lengths are refused.
func VF_C10_bools() {
	k := []int{0, 1, 31, 32, 64, 33, 96, 1024}[vfPick("k", 7+vfTier())]
	data := vfBytes("data", 8+k/8)
	vfAssume(data[5] == 0)
	c, conn := vfNetClient(func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(1, data))
	})
	s := make([]bool, k)
	err := c.Read("Tag", s)
	if k%32 != 0 {
		vfAssert(err != nil, "a number of booleans that is not a number of words is refused")
		return
	}
	if k == 0 {
		return
	}
	vfReadReq(c, conn, vfNameSeg([]byte("Tag")), uint16(k/32))
	good := data[4] == 0 && vfKindOf(data[6], 7)
	vfAssert((err == nil) == good, "exactly a successful reply of 32-bit words is a success")
	if err != nil {
		return
	}
	ok := true
	for i := range s {
		ok = ok && s[i] == (data[8+i/8]>>(i%8)&1 == 1)
	}
	vfAssert(ok, "every boolean is its bit")
}

// VF_C10_bit: a bit of a tag of any integer type and value, any bit number from 0 to 63.
func VF_C10_bit() {
	t := vfTypes[vfPick("type", len(vfTypes))]
	u := vfU64("value")
	w := vfLe64(u)[:t.size]
	bit := vfPick("bit", 64)
	c, _ := vfNetClient(func(cn *vfConn, f []byte) []byte {
		return vfAnswer(f, 0, vfConnBody(1, vfCat([]byte{1, 0, 0xCC, 0, 0, 0, byte(t.t), 0}, w)))
	})
	txt := []byte("Tag.")
	if bit >= 10 {
		txt = append(txt, byte('0'+bit/10))
	}
	txt = append(txt, byte('0'+bit%10))
	var b bool
	err := c.Read(string(txt), &b)
	if t.t == CIPTypeREAL || t.t == CIPTypeLREAL {
		vfAssert(err != nil, "a real has no bits")
		return
	}
	if bit > 31 || t.t == CIPTypeBOOL {
		return // not a bit number: part of the name
	}
	if bit >= 8*t.size {
		vfAssert(err != nil, "a bit outside the type is an error")
		return
	}
	vfAssert(err == nil && b == (u>>bit&1 == 1), "the bit is the bit of the value")
}

// VF_C10_string: Read of a string; reply data of a structure handle, any length field and 0 to 6 characters (thorough: 84),
// every byte, any status and type.
func VF_C10_string() {
	k := vfPick("chars", 7)
	if vfTier() > 0 && k == 6 {
		k = 84
	}
	data := vfBytes("data", 14+k)
	vfAssume(data[5] == 0)
	l := vfU32le(data[10:])
	c, conn := vfNetClient(func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(1, data))
	})
	var s string
	err := c.Read("Tag", &s)
	vfReadReq(c, conn, vfNameSeg([]byte("Tag")), 1)
	good := data[4] == 0 && data[6] == 0xA0 && l <= uint32(k)
	vfAssert((err == nil) == good, "exactly a successful structure reply that holds the whole string is a success")
	if err != nil {
		return
	}
	n := int(vfConc(uint64(l)))
	vfAssert(len(s) == n && vfEq([]byte(s), data[14:14+n]), "the string is the one in the reply")
	vfReach("value")
}

// VF_C10_strings: Read of 1 to 2 strings, slots of 4 bytes length and 82 characters, any status, type, lengths; the first
// and last characters of each slot arbitrary, the rest fixed.
func VF_C10_strings() {
	k := 1 + vfPick("k", 2)
	data := vfBytes("head", 8)
	vfAssume(data[5] == 0)
	good := data[4] == 0 && data[6] == 0xA0
	var ls []uint32
	for i := 0; i < k; i++ {
		l := vfU32("len")
		vfAssume(l <= 3 || l >= 81 && l <= 84 || l >= 0xFFFFFFFE)
		good = good && l <= 82
		ls = append(ls, l)
		body := make([]byte, 82)
		for j := range body {
			body[j] = byte('a' + i*7 + j%20)
		}
		body[0], body[81] = vfU8("first"), vfU8("last")
		data = vfCat(data, []byte{0xCE, 0x0F}, vfLe32(l), body)
	}
	c, conn := vfNetClient(func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(1, data))
	})
	s := make([]string, k)
	err := c.Read("Tag", s)
	vfReadReq(c, conn, vfNameSeg([]byte("Tag")), uint16(k))
	vfAssert((err == nil) == good, "exactly a successful reply with lengths that fit is a success")
	if err != nil {
		return
	}
	for i := range s {
		n := int(vfConc(uint64(ls[i])))
		vfAssert(s[i] == string(data[8+88*i+6:8+88*i+6+n]), "every string is its own")
	}
	vfReach("value")
}

// VF_C10_struct: Read of a structure and of slices of 1 to 2 structures from any reply bytes, complete, short by 1 byte or
// by a whole structure, any status and type.
func VF_C10_struct() {
	k := vfPick("slice", 3)
	cnt := k
	if k == 0 {
		cnt = 1
	}
	n := 10 + cnt*vfUdtsize - []int{0, 1, vfUdtsize}[vfPick("short", 3)]
	data := vfBytes("data", n)
	vfAssume(data[5] == 0)
	c, conn := vfNetClient(func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(1, data))
	})
	var one vfUdt
	many := make([]vfUdt, k)
	var err error
	if k == 0 {
		err = c.Read("Tag", &one)
	} else {
		err = c.Read("Tag", many)
	}
	vfReadReq(c, conn, vfNameSeg([]byte("Tag")), uint16(cnt))
	good := n == 10+cnt*vfUdtsize && data[4] == 0 && data[6] == 0xA0
	vfAssert((err == nil) == good, "exactly a successful complete structure reply is a success")
	if err != nil {
		return
	}
	if k == 0 {
		many = []vfUdt{one}
	}
	for i := range many {
		vfAssert(vfUdtsame(many[i], data[10+i*vfUdtsize:]), "the structure is the one in the reply")
	}
	vfReach("value")
}

// VF_C10_single: Read_single of 1 to 3 elements of an unnamed or any elementary type from any reply bytes, complete or 1 short.
func VF_C10_single() {
	rt := vfTypes[vfPick("type", len(vfTypes))]
	want := []CIPType{CIPTypeUnknown, rt.t, CIPTypeBOOL, CIPTypeStruct, CIPTypeSTRING}[vfPick("want", 5)]
	k := 1 + vfPick("elements", 3)
	n := 8 + k*rt.size - vfPick("short", 2)
	data := vfBytes("data", n)
	vfAssume(data[5] == 0 && data[6] == byte(rt.t))
	c, conn := vfNetClient(func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(1, data))
	})
	v, err := c.Read_single("Tag", want, uint16(k))
	vfReadReq(c, conn, vfNameSeg([]byte("Tag")), uint16(k))
	good := n == 8+k*rt.size && data[4] == 0
	vfAssert((err == nil) == good, "exactly a successful complete reply is a success")
	if err != nil {
		return
	}
	vs := []any{v}
	if k > 1 {
		vs = v.([]any)
	}
	vfAssert(len(vs) == k, "as many elements as asked for")
	for i := range vs {
		vfAssert(vfGoValue(rt.t, vs[i], vfNum(data[8+i*rt.size:8+(i+1)*rt.size])), "every element is the one in the reply")
	}
}

// VF_C10_any: Read into an interface variable: the value in the reply or the bytes of the structure, any reply of up to 9 data bytes.
func VF_C10_any() {
	data := vfBytes("data", 8+vfPick("n", 10))
	vfAssume(data[5] == 0 && data[4] != 6)
	c, _ := vfNetClient(func(cn *vfConn, f []byte) []byte {
		return vfAnswer(f, 0, vfConnBody(1, data))
	})
	var v any
	err := c.Read("Tag", &v)
	if data[4] != 0 {
		vfAssert(err != nil, "a failed read is an error")
		return
	}
	if data[6] == 0xA0 {
		b, ok := v.([]byte)
		vfAssert((err == nil) == (len(data) >= 10), "a structure reply with a handle is a success")
		vfAssert(err != nil || ok && vfEq(b, data[10:]), "a structure is its bytes")
		return
	}
	for _, t := range vfTypes {
		if data[6] == byte(t.t) {
			vfAssert((err == nil) == (len(data) >= 8+t.size), "exactly a complete reply is a success")
			vfAssert(err != nil || vfGoValue(t.t, v, vfNum(data[8:8+t.size])), "the value is the one in the reply")
			return
		}
	}
	if data[6] != byte(CIPTypeSTRING) {
		vfAssert(err != nil, "an unknown type is an error")
	}
}

// VF_C10_frame: a 32-bit read answered by any bytes at all: an encapsulation header that announces the right length, 3 less or
// 2 more, and any body of 0, 7, 8, 12, 20, 27, 28 or 32 bytes with up to 3 items of 0, 4, 7, 11, 12 or 65535 bytes, the longest
// received in pieces of 1, 10 or any number of bytes.
func VF_C10_frame() {
	l := []int{0, 7, 8, 12, 20, 27, 28, 32}[vfPick("len", 8)]
	body := vfBytes("body", l)
	dl := vfPick("announce", 3)
	hdr := vfBytes("hdr", 24)
	n := l
	if dl == 1 && l >= 3 {
		n = l - 3
	}
	if dl == 2 {
		n = l + 2
	}
	hdr[2], hdr[3] = byte(n), 0
	if n > l {
		n = 0
	}
	var items [][]byte
	if n >= 8 {
		cnt := vfU16le(body[6:])
		vfAssume(cnt <= 3 || cnt == 300)
		pos, k := 8, int(vfConc(uint64(cnt)))
		for i := 0; i < k && pos+4 <= n; i++ {
			w := vfU16le(body[pos+2:])
			vfAssume(w == 0 || w == 4 || w == 7 || w == 11 || w == 12 || w == 65535)
			z := int(vfConc(uint64(w)))
			if pos+4+z > n {
				break
			}
			items = append(items, body[pos+4:pos+4+z])
			pos += 4 + z
		}
		if len(items) != k {
			items = nil
		}
	}
	good := len(items) == 2 && len(items[1]) >= 12 && vfU32le(hdr[8:]) == 0
	if good {
		vfAssume(items[1][5] == 0)
		good = items[1][4] == 0 && items[1][6] == byte(CIPTypeDINT)
	}
	c, conn := vfNetClient(func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfCat(hdr, body)
	})
	if l == 32 {
		conn.chunk = []int{0, 1, 10}[vfPick("chunk", 3)]
	}
	var v int32
	err := c.Read("Tag", &v)
	vfAssert((err == nil) == good, "exactly a well formed successful reply is a success")
	if err == nil {
		vfAssert(uint32(v) == vfU32le(items[1][8:]), "the value is the one in the reply")
		vfReach("value")
	}
}

// VF_C10_broken: the connection fails while sending, or the reply ends after any number of its bytes.
func VF_C10_broken() {
	c, conn := vfNetClient(nil)
	cut := vfPick("cut", 24+8+8+4+12)
	conn.refuse = vfPick("refuse", 2) == 1
	data := vfBytes("data", 12)
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(1, data))[:cut]
	}
	v := int32(5)
	vfAssert(c.Read("Tag", &v) != nil, "a failed exchange is an error")
	vfAssert(v == 5, "and leaves the variable alone")
}

// VF_C10_count: Read_single of any number of elements up to 65534, Read of slices of 256, 32768, 40000 or 65535 elements: the request has
// the count, and a reply with an error status (thorough: any but success and partial transfer) is an error, and one without data too.
func VF_C10_count() {
	k := uint16(0)
	st := byte(4)
	if vfTier() > 0 {
		st = vfU8("status")
		vfAssume(st != 0 && st != 6)
	}
	c, conn := vfNetClient(nil)
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		if k == 65535 {
			return vfAnswer(f, 0, vfConnBody(1, vfSeqReply(f, []byte{0xCC, 0, 0, 0, 0xC4, 0})))
		}
		return vfAnswer(f, 0, vfConnBody(1, vfSeqReply(f, []byte{0xCC, 0, st, 0})))
	}
	var err error
	if vfBool("single") {
		k = vfU16("k")
		vfAssume(k > 0 && k < 65535)
		_, err = c.Read_single("Tag", CIPTypeDINT, k)
	} else {
		k = []uint16{256, 32768, 40000, 65535}[vfPick("long", 4)]
		err = c.Read("Tag", make([]int32, k))
	}
	vfReadReq(c, conn, vfNameSeg([]byte("Tag")), k)
	vfAssert(err != nil, "a failed or incomplete read is an error")
}

// VF_C10_long: Read of slices of 100, 257 or 1000 (thorough: 4000) elements of 1 to 8 bytes, with any value at the first, the
// last and the 128th or 256th element and fixed different values elsewhere.
func VF_C10_long() {
	kind := []int{1, 2, 3, 7, 8, 9, 4}[vfPick("kind", 3+4*vfTier())]
	_, size := vfReadPtr(kind)
	k := []int{100, 257, 1000, 4000}[vfPick("k", 3+vfTier())]
	data := make([]byte, 8+k*size)
	for i := range data {
		data[i] = byte(i*7 + i/256)
	}
	at := []int{0, 99, k - 1}
	if k > 256 {
		at = []int{0, 127, 128, 255, 256, k - 1}
	}
	for _, i := range at {
		copy(data[8+i*size:], vfBytes("value", size))
	}
	t := byte(0)
	for x := 0xC1; x < 0x100; x++ {
		if vfKindOf(byte(x), kind) {
			t = byte(x)
			break
		}
	}
	data[4], data[5], data[6], data[7] = 0, 0, t, 0
	c, conn := vfNetClient(func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(1, data))
	})
	s := vfReadSlice(kind, k)
	vfAssert(c.Read("Tag", s) == nil, "a complete reply is a success")
	vfReadReq(c, conn, vfNameSeg([]byte("Tag")), uint16(k))
	ok := true
	for i := 0; i < k; i++ {
		ok = ok && vfHolds(reflect.ValueOf(s).Index(i).Interface(), data[8+i*size:8+(i+1)*size])
	}
	vfAssert(ok, "every element is the one in the reply")
}

// VF_C10_longpath: paths of one to four parts of 20 to 80 characters with an index or none: the request has all of the path, and
// a path that is too long for its length field is an error.
func VF_C10_longpath() {
	name, path := vfLongPath()
	d := vfBytes("data", 4)
	c, conn := vfNetClient(func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(1, vfSeqReply(f, vfCat([]byte{0xCC, 0, 0, 0, 0xC4, 0}, d))))
	})
	var v int32
	err := c.Read(name, &v)
	if len(path) > 510 {
		vfAssert(err != nil && len(conn.frames) == 0, "a path that is too long is an error")
		return
	}
	vfReadReq(c, conn, path, 1)
	vfAssert(err == nil && vfHolds(v, d), "the value is the one in the reply")
}

// VF_C10_packed: ReadPacked of a structure, of an 8 and of a 32 bit integer: a structure reply of any bytes, complete or short by 1
// or 5 bytes, any status and type.
func VF_C10_packed() {
	n := 10 + vfUdtsize - []int{0, 1, 5}[vfPick("short", 3)]
	data := vfBytes("data", n)
	vfAssume(data[5] == 0)
	c, conn := vfNetClient(func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(1, data))
	})
	switch vfPick("into", 3) {
	case 0:
		one, err := ReadPacked[vfUdt](c, "Tag")
		good := n == 10+vfUdtsize && data[4] == 0 && data[6] == 0xA0
		vfAssert((err == nil) == good, "exactly a successful complete structure reply is a success")
		vfAssert(err != nil || vfUdtsame(one, data[10:]), "the structure is the one in the reply")
		if err == nil {
			vfReach("value")
		}
	case 1:
		v, err := ReadPacked[int8](c, "Tag")
		vfAssert(err != nil || v == int8(data[10]), "a success is the value in the reply")
	case 2:
		v, err := ReadPacked[uint32](c, "Tag")
		vfAssert(err != nil || uint64(v) == vfNum(data[10:14]), "a success is the value in the reply")
	}
	vfReadReq(c, conn, vfNameSeg([]byte("Tag")), 1)
}

// VF_C10_into: Read into things that can't hold a tag: values that are not pointers or slices, nil, pointers to and slices of Go types no
// tag has, slices of interfaces; any reply of a structure handle and 8 bytes, any status and type.
func VF_C10_into() {
	data := vfBytes("data", 18)
	vfAssume(data[5] == 0 && data[4] != 6)
	c, _ := vfNetClient(func(cn *vfConn, f []byte) []byte {
		return vfAnswer(f, 0, vfConnBody(1, data))
	})
	type word int16
	var into any
	switch vfPick("into", 12) {
	case 0:
		into = nil
	case 1:
		into = int32(5)
	case 2:
		into = "text"
	case 3:
		into = [2]int32{}
	case 4:
		into = vfUdt{}
	case 5:
		into = new(int)
	case 6:
		into = new(word)
	case 7:
		into = &[]int32{1, 2}
	case 8:
		into = make([]int, 2)
	case 9:
		into = new(map[string]int)
	case 10:
		into = make([]any, 2)
	case 11:
		into = new([2]int16)
	}
	err := c.Read("Tag", into)
	vfAssert(err != nil, "a read that stores nothing is an error")
}
