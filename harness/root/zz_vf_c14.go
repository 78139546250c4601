package gologix

// vfC14 is a tag to write: its value, the type code and element count it must be written with and its bytes.
type vfC14 struct {
	value any
	head  []byte
	data  []byte
}

func vfC14of(name string, what int) vfC14 {
	switch what {
	case 0:
		b := vfBytes(name, 2)
		return vfC14{vfGoOf(2, b), []byte{0xC3, 0, 1, 0}, b}
	case 1:
		s := vfStr(name, vfPick("len", 3))
		b := make([]byte, 84)
		copy(b, s)
		return vfC14{s, []byte{0xA0, 2, 0xCE, 0x0F, 1, 0}, vfCat(vfLe32(uint32(len(s))), b)}
	case 2:
		b := vfBytes(name, 8)
		return vfC14{[]int32{int32(vfU32le(b)), int32(vfU32le(b[4:]))}, []byte{0xC4, 0, 2, 0}, b}
	case 3:
		b := vfBytes(name, 1)
		vfAssume(b[0] <= 1)
		return vfC14{b[0] == 1, []byte{0xC1, 0, 1, 0}, b}
	case 4:
		b := vfBytes(name, vfUdtsize)
		return vfC14{vfUdtof(b), vfCat([]byte{0xA0, 2}, vfLe16(vfCrc16("vfUdt,DINT,INT,INT,REAL[2],ULINT")), []byte{1, 0}), b}
	case 5:
		b := vfBytes(name, 4)
		return vfC14{vfGoOf(9, b), []byte{0xCA, 0, 1, 0}, b}
	case 6:
		b := vfBytes(name, 3)
		return vfC14{[]uint8{b[0], b[1], b[2]}, []byte{0xD1, 0, 3, 0}, b}
	}
	b := vfBytes(name, 8)
	return vfC14{vfGoOf(8, b), []byte{0xD4, 0, 1, 0}, b}
}

var vfC14names = []string{"a", "Bb", "longName", "d4[3]"}

func vfC14path(i int) []byte {
	if i == 3 {
		return vfCat(vfNameSeg([]byte("d4")), []byte{0x28, 3})
	}
	return vfNameSeg([]byte(vfLower(vfC14names[i])))
}

// VF_C14_map: WriteMap of 1 to 3 tags of eight kinds, any values, any status of each tag and any encapsulation status.
func VF_C14_map() {
	k := 1 + vfPick("tags", 3)
	w := vfPick("what", 8)
	step := 1
	if k > 1 {
		step = 1 + vfPick("step", 3)
	}
	m := map[string]any{}
	var want []vfC14
	var tags []*vfPlcTag
	failed := false
	for i := 0; i < k; i++ {
		x := vfC14of(vfC14names[i], (w+i*step)%8)
		t := &vfPlcTag{path: vfC14path(i), status: vfU8("status")}
		if i > 0 {
			vfAssume(t.status == 0 || t.status == 5)
		}
		failed = failed || t.status != 0
		m[vfC14names[i]] = x.value
		want, tags = append(want, x), append(tags, t)
	}
	c, p, _ := vfPlcClient(tags...)
	p.eip = vfU32("eip")
	failed = failed || p.eip != 0
	err := c.WriteMap(m)
	vfAssert((err != nil) == failed, "a write of several tags succeeds exactly if all were written")
	for i, t := range tags {
		vfAssert(len(t.wrote) == 1, "every tag is written once")
		vfAssert(vfEq(t.wrote[0], vfCat(want[i].head, want[i].data)), "every tag is written with its own type, count and value")
	}
	vfReach("written")
}

type vfC14emb struct {
	P int16 `gologix:"p"`
}

type vfC14in struct {
	X int32
	Y [2]int16
}

type vfC14multi struct {
	A int16 `gologix:"a"`
	vfC14emb
	N int
	L []int32  `gologix:"l"`
	Q [3]uint8 `gologix:"q"`
	S string   `gologix:"s"`
	U vfC14in  `gologix:"u"`
}

// VF_C14_multi: WriteMulti of a structure with untagged, embedded, slice, array, string and nested structure fields, any
// values, any status of one of the tags.
func VF_C14_multi() {
	b := vfBytes("values", 27)
	s := vfStr("s", vfPick("len", 3))
	v := vfC14multi{A: int16(vfU16le(b)), vfC14emb: vfC14emb{int16(vfU16le(b[2:]))}, N: 7, L: []int32{int32(vfU32le(b[4:])), int32(vfU32le(b[8:]))},
		Q: [3]uint8{b[12], b[13], b[14]}, S: s, U: vfC14in{int32(vfU32le(b[15:])), [2]int16{int16(vfU16le(b[19:])), int16(vfU16le(b[21:]))}}}
	pad := make([]byte, 84)
	copy(pad, s)
	paths := [][]byte{vfNameSeg([]byte("a")), vfNameSeg([]byte("p")), vfNameSeg([]byte("l")), vfNameSeg([]byte("q")), vfNameSeg([]byte("s")),
		vfCat(vfNameSeg([]byte("u")), vfNameSeg([]byte("x"))), vfCat(vfNameSeg([]byte("u")), vfNameSeg([]byte("y")))}
	want := [][]byte{vfCat([]byte{0xC3, 0, 1, 0}, b[:2]), vfCat([]byte{0xC3, 0, 1, 0}, b[2:4]), vfCat([]byte{0xC4, 0, 2, 0}, b[4:12]),
		vfCat([]byte{0xD1, 0, 3, 0}, b[12:15]), vfCat([]byte{0xA0, 2, 0xCE, 0x0F, 1, 0}, vfLe32(uint32(len(s))), pad),
		vfCat([]byte{0xC4, 0, 1, 0}, b[15:19]), vfCat([]byte{0xC3, 0, 2, 0}, b[19:23])}
	var tags []*vfPlcTag
	for _, p := range paths {
		tags = append(tags, &vfPlcTag{path: p})
	}
	bad := vfPick("bad", 7)
	tags[bad].status = vfU8("status")
	c, _, _ := vfPlcClient(tags...)
	err := c.WriteMulti(v)
	vfAssert((err == nil) == (tags[bad].status == 0), "a write of several tags succeeds exactly if all were written")
	for i, t := range tags {
		vfAssert(len(t.wrote) == 1 && vfEq(t.wrote[0], want[i]), "every field is written once with its own type, count and value")
	}
	vfReach("written")
}

// VF_C14_split: WriteMap of 1 to 4 tags with any connection size around the points where it must be split, any one failing.
func VF_C14_split() {
	k := 1 + vfPick("tags", 4)
	size := 20 + vfPick("size", 56)
	bad := vfPick("bad", 5)
	m := map[string]any{}
	var tags []*vfPlcTag
	need := 0
	for i := 0; i < k; i++ {
		t := &vfPlcTag{path: vfC14path(i)}
		if i == bad {
			t.status = 8
		}
		m[vfC14names[i]] = int16(100 + i)
		tags = append(tags, t)
		if n := 10 + 2 + 2 + len(t.path) + 6; n > need {
			need = n
		}
	}
	c, p, _ := vfPlcClient(tags...)
	c.ConnectionSize = uint16(size)
	err := c.WriteMap(m)
	vfAssert(p.limit <= size, "every message fits the connection size")
	vfAssert(err == nil || need > size || bad < k, "tags that fit are written")
	if err != nil {
		return
	}
	vfAssert(bad >= k, "a failed write is an error")
	for i, t := range tags {
		vfAssert(len(t.wrote) == 1 && vfEq(t.wrote[0], []byte{0xC3, 0, 1, 0, byte(100 + i), 0}), "every tag is written once")
	}
	vfReach("written")
}

// VF_C14_malformed: a write of two tags answered by 0 to 20 any bytes of connected data, count 0 to 3 or many, offsets inside,
// below and beyond the replies.
func VF_C14_malformed() {
	n := []int{20, 18, 16, 12, 11, 8, 7, 2, 0}[vfPick("n", 9)]
	data := vfBytes("data", n)
	o1, o2 := 6, 10
	if n >= 12 {
		o1 = []int{6, 10, 5, 0, 8, 14, 0xFFFF, 7}[vfPick("first", 8)]
		o2 = []int{10, 6, 5, 0, 8, 14, 0xFFFA, 11}[vfPick("second", 8)]
		data[8], data[9], data[10], data[11] = byte(o1), byte(o1>>8), byte(o2), byte(o2>>8)
	}
	if n >= 8 {
		cnt := vfU16le(data[6:])
		vfAssume(cnt <= 3 || cnt == 0xFFFF)
	}
	c, conn := vfNetClient(nil)
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(7, data))
	}
	err := c.WriteMap(map[string]any{"aa": int16(1), "bb": int16(2)})
	if n >= 8 && (data[2] != 0x8A || vfU16le(data[4:]) != 0 || vfU16le(data[6:]) != 2) {
		vfAssert(err != nil, "a failed or incomplete reply is an error")
		return
	}
	if n < 12 {
		vfAssert(err != nil, "a truncated reply is an error")
		return
	}
	body := data[6:]
	ok := n >= 12 && data[4] == 0
	for _, o := range []int{o1, o2} {
		ok = ok && o >= 6 && o+4 <= len(body) && body[o] == 0xCD && body[o+2] == 0
	}
	if !ok {
		vfAssert(err != nil, "a missing or failed acknowledgement is an error")
		return
	}
	if err == nil {
		vfReach("acknowledged")
	}
}

// VF_C14_many: WriteMap of 40 tags with names of 20 or 33 characters and of 300 tags with names of 4, of any values, with
// connection sizes of 4000, 511 and 300 bytes, all or all but one written: offsets past 255 and 1024, more than 255 services in
// one message, many splits.
func VF_C14_many() {
	k, l := 40, []int{20, 33, 4}[vfPick("len", 3)]
	if l == 4 {
		k = 300
	}
	size := []int{4000, 511, 300}[vfPick("size", 3)]
	bad := []int{-1, 0, k / 2, k - 1}[vfPick("bad", 4)]
	m := map[string]any{}
	var tags []*vfPlcTag
	var want [][]byte
	for i := 0; i < k; i++ {
		name := vfC12name(i, l)
		b := vfBytes("v", 2)
		m[name] = int16(vfU16le(b))
		t := &vfPlcTag{path: vfNameSeg([]byte(name))}
		if i == bad {
			t.status = 5
		}
		tags, want = append(tags, t), append(want, vfCat([]byte{0xC3, 0, 1, 0}, b))
	}
	c, p, _ := vfPlcClient(tags...)
	c.ConnectionSize = uint16(size)
	err := c.WriteMap(m)
	vfAssert(p.limit <= size, "every message fits the connection size")
	vfAssert((err == nil) == (bad < 0), "a write of many tags succeeds exactly if all were written")
	if err != nil {
		return
	}
	ok := true
	for i, t := range tags {
		ok = ok && len(t.wrote) == 1 && vfEq(t.wrote[0], want[i])
	}
	vfAssert(ok, "every tag is written once with its own value")
}

type vfC14deep struct {
	A int16 `gologix:"a"`
	U struct {
		B int32
		V struct {
			C int16
			D [2]int8
		}
	} `gologix:"u"`
	W []int16 `gologix:"w[2]"`
	E float32 `gologix:"e.f"`
}

// VF_C14_deep: WriteMulti of a structure with structures two levels deep, a slice at an index and a member path, any values.
func VF_C14_deep() {
	b := vfBytes("values", 18)
	v := vfC14deep{A: int16(vfU16le(b)), W: []int16{int16(vfU16le(b[10:])), int16(vfU16le(b[12:]))}, E: vfGoOf(9, b[14:]).(float32)}
	v.U.B, v.U.V.C, v.U.V.D = int32(vfU32le(b[2:])), int16(vfU16le(b[6:])), [2]int8{int8(b[8]), int8(b[9])}
	u := vfNameSeg([]byte("u"))
	paths := [][]byte{vfNameSeg([]byte("a")), vfCat(u, vfNameSeg([]byte("b"))), vfCat(u, vfNameSeg([]byte("v")), vfNameSeg([]byte("c"))),
		vfCat(u, vfNameSeg([]byte("v")), vfNameSeg([]byte("d"))), vfCat(vfNameSeg([]byte("w")), []byte{0x28, 2}), vfCat(vfNameSeg([]byte("e")), vfNameSeg([]byte("f")))}
	want := [][]byte{vfCat([]byte{0xC3, 0, 1, 0}, b[:2]), vfCat([]byte{0xC4, 0, 1, 0}, b[2:6]), vfCat([]byte{0xC3, 0, 1, 0}, b[6:8]),
		vfCat([]byte{0xC2, 0, 2, 0}, b[8:10]), vfCat([]byte{0xC3, 0, 2, 0}, b[10:14]), vfCat([]byte{0xCA, 0, 1, 0}, b[14:18])}
	var tags []*vfPlcTag
	for _, p := range paths {
		tags = append(tags, &vfPlcTag{path: p})
	}
	c, _, _ := vfPlcClient(tags...)
	vfAssert(c.WriteMulti(v) == nil, "the structure is written")
	for i, t := range tags {
		vfAssert(len(t.wrote) == 1 && vfEq(t.wrote[0], want[i]), "every field is written once with its own type, count and value")
	}
}
