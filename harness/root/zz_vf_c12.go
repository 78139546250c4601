package gologix

// vfC12tag makes tag number i of one of several types, an example value for it, its element count and a check of a result.
func vfC12tag(name string, what int) (*vfPlcTag, any, int, func(v any) bool) {
	switch what {
	case 0:
		t := vfPlcScalar(name, 0xC3, 2, 1)
		return t, int16(0), 1, func(v any) bool { x, ok := v.(int16); return ok && vfHolds(x, t.data) }
	case 1:
		s := vfBytes(name, vfPick("len", 4))
		return vfPlcString(name, s), "", 1, func(v any) bool { x, ok := v.(string); return ok && x == string(s) }
	case 2:
		t := vfPlcScalar(name, 0xC4, 4, 2)
		return t, []int32{0, 0}, 2, func(v any) bool {
			x, ok := v.([]any)
			return ok && len(x) == 2 && vfHolds(x[0], t.data[:4]) && vfHolds(x[1], t.data[4:])
		}
	case 3:
		t := vfPlcScalar(name, 0xC1, 1, 1)
		return t, false, 1, func(v any) bool { x, ok := v.(bool); return ok && vfHolds(x, t.data) }
	case 4:
		t := vfPlcScalar(name, 0xD4, 8, 1)
		return t, uint64(0), 1, func(v any) bool { x, ok := v.(uint64); return ok && vfHolds(x, t.data) }
	case 5:
		t := &vfPlcTag{path: vfNameSeg([]byte(name)), typ: []byte{0xA0, 2, 0x34, 0x12}, size: vfUdtsize, data: vfBytes(name, vfUdtsize)}
		return t, vfUdt{}, 1, func(v any) bool { x, ok := v.(vfUdt); return ok && vfUdtsame(x, t.data) }
	case 6:
		t := &vfPlcTag{path: vfNameSeg([]byte(name)), typ: []byte{0xA0, 2, 0x34, 0x12}, size: 5, data: vfBytes(name, 5)}
		return t, nil, 1, func(v any) bool { x, ok := v.([]byte); return ok && vfEq(x, t.data) }
	case 7:
		t := vfPlcScalar(name, 0xCA, 4, 1)
		return t, float32(0), 1, func(v any) bool { x, ok := v.(float32); return ok && vfHolds(x, t.data) }
	case 8:
		t := vfPlcScalar(name, 0xC2, 1, 3)
		return t, []int8{0, 0, 0}, 3, func(v any) bool {
			x, ok := v.([]any)
			return ok && len(x) == 3 && vfHolds(x[0], t.data[:1]) && vfHolds(x[1], t.data[1:2]) && vfHolds(x[2], t.data[2:])
		}
	}
	t := vfPlcScalar(name, 0xC5, 8, 1)
	return t, int64(0), 1, func(v any) bool { x, ok := v.(int64); return ok && vfHolds(x, t.data) }
}

var vfC12names = []string{"a", "Bb", "longName", "d4", "e"}

func vfC12low(s string) []byte {
	return vfNameSeg([]byte(s))
}

// VF_C12_values: ReadList and ReadMap of 1 to 3 tags of ten kinds (integers, boolean, real, string, arrays, structure,
// raw structure) in every combination of neighbours, any values, any status of each tag, any encapsulation status.
func VF_C12_values() {
	k := 1 + vfPick("tags", 2+vfTier())
	var tags []*vfPlcTag
	var names []string
	var types []any
	var elems []int
	var checks []func(any) bool
	w := vfPick("what", 10)
	failed := false
	for i := 0; i < k; i++ {
		t, ex, n, ch := vfC12tag(vfC12names[i], (w+i*(1+vfPick("step", 4)))%10)
		t.status = vfU8("status")
		if i > 0 {
			vfAssume(t.status == 0 || t.status == 4)
		}
		failed = failed || t.status != 0
		tags, names, types, elems, checks = append(tags, t), append(names, vfC12names[i]), append(types, ex), append(elems, n), append(checks, ch)
	}
	c, p, _ := vfPlcClient(tags...)
	p.eip = vfU32("eip")
	failed = failed || p.eip != 0
	var vals []any
	var err error
	if vfPick("map", 2) == 0 {
		vals, err = c.ReadList(names, types, elems)
	} else {
		m := map[string]any{}
		for i := range names {
			m[names[i]] = types[i]
		}
		err = c.ReadMap(m)
		for i := range names {
			vals = append(vals, m[names[i]])
		}
		vfAssert(len(m) == k, "no tag is added to the map")
	}
	vfAssert((err != nil) == failed, "exactly a list whose every tag was read is a success")
	if err != nil {
		return
	}
	vfAssert(len(vals) == k, "one value per tag")
	for i := range vals {
		vfAssert(checks[i](vals[i]), "every value is the one of its own tag")
		vfAssert(tags[i].asked == 1, "every tag is asked for once")
	}
	vfReach("values")
}

type vfC12inner struct {
	P int16 `gologix:"Bb"`
}

type vfC12multi struct {
	A int16 `gologix:"a"`
	vfC12inner
	N  int
	L  []int32  `gologix:"longName"`
	S  string   `gologix:"d4"`
	A2 int16    `gologix:"a"`
	O  []uint16 `gologix:"e"`
}

// VF_C12_multi: ReadMulti of a structure with embedded, untagged, repeated, array and single element array fields: any values,
// any status of one tag, one tag of another type than its field.
func VF_C12_multi() {
	a, b := vfPlcScalar("a", 0xC3, 2, 1), vfPlcScalar("Bb", 0xC3, 2, 1)
	l, e := vfPlcScalar("longName", 0xC4, 4, 2), vfPlcScalar("e", 0xC7, 2, 1)
	s := vfBytes("s", vfPick("len", 3))
	d := vfPlcString("d4", s)
	all := []*vfPlcTag{a, b, l, d, e}
	bad := vfPick("bad", 6)
	if bad < 5 {
		all[bad].status = vfU8("status")
	}
	odd := vfPick("odd", 6)
	if odd < 5 {
		all[odd].typ = [][]byte{{0xC7, 0}, {0xC4, 0}, {0xCA, 0}, {0xC4, 0}, {0xA0, 2, 1, 1}}[odd]
		all[odd].data = append(all[odd].data, 0, 0, 0, 0)
	}
	c, _, _ := vfPlcClient(all...)
	v := vfC12multi{L: make([]int32, 2), O: make([]uint16, 1), N: 99}
	err := c.ReadMulti(&v)
	good := odd == 5
	if bad < 5 {
		good = good && all[bad].status == 0
	}
	vfAssert((err == nil) == good, "exactly a structure whose every field was read as its type is a success")
	if err != nil {
		return
	}
	vfAssert(vfHolds(v.A, a.data) && vfHolds(v.A2, a.data), "both fields of one tag have its value")
	vfAssert(vfHolds(v.P, b.data), "an embedded field has its value")
	vfAssert(len(v.L) == 2 && vfHolds(v.L[0], l.data[:4]) && vfHolds(v.L[1], l.data[4:]), "an array has its values")
	vfAssert(len(v.O) == 1 && vfHolds(v.O[0], e.data), "a single element array has its value")
	vfAssert(v.S == string(s) && v.N == 99, "other fields have theirs")
	vfReach("values")
}

// VF_C12_split: ReadList, ReadMap and ReadMulti of 1 to 4 tags with names of 1 to 8 characters and any connection size around
// the points where the list must be split: order, exactness and the size of every message.
func VF_C12_split() {
	k := 1 + vfPick("tags", 4)
	size := 14 + vfPick("size", 44)
	how := vfPick("how", 3)
	if how == 2 {
		k = 4
	}
	var tags []*vfPlcTag
	var types []any
	var elems []int
	need := 0
	for i := 0; i < k; i++ {
		t := vfPlcScalar(vfC12names[i], 0xC3, 2, 1)
		tags, types, elems = append(tags, t), append(types, int16(0)), append(elems, 1)
		if n := 10 + 2 + 2 + len(t.path) + 2; n > need {
			need = n
		}
	}
	c, p, _ := vfPlcClient(tags...)
	c.ConnectionSize = uint16(size)
	var vals []any
	var err error
	switch how {
	case 0:
		vals, err = c.ReadList(vfC12names[:k], types, elems)
	case 1:
		m := map[string]any{}
		for i := range tags {
			m[vfC12names[i]] = int16(0)
		}
		err = c.ReadMap(m)
		for i := range tags {
			vals = append(vals, m[vfC12names[i]])
		}
	default:
		var v struct {
			A int16 `gologix:"a"`
			B int16 `gologix:"Bb"`
			C int16 `gologix:"longName"`
			D int16 `gologix:"d4"`
		}
		err = c.ReadMulti(&v)
		vals = []any{v.A, v.B, v.C, v.D}
	}
	vfAssert(p.limit <= size, "every message fits the connection size")
	vfAssert(err == nil || need >= size, "tags that fit are read")
	if err != nil {
		return
	}
	vfAssert(len(vals) == k && len(p.order) == k, "every tag is asked for once")
	for i := range vals {
		vfAssert(vfHolds(vals[i], tags[i].data), "every value is the one of its own tag")
		vfAssert(how == 1 || p.order[i] == i, "in the order given")
	}
	vfReach("values")
}

// VF_C12_malformed: two tags, an integer and a string, bit or structure, answered by any bytes: count 0 to 3, offsets inside,
// below, across and beyond the replies, in either order and overlapping, any embedded services, statuses, types and values.
func VF_C12_malformed() {
	n := []int{32, 26, 20}[vfPick("n", 3)]
	data := vfBytes("data", n)
	second := vfPick("second", 3)
	vfAssume(data[3] == 0)
	cnt := vfU16le(data[6:])
	vfAssume(cnt <= 3)
	o1 := []int{6, 16, 0, 5, 22, 24, 0xFFFF}[vfPick("first", 7)]
	o2 := []int{16, 6, 14, 22, 26, 0, 0xFFF6}[vfPick("offset", 7)]
	if vfTier() == 0 && n != 32 {
		vfAssume(o1 == 6 || o2 == 6)
	}
	data[8], data[9], data[10], data[11] = byte(o1), byte(o1>>8), byte(o2), byte(o2>>8)
	c, conn := vfNetClient(nil)
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if len(cn.frames) > 1 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(7, data))
	}
	names := []string{"aa", []string{"bb", "bb.3", "bb"}[second]}
	ex := []any{int32(0), []any{"", false, vfUdt{}}[second]}
	vals, err := c.ReadList(names, ex, []int{1, 1})
	st := vfU16le(data[4:])
	if st != 0 || cnt != 2 {
		vfAssert(err != nil, "a failed or incomplete reply is an error")
		return
	}
	// each reply goes from its offset to the next offset or the end
	body := data[6:]
	e1, e2 := len(body), len(body)
	if o1 < o2 && o2 < e1 {
		e1 = o2
	}
	if o2 < o1 && o1 < e2 {
		e2 = o1
	}
	if o1 < 6 || o2 < 6 || o1+4 > e1 || o2+4 > e2 {
		vfAssert(err != nil, "an offset outside the replies is an error")
		return
	}
	r1, r2 := body[o1:e1], body[o2:e2]
	if vfU16le(r1[2:]) != 0 || vfU16le(r2[2:]) != 0 || r1[0] < 0x80 || r2[0] < 0x80 || len(r1) < 6 || len(r2) < 6 {
		vfAssert(err != nil, "a failed tag is an error")
		return
	}
	if r1[4] == 0xC4 && len(r1) < 10 {
		vfAssert(err != nil, "a truncated value is an error")
		return
	}
	if err != nil {
		return
	}
	vfAssert(len(vals) == 2, "one value per tag")
	if r1[4] == 0xC4 {
		vfAssert(vfHolds(vals[0], r1[6:10]), "the first value is its own")
	}
	switch second {
	case 0:
		s, ok := vals[1].(string)
		vfAssert(ok && r2[4] == 0xA0 && len(r2) >= 12, "a string comes from a string")
		l := vfU32le(r2[8:])
		vfAssert(int(l) <= len(r2)-12 && len(s) == int(l) && vfEq([]byte(s), r2[12:12+int(vfConc(uint64(l)))]), "the string is its own")
		vfReach("string")
	case 1:
		b, ok := vals[1].(bool)
		vfAssert(ok, "a bit is a boolean")
		if r2[4] != 0xC1 && len(r2) >= 7 {
			vfAssert(b == (r2[6]>>3&1 == 1), "the bit is its own")
		}
	}
	vfReach("value")
}

// VF_C12_bits: ReadList and ReadMap of one bit (any number from 0 to 31) of a tag of any integer type, next to the tag itself.
func VF_C12_bits() {
	t := vfTypes[vfPick("type", len(vfTypes))]
	if t.t == CIPTypeREAL || t.t == CIPTypeLREAL || t.t == CIPTypeBOOL {
		return
	}
	bit := vfPick("bit", 32)
	a, b := vfPlcScalar("aa", byte(t.t), t.size, 1), vfPlcScalar("bb", 0xC4, 4, 1)
	c, _, _ := vfPlcClient(a, b)
	name := "aa." + string([]byte{byte('0' + bit/10), byte('0' + bit%10)})
	if bit < 10 {
		name = "aa." + string([]byte{byte('0' + bit)})
	}
	var vals []any
	var err error
	if vfBool("map") {
		m := map[string]any{name: false, "bb": int32(0)}
		err = c.ReadMap(m)
		vals = []any{m[name], m["bb"]}
	} else {
		vals, err = c.ReadList([]string{name, "bb"}, []any{false, int32(0)}, []int{1, 1})
	}
	if bit >= 8*t.size {
		vfAssert(err != nil, "a bit outside the type is an error")
		return
	}
	vfAssert(err == nil && len(vals) == 2, "both are read")
	x, ok := vals[0].(bool)
	vfAssert(ok && x == (a.data[bit/8]>>(bit%8)&1 == 1), "the bit is the bit of its tag")
	vfAssert(vfHolds(vals[1], b.data), "the other value is its own")
}

// VF_C12_many: ReadList of 60 tags with names of 20 or 33 characters and of 300 tags with names of 4, of any values, with
// connection sizes of 4000, 511 and 300 bytes: offsets past 255 and 1024, more than 255 services in one message, many splits.
func VF_C12_many() {
	k, l := 60, []int{20, 33, 4}[vfPick("len", 3)]
	if l == 4 {
		k = 300
	}
	size := []int{4000, 511, 300}[vfPick("size", 3)]
	var tags []*vfPlcTag
	var names []string
	var types []any
	var elems []int
	for i := 0; i < k; i++ {
		names = append(names, vfC12name(i, l))
		typ, ex, n := byte(0xC3), any(int16(0)), 2
		if i%7 == 3 {
			typ, ex, n = 0xC4, int32(0), 4
		}
		tags, types, elems = append(tags, vfPlcScalar(names[i], typ, n, 1)), append(types, ex), append(elems, 1)
	}
	c, p, _ := vfPlcClient(tags...)
	c.ConnectionSize = uint16(size)
	vals, err := c.ReadList(names, types, elems)
	vfAssert(err == nil, "the tags are read")
	vfAssert(p.limit <= size, "every message fits the connection size")
	vfAssert(len(vals) == k && len(p.order) == k, "every tag is asked for once")
	ok := true
	for i := range vals {
		ok = ok && vfHolds(vals[i], tags[i].data) && p.order[i] == i
	}
	vfAssert(ok, "every value is the one of its own tag, in the order given")
	vfAssert(size < 4000 || p.multi <= 2, "few messages are used when many tags fit")
}

// VF_C12_args: ReadMulti with numbered places in the tag names and any digits, letters or texts given for them: the tags with
// the arguments in their places are read.
func VF_C12_args() {
	d := vfU8("d")
	vfAssume(d <= 99)
	n := int(vfConc(uint64(d)))
	if vfTier() == 0 {
		vfAssume(n < 12 || n == 99)
	}
	s := vfBytes("s", 1+vfPick("len", 2))
	for _, x := range s {
		vfAssume(x >= 'a' && x <= 'z')
	}
	var txt []byte
	if n >= 10 {
		txt = append(txt, byte('0'+n/10))
	}
	txt = append(txt, byte('0'+n%10))
	a := vfPlcScalar("a", 0xC3, 2, 1)
	b := vfPlcScalar("b", 0xC4, 4, 2)
	e := vfPlcScalar("e", 0xC3, 2, 1)
	a.path = vfNameSeg(vfCat([]byte("m_"), txt))
	b.path = vfCat(vfNameSeg(vfCat([]byte("x"), s, txt)), vfNameSeg([]byte("alarms")))
	e.path = vfNameSeg([]byte("plain"))
	c, _, _ := vfPlcClient(a, b, e)
	v := struct {
		A int16   `gologix:"m_{0}"`
		B []int32 `gologix:"x{1}{0}.alarms"`
		E int16   `gologix:"plain"`
	}{B: make([]int32, 2)}
	vfAssert(c.ReadMulti(&v, n, string(s)) == nil, "the tags are read")
	vfAssert(vfHolds(v.A, a.data) && vfHolds(v.B[0], b.data[:4]) && vfHolds(v.B[1], b.data[4:]) && vfHolds(v.E, e.data), "every field has the value of its tag")
}

// VF_C12_fit: ReadList of 2 to 4 arrays of 1 to 40 elements of 1 to 8 bytes and any connection size from 100 to 163 or 4000:
// the values asked for in one message fit the connection size, too, unless one tag alone does not.
func VF_C12_fit() {
	k := 2 + vfPick("tags", 3)
	size := 100 + 9*vfPick("size", 8)
	if vfTier() > 0 && vfBool("big") {
		size = 4000
	}
	var tags []*vfPlcTag
	var names []string
	var types []any
	var elems []int
	for i := 0; i < k; i++ {
		n := []int{10, 40, 1}[vfPick("n", 3)]
		names = append(names, vfC12names[i])
		switch (i + k) % 3 {
		case 0:
			tags, types = append(tags, vfPlcScalar(names[i], 0xC3, 2, n)), append(types, make([]int16, n))
		case 1:
			tags, types = append(tags, vfPlcScalar(names[i], 0xC5, 8, n)), append(types, make([]int64, n))
		default:
			tags, types = append(tags, vfPlcScalar(names[i], 0xC2, 1, n)), append(types, make([]int8, n))
		}
		elems = append(elems, n)
	}
	c, p, conn := vfPlcClient(tags...)
	c.ConnectionSize = uint16(size)
	answer := conn.respond
	conn.respond = func(cn *vfConn, f []byte) []byte {
		before := len(p.order)
		r := answer(cn, f)
		sum := 0
		for _, i := range p.order[before:] {
			sum += len(tags[i].data)
		}
		vfAssert(len(p.order) == before+1 || sum <= size, "the values asked for in one message fit the connection size")
		return r
	}
	vals, err := c.ReadList(names, types, elems)
	vfAssert(err == nil, "the tags are read")
	vfAssert(len(vals) == k && len(p.order) == k, "every tag is asked for once")
	for i := range vals {
		x, ok := vals[i].([]any)
		if elems[i] == 1 {
			x, ok = []any{vals[i]}, true
		}
		vfAssert(ok && len(x) == elems[i] && p.order[i] == i, "every value is the one of its own tag, in the order given")
		for j := range x {
			vfAssert(vfHolds(x[j], tags[i].data[j*tags[i].size:(j+1)*tags[i].size]), "every element is the one of its own tag")
		}
	}
}
