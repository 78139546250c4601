package gologix

// vfDtTag is a tag a data table buffer of the scripted controller holds: its index, the number of the call that added it,
// its path, its size and the value it had when last read.
type vfDtTag struct {
	index uint16
	batch uint16
	ioi   []byte
	size  int
	data  []byte
}

// vfDt answers the services of one data table buffer, checking that they name the buffer.
type vfDt struct {
	c       *Client
	conn    *vfConn
	id      uint16
	created bool
	tags    []*vfDtTag
	index   uint16
	batch   uint16 // the last batch number
	adds    int    // number of add services
	added   int
	removes int
	reads   int
	deletes int
	limit   int                     // the longest message seen
	status  func(service byte) byte // the status each service gets, nil for success
	value   func(t *vfDtTag) []byte // the value a tag has when it is read, nil for any
	spoil   func(data []byte) []byte
}

func vfDtClient() (*Client, *vfDt) {
	d := &vfDt{id: vfU16("instance"), batch: vfU16("batch")}
	vfAssume(d.batch < 0xFFF0)
	c, conn := vfNetClient(nil)
	d.c, d.conn = c, conn
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		req := vfSentConn(c, f)
		if len(req)+2 > d.limit {
			d.limit = len(req) + 2
		}
		vfAssert(len(req) >= 8 && req[1] == 3, "a buffer service has a path of three words")
		st := byte(0)
		if d.status != nil {
			st = d.status(req[0])
		}
		head := []byte{req[0] | 0x80, 0, st, 0}
		if st != 0 {
			return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, head)))
		}
		return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, vfCat(head, d.serve(req[0], req[2:8], req[8:])))))
	}
	return c, d
}

func (d *vfDt) serve(service byte, path, data []byte) []byte {
	if service == 0x08 {
		vfAssert(vfEq(path, []byte{0x20, 0xB2, 0x25, 0, 0, 0}) && vfEq(data, []byte{1, 0, 3, 0, 3, 0}), "a buffer is created at the class")
		vfAssert(!d.created, "one buffer is created")
		d.created = true
		return vfLe16(d.id)
	}
	vfAssert(vfEq(path, vfCat([]byte{0x20, 0xB2, 0x25, 0}, vfLe16(d.id))), "a service names the buffer's own instance")
	vfAssert(d.created, "a service is for a buffer that exists")
	switch service {
	case 0x09:
		vfAssert(len(data) == 0, "a delete carries nothing")
		d.created = false
		d.deletes++
		return nil
	case 0x4E:
		vfAssert(len(data) >= 5 && vfEq(data[:4], []byte{2, 0, 1, 1}), "an add starts with its header and count")
		d.adds++
		d.batch++
		n := int(vfConc(uint64(data[4])))
		vfAssert(n > 0, "an add names at least one tag")
		p := 5
		for i := 0; i < n; i++ {
			vfAssert(p+3 <= len(data), "an add holds all the tags it counts")
			size := int(vfConc(uint64(vfU16le(data[p:]))))
			l := 2 * int(vfConc(uint64(data[p+2])))
			vfAssert(p+3+l <= len(data), "an add holds the paths of all its tags")
			d.index++
			d.added++
			d.tags = append(d.tags, &vfDtTag{index: d.index, batch: d.batch, size: size, ioi: data[p+3 : p+3+l]})
			p += 3 + l
		}
		vfAssert(p == len(data), "an add ends after its tags")
		return vfLe16(d.batch)
	case 0x4F:
		vfAssert(len(data) == 2, "a remove carries one index")
		d.removes++
		for i, t := range d.tags {
			if t.index == vfU16le(data) {
				d.tags = append(append([]*vfDtTag{}, d.tags[:i]...), d.tags[i+1:]...)
				return nil
			}
		}
		vfAssert(false, "a remove names a tag the buffer holds")
	case 0x4C:
		vfAssert(len(data) == 0, "a read carries nothing")
		d.reads++
		var out []byte
		for i, t := range d.tags {
			if i == 0 || d.tags[i-1].batch != t.batch {
				out = append(out, vfLe16(t.batch)...)
			}
			if d.value != nil {
				t.data = d.value(t)
			} else {
				t.data = vfBytes("value", t.size)
			}
			out = append(out, t.data...)
		}
		if d.spoil != nil {
			out = d.spoil(out)
		}
		return out
	}
	vfAssert(false, "only the buffer's services are used")
	return nil
}

// find is the last tag with the path of the name.
func (d *vfDt) find(name string) *vfDtTag {
	for i := len(d.tags) - 1; i >= 0; i-- {
		if vfEq(d.tags[i].ioi, vfNameSeg([]byte(name))) {
			return d.tags[i]
		}
	}
	return nil
}

// vfDtWant is a tag the user has put into the buffer.
type vfDtWant struct {
	name string
	typ  CIPType
	size int
	ref  *uint32
}

// vfDtKinds are types of different sizes.
var vfDtKinds = []struct {
	t    CIPType
	size int
}{{CIPTypeDINT, 4}, {CIPTypeSINT, 1}, {CIPTypeLREAL, 8}, {CIPTypeUINT, 2}, {CIPTypeBOOL, 1}}

var vfDtNames = []string{"a", "Bb", "longName", "d4", "e", "f", "gg", "h", "i", "j"}

// vfDtPoll reads the buffer one of three ways and checks that every remaining tag has its own value.
func vfDtPoll(buf *DataTableBuffer, d *vfDt, want []vfDtWant, how int) {
	reads := d.reads
	var vals map[string]any
	var raws map[string][]byte
	var err error
	switch how {
	case 0:
		vals, err = buf.ReadAll()
	case 1:
		raws, err = buf.ReadAllRaw()
	default:
		var r *TagGroupResult
		r, err = buf.ReadAllTyped()
		if err == nil {
			vals = r.Raw()
		}
	}
	if len(want) == 0 {
		vfAssert(err != nil, "a read of an empty buffer is an error")
		return
	}
	vfAssert(err == nil, "a good reply is read")
	vfAssert(d.reads == reads+1, "a poll reads the buffer once")
	vfAssert(len(d.tags) == len(want), "the controller's buffer holds exactly the remaining tags")
	if raws != nil {
		vfAssert(len(raws) == len(want), "a poll has one value per tag")
	} else {
		vfAssert(len(vals) == len(want), "a poll has one value per tag")
	}
	tags := buf.Tags()
	vfAssert(len(tags) == len(want), "the buffer lists the remaining tags")
	for _, w := range want {
		t := d.find(w.name)
		vfAssert(t != nil && t.size == w.size, "every tag is in the controller's buffer with its own size")
		if raws != nil {
			vfAssert(vfEq(raws[w.name], t.data), "every tag has its own bytes")
		} else {
			vfAssert(vfGoValue(w.typ, vals[w.name], vfNum(t.data)), "every tag has its own value")
			if w.ref != nil {
				vfAssert(uint64(*w.ref) == vfNum(t.data), "a referenced variable has the tag's value")
			}
		}
		seen := 0
		for _, x := range tags {
			if x.Name == w.name {
				seen++
				vfAssert(x.Index() == t.index && x.DataTypeSize == uint16(t.size) && x.CIPType == w.typ, "a tag's index is the controller's")
			}
		}
		vfAssert(seen == 1, "a tag is listed once")
	}
}

// VF_C23_history: histories of 4 (thorough 5) operations, each adding one tag, adding a tag with a variable, adding two
// tags at once, removing the first, a middle or the last tag, removing an unknown tag, or polling one of three ways; then a poll.
// Five types of four sizes, any values, instance and batch numbers; a final close, twice.
func VF_C23_history() {
	c, d := vfDtClient()
	buf, err := c.NewDataTableBuffer()
	vfAssert(err == nil && buf.InstanceID() == d.id, "a buffer is created with the controller's instance")
	var want []vfDtWant
	next := 0
	fresh := func() vfDtWant {
		k := vfDtKinds[next%len(vfDtKinds)]
		w := vfDtWant{name: vfDtNames[next], typ: k.t, size: k.size}
		next++
		return w
	}
	for i := 0; i < 4+vfTier(); i++ {
		switch op := vfPick("op", 8); op {
		case 0:
			w := fresh()
			vfAssert(buf.AddTag(w.name, w.typ) == nil, "a tag can be added")
			want = append(want, w)
		case 1:
			w := fresh()
			w.typ, w.size, w.ref = CIPTypeUDINT, 4, new(uint32)
			vfAssert(buf.AddTagRef(w.name, w.ref) == nil, "a tag with a variable can be added")
			want = append(want, w)
		case 2:
			v, w := fresh(), fresh()
			vfAssert(buf.AddTags(map[string]CIPType{v.name: v.typ, w.name: w.typ}) == nil, "tags can be added")
			want = append(want, v, w)
		case 3, 4, 5:
			k := []int{0, len(want) / 2, len(want) - 1}[op-3]
			if len(want) == 0 || op == 4 && (k == 0 || k == len(want)-1) || op == 5 && k == 0 {
				vfAssume(false)
			}
			vfAssert(buf.RemoveTag(want[k].name) == nil, "a tag can be removed")
			want = append(append([]vfDtWant{}, want[:k]...), want[k+1:]...)
		case 6:
			r := d.removes
			vfAssert(buf.RemoveTag("missing") != nil && d.removes == r, "removing an unknown tag is an error")
		case 7:
			vfDtPoll(buf, d, want, vfPick("how", 3))
		}
	}
	vfDtPoll(buf, d, want, 0)
	vfAssert(buf.Close() == nil && buf.Close() == nil && d.deletes == 1 && !d.created, "a close deletes the buffer once")
	_, err = buf.ReadAll()
	vfAssert(err != nil && buf.AddTag("z", CIPTypeDINT) != nil && buf.RemoveTag("a") != nil && buf.SyncTags() != nil, "a closed buffer can't be used")
}

// VF_C23_types: one or two tags of every elementary type, every value.
func VF_C23_types() {
	c, d := vfDtClient()
	buf, err := c.NewDataTableBuffer()
	vfAssert(err == nil, "a buffer is created")
	var want []vfDtWant
	for i := 0; i < 2; i++ {
		k := vfTypes[vfPick("type", len(vfTypes))]
		w := vfDtWant{name: vfDtNames[i], typ: k.t, size: k.size}
		vfAssert(buf.AddTag(w.name, w.typ) == nil, "a tag can be added")
		want = append(want, w)
		if vfPick("split", 2) == 0 {
			vfAssert(buf.SyncTags() == nil, "tags can be sent early")
		}
	}
	vfDtPoll(buf, d, want, 0)
}

// VF_C23_string: strings with any length field and characters, in a standard slot and in slots of 8, 20, 104, 300 and 1004 bytes of known
// string types; tags after the string keep their value.
func VF_C23_string() {
	slot := []int{88, 8, 20, 104, 300, 1004, 88}[vfPick("slot", 7)]
	c, d := vfDtClient()
	if slot != 88 {
		c.KnownTags = map[string]KnownTag{"text": {Name: "text", UDT: &UDTDescriptor{Info: msgGetTemplateAttrListResponse{SizeBytes: uint32(slot)}}}}
	}
	buf, err := c.NewDataTableBuffer()
	vfAssert(err == nil, "a buffer is created")
	t := []CIPType{CIPTypeSTRING, CIPTypeStruct}[vfPick("as", 2)]
	vfAssert(buf.AddTag("Text", t) == nil && buf.AddTag("n", CIPTypeINT) == nil, "tags can be added")
	limit := slot - 4
	if slot == 88 {
		limit = 82
	}
	n := []int{0, 1, 3, limit - 1, limit, limit + 1, slot - 3, 60000}[vfPick("len", 8)]
	lead := vfBytes("lead", 2)
	d.value = func(t *vfDtTag) []byte {
		if t.size == 2 {
			return lead
		}
		b := append(vfLe32(uint32(n)), vfBytes("chars", 4)...)
		for len(b) < t.size {
			b = append(b, byte(len(b)))
		}
		b[t.size-1] = vfU8("last")
		return b
	}
	vals, err := buf.ReadAll()
	s := d.find("text")
	vfAssert(s != nil && s.size == slot, "a string's slot is as long as its type")
	if n > limit {
		vfAssert(err != nil, "a string longer than its slot is an error")
		return
	}
	vfAssert(err == nil, "a string is read")
	x, ok := vals["Text"].(string)
	vfAssert(ok && x == string(s.data[4:4+n]), "a string has its own characters")
	vfAssert(vfGoValue(CIPTypeINT, vals["n"], vfNum(lead)), "the tag after a string has its own value")
}

// VF_C23_services: the services of a data table called directly: any instance, a tag of any size, its path of 2 to 512 bytes with
// two of them any, or 2 to 255 tags at once, any index to remove; any number in the reply, or any status.
func VF_C23_services() {
	c, conn := vfNetClient(nil)
	var req []byte
	st, num := byte(0), vfU16("number")
	if vfBool("refused") {
		st = vfU8("status")
		vfAssume(st != 0)
	}
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		req = vfSentConn(c, f)
		return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, vfCat([]byte{req[0] | 0x80, 0, st, 0}, vfLe16(num)))))
	}
	id := vfU16("instance")
	path := vfCat([]byte{0x20, 0xB2, 0x25, 0}, vfLe16(id))
	ioi := func(n int) []byte {
		b := make([]byte, n)
		b[0], b[n-1] = vfU8("first"), vfU8("last")
		return b
	}
	var got uint16
	var err error
	var want []byte
	hasNum := true
	switch vfPick("call", 6) {
	case 0:
		size, tag := vfU16("size"), ioi([]int{2, 8, 254, 256, 510}[vfPick("len", 5)])
		got, err = c.DataTableAddTag(id, size, tag)
		want = vfCat([]byte{0x4E, 3}, path, []byte{2, 0, 1, 1, 1}, vfLe16(size), []byte{byte(len(tag) / 2)}, tag)
	case 1:
		n := []int{2, 3, 128, 255}[vfPick("tags", 4)]
		want = vfCat([]byte{0x4E, 3}, path, []byte{2, 0, 1, 1, byte(n)})
		var entries []addTagEntry
		for i := 0; i < n; i++ {
			e := addTagEntry{dataTypeSize: uint16(i * 7), ioi: []byte{0x91, 1, byte(i), 0}}
			if i == 0 || i == n-1 {
				e.dataTypeSize, e.ioi = vfU16("size"), ioi(6)
			}
			entries = append(entries, e)
			want = vfCat(want, vfLe16(e.dataTypeSize), []byte{byte(len(e.ioi) / 2)}, e.ioi)
		}
		got, err = c.DataTableAddTags(id, entries)
	case 2:
		got, err = c.CreateDataTableBuffer()
		want = []byte{0x08, 3, 0x20, 0xB2, 0x25, 0, 0, 0, 1, 0, 3, 0, 3, 0}
	case 3:
		index := vfU16("index")
		err, hasNum = c.DataTableRemoveTag(id, index), false
		want = vfCat([]byte{0x4F, 3}, path, vfLe16(index))
	case 4:
		err, hasNum = c.DeleteDataTableBuffer(id), false
		want = vfCat([]byte{0x09, 3}, path)
	case 5:
		var item *CIPItem
		item, err = c.DataTableReadBuffer(id)
		if err == nil {
			got, err = item.Uint16()
		}
		want = vfCat([]byte{0x4C, 3}, path)
	}
	vfAssert(vfEq(req, want), "the request is the service, the buffer's instance and its data")
	vfAssert((err == nil) == (st == 0), "a refused service is an error")
	if err == nil && hasNum {
		vfAssert(got == num, "the number in the reply is returned")
	}
}

// VF_C23_bad: a buffer of three tags in one, two or three batches whose read reply is cut at any length, has any bytes in place of one
// batch header, or any status; and then a good poll.
func VF_C23_bad() {
	c, d := vfDtClient()
	buf, err := c.NewDataTableBuffer()
	vfAssert(err == nil, "a buffer is created")
	var want []vfDtWant
	split := vfPick("split", 4)
	for i := 0; i < 3; i++ {
		k := vfDtKinds[i]
		w := vfDtWant{name: vfDtNames[i], typ: k.t, size: k.size, ref: nil}
		if i == 0 {
			w.typ, w.ref = CIPTypeUDINT, new(uint32)
			vfAssert(buf.AddTagRef(w.name, w.ref) == nil, "a tag with a variable can be added")
			*w.ref = 77
		} else {
			vfAssert(buf.AddTag(w.name, w.typ) == nil, "a tag can be added")
		}
		want = append(want, w)
		if split>>uint(i)&1 == 1 {
			vfAssert(buf.SyncTags() == nil, "tags can be sent early")
		}
	}
	fault := vfPick("fault", 3)
	st := byte(0)
	switch fault {
	case 0:
		d.spoil = func(b []byte) []byte { return b[:vfPick("cut", len(b))] }
	case 1:
		d.spoil = func(b []byte) []byte {
			p := 0
			for i, t := range d.tags {
				if i == 0 || d.tags[i-1].batch != t.batch {
					h := vfBytes("header", 2)
					if vfPick("spoil", 2) == 0 {
						vfAssume(!vfEq(h, b[p:p+2]))
						return vfCat(b[:p], h, b[p+2:])
					}
					p += 2
				}
				p += t.size
			}
			vfAssume(false)
			return b
		}
	case 2:
		d.status = func(s byte) byte {
			if s != 0x4C {
				return 0
			}
			st = vfU8("status")
			vfAssume(st != 0)
			return st
		}
	}
	switch vfPick("how", 3) {
	case 0:
		_, err = buf.ReadAll()
	case 1:
		_, err = buf.ReadAllRaw()
	case 2:
		_, err = buf.ReadAllTyped()
	}
	vfAssert(err != nil, "a truncated, misplaced or failed reply is an error")
	vfAssert(*want[0].ref == 77, "a failed poll changes no variable")
	d.spoil, d.status = nil, nil
	vfDtPoll(buf, d, want, 0)
}

// VF_C23_anyreply: two or three tags in any grouping; the reply to the read is any 0 to 14 (thorough 18) bytes.
func VF_C23_anyreply() {
	c, d := vfDtClient()
	buf, err := c.NewDataTableBuffer()
	vfAssert(err == nil, "a buffer is created")
	ts := []CIPType{CIPTypeUDINT, CIPTypeSINT, CIPTypeUINT}[:2+vfPick("tags", 2)]
	split := vfPick("split", 4)
	for i, t := range ts {
		vfAssert(buf.AddTag(vfDtNames[i], t) == nil, "a tag can be added")
		if split>>uint(i)&1 == 1 {
			vfAssert(buf.SyncTags() == nil, "tags can be sent early")
		}
	}
	var got []byte
	d.spoil = func([]byte) []byte { got = vfBytes("reply", vfPick("len", 15+4*vfTier())); return got }
	how := vfPick("how", 2)
	var vals map[string]any
	var raws map[string][]byte
	if how == 0 {
		vals, err = buf.ReadAll()
	} else {
		raws, err = buf.ReadAllRaw()
	}
	p, good := 0, true
	for i, t := range d.tags {
		if i == 0 || d.tags[i-1].batch != t.batch {
			good = good && p+2 <= len(got) && vfU16le(got[p:]) == t.batch
			p += 2
		}
		if !good || p+t.size > len(got) {
			good = false
			break
		}
		if err == nil {
			if how == 0 {
				vfAssert(vfGoValue(ts[i], vals[vfDtNames[i]], vfNum(got[p:p+t.size])), "every tag has the value at its own place")
			} else {
				vfAssert(vfEq(raws[vfDtNames[i]], got[p:p+t.size]), "every tag has the bytes at its own place")
			}
		}
		p += t.size
	}
	if !good {
		vfAssert(err != nil, "a reply that does not hold every tag is an error")
	} else if p == len(got) {
		vfAssert(err == nil, "a reply that holds every tag is read")
	}
	vfAssert(d.reads == 1, "one read is sent")
}

// VF_C23_failed: a create, add, remove or delete service answered with any error status, or with a reply too short to hold
// its number, at any point of adding two tags, removing one and polling; operations are tried again after a failure.
func VF_C23_failed() {
	c, d := vfDtClient()
	bad := []byte{0x08, 0x4E, 0x4F, 0x09}[vfPick("service", 4)]
	at := vfPick("at", 2) // fail the first or the second of them
	hit := false
	d.status = func(s byte) byte {
		if s != bad {
			return 0
		}
		at--
		if at != -1 {
			return 0
		}
		hit = true
		st := vfU8("status")
		vfAssume(st != 0)
		return st
	}
	failed := func(f func() error) {
		hit = false
		err := f()
		if !hit {
			vfAssert(err == nil, "a service that succeeds is no error")
			return
		}
		vfAssert(err != nil, "a service that fails is an error")
		vfAssert(f() == nil || bad == 9, "a failed operation can be tried again")
	}
	var buf *DataTableBuffer
	failed(func() (err error) { buf, err = c.NewDataTableBuffer(); return })
	a := vfDtWant{name: "a", typ: CIPTypeDINT, size: 4}
	b := vfDtWant{name: "b", typ: CIPTypeINT, size: 2}
	e := vfDtWant{name: "e", typ: CIPTypeSINT, size: 1}
	vfAssert(buf.AddTag("a", CIPTypeDINT) == nil, "a tag can be added")
	if vfPick("sync", 2) == 0 {
		failed(func() error { _, err := buf.ReadAll(); return err })
	}
	vfAssert(buf.AddTag("b", CIPTypeINT) == nil, "a tag can be added")
	failed(func() error { return buf.SyncTags() })
	vfDtPoll(buf, d, []vfDtWant{a, b}, 0)
	failed(func() error { return buf.RemoveTag("a") })
	vfDtPoll(buf, d, []vfDtWant{b}, 0)
	vfAssert(buf.AddTag("e", CIPTypeSINT) == nil, "a tag can be added")
	if bad == 0x4E {
		failed(func() error { return buf.SyncTags() })
	}
	vfDtPoll(buf, d, []vfDtWant{b, e}, 0)
	failed(buf.Close)
}

// VF_C23_batches: enough tags that they don't fit one message: 3 to 6 tags with names of 1 to 40 characters and a connection size of 60 to
// 200 bytes, and 260 tags on a large connection.
func VF_C23_batches() {
	c, d := vfDtClient()
	buf, err := c.NewDataTableBuffer()
	vfAssert(err == nil, "a buffer is created")
	n := 3 + vfPick("tags", 4)
	c.ConnectionSize = uint16(vfInt("size", 60, 200))
	if n == 6 && vfPick("many", 2) == 1 {
		n = 260
		c.ConnectionSize = 4000
	}
	l := vfPick("long", 3)
	var names []string
	for i := 0; i < n; i++ {
		s := "t" + string([]byte{byte('a' + i/20), byte('a' + i%20)})
		if l == 1 || l == 2 && i%2 == 0 {
			s += "abcdefghijklmnopqrstuvwxyzabcdefghij"
		}
		names = append(names, s)
		vfAssert(buf.AddTag(s, CIPTypeSINT) == nil, "a tag can be added")
	}
	i := 0
	d.value = func(t *vfDtTag) []byte { i++; return []byte{byte(t.index * 7)} }
	vals, err := buf.ReadAll()
	vfAssert(err == nil, "all tags are read")
	vfAssert(len(d.tags) == n && d.added == n, "every tag is added once")
	vfAssert(d.limit <= int(c.ConnectionSize), "no message is longer than the connection allows")
	for i, s := range names {
		t := d.tags[i]
		vfAssert(vfEq(t.ioi, vfNameSeg([]byte(s))), "tags are added in order")
		vfAssert(vfGoValue(CIPTypeSINT, vals[s], uint64(t.data[0])), "every tag has its own value")
	}
}

// VF_C23_group: a tag group with an array, a scalar and a string added with one or two arguments, next to a plain tag, with optional removal of
// an element or the scalar; the typed poll has the array's elements in order.
func VF_C23_group() {
	c, d := vfDtClient()
	buf, err := c.NewDataTableBuffer()
	vfAssert(err == nil, "a buffer is created")
	n := 1 + vfPick("elements", 3)
	base := vfPick("base", 2)
	g := NewTagGroup(TagDef{Name: "st[{0},7]", Type: CIPTypeINT, Elements: n}, TagDef{Name: "Rate{0}", Type: CIPTypeREAL})
	if base == 1 {
		g = NewTagGroup(TagDef{Name: "p{0}.st", Type: CIPTypeINT, Elements: n}, TagDef{Name: "Rate{0}", Type: CIPTypeREAL})
	}
	ioi := func(arg byte, i int) []byte {
		if base == 1 {
			p := vfCat(vfNameSeg([]byte{'p', '0' + arg}), vfNameSeg([]byte("st")))
			if n > 1 {
				p = append(p, 0x28, byte(i))
			}
			return p
		}
		return vfCat(vfNameSeg([]byte("st")), []byte{0x28, arg, 0x28, byte(7 + i)})
	}
	key := func(arg byte) string {
		if base == 1 {
			return "p" + string([]byte{'0' + arg}) + ".st"
		}
		return "st[" + string([]byte{'0' + arg}) + ",7]"
	}
	find := func(p []byte) *vfDtTag {
		for _, t := range d.tags {
			if vfEq(t.ioi, p) {
				return t
			}
		}
		return nil
	}
	args := 1 + vfPick("args", 2)
	for a := 1; a <= args; a++ {
		vfAssert(buf.AddTagGroup(g, a) == nil, "a group can be added")
	}
	vfAssert(buf.AddTag("plain", CIPTypeDINT) == nil, "a tag can be added")
	gone := vfPick("gone", 3)
	if gone > 0 && vfPick("sync", 2) == 0 {
		vfAssert(buf.SyncTags() == nil, "tags can be sent early")
	}
	switch gone {
	case 1:
		vfAssert(buf.RemoveTag("Rate1") == nil, "a tag of a group can be removed")
	case 2:
		if base == 1 && n > 1 {
			vfAssert(buf.RemoveTag("p1.st[0]") == nil, "an element of a group can be removed")
		} else {
			vfAssert(buf.RemoveTag(key(1)) == nil, "an element of a group can be removed")
		}
	}
	r, err := buf.ReadAllTyped()
	vfAssert(err == nil, "a group is read")
	total := args*(n+1) + 1
	if gone > 0 {
		total--
	}
	vfAssert(len(d.tags) == total, "the controller's buffer holds exactly the tags of the group")
	p := find(vfNameSeg([]byte("plain")))
	v, err := r.Value("plain")
	vfAssert(p != nil && err == nil && vfGoValue(CIPTypeDINT, v, vfNum(p.data)), "a plain tag has its value")
	for a := 1; a <= args; a++ {
		rate := find(vfNameSeg([]byte{'r', 'a', 't', 'e', byte('0' + a)}))
		v, err = r.Value("Rate" + string([]byte{byte('0' + a)}))
		if a == 1 && gone == 1 {
			vfAssert(rate == nil && err != nil, "a removed tag has no value")
		} else {
			vfAssert(rate != nil && err == nil && vfGoValue(CIPTypeREAL, v, vfNum(rate.data)), "a scalar of a group has its value")
		}
		v, err = r.Value(key(byte(a)))
		if a == 1 && gone == 2 {
			vfAssert(err != nil, "an array that lost an element is not collapsed")
			continue
		}
		if n == 1 {
			t := find(ioi(byte(a), 0))
			vfAssert(t != nil && err == nil && vfGoValue(CIPTypeINT, v, vfNum(t.data)), "a scalar of a group has its value")
			continue
		}
		xs, ok := v.([]any)
		vfAssert(err == nil && ok && len(xs) == n, "an array of a group is collapsed")
		for i := range xs {
			t := find(ioi(byte(a), i))
			vfAssert(t != nil && vfGoValue(CIPTypeINT, xs[i], vfNum(t.data)), "an array element has its own value")
		}
	}
}

type vfDtEmbed struct {
	Inner uint16 `gologix:"in{0}"`
}

type vfDtStruct struct {
	A       int32 `gologix:"a{0}"`
	Ignored int16
	vfDtPad int8
	VfDtEmb vfDtEmbed
	B       [2]int16 `gologix:"b{0}[3]"`
	S       []byte   `gologix:"s"`
	One     []uint32 `gologix:"one[0]"`
	Text    string   `gologix:"txt"`
}

type vfDtWithEmbed struct {
	vfDtPlain int32
	VfDtEmbed
	X float64 `gologix:"x"`
}

// VfDtEmbed is embedded in a structure.
type VfDtEmbed struct {
	Pad   uint8
	Inner uint16 `gologix:"in{0}"`
}

// VF_C23_struct: structures with scalars, arrays, slices of 1 to 3 elements, strings and embedded fields; every field gets its own value and no other
// field changes.
func VF_C23_struct() {
	c, d := vfDtClient()
	buf, err := c.NewDataTableBuffer()
	vfAssert(err == nil, "a buffer is created")
	find := func(p []byte) *vfDtTag {
		for _, t := range d.tags {
			if vfEq(t.ioi, p) {
				return t
			}
		}
		return nil
	}
	d.value = func(t *vfDtTag) []byte {
		if t.size == 88 {
			return append(append([]byte{2, 0, 0, 0}, vfBytes("chars", 2)...), make([]byte, 82)...)
		}
		return vfBytes("value", t.size)
	}
	if vfPick("embedded", 2) == 1 {
		var e vfDtWithEmbed
		e.vfDtPlain, e.Pad = 5, 6
		vfAssert(buf.AddTaggedStruct(&e, 9) == nil, "a structure can be added")
		_, err = buf.ReadAll()
		vfAssert(err == nil && len(d.tags) == 2, "a structure is read")
		in, x := find(vfNameSeg([]byte("in9"))), find(vfNameSeg([]byte("x")))
		vfAssert(in != nil && x != nil, "every field's tag is in the buffer")
		vfAssert(e.Inner == uint16(vfNum(in.data)) && vfHolds(e.X, x.data), "every field has its own value")
		vfAssert(e.vfDtPlain == 5 && e.Pad == 6, "other fields are left alone")
		return
	}
	s := vfDtStruct{Ignored: 11, vfDtPad: 12}
	s.VfDtEmb.Inner = 13
	n := 1 + vfPick("slice", 3)
	s.S = make([]byte, n)
	s.One = make([]uint32, 1)
	if vfPick("plain", 2) == 1 {
		vfAssert(buf.AddTag("a9", CIPTypeDINT) == nil, "a tag can be added")
	}
	plain := len(buf.Tags())
	vfAssert(buf.AddTaggedStruct(&s, 9) == nil, "a structure can be added")
	_, err = buf.ReadAll()
	vfAssert(err == nil, "a structure is read")
	vfAssert(len(d.tags) == plain+1+2+n+1+1, "the buffer holds exactly the structure's tags")
	a := d.find("a9")
	vfAssert(a != nil && uint32(s.A) == uint32(vfNum(a.data)), "a field has its own value")
	for i := 0; i < 2; i++ {
		t := find(vfCat(vfNameSeg([]byte("b9")), []byte{0x28, byte(3 + i)}))
		vfAssert(t != nil && uint16(s.B[i]) == uint16(vfNum(t.data)), "an array element has its own value")
	}
	for i := 0; i < n; i++ {
		p := vfNameSeg([]byte("s"))
		if n > 1 {
			p = append(p, 0x28, byte(i))
		}
		t := find(p)
		vfAssert(t != nil && s.S[i] == t.data[0], "a slice element has its own value")
	}
	t := find(vfCat(vfNameSeg([]byte("one")), []byte{0x28, 0}))
	vfAssert(t != nil && len(s.One) == 1 && s.One[0] == uint32(vfNum(t.data)), "a slice of one element has its value")
	t = d.find("txt")
	vfAssert(t != nil && s.Text == string(t.data[4:6]), "a string field has its own characters")
	vfAssert(s.Ignored == 11 && s.vfDtPad == 12 && s.VfDtEmb.Inner == 13, "other fields are left alone")
}

type vfDtHidden struct {
	a int32 `gologix:"a"`
}

// VF_C23_unfit: variables and structures that can't hold a tag's value (no pointer, nil, a slice, a structure, an unexported or nested field, an empty
// slice) are refused when added, and the buffer still works.
func VF_C23_unfit() {
	c, d := vfDtClient()
	buf, err := c.NewDataTableBuffer()
	vfAssert(err == nil, "a buffer is created")
	var np *int32
	var ns *vfDtStruct
	refs := []any{int32(5), nil, np, &[]int32{1, 2}, &vfUdt{}, []int32{1}}
	strs := []any{vfDtStruct{}, ns, 5, &vfDtHidden{}, &vfDtStruct{}, &struct {
		N vfUdt `gologix:"n"`
	}{}}
	k := vfPick("what", len(refs)+len(strs)+2)
	switch {
	case k < len(refs):
		err = buf.AddTagRef("bad", refs[k])
	case k < len(refs)+len(strs):
		err = buf.AddTaggedStruct(strs[k-len(refs)])
	case k == len(refs)+len(strs):
		err = buf.AddTag("bad", CIPType(0x55))
	default:
		err = buf.AddTag("bad[x]", CIPTypeDINT)
	}
	vfAssert(err != nil, "a variable that can't hold the value is refused")
	vfAssert(buf.AddTag("a", CIPTypeDINT) == nil, "a tag can be added")
	vfDtPoll(buf, d, []vfDtWant{{name: "a", typ: CIPTypeDINT, size: 4}}, 2)
}
