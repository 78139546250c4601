package gologix

// vfC18value is a value of a provider with the bytes of its type and data.
func vfC18value() (any, []byte) {
	switch k := vfPick("value", 5); k {
	case 0:
		u := vfU32("v")
		return int32(u), vfCat([]byte{0xC4, 0}, vfLe32(u))
	case 1:
		b := vfBytes("v", 6)
		return []int16{int16(vfU16le(b)), int16(vfU16le(b[2:])), int16(vfU16le(b[4:]))}, vfCat([]byte{0xC3, 0}, b)
	case 2:
		b := vfU8("v")
		return b == 1, []byte{0xC1, 0, vfBit(b == 1)}
	default:
		n := k - 2
		var vs []string
		out := []byte{0xA0, 2, 0xCE, 0x0F}
		for i := 0; i < n; i++ {
			b := vfBytes("s", 3)
			vs = append(vs, string(b))
			out = vfCat(out, vfLe32(3), b, make([]byte, 81))
		}
		if n == 1 {
			return vs[0], out
		}
		return vs, out
	}
}

// vfC18via sends a request connected, directly, in an unconnected send or alone in a multiple service packet; it returns the service, status and data of the reply.
func vfC18via(s *vfSrv, via int, req []byte) (byte, byte, []byte) {
	if via == 0 || via == 2 {
		s.srv.ConnMgr.Add(&serverConnection{ID: 1, OT: 5, TO: 6, Path: []byte{1, 0}, Open: true})
	}
	switch via {
	case 0:
		_, _, svc, st, data := vfConnReply(vfOneReply(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0}, req))))
		return svc, st, data
	case 1:
		return vfUnconnReply(vfOneReply(s, vfUnconnFrame(1, 2, vfSendReq(req, []byte{1, 0}))))
	case 2:
		_, _, svc, st, data := vfConnReply(vfOneReply(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0}, vfMultiReq(req)))))
		vfAssert(svc == 0x8A, "a multiple service packet is answered as one")
		r := vfMultiReply(data)
		vfAssert(len(r) == 1, "each service of a packet gets a reply")
		vfAssert(r[0][1] == 0 && r[0][3] == 0, "a reply has no extended status")
		vfAssert((st == 0) == (r[0][2] == 0), "a packet is a success if all of its services are")
		return r[0][0], r[0][2], r[0][4:]
	}
	return vfUnconnReply(vfOneReply(s, vfUnconnFrame(1, 2, req)))
}

// VF_C18_read: reads of a tag by any name of letters, with and without an index, of any count, which the provider answers with a number, numbers, a bool, a string or strings of any value,
// or refuses; connected, in an unconnected send, in a multiple service packet; also fragmented ones at any offset.
func VF_C18_read() {
	s, p := vfSrvStub()
	want := []byte(nil)
	p.value, want = vfC18value()
	p.refuse = vfPick("refuse", 2) == 1
	name, index := "tag", vfPick("index", 2)-1
	count := vfU16("count")
	via := vfPick("via", 3)
	req := vfCat([]byte{0x4C}, vfSrvTagPath(name, index), vfLe16(count))
	off := 0
	if via != 1 && vfPick("frag", 2) == 1 {
		req[0] = 0x52
		head := 2
		if want[0] == 0xA0 {
			head = 4
		}
		n := len(want) - head
		off = []int{0, 1, n / 2, n - 1, n + 1, 0xFFFF}[vfPick("off", 6)]
		req = append(req, vfLe32(uint32(off))...)
		if off <= n {
			want = vfCat(want[:head], want[head+off:])
		} else {
			want = nil
		}
	}
	svc, st, data := vfC18via(s, via, req)
	vfAssert(svc == req[0]|0x80, "the reply is to the read")
	if count >= 0x8000 { // more than a provider can be asked for
		vfAssert(st != 0 && len(data) == 0, "a read of more elements than there can be is an error")
		vfReach("count")
		return
	}
	vfAssert(len(p.reads) == 1 && len(p.writes) == 0, "a read asks the provider once")
	tag := name
	if index == 0 {
		tag = "tag[0]"
	}
	vfAssert(p.reads[0] == tag && p.counts[0] == int16(count), "a read asks for its tag and count")
	if p.refuse || want == nil {
		vfAssert(st != 0 && len(data) == 0, "a read the provider refuses is answered with an error")
		vfReach("refused")
		return
	}
	vfAssert(st == 0, "a read the provider answers succeeds")
	vfAssert(vfEq(data, want), "the reply has exactly the provider's data")
	vfReach("read")
}

// VF_C18_write: writes of one to three DINTs, INTs or bytes of any value, strings of any characters and lengths to 82, which the provider takes or refuses, and writes cut short, of
// unknown structures, of no elements; connected, in an unconnected send and in a multiple service packet, there
// also fragmented at offset 0 and others, which are refused.
func VF_C18_write() {
	s, p := vfSrvStub()
	p.refuse = vfPick("refuse", 2) == 1
	via := vfPick("via", 3)
	n := 1 + vfPick("n", 3)
	kind := vfPick("kind", 5)
	bad := false
	var v []byte
	var want []any
	switch kind {
	case 0:
		v = vfCat([]byte{0xC4, 0}, vfLe16(uint16(n)))
		for i := 0; i < n; i++ {
			u := vfU32("v")
			v, want = append(v, vfLe32(u)...), append(want, int32(u))
		}
	case 1:
		v = vfCat([]byte{0xC6, 0}, vfLe16(uint16(n)))
		for i := 0; i < n; i++ {
			u := vfU8("v")
			v, want = append(v, u), append(want, u)
		}
	case 2:
		v = vfCat([]byte{0xA0, 2, 0xCE, 0x0F}, vfLe16(uint16(n)))
		for i := 0; i < n; i++ {
			l := []int{3, 0, 82}[vfPick("l", 3)]
			b := vfBytes("s", l)
			v, want = vfCat(v, vfLe32(uint32(l)), b, make([]byte, 84-l)), append(want, string(b))
		}
	case 3: // cut short
		v = vfCat([]byte{0xC4, 0}, vfLe16(uint16(n)), vfBytes("v", 4*n-1))
		bad = true
	case 4:
		switch n {
		case 1: // another structure
			t := vfU16("crc")
			vfAssume(t != 0x0FCE)
			v = vfCat([]byte{0xA0, 2}, vfLe16(t), []byte{1, 0}, vfBytes("v", 88))
		case 2: // nothing
			v = []byte{0xC4, 0, 0, 0}
		case 3: // a string that ends early
			v = vfCat([]byte{0xA0, 2, 0xCE, 0x0F, 1, 0, 3, 0, 0, 0}, vfBytes("v", 20))
		}
		bad = true
	}
	req := vfCat([]byte{0x4D}, vfSrvTagPath("tagx", -1), v)
	if via == 2 && vfPick("frag", 2) == 1 {
		off := []uint32{0, 1, 0x10000, 0x80000000}[vfPick("off", 4)]
		head := 4
		if v[0] == 0xA0 {
			head = 6
		}
		req = vfCat([]byte{0x53}, vfSrvTagPath("tagx", -1), v[:head], vfLe32(off), v[head:])
		bad = bad || off != 0
	}
	svc, st, data := vfC18via(s, via, req)
	vfAssert(svc == req[0]|0x80 && len(data) == 0, "the reply is to the write")
	if bad {
		vfAssert(st != 0 && len(p.writes) == 0, "a write that cannot be understood is an error and changes nothing")
		vfReach("bad")
		return
	}
	vfAssert(len(p.writes) == 1 && len(p.reads) == 0 && p.writes[0] == "tagx", "a write is the provider's once, with its tag")
	if n == 1 {
		vfAssert(p.written[0] == want[0], "the provider gets the value that was written")
	} else {
		l, ok := p.written[0].([]any)
		vfAssert(ok && len(l) == n, "the provider gets all the values that were written")
		for i := range l {
			vfAssert(l[i] == want[i], "the provider gets the values that were written, in order")
		}
	}
	vfAssert((st == 0) == !p.refuse, "a write succeeds if and only if the provider takes it")
	vfReach("written")
}

// VF_C18_service: every service that is not supported where it is sent, with a tag path or a class and instance: an error, and the provider is not asked.
func VF_C18_service() {
	s, p := vfSrvStub()
	p.value = int32(1)
	svc := vfU8("svc")
	via := vfPick("via", 4)
	have := [][]byte{{0x4D, 0x52, 0x4C, 0x0A, 0x0E, 1, 0x55}, {0x4D, 0x4C, 0x0E, 0x10, 1}, {0x4C, 0x52, 0x4D, 0x53}, {0x54, 0x5B, 0x4E, 1, 0x0E, 0x10, 0x52}}[via]
	vfAssume(svc < 0x80)
	for _, x := range have {
		vfAssume(svc != x)
	}
	req := vfCat([]byte{svc}, [][]byte{vfSrvTagPath("tag", -1), {2, 0x20, 1, 0x24, 1}, {2, 0x20, 0x6B, 0x24, 0}}[vfPick("path", 3)], vfBytes("data", []int{0, 2, 8}[vfPick("n", 3)]))
	got, st, data := vfC18via(s, via, req)
	vfAssert(got == svc|0x80 && st != 0 && len(data) == 0, "a service that is not supported is answered with an error")
	vfAssert(len(p.reads)+len(p.writes) == 0, "a service that is not supported does nothing")
	vfReach("done")
}

// VF_C18_attribute: Get Attribute Single and Get Attributes All of any class, instance and attribute in 8 and 16 bits, connected, directly and in an unconnected send, against identity
// attributes of any value: success for the objects there are, exactly their data, and an error for all others.
func VF_C18_attribute() {
	s, _ := vfSrvStub()
	vals := []uint16{vfU16("vendor"), vfU16("type"), vfU16("code"), vfU16("rev"), vfU16("status")}
	serial := vfU32("serial")
	a := s.srv.Attributes
	for i, v := range vals {
		a[CIPAttribute(i+1)] = int16(v)
	}
	a[6] = serial
	name := vfBytes("name", 4)
	a[7] = string(name)
	class, inst, attr := vfU16("class"), vfU16("inst"), vfU8("attr")
	var path []byte
	if vfPick("wide", 2) == 1 {
		path = vfCat([]byte{0x21, 0}, vfLe16(class), []byte{0x25, 0}, vfLe16(inst))
	} else {
		vfAssume(class < 256 && inst < 256)
		path = []byte{0x20, byte(class), 0x24, byte(inst)}
	}
	all := vfPick("all", 2) == 1
	via := []int{0, 1, 3}[vfPick("via", 3)]
	if all {
		got, st, data := vfC18via(s, via, vfCat([]byte{1, byte(len(path) / 2)}, path))
		vfAssert(got == 0x81, "the reply is to the request")
		switch {
		case class == 1 && inst == 1:
			want := vfCat(vfLe16(vals[0]), vfLe16(vals[1]), vfLe16(vals[2]), vfLe16(vals[3]), vfLe16(vals[4]), vfLe32(serial), []byte{4}, name)
			vfAssert(st == 0 && vfEq(data, want), "all attributes of the identity are its attributes in order")
			vfReach("identity")
		case class == 0x64 && inst == 1:
			vfAssert(st == 0 && vfEq(data, vfCat([]byte{4}, name)), "the program object has the product's name")
			vfReach("program")
		default:
			vfAssert(st != 0 && len(data) == 0, "an unknown object is an error")
			vfReach("unknown")
		}
		return
	}
	vfAssume(class != 0xC8)
	path = append(path, 0x30, attr)
	got, st, data := vfC18via(s, via, vfCat([]byte{0x0E, byte(len(path) / 2)}, path))
	vfAssert(got == 0x8E, "the reply is to the request")
	if class != 1 || inst != 1 || attr < 1 || attr > 7 {
		vfAssert(st != 0 && len(data) == 0, "an unknown object or attribute is an error")
		vfReach("unknown")
		return
	}
	vfAssert(st == 0, "an attribute there is is a success")
	var want []byte
	switch {
	case attr < 6:
		want = vfLe16(vals[attr-1])
	case attr == 6:
		want = vfLe32(serial)
	default: // as text: the format of it differs between the two ways.
		ok := len(data) >= 4
		for i := range name {
			ok = ok && data[len(data)-4+i] == name[i]
		}
		vfAssert(ok || len(data) > 20, "the name attribute is the product's name")
		vfReach("name")
		return
	}
	if via == 0 {
		vfAssert(vfEq(data, want), "the reply has exactly the attribute")
	} else {
		vfAssert(len(data) == 2+len(want) && vfEq(data[2:], want), "the reply has exactly the attribute after its type")
	}
	vfReach("attribute")
}

// VF_C18_container: Get and Set Attribute Single of any instance and attribute of class 0xC8 on a server with three tags: the tags in alphabetical order, errors for everything else.
func VF_C18_container() {
	v := []uint32{vfU32("v0"), vfU32("v1"), vfU32("v2")}
	p := &MapTagProvider{Data: map[string]any{"b": int32(v[1]), "c": int32(v[2]), "a": int32(v[0])}}
	r := NewRouter()
	r.Handle([]byte{1, 0}, p)
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	s := vfNewSrv(srv)
	inst, attr := vfU32("inst"), vfU8("attr")
	path := []byte{0x20, 0xC8}
	switch vfPick("wide", 3) {
	case 0:
		vfAssume(inst < 0x100)
		path = append(path, 0x24, byte(inst))
	case 1:
		vfAssume(inst < 0x10000)
		path = vfCat(path, []byte{0x25, 0}, vfLe16(uint16(inst)))
	case 2:
		path = vfCat(path, []byte{0x26, 0}, vfLe32(inst))
	}
	path = append(path, 0x30, attr)
	via := []int{1, 3}[vfPick("via", 2)]
	get := vfPick("get", 2) == 0
	req := vfCat([]byte{0x0E, byte(len(path) / 2)}, path)
	n := vfU32("new")
	if !get {
		req = vfCat([]byte{0x10, byte(len(path) / 2)}, path, []byte{0xC4, 0, 1, 0}, vfLe32(n))
	}
	svc, st, data := vfC18via(s, via, req)
	vfAssert(svc == req[0]|0x80, "the reply is to the request")
	known := inst >= 1 && inst <= 3 && attr == 1
	vfAssert((st == 0) == known, "a tag there is is a success, anything else an error")
	if !known {
		vfAssert(len(data) == 0, "an error has no data")
	}
	for i, k := range []string{"a", "b", "c"} {
		want := v[i]
		if known && int(inst) == i+1 {
			if get {
				vfAssert(vfEq(data, vfCat([]byte{0xC4, 0}, vfLe32(want))), "the reply has exactly the tag's value")
			} else {
				want = n
			}
		}
		vfAssert(p.Data[k] == int32(want), "a tag has its value")
	}
	vfAssert(len(p.Data) == 3, "there are no other tags")
	vfReach("done")
}

// VF_C18_multi: multiple service packets of one to three services, each a read or a write of a tag there is with any value, a read of an unknown one, a write that is refused as it ends early, or any service that is not
// supported: each has its own reply and status in order, as if it were sent alone.
func VF_C18_multi() {
	v := []uint32{vfU32("v0"), vfU32("v1")}
	p := &MapTagProvider{Data: map[string]any{"x": int32(v[0]), "y": int32(v[1])}}
	r := NewRouter()
	r.Handle([]byte{1, 0}, p)
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	s := vfNewSrv(srv)
	srv.ConnMgr.Add(&serverConnection{ID: 1, OT: 5, TO: 6, Path: []byte{1, 0}, Open: true})
	names := []string{"x", "y"}
	var reqs, wants [][]byte
	fail := false
	for i := 1 + vfPick("n", 3); i > 0; i-- {
		t := vfPick("tag", 2)
		switch vfPick("kind", 5) {
		case 0:
			reqs = append(reqs, vfCat([]byte{0x4C}, vfSrvTagPath(names[t], -1), []byte{1, 0}))
			wants = append(wants, vfCat([]byte{0xCC, 0, 0, 0, 0xC4, 0}, vfLe32(v[t])))
		case 1:
			v[t] = vfU32("new")
			reqs = append(reqs, vfCat([]byte{0x4D}, vfSrvTagPath(names[t], -1), []byte{0xC4, 0, 1, 0}, vfLe32(v[t])))
			wants = append(wants, []byte{0xCD, 0, 0, 0})
		case 2:
			vfAssume(t == 0)
			reqs = append(reqs, vfCat([]byte{0x4C}, vfSrvTagPath("z", -1), []byte{1, 0}))
			wants = append(wants, []byte{0xCC})
			fail = true
		case 3:
			vfAssume(t == 0)
			reqs = append(reqs, vfCat([]byte{0x4D}, vfSrvTagPath(names[t], -1), []byte{0xC4, 0, 1, 0}, vfBytes("cut", 3)))
			wants = append(wants, []byte{0xCD})
			fail = true
		case 4:
			vfAssume(t == 0)
			svc := vfU8("svc")
			vfAssume(svc < 0x80 && svc != 0x4C && svc != 0x4D && svc != 0x52 && svc != 0x53)
			reqs = append(reqs, vfCat([]byte{svc}, vfSrvTagPath(names[t], -1), []byte{1, 0}))
			wants = append(wants, []byte{svc | 0x80})
			fail = true
		}
	}
	_, _, svc, st, data := vfConnReply(vfOneReply(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0}, vfMultiReq(reqs...)))))
	vfAssert(svc == 0x8A, "a multiple service packet is answered as one")
	vfAssert((st != 0) == fail, "a packet is a success if and only if all of its services are")
	got := vfMultiReply(data)
	vfAssert(len(got) == len(reqs), "each service gets a reply")
	for i, w := range wants {
		vfAssert(got[i][0] == w[0], "replies are in the order of the requests")
		if len(w) == 1 {
			vfAssert(got[i][2] != 0 && len(got[i]) == 4, "a service that fails has its own error and no data")
		} else {
			vfAssert(vfEq(got[i], w), "a service that succeeds has its own status and exactly its data")
		}
	}
	vfAssert(p.Data["x"] == int32(v[0]) && p.Data["y"] == int32(v[1]) && len(p.Data) == 2, "the tags have the values of the writes that succeeded")
	vfReach("done")
}

// VF_C18_route: reads, writes and cyclic opens by way of any route and on connections to paths nobody handles: errors, and the provider of another path is not asked; multiple service packets with offsets out of order or
// outside are an error and do nothing.
func VF_C18_route() {
	s, p := vfSrvStub()
	p.value = int32(1)
	svc := []byte{0x4C, 0x4D}[vfPick("svc", 2)]
	req := vfCat([]byte{svc}, vfSrvTagPath("tag", -1), [][]byte{{1, 0}, {0xC4, 0, 1, 0, 1, 2, 3, 4}}[svc-0x4C])
	var st byte
	switch vfPick("what", 5) {
	case 0:
		route := vfBytes("route", 2)
		vfAssume(route[0] != 1 || route[1] != 0)
		_, st, _ = vfUnconnReply(vfOneReply(s, vfUnconnFrame(1, 2, vfSendReq(req, route))))
	case 1:
		path := vfBytes("path", 2)
		vfAssume(path[0] != 1 || path[1] != 0)
		s.srv.ConnMgr.Add(&serverConnection{ID: 1, OT: 5, TO: 6, Path: path, Open: true})
		if vfPick("multi", 2) == 1 {
			req = vfMultiReq(req)
		}
		_, _, _, st, _ = vfConnReply(vfOneReply(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0}, req))))
	case 2:
		path := vfBytes("path", 2)
		vfAssume(path[0] != 1 || path[1] != 0)
		open := vfOpenReq(false, 1, 2, 3, 4, 5, path)
		open[len(open)-4] = 1
		_, st, _ = vfUnconnReply(vfOneReply(s, vfUnconnFrame(1, 2, open)))
		_, err := s.srv.ConnMgr.GetByID(3)
		vfAssert(err != nil, "a refused open leaves no connection")
	case 3:
		s.srv.ConnMgr.Add(&serverConnection{ID: 1, OT: 5, TO: 6, Path: []byte{1, 0}, Open: true})
		m := vfMultiReq(req, req)
		at := 8 + 2*vfPick("which", 2)
		o := vfU16("off")
		vfAssume(o != vfU16le(m[at:]))
		if at == 10 {
			vfAssume(o <= 6 || int(o) >= len(m)-6) // any other cuts the second service out of the first
		} else {
			vfAssume(o < 6 || o >= 6+uint16(len(req)))
		}
		m[at], m[at+1] = byte(o), byte(o>>8)
		_, _, _, st, _ = vfConnReply(vfOneReply(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0}, m))))
	case 4: // a packet for another object
		s.srv.ConnMgr.Add(&serverConnection{ID: 1, OT: 5, TO: 6, Path: []byte{1, 0}, Open: true})
		m := vfMultiReq(req)
		m[3], m[5] = vfU8("class"), vfU8("inst")
		vfAssume(m[3] != 2 || m[5] != 1)
		_, _, _, st, _ = vfConnReply(vfOneReply(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0}, m))))
	}
	vfAssert(st != 0, "what nobody handles is an error")
	vfAssert(len(p.reads)+len(p.writes)+p.ioReads == 0, "no other provider is asked")
	vfReach("done")
}

// VF_C18_symbols: the list of tags from any start instance: exactly the tags from there on, in order, with their types; any other class is an error.
func VF_C18_symbols() {
	p := &MapTagProvider{Data: map[string]any{"bb": int32(1), "c": float32(2), "a": int16(3)}}
	r := NewRouter()
	r.Handle([]byte{1, 0}, p)
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	s := vfNewSrv(srv)
	srv.ConnMgr.Add(&serverConnection{ID: 1, OT: 5, TO: 6, Path: []byte{1, 0}, Open: true})
	class, start := vfU8("class"), vfU16("start")
	req := vfCat([]byte{0x55, 3, 0x20, class, 0x25, 0}, vfLe16(start), []byte{2, 0, 1, 0, 2, 0})
	_, _, svc, st, data := vfConnReply(vfOneReply(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0}, req))))
	vfAssert(svc == 0xD5, "the reply is to the request")
	if class != 0x6B {
		vfAssert(st != 0 && len(data) == 0, "an unknown object is an error")
		vfReach("unknown")
		return
	}
	var want []byte
	for i, e := range [][]byte{{1, 0, 0, 0, 1, 0, 'a', 0xC3, 0}, {2, 0, 0, 0, 2, 0, 'b', 'b', 0xC4, 0}, {3, 0, 0, 0, 1, 0, 'c', 0xCA, 0}} {
		if i+1 >= int(start) {
			want = append(want, e...)
		}
	}
	vfAssert(st == 0 && vfEq(data, want), "the list has the tags from the start instance on")
	vfReach("list")
}

// VF_C18_long: reads of 130, 300 or 1000 (thorough: also 8000) DINTs, bytes or reals of a tag of one to five parts of 1 to 82 letters with indexes 0, 255, 256, 65535, 65536 and 2147483647,
// the first, two middle and the last element of any value, in one read or fragmented at offsets around 256 and near the end; and writes of as many.
func VF_C18_long() {
	s, p := vfSrvStub()
	ns := []int{130, 300, 1000, 8000}
	n := ns[vfPick("n", 3+vfTier())]
	kind := vfPick("kind", 3)
	size := []int{4, 1, 4}[kind]
	data := make([]byte, size*n)
	for i := range data {
		data[i] = byte(i*7 + i/256)
	}
	for _, at := range []int{0, 127, n / 2, n - 1} {
		b := vfBytes("v", size)
		copy(data[at*size:], b)
	}
	var any32 []any
	switch kind {
	case 0:
		v := make([]int32, n)
		for i := range v {
			v[i] = int32(vfU32le(data[4*i:]))
			any32 = append(any32, v[i])
		}
		p.value = v
	case 1:
		v := make([]int8, n)
		for i := range v {
			v[i] = int8(data[i])
			any32 = append(any32, v[i])
		}
		p.value = v
	case 2:
		v := make([]uint32, n)
		for i := range v {
			v[i] = vfU32le(data[4*i:])
			any32 = append(any32, v[i])
		}
		p.value = v
	}
	typ := []byte{[]byte{0xC4, 0xC2, 0xC8}[kind], 0}
	shape := vfPick("shape", 6)
	x := []int{-1, 0, 255, 256, 65535, 2147483647}[shape]
	names, index := []string{vfLongName([]int{1, 2, 40, 82, 39, 10}[shape])}, []int{x}
	for i := 0; i < shape-1; i++ {
		names, index = append(names, vfLongName(3+i*9)), append(index, []int{65536, -1, 256, 7}[i])
	}
	tag := ""
	for i := range names {
		if i > 0 {
			tag += "."
		}
		tag += names[i]
		if index[i] >= 0 {
			tag += "[" + vfDigits(index[i]) + "]"
		}
	}
	via := vfPick("via", 3)
	path := vfSrvLongPath(names, index)
	if vfPick("write", 2) == 1 {
		svc, st, rest := vfC18via(s, via, vfCat([]byte{0x4D}, path, typ, vfLe16(uint16(n)), data))
		vfAssert(svc == 0xCD && st == 0 && len(rest) == 0, "a write the provider takes succeeds")
		vfAssert(len(p.writes) == 1 && len(p.reads) == 0 && p.writes[0] == tag, "a write is to its tag")
		w, ok := p.written[0].([]any)
		vfAssert(ok && len(w) == n, "a write has all its values")
		for i := range w {
			vfAssert(w[i] == any32[i], "a write has exactly its values")
		}
		vfReach("written")
		return
	}
	req := vfCat([]byte{0x4C}, path, vfLe16(uint16(n)))
	off := 0
	if via != 1 {
		if k := vfPick("off", 6); k > 0 {
			off = []int{0, 4, 255, 256, len(data) - 3, len(data)}[k]
			if off > len(data) {
				off = len(data)
			}
			req[0] = 0x52
			req = append(req, vfLe32(uint32(off))...)
		}
	}
	svc, st, got := vfC18via(s, via, req)
	vfAssert(svc == req[0]|0x80 && st == 0, "a read the provider answers succeeds")
	vfAssert(len(p.reads) == 1 && p.reads[0] == tag && p.counts[0] == int16(n), "a read asks for its tag and count")
	vfAssert(vfEq(got, vfCat(typ, data[off:])), "the reply has exactly the provider's data")
	vfReach("read")
}

// VF_C18_many: a server with 300 tags, three of them of any value: Get and Set Attribute Single of class 0xC8 for instances around 1, 255 and 300, reads by name, and the list of tags from
// instances around there; packets of 130 (thorough: 600) reads and writes.
func VF_C18_many() {
	n := 300
	v := make([]uint32, n)
	data := map[string]any{}
	name := func(i int) string {
		if i%50 == 7 {
			return "t" + vfDigits(1000+i) + vfLongName(36 + i/6)
		}
		return "t" + vfDigits(1000+i)
	}
	for i := range v {
		v[i] = uint32(i) * 0x01010101
		if i == 0 || i == 254 || i == 255 || i == 299 {
			v[i] = vfU32("v")
		}
		data[name(i)] = int32(v[i])
	}
	p := &MapTagProvider{Data: data}
	r := NewRouter()
	r.Handle([]byte{1, 0}, p)
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	s := vfNewSrv(srv)
	inst := []int{1, 255, 256, 257, 300, 301, 0}[vfPick("inst", 7)]
	path := []byte{0x20, 0xC8}
	switch wide := vfPick("wide", 2); {
	case wide == 0 && inst < 256:
		path = append(path, 0x24, byte(inst))
	case wide == 0:
		path = vfCat(path, []byte{0x25, 0}, vfLe16(uint16(inst)))
	default:
		path = vfCat(path, []byte{0x26, 0}, vfLe32(uint32(inst)))
	}
	path = append(path, 0x30, 1)
	ok := inst >= 1 && inst <= n
	switch vfPick("what", 4) {
	case 0:
		_, st, got := vfC18via(s, 3, vfCat([]byte{0x0E, byte(len(path) / 2)}, path))
		vfAssert((st == 0) == ok, "a tag there is is a success, anything else an error")
		if ok {
			vfAssert(vfEq(got, vfCat([]byte{0xC4, 0}, vfLe32(v[inst-1]))), "the reply has exactly the tag's value")
		}
		vfReach("get")
	case 1:
		x := vfU32("new")
		_, st, _ := vfC18via(s, 3, vfCat([]byte{0x10, byte(len(path) / 2)}, path, []byte{0xC4, 0, 1, 0}, vfLe32(x)))
		vfAssert((st == 0) == ok, "a tag there is is a success, anything else an error")
		for i := range v {
			want := v[i]
			if i == inst-1 {
				want = x
			}
			vfAssert(p.Data[name(i)] == int32(want), "a tag has its value")
		}
		vfReach("set")
	case 2:
		srv.ConnMgr.Add(&serverConnection{ID: 1, OT: 5, TO: 6, Path: []byte{1, 0}, Open: true})
		req := vfCat([]byte{0x55, 3, 0x20, 0x6B, 0x25, 0}, vfLe16(uint16(inst)), []byte{2, 0, 1, 0, 2, 0})
		_, _, svc, st, got := vfConnReply(vfOneReply(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0}, req))))
		vfAssert(svc == 0xD5 && (st == 0 || st == 6), "the list is answered")
		at, i := 0, inst-1
		if inst == 0 {
			i = 0
		}
		for at < len(got) {
			vfAssert(i < n, "the list has no other tags")
			want := vfCat(vfLe32(uint32(i+1)), []byte{byte(len(name(i))), 0}, []byte(name(i)), []byte{0xC4, 0})
			vfAssert( at+len(want) <= len(got) && vfEq(got[at:at+len(want)], want), "the list has the tags from the start instance on")
			at, i = at+len(want), i+1
		}
		vfAssert(i >= n || st == 6 && at > 0, "the list has all tags or says that there are more")
		vfReach("list")
	case 3:
		k := 130 + 470*vfTier()
		var reqs, wants [][]byte
		for j := 0; j < k; j++ {
			i := (inst + j*7) % n
			if j%3 == 2 {
				x := uint32(j) * 0x10203
				if j == 128 {
					x = vfU32("x")
				}
				v[i] = x
				reqs, wants = append(reqs, vfCat([]byte{0x4D}, vfSrvTagPath(name(i), -1), []byte{0xC4, 0, 1, 0}, vfLe32(x))), append(wants, []byte{0xCD, 0, 0, 0})
			} else {
				reqs, wants = append(reqs, vfCat([]byte{0x4C}, vfSrvTagPath(name(i), -1), []byte{1, 0})), append(wants, vfCat([]byte{0xCC, 0, 0, 0, 0xC4, 0}, vfLe32(v[i])))
			}
		}
		srv.ConnMgr.Add(&serverConnection{ID: 1, OT: 5, TO: 6, Path: []byte{1, 0}, Open: true})
		_, _, svc, st, d := vfConnReply(vfOneReply(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0}, vfMultiReq(reqs...)))))
		vfAssert(svc == 0x8A && st == 0, "a packet is a success if all of its services are")
		got := vfMultiReply(d)
		vfAssert(len(got) == k, "each service gets a reply")
		for j := range got {
			vfAssert(vfEq(got[j], wants[j]), "a service that succeeds has its own status and exactly its data")
		}
		vfReach("packet")
	}
}

// VF_C18_offset: fragmented reads of a tag of 66000 bytes from offsets around 65536 and at its end, connected and in a packet; the elements there have any value.
func VF_C18_offset() {
	s, p := vfSrvStub()
	n := 33000
	v := make([]int16, n)
	data := make([]byte, 2*n)
	for i := range v {
		v[i] = int16(i * 5)
		if i == 32767 || i == 32768 || i == n-1 {
			v[i] = int16(vfU16("v"))
		}
		data[2*i], data[2*i+1] = byte(v[i]), byte(uint16(v[i])>>8)
	}
	p.value = v
	off := []int{65534, 65535, 65536, 65537, 65998, 66000, 66001, 0x10000 * 3, 0x7FFFFFFF}[vfPick("off", 9)]
	svc, st, got := vfC18via(s, 2*vfPick("via", 2), vfCat([]byte{0x52}, vfSrvTagPath("tag", -1), vfLe16(32767), vfLe32(uint32(off))))
	vfAssert(svc == 0xD2, "the reply is to the read")
	if off > len(data) {
		vfAssert(st != 0 && len(got) == 0, "a read from behind the end is an error")
		vfReach("behind")
		return
	}
	vfAssert(st == 0 && vfEq(got, vfCat([]byte{0xC3, 0}, data[off:])), "the reply has exactly the provider's data")
	vfReach("read")
}
