package gologix

import (
	"bytes"
	"math"
	"net"
	"time"
)

// vfC28out is an output structure; its wire form is its fields in order, little endian.
type vfC28out struct {
	A int32
	B int16
	C [2]uint8
	D float32
	E uint32
}

const vfC28size = 16

func vfC28is(o vfC28out, d []byte) bool {
	return uint32(o.A) == vfU32le(d) && uint16(o.B) == vfU16le(d[4:]) && o.C[0] == d[6] && o.C[1] == d[7] && math.Float32bits(o.D) == vfU32le(d[8:]) && o.E == vfU32le(d[12:])
}

// vfC28val is an output structure with any values that are not those of the data.
func vfC28val(name string) (vfC28out, []byte) {
	d := vfBytes(name, vfC28size)
	var o vfC28out
	_, err := Unpack(bytes.NewBuffer(d), &o)
	vfAssume(err == nil)
	return o, d
}

// VF_C28_write: an IOProvider given any data of 0 to 22 bytes and none, one or more bytes over its structure, one to three items, any item type.
func VF_C28_write() {
	n := vfPick("n", 25)
	data := vfBytes("data", n)
	typ := vfU16("type")
	items := []CIPItem{{Header: cipItemHeader{ID: cipItem_SequenceAddress, Length: 8}, Data: vfBytes("address", 8)},
		{Header: cipItemHeader{ID: CIPItemID(typ), Length: uint16(n)}, Data: data}}
	k := vfPick("items", 3)
	if k == 1 {
		items = items[1:]
	} else if k == 2 {
		items = append(items, items[1])
	}
	old, was := vfC28val("old")
	in := uint16(5)
	p := &IOProvider[uint16, vfC28out]{In: &in, Out: &old}
	err := p.IOWrite(items)
	bad := k != 0 || typ != 0xB1 || n < 6+vfC28size
	if bad {
		vfAssert(err != nil, "a short or malformed datagram is an error")
		vfAssert(vfC28is(old, was), "a bad datagram leaves the output unchanged")
		vfReach("bad")
		return
	}
	if n == 6+vfC28size {
		vfAssert(err == nil, "a good datagram is accepted")
		vfReach("good")
	}
	if err == nil {
		vfAssert(vfC28is(old, data[6:]) && vfC28is(p.GetOutputData(), data[6:]), "the output is exactly the datagram's data")
	} else {
		vfAssert(vfC28is(old, was), "a refused datagram leaves the output unchanged")
	}
	vfAssert(in == 5, "a datagram does not change the input")
}

// VF_C28_small: IOProviders of a 32-bit number, of three 16-bit numbers and of a structure in a structure, any data of 6 to 14 bytes.
func VF_C28_small() {
	n := 6 + vfPick("n", 9)
	data := vfBytes("data", n)
	items := []CIPItem{{Header: cipItemHeader{ID: cipItem_SequenceAddress, Length: 8}, Data: vfBytes("address", 8)},
		{Header: cipItemHeader{ID: cipItem_ConnectedData, Length: uint16(n)}, Data: data}}
	type inner struct {
		X uint32
		Y int32
	}
	type outer struct{ N inner }
	u := vfU32("old")
	var p CIPEndpoint
	a := struct{ V uint32 }{u}
	b := struct{ V [3]int16 }{[3]int16{int16(u), 1, 2}}
	c := outer{inner{u, 1}}
	which := vfPick("which", 3)
	size := []int{4, 6, 8}[which]
	switch which {
	case 0:
		p = &IOProvider[uint16, struct{ V uint32 }]{Out: &a}
	case 1:
		p = &IOProvider[uint16, struct{ V [3]int16 }]{Out: &b}
	case 2:
		p = &IOProvider[uint16, outer]{Out: &c}
	}
	err := p.IOWrite(items)
	if n < 6+size {
		vfAssert(err != nil, "a short datagram is an error")
		vfAssert(a.V == u && b.V == [3]int16{int16(u), 1, 2} && c == outer{inner{u, 1}}, "a short datagram leaves the output unchanged")
		vfReach("short")
		return
	}
	if n == 6+size {
		vfAssert(err == nil, "a good datagram is accepted")
		d := data[6:]
		switch which {
		case 0:
			vfAssert(a.V == vfU32le(d), "the output is exactly the datagram's data")
		case 1:
			vfAssert(uint16(b.V[0]) == vfU16le(d) && uint16(b.V[1]) == vfU16le(d[2:]) && uint16(b.V[2]) == vfU16le(d[4:]), "the output is exactly the datagram's data")
		case 2:
			vfAssert(c.N.X == vfU32le(d) && uint32(c.N.Y) == vfU32le(d[4:]), "the output is exactly the datagram's data")
		}
		vfReach("good")
	}
}

// VF_C28_read: any input structure, in both providers, before and after a change.
func VF_C28_read() {
	a, da := vfC28val("a")
	b, db := vfC28val("b")
	cp := &IOChannelProvider[vfC28out, uint16]{}
	ip := &IOProvider[vfC28out, uint16]{In: &a}
	cp.SetInputData(a)
	check := func(p CIPEndpoint, want []byte) {
		got, err := p.IORead()
		vfAssert(err == nil && vfEq(got, want), "the input is exactly the structure's bytes")
	}
	check(cp, da)
	check(ip, da)
	cp.SetInputData(b)
	ip.SetInputData(b)
	check(cp, db)
	check(ip, db)
	vfAssert(vfC28is(a, da), "a change of the input leaves the caller's earlier structure alone")
	b.A++
	check(cp, db)
	check(ip, db)
	vfReach("read")
}

// VF_C28_channels: an IOChannelProvider with 0 to 3 receivers, each waiting or not, any data of 0 to 22 bytes, any item type.
func VF_C28_channels() {
	k := vfPick("receivers", 4)
	p := &IOChannelProvider[uint16, vfC28out]{}
	waiting := make([]bool, k)
	got := make([]chan vfC28out, k)
	chans := make([]<-chan vfC28out, k)
	some := 0
	for i := range got {
		chans[i] = p.GetOutputDataChannel()
		got[i] = make(chan vfC28out, 1)
		waiting[i] = vfPick("waiting", 2) == 1
		if waiting[i] {
			some++
		}
	}
	n := []int{22, 0, 4, 6, 21}[vfPick("n", 5)]
	data := vfBytes("data", n)
	typ := vfU16("type")
	items := []CIPItem{{Header: cipItemHeader{ID: cipItem_SequenceAddress, Length: 8}, Data: vfBytes("address", 8)},
		{Header: cipItemHeader{ID: CIPItemID(typ), Length: uint16(n)}, Data: data}}
	good := typ == 0xB1 && n == 22
	for i := range got {
		if waiting[i] {
			c, g := chans[i], got[i]
			go func() { g <- <-c }()
		}
	}
	vfSettle()
	err := p.IOWrite(items)
	vfSettle()
	if !good {
		vfAssert(err != nil, "a short or malformed datagram is an error")
		for i := range got {
			vfAssert(len(got[i]) == 0, "a bad datagram is given to nobody")
		}
		vfReach("bad")
		return
	}
	vfAssert((err == nil) == (some == k), "a datagram is an error exactly if someone did not get it")
	for i := range got {
		vfAssert((len(got[i]) == 1) == waiting[i], "a waiting receiver gets the datagram")
		if waiting[i] {
			vfAssert(vfC28is(<-got[i], data[6:]), "a receiver gets exactly the datagram's data")
			vfReach("received")
		}
	}
}

// vfC28open is a forward open of a class 1 connection to path.
func vfC28open(to, ot uint32, serial uint16, torpi uint32, path []byte) []byte {
	return vfCat([]byte{0x54, 2, 0x20, 6, 0x24, 1, 5, 0x99}, vfLe32(ot), vfLe32(to), vfLe16(serial), []byte{1, 0, 2, 0, 0, 0, 3, 0, 0, 0}, vfLe32(10000), []byte{0x16, 0x48}, vfLe32(torpi), []byte{0x16, 0x48, 1, byte(len(path) / 2)}, path)
}

// VF_C28_datagram: two open I/O connections of any ids on two paths; any datagram for any connection id with any sequence numbers, one to three
// items, lengths inside, at and beyond what there is, any data item type; then a good one.
func VF_C28_datagram() {
	a, wa := vfC28val("a")
	b, wb := vfC28val("b")
	r := NewRouter()
	in := uint16(1)
	r.Handle([]byte{1, 0}, &IOProvider[uint16, vfC28out]{In: &in, Out: &a})
	r.Handle([]byte{1, 1}, &IOProvider[uint16, vfC28out]{In: &in, Out: &b})
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	oa, ob := vfU32("ota"), vfU32("otb")
	vfAssume(oa != ob)
	srv.ConnMgr.Add(&serverConnection{ID: 1, OT: oa, TO: 1, Path: []byte{1, 0}, Open: true})
	srv.ConnMgr.Add(&serverConnection{ID: 2, OT: ob, TO: 2, Path: []byte{1, 1}, Open: true})
	id := vfU32("id")
	n := []int{22, 0, 5, 6, 21}[vfPick("n", 5)]
	data := vfBytes("data", n)
	l := n
	switch vfPick("declared", 4) {
	case 1:
		l = n + 1
	case 2:
		l = 0xFFFF
	case 3:
		l = 22
	}
	la := []int{8, 7, 4}[vfPick("addresslen", 3)]
	count := []uint16{2, 0, 1, 3, 0xFFFF}[vfPick("count", 5)]
	ta, td := vfU16("addresstype"), vfU16("type")
	frame := vfCat(vfLe16(count), vfLe16(ta), vfLe16(uint16(la)), vfCat(vfLe32(id), vfLe32(vfU32("seq")))[:la], vfLe16(td), vfLe16(uint16(l)), data)
	good := count == 2 && ta == 0x8002 && la == 8 && td == 0xB1 && l == 22 && n == 22
	vfAssert(vfUdpRun(srv, frame), "the server goes on")
	if good && id == oa {
		vfAssert(vfC28is(a, data[6:]), "the output is exactly the datagram's data")
		wa = data[6:]
		vfReach("a")
	}
	if good && id == ob {
		vfAssert(vfC28is(b, data[6:]), "the output is exactly the datagram's data")
		wb = data[6:]
		vfReach("b")
	}
	vfAssert(vfC28is(a, wa) && vfC28is(b, wb), "a bad or foreign datagram changes nothing")
	d := vfBytes("next", 22)
	vfAssert(vfUdpRun(srv, vfCat([]byte{2, 0, 2, 0x80, 8, 0}, vfLe32(oa), []byte{9, 0, 0, 0, 0xB1, 0, 22, 0}, d)), "the server goes on")
	vfAssert(vfC28is(a, d[6:]) && vfC28is(b, wb), "the next datagram is written")
}

// VF_C28_cycle: an I/O connection of any ids (given or chosen by the server) and any positive interval, any input values, three cycles with a
// change of the input, then closed.
func VF_C28_cycle() {
	a, da := vfC28val("a")
	b, db := vfC28val("b")
	out := uint16(0)
	p := &IOProvider[vfC28out, uint16]{In: &a, Out: &out}
	r := NewRouter()
	r.Handle([]byte{1, 0}, p)
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	s := vfNewSrv(srv)
	sent := make(chan []byte, 8)
	addr := ""
	vfDialHook = func(network, address string) (net.Conn, error) {
		addr = network + " " + address
		return &vfUdpOut{sent: sent}, nil
	}
	to, ot, serial, rpi := vfU32("to"), vfU32("ot"), vfU16("serial"), vfU32("rpi")
	vfAssume(rpi != 0)
	s.feed(vfEip(0x65, 0, 0, 1, []byte{1, 0, 0, 0}))
	rep, alive := s.feed(vfEip(0x6F, 5, 0, 1, vfUnconnBody(vfC28open(to, ot, serial, rpi, []byte{1, 0}))))
	vfAssert(alive && len(rep) >= 40+12, "the connection is opened")
	got := vfU32le(rep[40+8:])
	vfAssert(got != 0 && (to == 0 || got == to) || to == 0, "the connection has its id")
	for i := 1; i <= 3; i++ {
		want := da
		if i == 3 {
			p.SetInputData(b)
			want = db
		}
		vfTick <- vfNow()
		d := <-sent
		vfAssert(vfEq(d, vfCat([]byte{2, 0, 2, 0x80, 8, 0}, vfLe32(got), vfLe32(uint32(i)), []byte{0xB1, 0, 18, 0}, vfLe16(uint16(i)), want)), "a cycle sends exactly the input's bytes with the connection's id and the next sequence number")
	}
	vfAssert(vfTickD == time.Duration(rpi)*time.Microsecond, "the input is sent at the requested interval")
	vfAssert(addr == "udp 10.0.0.9:2222", "the input is sent to the originator")
	vfAssert(srv.ConnMgr.CloseByTO(got) == nil, "the connection is closed")
	vfTick <- vfNow()
	vfSettle()
	vfAssert(len(sent) == 0, "a closed connection sends nothing")
	vfReach("cycle")
}

// VF_C28_session: an I/O connection of any id, serial number and originator; between its cycles the same session opens another connection,
// reads on it and closes it; then the I/O connection is closed by a forward close of the session, or another connection is.
func VF_C28_session() {
	a, da := vfC28val("a")
	out := uint16(0)
	p := &IOProvider[vfC28out, uint16]{In: &a, Out: &out}
	r := NewRouter()
	r.Handle([]byte{1, 0}, p)
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	s := vfNewSrv(srv)
	sent := make(chan []byte, 8)
	vfDialHook = func(network, address string) (net.Conn, error) { return &vfUdpOut{sent: sent}, nil }
	to, serial, to2, serial2 := vfU32("to"), vfU16("serial"), vfU32("to2"), vfU16("serial2")
	vfAssume(to != 0 && to2 != 0 && to != to2 && serial != serial2)
	rep, alive := s.feed(vfEip(0x6F, 5, 0, 1, vfUnconnBody(vfC28open(to, 77, serial, 5000, []byte{1, 0}))))
	vfAssert(alive && len(rep) >= 40+12 && rep[42] == 0, "the connection is opened")
	vendor2, orig2 := vfU16("vendor2"), vfU32("orig2")
	want := func(i int) []byte {
		return vfCat([]byte{2, 0, 2, 0x80, 8, 0}, vfLe32(to), vfLe32(uint32(i)), []byte{0xB1, 0, 18, 0}, vfLe16(uint16(i)), da)
	}
	vfTick <- vfNow()
	vfAssert(vfEq(<-sent, want(1)), "a cycle sends exactly the input's bytes with the connection's id and the next sequence number")
	open := vfOpenReq(vfPick("large", 2) == 1, 78, to2, serial2, vendor2, orig2, []byte{1, 0, 0x20, 2, 0x24, 1})
	other := vfPick("other", 3)
	if other > 0 {
		_, status, _ := vfUnconnReply(vfOneReply(s, vfUnconnFrame(5, 2, open)))
		vfAssert(status == 0, "another connection is opened")
	}
	if other > 1 {
		id, _, _, _, _ := vfConnReply(vfOneReply(s, vfConnFrame(5, 3, 78, vfCat(vfLe16(3), []byte{0x4C}, vfSrvTagPath("tag", -1), []byte{1, 0}))))
		vfAssert(id == to2, "the other connection is used")
	}
	vfTick <- vfNow()
	vfAssert(vfEq(<-sent, want(2)), "what else its session does changes nothing in what a connection sends")
	if other > 0 && vfPick("which", 2) == 1 {
		_, status, _ := vfUnconnReply(vfOneReply(s, vfUnconnFrame(5, 4, vfCloseReq(serial2, vendor2, orig2, []byte{1, 0, 0x20, 2, 0x24, 1}))))
		vfAssert(status == 0, "the other connection is closed")
		vfTick <- vfNow()
		vfAssert(vfEq(<-sent, want(3)), "another connection's close changes nothing in what a connection sends")
	}
	_, status, _ := vfUnconnReply(vfOneReply(s, vfUnconnFrame(5, 5, vfCloseReq(serial, 1, 2, []byte{1, 0}))))
	vfAssert(status == 0, "the connection is closed")
	vfTick <- vfNow()
	vfSettle()
	vfAssert(len(sent) == 0, "a connection closed by its originator sends nothing")
	vfReach("closed")
}

// VF_C28_long: 260 (thorough: 560) cycles of a connection with any input value.
func VF_C28_long() {
	a, da := vfC28val("a")
	out := uint16(0)
	p := &IOProvider[vfC28out, uint16]{In: &a, Out: &out}
	r := NewRouter()
	r.Handle([]byte{1, 0}, p)
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	s := vfNewSrv(srv)
	sent := make(chan []byte, 8)
	vfDialHook = func(network, address string) (net.Conn, error) { return &vfUdpOut{sent: sent}, nil }
	rep, alive := s.feed(vfEip(0x6F, 5, 0, 1, vfUnconnBody(vfC28open(0x12345678, 77, 9, 5000, []byte{1, 0}))))
	vfAssert(alive && len(rep) >= 40+12 && rep[42] == 0, "the connection is opened")
	n := 260 + vfTier()*300
	for i := 1; i <= n; i++ {
		vfTick <- vfNow()
		d := <-sent
		vfAssert(vfEq(d, vfCat([]byte{2, 0, 2, 0x80, 8, 0}, vfLe32(0x12345678), vfLe32(uint32(i)), []byte{0xB1, 0, 18, 0}, vfLe16(uint16(i)), da)), "every cycle sends the input with the next sequence number")
	}
	vfReach("long")
}

// VF_C28_many: 300 open I/O connections with distinct ids on two paths, those of low, high and middle positions closed or not; a datagram
// with any data for one of them: the first, 254th, 255th, 256th, 257th or last.
func VF_C28_many() {
	a, wa := vfC28val("a")
	b, _ := vfC28val("b")
	r := NewRouter()
	in := uint16(1)
	r.Handle([]byte{1, 0}, &IOProvider[uint16, vfC28out]{In: &in, Out: &a})
	r.Handle([]byte{1, 1}, &IOProvider[uint16, vfC28out]{In: &in, Out: &b})
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	at := []int{0, 254, 255, 256, 257, 299}[vfPick("at", 6)]
	for i := 0; i < 300; i++ {
		path := []byte{1, 0}
		if i == at {
			path = []byte{1, 1}
		}
		srv.ConnMgr.Add(&serverConnection{ID: uint16(i), OT: uint32(1000 + i*0x10001), TO: uint32(5 + i), Path: path, Open: true})
	}
	if vfPick("close", 2) == 1 {
		vfAssert(srv.ConnMgr.CloseByOT(uint32(1000+7*0x10001)) == nil, "a connection is closed")
	}
	d := vfBytes("data", 22)
	vfAssert(vfUdpRun(srv, vfCat([]byte{2, 0, 2, 0x80, 8, 0}, vfLe32(uint32(1000+at*0x10001)), []byte{9, 0, 0, 0, 0xB1, 0, 22, 0}, d)), "the server goes on")
	vfAssert(vfC28is(b, d[6:]) && vfC28is(a, wa), "the output of exactly the connection's path is written")
	vfReach("many")
}
