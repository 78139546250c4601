package gologix

import "net"

// vfC36op is an operation on the provider with the array b (old: 11, 22, 33), the number a (old: 7) and a tag n that does not exist at first.
// do runs it and uses all it gets; state gives what the operation saw, apply gives the effect on a model (array, number, whether n exists).
type vfC36op struct {
	do    func()
	apply func(m *vfC36model) string
	saw   func() string
}

type vfC36model struct {
	b []int16
	a int32
	n int32
}

func vfC36text(v []int16) string {
	s := ""
	for _, x := range v {
		s += string(rune('A' + x)) // the values are below 60
	}
	return s
}

func vfC36ops(p *MapTagProvider, kind int, tag int16) vfC36op {
	saw := ""
	get := func() string { return saw }
	read := func(name string, qty int16) {
		v, err := p.TagRead(name, qty)
		if err != nil {
			saw = "error"
			return
		}
		switch x := v.(type) {
		case []int16:
			saw = vfC36text(x)
			for i := range x {
				x[i] = 59 // what was read belongs to the reader
			}
		case int16:
			saw = vfC36text([]int16{x})
		case int32:
			saw = vfC36text([]int16{int16(x)})
		default:
			saw = "type"
		}
	}
	write := func(name string, v any) {
		if p.TagWrite(name, v) != nil {
			saw = "error"
		}
	}
	switch kind {
	case 0:
		return vfC36op{func() { read("b", 3) }, func(m *vfC36model) string { return vfC36text(m.b) }, get}
	case 1:
		return vfC36op{func() { read("b[1]", 2) }, func(m *vfC36model) string { return vfC36text(m.b[1:3]) }, get}
	case 2:
		return vfC36op{func() { read("b[2]", 1) }, func(m *vfC36model) string { return vfC36text(m.b[2:3]) }, get}
	case 3:
		return vfC36op{func() {
			v := []int16{tag, tag + 1, tag + 2}
			write("b", v)
			v[0] = 58 // what was written belongs to the writer
		}, func(m *vfC36model) string { m.b = []int16{tag, tag + 1, tag + 2}; return "" }, get}
	case 4:
		return vfC36op{func() { write("b[2]", tag) }, func(m *vfC36model) string { m.b = []int16{m.b[0], m.b[1], tag}; return "" }, get}
	case 5:
		return vfC36op{func() { write("b", []any{tag, tag, tag}) }, func(m *vfC36model) string { m.b = []int16{tag, tag, tag}; return "" }, get}
	case 6:
		return vfC36op{func() { write("n", int32(tag)) }, func(m *vfC36model) string { m.n = int32(tag); return "" }, get}
	case 7:
		return vfC36op{func() { read("n", 1) }, func(m *vfC36model) string {
			if m.n == 0 {
				return "error"
			}
			return vfC36text([]int16{int16(m.n)})
		}, get}
	case 8:
		return vfC36op{func() {
			n := 0
			for _, t := range p.TagList() {
				switch {
				case t.Name == "a" && t.Type == CIPTypeDINT, t.Name == "b" && t.Type == CIPTypeINT:
					n++
				case t.Name == "n" && t.Type == CIPTypeDINT:
					n += 10
				default:
					n += 100
				}
			}
			saw = vfC36text([]int16{int16(n)})
		}, func(m *vfC36model) string {
			if m.n != 0 {
				return vfC36text([]int16{12})
			}
			return vfC36text([]int16{2})
		}, get}
	case 9:
		return vfC36op{func() { write("a", int32(tag)) }, func(m *vfC36model) string { m.a = int32(tag); return "" }, get}
	}
	return vfC36op{func() { read("a", 1) }, func(m *vfC36model) string { return vfC36text([]int16{int16(m.a)}) }, get}
}

// vfC36run runs operations at once and checks that what they saw and left is that of one of the orders they could have run in.
func vfC36run(switches int, p *MapTagProvider, ops ...vfC36op) {
	vfSchedule(switches)
	for _, o := range ops {
		vfGo(o.do)
	}
	vfJoin()
	orders := [][]int{{0, 1}, {1, 0}}
	if len(ops) == 3 {
		orders = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	}
	end := ""
	v, err := p.TagRead("b", 3)
	if b, ok := v.([]int16); err == nil && ok {
		end = vfC36text(b)
	}
	v, err = p.TagRead("a", 1)
	if a, ok := v.(int32); err == nil && ok {
		end += vfC36text([]int16{int16(a)})
	}
	if v, err = p.TagRead("n", 1); err == nil {
		n, ok := v.(int32)
		vfAssert(ok, "a tag keeps its type")
		end += vfC36text([]int16{int16(n)})
	}
	found := false
	for _, order := range orders {
		m := &vfC36model{b: []int16{11, 22, 33}, a: 7}
		same := true
		for _, i := range order {
			if ops[i].apply(m) != ops[i].saw() {
				same = false
			}
		}
		want := vfC36text(m.b) + vfC36text([]int16{int16(m.a)})
		if m.n != 0 {
			want += vfC36text([]int16{int16(m.n)})
		}
		found = found || same && want == end
	}
	vfAssert(found, "operations at the same time act as if they were one after the other")
}

func vfC36map() *MapTagProvider {
	return &MapTagProvider{Data: map[string]any{"b": []int16{11, 22, 33}, "a": int32(7)}}
}

// VF_C36_map: two goroutines that each do one of eleven operations (read of an array, of a part, of an element; write of an array, of an element, of a list of values, of a new tag, of a
// number; read of the new tag, of a number; the list of the tags) on a MapTagProvider, every schedule with up to three switches (thorough: four).
func VF_C36_map() {
	p := vfC36map()
	x, y := vfPick("x", 11), vfPick("y", 11)
	vfAssume(x <= y)
	vfC36run(3+vfTier(), p, vfC36ops(p, x, 40), vfC36ops(p, y, 50))
	vfReach("done")
}

// VF_C36_three: three goroutines, a write of an array, a write of an element or of a new tag, and any of the operations, every schedule with up to two switches (thorough: three).
func VF_C36_three() {
	p := vfC36map()
	vfC36run(2+vfTier(), p, vfC36ops(p, 3, 40), vfC36ops(p, []int{4, 6}[vfPick("y", 2)], 45), vfC36ops(p, vfPick("z", 11), 50))
	vfReach("done")
}

// VF_C36_nil: two goroutines that use a MapTagProvider without tags for the first time.
func VF_C36_nil() {
	p := &MapTagProvider{}
	var e1, e2 error
	k := vfPick("k", 3)
	vfSchedule(2)
	vfGo(func() { e1 = p.TagWrite("a", int32(5)) })
	vfGo(func() {
		switch k {
		case 0:
			e2 = p.TagWrite("b", int16(6))
		case 1:
			_, e2 = p.TagRead("b", 1)
		case 2:
			p.TagList()
		}
	})
	vfJoin()
	vfAssert(e1 == nil && (e2 == nil) == (k != 1), "a write of a new tag succeeds, a read of one that does not exist is an error")
	v, err := p.TagRead("a", 1)
	vfAssert(err == nil && v == int32(5), "a tag that was written is there")
	if k == 0 {
		v, err = p.TagRead("b", 1)
		vfAssert(err == nil && v == int16(6), "a tag that was written is there")
	}
	vfReach("done")
}

type vfC36data struct {
	A uint32
	B [2]uint16
	C uint8
}

const vfC36size = 9

func vfC36value(k byte) (vfC36data, []byte) {
	d := []byte{k, 0, 0, k, k, 1, k, 2, k}
	return vfC36data{uint32(k) | uint32(k)<<24, [2]uint16{uint16(k) | 0x100, uint16(k) | 0x200}, k}, d
}

func vfC36datagram(d []byte) []CIPItem {
	return []CIPItem{{Header: cipItemHeader{ID: cipItem_SequenceAddress, Length: 8}, Data: make([]byte, 8)},
		{Header: cipItemHeader{ID: cipItem_ConnectedData, Length: uint16(6 + len(d))}, Data: vfCat([]byte{1, 0, 0, 0, 1, 0}, d)}}
}

// VF_C36_io: an IOProvider whose input is set and sent and whose output is received and read, by three of those four at the same time; every schedule with up to three switches (thorough: four).
func VF_C36_io() {
	i0, di0 := vfC36value(1)
	o0, _ := vfC36value(2)
	i1, di1 := vfC36value(3)
	o1, do1 := vfC36value(4)
	keep := o0
	p := &IOProvider[vfC36data, vfC36data]{In: &i0, Out: &o0}
	var got []byte
	var out vfC36data
	var e1, e2 error
	skip := vfPick("skip", 4)
	did := func(k int, f func()) {
		if k != skip {
			vfGo(f)
		}
	}
	vfSchedule(3 + vfTier())
	did(0, func() { p.SetInputData(i1) })
	did(1, func() { got, e1 = p.IORead() })
	did(2, func() { e2 = p.IOWrite(vfC36datagram(do1)) })
	did(3, func() { out = p.GetOutputData() })
	vfJoin()
	vfAssert(e1 == nil && e2 == nil, "input is sent and output is received")
	if skip != 1 {
		vfAssert(vfEq(got, di0) || skip != 0 && vfEq(got, di1), "the input sent is what it was before or after it was set")
	}
	if skip != 3 {
		vfAssert(out == keep || skip != 2 && out == o1, "the output read is what it was before or after it was received")
	}
	got, e1 = p.IORead()
	vfAssert(e1 == nil && vfEq(got, [][]byte{di1, di0}[vfC36if(skip == 0)]), "the input stays what it was set to")
	out = p.GetOutputData()
	vfAssert(out == []vfC36data{o1, keep}[vfC36if(skip == 2)], "the output stays what was received")
	vfReach("done")
}

// VF_C36_own: an application that changes its own input in two steps, or looks at its own output twice, holding the mutex as documented, while a session sends the input, another sets it, or an output arrives; every schedule with up to three switches (thorough: five).
func VF_C36_own() {
	i0, di0 := vfC36value(1)
	o0, _ := vfC36value(2)
	i1, di1 := vfC36value(3)
	o1, do1 := vfC36value(4)
	keep := o0
	p := &IOProvider[vfC36data, vfC36data]{In: &i0, Out: &o0}
	var got []byte
	var e error
	var a, b vfC36data
	if vfPick("side", 2) == 0 {
		set := vfPick("set", 2) == 1
		i2, di2 := vfC36value(5)
		vfSchedule(3 + 2*vfTier())
		vfGo(func() {
			p.InMutex.Lock()
			p.In.A = i1.A
			p.In.B, p.In.C = i1.B, i1.C
			p.InMutex.Unlock()
		})
		vfGo(func() { got, e = p.IORead() })
		if set {
			vfGo(func() { p.SetInputData(i2) })
		}
		vfJoin()
		vfAssert(e == nil && (vfEq(got, di0) || vfEq(got, di1) || set && vfEq(got, di2)), "the input sent is what it was before or after a change")
	} else {
		vfSchedule(3 + 2*vfTier())
		vfGo(func() {
			p.OutMutex.Lock()
			a = *p.Out
			b = *p.Out
			p.OutMutex.Unlock()
		})
		vfGo(func() { e = p.IOWrite(vfC36datagram(do1)) })
		vfJoin()
		vfAssert(e == nil && a == b && (a == keep || a == o1), "the output doesn't change for who holds the mutex")
	}
	vfReach("done")
}

func vfC36if(b bool) int {
	if b {
		return 1
	}
	return 0
}

// VF_C36_channel: an IOChannelProvider whose input is set by two goroutines and sent by a third, or that receives an output while two channels for the output are made; every schedule with up to two switches.
func VF_C36_channel() {
	p := &IOChannelProvider[vfC36data, vfC36data]{}
	i0, di0 := vfC36value(1)
	i1, di1 := vfC36value(2)
	i2, di2 := vfC36value(3)
	p.SetInputData(i0)
	if vfBool("input") {
		var got []byte
		var err error
		vfSchedule(2)
		vfGo(func() { p.SetInputData(i1) })
		vfGo(func() { p.SetInputData(i2) })
		vfGo(func() { got, err = p.IORead() })
		vfJoin()
		vfAssert(err == nil && (vfEq(got, di0) || vfEq(got, di1) || vfEq(got, di2)), "the input sent is one it was set to")
		got, err = p.IORead()
		vfAssert(err == nil && (vfEq(got, di1) || vfEq(got, di2)), "the input stays what it was set to")
		vfReach("input")
		return
	}
	one := p.GetOutputDataChannel()
	var b vfC36data
	var two, three <-chan vfC36data
	vfSchedule(2)
	vfGo(func() { two = p.GetOutputDataChannel() })
	vfGo(func() { three = p.GetOutputDataChannel() })
	vfGo(func() { p.IOWrite(vfC36datagram(di1)) })
	vfJoin()
	for _, c := range []<-chan vfC36data{one, two, three} {
		done := make(chan bool)
		go func() {
			b = <-c
			close(done)
		}()
		vfSettle()
		p.IOWrite(vfC36datagram(di2))
		<-done
		vfAssert(b == i2, "every channel gets what the controller sends")
	}
	vfReach("output")
}

// vfC36req is a request of session k (its ids, context and values are k's) and the check of its reply.
func vfC36req(k int, what int) ([]byte, func(r vfReply)) {
	ctx, handle := uint64(100*k+what), uint32(10+k)
	ids := func(r vfReply) {
		vfAssert(r.session == handle && r.context == ctx, "a reply has the session and the context of its request")
	}
	un := func(data []byte, check func(svc, st byte, data []byte)) ([]byte, func(r vfReply)) {
		return vfUnconnFrame(handle, ctx, data), func(r vfReply) {
			ids(r)
			vfAssert(r.cmd == 0x6F, "a reply has the command of its request")
			check(vfUnconnReply(r))
		}
	}
	co := func(data []byte, check func(svc, st byte, data []byte)) ([]byte, func(r vfReply)) {
		return vfConnFrame(handle, ctx, uint32(20+k), vfCat(vfLe16(uint16(300+k)), data)), func(r vfReply) {
			ids(r)
			vfAssert(r.cmd == 0x70, "a reply has the command of its request")
			id, seq, svc, st, d := vfConnReply(r)
			vfAssert(id == uint32(30+k) && seq == uint16(300+k), "a reply to a connected request has the connection and the sequence number of the session")
			check(svc, st, d)
		}
	}
	own := []string{"x", "y", "z"}[k]
	switch what {
	case 0:
		return co(vfCat([]byte{0x4C}, vfSrvTagPath("b", -1), []byte{3, 0}), func(svc, st byte, d []byte) {
			vfAssert(svc == 0xCC && st == 0 && vfEq(d, []byte{0xC3, 0, 11, 0, 22, 0, 33, 0}), "a session reads an array")
		})
	case 1:
		return un(vfSendReq(vfCat([]byte{0x4C}, vfSrvTagPath(own, -1), []byte{1, 0}), []byte{1, 0}), func(svc, st byte, d []byte) {
			vfAssert(svc == 0xCC && st == 0 && vfEq(d, []byte{0xC4, 0, byte(k), 0, 0, 0}), "a session reads its own value")
		})
	case 2:
		return co(vfCat([]byte{0x4D}, vfSrvTagPath("w", k), []byte{0xC3, 0, 1, 0, byte(40 + k), 0}), func(svc, st byte, d []byte) {
			vfAssert(svc == 0xCD && st == 0 && len(d) == 0, "a session writes an element")
		})
	case 3:
		return un(vfSendReq(vfCat([]byte{0x4D}, vfSrvTagPath([]string{"n", "o", "p"}[k], -1), []byte{0xC4, 0, 1, 0, byte(50 + k), 0, 0, 0}), []byte{1, 0}), func(svc, st byte, d []byte) {
			vfAssert(svc == 0xCD && st == 0 && len(d) == 0, "a session writes a new tag")
		})
	case 4:
		return co(vfMultiReq(vfCat([]byte{0x4C}, vfSrvTagPath(own, -1), []byte{1, 0}), vfCat([]byte{0x4C}, vfSrvTagPath("b", 1), []byte{1, 0})), func(svc, st byte, d []byte) {
			rs := vfMultiReply(d)
			vfAssert(svc == 0x8A && st == 0 && len(rs) == 2, "a session reads two tags")
			vfAssert(vfEq(rs[0], []byte{0xCC, 0, 0, 0, 0xC4, 0, byte(k), 0, 0, 0}) && vfEq(rs[1], []byte{0xCC, 0, 0, 0, 0xC3, 0, 22, 0}), "a session reads two tags")
		})
	case 5:
		return un([]byte{0x0E, 3, 0x20, 1, 0x24, 1, 0x30, 1}, func(svc, st byte, d []byte) {
			vfAssert(svc == 0x8E && st == 0 && len(d) >= 2 && vfEq(d[len(d)-2:], []byte{0x76, 0x17}), "a session reads an attribute")
		})
	case 6:
		return un(vfOpenReq(k == 1, 77, uint32(80+k), 9, 1, uint32(k), []byte{1, 0}), func(svc, st byte, d []byte) {
			vfAssert(svc == []byte{0xD4, 0xDB}[vfC36if(k == 1)] && st == 0 && len(d) == 26 && vfU32le(d[4:]) == uint32(80+k) && vfU16le(d[8:]) == 9 && vfU32le(d[12:]) == uint32(k), "a session opens a connection")
		})
	case 7:
		return un(vfCloseReq(uint16(60+k), 2, 3, []byte{1, 0}), func(svc, st byte, d []byte) {
			vfAssert(svc == 0xCE && st == 0, "a session closes its connection")
		})
	}
	return vfEip(0x63, handle, 0, ctx, nil), func(r vfReply) {
		ids(r)
		vfAssert(r.cmd == 0x63 && r.status == 0 && len(r.body) > 30, "a session gets the identity")
	}
}

// vfC36server is a server with the tags the requests use, and with open connections for the sessions.
func vfC36server() (*Server, *MapTagProvider) {
	vfRands = 0
	p := &MapTagProvider{Data: map[string]any{"b": []int16{11, 22, 33}, "x": int32(0), "y": int32(1), "z": int32(2), "w": []int16{1, 2, 3}}}
	r := NewRouter()
	r.Handle([]byte{1, 0}, p)
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	for k := 0; k < 3; k++ {
		srv.ConnMgr.Add(&serverConnection{ID: uint16(60 + k), VendorID: 2, OriginatorSerialNumber: 3, OT: uint32(20 + k), TO: uint32(30 + k), Path: []byte{1, 0}, Open: true})
	}
	return srv, p
}

// vfC36after checks what the requests of a session leave behind.
func vfC36after(srv *Server, p *MapTagProvider, k int, kinds ...int) {
	for _, what := range kinds {
		switch what {
		case 2:
			v, err := p.TagRead([]string{"w[0]", "w[1]", "w[2]"}[k], 1)
			vfAssert(err == nil && v == int16(40+k), "what a session writes is there")
		case 3:
			v, err := p.TagRead([]string{"n", "o", "p"}[k], 1)
			vfAssert(err == nil && v == int32(50+k), "what a session writes is there")
		case 6:
			c, err := srv.ConnMgr.GetByTO(uint32(80 + k))
			vfAssert(err == nil && c.Open && c.OriginatorSerialNumber == uint32(k), "what a session opens is there")
			d, err := srv.ConnMgr.GetByOT(c.OT)
			vfAssert(err == nil && d == c, "every connection has its own id")
		case 7:
			_, err := srv.ConnMgr.GetByOT(uint32(20 + k))
			vfAssert(err != nil, "what a session closes is not there")
		}
	}
}

// VF_C36_sessions: two sessions of a server with one request each: a connected read, an unconnected read, a connected write of an element, an unconnected write of a new tag, a read of two tags, of an attribute, a forward open (both ask for the same id), a forward close or a request for the identity; every schedule with up to three switches (thorough: four).
func VF_C36_sessions() {
	srv, p := vfC36server()
	x, y := vfPick("x", 9), vfPick("y", 9)
	vfAssume(x <= y)
	f, cf := vfC36req(0, x)
	g, cg := vfC36req(1, y)
	s, t := vfNewSrv(srv), vfNewSrv(srv)
	var a, b []byte
	var ka, kb bool
	vfSchedule(3 + vfTier())
	vfGo(func() { a, ka = s.feed(f) })
	vfGo(func() { b, kb = t.feed(g) })
	vfJoin()
	vfAssert(ka && kb, "the sessions go on")
	ra, rb := vfReplies(a), vfReplies(b)
	vfAssert(len(ra) == 1 && len(rb) == 1, "every request gets exactly one reply in its session")
	cf(ra[0])
	cg(rb[0])
	vfC36after(srv, p, 0, x)
	vfC36after(srv, p, 1, y)
	if x != 6 && y != 6 && x != 7 && y != 7 {
		vfAssert(len(srv.ConnMgr.Connections) == 3, "requests open and close no other connections")
	}
	vfReach("done")
}

// vfC36listener hands the server connections and then ends it.
type vfC36listener struct {
	conns []*vfSrvConn
	fails int
}

func (l *vfC36listener) Accept() (net.Conn, error) {
	vfYield()
	if l.fails > 0 {
		l.fails--
		return nil, errVfBroken
	}
	if len(l.conns) == 0 {
		panic(vfUdpEnd{})
	}
	c := l.conns[0]
	l.conns = l.conns[1:]
	return c, nil
}
func (l *vfC36listener) Close() error   { return nil }
func (l *vfC36listener) Addr() net.Addr { return vfPeer("10.0.0.1:44818") }

// VF_C36_accept: a listening server that takes two or three connections (the first accept may fail), on which a session is registered and two more requests are sent; every schedule with up to one switch (thorough: two).
func VF_C36_accept() {
	srv, p := vfC36server()
	n := 2 + vfPick("n", 2)
	l := &vfC36listener{fails: vfPick("fails", 2)}
	m := vfPick("kinds", 4)
	var checks [][]func(r vfReply)
	var kinds [][]int
	for k := 0; k < n; k++ {
		w := []int{[]int{2, 1, 6, 4}[m], []int{1, 3, 0, 7}[m]}
		f, cf := vfC36req(k, w[0])
		g, cg := vfC36req(k, w[1])
		kinds = append(kinds, w)
		checks = append(checks, []func(r vfReply){cf, cg})
		reg := vfEip(0x65, uint32(10+k), 0, uint64(k), []byte{1, 0, 0, 0})
		l.conns = append(l.conns, &vfSrvConn{in: vfCat(reg, f, g), local: &net.TCPAddr{IP: net.IP{10, 0, 0, 1}, Port: 44818}})
	}
	conns := l.conns
	srv.TCPListener = l
	vfSchedule(1 + vfTier())
	vfGo(func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vfUdpEnd); !ok {
					panic(r)
				}
			}
		}()
		srv.serveTCP()
	})
	vfJoin()
	vfSettle()
	for k, c := range conns {
		r := vfReplies(c.out)
		vfAssert(len(r) == 3, "every request gets exactly one reply in its session")
		vfAssert(r[0].cmd == 0x65 && r[0].session == uint32(10+k) && r[0].context == uint64(k) && r[0].status == 0, "every session is registered")
		checks[k][0](r[1])
		checks[k][1](r[2])
		vfAssert(c.closed > 0 && len(c.in) == 0, "a connection is closed when its session ends")
		vfC36after(srv, p, k, kinds[k]...)
	}
	vfReach("done")
}

// VF_C36_datagrams: two cyclic datagrams for an IOProvider, a request of a session (the nine of VF_C36_sessions) and a close of the cyclic connection or a look at the output, at the same time; every schedule with up to two switches (thorough: three).
func VF_C36_datagrams() {
	srv, _ := vfC36server()
	o0, _ := vfC36value(1)
	o1, d1 := vfC36value(2)
	q0 := o0
	_, d2 := vfC36value(3)
	io := &IOProvider[vfC36data, vfC36data]{In: &o1, Out: &q0}
	srv.Router.Handle([]byte{1, 7}, io)
	srv.ConnMgr.Add(&serverConnection{ID: 70, VendorID: 2, OriginatorSerialNumber: 3, OT: 90, TO: 91, Path: []byte{1, 7}, Open: true})
	gram := func(d []byte) []byte {
		return vfCat([]byte{2, 0, 2, 0x80, 8, 0}, vfLe32(90), vfLe32(1), []byte{0xB1, 0}, vfLe16(uint16(6+len(d))), []byte{1, 0, 0, 0, 1, 0}, d)
	}
	what := vfPick("what", 9)
	f, cf := vfC36req(0, what)
	cl := vfUnconnFrame(10, 5, vfCloseReq(70, 2, 3, []byte{1, 7}))
	closes := vfBool("closes")
	s, t := vfNewSrv(srv), vfNewSrv(srv)
	var a, b []byte
	var ka, kb, ended bool
	var out vfC36data
	vfSchedule(2 + vfTier())
	vfGo(func() { ended = vfUdpRun(srv, gram(d1), gram(d2)) })
	vfGo(func() { a, ka = s.feed(f) })
	if closes {
		vfGo(func() { b, kb = t.feed(cl) })
	} else {
		vfGo(func() { out = io.GetOutputData() })
	}
	vfJoin()
	vfAssert(ended && ka, "the server goes on")
	ra := vfReplies(a)
	vfAssert(len(ra) == 1, "every request gets exactly one reply in its session")
	cf(ra[0])
	_, e1 := vfC36value(1)
	got := io.GetOutputData()
	is := func(o vfC36data, d []byte) bool { v, _ := vfC36value(d[0]); return o == v }
	if closes {
		rb := vfReplies(b)
		vfAssert(kb && len(rb) == 1, "every request gets exactly one reply in its session")
		svc, st, _ := vfUnconnReply(rb[0])
		vfAssert(svc == 0xCE && st == 0, "a session closes its connection")
		vfAssert(is(got, e1) || is(got, d1) || is(got, d2), "the output is one that was sent")
		vfReach("closed")
		return
	}
	vfAssert(is(got, d2), "the output is the last that was sent")
	vfAssert(is(out, e1) || is(out, d1) || is(out, d2), "the output is one that was sent")
	vfReach("done")
}
