package gologix

import "net"

type vfC16io struct{ A, B uint16 }

// vfSurvives feeds the frames to the session one after another until it ends; nothing of it may panic, and a request is answered or ends it.
func vfSurvives(s *vfSrv, frames ...[]byte) {
	for _, f := range frames {
		var out []byte
		alive := false
		vfAssert(vfNoPanic(func() { out, alive = s.feed(f) }), "the server does not crash on a request")
		if !alive {
			vfAssert(s.conn.closed > 0, "a session that ends is closed")
			vfReach("closed")
			return
		}
		nop := len(f) >= 2 && vfU16le(f) == 0
		vfAssert(nop || len(out) > 0 || len(f) == 0, "a request is answered or the session is closed")
		vfReach("answered")
	}
}

// VF_C16_header: any 24 byte header of the right length followed by 0, 3, 4, 8 or 12 any bytes; then a good request.
func VF_C16_header() {
	s, _ := vfSrvMap(5, 6)
	n := []int{0, 3, 4, 8, 12}[vfPick("n", 5)]
	h := vfBytes("hdr", 24)
	h[2], h[3] = byte(n), 0
	body := vfBytes("body", n)
	if n >= 8 {
		body[6], body[7] = []byte{2, 0, 1, 255}[vfPick("count", 4)], 0
	}
	if n >= 12 {
		body[10], body[11] = []byte{0, 4, 255}[vfPick("len", 3)], 0
	}
	vfSurvives(s, vfCat(h, body), vfEip(4, 1, 0, 2, nil))
}

// VF_C16_torn: a header of any command declaring 0, 1, 8 or 65535 bytes with 0, 4 or 24 any bytes after it, what is left over being the next
// request, and headers cut to 0, 1 or 23 bytes: no crash, and the session is closed in the end.
func VF_C16_torn() {
	s, _ := vfSrvMap(5, 6)
	h := vfBytes("hdr", 24)
	l := []uint16{0, 1, 8, 0xFFFF}[vfPick("len", 4)]
	h[2], h[3] = byte(l), byte(l>>8)
	c := vfPick("cut", 6)
	var f []byte
	if c < 3 {
		f = vfCat(h, vfBytes("body", []int{0, 4, 24}[c]))
		if c == 2 {
			at := 24 + int(l)%24 + 2 // the length of what is read as the next header, if it is one.
			if at+1 < len(f) {
				f[at], f[at+1] = 3, 0
				f[30], f[31] = 2, 0
			}
		}
	} else {
		f = h[:[]int{0, 1, 23}[c-3]]
	}
	vfAssert(vfNoPanic(func() { s.feed(f) }), "the server does not crash on a request")
	vfAssert(s.conn.closed > 0, "a session that ends is closed")
	vfReach("done")
}

// VF_C16_items: SendRRData and SendUnitData with any item types, 0, 1, 2, 3 or 65535 items, item lengths inside and beyond what there is, data of 0, 1, 2, 3, 5
// any bytes, on any connection id; then a good request.
func VF_C16_items() {
	s, _ := vfSrvMap(5, 6)
	cmd := []uint16{0x6F, 0x70}[vfPick("cmd", 2)]
	n := []int{5, 3, 2, 1, 0}[vfPick("n", 3+2*vfTier())]
	data := vfBytes("data", n)
	l := [][3]uint16{{2, 4, uint16(n)}, {2, 4, 0}, {2, 4, uint16(n + 1)}, {2, 4, 0xFFFF}, {2, 0, uint16(n)}, {2, 2, 2}, {2, 6, uint16(n)}, {2, 0xFFFF, 0}, {0, 4, 2}, {1, 4, 2}, {3, 4, 2}, {0xFFFF, 4, 2}}[vfPick("lengths", 12)]
	body := vfCat(vfBytes("pre", 6), vfLe16(l[0]), vfBytes("t0", 2), vfLe16(l[1]))
	if l[1] <= 6 {
		body = append(body, vfBytes("addr", int(l[1]))...)
	}
	body = vfCat(body, vfBytes("t1", 2), vfLe16(l[2]), data)
	if cmd == 0x6F && n > 1 {
		body[len(body)-n+1] = byte(vfPick("words", 3))
	}
	if cmd == 0x70 && n > 3 {
		body[len(body)-n+3] = byte(vfPick("words", 3))
	}
	if len(body) >= 13+n {
		vfAssume(body[12] != 0xB2 || l[1] != 0) // the first item is not a whole message.
	}
	vfSurvives(s, vfEip(cmd, 1, 0, 1, body), vfEip(4, 1, 0, 2, nil))
}

// vfC16any is any service but the excluded ones, a path size of 0, 1, 2, 3, 4, 127 or 255 words, and n any bytes, where text is ASCII.
func vfC16any(n int, not ...byte) []byte {
	f := vfBytes("req", 1+n)
	for _, x := range not {
		vfAssume(f[0] != x)
	}
	if n == 0 {
		return f
	}
	f[1] = []byte{2, 3, 1, 0, 4, 127, 255}[vfPick("words", 7)]
	if at := 3 + 2*int(f[1]); at < len(f) {
		// the length of the type of a write, and its count: the rest is in VF_C16_write
		vfAssume(f[0] != 0x4D && f[0] != 0x10 || f[at] == 0 || f[at] == 255)
		if at+2 < len(f) {
			vfAssume(f[0] != 0x4D && f[0] != 0x10 || f[at+1] <= 2 && f[at+2] == 0)
		}
	}
	for i := 2; i < len(f); i += 2 {
		for j := i + 1; j < len(f); j++ {
			vfAssume(f[i] != 0x91 || f[j] < 0x80)
		}
	}
	return f
}

// VF_C16_unconnected: any service but opens and closes with 0 to 10 any bytes after it, as an unconnected message; text is ASCII.
func VF_C16_unconnected() {
	s, _ := vfSrvMap(5, 6)
	n := []int{0, 1, 4, 5, 7, 9, 2, 3, 6, 8, 10}[vfPick("n", 6+5*vfTier())]
	vfSurvives(s, vfUnconnFrame(1, 2, vfC16any(n, 0x52, 0x54, 0x5B, 0x4E)))
}

// VF_C16_send: an unconnected send with the right path or any other, any embedded service of 0 to 9 any bytes with a size inside and beyond it, and the
// right route, none, one beyond the message or any bytes; text is ASCII.
func VF_C16_send() {
	s, _ := vfSrvMap(5, 6)
	path := []byte{2, 0x20, 6, 0x24, 1}
	odd := vfPick("odd", 4)
	n := []int{1, 5, 7, 8, 9, 2, 3, 4, 6}[vfPick("n", 4+5*vfTier())]
	if odd > 0 {
		n = 2
	}
	emb := vfC16any(n-1, 0xFF)
	if odd == 1 {
		path = vfCat([]byte{byte(vfPick("pathwords", 4))}, vfBytes("path", 4))
	}
	size := n
	if odd == 2 {
		size = []int{n - 1, 0, n + 1, 0xFFFF}[vfPick("size", 4)]
	}
	data := vfCat([]byte{0x52}, path, vfBytes("prio", 2), vfLe16(uint16(size)), emb)
	if n%2 == 1 {
		data = append(data, 0)
	}
	route := 0
	if odd == 3 {
		route = vfPick("route", 5)
	}
	data = append(data, [][]byte{{1, 0, 1, 0}, {}, {5, 0, 1, 0}, {1}, vfBytes("route", 4)}[route]...)
	vfSurvives(s, vfUnconnFrame(1, 2, data))
}

// VF_C16_open: forward opens, large forward opens and forward closes with any field, cut at any of a list of lengths, any path of 0, 1, 2 or 4 words announced as that or more
// or fewer, of a class 3 or any other transport; then the same once more.
func VF_C16_open() {
	s, _ := vfSrvMap(5, 6)
	s.srv.Router.Handle([]byte{1, 3}, &IOProvider[vfC16io, vfC16io]{})
	svc := []byte{0x54, 0x5B, 0x4E}[vfPick("svc", 3)]
	fixed := []int{40, 44, 16}[vfPickSvc(svc)]
	w := vfPick("words", 8)
	words := []int{1, 0, 0, 1, 2, 128, 255, 4}[w]
	have := []int{2, 0, 2, 0, 4, 2, 8, 8}[w]
	f := vfBytes("req", fixed)
	f[0] = svc
	f[fixed-1] = byte(words)
	cut := 0
	if w == 0 {
		cut = []int{0, 1, 2, 6, fixed - 1}[vfPick("cut", 5)]
	}
	data := vfCat(f, vfBytes("route", have))
	if cut > 0 {
		data = data[:cut]
	}
	vfDialHook = func(network, addr string) (net.Conn, error) { return nil, errVfBroken }
	vfSurvives(s, vfUnconnFrame(1, 2, data), vfUnconnFrame(1, 2, data))
}

func vfPickSvc(svc byte) int {
	switch svc {
	case 0x54:
		return 0
	case 0x5B:
		return 1
	}
	return 2
}

// VF_C16_connected: any service with 0 to 9 any bytes after it on an open connection and on any connection; text is ASCII.
func VF_C16_connected() {
	s, _ := vfSrvMap(5, 6)
	id, n := uint32(5), 1
	if vfPick("known", 2) == 1 {
		id = vfU32("id")
	} else {
		n = []int{0, 1, 4, 5, 7, 9, 2, 3, 6, 8}[vfPick("n", 6+4*vfTier())]
	}
	vfSurvives(s, vfConnFrame(1, 2, id, vfCat(vfBytes("seq", 2), vfC16any(n, 0x0A))))
}

// VF_C16_names: tag names with characters beyond ASCII, broken UTF-8, brackets, dots and zeros in them, read and written.
func VF_C16_names() {
	s, _ := vfSrvMap(5, 6)
	name := []string{"\xff", "\xc3", "\u00c9", "\u0130x", "\u2126", "b[", "b]", "b[]", "b[-1]", "b[99999999999999999999]", "b[1", "b[1][2]", "b.", ".", "", "a\x00", "b[+1]", "b[0x1]", "[1]", "b[ 1]"}[vfPick("name", 20)]
	path := vfSrvTagPath(name, vfPick("index", 3)-1)
	if vfPick("write", 2) == 1 {
		vfC16send(s, vfCat([]byte{0x4D}, path, []byte{0xC4, 0, 1, 0}, vfBytes("v", 4)))
		return
	}
	vfC16send(s, vfCat([]byte{0x4C}, path, vfBytes("count", 2)))
}

// VF_C16_write: writes of any type code, type info of 0, 1, 2 or 255 bytes, counts 0, 1, 2, 65535 and 0 to 176 bytes of value, to a
// scalar, an array element in range and out of range, a string, a structure and a new tag; connected, and with fewer counts unconnected and in a multiple service packet, there fragmented too.
func VF_C16_write() {
	s, _ := vfSrvMap(5, 6)
	via := vfPick("via", 3)
	few := via > 0
	i := 0
	if !few {
		i = []int{0, 1, 4, 6, 2, 3, 5}[vfPick("tag", 4+3*vfTier())]
	}
	tag := []string{"a", "b", "b", "s", "t", "q", "new"}[i]
	index := []int{-1, 1, 200, -1, 1, -1, -1}[i]
	svc := byte(0x4D)
	if via == 2 && vfPick("frag", 2) == 1 {
		svc = 0x53
	}
	req := vfCat([]byte{svc}, vfSrvTagPath(tag, index), vfBytes("type", 1))
	info := []int{0, 2, 1, 255}[vfPick("info", 3+vfTier())]
	have := info
	if have == 255 {
		have = 2
	}
	qtys := []uint16{1, 65535, 0, 2, 3}
	values := []int{8, 90, 4, 176, 0, 1, 88}
	qty, n := qtys[0], values[1]
	if few {
		qty = qtys[vfPick("qty", 2)]
	} else {
		qty = qtys[vfPick("qty", 3+vfTier())]
		n = values[vfPick("value", 3+2*vfTier())]
	}
	vfC16via(s, via, vfCat(req, []byte{byte(info)}, vfBytes("info", have), vfLe16(qty), vfBytes("value", n)))
}

func vfC16send(s *vfSrv, req []byte) {
	vfC16via(s, vfPick("via", 3), req)
}

// vfC16via sends a request connected, unconnected, or in a multiple service packet.
func vfC16via(s *vfSrv, via int, req []byte) {
	switch via {
	case 0:
		vfSurvives(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0}, req)))
	case 1:
		data := vfCat([]byte{0x52, 2, 0x20, 6, 0x24, 1, 5, 0x99}, vfLe16(uint16(len(req))), req)
		if len(req)%2 == 1 {
			data = append(data, 0)
		}
		vfSurvives(s, vfUnconnFrame(1, 2, append(data, 1, 0, 1, 0)))
	case 2:
		vfSurvives(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0, 0x0A, 2, 0x20, 2, 0x24, 1, 1, 0, 4, 0}, req)))
	}
}

// VF_C16_read: reads and fragmented reads of a scalar, an array, an element, a string, strings, a structure and an unknown tag, with any count, any offset, and
// the request cut after the path or inside the numbers.
func VF_C16_read() {
	s, _ := vfSrvMap(5, 6)
	tag := []string{"a", "b", "b", "s", "t", "q", "new", "t"}
	i := vfPick("tag", 8)
	index := []int{-1, -1, 1, -1, -1, -1, -1, 200}[i]
	svc := []byte{0x4C, 0x52}[vfPick("svc", 2)]
	req := vfCat([]byte{svc}, vfSrvTagPath(tag[i], index), vfBytes("nums", []int{6, 0, 1, 2, 3}[vfPick("n", 5)]))
	vfC16send(s, req)
}

// VF_C16_multi: multiple service packets with 0 to 3 or 65535 services announced, offsets at the right place, inside the table, before another, at the end, beyond it or 65535, embedded
// services of 0 to 4 bytes of any service; in packets of three services, of 4, 2 and 2 bytes and at fewer offsets.
func VF_C16_multi() {
	s, _ := vfSrvMap(5, 6)
	k := vfPick("k", 2+vfTier()) + 1
	qty := []uint16{uint16(k), 0, uint16(k + 1), 0xFFFF}[vfPick("qty", 4)]
	at := 2 + 2*k
	var table, body []byte
	for i := 0; i < k; i++ {
		n, offs, words := 4, 2, 1
		if i > 0 {
			n = 2
		}
		if k < 3 {
			sizes := 2
			if k == 1 {
				sizes += vfTier()
			}
			n, offs, words = []int{2, 0, 4}[vfPick("n", sizes)], 4, 3
		}
		table = append(table, vfLe16([]uint16{uint16(at + len(body)), 0, uint16(at + len(body) + n), 0xFFFF}[vfPick("off", offs)])...)
		emb := vfBytes("emb", n)
		if n > 0 {
			emb[1] = []byte{0, 1, 255}[vfPick("words", words)]
		}
		body = append(body, emb...)
	}
	vfSurvives(s, vfConnFrame(1, 2, 5, vfCat([]byte{1, 0, 0x0A, 2, 0x20, 2, 0x24, 1}, vfLe16(qty), table, body)))
}

// VF_C16_datagram: any datagram of 0, 1, 5, 6, 10, 18, 20 or 24 bytes with item counts and lengths inside and beyond it to a server with a tag and an I/O connection.
func VF_C16_datagram() {
	s, _ := vfSrvMap(5, 6)
	in, out := vfC16io{1, 2}, vfC16io{}
	s.srv.Router.Handle([]byte{1, 3}, &IOProvider[vfC16io, vfC16io]{In: &in, Out: &out})
	s.srv.ConnMgr.Add(&serverConnection{ID: 8, OT: 9, TO: 10, Path: []byte{1, 3}, Open: true})
	s.srv.ConnMgr.Add(&serverConnection{ID: 9, OT: 11, TO: 12, Path: []byte{1, 4}, Open: true})
	n := []int{24, 20, 18, 10, 6, 5, 1}[vfPick("n", 7)]
	d := vfBytes("d", n)
	l := [][3]uint16{{2, 8, 6}, {2, 8, 0}, {2, 8, 2}, {2, 8, 0xFFFF}, {2, 4, 6}, {2, 0, 6}, {2, 0xFFFF, 6}, {0, 8, 6}, {1, 8, 6}, {3, 8, 6}, {0xFFFF, 8, 6}}[vfPick("lengths", 11)]
	for i, at := range []int{0, 4, 6 + int(l[1]) + 2} {
		if at+2 <= n {
			d[at], d[at+1] = byte(l[i]), byte(l[i]>>8)
		}
	}
	ok := false
	vfAssert(vfNoPanic(func() { ok = vfUdpRun(s.srv, d, []byte{1}) }) && ok, "the server does not crash on a datagram")
	vfReach("done")
}

// VF_C16_cyclic: a forward open of a cyclic connection with any interval to a path with I/O data, with none and unknown, one that cannot be sent, with ticks before and after it is closed.
func VF_C16_cyclic() {
	s, _ := vfSrvMap(5, 6)
	in, out := vfC16io{vfU16("in"), 1}, vfC16io{}
	p := &IOProvider[vfC16io, vfC16io]{In: &in, Out: &out}
	if vfPick("data", 2) == 1 {
		p.In = nil
	}
	s.srv.Router.Handle([]byte{1, 3}, p)
	path := []byte{1, byte(vfPick("path", 3) + 2)}
	udp := &vfUdpOut{sent: make(chan []byte, 10)}
	refuse := vfPick("dial", 2) == 1
	vfDialHook = func(network, addr string) (net.Conn, error) {
		if refuse {
			return nil, errVfBroken
		}
		return udp, nil
	}
	open := vfCat([]byte{0x54, 2, 0x20, 6, 0x24, 1, 5, 0x99}, vfLe32(3), vfLe32(4), vfLe16(99), []byte{1, 0, 2, 0, 0, 0, 3, 0, 0, 0}, vfLe32(10000), []byte{0x16, 0x48}, vfBytes("rpi", 4), []byte{0x16, 0x48, 1, 1}, path)
	vfSurvives(s, vfUnconnFrame(1, 2, open))
	vfSettle()
	tick := func() {
		select {
		case vfTick <- vfNow():
		default:
		}
		vfSettle()
	}
	tick()
	vfSurvives(s, vfUnconnFrame(1, 2, vfCat([]byte{0x4E, 2, 0x20, 6, 0x24, 1, 5, 0x99}, vfLe16(99), []byte{1, 0, 2, 0, 0, 0, 1, 0}, path)))
	tick()
	vfAssert(true, "done")
	vfReach("done")
}
