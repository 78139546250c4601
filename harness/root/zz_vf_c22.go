package gologix

import (
	"io"
	"net"
	"sync"
	"time"
)

// vfC22plc is a controller with tags, whose connections can be used by several goroutines.
type vfC22plc struct {
	mu      sync.Mutex
	tags    map[string]uint32
	attrs   map[byte]uint16
	syms    []byte // the reply to a request for the list of tags
	conns   []*vfC22conn
	seqs    []uint16
	reads   int
	failAt  int // the reply to this request is lost
	reqs    int
	partial bool
	noLarge bool // only standard connections
}

// vfC22conn is the client's end of a connection to it.
type vfC22conn struct {
	plc     *vfC22plc
	session uint32
	id      uint32
	out, in []byte
	closed  bool
	closes  int
	opened  int
}

func (c *vfC22conn) Read(p []byte) (int, error) {
	c.plc.mu.Lock()
	defer c.plc.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *vfC22conn) Write(p []byte) (int, error) {
	c.plc.mu.Lock()
	defer c.plc.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	n := len(p)
	if c.plc.partial && n > 30 {
		n = 30
	}
	c.out = append(c.out, p[:n]...)
	for len(c.out) >= 24 {
		l := 24 + int(vfU16le(c.out[2:]))
		if len(c.out) < l {
			break
		}
		f := c.out[:l:l]
		c.out = c.out[l:]
		vfAssert(len(c.in) == 0, "a request is sent only after the reply to the one before it was read")
		c.in = append(c.in, c.plc.answer(c, f)...)
	}
	return n, nil
}

func (c *vfC22conn) Close() error {
	c.plc.mu.Lock()
	defer c.plc.mu.Unlock()
	c.closed = true
	c.closes++
	return nil
}
func (c *vfC22conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *vfC22conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *vfC22conn) SetDeadline(t time.Time) error      { return nil }
func (c *vfC22conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vfC22conn) SetWriteDeadline(t time.Time) error { return nil }

// answer is the reply to a frame.
func (m *vfC22plc) answer(c *vfC22conn, f []byte) []byte {
	m.reqs++
	if m.failAt == m.reqs {
		return nil
	}
	if f[0] == 0x65 {
		r := vfAnswer(f, 0, []byte{1, 0, 0, 0})
		copy(r[4:], vfLe32(c.session))
		return r
	}
	if vfU32le(f[4:]) != c.session {
		return vfAnswer(f, 0x64, nil)
	}
	if f[0] == 0x6F {
		s := vfService(f)
		if s == 0x5B && m.noLarge {
			return vfAnswer(f, 0, vfUnconnBody([]byte{0xDB, 0, 8, 0}))
		}
		if s != 0x4E {
			c.opened++
		}
		return vfAnswer(f, 0, vfUnconnBody(vfOpenReply(s, c.id)))
	}
	vfAssert(f[0] == 0x70 && len(f) >= 50, "a request is a whole connected message")
	if vfU32le(f[36:]) != c.id {
		return vfAnswer(f, 0x64, nil)
	}
	m.seqs = append(m.seqs, vfU16le(f[44:]))
	return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, m.serve(f[46:]))))
}

// serve is the reply to a request.
func (m *vfC22plc) serve(req []byte) []byte {
	n := 2 + 2*int(req[1])
	vfAssert(len(req) >= n, "a request has its path")
	path, data := req[2:n], req[n:]
	st := byte(0)
	var body []byte
	switch {
	case req[0] == 0x4C && path[0] == 0x91:
		m.reads++
		body = vfCat([]byte{0xC4, 0}, vfLe32(m.tags[string(path[2:2+path[1]])]))
	case req[0] == 0x4C && string(path) == string([]byte{0x20, 0x6B, 0x24, 5}):
		m.reads++
		body = vfCat([]byte{0xC4, 0}, vfLe32(m.tags["a"]))
	case req[0] == 0x4D && path[0] == 0x91 && len(data) == 8:
		m.tags[string(path[2:2+path[1]])] = vfU32le(data[4:])
	case req[0] == 0x0A && len(data) > 2:
		k := int(vfU16le(data))
		body = vfLe16(uint16(k))
		var all []byte
		for i := 0; i < k; i++ {
			from, to := int(vfU16le(data[2+2*i:])), len(data)
			if i+1 < k {
				to = int(vfU16le(data[4+2*i:]))
			}
			vfAssert(from <= to && to <= len(data), "the requests of a message are in it")
			body = vfCat(body, vfLe16(uint16(2+2*k+len(all))))
			all = vfCat(all, m.serve(data[from:to]))
		}
		body = vfCat(body, all)
	case req[0] == 0x0E && len(path) == 6:
		body = vfLe16(m.attrs[path[5]])
	case req[0] == 0x03 && len(path) == 4:
		body = data[:2]
		for _, a := range []byte{1, 2} {
			body = vfCat(body, []byte{a, 0, 0, 0}, vfLe16(m.attrs[a]))
		}
	case req[0] == 0x55 && path[1] == 0x6B:
		body = m.syms
	default:
		st = 8
	}
	return vfCat([]byte{req[0] | 0x80, 0, st, 0}, body)
}

// vfC22new is a controller with the tags a and b of any value, and a client for it.
func vfC22new() (*Client, *vfC22plc) {
	vfRands = 0
	m := &vfC22plc{tags: map[string]uint32{"a": vfU32("a"), "b": vfU32("b")}, attrs: map[byte]uint16{1: vfU16("attr1"), 2: vfU16("attr2"), 4: 20}}
	vfDialHook = func(network, addr string) (net.Conn, error) {
		m.mu.Lock()
		defer m.mu.Unlock()
		k := uint32(len(m.conns))
		c := &vfC22conn{plc: m, session: 100 + k, id: 1000 + k}
		m.conns = append(m.conns, c)
		return c, nil
	}
	c := NewClient("10.0.0.1")
	c.AutoConnect = false
	c.knownFirmware = 20
	return c, m
}

// vfC22distinct checks that no two requests have the same sequence number.
func vfC22distinct(m *vfC22plc) {
	for i, a := range m.seqs {
		for _, b := range m.seqs[:i] {
			vfAssert(a != b, "every request has its own sequence number")
		}
	}
}

// vfC22op is a call with what it must yield.
func vfC22op(c *Client, m *vfC22plc, op int) func() (error, bool) {
	va, vb := m.tags["a"], m.tags["b"]
	a1, a2 := m.attrs[1], m.attrs[2]
	switch op {
	case 0:
		return func() (error, bool) {
			var v int32
			err := c.Read("a", &v)
			return err, uint32(v) == va
		}
	case 1:
		return func() (error, bool) {
			v, err := c.Read_single("b", CIPTypeDINT, 1)
			x, ok := v.(int32)
			return err, ok && uint32(x) == vb
		}
	case 2:
		w := vfU32("written")
		return func() (error, bool) {
			err := c.Write("w", int32(w))
			return err, true
		}
	case 5:
		return func() (error, bool) {
			v, err := c.ReadList([]string{"a", "b"}, []any{int32(0), int32(0)}, []int{1, 1})
			if err != nil {
				return err, false
			}
			x, ok := v[0].(int32)
			y, ok2 := v[1].(int32)
			return err, ok && ok2 && uint32(x) == va && uint32(y) == vb
		}
	case 6:
		return func() (error, bool) { return c.WriteMap(map[string]any{"v": int32(a1), "w": int32(a2)}), true }
	case 3:
		return func() (error, bool) {
			i, err := c.GetAttrSingle(1, 1, 1)
			if err != nil {
				return err, false
			}
			x, err := i.Uint16()
			return err, x == a1
		}
	}
	return func() (error, bool) {
		i, err := c.GetAttrSingle(1, 1, 2)
		if err != nil {
			return err, false
		}
		x, err := i.Uint16()
		return err, x == a2
	}
}

// VF_C22_two: two goroutines with a read, another read, a write, a Get Attribute Single, a read of two or a write of two each, on a connected client, every schedule with up to two switches.
func VF_C22_two() {
	c, m := vfC22new()
	vfAssert(c.Connect() == nil, "the client connects")
	x := []int{0, 1, 2, 3, 5, 6}[vfPick("x", 6)]
	y := []int{0, 1, 2, 3, 5, 6}[vfPick("y", 6)]
	vfAssume(x <= y)
	f, g := vfC22op(c, m, x), vfC22op(c, m, y)
	var e1, e2 error
	var ok1, ok2 bool
	vfSchedule(2)
	vfGo(func() { e1, ok1 = f() })
	vfGo(func() { e2, ok2 = g() })
	vfJoin()
	vfAssert(e1 == nil && e2 == nil, "concurrent requests succeed")
	vfAssert(ok1 && ok2, "each caller has the reply to its own request")
	vfC22distinct(m)
	vfAssert(len(m.conns) == 1 && len(m.seqs) == 2, "each request is sent once")
	vfReach("done")
}

// VF_C22_three: three goroutines, two of which read twice, on a connection that takes 30 bytes at a time; every schedule with up to one switch (thorough: two).
func VF_C22_three() {
	c, m := vfC22new()
	m.partial = true
	vfAssert(c.Connect() == nil, "the client connects")
	f, g, h := vfC22op(c, m, 0), vfC22op(c, m, 1), vfC22op(c, m, 4)
	ok := [3]bool{}
	vfSchedule(1 + vfTier())
	vfGo(func() {
		e, k := f()
		e2, k2 := g()
		ok[0] = e == nil && k && e2 == nil && k2
	})
	vfGo(func() {
		e, k := g()
		e2, k2 := f()
		ok[1] = e == nil && k && e2 == nil && k2
	})
	vfGo(func() {
		e, k := h()
		ok[2] = e == nil && k
	})
	vfJoin()
	vfAssert(ok[0] && ok[1] && ok[2], "each caller has the reply to its own request")
	vfC22distinct(m)
	vfAssert(len(m.conns) == 1 && len(m.seqs) == 5, "each request is sent once")
	vfReach("done")
}

// VF_C22_firmware: two reads at once as the first calls of a client, which has to ask for the firmware version first; every schedule with up to two switches.
func VF_C22_firmware() {
	c, m := vfC22new()
	c.knownFirmware = 0
	m.attrs[4] = 0x1E
	vfAssert(c.Connect() == nil, "the client connects")
	f, g := vfC22op(c, m, 0), vfC22op(c, m, 1)
	var e1, e2 error
	var ok1, ok2 bool
	vfSchedule(2)
	vfGo(func() { e1, ok1 = f() })
	vfGo(func() { e2, ok2 = g() })
	vfJoin()
	vfAssert(e1 == nil && e2 == nil, "concurrent requests succeed")
	vfAssert(ok1 && ok2, "each caller has the reply to its own request")
	vfReach("done")
}

// VF_C22_connect: two goroutines that read a tag and read a tag, read two or write two on a client that is not connected and connects by itself, to a controller with or without large connections; every schedule with up to two switches.
func VF_C22_connect() {
	c, m := vfC22new()
	c.AutoConnect = true
	m.noLarge = vfBool("standard")
	f, g := vfC22op(c, m, 0), vfC22op(c, m, []int{1, 5, 6}[vfPick("op", 3)])
	var e1, e2 error
	var ok1, ok2 bool
	vfSchedule(2)
	vfGo(func() { e1, ok1 = f() })
	vfGo(func() { e2, ok2 = g() })
	vfJoin()
	vfAssert(e1 == nil || e2 == nil, "one of the callers connects")
	vfAssert((e1 != nil || ok1) && (e2 != nil || ok2), "each caller has the reply to its own request or an error")
	vfAssert(c.Connected() && len(m.conns) == 1 && !m.conns[0].closed && m.conns[0].opened == 1, "the client connects once")
	e1, ok1 = f()
	vfAssert(e1 == nil && ok1, "the connection works")
	vfReach("done")
}

// VF_C22_disconnect: a read and a disconnect at once; every schedule with up to two switches.
func VF_C22_disconnect() {
	c, m := vfC22new()
	vfAssert(c.Connect() == nil, "the client connects")
	f, g := vfC22op(c, m, 0), vfC22op(c, m, 3)
	var e1, e2, e3 error
	var ok1, ok3 bool
	vfSchedule(2)
	vfGo(func() { e1, ok1 = f() })
	vfGo(func() { e2 = c.Disconnect() })
	vfJoin()
	vfAssert(e1 != nil || ok1, "the caller has the reply to its own request or an error")
	vfAssert(!c.Connected() && m.conns[0].closed, "the client ends disconnected")
	_ = e2
	vfAssert(c.Connect() == nil && c.Connected(), "the client can connect again")
	e3, ok3 = g()
	vfAssert(e3 == nil && ok3, "the new connection works")
	vfReach("done")
}

// VF_C22_lifecycle: two (thorough three) connects and disconnects at once, on a client that is connected or not; every schedule with up to two switches.
func VF_C22_lifecycle() {
	c, m := vfC22new()
	start := vfPick("connected", 2)
	if start == 1 {
		vfAssert(c.Connect() == nil, "the client connects")
	}
	n := 2 + vfTier()
	var did [2]int
	asked := [2]int{}
	errs := make([]error, n)
	ops := make([]int, n)
	for i := range ops {
		ops[i] = vfPick("disconnect", 2)
		asked[ops[i]]++
	}
	vfSchedule(2)
	for k := range ops {
		i := k
		vfGo(func() {
			if ops[i] == 1 {
				errs[i] = c.Disconnect()
			} else {
				errs[i] = c.Connect()
			}
		})
	}
	vfJoin()
	for i := range ops {
		if errs[i] == nil {
			did[ops[i]]++
		}
	}
	vfAssert(asked[start] == 0 || did[start] > 0, "one of the calls the client's state allows succeeds")
	end := start + did[0] - did[1]
	vfAssert(end == 0 || end == 1, "a connection is made once and ended once")
	vfAssert(c.Connected() == (end == 1), "the client is connected exactly if its connection was not ended")
	vfAssert(len(m.conns) == start+did[0], "every connect makes a connection")
	for i, x := range m.conns {
		last := i == len(m.conns)-1 && end == 1
		vfAssert(x.closed != last && (x.closes == 1) != last, "every connection that ended was closed, and closed once")
	}
	if end == 0 {
		vfAssert(c.Connect() == nil, "the client can connect again")
	}
	e, ok := vfC22op(c, m, 0)()
	vfAssert(e == nil && ok, "the connection works")
	vfReach("done")
}

// VF_C22_fault: two goroutines that read, where the reply to the first or second request is lost, and the client connects again by itself; every schedule with up to one switch (thorough: two).
func VF_C22_fault() {
	c, m := vfC22new()
	vfAssert(c.Connect() == nil, "the client connects")
	c.AutoConnect = true
	m.failAt = m.reqs + 1 + vfPick("fail", 2)
	f, g := vfC22op(c, m, 0), vfC22op(c, m, 1)
	var e [4]error
	var ok [4]bool
	vfSchedule(1 + vfTier())
	vfGo(func() {
		e[0], ok[0] = f()
		e[1], ok[1] = g()
	})
	vfGo(func() { e[2], ok[2] = g() })
	vfJoin()
	n := 0
	for i := 0; i < 3; i++ {
		vfAssert(e[i] != nil || ok[i], "each caller has the reply to its own request or an error")
		if e[i] != nil {
			n++
		}
	}
	vfAssert(n > 0, "a lost reply is an error")
	e[3], ok[3] = f()
	if e[3] != nil {
		e[3], ok[3] = f()
	}
	vfAssert(e[3] == nil && ok[3], "the client connects again")
	for _, cn := range m.conns[:len(m.conns)-1] {
		vfAssert(cn.closed, "a failed connection is closed")
	}
	vfReach("done")
}

// VF_C22_keepalive: the keepalive, which lists the tags, and a read and its cancellation at once; every schedule with up to one switch (thorough: two).
func VF_C22_keepalive() {
	c, m := vfC22new()
	c.knownFirmware = 30
	vfAssert(c.Connect() == nil, "the client connects")
	c.KeepAliveAutoStart = true
	c.KeepAlivePollTags = true
	c.KeepAliveProps = []CIPAttribute{1, 2}
	m.syms = vfCat(vfLe32(5), []byte{1, 0, 'a'}, vfLe16(0xC4), make([]byte, 12))
	f, g := vfC22op(c, m, 0), vfC22op(c, m, 0)
	var e [2]error
	var ok [2]bool
	vfSchedule(1 + vfTier())
	vfGo(c.KeepAlive)
	vfGo(func() {
		// a keepalive that starts during the disconnect ends with its next tick
		defer close(vfTick)
		e[0], ok[0] = f()
		_ = c.KeepAliveCancel(true)
		e[1], ok[1] = g()
		_ = c.Disconnect()
	})
	vfJoin()
	vfAssert(e[0] == nil && ok[0] && e[1] == nil && ok[1], "each caller has the reply to its own request")
	if _, ok := c.KnownTags["a"]; ok {
		vfReach("listed")
	}
	vfReach("done")
}

// VF_C22_restart: a disconnect and a connect at once with the keepalive they end and start; every schedule with up to two switches. Afterwards exactly one keepalive watches the controller.
func VF_C22_restart() {
	c, _ := vfC22new()
	c.knownFirmware = 30
	c.KeepAliveAutoStart = true
	c.KeepAliveProps = []CIPAttribute{1, 2}
	c.KeepAliveFrequency = time.Second
	vfAssert(c.Connect() == nil, "the client connects")
	vfSettle()
	var e [3]error
	vfSchedule(2)
	vfGo(func() {
		// a keepalive that starts during the disconnect ends with its next tick
		defer close(vfTick)
		e[0] = c.Disconnect()
		e[1] = c.Connect()
		vfTick <- vfNow()
		vfTick <- vfNow()
		e[2] = c.Disconnect()
	})
	vfJoin()
	vfAssert(e[0] == nil && e[1] == nil && e[2] == nil && !c.Connected(), "the client disconnects, connects again and disconnects")
	vfReach("done")
}

// VF_C22_lost: a keepalive or a read whose request is lost, or one of three reads at the same time whose request is, and a client that connects again by itself; every schedule with up to two switches. The
// client connects once more at most: what failed on the lost connection leaves the new one alone.
func VF_C22_lost() {
	c, m := vfC22new()
	c.knownFirmware = 30
	ka := vfPick("keepalive", 2) == 1
	c.KeepAliveAutoStart = ka
	c.KeepAliveProps = []CIPAttribute{1, 2}
	c.KeepAliveFrequency = time.Second
	vfAssert(c.Connect() == nil, "the client connects")
	vfSettle()
	c.AutoConnect = true
	m.failAt = m.reqs + 1
	f := vfC22op(c, m, 0)
	var e [4]error
	var ok [4]bool
	vfSchedule(2)
	if !ka {
		vfGo(func() { e[3], ok[3] = f() })
	}
	vfGo(func() {
		// a keepalive that starts during the disconnect ends with its next tick
		defer close(vfTick)
		if ka {
			vfTick <- vfNow()
		}
		for i := 0; i < 3; i++ {
			e[i], ok[i] = f()
		}
		if ka {
			_ = c.Disconnect()
		}
	})
	vfJoin()
	for i := range e {
		vfAssert(e[i] != nil || ok[i] || ka && i == 3, "each caller has the reply to its own request or an error")
	}
	vfAssert(len(m.conns) <= 2, "a connection lost once is made once more")
	vfAssert(ka || len(m.conns) < 2 || !m.conns[1].closed, "the new connection stays")
	vfReach("done")
}
