package gologix

import "time"

// vfC35 is a controller whose properties and tags can change; it counts what is asked.
type vfC35 struct {
	props    []byte // what follows the count in the reply to a request for the properties
	syms     []byte
	mode     int // how the requests for properties are answered: 0 well, 1 refused, 2 not at all, 3 with an encapsulation error
	st       byte
	eip      uint32
	want     []byte // the request for the properties
	gets     int
	lists    int
	others   int
	registrs int
	closes   int
}

func (m *vfC35) respond(cn *vfConn, f []byte) []byte {
	if f[0] == 0x65 {
		m.registrs++
		return vfAnswer(f, 0, []byte{1, 0, 0, 0})
	}
	if f[0] == 0x6F {
		s := vfService(f)
		if s == 0x4E {
			m.closes++
		}
		return vfAnswer(f, 0, vfUnconnBody(vfOpenReply(s, 5)))
	}
	req := f[46:]
	switch req[0] {
	case 3:
		m.gets++
		vfAssert(vfEq(req, m.want), "the keepalive asks for the properties it is to watch")
		switch m.mode {
		case 1:
			return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, []byte{0x83, 0, m.st, 0})))
		case 2:
			return nil
		case 3:
			return vfAnswer(f, m.eip, nil)
		}
		return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, vfCat([]byte{0x83, 0, 0, 0}, m.want[6:8], m.props))))
	case 0x55:
		if req[3] != 0x6B {
			return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, []byte{0xD5, 0, 0, 0}))) // no programs
		}
		m.lists++
		return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, vfCat([]byte{0xD5, 0, 0, 0}, m.syms))))
	case 0x4C:
		m.others++
		return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, []byte{0xCC, 0, 0, 0, 0xC3, 0, 5, 0})))
	}
	m.others++
	return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, []byte{req[0] | 0x80, 0, 8, 0})))
}

// vfC35sym is a page with one tag of a name of one letter.
func vfC35sym(name byte) []byte {
	return vfCat(vfLe32(5), []byte{1, 0, name}, vfLe16(0xC4), make([]byte, 12))
}

// vfC35tick lets the keepalive's ticker tick, if the keepalive still waits for it.
func vfC35tick() bool {
	took := false
	select {
	case vfTick <- vfNow():
		took = true
	default:
	}
	vfSettle()
	return took
}

// vfC35start is a client with a keepalive that watches attributes 1 to n, not connected yet.
func vfC35start(n int, poll bool) (*Client, *[]*vfConn, *vfC35) {
	m := &vfC35{st: 8, eip: 1, syms: vfC35sym('a'), props: vfBytes("props", 3*n)}
	c, conns := vfDialClient(nil, m.respond)
	c.KeepAliveAutoStart = true
	c.KeepAlivePollTags = poll
	c.KeepAliveProps = nil
	m.want = vfCat([]byte{3, 2, 0x20, 0xAC, 0x24, 1}, vfLe16(uint16(n)))
	for i := 1; i <= n; i++ {
		c.KeepAliveProps = append(c.KeepAliveProps, CIPAttribute(i))
		m.want = vfCat(m.want, vfLe16(uint16(i)))
	}
	return c, conns, m
}

// VF_C35_watch: a keepalive started by the connect, watching 1 or 5 (thorough: or 3) properties of any values, with and without listing the tags; two (thorough three) events: the
// properties are as before, changed to any others, refused, lost, an encapsulation error, a read by the user, a cancellation (asked for once or twice), a disconnect, a cancellation and a disconnect at once (after the keepalive's end, only a tick, a read and a disconnect).
func VF_C35_watch() {
	n := []int{1, 5, 3}[vfPick("n", 2+vfTier())]
	poll := vfPick("poll", 2) == 1
	c, conns, m := vfC35start(n, poll)
	c.KeepAliveFrequency = time.Duration(vfU32("frequency"))
	m.st, m.eip = vfU8("st"), vfU32("eip")
	vfAssume(c.KeepAliveFrequency > 0 && m.st != 0 && m.eip != 0)
	vfAssert(c.Connect() == nil, "the client connects")
	vfSettle()
	gets, lists := 1, 0
	if poll {
		lists = 1
	}
	vfAssert(m.gets == gets && m.lists == lists, "the keepalive starts with the connection")
	vfAssert(vfTickD == c.KeepAliveFrequency, "the keepalive asks at the interval it is given")
	running, connected := true, true
	for i := 0; i < 2+vfTier(); i++ {
		evs := []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
		if !running {
			evs = []int{0, 5, 7}
		}
		ev := evs[vfPick("event", len(evs))]
		switch ev {
		case 0, 1, 2, 3, 4:
			m.mode = []int{0, 0, 1, 2, 3}[ev]
			changed := false
			if ev == 1 {
				np := vfBytes("new", 3*n)
				changed = !vfEq(np, m.props)
				m.props = np
				m.syms = vfC35sym(byte('b' + i))
			}
			took := vfC35tick()
			vfAssert(took == running, "the keepalive goes on until it is cancelled or fails")
			if running {
				gets++
				if changed && poll {
					lists++
					_, ok := c.KnownTags[string(rune('b'+i))]
					vfAssert(ok, "the tags of a changed controller are listed again")
					vfReach("changed")
				}
				if m.mode != 0 {
					running, connected = false, false
					vfReach("failed")
				}
			}
			m.mode = 0
		case 5:
			var v int16
			k := m.others
			err := c.Read("x", &v)
			vfAssert((err == nil) == connected && (err != nil || v == 5), "a read does what it does without a keepalive")
			vfAssert(m.others == k || connected, "a client that is not connected sends nothing")
		case 6:
			vfAssert(c.KeepAliveCancel(false) != nil, "a keepalive that starts by itself is only cancelled by force")
			vfSettle()
			vfAssert(c.KeepAliveCancel(true) == nil, "a keepalive can be cancelled")
			vfAssert(c.KeepAliveCancel(true) == nil, "a keepalive can be cancelled before it noticed that it is")
			vfSettle()
			running = false
		case 8:
			vfAssert(c.KeepAliveCancel(true) == nil, "a keepalive can be cancelled")
			vfAssert(c.Disconnect() == nil, "a connected client disconnects")
			vfSettle()
			running, connected = false, false
		case 7:
			err := c.Disconnect()
			vfSettle()
			vfAssert((err == nil) == connected, "a connected client disconnects")
			running, connected = false, false
		}
		vfAssert(m.gets == gets && m.lists == lists, "the properties are asked for once each tick, and the tags only listed after a change")
		vfAssert(c.Connected() == connected, "a keepalive that fails leaves the client disconnected, any other connected")
		vfAssert(((*conns)[0].closed == 0) == connected, "exactly a connected client has a socket open")
	}
	if connected {
		vfAssert(c.Disconnect() == nil, "a connected client disconnects")
		vfSettle()
	}
	vfAssert(!vfC35tick() && m.gets == gets, "a disconnected client has no keepalive")
	vfAssert(c.Connect() == nil, "a client can connect again")
	vfSettle()
	gets++
	vfAssert(m.gets == gets, "the keepalive starts with the next connection")
	vfAssert(vfC35tick() && m.gets == gets+1, "the next connection's keepalive watches")
	vfAssert(c.Disconnect() == nil, "a connected client disconnects")
	vfSettle()
	vfReach("again")
}

// VF_C35_start: the first request for the properties, or the first list of tags, is refused, lost, or cut: the keepalive ends, nothing panics, and the client is connected exactly if
// the exchange worked; without automatic start there is no keepalive; a second keepalive is not started.
func VF_C35_start() {
	c, conns, m := vfC35start(2, vfPick("poll", 2) == 1)
	what := vfPick("what", 6)
	switch what {
	case 1, 2, 3:
		m.mode = what
	case 4:
		c.KeepAliveAutoStart = false
	case 5:
		m.syms = m.syms[:len(m.syms)-1-vfPick("cut", 5)]
	}
	vfAssert(c.Connect() == nil, "the client connects")
	vfSettle()
	gets := 1
	if what == 4 {
		gets = 0
	}
	vfAssert(m.gets == gets, "a keepalive starts with the connection exactly if it is to")
	runs := what == 0 || what == 5 && m.lists == 0
	if runs {
		c.KeepAlive()
		vfAssert(m.gets == gets, "a keepalive that runs is not started again")
	}
	vfAssert(vfC35tick() == runs, "a keepalive that cannot start ends")
	vfAssert(c.Connected() == ((*conns)[0].closed == 0), "exactly a connected client has a socket open")
	vfAssert(c.Connected() || what == 2, "only a lost reply ends the connection")
	if c.Connected() {
		var v int16
		vfAssert(c.Read("x", &v) == nil && v == 5, "the client goes on")
		vfAssert(c.Disconnect() == nil, "a connected client disconnects")
		vfSettle()
	}
	vfAssert(!vfC35tick(), "a disconnected client has no keepalive")
	vfReach("done")
}
