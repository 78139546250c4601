package gologix

// vfC21 is a faulty controller: the faults that hit its messages by their number in the history, and what it saw.
type vfC21 struct {
	session  uint32 // the handle of the last session
	id       uint32 // the id of the last connection
	at, kind [2]int
	st       byte
	eip      uint32
	msgs     int
	dials    int
	badDial  int
	log      []vfC21event
}

// vfC21event is a message seen: its service (0x65 for a session, 0 for a dial) and the fault that hit it.
type vfC21event struct {
	service byte
	fault   int
}

func (m *vfC21) respond(cn *vfConn, f []byte) []byte {
	k := 0
	for i := range m.at {
		if m.at[i] == m.msgs && m.kind[i] != 0 {
			k = m.kind[i]
		}
	}
	m.msgs++
	service := byte(0x65)
	body := []byte{1, 0, 0, 0}
	bad := body[:0]
	switch {
	case f[0] == 0x70:
		service = 0x4C
		vfAssert(vfU32le(f[36:]) == m.id, "a connected message belongs to the connection opened last")
		body = vfConnBody(7, vfSeqReply(f, []byte{0xCC, 0, 0, 0, 0xC3, 0, 5, 0}))
		bad = vfConnBody(7, vfSeqReply(f, []byte{0xCC, 0, m.st, 0}))
	case f[0] == 0x6F:
		service = vfService(f)
		if service != 0x4E && k == 0 {
			m.id = 1000 + m.session
		}
		body = vfUnconnBody(vfOpenReply(service, 1000+m.session))
		bad = vfUnconnBody([]byte{service | 0x80, 0, m.st, 0})
	}
	if service == 0x65 && k >= 6 {
		k = 0
	}
	m.log = append(m.log, vfC21event{service, k})
	if service == 0x65 {
		m.session++
		f = vfCat(f[:4], vfLe32(m.session), f[8:]) // the handle of the new session is in the reply, whatever its status
	} else {
		vfAssert(vfU32le(f[4:]) == m.session, "a message belongs to the session of its connection")
	}
	r := vfAnswer(f, 0, body)
	switch k {
	case 1: // the reply is lost
		return nil
	case 2: // cut in the header
		return r[:20]
	case 3: // cut in the body
		return r[:len(r)-1]
	case 4: // encapsulation error
		return vfAnswer(f, m.eip, nil)
	case 5: // encapsulation error with a body
		return vfAnswer(f, m.eip, body)
	case 6: // refused by the controller
		return vfAnswer(f, 0, bad)
	case 7: // a reply without items
		return vfAnswer(f, 0, []byte{0, 0, 0, 0, 0, 0, 0, 0})
	}
	return r
}

// connected tells whether the messages seen open a connection, and how many there were.
func (m *vfC21) connected() (bool, int) {
	l := m.log
	if len(l) < 2 || l[0].service != 0 || l[0].fault != 0 || l[1].service != 0x65 || l[1].fault != 0 {
		return false, len(l)
	}
	n := 2
	if n < len(l) && l[n].service == 0x5B {
		n++
		if l[n-1].fault == 0 {
			return true, n
		}
		if l[n-1].fault <= 3 {
			return false, len(l)
		}
	}
	return n < len(l) && l[n].service == 0x54 && l[n].fault == 0, n + 1
}

func vfC21run(m *vfC21, ops int, auto bool, size uint16) {
	vfAssume(m.st != 0 && m.eip != 0)
	c, conns := vfDialClient(func() bool {
		k := 0
		if m.dials == m.badDial {
			k = 1
		}
		m.dials++
		m.log = append(m.log, vfC21event{0, k})
		return k != 0
	}, m.respond)
	c.AutoConnect = auto
	c.ConnectionSize = size
	connected := false
	step := func(op int) {
		m.log = nil
		switch op {
		case 0:
			err := c.Connect()
			if connected {
				vfAssert(err != nil && len(m.log) == 0, "a connected client does not connect again")
				break
			}
			connected, _ = m.connected()
			vfAssert((err == nil) == connected, "a connect succeeds exactly if every step did")
		case 1:
			was := connected
			var v int16
			err := c.Read("a", &v)
			n := 0
			if !connected && auto {
				connected, n = m.connected()
			}
			if !connected {
				vfAssert(err != nil, "only a connected client reads")
				break
			}
			vfAssert(n < len(m.log) && m.log[n].service == 0x4C, "the read is sent")
			k := m.log[n].fault
			vfAssert((err == nil) == (k == 0), "a failed exchange is an error, any other is none")
			vfAssert(err != nil || v == 5, "a read has the reply's value")
			if k >= 1 && k <= 3 {
				connected = false
			} else if k != 0 {
				connected = c.Connected()
			}
			if was && k != 0 {
				vfReach("failed read")
			}
		case 2:
			err := c.Disconnect()
			if !connected {
				vfAssert(err != nil, "only a connected client disconnects")
			} else if len(m.log) > 0 && m.log[0].fault == 0 {
				vfAssert(err == nil, "an accepted disconnect is a success")
			}
			connected = false
		}
		vfAssert(c.Connected() == connected, "the reported state is the real one")
		open := 0
		for _, x := range *conns {
			if x.closed == 0 {
				open++
			}
		}
		vfAssert(open == 0 && !connected || open == 1 && connected && (*conns)[len(*conns)-1].closed == 0, "exactly a connected client has a socket open")
	}
	for i := 0; i < ops; i++ {
		step(vfPick("op", 3))
	}
	// without further faults the client can always be used again
	m.kind = [2]int{}
	m.badDial = -1
	if connected {
		step(2)
	}
	step(0)
	vfAssert(connected, "a client that is not connected can connect")
	step(1)
	vfAssert(connected, "a connected client reads")
	step(2)
	vfReach("usable again")
}

// VF_C21_histories: every history of 3 (thorough 4) connects, reads and disconnects, with and without automatic connect, large
// and standard connections, any one of four (thorough seven) faults at any of the first five (thorough nine) messages, any status codes; then a
// fault-free connect, read and disconnect.
func VF_C21_histories() {
	m := &vfC21{badDial: -1, st: vfU8("st"), eip: vfU32("eip")}
	kinds := []int{0, 1, 4, 6, 7}
	if vfTier() > 0 {
		kinds = []int{0, 1, 2, 3, 4, 5, 6, 7}
	}
	m.kind[0] = kinds[vfPick("fault", len(kinds))]
	if m.kind[0] != 0 {
		m.at[0] = vfPick("at", 5+4*vfTier())
	}
	size := uint16(4000)
	if vfPick("standard", 2) == 1 {
		size = 500
	}
	vfC21run(m, 3+vfTier(), vfPick("auto", 2) == 1, size)
}

// VF_C21_two: histories of 2 (thorough 3) operations with two faults (of four kinds, thorough seven) among the first six messages and a dial refused; fixed status codes.
func VF_C21_two() {
	m := &vfC21{badDial: vfPick("dial", 2+vfTier()) - 1, st: 8, eip: 1}
	kinds := []int{1, 5, 6, 7}
	if vfTier() > 0 {
		kinds = []int{1, 2, 3, 4, 5, 6, 7}
	}
	m.kind[0], m.kind[1] = kinds[vfPick("fault", len(kinds))], kinds[vfPick("second", len(kinds))]
	m.at[0] = vfPick("at", 4)
	m.at[1] = m.at[0] + 1 + vfPick("then", 2)
	vfC21run(m, 2+vfTier(), vfPick("auto", 2) == 1, 4000)
}

// VF_C21_unconnected: every kind of call on a client that never connected is an error.
func VF_C21_unconnected() {
	c, conns := vfDialClient(nil, nil)
	call := vfPick("call", 14)
	var err error
	var v int16
	switch call {
	case 0:
		err = c.Read("a", &v)
	case 1:
		err = c.Write("a", v)
	case 2:
		err = c.WriteMap(map[string]any{"a": v})
	case 3:
		_, err = c.ReadList([]string{"a"}, []any{v}, []int{1})
	case 4:
		_, err = c.GetAttrSingle(1, 1, 1)
	case 5:
		_, err = c.GetAttrList(1, 1, 1)
	case 6:
		_, err = c.GenericCIPMessage(1, []byte{0x20, 1}, nil)
	case 7:
		err = c.ListAllTags(0)
	case 8:
		err = c.ListAllPrograms()
	case 9:
		_, err = c.ListMembers(1)
	case 10:
		_, err = c.GetControllerPropList()
	case 11:
		err = c.Disconnect()
	case 12:
		err = c.WriteMulti(struct {
			A int16 `gologix:"a"`
		}{v})
	case 13:
		c.KeepAliveAutoStart = true
		c.KeepAlive()
		err = c.KeepAliveCancel(false)
		vfAssert(c.KeepAliveCancel(true) == nil, "a keepalive that does not run can be cancelled")
		vfAssert(c.KeepAliveCancel(true) == nil, "a keepalive can be cancelled twice")
	}
	vfAssert(err != nil && !c.Connected() && len(*conns) == 0, "a call without a connection is an error")
	vfReach("error")
}
