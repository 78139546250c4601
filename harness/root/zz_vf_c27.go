package gologix

import "net"

// VF_C27_identity: any identity attributes with names of 0 to 3, 255 and 256 characters, any IPv4 address and port of the server,
// listed over a connection of any session handle and context.
func VF_C27_identity() {
	srv := NewServer(NewRouter())
	c, s := vfSrvClient(srv)
	c.SessionHandle, c.Context = vfU32("session"), vfU64("context")
	var v [5]uint16
	for i := range v {
		v[i] = vfU16("attr")
		srv.Attributes[CIPAttribute(i+1)] = int16(v[i])
	}
	serial := vfU32("serial")
	srv.Attributes[6] = serial
	n := []int{2, 0, 1, 3, 255, 256}[vfPick("len", 6)]
	name := vfStr("name", n)
	srv.Attributes[7] = name
	if n > 255 {
		name = name[:255]
	}
	ip := vfBytes("ip", 4)
	port := vfU16("port")
	s.conn.local = &net.TCPAddr{IP: net.IP(ip), Port: int(port)}
	if vfPick("addr", 2) == 1 {
		s.conn.local = &net.UDPAddr{IP: net.IP(ip), Port: int(port)}
	}
	if vfPick("registered", 2) == 1 {
		s.feed(vfEip(0x65, 0, 0, 1, []byte{1, 0, 0, 0}))
	}
	vfConnectTo(c, s)
	id, err := c.ListIdentity()
	vfAssert(err == nil && id != nil, "the identity is listed")
	vfAssert(uint16(id.Vendor) == v[0] && uint16(id.DeviceType) == v[1] && id.ProductCode == v[2] && id.Revision == v[3] && id.Status == v[4] && id.SerialNumber == serial, "the identity has the server's numbers")
	vfAssert(id.ProductName == name, "the identity has the server's name")
	vfAssert(id.EncapProtocolVersion == 1 && id.SocketAddress.Family == 2 && id.SocketAddress.Port == port, "the identity has the server's port")
	vfAssert(id.SocketAddress.Address == uint32(ip[0])<<24|uint32(ip[1])<<16|uint32(ip[2])<<8|uint32(ip[3]) && id.SocketAddress.Zero0|id.SocketAddress.Zero1 == 0, "the identity has the server's address")
	l, err := c.ListServices()
	vfAssert(err == nil && len(l) == 1 && l[0].Name == "Communications" && l[0].EncapProtocolVersion == 1 && l[0].Capabilities == 0x120, "the services are the server's")
	vfReach("listed")
}

// vfConnectTo attaches the client to the session without opening a connection.
func vfConnectTo(c *Client, s *vfSrv) {
	c.conn = &vfConn{respond: func(cn *vfConn, f []byte) []byte {
		r, _ := s.feed(f)
		return r
	}}
	c.connStatus = connectionStatusConnected
}

// VF_C27_identitybytes: an identity reply of 0 to 2 items of any type, the first with any 0 to 34, 36 (thorough also 35, 289, 290) bytes, name
// lengths inside and beyond, any encapsulation status.
func VF_C27_identitybytes() {
	sizes := []int{0, 1, 2, 3, 17, 18, 19, 20, 31, 32, 33, 34, 36, 35, 289, 290}
	n := sizes[vfPick("n", 13+3*vfTier())]
	data := vfBytes("data", n)
	l := 0
	if n > 32 {
		l = []int{0, 1, 2, 255}[vfPick("namelen", 4)]
		data[32] = byte(l)
	}
	st := vfU32("status")
	typ := vfU16("type")
	k := vfPick("items", 3)
	body := vfLe16(uint16(k))
	if k > 0 {
		body = vfCat(body, vfLe16(typ), vfLe16(uint16(n)), data)
	}
	if k > 1 {
		body = vfCat(body, []byte{12, 0, 3, 0, 1, 2, 3})
	}
	c, conn := vfNetClient(nil)
	conn.respond = func(cn *vfConn, f []byte) []byte { return vfAnswer(f, st, body) }
	id, err := c.ListIdentity()
	vfAssert(len(conn.frames) == 1 && vfEq(conn.frames[0], vfEip(0x63, c.SessionHandle, 0, c.Context, nil)), "the request is an empty list identity")
	if st != 0 || k == 0 || typ != 12 || n < 34+l {
		vfAssert(err != nil && id == nil, "a failed, truncated or other reply is an error")
		return
	}
	vfAssert(err == nil, "a complete identity is listed")
	vfAssert(id.EncapProtocolVersion == vfU16le(data) && vfEq(vfLe16(id.SocketAddress.Family), []byte{data[3], data[2]}) && vfEq(vfLe16(id.SocketAddress.Port), []byte{data[5], data[4]}) && vfEq(vfLe32(id.SocketAddress.Address), []byte{data[9], data[8], data[7], data[6]}), "the identity has the reply's address")
	vfAssert(uint16(id.Vendor) == vfU16le(data[18:]) && uint16(id.DeviceType) == vfU16le(data[20:]) && id.ProductCode == vfU16le(data[22:]) && id.Revision == vfU16le(data[24:]) && id.Status == vfU16le(data[26:]) && id.SerialNumber == vfU32le(data[28:]), "the identity has the reply's numbers")
	vfAssert(id.ProductName == string(data[33:33+l]) && id.State == data[33+l], "the identity has the reply's name and state")
	vfReach("listed")
}

// VF_C27_servicebytes: a service reply of 0 to 2 items of any type, the first with any 0 to 22 bytes, any encapsulation status.
func VF_C27_servicebytes() {
	n := []int{20, 0, 1, 2, 3, 4, 19, 21, 22}[vfPick("n", 9)]
	data := vfBytes("data", n)
	st := vfU32("status")
	typ := vfU16("type")
	k := vfPick("items", 3)
	body := vfLe16(uint16(k))
	if k > 0 {
		body = vfCat(body, vfLe16(typ), vfLe16(uint16(n)), data)
	}
	if k > 1 {
		body = vfCat(body, []byte{0, 1, 20, 0, 1, 0, 3, 0, 'A', 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	}
	len16 := 16
	if n >= 20 {
		len16 = []int{0, 1, 14, 16}[vfPick("namelen", 4)]
		for i := 0; i < 16; i++ {
			vfAssume((data[4+i] != 0) == (i < len16))
		}
	}
	c, conn := vfNetClient(nil)
	conn.respond = func(cn *vfConn, f []byte) []byte { return vfAnswer(f, st, body) }
	l, err := c.ListServices()
	vfAssert(len(conn.frames) == 1 && vfEq(conn.frames[0], vfEip(4, c.SessionHandle, 0, c.Context, nil)), "the request is an empty list services")
	if st != 0 || k > 0 && typ == 0x100 && n < 20 {
		vfAssert(err != nil && len(l) == 0, "a failed or truncated reply is an error")
		return
	}
	if k > 0 && typ != 0x100 {
		for _, x := range l {
			vfAssert(x.Name == "A" && k == 2, "an item of another type is no service")
		}
		return
	}
	vfAssert(err == nil && len(l) == k, "every service is listed")
	if k > 0 {
		vfAssert(l[0].EncapProtocolVersion == vfU16le(data) && uint16(l[0].Capabilities) == vfU16le(data[2:]) && l[0].Name == string(data[4:4+len16]), "a service has its version, flags and name")
		vfReach("listed")
	}
	if k > 1 {
		vfAssert(l[1].EncapProtocolVersion == 1 && l[1].Capabilities == 3 && l[1].Name == "A", "a service has its version, flags and name")
	}
}

// VF_C27_frames: bodies of 0 to 8 any bytes, cut or missing replies.
func VF_C27_frames() {
	n := vfPick("n", 9)
	body := vfBytes("body", n)
	if n > 1 {
		vfAssume(body[1] == 0 && body[0] < 4 || body[0]&body[1] == 0xFF)
	}
	if n > 5 {
		vfAssume(body[5] == 0 && body[4] < 4 || body[4]&body[5] == 0xFF)
	}
	cut := vfPick("cut", 4)
	c, conn := vfNetClient(nil)
	conn.refuse = cut == 3
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] == 0x6F {
			return nil
		}
		r := vfAnswer(f, 0, body)
		switch cut {
		case 1:
			return r[:len(r)-1]
		case 2:
			return r[:10]
		}
		return r
	}
	if vfPick("which", 2) == 0 {
		_, err := c.ListIdentity()
		vfAssert(err != nil, "a malformed identity is an error")
	} else {
		l, err := c.ListServices()
		vfAssert(err != nil || cut == 0 && n >= 2 && body[0]|body[1] == 0 && len(l) == 0, "a malformed service list is an error")
	}
	vfReach("bad")
}
