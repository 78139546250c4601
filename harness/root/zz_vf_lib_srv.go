package gologix

import (
	"errors"
	"io"
	"net"
	"time"
)

// vfSrvConn is the server's end of a connection: it reads what is in, and keeps what is written.
type vfSrvConn struct {
	in, out []byte
	closed  int
	starved int // reads beyond the input
	refuse  bool
	local   net.Addr
}

func (c *vfSrvConn) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		c.starved++
		return 0, io.EOF
	}
	// what was sent arrives in pieces
	n := copy(p[:(len(p)+1)/2], c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *vfSrvConn) Write(p []byte) (int, error) {
	if c.refuse {
		return 0, errVfBroken
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *vfSrvConn) Close() error {
	c.closed++
	return nil
}
func (c *vfSrvConn) LocalAddr() net.Addr                { return c.local }
func (c *vfSrvConn) RemoteAddr() net.Addr               { return vfPeer("10.0.0.9:50000") }
func (c *vfSrvConn) SetDeadline(t time.Time) error      { return nil }
func (c *vfSrvConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vfSrvConn) SetWriteDeadline(t time.Time) error { return nil }

// vfPeer is an address.
type vfPeer string

func (p vfPeer) Network() string { return "tcp" }
func (p vfPeer) String() string  { return string(p) }

// vfSrv is a session of a server.
type vfSrv struct {
	srv  *Server
	h    *serverTCPHandler
	conn *vfSrvConn
}

func vfNewSrv(srv *Server) *vfSrv {
	c := &vfSrvConn{local: &net.TCPAddr{IP: net.IP{10, 0, 0, 1}, Port: 44818}}
	return &vfSrv{srv, &serverTCPHandler{conn: c, server: srv}, c}
}

// feed gives the server bytes and returns what it sends, and whether the session goes on.
func (s *vfSrv) feed(frame []byte) ([]byte, bool) {
	s.conn.in = frame
	s.conn.out = nil
	s.conn.starved = 0
	err := s.h.serve(s.srv)
	alive := errors.Is(err, io.EOF) && len(s.conn.in) == 0 && s.conn.starved == 1
	return s.conn.out, alive
}

// vfSrvClient is a client connected to a session of the server.
func vfSrvClient(srv *Server) (*Client, *vfSrv) {
	s := vfNewSrv(srv)
	c, conns := vfDialClient(nil, func(cn *vfConn, f []byte) []byte {
		r, _ := s.feed(f)
		return r
	})
	_ = conns
	return c, s
}

// vfSrvMap is a server with tags of many kinds and one session with an open class 3 connection with ids ot and to.
func vfSrvMap(ot, to uint32) (*vfSrv, *MapTagProvider) {
	p := &MapTagProvider{Data: map[string]any{
		"a": int32(0x01020304), "b": []int16{11, 22, 33}, "s": "text", "t": []string{"x", "yz"}, "f": float32(1.5), "q": struct{ A, B int32 }{1, 2},
	}}
	r := NewRouter()
	r.Handle([]byte{1, 0}, p)
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	srv.ConnMgr.Add(&serverConnection{ID: 7, OT: ot, TO: to, Path: []byte{1, 0}, Open: true})
	return vfNewSrv(srv), p
}

// vfUnconnFrame and vfConnFrame are requests with the given data.
func vfUnconnFrame(session uint32, context uint64, data []byte) []byte {
	return vfEip(0x6F, session, 0, context, vfUnconnBody(data))
}
func vfConnFrame(session uint32, context uint64, id uint32, data []byte) []byte {
	return vfEip(0x70, session, 0, context, vfConnBody(id, data))
}

// vfSrvTagPath is the sized path of a tag name of letters, with an index if it is not negative.
func vfSrvTagPath(name string, index int) []byte {
	p := vfCat([]byte{0x91, byte(len(name))}, []byte(name))
	if len(name)%2 == 1 {
		p = append(p, 0)
	}
	if index >= 0 {
		p = append(p, 0x28, byte(index))
	}
	return vfCat([]byte{byte(len(p) / 2)}, p)
}

// vfReply is a frame of the server.
type vfReply struct {
	cmd             uint16
	session, status uint32
	context         uint64
	body            []byte
}

// vfReplies splits what the server sent; it has to be whole frames.
func vfReplies(out []byte) []vfReply {
	var r []vfReply
	for len(out) > 0 {
		vfAssert(len(out) >= 24, "a reply has a whole header")
		n := int(vfU16le(out[2:]))
		vfAssert(len(out) >= 24+n, "a reply announces the length it has")
		r = append(r, vfReply{vfU16le(out), vfU32le(out[4:]), vfU32le(out[8:]), vfU64le(out[12:]), out[24 : 24+n]})
		out = out[24+n:]
	}
	return r
}

// vfOneReply feeds a request and checks that there is one reply to it with its command, session and context.
func vfOneReply(s *vfSrv, req []byte) vfReply {
	out, alive := s.feed(req)
	vfAssert(alive, "the session goes on after a request")
	r := vfReplies(out)
	vfAssert(len(r) == 1, "a request gets exactly one reply")
	vfAssert(r[0].cmd == vfU16le(req), "a reply has the command of its request")
	vfAssert(r[0].session == vfU32le(req[4:]), "a reply has the session of its request")
	vfAssert(r[0].context == vfU64le(req[12:]), "a reply has the sender context of its request")
	return r[0]
}

// vfUnconnReply is the service, status and data of the reply to an unconnected request.
func vfUnconnReply(r vfReply) (byte, byte, []byte) {
	b := r.body
	vfAssert(r.status == 0 && len(b) >= 20, "a reply to an unconnected request has its items")
	n := int(vfU16le(b[14:]))
	vfAssert(vfU16le(b[6:]) == 2 && vfU16le(b[8:]) == 0 && vfU16le(b[10:]) == 0 && vfU16le(b[12:]) == 0xB2, "a reply to an unconnected request has a null address and unconnected data")
	vfAssert(len(b) == 16+n, "the data item has the length of the data")
	vfAssert(b[17] == 0 && b[19] == 0, "a reply has no extended status")
	return b[16], b[18], b[20:]
}

// vfConnReply is the connection id, sequence, service, status and data of the reply to a connected request.
func vfConnReply(r vfReply) (uint32, uint16, byte, byte, []byte) {
	b := r.body
	vfAssert(r.status == 0 && len(b) >= 26, "a reply to a connected request has its items")
	n := int(vfU16le(b[18:]))
	vfAssert(vfU16le(b[6:]) == 2 && vfU16le(b[8:]) == 0xA1 && vfU16le(b[10:]) == 4 && vfU16le(b[16:]) == 0xB1, "a reply to a connected request has a connection address and connected data")
	vfAssert(len(b) == 20+n, "the data item has the length of the data")
	vfAssert(b[23] == 0 && b[25] == 0, "a reply has no extended status")
	return vfU32le(b[12:]), vfU16le(b[20:]), b[22], b[24], b[26:]
}

// vfSendReq is an unconnected send of an embedded request by way of a route.
func vfSendReq(req, route []byte) []byte {
	d := vfCat([]byte{0x52, 2, 0x20, 6, 0x24, 1, 5, 0x99}, vfLe16(uint16(len(req))), req)
	if len(req)%2 == 1 {
		d = append(d, 0)
	}
	return vfCat(d, []byte{byte(len(route) / 2), 0}, route)
}

// vfMultiReq is a multiple service packet.
func vfMultiReq(reqs ...[]byte) []byte {
	at := 2 + 2*len(reqs)
	d := vfCat([]byte{0x0A, 2, 0x20, 2, 0x24, 1}, vfLe16(uint16(len(reqs))))
	for _, r := range reqs {
		d = append(d, vfLe16(uint16(at))...)
		at += len(r)
	}
	return vfCat(d, vfCat(reqs...))
}

// vfMultiReply splits the data of the reply to a multiple service packet.
func vfMultiReply(data []byte) [][]byte {
	vfAssert(len(data) >= 2, "the reply to a multiple service packet has a count")
	n := int(vfU16le(data))
	vfAssert(len(data) >= 2+2*n, "the reply to a multiple service packet has its offsets")
	var r [][]byte
	for i := 0; i < n; i++ {
		from, to := int(vfU16le(data[2+2*i:])), len(data)
		if i+1 < n {
			to = int(vfU16le(data[4+2*i:]))
		}
		vfAssert(from >= 2+2*n && from+4 <= to && to <= len(data), "the offsets of the replies are in order and inside of the packet")
		r = append(r, data[from:to])
	}
	return r
}

// vfOpenReq is a (large) forward open of a class 3 connection by way of path.
func vfOpenReq(large bool, ot, to uint32, serial, vendor uint16, orig uint32, path []byte) []byte {
	svc, params := byte(0x54), []byte{0xF4, 0x43}
	if large {
		svc, params = 0x5B, []byte{0xA0, 0x0F, 0, 0x42}
	}
	return vfCat([]byte{svc, 2, 0x20, 6, 0x24, 1, 5, 0x99}, vfLe32(ot), vfLe32(to), vfLe16(serial), vfLe16(vendor), vfLe32(orig), []byte{1, 0, 0, 0},
		vfLe32(1000000), params, vfLe32(2000000), params, []byte{0xA3, byte(len(path) / 2)}, path)
}

// vfCloseReq is a forward close.
func vfCloseReq(serial, vendor uint16, orig uint32, path []byte) []byte {
	return vfCat([]byte{0x4E, 2, 0x20, 6, 0x24, 1, 5, 0x99}, vfLe16(serial), vfLe16(vendor), vfLe32(orig), []byte{byte(len(path) / 2), 0}, path)
}

// vfStub is a tag provider that keeps what it is asked, answers a read with a value and refuses what it is told to.
type vfStub struct {
	value   any
	refuse  bool
	reads   []string
	counts  []int16
	writes  []string
	written []any
	ioReads int
}

func (p *vfStub) TagRead(tag string, qty int16) (any, error) {
	p.reads, p.counts = append(p.reads, tag), append(p.counts, qty)
	if p.refuse {
		return nil, errVfBroken
	}
	return p.value, nil
}
func (p *vfStub) TagWrite(tag string, value any) error {
	p.writes, p.written = append(p.writes, tag), append(p.written, value)
	if p.refuse {
		return errVfBroken
	}
	return nil
}
func (p *vfStub) IORead() ([]byte, error) {
	p.ioReads++
	return nil, errVfBroken
}
func (p *vfStub) IOWrite(items []CIPItem) error { return errVfBroken }

// vfSrvStub is a server with a stub at path 1, 0 and one session.
func vfSrvStub() (*vfSrv, *vfStub) {
	p := &vfStub{}
	r := NewRouter()
	r.Handle([]byte{1, 0}, p)
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	return vfNewSrv(srv), p
}

// vfSrvLongPath is the sized path of a tag of any parts, each with an index if it is not negative, in the smallest segments.
func vfSrvLongPath(names []string, index []int) []byte {
	var p []byte
	for i, name := range names {
		p = vfCat(p, []byte{0x91, byte(len(name))}, []byte(name))
		if len(name)%2 == 1 {
			p = append(p, 0)
		}
		switch x := index[i]; {
		case x < 0:
		case x < 0x100:
			p = append(p, 0x28, byte(x))
		case x < 0x10000:
			p = vfCat(p, []byte{0x29, 0}, vfLe16(uint16(x)))
		default:
			p = vfCat(p, []byte{0x2A, 0}, vfLe32(uint32(x)))
		}
	}
	return vfCat([]byte{byte(len(p) / 2)}, p)
}

// vfDigits is a number in decimal.
func vfDigits(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return vfDigits(n/10) + vfDigits(n%10)
}

// vfLongName is a name of n letters.
func vfLongName(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz_"[i%27]
	}
	return string(b)
}
