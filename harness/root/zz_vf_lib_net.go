package gologix

import (
	"errors"
	"io"
	"net"
	"time"
)

// vfConn is the client's end of an in-memory connection: whole frames written to it are answered by respond.
type vfConn struct {
	out, in []byte
	frames  [][]byte
	respond func(c *vfConn, frame []byte) []byte
	chunk   int // at most this many bytes per Read when positive, half of what is asked for otherwise
	closed  int
	refuse  bool // Write fails
	rdl     time.Time
	wdl     time.Time
}

var errVfBroken = errors.New("broken connection")

func (c *vfConn) Read(p []byte) (int, error) {
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	if len(c.in) == 0 {
		vfAssert(c.rdl.After(vfNow()), "the client waits for a reply only until a time to come")
		return 0, io.EOF
	}
	n := len(p)
	if n > len(c.in) {
		n = len(c.in)
	}
	// what was sent arrives in pieces: half of what is asked for, or chunk
	if h := (len(p) + 1) / 2; c.chunk == 0 && n > h {
		n = h
	}
	if c.chunk > 0 && n > c.chunk {
		n = c.chunk
	}
	copy(p, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *vfConn) Write(p []byte) (int, error) {
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	vfAssert(c.wdl.After(vfNow()), "the client waits to send only until a time to come")
	if c.refuse {
		return 0, errVfBroken
	}
	c.out = append(c.out, p...)
	for len(c.out) >= 24 {
		n := 24 + int(vfConc(uint64(vfU16le(c.out[2:]))))
		if len(c.out) < n {
			break
		}
		f := c.out[:n:n]
		c.out = c.out[n:]
		c.frames = append(c.frames, f)
		if c.respond != nil {
			c.in = append(c.in, c.respond(c, f)...)
		}
	}
	return len(p), nil
}

func (c *vfConn) Close() error {
	c.closed++
	return nil
}
func (c *vfConn) LocalAddr() net.Addr  { return &net.TCPAddr{} }
func (c *vfConn) RemoteAddr() net.Addr { return &net.TCPAddr{} }
func (c *vfConn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = t, t
	return nil
}
func (c *vfConn) SetReadDeadline(t time.Time) error {
	c.rdl = t
	return nil
}
func (c *vfConn) SetWriteDeadline(t time.Time) error {
	c.wdl = t
	return nil
}

// vfNetClient is a connected client with any session handle, connection id and context.
func vfNetClient(respond func(c *vfConn, frame []byte) []byte) (*Client, *vfConn) {
	conn := &vfConn{respond: respond}
	c := NewClient("10.0.0.1")
	c.conn = conn
	c.connStatus = connectionStatusConnected
	c.AutoConnect = false
	c.knownFirmware = 99
	c.SessionHandle = vfU32("session")
	c.OTNetworkConnectionID = vfU32("connid")
	c.Context = vfU64("context")
	return c, conn
}

// vfEip is an encapsulation frame.
func vfEip(cmd uint16, session, status uint32, context uint64, body []byte) []byte {
	return vfCat(vfLe16(cmd), vfLe16(uint16(len(body))), vfLe32(session), vfLe32(status), vfLe64(context), []byte{0, 0, 0, 0}, body)
}

// vfAnswer answers a frame with a status and a body.
func vfAnswer(frame []byte, status uint32, body []byte) []byte {
	return vfEip(vfU16le(frame), vfU32le(frame[4:]), status, vfU64le(frame[12:]), body)
}

// vfConnBody is the body of a connected message.
func vfConnBody(id uint32, data []byte) []byte {
	return vfCat([]byte{0, 0, 0, 0, 0, 0, 2, 0, 0xA1, 0, 4, 0}, vfLe32(id), []byte{0xB1, 0}, vfLe16(uint16(len(data))), data)
}

// vfUnconnBody is the body of an unconnected message.
func vfUnconnBody(data []byte) []byte {
	return vfCat([]byte{0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0xB2, 0}, vfLe16(uint16(len(data))), data)
}

// vfSentConn checks that the frame is a connected message of the client and returns what follows the sequence number.
func vfSentConn(c *Client, frame []byte) []byte {
	vfAssert(len(frame) >= 46, "a connected message has its headers")
	data := frame[44:]
	want := vfEip(0x70, c.SessionHandle, 0, c.Context, vfConnBody(c.OTNetworkConnectionID, data))
	vfAssert(vfEq(frame[:44], want[:44]), "a connected message carries the session, the connection id and its lengths")
	return data[2:]
}

// vfSentUnconn checks that the frame is an unconnected message of the client and returns its data.
func vfSentUnconn(c *Client, frame []byte) []byte {
	vfAssert(len(frame) >= 40, "an unconnected message has its headers")
	data := frame[40:]
	want := vfEip(0x6F, c.SessionHandle, 0, c.Context, vfUnconnBody(data))
	vfAssert(vfEq(frame[:40], want[:40]), "an unconnected message carries the session and its lengths")
	return data
}

// vfSeqReply is the data of a connected reply to the frame: its sequence number and the rest.
func vfSeqReply(frame, rest []byte) []byte {
	return vfCat(frame[44:46], rest)
}

// vfBadBody is 0 to 26 bytes of a connected reply with item counts and lengths inside and beyond them, the rest any bytes.
func vfBadBody() []byte {
	n := []int{26, 22, 20, 18, 12, 8, 7, 0}[vfPick("bodylen", 8)]
	body := vfBytes("body", n)
	l := [][3]uint16{{2, 4, 6}, {2, 4, 0}, {2, 4, 8}, {2, 4, 0xFFFF}, {2, 0, 6}, {2, 6, 4}, {2, 0xFFFF, 6}, {0, 4, 6}, {1, 4, 6}, {1, 8, 0}, {3, 4, 6}, {0xFFFF, 4, 6}}[vfPick("lengths", 12)]
	for i, at := range []int{6, 10, 12 + int(l[1]) + 2} {
		if at+2 <= n {
			body[at], body[at+1] = byte(l[i]), byte(l[i]>>8)
		}
	}
	return body
}

// vfCutReply answers connected requests with a body: whole (0), without its last byte (1), only 10 bytes of it (2), or
// not at all, as the request cannot be sent (3).
func vfCutReply(conn *vfConn, cut int, body []byte) {
	conn.refuse = cut == 3
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		r := vfAnswer(f, 0, body)
		switch cut {
		case 1:
			return r[:len(r)-1]
		case 2:
			return r[:10]
		}
		return r
	}
}

// vfDialClient makes a client whose connections are the ones dialed, each answered by respond; refuse tells whether a dial fails.
func vfDialClient(refuse func() bool, respond func(c *vfConn, frame []byte) []byte) (*Client, *[]*vfConn) {
	var conns []*vfConn
	vfDialHook = func(network, addr string) (net.Conn, error) {
		if refuse != nil && refuse() {
			return nil, errVfBroken
		}
		c := &vfConn{respond: respond}
		conns = append(conns, c)
		return c, nil
	}
	c := NewClient("10.0.0.1")
	c.AutoConnect = false
	c.knownFirmware = 99
	return c, &conns
}

// vfService is the service of an unconnected request, or 0.
func vfService(f []byte) byte {
	if f[0] == 0x6F && len(f) > 40 {
		return f[40]
	}
	return 0
}

// vfOpenReply is the data of a successful reply to a connection open or close request.
func vfOpenReply(service byte, id uint32) []byte {
	if service == 0x4E {
		return vfCat([]byte{0xCE, 0, 0, 0}, make([]byte, 10))
	}
	return vfCat([]byte{service | 0x80, 0, 0, 0}, vfLe32(id), vfLe32(77), make([]byte, 18))
}
