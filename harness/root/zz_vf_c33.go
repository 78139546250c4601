package gologix

import (
	"bytes"
	"time"
)

// VF_C33_session: a connection opened, used and closed with any serial number, vendor id, connection size, session handle and
// connection id, several packet intervals, route paths of 0 to 510 bytes with any content, the large form accepted or refused
// with any status.
func VF_C33_session() {
	serial, vendor, size := vfU32("serial"), vfU16("vendor"), vfU16("size")
	session, id, start := vfU32("handle"), vfU32("id"), vfU32("start")
	path := vfBytes("path", []int{0, 2, 4, 6, 20, 506, 1, 3, 508, 510, 514}[vfPick("pathlen", 11)])
	rpi := []uint32{1, 2500000, 10000, 0x7FFFFFFF}[vfPick("rpi", 4)]
	refused := vfPick("refused", 2) == 1
	st := vfU8("status")
	vfAssume(st != 0)
	plen := (len(path) + 4) / 2
	bad := len(path)%2 == 1 || plen > 255
	c, conns := vfDialClient(nil, func(cn *vfConn, f []byte) []byte {
		switch f[0] {
		case 0x65:
			return vfEip(0x65, session, 0, 0, []byte{1, 0, 0, 0})
		case 0x70:
			return vfAnswer(f, 0, vfConnBody(77, vfSeqReply(f, []byte{0xCC, 0, 0, 0, 0xC3, 0, 5, 0})))
		}
		s := vfService(f)
		if s == 0x5B && refused {
			return vfAnswer(f, 0, vfUnconnBody([]byte{0xDB, 0, st, 0}))
		}
		return vfAnswer(f, 0, vfUnconnBody(vfOpenReply(s, id)))
	})
	c.SerialNumber, c.VendorId, c.ConnectionSize = serial, vendor, size
	c.RPI = time.Duration(rpi) * time.Microsecond
	c.Controller.Path = bytes.NewBuffer(path)
	c.sequenceNumber.Store(start)
	err := c.Connect()
	if bad {
		vfAssert(err != nil, "a path that cannot be counted is an error")
		vfAssert((*conns)[0].closed == 1 && !c.Connected(), "a failed connect leaves nothing open")
		return
	}
	vfAssert(err == nil && c.Connected(), "an accepted open connects")
	conn := (*conns)[0]
	full := vfCat(path, []byte{0x20, 2, 0x24, 1})
	vfAssert(vfEq(conn.frames[0], vfEip(0x65, 0, 0, c.Context, []byte{1, 0, 0, 0})), "the session registration is version 1 without options")
	if size == 0 {
		size = 4000
	}
	at := 1
	if size > 511 {
		vfAssert(len(conn.frames) >= 2, "the large open is sent first")
		d := vfSentUnconn(c, conn.frames[1])
		vfAssert(len(d) == 46+len(full), "the large open has its fields and path")
		vfC33open(d[:36], 0x5B, vendor, serial, rpi)
		params := vfLe32(0x42000000 | uint32(size))
		vfAssert(vfEq(d[32:36], params) && vfEq(d[40:44], params) && vfEq(d[36:40], vfLe32(rpi)), "the large open carries size and interval both ways")
		vfAssert(d[44] == 0xA3 && d[45] == byte(plen) && vfEq(d[46:], full), "the open carries the trigger, and the path with its size in words")
		at = 2
		if refused {
			size = 511
		}
	}
	if size <= 511 {
		vfAssert(len(conn.frames) == at+1, "the standard open is sent")
		d := vfSentUnconn(c, conn.frames[at])
		vfAssert(len(d) == 42+len(full), "the standard open has its fields and path")
		vfC33open(d, 0x54, vendor, serial, rpi)
		params := vfLe16(0x4200 | size)
		vfAssert(vfEq(d[32:34], params) && vfEq(d[38:40], params) && vfEq(d[34:38], vfLe32(rpi)), "the standard open carries size and interval both ways")
		vfAssert(d[40] == 0xA3 && d[41] == byte(plen) && vfEq(d[42:], full), "the open carries the trigger, and the path with its size in words")
		at++
	}
	last := vfSentUnconn(c, conn.frames[at-1])
	vfAssert(c.ConnectionSize == size, "the negotiated size is the one opened")
	vfAssert(len(conn.frames) == at, "nothing else is sent to connect")
	var v int16
	vfAssert(c.Read("a", &v) == nil && v == 5, "the connection is usable")
	f := conn.frames[at]
	vfAssert(vfEq(f[:4], []byte{0x70, 0, byte(len(f) - 24), 0}) && vfEq(f[4:8], vfLe32(session)), "connected messages carry the session registered")
	vfAssert(vfEq(f[36:40], vfLe32(id)), "connected messages carry the connection id the controller returned")
	vfAssert(c.Disconnect() == nil && !c.Connected() && conn.closed > 0, "disconnect closes the connection")
	vfAssert(len(conn.frames) == at+2, "one close is sent")
	d := vfSentUnconn(c, conn.frames[at+1])
	vfAssert(len(d) >= 18 && vfEq(d[:6], []byte{0x4E, 2, 0x20, 6, 0x24, 1}), "the close goes to the connection manager")
	vfAssert(vfEq(d[8:10], last[16:18]) && vfEq(d[10:12], vfLe16(vendor)) && vfEq(d[12:16], vfLe32(serial)), "the close names the connection opened")
	vfAssert(d[16] == byte(plen) && d[17] == 0 && vfEq(d[18:], full), "the close carries the path with its size in words")
	vfReach("session")
}

// vfC33open checks the part both forms share.
func vfC33open(d []byte, service byte, vendor uint16, serial, rpi uint32) {
	vfAssert(vfEq(d[:6], []byte{service, 2, 0x20, 6, 0x24, 1}), "the open goes to the connection manager")
	vfAssert(!vfEq(d[8:12], d[12:16]), "the two directions have different connection ids")
	vfAssert(vfEq(d[18:20], vfLe16(vendor)) && vfEq(d[20:24], vfLe32(serial)), "the open carries vendor id and serial number")
	vfAssert(vfEq(d[28:32], vfLe32(rpi)), "the open carries the packet interval")
}

// VF_C33_reply: the large or standard open answered by any 0 to 31 bytes of unconnected data and any encapsulation status.
func VF_C33_reply() {
	n := []int{0, 3, 4, 5, 6, 29, 30, 31, 32}[vfPick("n", 9)]
	data := vfBytes("data", n)
	st := vfU32("status")
	if n >= 4 {
		vfAssume(data[3] <= 2 || data[3] >= 0xFE || data[3] == 0x80)
	}
	large := vfPick("large", 2) == 1
	c, conns := vfDialClient(nil, func(cn *vfConn, f []byte) []byte {
		switch {
		case f[0] == 0x65:
			return vfEip(0x65, 3, 0, 0, []byte{1, 0, 0, 0})
		case len(cn.frames) == 2:
			return vfAnswer(f, st, vfUnconnBody(data))
		}
		return vfAnswer(f, 0, vfUnconnBody([]byte{vfService(f) | 0x80, 0, 8, 0}))
	})
	service := byte(0xD4)
	if large {
		service = 0xDB
	} else {
		c.ConnectionSize = 500
	}
	err := c.Connect()
	vfAssert((err == nil) == c.Connected(), "the state is the result of the connect")
	vfAssert((err == nil) == ((*conns)[0].closed == 0), "a failed connect leaves no socket open")
	if st != 0 || n < 30 || data[0] != service || data[2] != 0 {
		vfAssert(err != nil, "only a complete success reply opens the connection")
		return
	}
	at := 4 + 2*int(vfConc(uint64(data[3])))
	if at+26 > n {
		vfAssert(err != nil, "a truncated reply is an error")
		return
	}
	vfAssert(err == nil, "a complete success reply opens the connection")
	vfAssert(c.OTNetworkConnectionID == vfU32le(data[at:]), "the connection id is the reply's")
	vfReach("opened")
}
