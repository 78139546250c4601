package gologix

import (
	"net"
	"time"
)

// vfUdp is the server's datagram socket: it yields the datagrams and then ends the server.
type vfUdp struct{ in [][]byte }

type vfUdpEnd struct{}

func (u *vfUdp) ReadFrom(p []byte) (int, net.Addr, error) {
	if len(u.in) == 0 {
		panic(vfUdpEnd{})
	}
	n := copy(p, u.in[0])
	u.in = u.in[1:]
	return n, vfPeer("10.0.0.9:2222"), nil
}
func (u *vfUdp) WriteTo(p []byte, addr net.Addr) (int, error) { return len(p), nil }
func (u *vfUdp) Close() error                                 { return nil }
func (u *vfUdp) LocalAddr() net.Addr                          { return vfPeer("10.0.0.1:2222") }
func (u *vfUdp) SetDeadline(t time.Time) error                { return nil }
func (u *vfUdp) SetReadDeadline(t time.Time) error            { return nil }
func (u *vfUdp) SetWriteDeadline(t time.Time) error           { return nil }

// vfUdpRun gives the server datagrams; it tells whether the server took them all without a panic.
func vfUdpRun(srv *Server, in ...[]byte) bool {
	ended := false
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return // the server stopped listening
			}
			if _, ok := r.(vfUdpEnd); ok {
				ended = true
				return
			}
			panic(r)
		}()
		srv.UDPListener = &vfUdp{in: in}
		srv.serveUDP()
	}()
	return ended
}

// vfUdpOut is the socket I/O is sent on; every datagram is passed on.
type vfUdpOut struct {
	vfSrvConn
	sent chan []byte
}

func (u *vfUdpOut) Write(p []byte) (int, error) {
	u.sent <- append([]byte{}, p...)
	return len(p), nil
}
