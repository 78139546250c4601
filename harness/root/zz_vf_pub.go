package gologix

import "net"

// VfConnected is a client connected over conn, for harnesses of other packages.
func VfConnected(conn net.Conn) *Client {
	c := NewClient("10.0.0.1")
	c.conn = conn
	c.connStatus = connectionStatusConnected
	c.AutoConnect = false
	c.knownFirmware = 99
	c.SessionHandle = 0x11223344
	c.OTNetworkConnectionID = 0x55667788
	return c
}
