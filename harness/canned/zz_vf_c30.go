package canned

import (
	"io"
	"net"
	"time"

	"github.com/danomagnum/gologix"
)

// vfConn is a connection whose every message is answered with the service data reply.
type vfConn struct {
	out, in []byte
	frames  [][]byte
	status  uint32
	reply   []byte
}

func (c *vfConn) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}

func vfLe16(v int) []byte { return []byte{byte(v), byte(v >> 8)} }

func (c *vfConn) Write(p []byte) (int, error) {
	c.out = append(c.out, p...)
	for len(c.out) >= 24 {
		n := 24 + int(vfConc(uint64(c.out[2])|uint64(c.out[3])<<8))
		if len(c.out) < n {
			break
		}
		f := c.out[:n:n]
		c.out = c.out[n:]
		c.frames = append(c.frames, f)
		if f[0] != 0x70 {
			continue
		}
		// the service data of the reply, behind the sequence number of the request
		var b []byte
		b = append(b, 0, 0, 0, 0, 0, 0, 2, 0, 0xA1, 0, 4, 0, 9, 9, 9, 9, 0xB1, 0)
		b = append(b, vfLe16(2+len(c.reply))...)
		b = append(b, f[44], f[45])
		b = append(b, c.reply...)
		c.in = append(c.in, f[0], f[1])
		c.in = append(c.in, vfLe16(len(b))...)
		c.in = append(c.in, f[4:8]...)
		c.in = append(c.in, byte(c.status), byte(c.status>>8), byte(c.status>>16), byte(c.status>>24))
		c.in = append(c.in, f[12:20]...)
		c.in = append(c.in, 0, 0, 0, 0)
		c.in = append(c.in, b...)
	}
	return len(p), nil
}
func (c *vfConn) Close() error                       { return nil }
func (c *vfConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *vfConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *vfConn) SetDeadline(t time.Time) error      { return nil }
func (c *vfConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vfConn) SetWriteDeadline(t time.Time) error { return nil }

func vfLe(b []byte) uint64 {
	v := uint64(0)
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

func vfEq(a, b []byte) bool {
	ok := len(a) == len(b)
	for i := 0; i < len(a) && i < len(b); i++ {
		ok = ok && a[i] == b[i]
	}
	return ok
}

// vfC30req checks that exactly one request with this service and data was sent.
func vfC30req(c *vfConn, want []byte) {
	n := 0
	for _, f := range c.frames {
		if f[0] == 0x70 {
			n++
			vfAssert(vfEq(f[46:], want), "the report's object is asked for")
		}
	}
	vfAssert(n == 1, "the report is asked for once")
}

// VF_C30_forces: any force status word, attribute id and attribute status, service status and encapsulation status.
func VF_C30_forces() {
	id, as, fs, st := vfU16("id"), vfU16("attribute status"), vfU16("forces"), vfU8("status")
	c := &vfConn{}
	if vfPick("failed", 2) == 1 {
		c.status = vfU32("encapsulation")
	}
	c.reply = []byte{0x83, 0, st, 0, 1, 0, byte(id), byte(id >> 8), byte(as), byte(as >> 8), byte(fs), byte(fs >> 8)}
	f, err := GetForces(gologix.VfConnected(c))
	vfC30req(c, []byte{3, 2, 0x20, 0x69, 0x24, 0, 1, 0, 9, 0})
	if id != 9 {
		return
	}
	vfAssert((err == nil) == (c.status == 0 && st == 0 && as == 0), "a failed report is an error, any other is none")
	if err != nil {
		return
	}
	vfAssert(uint16(f) == fs, "the force status is the reply's")
	vfAssert(f.Exist() == (fs&1 != 0), "forces are installed exactly with bit 0")
	vfAssert(f.Enabled() == (fs&2 != 0), "forces are enabled exactly with bit 1")
	vfReach("forces")
}

// VF_C30_short: every length of a force report of 0 to 12 bytes and of a fault report of 0 to 12, 136 to 142 (thorough 0 to 142) bytes.
func VF_C30_short() {
	c := &vfConn{}
	if vfPick("which", 2) == 0 {
		n := vfPick("n", 13)
		c.reply = vfBytes("reply", 12)
		c.reply[0], c.reply[1], c.reply[2], c.reply[3] = 0x83, 0, 0, 0
		c.reply = c.reply[:n]
		_, err := GetForces(gologix.VfConnected(c))
		if n < 12 {
			vfAssert(err != nil, "a short force report is an error")
			vfReach("short forces")
		}
		return
	}
	n := vfPick("n", 20)
	if n >= 13 {
		n += 123
	}
	if vfTier() == 1 {
		n = vfPick("m", 143)
	}
	c.reply = vfBytes("reply", 142)
	c.reply[0], c.reply[1], c.reply[2], c.reply[3] = 0x81, 0, 0, 0
	c.reply = c.reply[:n]
	_, err := GetFaults(gologix.VfConnected(c))
	if n < 142 {
		vfAssert(err != nil, "a short fault report is an error")
		vfReach("short faults")
	}
}

// VF_C30_faults: every byte of a fault report, followed by none or two more bytes.
func VF_C30_faults() {
	d := vfBytes("data", 138+2*vfPick("more", 2))
	st := vfU8("status")
	c := &vfConn{reply: append([]byte{0x81, 0, st, 0}, d...)}
	if vfPick("failed", 2) == 1 {
		c.status = vfU32("encapsulation")
	}
	s, err := GetFaults(gologix.VfConnected(c))
	vfC30req(c, []byte{1, 2, 0x20, 0x73, 0x24, 1})
	vfAssert((err == nil) == (c.status == 0 && st == 0), "a failed report is an error, any other is none")
	if err != nil {
		return
	}
	vfAssert(uint64(s.MajorType) == vfLe(d[0:4]) && uint64(s.MinorType) == vfLe(d[4:8]), "the fault types are the reply's")
	vfAssert(uint64(s.MajorCount) == vfLe(d[8:10]) && uint64(s.MinorCount) == vfLe(d[10:12]), "the fault counts are the reply's")
	for i := range s.Events {
		e, x := s.Events[i], d[12+42*i:]
		vfAssert(e.Timestamp == vfLe(x[:8]) && uint64(e.FaultClass) == vfLe(x[8:10]) && uint64(e.FaultCode) == vfLe(x[10:12]), "a fault has its time, type and code")
		vfAssert(vfEq(e.Detail[:], x[12:42]), "a fault has its information")
	}
	vfReach("faults")
}

// VF_C30_types: any fault type word.
func VF_C30_types() {
	v := vfU32("type")
	t := FaultType(v)
	bits := []struct {
		bit int
		is  bool
	}{{1, t.PowerupFault()}, {2, t.IOFault()}, {3, t.ProgramFault()}, {5, t.WatchdogFault()}, {6, t.NVMemoryFault()}, {7, t.ModeChangeFault()}, {8, t.SerialPortFault()},
		{9, t.EnergyStorageFault()}, {10, t.MotionFault()}, {11, t.RedundancyFault()}, {12, t.RTCFault()}, {13, t.NonRecoverableFault()}, {15, t.CommunicationFault()},
		{16, t.DiagnosticsFault()}, {17, t.CIPMotionFault()}, {18, t.EthernetFault()}, {19, t.LicenseFault()}, {20, t.AlarmFault()}, {21, t.OPCUAFault()}}
	for _, b := range bits {
		vfAssert(b.is == (v>>b.bit&1 != 0), "a fault type is reported exactly with its bit")
	}
	vfReach("types")
}

// vfC30shown is the type and code in a text with "Fault Tx:Cy".
func vfC30shown(s string) (int, int, bool) {
	const at = len("Major Fault T")
	if len(s) < at || s[at-len(" Fault T"):at] != " Fault T" {
		return 0, 0, false
	}
	n := [2]int{}
	i := at
	for k := range n {
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			n[k] = n[k]*10 + int(s[i]-'0')
			i++
		}
		i += 2
	}
	return n[0], n[1], true
}

// VF_C30_event: any fault class and code.
func VF_C30_event() {
	e := FaultEvent{FaultClass: vfU16("class"), FaultCode: vfU16("code")}
	copy(e.Detail[:], vfBytes("detail", 3))
	d := e.Description()
	vfAssert(d.Type == int(e.FaultClass) && d.Code == int(e.FaultCode), "a fault's description is that of its type and code")
	if _, ok := FaultDescriptions[int(e.FaultClass)][int(e.FaultCode)]; !ok {
		vfAssert(d.Description == string(e.Detail[:]), "an unknown fault is described by its information")
		vfReach("unknown")
	} else {
		vfReach("known")
	}
	if _, ok := FaultDescriptions[int(e.FaultClass)][int(e.FaultCode)]; !ok {
		vfReach("other")
	} else if t, k, ok := vfC30shown(d.Display); ok {
		vfAssert(t == int(e.FaultClass) && k == int(e.FaultCode), "a fault is presented with its type and code")
		vfReach("shown")
	}
	if e.FaultClass == 0 && e.FaultCode == 0 {
		vfAssert(e.String() == "No Fault", "no fault is presented as none")
	} else if d.TypeName != "Unknown" {
		vfAssert(e.String() == d.Display, "a fault is presented with its description")
	}
}
