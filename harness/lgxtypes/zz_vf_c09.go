package lgxtypes

import (
	"bytes"
	"io"
)

type vfFlag struct {
	bit int
	p   *bool
}

type vfPackable interface {
	Pack(w io.Writer) (int, error)
}
type vfUnpackable interface {
	Unpack(r io.Reader) (int, error)
}

// vfControl lays a control structure out by the controller's definition: the status word, then the two numbers.
func vfControl(flags []vfFlag, a, b int32) []byte {
	w := uint32(0)
	for _, f := range flags {
		n := uint32(0)
		if *f.p {
			n = 1
		}
		w |= n << f.bit
	}
	var out []byte
	for _, v := range []uint32{w, uint32(a), uint32(b)} {
		out = append(out, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	return out
}

func vfEq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

type vfFail struct{ room int }

func (w *vfFail) Write(p []byte) (int, error) {
	if len(p) > w.room {
		return 0, io.ErrShortWrite
	}
	w.room -= len(p)
	return len(p), nil
}

func vfCheck(x vfPackable, want []byte, y vfUnpackable, same func() bool) {
	var b bytes.Buffer
	n, err := x.Pack(&b)
	vfAssert(err == nil && n == 12, "packs to twelve bytes")
	vfAssert(vfEq(b.Bytes(), want), "each flag in its own status bit, then the two numbers")
	vfObsB("packed", b.Bytes())
	r := bytes.NewReader(append(want[:12:12], 0xEE))
	n, err = y.Unpack(r)
	vfAssert(err == nil && n == 12 && r.Len() == 1, "unpacks from exactly twelve bytes")
	vfAssert(same(), "the same structure comes back")
	_, err = y.Unpack(bytes.NewReader(want[:vfPick("short", 12)]))
	vfAssert(err != nil, "too few bytes is an error")
	_, err = x.Pack(&vfFail{vfPick("room", 12)})
	vfAssert(err != nil, "a failed write is an error")
}

// VF_C09_timer: every preset, accumulator and combination of flags, unpacked over any previous contents; every short
// length; every failing write.
func VF_C09_timer() {
	x := TIMER{PRE: int32(vfU32("pre")), ACC: int32(vfU32("acc")), EN: vfBool("en"), TT: vfBool("tt"), DN: vfBool("dn")}
	y := TIMER{PRE: int32(vfU32("opre")), ACC: int32(vfU32("oacc")), EN: vfBool("oen"), TT: vfBool("ott"), DN: vfBool("odn")}
	if vfBool("unused") {
		// the flags the type documents as unused need not travel, but must not disturb the others
		x.FS, x.LS, x.OV, x.ER = vfBool("fs"), vfBool("ls"), vfBool("ov"), vfBool("er")
		var b bytes.Buffer
		_, err := x.Pack(&b)
		_, err2 := y.Unpack(&b)
		vfAssert(err == nil && err2 == nil, "packs and unpacks")
		vfAssert(y.PRE == x.PRE && y.ACC == x.ACC && y.EN == x.EN && y.TT == x.TT && y.DN == x.DN, "unused flags disturb nothing")
		return
	}
	want := vfControl([]vfFlag{{31, &x.EN}, {30, &x.TT}, {29, &x.DN}}, x.PRE, x.ACC)
	vfCheck(x, want, &y, func() bool { return y == x })
}

// VF_C09_counter: as timer, for counters.
func VF_C09_counter() {
	mk := func() COUNTER {
		return COUNTER{PRE: int32(vfU32("pre")), ACC: int32(vfU32("acc")), CU: vfBool("cu"), CD: vfBool("cd"), DN: vfBool("dn"),
			OV: vfBool("ov"), UN: vfBool("un")}
	}
	x, y := mk(), mk()
	want := vfControl([]vfFlag{{31, &x.CU}, {30, &x.CD}, {29, &x.DN}, {28, &x.OV}, {27, &x.UN}}, x.PRE, x.ACC)
	vfCheck(x, want, &y, func() bool { return y == x })
}

// VF_C09_control: as timer, for control structures.
func VF_C09_control() {
	mk := func() CONTROL {
		return CONTROL{LEN: int32(vfU32("len")), POS: int32(vfU32("pos")), EN: vfBool("en"), EU: vfBool("eu"), DN: vfBool("dn"),
			EM: vfBool("em"), ER: vfBool("er"), UL: vfBool("ul"), IN: vfBool("in"), FD: vfBool("fd")}
	}
	x, y := mk(), mk()
	want := vfControl([]vfFlag{{31, &x.EN}, {30, &x.EU}, {29, &x.DN}, {28, &x.EM}, {27, &x.ER}, {26, &x.UL}, {25, &x.IN}, {24, &x.FD}}, x.LEN, x.POS)
	vfCheck(x, want, &y, func() bool { return y == x })
}

// VF_C09_anyword: any twelve received bytes decode to the numbers and exactly the status bits they carry.
func VF_C09_anyword() {
	d := vfBytes("d", 12)
	w := uint32(d[0]) | uint32(d[1])<<8 | uint32(d[2])<<16 | uint32(d[3])<<24
	a := int32(uint32(d[4]) | uint32(d[5])<<8 | uint32(d[6])<<16 | uint32(d[7])<<24)
	b := int32(uint32(d[8]) | uint32(d[9])<<8 | uint32(d[10])<<16 | uint32(d[11])<<24)
	bit := func(n int) bool { return w>>n&1 == 1 }
	var t TIMER
	_, err := t.Unpack(bytes.NewReader(d))
	vfAssert(err == nil && t.PRE == a && t.ACC == b && t.EN == bit(31) && t.TT == bit(30) && t.DN == bit(29), "timer")
	var c COUNTER
	_, err = c.Unpack(bytes.NewReader(d))
	vfAssert(err == nil && c == COUNTER{a, b, bit(31), bit(30), bit(29), bit(28), bit(27)}, "counter")
	var k CONTROL
	_, err = k.Unpack(bytes.NewReader(d))
	vfAssert(err == nil && k == CONTROL{a, b, bit(31), bit(30), bit(29), bit(28), bit(27), bit(26), bit(25), bit(24)}, "control")
}

// VF_C09_abbr: the type names and codes of the controller's built-in structures.
func VF_C09_abbr() {
	for _, x := range []struct {
		t interface{ TypeAbbr() (string, uint16) }
		s string
		c uint16
	}{{TIMER{}, "TIMER,DINT,DINT,DINT", 0x0F83}, {COUNTER{}, "COUNTER,DINT,DINT,DINT", 0x0F82},
		{CONTROL{}, "CONTROL,DINT,DINT,DINT", 0x0F81}, {STRING{}, "STRING,DINT,SINT[82]", 0x0FCE}} {
		s, c := x.t.TypeAbbr()
		vfAssert(s == x.s && c == x.c, "type abbreviation")
	}
}
