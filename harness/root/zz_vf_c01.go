package gologix

import (
	"bytes"
)

// VF_C01_class: every 16-bit class id.
func VF_C01_class() {
	v := vfU16("class")
	b := CIPClass(v).Bytes()
	vfAssert(vfEq(b, vfSeg(0x20, uint32(v))), "class segment is the smallest exact logical segment")
	vfAssert(len(b) == CIPClass(v).Len(), "class reports its encoded length")
	var c CIPClass
	err := c.Read(bytes.NewReader(b))
	vfAssert(err == nil && uint16(c) == v, "class reads back")
	vfObsB("b", b)
}

// VF_C01_instance: every 32-bit instance id.
func VF_C01_instance() {
	v := vfU32("instance")
	b := CIPInstance(v).Bytes()
	vfAssert(vfEq(b, vfSeg(0x24, v)), "instance segment is the smallest exact logical segment")
	vfAssert(len(b) == CIPInstance(v).Len(), "instance reports its encoded length")
	var c CIPInstance
	err := c.Read(bytes.NewReader(b))
	vfAssert(err == nil && uint32(c) == v, "instance reads back")
	vfObsB("b", b)
}

// VF_C01_attribute: every 16-bit attribute id.
func VF_C01_attribute() {
	v := vfU16("attribute")
	b := CIPAttribute(v).Bytes()
	vfAssert(vfEq(b, vfSeg(0x30, uint32(v))), "attribute segment is the smallest exact logical segment")
	vfAssert(len(b) == CIPAttribute(v).Len(), "attribute reports its encoded length")
	var c CIPAttribute
	err := c.Read(bytes.NewReader(b))
	vfAssert(err == nil && uint16(c) == v, "attribute reads back")
	vfObsB("b", b)
}

// VF_C01_element: every 32-bit element index.
func VF_C01_element() {
	v := vfU32("element")
	b := CIPElement(v).Bytes()
	vfAssert(vfEq(b, vfSeg(0x28, v)), "element segment is the smallest exact logical segment")
	vfAssert(len(b) == CIPElement(v).Len(), "element reports its encoded length")
	vfObsB("b", b)
}

// VF_C01_port: every port number, extension length and link address byte.
func VF_C01_port() {
	p := CIPPort{PortNo: vfU8("port"), ExtensionLen: vfU8("ext")}
	b := p.Bytes()
	if p.ExtensionLen == 0 {
		vfAssert(vfEq(b, []byte{p.PortNo}), "a port with a one-byte link is its number")
	} else {
		vfAssert(vfEq(b, []byte{p.PortNo, p.ExtensionLen}), "a port with an extended link carries the link length")
	}
	vfAssert(len(b) == p.Len(), "port reports its encoded length")
	a := CIPAddress(vfU8("addr"))
	ab := a.Bytes()
	vfAssert(vfEq(ab, []byte{byte(a)}), "a link address is its byte")
	vfAssert(len(ab) == a.Len(), "address reports its encoded length")
}

// VF_C01_truncated: every segment header byte with 0..5 following bytes read as a class, instance and attribute.
func VF_C01_truncated() {
	n := vfPick("n", 7)
	b := vfBytes("b", n)
	need := func(base byte, max int) (int, bool) {
		if n == 0 {
			return 0, false
		}
		for k := 0; k < max; k++ {
			if b[0] == base+byte(k) {
				l := []int{2, 4, 6}[k]
				return l, n >= l
			}
		}
		return 0, false
	}
	val := func(l int) uint32 {
		switch l {
		case 2:
			return uint32(b[1])
		case 4:
			return uint32(b[2]) | uint32(b[3])<<8
		}
		return vfU32le(b[2:])
	}
	var c CIPClass
	err := c.Read(bytes.NewReader(b))
	l, ok := need(0x20, 2)
	vfAssert((err == nil) == ok, "a class segment is read exactly when it is complete")
	if ok {
		vfAssert(uint32(c) == val(l), "class value read")
	}
	var i CIPInstance
	err = i.Read(bytes.NewReader(b))
	l, ok = need(0x24, 3)
	vfAssert((err == nil) == ok, "an instance segment is read exactly when it is complete")
	if ok {
		vfAssert(uint32(i) == val(l), "instance value read")
	}
	var a CIPAttribute
	err = a.Read(bytes.NewReader(b))
	l, ok = need(0x30, 2)
	vfAssert((err == nil) == ok, "an attribute segment is read exactly when it is complete")
	if ok {
		vfAssert(uint32(a) == val(l), "attribute value read")
	}
}

func vfPart(k int) (any, []byte) {
	switch k {
	case 0:
		v := vfU16("pc")
		return CIPClass(v), vfSeg(0x20, uint32(v))
	case 1:
		v := vfU32("pi")
		return CIPInstance(v), vfSeg(0x24, v)
	case 2:
		v := vfU16("pa")
		return CIPAttribute(v), vfSeg(0x30, uint32(v))
	case 3:
		v := vfU32("pe")
		return CIPElement(v), vfSeg(0x28, v)
	case 4:
		v := vfU8("pp")
		return CIPPort{PortNo: v}, []byte{v}
	case 5:
		v := vfU8("pd")
		return CIPAddress(v), []byte{v}
	case 6:
		v := vfBytes("pb", 2)
		return v, v
	}
	v := vfU16("pn")
	return v, vfLe16(v)
}

// VF_C01_concat: Serialize of any two path parts (class, instance, attribute, element, port, address,
// raw bytes, number) of any value (thorough: three parts).
func VF_C01_concat() {
	n := 2
	if vfTier() > 0 {
		n = 3
	}
	var parts []any
	var want []byte
	for i := 0; i < n; i++ {
		p, w := vfPart(vfPick("kind", 8))
		parts = append(parts, p)
		want = append(want, w...)
	}
	buf, err := Serialize(parts...)
	vfAssert(err == nil, "path parts serialize")
	vfAssert(vfEq(buf.Bytes(), want), "serializing several parts concatenates them in order")
	vfObsB("b", buf.Bytes())
}

// VF_C01_builder: the path builder with any class, instance, attribute, element, port, address and slot, in two orders.
func VF_C01_builder() {
	c, i, a, e := vfU16("c"), vfU32("i"), vfU16("a"), vfU32("e")
	p, d, s := vfU8("p"), vfU8("d"), vfU8("s")
	raw := vfBytes("raw", 3)
	sc, si, sa, se := vfSeg(0x20, uint32(c)), vfSeg(0x24, i), vfSeg(0x30, uint32(a)), vfSeg(0x28, e)
	var pb *PathBuilder
	var want []byte
	switch vfPick("order", 3) {
	case 0:
		pb = NewPathBuilder().Port(p).Address(CIPAddress(d)).Class(CIPClass(c)).Instance(CIPInstance(i)).Attribute(CIPAttribute(a))
		want = vfCat([]byte{p, d}, sc, si, sa)
	case 1:
		pb = NewPathBuilder().Symbolic("tag").Element(CIPElement(e)).Class(CIPClass(c)).Custom(raw)
		want = vfCat([]byte{0x91, 3, 't', 'a', 'g', 0}, se, sc, raw)
	case 2:
		pb = NewPathBuilder().Port(p).Slot(s).Attribute(CIPAttribute(a)).Parse("2,7").Instance(CIPInstance(i))
		want = vfCat([]byte{p, s}, sa, []byte{2, 7}, si)
	}
	vfAssert(pb.Err == nil, "builder has no error")
	vfAssert(vfEq(pb.Bytes(), want), "builder concatenates its segments in order")
}
