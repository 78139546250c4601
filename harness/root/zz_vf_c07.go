package gologix

import "math"

// VF_C07_decode: every elementary type, every bit pattern, with 0 to 2 bytes following.
func VF_C07_decode() {
	ty := vfTypes[vfPick("type", len(vfTypes))]
	d := vfBytes("d", ty.size)
	item := newItem(cipItem_Null, append(append([]byte(nil), d...), vfBytes("more", vfPick("more", 3))...))
	v, err := readValue(ty.t, &item)
	vfAssert(err == nil, "a whole value decodes")
	vfAssert(vfGoValue(ty.t, v, vfNum(d)), "the value is the number the bytes denote, in the type's Go type")
	vfAssert(item.Pos == ty.size, "exactly the value's bytes are taken")
	vfAssert(ty.t.Size() == ty.size, "the type knows its size")
}

// VF_C07_string: the string structure keeps its 86 bytes in order.
func VF_C07_string() {
	d := vfBytes("d", 86)
	item := newItem(cipItem_Null, d)
	v, err := readValue(CIPTypeSTRING, &item)
	x, ok := v.([86]byte)
	vfAssert(err == nil && ok, "a string decodes to its bytes")
	vfAssert(vfEq(x[:], d), "the string's bytes in order")
}

// VF_C07_short: too few bytes for any type, and every type code that is not an elementary type: an error.
func VF_C07_short() {
	if vfBool("known") {
		ty := vfTypes[vfPick("type", len(vfTypes))]
		item := newItem(cipItem_Null, vfBytes("d", vfPick("n", ty.size)))
		_, err := readValue(ty.t, &item)
		vfAssert(err != nil, "too few bytes is an error")
		return
	}
	t := CIPType(vfU8("code"))
	for _, ty := range vfTypes {
		vfAssume(t != ty.t)
	}
	vfAssume(t != CIPTypeSTRING)
	item := newItem(cipItem_Null, make([]byte, 100))
	_, err := readValue(t, &item)
	vfAssert(err != nil, "a type that cannot be decoded is an error")
}

// VF_C07_bit: any bit number from -2 to 130 of any value of every elementary type, and of a non-elementary type code.
func VF_C07_bit() {
	k := vfPick("type", len(vfTypes)+1)
	pos := vfInt("pos", -2, 130)
	if k == len(vfTypes) {
		t := CIPType(vfU8("code"))
		for _, ty := range vfTypes {
			vfAssume(t != ty.t)
		}
		_, err := getBit(t, vfU32("v"), pos)
		vfAssert(err != nil, "no bits of other types")
		return
	}
	ty := vfTypes[k]
	d := vfBytes("d", ty.size)
	item := newItem(cipItem_Null, d)
	v, err := readValue(ty.t, &item)
	vfAssert(err == nil, "decodes")
	bit, err := getBit(ty.t, v, pos)
	switch ty.t {
	case CIPTypeREAL, CIPTypeLREAL:
		vfAssert(err != nil, "a float has no bits")
	case CIPTypeBOOL:
		if pos == 0 {
			vfAssert(err == nil && bit == (d[0] != 0), "bit 0 of a BOOL is its value")
		} else {
			vfAssert(err != nil, "a BOOL has only bit 0")
		}
	default:
		if pos < 0 || pos >= 8*ty.size {
			vfAssert(err != nil, "a bit outside the type is an error")
		} else {
			vfAssert(err == nil && bit == (vfNum(d)>>uint(pos)&1 == 1), "the bit is exactly that bit")
		}
	}
}

// VF_C07_bittype: a bit of a value that is not of the stated type is an error, never a bit.
func VF_C07_bittype() {
	ty := vfTypes[vfPick("type", len(vfTypes))]
	var v any
	switch vfPick("v", 3) {
	case 0:
		v = "text"
	case 1:
		v = float32(1)
	case 2:
		v = nil
	}
	_, err := getBit(ty.t, v, int(vfU8("pos")%64))
	vfAssert(err != nil, "a value of another type has no bit of this type")
}

// VF_C07_gotype: the type code chosen for a Go value decodes that value's bytes back to the same Go value, for every
// scalar Go type and for slices of them (element count 0 to 3).
func VF_C07_gotype() {
	n := vfPick("n", 4)
	u := vfU64("u")
	var scalar, slice any
	size := 0
	switch vfPick("kind", 11) {
	case 0:
		scalar, size = u&1 == 1, 1
		u &= 1
	case 1:
		scalar, slice, size = byte(u), make([]byte, n), 1
	case 2:
		scalar, slice, size = int8(u), make([]int8, n), 1
	case 3:
		scalar, slice, size = uint16(u), make([]uint16, n), 2
	case 4:
		scalar, slice, size = int16(u), make([]int16, n), 2
	case 5:
		scalar, slice, size = uint32(u), make([]uint32, n), 4
	case 6:
		scalar, slice, size = int32(u), make([]int32, n), 4
	case 7:
		scalar, slice, size = u, make([]uint64, n), 8
	case 8:
		scalar, slice, size = int64(u), make([]int64, n), 8
	case 9:
		scalar, slice, size = math.Float32frombits(uint32(u)), make([]float32, n), 4
	case 10:
		scalar, slice, size = math.Float64frombits(u), make([]float64, n), 8
	}
	t, k := GoVarToCIPType(scalar)
	vfAssert(k == 1 && t.Size() == size, "a scalar is one element of its size")
	item := newItem(cipItem_Null, scalar)
	v, err := readValue(t, &item)
	vfAssert(err == nil && vfGoValue(t, v, u), "a value sent with its type code decodes to itself")
	vfAssert(item.Pos == size && len(item.Data) == size, "and takes its size")
	if slice != nil {
		t2, k2 := GoVarToCIPType(slice)
		vfAssert(t2 == t && k2 == n, "a slice is its elements' type, as many times")
	}
}
