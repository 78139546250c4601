package gologix

import (
	"io"
	"math"
)

// vfTyped does one typed read of kind k; the value is returned as raw bits with its size.
func vfTyped(item *CIPItem, k int) (v uint64, size int, err error) {
	switch k {
	case 0:
		x, e := item.Byte()
		return uint64(x), 1, e
	case 1:
		x, e := item.Uint16()
		return uint64(x), 2, e
	case 2:
		x, e := item.Int16()
		return uint64(uint16(x)), 2, e
	case 3:
		x, e := item.Uint32()
		return uint64(x), 4, e
	case 4:
		x, e := item.Int32()
		return uint64(uint32(x)), 4, e
	case 5:
		x, e := item.Uint64()
		return x, 8, e
	case 6:
		x, e := item.Int64()
		return uint64(x), 8, e
	case 7:
		x, e := item.Float32()
		return uint64(math.Float32bits(x)), 4, e
	case 8:
		x, e := item.Float64()
		return math.Float64bits(x), 8, e
	case 9:
		var x uint16
		e := item.DeSerialize(&x)
		return uint64(x), 2, e
	case 10:
		var x int32
		e := item.DeSerialize(&x)
		return uint64(uint32(x)), 4, e
	case 11:
		var x struct {
			A byte
			B uint16
		}
		e := item.DeSerialize(&x)
		return uint64(x.A) | uint64(x.B)<<8, 3, e
	default:
		x := make([]byte, 3)
		e := item.DeSerialize(&x)
		return uint64(x[0]) | uint64(x[1])<<8 | uint64(x[2])<<16, 3, e
	}
}

// VF_C06_reads: three typed reads in any order (thorough: four), of any of 13 kinds, from an item of 0 to 12 bytes:
// each returns the next bytes little-endian, advances by its size, and fails at the end without a value.
func VF_C06_reads() {
	n := vfPick("n", 13)
	d := vfBytes("d", n)
	item := newItem(cipItem_Null, d)
	vfAssert(int(item.Header.Length) == n, "the header has the data length")
	steps := 3
	if vfTier() > 0 {
		steps = 4
	}
	pos := 0
	for i := 0; i < steps; i++ {
		vfAssert(vfEq(item.Rest(), d[pos:]), "the rest is what was not read yet")
		v, size, err := vfTyped(&item, vfPick("kind", 13))
		if pos+size > n {
			vfAssert(err != nil, "a read past the end is an error")
			vfAssert(item.Pos <= n, "a failed read does not leave the data")
			vfAssert(size == 3 || v == 0, "a failed read gives no value")
			vfAssert(len(item.Rest()) <= n, "what is left can still be looked at")
			return
		}
		vfAssert(err == nil, "a read within the data succeeds")
		want := uint64(0)
		for j := size - 1; j >= 0; j-- {
			want = want<<8 | uint64(d[pos+j])
		}
		vfAssert(v == want, "a read returns the next bytes little-endian")
		pos += size
		vfAssert(item.Pos == pos, "a read advances by its size")
	}
}

// VF_C06_reader: the io.Reader side over 0 to 6 bytes with buffers of 0 to 4 bytes: the bytes in order, then io.EOF.
func VF_C06_reader() {
	n := vfPick("n", 7)
	d := vfBytes("d", n)
	item := newItem(cipItem_Null, d)
	pos := 0
	for i := 0; i < 3; i++ {
		p := make([]byte, 1+vfPick("p", 4))
		k, err := item.Read(p)
		want := len(p)
		if n-pos < want {
			want = n - pos
		}
		vfAssert(k == want, "reads as much as there is")
		if want == 0 {
			vfAssert(err == io.EOF, "the end is io.EOF")
		} else {
			vfAssert(err == nil && vfEq(p[:k], d[pos:pos+k]), "the bytes in order")
		}
		pos += k
	}
	item.Reset()
	vfAssert(vfEq(item.Rest(), d), "reset starts over")
}

// vfAppended is one value of kind k, with the bytes it must add to an item.
func vfAppended(k int) (any, []byte) {
	switch k {
	case 0:
		x := vfU8("u8")
		return x, []byte{x}
	case 1:
		x := int16(vfU16("i16"))
		return x, vfLe16(uint16(x))
	case 2:
		x := vfU32("u32")
		return x, vfLe32(x)
	case 3:
		x := vfU64("i64")
		return int64(x), vfLe64(x)
	case 4:
		x := vfU32("f32")
		return math.Float32frombits(x), vfLe32(math.Float32bits(math.Float32frombits(x)))
	case 5:
		x := vfBool("bool")
		if x {
			return x, []byte{1}
		}
		return x, []byte{0}
	case 6:
		x := vfBytes("bytes", 3)
		return x, x
	case 7:
		a, b := vfU16("a"), vfU8("b")
		return struct {
			A uint16
			B uint8
			C [2]int16
		}{a, b, [2]int16{int16(a), 7}}, vfCat(vfLe16(a), []byte{b}, vfLe16(a), []byte{7, 0})
	case 8:
		x := vfU16("class")
		return CIPClass(x), vfSeg(0x20, uint32(x))
	case 9:
		x := vfU32("e")
		return CIPElement(x), vfSeg(0x28, x)
	case 10:
		x, y := vfU32("s0"), vfU32("s1")
		return []int32{int32(x), int32(y)}, vfCat(vfLe32(x), vfLe32(y))
	default:
		s := vfStr("s", vfPick("slen", 4))
		b := make([]byte, 88)
		b[0] = byte(len(s))
		copy(b[4:], s)
		return s, b
	}
}

// VF_C06_serialize: two values (thorough: three) of any of 12 kinds serialized in one or separate calls: each is appended
// unchanged, the header length follows, and reading starts from the first byte.
func VF_C06_serialize() {
	item := newItem(cipItem_ConnectedData, nil)
	n := 2
	if vfTier() > 0 {
		n = 3
	}
	var vals []any
	var want []byte
	for i := 0; i < n; i++ {
		v, b := vfAppended(vfPick("kind", 12))
		vals = append(vals, v)
		want = append(want, b...)
	}
	if vfBool("together") {
		vfAssert(item.Serialize(vals...) == nil, "serializes")
	} else {
		for _, v := range vals {
			vfAssert(item.Serialize(v) == nil, "serializes")
		}
	}
	vfAssert(vfEq(item.Data, want), "every value is appended unchanged")
	vfAssert(int(item.Header.Length) == len(want), "the header length follows the data")
	back := make([]byte, len(want))
	vfAssert(item.DeSerialize(&back) == nil && vfEq(back, want), "and can be read back")
	b, err := item.Bytes()
	vfAssert(err == nil && vfEq(b, vfCat([]byte{0xB1, 0}, vfLe16(uint16(len(want))), want)), "the item's bytes are its id, length and data")
	w, err := Serialize(vals...)
	// the package level function packs the same values the same way, except that strings have their own layout there
	plain := true
	for _, v := range vals {
		if _, ok := v.(string); ok {
			plain = false
		}
	}
	if plain {
		vfAssert(err == nil && vfEq(w.Bytes(), want), "Serialize gives the same bytes")
	}
}

// VF_C06_mixed: an item of 0, 1, 3 or 5 bytes (from newItem, received, or with its data set directly), read from by one typed read
// or not, then appended to once (thorough: or twice): what was there stays, the header length and the framed bytes are those of all the
// data, and reading goes on where it was, or from the start after a reset.
func VF_C06_mixed() {
	n := []int{0, 1, 3, 5}[vfPick("n", 4)]
	d := vfBytes("d", n)
	var item CIPItem
	switch vfPick("from", 3) {
	case 0:
		item = newItem(cipItem_ConnectedData, d)
	case 1:
		w := vfCat([]byte{1, 0, 0xB1, 0}, vfLe16(uint16(n)), d)
		items, err := readItems(&vfChunks{w, 1000})
		vfAssert(err == nil && len(items) == 1, "the item is received")
		item = items[0]
	default:
		item = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}, Data: vfCat(d)}
	}
	pos := 0
	if n > 0 && vfBool("read") {
		_, size, err := vfTyped(&item, []int{0, 1, 12}[vfPick("kind", 3)])
		if err != nil {
			return
		}
		pos = size
	}
	want := vfCat(d)
	more := 1
	if vfTier() > 0 {
		more += vfPick("more", 2)
	}
	for i := 0; i < more; i++ {
		v, b := vfAppended([]int{0, 1, 2, 6, 7, 11}[vfPick("kind", 6)])
		vfAssert(item.Serialize(v) == nil, "serializes")
		want = append(want, b...)
	}
	vfAssert(vfEq(item.Data, want), "what is appended follows what was there")
	vfAssert(int(item.Header.Length) == len(want), "the header length is that of all the data")
	vfAssert(vfEq(item.Rest(), want[pos:]), "reading goes on where it was")
	b, err := serializeItems([]CIPItem{item})
	vfAssert(err == nil && vfEq((*b)[6:], vfCat([]byte{1, 0, 0xB1, 0}, vfLe16(uint16(len(want))), want)), "the framed item is its id, length and all its data")
	item.Reset()
	vfAssert(vfEq(item.Rest(), want), "reset starts over")
}
