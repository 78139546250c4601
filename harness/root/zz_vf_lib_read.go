package gologix

import (
	"math"
	"reflect"
)

// vfReadKinds are the Go types a read fills, with their sizes.
const vfReadKinds = 11

func vfReadPtr(kind int) (any, int) {
	switch kind {
	case 0:
		return new(bool), 1
	case 1:
		return new(int8), 1
	case 2:
		return new(int16), 2
	case 3:
		return new(int32), 4
	case 4:
		return new(int64), 8
	case 5:
		return new(uint8), 1
	case 6:
		return new(uint16), 2
	case 7:
		return new(uint32), 4
	case 8:
		return new(uint64), 8
	case 9:
		return new(float32), 4
	}
	return new(float64), 8
}

func vfReadSlice(kind, n int) any {
	p, _ := vfReadPtr(kind)
	return reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(p).Elem()), n, n).Interface()
}

// vfKindOf tells whether wire type t is read as Go kind k.
func vfKindOf(t byte, k int) bool {
	switch k {
	case 0:
		return t == 0xC1
	case 1:
		return t == 0xC2
	case 2:
		return t == 0xC3
	case 3:
		return t == 0xC4
	case 4:
		return t == 0xC5
	case 5:
		return t == 0xC6 || t == 0xD1
	case 6:
		return t == 0xC7 || t == 0xD2
	case 7:
		return t == 0xC8 || t == 0xD3
	case 8:
		return t == 0xC9 || t == 0xD4
	case 9:
		return t == 0xCA
	}
	return t == 0xCB
}

// vfHolds tells whether the Go value has the bits of the little-endian bytes.
func vfHolds(v any, b []byte) bool {
	n := vfNum(b)
	switch v := v.(type) {
	case bool:
		return v == (n != 0)
	case int8:
		return uint8(v) == uint8(n)
	case int16:
		return uint16(v) == uint16(n)
	case int32:
		return uint32(v) == uint32(n)
	case int64:
		return uint64(v) == n
	case uint8:
		return v == uint8(n)
	case uint16:
		return v == uint16(n)
	case uint32:
		return v == uint32(n)
	case uint64:
		return v == n
	case float32:
		return math.Float32bits(v) == uint32(n)
	case float64:
		return math.Float64bits(v) == n
	}
	return false
}

func vfDeref(p any) any { return reflect.ValueOf(p).Elem().Interface() }

// vfReadReq checks the one read request of a client.
func vfReadReq(c *Client, conn *vfConn, path []byte, elements uint16) {
	vfAssert(len(conn.frames) >= 1, "a request is sent")
	req := vfSentConn(c, conn.frames[0])
	vfAssert(vfEq(req, vfCat([]byte{0x4C, byte(len(path) / 2)}, path, vfLe16(elements))), "one read request names the tag and its element count")
}

type vfUdt struct {
	A int32
	B int16
	C int16
	D [2]float32
	E uint64
}

const vfUdtsize = 24

func vfUdtsame(v vfUdt, b []byte) bool {
	return uint32(v.A) == vfU32le(b) && uint16(v.B) == vfU16le(b[4:]) && uint16(v.C) == vfU16le(b[6:]) &&
		math.Float32bits(v.D[0]) == vfU32le(b[8:]) && math.Float32bits(v.D[1]) == vfU32le(b[12:]) && v.E == vfU64le(b[16:])
}

// vfGoOf is the Go value of a kind with the bits of the little-endian bytes.
func vfGoOf(kind int, b []byte) any {
	n := vfNum(b)
	switch kind {
	case 0:
		return n != 0
	case 1:
		return int8(n)
	case 2:
		return int16(n)
	case 3:
		return int32(n)
	case 4:
		return int64(n)
	case 5:
		return uint8(n)
	case 6:
		return uint16(n)
	case 7:
		return uint32(n)
	case 8:
		return n
	case 9:
		return math.Float32frombits(uint32(n))
	}
	return math.Float64frombits(n)
}

// vfWriteType is the type code a Go kind is written as.
func vfWriteType(kind int) byte {
	return []byte{0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xD1, 0xC7, 0xC8, 0xD4, 0xCA, 0xCB}[kind]
}

// vfUdtof is the structure its bytes hold.
func vfUdtof(b []byte) vfUdt {
	return vfUdt{A: int32(vfU32le(b)), B: int16(vfU16le(b[4:])), C: int16(vfU16le(b[6:])),
		D: [2]float32{math.Float32frombits(vfU32le(b[8:])), math.Float32frombits(vfU32le(b[12:]))}, E: vfU64le(b[16:])}
}

// vfCrc16 is the CRC-16/ARC of a text.
func vfCrc16(s string) uint16 {
	crc := uint16(0)
	for i := 0; i < len(s); i++ {
		crc ^= uint16(s[i])
		for k := 0; k < 8; k++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0xA001
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

// vfLongPath is a path of one to four parts of 20, 33, 64 or 80 characters, with an index or none, and its wire form; one
// character of the last part is any letter.
func vfLongPath() (string, []byte) {
	parts := 1 + vfPick("parts", 4)
	long := []int{20, 33, 64, 80}[vfPick("long", 4)]
	x := vfU8("x")
	vfAssume(x >= 'a' && x <= 'z')
	var name, path []byte
	for i := 0; i < parts; i++ {
		p := make([]byte, long)
		for j := range p {
			p[j] = byte('a' + (i*5+j)%26)
		}
		if i == parts-1 {
			p[long-1] = x
		}
		if i > 0 {
			name = append(name, '.')
		}
		name = append(name, p...)
		path = append(path, vfNameSeg(p)...)
	}
	if vfBool("index") {
		name = append(name, "[300]"...)
		path = append(path, 0x29, 0, 0x2C, 1)
	}
	return string(name), path
}

// vfC12name is the n-th of many names of a length.
func vfC12name(n, l int) string {
	b := make([]byte, l)
	for i := range b {
		b[i] = byte('A' + (n+i)%26)
	}
	b[l-1], b[l-2], b[l-3] = byte('0'+n%10), byte('0'+n/10%10), byte('0'+n/100)
	return string(b)
}
