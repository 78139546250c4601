package gologix

import (
	"io"
	"math"
)

// vfTypes are the elementary types with their sizes.
var vfTypes = []struct {
	t    CIPType
	size int
}{{CIPTypeBOOL, 1}, {CIPTypeSINT, 1}, {CIPTypeINT, 2}, {CIPTypeDINT, 4}, {CIPTypeLINT, 8}, {CIPTypeUSINT, 1}, {CIPTypeUINT, 2},
	{CIPTypeUDINT, 4}, {CIPTypeULINT, 8}, {CIPTypeREAL, 4}, {CIPTypeLREAL, 8}, {CIPTypeBYTE, 1}, {CIPTypeWORD, 2}, {CIPTypeDWORD, 4}, {CIPTypeLWORD, 8}}

// vfGoValue tells whether v is the Go value of type t for the little-endian number n.
func vfGoValue(t CIPType, v any, n uint64) bool {
	switch t {
	case CIPTypeBOOL:
		x, ok := v.(bool)
		return ok && x == (n != 0)
	case CIPTypeSINT:
		x, ok := v.(int8)
		return ok && uint8(x) == uint8(n)
	case CIPTypeINT:
		x, ok := v.(int16)
		return ok && uint16(x) == uint16(n)
	case CIPTypeDINT:
		x, ok := v.(int32)
		return ok && uint32(x) == uint32(n)
	case CIPTypeLINT:
		x, ok := v.(int64)
		return ok && uint64(x) == n
	case CIPTypeUSINT, CIPTypeBYTE:
		x, ok := v.(byte)
		return ok && x == byte(n)
	case CIPTypeUINT, CIPTypeWORD:
		x, ok := v.(uint16)
		return ok && x == uint16(n)
	case CIPTypeUDINT, CIPTypeDWORD:
		x, ok := v.(uint32)
		return ok && x == uint32(n)
	case CIPTypeULINT, CIPTypeLWORD:
		x, ok := v.(uint64)
		return ok && x == n
	case CIPTypeREAL:
		x, ok := v.(float32)
		return ok && math.Float32bits(x) == uint32(n)
	case CIPTypeLREAL:
		x, ok := v.(float64)
		return ok && math.Float64bits(x) == n
	}
	return false
}

func vfNum(b []byte) uint64 {
	n := uint64(0)
	for i := len(b) - 1; i >= 0; i-- {
		n = n<<8 | uint64(b[i])
	}
	return n
}

// vfChunks is a reader that hands out its bytes in small pieces.
type vfChunks struct {
	data []byte
	n    int
}

func (r *vfChunks) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}
