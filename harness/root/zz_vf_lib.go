package gologix

// vfSeg is the CIP logical segment with the smallest form that holds v: base is the 8-bit type.
func vfSeg(base byte, v uint32) []byte {
	if v <= 0xFF {
		return []byte{base, byte(v)}
	}
	if v <= 0xFFFF {
		return []byte{base + 1, 0, byte(v), byte(v >> 8)}
	}
	return []byte{base + 2, 0, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

func vfEq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

func vfU16le(b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }
func vfU32le(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}
func vfU64le(b []byte) uint64 { return uint64(vfU32le(b)) | uint64(vfU32le(b[4:]))<<32 }
func vfLe16(v uint16) []byte  { return []byte{byte(v), byte(v >> 8)} }
func vfLe32(v uint32) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}
func vfLe64(v uint64) []byte { return append(vfLe32(uint32(v)), vfLe32(uint32(v>>32))...) }

func vfCat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func vfBit(b bool) byte {
	n := byte(0)
	if b {
		n = 1
	}
	return n
}

func vfLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		d := c
		if c >= 'A' && c <= 'Z' {
			d = c + 32
		}
		b[i] = d
	}
	return string(b)
}
