package gologix

import "reflect"

// vfFrag scripts a controller that answers a read in pieces.
type vfFrag struct {
	typ    byte
	pieces [][]byte // the data of each reply
	stat   []byte   // its status
	eip    []uint32 // its encapsulation status
	short  []int    // how many bytes of the reply data are missing
	asked  int
}

func (s *vfFrag) respond(c *Client, path []byte, elements uint16) func(cn *vfConn, f []byte) []byte {
	got := 0
	return func(cn *vfConn, f []byte) []byte {
		i := s.asked
		if f[0] != 0x70 {
			return nil // the client gives up
		}
		s.asked++
		req := vfSentConn(c, f)
		if i == 0 {
			vfAssert(vfEq(req, vfCat([]byte{0x4C, byte(len(path) / 2)}, path, vfLe16(elements))), "the first request is a read of the tag")
		} else {
			vfAssert(vfEq(req, vfCat([]byte{0x52, byte(len(path) / 2)}, path, vfLe16(elements), vfLe32(uint32(got)))),
				"every further request asks for the byte after the last one received")
		}
		if i >= len(s.pieces) {
			return nil
		}
		got += len(s.pieces[i])
		d := vfSeqReply(f, vfCat([]byte{0xCC, 0, s.stat[i], 0, s.typ, 0}, s.pieces[i]))
		return vfAnswer(f, s.eip[i], vfConnBody(1, d[:len(d)-s.short[i]]))
	}
}

// vfFragRun reads elements elements of a type in up to max pieces of the given sizes.
func vfFragRun(typed bool, kind, max int, sizes []int, faults bool) {
	p, size := vfReadPtr(kind)
	typ := []byte{0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xC6, 0xC7, 0xC8, 0xC9, 0xCA, 0xCB}[kind]
	_ = p
	k := 1 + vfPick("pieces", max)
	s := &vfFrag{typ: typ}
	var all []byte
	good := true
	used := 0
	for i := 0; i < k; i++ {
		d := vfBytes("piece", sizes[vfPick("size", len(sizes))])
		st, short, eip := byte(6), 0, uint32(0)
		if i == k-1 {
			st = 0
		}
		if faults {
			st = []byte{0, 6, 5}[vfPick("status", 3)]
			if st == 5 {
				st = vfU8("code")
				vfAssume(st != 0 && st != 6)
			}
			short = []int{0, 1, len(d) + 1}[vfPick("short", 3)]
			if short > 0 {
				vfAssume(short <= len(d) || short == len(d)+1)
			}
			eip = vfU32("eip")
		}
		s.pieces, s.stat, s.eip, s.short = append(s.pieces, d), append(s.stat, st), append(s.eip, eip), append(s.short, short)
		if good && used == 0 {
			if short > len(d) || eip != 0 || st != 0 && st != 6 || st == 6 && i > 0 && len(d)-short == 0 {
				good = false
			} else {
				all = append(all, d[:len(d)-short]...)
				s.pieces[i], s.short[i] = d[:len(d)-short], 0
				if st == 0 {
					used = i + 1
				}
			}
		}
	}
	if used == 0 {
		good = false
	}
	elements := 2
	c, conn := vfNetClient(nil)
	conn.respond = s.respond(c, vfNameSeg([]byte("Tag")), uint16(elements))
	var vs []any
	var err error
	if typed {
		sl := vfReadSlice(kind, elements)
		err = c.Read("Tag", sl)
		for i := 0; i < elements; i++ {
			vs = append(vs, reflect.ValueOf(sl).Index(i).Interface())
		}
	} else {
		var v any
		v, err = c.Read_single("Tag", CIPTypeUnknown, uint16(elements))
		if err == nil {
			vs = v.([]any)
		}
	}
	good = good && len(all) >= elements*size
	vfAssert((err == nil) == good, "exactly a transfer whose every piece succeeded and that is complete is a success")
	if err != nil {
		return
	}
	vfAssert(s.asked == used, "nothing is asked for after the last piece")
	ok := len(vs) == elements
	for i := 0; ok && i < elements; i++ {
		ok = ok && vfHolds(vs[i], all[i*size:(i+1)*size])
	}
	vfAssert(ok, "the values are the pieces in order")
	vfReach("value")
}

// VF_C11_pieces: two elements of 2, 4 or 8 bytes arriving in 1 to 4 pieces of 0 to 5, 7 or 8 bytes, every byte.
func VF_C11_pieces() {
	vfFragRun(vfPick("typed", 2) == 1, []int{2, 3, 8}[vfPick("kind", 3)], 4, []int{1, 4, 5, 8, 0, 3, 2, 7}[:5+3*vfTier()], false)
}

// VF_C11_faults: as pieces, 1 to 3 pieces, with any status at every piece, any encapsulation status and replies cut
// inside the data or the header.
func VF_C11_faults() {
	vfFragRun(true, 2, 2+vfTier(), []int{2, 4, 1}, true)
}

// VF_C11_endless: a controller that never sends any data and never finishes is an error; a connection that ends too.
func VF_C11_endless() {
	st := vfU8("status")
	n := vfPick("answers", 3)
	c, conn := vfNetClient(nil)
	d := vfBytes("data", 4)
	asked := 0
	conn.respond = func(cn *vfConn, f []byte) []byte {
		asked++
		if n == 2 {
			vfAssert(asked < 20, "the client does not ask forever")
		} else if asked > n+1 {
			return nil
		}
		if asked == 1 {
			return vfAnswer(f, 0, vfConnBody(1, vfSeqReply(f, vfCat([]byte{0xCC, 0, 6, 0, 0xC4, 0}, d))))
		}
		return vfAnswer(f, 0, vfConnBody(1, vfSeqReply(f, []byte{0xD2, 0, st, 0, 0xC4, 0})))
	}
	vfAssert(c.Read("Tag", make([]int32, 3)) != nil, "an incomplete transfer is an error")
}

// VF_C11_struct: a structure read in pieces is either refused or exact.
func VF_C11_struct() {
	d := vfBytes("data", 26)
	cut := vfPick("cut", 27)
	c, conn := vfNetClient(nil)
	asked := 0
	conn.respond = func(cn *vfConn, f []byte) []byte {
		asked++
		if asked == 1 {
			return vfAnswer(f, 0, vfConnBody(1, vfSeqReply(f, vfCat([]byte{0xCC, 0, 6, 0, 0xA0, 2}, d[:cut]))))
		}
		if asked > 2 {
			return nil
		}
		if cut < 2 {
			return vfAnswer(f, 0, vfConnBody(1, vfSeqReply(f, vfCat([]byte{0xD2, 0, 0, 0, 0xA0, 2}, d[cut:]))))
		}
		return vfAnswer(f, 0, vfConnBody(1, vfSeqReply(f, vfCat([]byte{0xD2, 0, 0, 0, 0xA0, 2}, d[:2], d[cut:]))))
	}
	var v vfUdt
	err := c.Read("Tag", &v)
	vfAssert(err != nil || vfUdtsame(v, d[2:]), "a structure read in pieces is the structure sent")
}

// VF_C11_large: any element count; three to five pieces of 30000, 65000 or 9 bytes (so that the offset passes 65535 and, in
// thorough runs, 131072), then an error or the end of the connection: every request
// has the count and the right offset, and the read is an error.
func VF_C11_large() {
	k := vfU16("elements")
	vfAssume(k > 1)
	c, conn := vfNetClient(nil)
	sizes := []int{30000, 65000, 9}
	n := 3 + vfTier()
	end := vfPick("end", 2)
	got, asked := 0, 0
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		path := vfNameSeg([]byte("Tag"))
		req := vfSentConn(c, f)
		if asked == 0 {
			vfAssert(vfEq(req, vfCat([]byte{0x4C, byte(len(path) / 2)}, path, vfLe16(k))), "the first request is a read of the tag")
		} else {
			vfAssert(vfEq(req, vfCat([]byte{0x52, byte(len(path) / 2)}, path, vfLe16(k), vfLe32(uint32(got)))), "every further request asks for the byte after the last one received")
		}
		asked++
		if asked <= n {
			l := sizes[vfPick("size", 3)]
			got += l
			return vfAnswer(f, 0, vfConnBody(1, vfSeqReply(f, vfCat([]byte{0xCC, 0, 6, 0, 0xCA, 0}, make([]byte, l)))))
		}
		vfAssert(asked == n+1, "nothing is asked for after the end")
		if end == 0 {
			return nil
		}
		return vfAnswer(f, 0, vfConnBody(1, vfSeqReply(f, []byte{0xD2, 0, 5, 0})))
	}
	_, err := c.Read_single("Tag", CIPTypeREAL, k)
	vfAssert(err != nil, "an incomplete transfer is an error")
	vfAssert(asked == n+1, "every piece is asked for")
}

// VF_C11_long: 8300 (thorough: 18000) 64-bit elements in three (five) pieces, with any values around the places where the
// pieces meet: offsets pass 65535 (131072).
func VF_C11_long() {
	k, sizes := 8300, []int{30001, 35600, 799}
	if vfTier() > 0 {
		k, sizes = 18000, []int{65000, 535, 65400, 10001, 3064}
	}
	all := make([]byte, 8*k)
	for i := range all {
		all[i] = byte(i*3 + i/256)
	}
	pos := 0
	for _, l := range sizes {
		copy(all[pos:], vfBytes("first", 2))
		pos += l
		copy(all[pos-2:pos], vfBytes("last", 2))
	}
	c, conn := vfNetClient(nil)
	got, asked := 0, 0
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if asked >= len(sizes) {
			return nil
		}
		req := vfSentConn(c, f)
		if asked > 0 {
			vfAssert(req[0] == 0x52 && int(vfU32le(req[len(req)-4:])) == got, "every further request asks for the byte after the last one received")
		}
		st := byte(6)
		if asked == len(sizes)-1 {
			st = 0
		}
		d := all[got : got+sizes[asked]]
		got += sizes[asked]
		asked++
		return vfAnswer(f, 0, vfConnBody(1, vfSeqReply(f, vfCat([]byte{0xCC, 0, st, 0, 0xC5, 0}, d))))
	}
	s := make([]int64, k)
	vfAssert(c.Read("Tag", s) == nil, "a complete transfer is a success")
	ok := true
	for i := range s {
		ok = ok && uint64(s[i]) == vfU64le(all[8*i:])
	}
	vfAssert(ok, "the values are the pieces in order")
}
