package gologix

// vfPlcTag is a tag of the scripted controller: its type code as sent (two bytes, or four for a structure), the size of
// an element, its elements' bytes and the status every request for it gets.
type vfPlcTag struct {
	path   []byte
	typ    []byte
	size   int
	data   []byte
	status byte
	wrote  [][]byte // what each write request carried after the path
	asked  int
}

// vfPlc answers connected read, write and multiple service requests.
type vfPlc struct {
	c     *Client
	tags  []*vfPlcTag
	order []int // the tags asked for, in order
	limit int   // the longest connected message seen
	multi int   // number of multiple service requests
	eip   uint32
}

func vfPlcClient(tags ...*vfPlcTag) (*Client, *vfPlc, *vfConn) {
	p := &vfPlc{tags: tags}
	c, conn := vfNetClient(nil)
	p.c = c
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		req := vfSentConn(c, f)
		if len(req)+2 > p.limit {
			p.limit = len(req) + 2
		}
		return vfAnswer(f, p.eip, vfConnBody(7, vfSeqReply(f, p.serve(req))))
	}
	return c, p, conn
}

func (p *vfPlc) find(path []byte) int {
	for i, t := range p.tags {
		if vfEq(t.path, path) {
			return i
		}
	}
	return -1
}

// serve answers one request.
func (p *vfPlc) serve(req []byte) []byte {
	vfAssert(len(req) >= 4, "a request has a service, a path and a count")
	n := 2 + 2*int(req[1])
	vfAssert(len(req) >= n+2, "a request holds its path")
	if req[0] == 0x0A {
		return p.many(req)
	}
	i := p.find(req[2:n])
	vfAssert(i >= 0, "every request names one of the tags")
	t := p.tags[i]
	p.order = append(p.order, i)
	t.asked++
	head := []byte{req[0] | 0x80, 0, t.status, 0}
	switch req[0] {
	case 0x4C:
		vfAssert(len(req) == n+2, "a read request ends with its element count")
		if t.status != 0 {
			return head
		}
		l := t.size * int(vfConc(uint64(vfU16le(req[n:]))))
		vfAssert(l <= len(t.data), "no more elements are read than asked for")
		return vfCat(head, t.typ, t.data[:l])
	case 0x4D:
		t.wrote = append(t.wrote, req[n:])
		return head
	}
	vfAssert(false, "only reads and writes are sent")
	return nil
}

// many answers a multiple service request after checking its count and offsets.
func (p *vfPlc) many(req []byte) []byte {
	p.multi++
	vfAssert(len(req) >= 8 && vfEq(req[:6], []byte{0x0A, 2, 0x20, 2, 0x24, 1}), "a multiple service request goes to the message router")
	body := req[6:]
	k := int(vfConc(uint64(vfU16le(body))))
	vfAssert(k > 0 && len(body) >= 2+2*k, "a multiple service request has its count and offsets")
	off := []int{}
	for i := 0; i < k; i++ {
		off = append(off, int(vfConc(uint64(vfU16le(body[2+2*i:])))))
	}
	off = append(off, len(body))
	vfAssert(off[0] == 2+2*k, "the first service follows the offsets")
	var rs []byte
	offs := []byte{}
	status := byte(0)
	for i := 0; i < k; i++ {
		vfAssert(off[i] < off[i+1] && off[i+1] <= len(body), "offsets are in order inside the message")
		r := p.serve(body[off[i]:off[i+1]])
		offs = append(offs, vfLe16(uint16(2+2*k+len(rs)))...)
		rs = append(rs, r...)
		st := r[2]
		e := byte(0)
		if st != 0 {
			e = 0x1E
		}
		status |= e
	}
	return vfCat([]byte{0x8A, 0, status, 0}, vfLe16(uint16(k)), offs, rs)
}

// vfPlcString is a STRING tag holding s.
func vfPlcString(name string, s []byte) *vfPlcTag {
	d := append(vfLe32(uint32(len(s))), make([]byte, 84)...)
	copy(d[4:], s)
	return &vfPlcTag{path: vfNameSeg([]byte(name)), typ: []byte{0xA0, 2, 0xCE, 0x0F}, size: 88, data: d}
}

// vfPlcScalar is a tag of n elements of an elementary type with any value.
func vfPlcScalar(name string, t byte, size, n int) *vfPlcTag {
	return &vfPlcTag{path: vfNameSeg([]byte(name)), typ: []byte{t, 0}, size: size, data: vfBytes(name, size*n)}
}
