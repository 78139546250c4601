package gologix

// vfSym is a symbol instance of the controller.
type vfSym struct {
	id   uint32
	name []byte
	info []byte // type word and three dimensions
}

func (s vfSym) entry() []byte {
	return vfCat(vfLe32(s.id), vfLe16(uint16(len(s.name))), s.name, s.info)
}

// listed tells whether a list has the symbol: not unnamed, not a system one, not a module's.
func (s vfSym) listed() bool {
	if len(s.name) == 0 || len(s.name) >= 2 && s.name[0] == '_' && s.name[1] == '_' {
		return false
	}
	for i := range s.name {
		if s.name[i] == ':' {
			return false
		}
	}
	return true
}

// vfSymName is the key and name check of a listed symbol.
func vfSymCheck(c *Client, prefix string, s vfSym, kt KnownTag) {
	vfAssert(kt.Name == prefix+string(s.name) && uint32(kt.Instance) == s.id, "a listed tag has its name and instance")
	vfAssert(byte(kt.Info.Type) == s.info[0] && kt.Info.TypeInfo == s.info[1], "a listed tag has its type word")
	d := [3]uint32{vfU32le(s.info[2:]), vfU32le(s.info[6:]), vfU32le(s.info[10:])}
	vfAssert(kt.Info.Dimension1 == d[0] && kt.Info.Dimension2 == d[1] && kt.Info.Dimension3 == d[2], "a listed tag has its dimensions")
	n := 0
	for i := range d {
		if d[i] != 0 {
			n = i + 1
		}
	}
	vfAssert(len(kt.Array_Order) == n, "a listed tag has its array order")
	for i := range kt.Array_Order {
		vfAssert(kt.Array_Order[i] == int(d[i]), "a listed tag has its array order")
	}
}

// vfTemplate is a template instance of the controller.
type vfTemplate struct {
	id          uint32
	words, size uint32
	handle      uint16
	name        []byte // with anything that follows it
	members     []vfMember
	cut         int // data bytes in the first reply, 0 for all
	chunk       int // data bytes in each reply, 0 for all
	asked       int
}

type vfMember struct {
	name      []byte
	info, typ uint16
	offset    uint32
}

func (t *vfTemplate) attrs() []byte {
	return vfCat([]byte{4, 0, 4, 0, 0, 0}, vfLe32(t.words), []byte{5, 0, 0, 0}, vfLe32(t.size), []byte{2, 0, 0, 0}, vfLe16(uint16(len(t.members))), []byte{1, 0, 0, 0}, vfLe16(t.handle))
}

func (t *vfTemplate) data() []byte {
	var d, names []byte
	for _, m := range t.members {
		d = vfCat(d, vfLe16(m.info), vfLe16(m.typ), vfLe32(m.offset))
		names = vfCat(names, m.name, []byte{0})
	}
	return vfCat(d, t.name, []byte{0}, names)
}

// path is the request path of the template.
func (t *vfTemplate) path() []byte { return vfCat([]byte{0x20, 0x6C}, vfSeg(0x24, t.id)) }

// answer is the reply data after the sequence number to a request for the template, nil to any other.
func (t *vfTemplate) answer(req []byte) []byte {
	p := t.path()
	if len(req) < 2+len(p) || int(req[1]) != len(p)/2 || !vfEq(req[2:2+len(p)], p) {
		return nil
	}
	rest := req[2+len(p):]
	switch req[0] {
	case 3:
		vfAssert(vfEq(rest, []byte{4, 0, 4, 0, 5, 0, 2, 0, 1, 0}), "the four template attributes are asked for")
		return vfCat([]byte{0x83, 0, 0, 0}, t.attrs())
	case 0x4C:
		vfAssert(len(rest) == 6, "a template read has an offset and a length")
		d := t.data()
		off := vfU32le(rest)
		if t.chunk > 0 {
			vfAssert(int(off) == t.asked && rest[4]|rest[5] != 0, "the rest of a template is asked for at its offset")
			to := t.asked + t.chunk
			if to >= len(d) {
				to = len(d)
			}
			from := t.asked
			t.asked = to
			if to < len(d) {
				return vfCat([]byte{0xCC, 0, 6, 0}, d[from:to])
			}
			return vfCat([]byte{0xCC, 0, 0, 0}, d[from:to])
		}
		if off == 0 {
			vfAssert(uint32(vfU16le(rest[4:])) == t.words*4-23, "the whole template is asked for")
			if t.cut > 0 {
				return vfCat([]byte{0xCC, 0, 6, 0}, d[:t.cut])
			}
			return vfCat([]byte{0xCC, 0, 0, 0}, d)
		}
		vfAssert(t.cut > 0 && int(off) == t.cut && rest[4]|rest[5] != 0, "the rest of a template is asked for at its offset")
		return vfCat([]byte{0xCC, 0, 0, 0}, d[t.cut:])
	}
	return nil
}

// vfTemplateCheck checks the description of the template.
func vfTemplateCheck(t *vfTemplate, u UDTDescriptor) {
	name := t.name
	for i := range name {
		if name[i] == ';' {
			name = name[:i]
			break
		}
	}
	vfAssert(u.Name == string(name) && u.Instance_ID == t.id, "the description has the template's name and instance")
	vfAssert(u.Info.SizeWords == t.words && u.Info.SizeBytes == t.size && u.Info.Handle == t.handle && int(u.Info.MemberCount) == len(t.members), "the description has the template's attributes")
	vfAssert(len(u.Members) == len(t.members), "the description has every member")
	for i, m := range t.members {
		x := u.Members[i]
		vfAssert(x.Name == string(m.name) && x.Info.Info == m.info && x.Info.Type == m.typ && x.Info.Offset == m.offset, "a member has its name, type, size and offset")
	}
}

// vfStruct tells whether a type word is that of a template, and its instance.
func vfStruct(typ uint16) (bool, uint32) {
	return typ&0x9000 == 0x8000 && typ&0xFFF != 0, uint32(typ & 0xFFF)
}
