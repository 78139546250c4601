package gologix

// vfC26conn is a client whose controller has the templates and answers anything else with the error status.
func vfC26conn(limit int, st byte, ts ...*vfTemplate) (*Client, *vfConn) {
	c, conn := vfNetClient(nil)
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		vfAssert(len(cn.frames) <= limit, "a template is read once")
		req := vfSentConn(c, f)
		var r []byte
		for _, t := range ts {
			if r == nil {
				r = t.answer(req)
			}
		}
		if r == nil {
			r = []byte{req[0] | 0x80, 0, st, 0}
		}
		return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, r)))
	}
	return c, conn
}

// vfC26name is a name of n characters from 0x20 on, without semicolons.
func vfC26name(n int) []byte {
	b := vfBytes("name", n)
	for _, ch := range b {
		vfAssume(ch >= 0x20 && ch < 0x7F && ch != ';')
	}
	return b
}

// vfC26template is a template of k members with names of the lengths in turn, any attributes, type words and offsets.
func vfC26template(id uint32, k int, lens []int) *vfTemplate {
	t := &vfTemplate{id: id, words: vfU32("words"), size: vfU32("size"), handle: vfU16("handle")}
	for i := 0; i < k; i++ {
		t.members = append(t.members, vfMember{vfC26name(lens[i%len(lens)]), vfU16("info"), vfU16("type"), vfU32("offset")})
	}
	return t
}

// VF_C26_members: templates of any instance number, 0 to 3 (thorough 4) members with any names of 0 to 2 characters, type words
// of no structure, sizes and offsets, any name of 0 to 2 characters with or without a suffix, in one or two replies.
func VF_C26_members() {
	k := vfPick("k", 4+vfTier())
	id := vfU32("id")
	vfAssume(id > 0)
	t := vfC26template(id, k, [][]int{{1, 2, 0}, {2, 1}, {0}}[vfPick("lens", 3)])
	t.name = vfC26name([]int{2, 0, 1}[vfPick("namelen", 3)])
	switch vfPick("suffix", 3) {
	case 1:
		t.name = vfCat(t.name, []byte{';'})
	case 2:
		t.name = vfCat(t.name, []byte{';'}, vfC26name(2), []byte{';'})
	}
	for _, m := range t.members {
		is, _ := vfStruct(m.typ)
		vfAssume(!is)
	}
	n := len(t.data())
	vfAssume(t.words > 5 && t.words < 16384 && t.words*4-23 >= uint32(n))
	if cut := vfPick("cut", 4); cut > 0 && n > 1 {
		t.cut = 1 + (n-2)*(cut-1)/2
	}
	c, conn := vfC26conn(3, 1, t)
	u, err := c.ListMembers(id)
	vfAssert(err == nil, "a template is described")
	vfTemplateCheck(t, u)
	for i := range u.Members {
		vfAssert(u.Members[i].UDT == nil, "a member that is no structure has no description")
	}
	sent := len(conn.frames)
	u, err = c.ListMembers(id)
	vfAssert(err == nil && len(conn.frames) == sent, "a known template is not read again")
	vfTemplateCheck(t, u)
	vfReach("described")
}

// VF_C26_nested: a template with a member of any structure type, whose template is known, unknown with any status, or the
// same; with an own member of any structure type that may be any of both.
func VF_C26_nested() {
	id := vfU16("id")
	vfAssume(id > 0 && id < 0x1000)
	t := vfC26template(uint32(id), 2, []int{1})
	t.name = []byte("A")
	t.words = 30
	typ := vfU16("member")
	is, inner := vfStruct(typ)
	vfAssume(is)
	t.members[0].typ = 0xC4
	t.members[1].typ = typ
	u := vfC26template(inner, 1, []int{2})
	u.name = []byte("Bb;x")
	u.words = 31
	deep, third := vfStruct(u.members[0].typ)
	st := vfU8("st")
	vfAssume(st != 0 && st != 6)
	known := vfPick("known", 2) == 1
	ts := []*vfTemplate{t}
	if known {
		ts = append(ts, u)
	}
	c, _ := vfC26conn(8, st, ts...)
	d, err := c.ListMembers(uint32(id))
	if inner == uint32(id) || deep && known && (third == uint32(id) || third == inner) {
		// a template within itself: anything but a panic or an endless list
		vfReach("recursive")
		return
	}
	vfAssert(err == nil, "a template is described")
	vfTemplateCheck(t, d)
	vfAssert(d.Members[0].UDT == nil && (d.Members[1].UDT != nil) == known, "exactly the structure member that can be read has a description")
	if known {
		vfTemplateCheck(u, *d.Members[1].UDT)
		vfReach("nested")
	}
}

// VF_C26_attrs: the attributes answered by any 0 to 36 bytes, members by nothing.
func VF_C26_attrs() {
	n := []int{36, 35, 34, 33, 32, 24, 6, 5, 4, 3, 0}[vfPick("n", 11)]
	data := vfBytes("data", n)
	asked := 0
	c, conn := vfNetClient(nil)
	st := vfU32("status")
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		r := data
		if f[46] != 3 {
			asked++
			r = []byte{0xCC, 0, 5, 0}
		}
		return vfAnswer(f, st, vfConnBody(7, vfSeqReply(f, r)))
	}
	a, err := c.GetTemplateInstanceAttr(7)
	good := st == 0 && n >= 34 && data[0] == 0x83 && data[2] == 0
	if good {
		for at, v := range map[int]byte{4: 4, 6: 4, 14: 5, 22: 2, 28: 1} {
			good = good && data[at] == v && data[at+1] == 0
		}
		good = good && data[8]|data[9]|data[16]|data[17]|data[24]|data[25]|data[30]|data[31] == 0
	}
	if !good {
		vfAssert(err != nil, "a failed, truncated or incomplete attribute reply is an error")
	} else if data[1]|data[3] == 0 {
		vfAssert(err == nil && a.SizeWords == vfU32le(data[10:]) && a.SizeBytes == vfU32le(data[18:]) && a.MemberCount == vfU16le(data[26:]) && a.Handle == vfU16le(data[32:]), "the attributes are the reply's")
		vfReach("attributes")
	}
	_, err = c.ListMembers(7)
	vfAssert(err != nil, "a template that cannot be read is an error")
}

// VF_C26_bytes: a template of 0 to 2 members with any 0 to 12 (thorough 21) bytes of definition, any definition size and status.
func VF_C26_bytes() {
	k := vfPick("k", 3)
	n := []int{0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 17, 18, 19, 20, 21}[vfPick("n", 10+5*vfTier())]
	data := vfBytes("data", n)
	st := vfU8("st")
	words := vfU32("words")
	mem := make([]vfMember, k)
	at := 8 * k
	for i := 0; i < k && 8*i+8 <= n; i++ {
		mem[i] = vfMember{nil, vfU16le(data[8*i:]), vfU16le(data[8*i+2:]), vfU32le(data[8*i+4:])}
		is, _ := vfStruct(mem[i].typ)
		vfAssume(!is)
	}
	names, ends := 0, at
	for i := at; i < n; i++ {
		if data[i] == 0 {
			names++
			ends = i + 1
		}
	}
	t := &vfTemplate{id: 7, words: words, members: mem}
	c, conn := vfNetClient(nil)
	base := 0 // messages before the last request for the attributes
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		if f[46] == 3 {
			base = len(cn.frames) - 1
		}
		vfAssert(len(cn.frames)-base <= 4, "a bad template ends the list")
		r := vfCat([]byte{0xCC, 0, st, 0}, data)
		if f[46] == 3 {
			r = vfCat([]byte{0x83, 0, 0, 0}, t.attrs())
		} else if len(cn.frames)-base > 2 {
			r = []byte{0xCC, 0, 5, 0}
		}
		return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, r)))
	}
	u, err := c.ListMembers(7)
	if err != nil {
		_, again := c.ListMembers(7)
		vfAssert(again != nil, "a failed or truncated template is an error when asked for again")
		vfReach("again")
	}
	if st != 0 || at > n || names == 0 || names < k {
		vfAssert(err != nil, "a failed or truncated template is an error")
		return
	}
	if words > 5 && words < 16384 && names > k {
		vfAssert(err == nil, "a complete template is described")
	}
	if err != nil {
		return
	}
	vfAssert(len(u.Members) == k, "the description has every member")
	i := at
	for ; data[i] != 0; i++ {
	}
	t.name = data[at:i]
	i++
	for j := range mem {
		b := i
		for ; i < n && data[i] != 0; i++ {
		}
		mem[j].name = data[b:i]
		i++
	}
	_ = ends
	vfTemplateCheck(t, u)
	vfReach("described")
}

// VF_C26_frames: malformed item lists, cut or missing replies to either request.
func VF_C26_frames() {
	c, conn := vfNetClient(nil)
	cut := vfPick("cut", 4)
	vfCutReply(conn, cut, vfBadBody())
	bad := conn.respond
	if vfPick("second", 2) == 1 {
		conn.refuse = false
		t := &vfTemplate{id: 7, words: 20, name: []byte("A")}
		conn.respond = func(cn *vfConn, f []byte) []byte {
			if f[0] == 0x70 && f[46] == 3 {
				conn.refuse = cut == 3
				return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, t.answer(vfSentConn(c, f)))))
			}
			return bad(cn, f)
		}
	}
	_, err := c.ListMembers(7)
	vfAssert(err != nil, "a malformed reply is an error")
	vfReach("bad")
}

// VF_C26_large: templates of 9, 130 or 300 (thorough: also 1500) members with names of 1 to 40 characters, three of them with any type word, size and offset, in replies of 60, 480 or
// 4000 bytes.
func VF_C26_large() {
	n := []int{9, 130, 300, 1500}[vfPick("n", 3+vfTier())]
	id := []uint32{7, 0xFFF, 0x12345}[vfPick("id", 3)]
	t := &vfTemplate{id: id, size: vfU32("size"), handle: vfU16("handle"), name: []byte(vfLongName(40) + ";n")}
	for i := 0; i < n; i++ {
		m := vfMember{[]byte("m" + vfDigits(i) + vfLongName(i*5%36)), uint16(i), 0xC4, uint32(i * 4)}
		if i == 1 || i == n/2 || i == n-1 {
			m.info, m.typ, m.offset = vfU16("info"), vfU16("type"), vfU32("offset")
			is, _ := vfStruct(m.typ)
			vfAssume(!is)
		}
		t.members = append(t.members, m)
	}
	d := len(t.data())
	t.words = uint32((d + 23 + 3) / 4)
	t.chunk = []int{60, 480, 4000}[vfPick("chunk", 3)]
	vfAssume(d/t.chunk < 60)
	c, conn := vfC26conn(400, 1, t)
	u, err := c.ListMembers(id)
	vfAssert(err == nil, "a template is described")
	vfTemplateCheck(t, u)
	vfAssert(len(conn.frames) == 1+(d+t.chunk-1)/t.chunk, "a template is read once")
	vfReach("described")
}

// VF_C26_deep: structures nested four to six deep (thorough: to 12), each with a member before and after, two of the same type among them, any sizes and offsets; every level has its description.
func VF_C26_deep() {
	depth := 4 + vfPick("depth", 3) + 6*vfTier()
	var ts []*vfTemplate
	for i := 0; i < depth; i++ {
		t := &vfTemplate{id: uint32(100 + i), words: 60, size: uint32(40 + i), handle: vfU16("handle"), name: []byte{'T', byte('a' + i)}}
		t.members = []vfMember{{[]byte("first"), vfU16("info"), 0xC4, vfU32("offset")}}
		if i+1 < depth {
			t.members = append(t.members, vfMember{[]byte("inner"), vfU16("info"), 0x8000 | uint16(101+i), vfU32("offset")})
			if i+2 == depth {
				t.members = append(t.members, vfMember{[]byte("again"), 3, 0xA000 | uint16(101+i), 8})
			}
		}
		t.members = append(t.members, vfMember{[]byte("last"), 2, 0xC3, vfU32("offset")})
		ts = append(ts, t)
	}
	c, conn := vfC26conn(2*depth+2, 1, ts...)
	u, err := c.ListMembers(100)
	vfAssert(err == nil, "a template is described")
	x := &u
	for i, t := range ts {
		vfTemplateCheck(t, *x)
		if i+1 == depth {
			break
		}
		for j := range t.members {
			is, _ := vfStruct(t.members[j].typ)
			vfAssert((x.Members[j].UDT != nil) == is, "exactly a structure member has a description")
			if is {
				vfTemplateCheck(ts[i+1], *x.Members[j].UDT)
			}
		}
		x = x.Members[1].UDT
	}
	vfAssert(len(conn.frames) == 2*depth, "each template is read once")
	vfReach("deep")
}
