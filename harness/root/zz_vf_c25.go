package gologix

// vfC25ctl is a controller with one list of symbols, sent in pages.
type vfC25ctl struct {
	c      *Client
	conn   *vfConn
	prefix []byte // path to the list's owner
	pages  [][]vfSym
	page   int
	start  uint32
	named  int // bytes of the request in which letter case is free
	limit  int // of requests, 12 if 0
	other  func(req []byte) []byte
}

func (p *vfC25ctl) respond(cn *vfConn, f []byte) []byte {
	if f[0] != 0x70 {
		return nil
	}
	vfAssert(len(cn.frames) < 12 || len(cn.frames) < p.limit, "a list ends")
	req := vfSentConn(p.c, f)
	var r []byte
	if p.other != nil {
		r = p.other(req)
	}
	if r == nil {
		path := vfCat(p.prefix, []byte{0x20, 0x6B}, vfSeg(0x24, p.start))
		want := vfCat([]byte{0x55, byte(len(path) / 2)}, path, []byte{3, 0, 1, 0, 2, 0, 8, 0})
		if p.named > 0 && len(req) > p.named {
			copy(req[:p.named], vfLower(string(req[:p.named])))
			copy(want[:p.named], vfLower(string(want[:p.named])))
		}
		vfAssert(vfEq(req, want), "a page is asked for after the last instance received")
		vfAssert(p.page < len(p.pages), "nothing is asked for after the last page")
		r = []byte{0xD5, 0, 0, 0}
		for _, s := range p.pages[p.page] {
			r = vfCat(r, s.entry())
			p.start = s.id + 1
		}
		p.page++
		if p.page < len(p.pages) {
			r[2] = 6
		}
	}
	return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, r)))
}

// vfC25sym is a symbol after the instance, of several kinds, with any type word that is no template's and any dimensions.
func vfC25sym(i int, last *uint32, special bool) vfSym {
	s := vfSym{id: vfU32("id"), info: vfBytes("info", 14)}
	vfAssume(s.id > *last && s.id < 0xFFFFFFFF)
	*last = s.id
	ok, _ := vfStruct(vfU16le(s.info))
	vfAssume(!ok)
	first := byte('A' + i)
	k := 0
	if special {
		k = vfPick("kind", 6)
	}
	ch := vfU8("ch")
	vfAssume(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '_')
	switch k {
	case 0:
		s.name = []byte{first, ch}
	case 1:
		s.name = []byte{first}
	case 2:
		s.name = []byte{'_', '_', ch}
	case 3:
		s.name = []byte{first, ':', ch}
	case 4:
		s.name = nil
	case 5:
		s.name = []byte{'_', first, '.'}
	}
	return s
}

// VF_C25_pages: the tags of a controller, of a program by instance (any 16 bit number) or by name, from any instance on, in one
// to two (thorough three) pages of 0 to 2 symbols of five kinds of names, with any instance ids, type words and dimensions.
func VF_C25_pages() {
	c, conn := vfNetClient(nil)
	p := &vfC25ctl{c: c, conn: conn}
	conn.respond = p.respond
	which := vfPick("which", 3)
	start := vfU32("start")
	prefix := ""
	prog := &KnownProgram{Name: "Main"}
	switch which {
	case 0:
		vfAssume(start > 1)
	case 1:
		prog.ID = CIPInstance(vfU16("program"))
		vfAssume(prog.ID != 0)
		p.prefix = vfCat([]byte{0x20, 0x68}, vfSeg(0x24, uint32(prog.ID)))
		prefix = "program:Main."
	case 2:
		p.prefix = vfCat([]byte{0x91, 12}, []byte("Program:Main"))
		p.named = 16
		prefix = "program:Main."
	}
	p.start = start
	if start == 0 {
		p.start = 1
	}
	last := p.start - 1
	var all []vfSym
	npages := 1 + vfPick("pages", 2+vfTier())
	for i := 0; i < npages; i++ {
		n := 1
		if i == npages-1 {
			n = vfPick("last", 2)
		}
		if npages == 1 {
			n = vfPick("one", 3)
		}
		var page []vfSym
		for j := 0; j < n; j++ {
			s := vfC25sym(len(all), &last, len(all) == 0 || vfTier() > 0)
			page = append(page, s)
			all = append(all, s)
		}
		p.pages = append(p.pages, page)
	}
	var kts []KnownTag
	var err error
	if which == 0 {
		err = c.ListAllTags(start)
	} else {
		kts, err = c.ListSubTags(prog, start)
	}
	vfAssert(err == nil && p.page == len(p.pages), "every page is read")
	n := 0
	for _, s := range all {
		if !s.listed() {
			continue
		}
		kt, ok := c.KnownTags[vfLower(prefix+string(s.name))]
		vfAssert(ok, "every tag is listed")
		vfSymCheck(c, prefix, s, kt)
		vfAssert(kt.UDT == nil, "an atomic tag has no structure")
		if which != 0 {
			vfAssert(n < len(kts) && kt.Parent == prog, "every tag is returned")
			vfSymCheck(c, prefix, s, kts[n])
		}
		n++
	}
	vfAssert(len(c.KnownTags) == n && (which == 0 || len(kts) == n), "nothing else is listed")
	vfReach("listed")
}

// VF_C25_bytes: a page of 0 to 21 (thorough 44) any bytes, with name lengths 0 to 2, 20 and 65535, status success or partial, then
// at most one empty last page; the tags of a controller or a program from any instance on.
func VF_C25_bytes() {
	sizes := []int{0, 1, 5, 6, 19, 20, 21, 22, 23, 40, 44}
	n := sizes[vfPick("n", 7+4*vfTier())]
	data := vfBytes("data", n)
	more := vfPick("more", 2) == 1
	start := vfU32("start")
	vfAssume(start > 1)
	var syms []vfSym
	ok, last := true, uint32(0)
	for at := 0; at < n; {
		if at+6 > n {
			ok = false
			break
		}
		l := []int{0, 1, 2, 20, 65535}[vfPick("namelen", 5)]
		data[at+4], data[at+5] = byte(l), byte(l>>8)
		if at+20+l > n {
			ok = false
			break
		}
		s := vfSym{vfU32le(data[at:]), data[at+6 : at+6+l], data[at+6+l : at+20+l]}
		for _, ch := range s.name {
			vfAssume(ch < 0x80)
		}
		// whether the tags of a module whose name starts with Program are listed is not specified
		vfAssume(len(s.name) < 9 || string(s.name[:7]) != "Program" || s.listed())
		is, _ := vfStruct(vfU16le(s.info))
		vfAssume(!is)
		for _, x := range syms {
			vfAssume(vfLower(string(x.name)) != vfLower(string(s.name)))
		}
		syms = append(syms, s)
		last = s.id
		at += 20 + l
	}
	c, conn := vfNetClient(nil)
	sub := vfPick("sub", 2) == 1
	prog := &KnownProgram{Name: "P", ID: 5}
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		r := []byte{0xD5, 0, 0, 0}
		if len(cn.frames) == 1 {
			if more {
				r[2] = 6
			}
			r = vfCat(r, data)
		} else {
			vfAssert(len(cn.frames) == 2 && more && ok, "only a good partial page is continued")
			path := vfCat([]byte{0x20, 0x6B}, vfSeg(0x24, last+1))
			if sub {
				path = vfCat([]byte{0x20, 0x68, 0x24, 5}, path)
			}
			vfAssert(last >= start && vfEq(vfSentConn(c, f), vfCat([]byte{0x55, byte(len(path) / 2)}, path, []byte{3, 0, 1, 0, 2, 0, 8, 0})), "the next page is asked for after the last instance received")
		}
		return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, r)))
	}
	var err error
	prefix := ""
	if sub {
		prefix = "program:P."
		_, err = c.ListSubTags(prog, start)
	} else {
		err = c.ListAllTags(start)
	}
	if !ok || more && last < start {
		vfAssert(err != nil, "a truncated page or one without progress is an error")
		return
	}
	if more && last == 0xFFFFFFFF {
		return
	}
	vfAssert(err == nil, "a good page is no error")
	k := 0
	for _, s := range syms {
		if s.listed() {
			kt, found := c.KnownTags[vfLower(prefix+string(s.name))]
			vfAssert(found, "every tag is listed")
			vfSymCheck(c, prefix, s, kt)
			k++
		}
	}
	vfAssert(len(c.KnownTags) == k, "nothing else is listed")
	vfReach("listed")
}

// VF_C25_frames: a list (tags, program tags, programs) answered by 0 to 6 any bytes of connected data and any encapsulation
// status, or by malformed item lists, or not.
func VF_C25_frames() {
	c, conn := vfNetClient(nil)
	st := vfU32("status")
	var data []byte
	form := vfPick("form", 2)
	n := 0
	if form == 0 {
		n = vfPick("n", 7)
		data = vfBytes("data", n)
		conn.respond = func(cn *vfConn, f []byte) []byte {
			if f[0] != 0x70 {
				return nil
			}
			vfAssert(len(cn.frames) < 3, "a bad page ends the list")
			return vfAnswer(f, st, vfConnBody(7, vfSeqReply(f, data)))
		}
	} else {
		vfCutReply(conn, vfPick("cut", 4), vfBadBody())
	}
	which := vfPick("which", 3)
	var err error
	switch which {
	case 0:
		err = c.ListAllTags(2)
	case 1:
		_, err = c.ListSubTags(&KnownProgram{Name: "P", ID: 5}, 1)
	case 2:
		err = c.ListAllPrograms()
	}
	if form == 0 {
		if st != 0 || n < 4 || data[0] != 0xD5 || data[2] != 0 || n > 4 {
			vfAssert(err != nil, "only a complete success reply is no error")
		} else if data[1] == 0 && data[3] == 0 {
			vfAssert(err == nil, "an empty list is no error")
		}
	}
	vfAssert(len(c.KnownTags) == 0 && len(c.KnownPrograms) == 0, "nothing is invented")
	vfReach("bad")
}

// VF_C25_programs: a controller with 0 to 2 programs of any names of 1 to 2 characters and any instances below 65536, each with a tag, and
// a controller tag; with and without the program list (any error status but partial), the program symbols on the first or second page.
func VF_C25_programs() {
	c, conn := vfNetClient(nil)
	p := &vfC25ctl{c: c, conn: conn, start: 1}
	conn.respond = p.respond
	n := vfPick("n", 3)
	refused := vfPick("refused", 2) == 1
	st := vfU8("st")
	vfAssume(st != 0 && st != 6)
	names := make([]string, n)
	ids := make([]uint16, n)
	tags := make([]vfSym, n)
	asked := make([]int, n)
	list := []byte{0xD5, 0, 0, 0}
	zero := uint32(0)
	for i := range names {
		b := vfBytes("name", 1)
		vfAssume(b[0] >= 'a' && b[0] <= 'z' || b[0] >= '0' && b[0] <= '9')
		names[i] = string(vfCat([]byte{byte('P' + i)}, b[:vfPick("len", 2)]))
		ids[i] = vfU16("program")
		vfAssume(ids[i] != 0)
		for j := 0; j < i; j++ {
			vfAssume(ids[i] != ids[j])
		}
		tags[i] = vfSym{3, []byte{'t', byte('0' + i)}, []byte{0xC4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}
		list = vfCat(list, vfLe16(ids[i]), []byte{0, 0}, vfLe32(uint32(len(names[i]))), []byte(names[i]))
	}
	p.other = func(req []byte) []byte {
		if req[0] == 0x55 && vfEq(req[1:], []byte{2, 0x20, 0x68, 0x24, 0, 1, 0, 28, 0}) {
			if refused {
				return []byte{0xD5, 0, st, 0}
			}
			return list
		}
		for i := range names {
			path := vfCat([]byte{0x20, 0x68}, vfSeg(0x24, uint32(ids[i])))
			if refused {
				path = vfNameSeg([]byte("program:" + names[i]))
				if len(req) > 2+len(path) {
					req = vfCat(req[:2], []byte(vfLower(string(req[2:2+len(path)]))), req[2+len(path):])
				}
				path = []byte(vfLower(string(path)))
			}
			path = vfCat(path, []byte{0x20, 0x6B, 0x24, 1})
			if vfEq(req, vfCat([]byte{0x55, byte(len(path) / 2)}, path, []byte{3, 0, 1, 0, 2, 0, 8, 0})) {
				asked[i]++
				return vfCat([]byte{0xD5, 0, 0, 0}, tags[i].entry())
			}
		}
		return nil
	}
	info := []byte{0xC3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	first := []vfSym{{10, []byte("Tag"), info}}
	var second []vfSym
	split := vfPick("split", 2) == 1
	for i := range names {
		s := vfSym{uint32(20 + i), []byte("Program:" + names[i]), info}
		if split {
			second = append(second, s)
		} else {
			first = append(first, s)
		}
	}
	p.pages = append(p.pages, first)
	if split {
		p.pages = append(p.pages, second)
	}
	_ = zero
	vfAssert(c.ListAllTags(0) == nil, "the tags are listed")
	vfAssert(len(c.KnownPrograms) == n, "the programs are listed")
	for i := range names {
		var kp *KnownProgram
		for _, x := range c.KnownPrograms {
			if x.Name == names[i] {
				kp = x
			}
		}
		vfAssert(kp != nil && (refused || uint16(kp.ID) == ids[i]), "a program has its name and instance")
		vfAssert(asked[i] == 1, "each program's tags are read once")
		kt, ok := c.KnownTags[vfLower("program:"+names[i]+".t")+string([]byte{byte('0' + i)})]
		vfAssert(ok && kt.Parent == kp, "a program's tag is listed")
		vfSymCheck(c, "program:"+names[i]+".", tags[i], kt)
	}
	kt, ok := c.KnownTags["tag"]
	extra := 0
	for i := range names {
		if _, is := c.KnownTags[vfLower("program:"+names[i])]; is && refused {
			extra++ // a program found by its symbol may be listed itself
		}
	}
	vfAssert(ok && len(c.KnownTags) == n+1+extra, "exactly the tags are listed")
	vfSymCheck(c, "", first[0], kt)
	vfReach("programs")
}

// VF_C25_programbytes: a program list of 0 to 10 (thorough 19) any bytes with any name length.
func VF_C25_programbytes() {
	n := []int{0, 1, 7, 8, 9, 10, 16, 18, 19}[vfPick("n", 6+3*vfTier())]
	data := vfBytes("data", n)
	var names []string
	var ids []uint16
	ok := true
	for at := 0; at < n; {
		if at+8 > n {
			ok = false
			break
		}
		l := []uint32{0, 1, 2, 11, 0x10000, 0xFFFFFFFF}[vfPick("namelen", 6)]
		copy(data[at+4:], vfLe32(l))
		if uint64(at+8)+uint64(l) > uint64(n) {
			ok = false
			break
		}
		name := data[at+8 : at+8+int(l)]
		for _, ch := range name {
			vfAssume(ch >= 'A' && ch <= 'Z')
		}
		for _, x := range names {
			vfAssume(x != string(name))
		}
		names = append(names, string(name))
		ids = append(ids, vfU16le(data[at:]))
		at += 8 + int(l)
	}
	c, _ := vfC31like(vfCat([]byte{0xD5, 0, 0, 0}, data))
	err := c.ListAllPrograms()
	if !ok {
		vfAssert(err != nil && len(c.KnownPrograms) == 0, "a truncated program list is an error")
		return
	}
	vfAssert(err == nil && len(c.KnownPrograms) == len(names), "every program is listed")
	for i := range names {
		kp := c.KnownPrograms[names[i]]
		vfAssert(kp != nil && kp.Name == names[i] && uint16(kp.ID) == ids[i], "a program has its name and instance")
	}
	vfReach("programs")
}

// vfC31like is a client whose controller answers every connected request with the data.
func vfC31like(data []byte) (*Client, *vfConn) {
	c, conn := vfNetClient(nil)
	conn.respond = func(cn *vfConn, f []byte) []byte {
		if f[0] != 0x70 {
			return nil
		}
		vfAssert(len(cn.frames) < 12, "a list ends")
		return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, data)))
	}
	return c, conn
}

// VF_C25_struct: a listed tag of any structure type word, whose template is readable or refused with any status.
func VF_C25_struct() {
	c, conn := vfNetClient(nil)
	p := &vfC25ctl{c: c, conn: conn, start: 2}
	conn.respond = p.respond
	info := vfBytes("info", 14)
	is, id := vfStruct(vfU16le(info))
	vfAssume(is)
	st := vfU8("st")
	t := &vfTemplate{id: id, words: 20, size: 4, handle: 9, name: []byte("Ty"), members: []vfMember{{[]byte("m"), 0, 0xC4, 0}}}
	p.other = func(req []byte) []byte {
		r := t.answer(req)
		if r != nil && st != 0 {
			return []byte{r[0], 0, st, 0}
		}
		return r
	}
	s := vfSym{vfU32("id"), []byte("Tag"), info}
	vfAssume(s.id > 1)
	p.pages = [][]vfSym{{s}}
	vfAssert(c.ListAllTags(2) == nil, "the tag is listed")
	kt, ok := c.KnownTags["tag"]
	vfAssert(ok && len(c.KnownTags) == 1, "exactly the tag is listed")
	vfSymCheck(c, "", s, kt)
	if st == 0 {
		vfAssert(kt.UDT != nil, "a structure tag has its description")
		vfTemplateCheck(t, *kt.UDT)
		u, ok := c.KnownTypes["Ty"]
		vfAssert(ok && u.Instance_ID == id, "the type is known")
		vfReach("structure")
	}
}

// VF_C25_long: lists of 12 to 600 tags of a controller or a program, names of 1 to 40 characters, in pages of 1 to 300, with instances that cross 256, 65536 or 2^31, a
// middle symbol of any type word and dimensions.
func VF_C25_long() {
	c, conn := vfNetClient(nil)
	p := &vfC25ctl{c: c, conn: conn, limit: 400}
	conn.respond = p.respond
	shape := vfPick("shape", 5)
	n := []int{12, 150, 600, 150, 300}[shape]
	per := []int{5, 37, 300, 1, 256}[shape]
	id := []uint32{2, 250, 65400, 0x7FFFFFF0, 65100}[shape]
	prog := &KnownProgram{Name: "MainProgramOfTheMachine", ID: 300}
	sub := vfPick("sub", 2) == 1
	prefix := ""
	p.start = id
	if sub {
		p.prefix = vfCat([]byte{0x20, 0x68}, vfSeg(0x24, 300))
		prefix = "program:MainProgramOfTheMachine."
	}
	var all []vfSym
	for i := 0; i < n; i++ {
		s := vfSym{id + uint32(i*3), []byte("t" + vfDigits(i) + vfLongName(i%37)), vfCat([]byte{0xC4, byte(i % 4 << 5), byte(i), byte(i >> 8)}, make([]byte, 10))}
		if i == n/2 {
			s.info = vfBytes("info", 14)
			is, _ := vfStruct(vfU16le(s.info))
			vfAssume(!is)
		}
		if i%per == 0 {
			p.pages = append(p.pages, nil)
		}
		p.pages[len(p.pages)-1] = append(p.pages[len(p.pages)-1], s)
		all = append(all, s)
	}
	var kts []KnownTag
	var err error
	if sub {
		kts, err = c.ListSubTags(prog, id)
	} else {
		err = c.ListAllTags(id)
	}
	vfAssert(err == nil && p.page == len(p.pages), "every page is read")
	for i, s := range all {
		kt, ok := c.KnownTags[vfLower(prefix+string(s.name))]
		vfAssert(ok, "every tag is listed")
		vfSymCheck(c, prefix, s, kt)
		if sub {
			vfAssert(i < len(kts) && kt.Parent == prog, "every tag is returned")
			vfSymCheck(c, prefix, s, kts[i])
		}
	}
	vfAssert(len(c.KnownTags) == n && (!sub || len(kts) == n), "nothing else is listed")
	vfReach("listed")
}
