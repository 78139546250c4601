package gologix

// vfC19row is a connection the table should have.
type vfC19row struct {
	conn *serverConnection
	id   uint16
	ot   uint32
	to   uint32
}

// vfC19agrees checks that the table has exactly the connections of the model.
func vfC19agrees(cm *serverConnectionManager, model []vfC19row, gone []vfC19row) {
	for _, m := range model {
		a, err := cm.GetByID(m.id)
		vfAssert(err == nil && a.ID == m.id && a.OT == m.ot && a.TO == m.to && a.Open, "an open connection is found by its serial number")
		b, err := cm.GetByOT(m.ot)
		vfAssert(err == nil && b == a, "an open connection is found by its originator to target id")
		c, err := cm.GetByTO(m.to)
		vfAssert(err == nil && c == a, "an open connection is found by its target to originator id")
		vfAssert(m.conn == nil || a == m.conn, "the connection found is the one opened")
	}
	for _, m := range gone {
		_, err := cm.GetByID(m.id)
		vfAssert(err != nil, "a closed connection is not found by its serial number")
		_, err = cm.GetByOT(m.ot)
		vfAssert(err != nil, "a closed connection is not found by its originator to target id")
		_, err = cm.GetByTO(m.to)
		vfAssert(err != nil, "a closed connection is not found by its target to originator id")
		vfAssert(m.conn == nil || !m.conn.Open, "a closed connection is not open")
	}
}

// VF_C19_table: one to three connections of any different ids added, then two operations (thorough: three), each a close by serial number, originator to target id or target to originator id of
// any number, or one more connection added; then a lookup of any number each way.
func VF_C19_table() {
	cm := &serverConnectionManager{}
	cm.Init(NewServer(NewRouter()).Logger)
	var model, gone []vfC19row
	add := func(k int) {
		c := &serverConnection{ID: vfU16("id"), OT: vfU32("ot"), TO: vfU32("to"), Path: []byte{1, byte(k)}, Open: true}
		for _, m := range append(append([]vfC19row{}, model...), gone...) {
			vfAssume(m.id != c.ID && m.ot != c.OT && m.to != c.TO)
		}
		cm.Add(c)
		model = append(model, vfC19row{c, c.ID, c.OT, c.TO})
	}
	for k := vfPick("conns", 3); k >= 0; k-- {
		add(k)
	}
	for i := 2 + vfTier(); i > 0; i-- {
		x := vfU32("x")
		hit := -1
		var err error
		op := vfPick("op", 4)
		for k, m := range model {
			if op == 0 && uint32(m.id) == x || op == 1 && m.ot == x || op == 2 && m.to == x {
				hit = k
			}
		}
		switch op {
		case 0:
			vfAssume(x < 0x10000)
			err = cm.CloseByID(uint16(x))
		case 1:
			err = cm.CloseByOT(x)
		case 2:
			err = cm.CloseByTO(x)
		case 3:
			add(3)
			vfC19agrees(cm, model, gone)
			continue
		}
		vfAssert((err == nil) == (hit >= 0), "closing an open connection succeeds, closing an unknown one is an error")
		if hit >= 0 {
			gone = append(gone, model[hit])
			model = append(append([]vfC19row{}, model[:hit]...), model[hit+1:]...)
		}
		vfC19agrees(cm, model, gone)
	}
	x := vfU32("y")
	a, err := cm.GetByOT(x)
	hit := false
	for _, m := range model {
		hit = hit || m.ot == x
	}
	vfAssert((err == nil) == hit && (!hit || a.OT == x), "a lookup by originator to target id finds a connection if and only if it is open")
	a, err = cm.GetByTO(x)
	hit = false
	for _, m := range model {
		hit = hit || m.to == x
	}
	vfAssert((err == nil) == hit && (!hit || a.TO == x), "a lookup by target to originator id finds a connection if and only if it is open")
	vfAssert(len(cm.Connections) == len(model), "the table has no other connections")
	vfReach("done")
}

// VF_C19_wire: opens of one or two (thorough: three) connections, standard and large, with any serial numbers, identities, own ids and proposed ids that may be the same, by way of two paths, in two sessions; each is found
// afterwards by the ids of its reply with its path; then a close of one of them or of any other serial number, and one more open: the others are still there, and a read on each goes to its own provider.
func VF_C19_wire() {
	vfRands = 0
	r := NewRouter()
	ps := []*vfStub{{value: int32(1)}, {value: int32(2)}}
	r.Handle([]byte{1, 0}, ps[0])
	r.Handle([]byte{1, 5}, ps[1])
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	ss := []*vfSrv{vfNewSrv(srv), vfNewSrv(srv)}
	cm := &srv.ConnMgr
	var model, gone []vfC19row
	var paths []int
	vendor, orig := vfU16("vendor"), vfU32("orig")
	open := func() {
		id, ot, to := vfU16("serial"), vfU32("ot"), vfU32("to")
		vfAssume(to != 0 && ot != 0 && ot>>16 != 0x5EED)
		for _, m := range append(append([]vfC19row{}, model...), gone...) {
			vfAssume(m.id != id && m.to != to)
		}
		for _, m := range gone {
			vfAssume(m.ot != ot)
		}
		k := vfPick("path", 2)
		s := ss[len(model)%2]
		large := len(model) == 1
		if len(model) == 0 {
			large = vfPick("large", 2) == 1
		}
		_, st, data := vfUnconnReply(vfOneReply(s, vfUnconnFrame(1, 2, vfOpenReq(large, ot, to, id, vendor, orig, []byte{1, byte(5 * k), 0x20, 2, 0x24, 1}))))
		vfAssert(st == 0 && len(data) == 26 && vfU32le(data[4:]) == to, "an open is answered")
		model = append(model, vfC19row{nil, id, vfU32le(data), to})
		paths = append(paths, k)
	}
	for n := 1 + vfPick("n", 2+vfTier()); n > 0; n-- {
		open()
	}
	vfC19agrees(cm, model, gone)
	id := vfU16("close")
	hit := -1
	for k, m := range model {
		if m.id == id {
			hit = k
		}
	}
	_, st, _ := vfUnconnReply(vfOneReply(ss[0], vfUnconnFrame(1, 2, vfCloseReq(id, vendor, orig, []byte{1, 0}))))
	vfAssert((st == 0) == (hit >= 0), "a close of an open connection succeeds, of an unknown one is an error")
	if hit >= 0 {
		gone = append(gone, model[hit])
		model = append(append([]vfC19row{}, model[:hit]...), model[hit+1:]...)
		paths = append(append([]int{}, paths[:hit]...), paths[hit+1:]...)
	}
	vfC19agrees(cm, model, gone)
	if vfPick("again", 2) == 1 {
		open()
		vfC19agrees(cm, model, gone)
	}
	for i, m := range model {
		c, _ := cm.GetByOT(m.ot)
		vfAssert(len(c.Path) >= 2 && c.Path[0] == 1 && c.Path[1] == byte(5*paths[i]), "a connection has the path it was opened with")
		p := ps[paths[i]]
		n := len(p.reads)
		gid, _, _, st, _ := vfConnReply(vfOneReply(ss[1], vfConnFrame(1, 2, m.ot, vfCat([]byte{1, 0, 0x4C}, vfSrvTagPath("tag", -1), []byte{1, 0}))))
		vfAssert(st == 0 && gid == m.to && len(p.reads) == n+1, "a read on a connection goes to the provider of its path")
	}
	for _, m := range gone {
		n := len(ps[0].reads) + len(ps[1].reads)
		_, _, _, st, _ := vfConnReply(vfOneReply(ss[1], vfConnFrame(1, 2, m.ot, vfCat([]byte{1, 0, 0x4C}, vfSrvTagPath("tag", -1), []byte{1, 0}))))
		vfAssert(st != 0 && len(ps[0].reads)+len(ps[1].reads) == n, "a read on a closed connection is an error")
	}
	vfReach("done")
}

// VF_C19_originators: connections of two different originators (vendor, serial number) with the same connection serial number: a close by one of them closes its own and not the other's.
func VF_C19_originators() {
	vfRands = 0
	s, _ := vfSrvStub()
	id := vfU16("serial")
	v := []uint16{vfU16("v0"), vfU16("v1")}
	o := []uint32{vfU32("o0"), vfU32("o1")}
	vfAssume(v[0] != v[1] || o[0] != o[1])
	var ot []uint32
	for i := range v {
		_, st, data := vfUnconnReply(vfOneReply(s, vfUnconnFrame(1, 2, vfOpenReq(vfPick("large", 2) == 1, 0, uint32(10+i), id, v[i], o[i], []byte{1, 0}))))
		vfAssert(st == 0 && len(data) == 26, "an open is answered")
		ot = append(ot, vfU32le(data))
	}
	k := vfPick("close", 2)
	_, st, _ := vfUnconnReply(vfOneReply(s, vfUnconnFrame(1, 2, vfCloseReq(id, v[k], o[k], []byte{1, 0}))))
	vfAssert(st == 0, "a close of an open connection succeeds")
	_, err := s.srv.ConnMgr.GetByOT(ot[k])
	vfAssert(err != nil, "the connection of the originator is closed")
	c, err := s.srv.ConnMgr.GetByOT(ot[1-k])
	vfAssert(err == nil && c.TO == uint32(11-k) && c.Open, "the connection of the other originator is not")
	vfReach("done")
}

// VF_C19_race: an open, a close, a lookup and another open in four goroutines, every schedule with up to two switches: the table ends with what was opened and not closed, and no lookup finds another connection.
func VF_C19_race() {
	cm := &serverConnectionManager{}
	cm.Init(NewServer(NewRouter()).Logger)
	for k := 0; k < 2; k++ {
		cm.Add(&serverConnection{ID: uint16(k), OT: uint32(10 + k), TO: uint32(20 + k), Path: []byte{1, byte(k)}, Open: true})
	}
	var got *serverConnection
	var gerr, cerr error
	vfSchedule(2)
	vfGo(func() { cm.Add(&serverConnection{ID: 2, OT: 12, TO: 22, Open: true}) })
	vfGo(func() { cerr = cm.CloseByOT(10) })
	vfGo(func() { got, gerr = cm.GetByTO(21) })
	vfGo(func() { cm.Add(&serverConnection{ID: 3, OT: 13, TO: 23, Open: true}) })
	vfJoin()
	vfAssert(cerr == nil, "closing an open connection succeeds")
	vfAssert(gerr == nil && got.ID == 1, "a connection is found while others are opened and closed")
	vfC19agrees(cm, []vfC19row{{nil, 1, 11, 21}, {nil, 2, 12, 22}, {nil, 3, 13, 23}}, []vfC19row{{nil, 0, 10, 20}})
	vfReach("done")
}

// VF_C19_pairs: every two of eleven operations on a table of three connections at once: an add, an open, another open that asks for the same id, the four closes of the first connection, the three lookups of the second, and a look at whether the first is open; every schedule with up to two switches (thorough: three).
func VF_C19_pairs() {
	vfRands = 0
	cm := &serverConnectionManager{}
	cm.Init(NewServer(NewRouter()).Logger)
	first := &serverConnection{ID: 1, OT: 10, TO: 20, VendorID: 5, OriginatorSerialNumber: 6, Path: []byte{1, 0}, Open: true}
	second := &serverConnection{ID: 2, OT: 11, TO: 21, VendorID: 5, OriginatorSerialNumber: 6, Path: []byte{1, 0}, Open: true}
	third := &serverConnection{ID: 3, OT: 12, TO: 22, VendorID: 5, OriginatorSerialNumber: 6, Path: []byte{1, 0}, Open: true}
	cm.Add(first)
	cm.Add(second)
	cm.Add(third)
	added := &serverConnection{ID: 4, OT: 13, TO: 23, Open: true}
	opened := []*serverConnection{{ID: 5, OT: 14, TO: 24, Open: true}, {ID: 6, OT: 14, TO: 25, Open: true}}
	k := []int{vfPick("x", 11), vfPick("y", 11)}
	vfAssume(k[0] <= k[1])
	did := make([]int, 11)
	for _, x := range k {
		did[x]++
	}
	vfAssume(did[0] < 2 && did[1] < 2 && did[2] < 2)
	closed := did[3] + did[4] + did[5] + did[6]
	var errs [2]error
	var found [2]*serverConnection
	run := func(i int) func() {
		switch k[i] {
		case 0:
			return func() { cm.Add(added) }
		case 1, 2:
			return func() { cm.Open(opened[k[i]-1]) }
		case 3:
			return func() { errs[i] = cm.CloseByID(1) }
		case 4:
			return func() { errs[i] = cm.CloseByOT(10) }
		case 5:
			return func() { errs[i] = cm.CloseByTO(20) }
		case 6:
			return func() { errs[i] = cm.CloseByOriginator(1, 5, 6) }
		case 7:
			return func() { found[i], errs[i] = cm.GetByID(2) }
		case 8:
			return func() { found[i], errs[i] = cm.GetByOT(11) }
		case 9:
			return func() { found[i], errs[i] = cm.GetByTO(21) }
		}
		return func() {
			if !cm.isOpen(first) {
				errs[i] = errVfBroken
			}
		}
	}
	f, g := run(0), run(1)
	vfSchedule(2 + vfTier())
	vfGo(f)
	vfGo(g)
	vfJoin()
	ok := 0
	for i, x := range k {
		switch {
		case x >= 3 && x <= 6:
			if errs[i] == nil {
				ok++
			}
		case x == 10:
			vfAssert(errs[i] == nil || closed > 0, "a connection nobody closes is open")
		case x >= 7:
			vfAssert(errs[i] == nil && found[i] == second, "a connection is found while others are opened and closed")
		}
	}
	vfAssert(closed == 0 || ok == 1, "exactly one of the closes of a connection succeeds")
	model := []vfC19row{{second, 2, 11, 21}, {third, 3, 12, 22}}
	var gone []vfC19row
	if closed > 0 {
		gone = []vfC19row{{first, 1, 10, 20}}
	} else {
		model = append(model, vfC19row{first, 1, 10, 20})
	}
	if did[0] > 0 {
		model = append(model, vfC19row{added, 4, 13, 23})
	}
	for i := 1; i < 3; i++ {
		if did[i] > 0 {
			o := opened[i-1]
			vfAssert(o.OT == 14 || did[3-i] > 0 && o.OT != 0, "a connection gets the id it asks for if nobody has it")
			model = append(model, vfC19row{o, uint16(4 + i), o.OT, uint32(23 + i)})
		}
	}
	vfC19agrees(cm, model, gone)
	vfAssert(len(cm.Connections) == len(model), "the table has no other connections")
	vfReach("done")
}

// VF_C19_many: 300 connections; one or two (thorough: three) of those at positions 0, 1, 150, 254 to 257 and 299 are closed in turn, each in one of four ways; then lookups of all
// ids, and of any id around 255.
func VF_C19_many() {
	cm := &serverConnectionManager{}
	cm.Init(NewServer(NewRouter()).Logger)
	closes := 1 + vfPick("closes", 2+vfTier())
	hi := []uint32{0, 0xFFFF0000, 0x80000000}[closes-1]
	model := map[int]*serverConnection{}
	for i := 0; i < 300; i++ {
		c := &serverConnection{ID: uint16(1000 + i*3), OT: hi | uint32(i), TO: hi | uint32(5000+i), VendorID: uint16(i % 7), OriginatorSerialNumber: uint32(i % 11), Path: []byte{1, byte(i)}, Open: true}
		cm.Add(c)
		model[i] = c
	}
	at := []int{0, 1, 150, 254, 255, 256, 257, 299}
	for k := closes; k > 0; k-- {
		i := at[(vfPick("at", 2)*3+k*5)%8]
		c, open := model[i]
		var err error
		switch vfPick("how", 4) {
		case 0:
			err = cm.CloseByID(uint16(1000 + i*3))
		case 1:
			err = cm.CloseByOT(hi | uint32(i))
		case 2:
			err = cm.CloseByTO(hi | uint32(5000+i))
		case 3:
			err = cm.CloseByOriginator(uint16(1000+i*3), uint16(i%7), uint32(i%11))
		}
		vfAssert((err == nil) == open, "closing an open connection succeeds, closing an unknown one is an error")
		if open {
			vfAssert(!c.Open, "a closed connection is not open")
		}
		delete(model, i)
	}
	for i := 0; i < 300; i++ {
		c, open := model[i]
		a, err := cm.GetByOT(hi | uint32(i))
		vfAssert((err == nil) == open && (!open || a == c && c.Open), "exactly an open connection is found by its originator to target id")
		a, err = cm.GetByTO(hi | uint32(5000+i))
		vfAssert((err == nil) == open && (!open || a == c), "exactly an open connection is found by its target to originator id")
		a, err = cm.GetByID(uint16(1000 + i*3))
		vfAssert((err == nil) == open && (!open || a == c), "exactly an open connection is found by its serial number")
	}
	vfAssert(len(cm.Connections) == len(model), "the table has no other connections")
	x := vfU32("x")
	vfAssume(x >= hi|254 && x <= hi|257)
	a, err := cm.GetByOT(x)
	b, err2 := cm.GetByTO(x + 5000)
	for i := 254; i <= 257; i++ {
		if x == hi|uint32(i) {
			c, open := model[i]
			vfAssert((err == nil) == open && (!open || a == c) && (err2 == nil) == open && (!open || b == c), "a lookup of any id finds exactly its connection")
		}
	}
	vfReach("done")
}
