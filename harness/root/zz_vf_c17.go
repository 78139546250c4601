package gologix

// VF_C17_command: each command but the messages, any unsupported one with a body of 0, 1 or 6 any bytes, for any session, context, status and options; two of them in one chunk.
func VF_C17_command() {
	s, _ := vfSrvStub()
	session, context := vfU32("session"), vfU64("context")
	cmd, body := vfU16("cmd"), []byte{}
	switch vfPick("what", 6) {
	case 0:
		cmd, body = 0x65, []byte{1, 0, 0, 0}
	case 1:
		cmd = 4
	case 2:
		cmd = 0x63
	case 3:
		vfAssume(cmd != 0 && cmd != 4 && cmd != 0x63 && cmd != 0x65 && cmd != 0x66 && cmd != 0x6F && cmd != 0x70)
		body = vfBytes("body", []int{0, 1, 6}[vfPick("n", 3)])
	case 4: // no reply, and nothing else changes
		cmd, body = 0, vfBytes("body", []int{0, 1, 6}[vfPick("n", 3)])
		out, alive := s.feed(vfEip(cmd, session, 0, context, body))
		vfAssert(alive && len(out) == 0, "a NOP is not answered")
		cmd, body = 4, nil
	case 5: // ends the session
		out, alive := s.feed(vfEip(0x66, session, 0, context, nil))
		vfAssert(!alive && len(out) == 0 && s.conn.closed > 0, "an unregister ends the session without a reply")
		return
	}
	req := vfEip(cmd, session, vfU32("status"), context, body)
	copy(req[20:24], vfBytes("options", 4))
	if cmd == 0x65 && session == 0 {
		out, _ := s.feed(req)
		r := vfReplies(out)
		vfAssert(len(r) == 1 && r[0].cmd == 0x65 && r[0].context == context && r[0].status == 0, "a registration is answered")
		vfAssert(r[0].session != 0, "a session gets a handle")
		vfAssert(vfEq(r[0].body, body), "a registration is confirmed as it was asked for")
		return
	}
	r := vfOneReply(s, req)
	switch cmd {
	case 0x65:
		vfAssert(r.status == 0 && vfEq(r.body, body), "a registration is confirmed as it was asked for")
	case 4, 0x63:
		vfAssert(r.status == 0, "a list request succeeds")
		vfAssert(len(r.body) > 6 && vfU16le(r.body) == 1 && int(vfU16le(r.body[4:])) == len(r.body)-6, "a list reply has one item of its length")
	default:
		vfAssert(r.status != 0, "an unknown command is answered with an error")
	}
	// one after another in the same chunk
	out, alive := s.feed(vfCat(vfEip(4, session+1, 0, context+1, nil), req))
	rs := vfReplies(out)
	vfAssert(alive && len(rs) == 2, "each of two requests gets its reply")
	vfAssert(rs[0].session == session+1 && rs[0].context == context+1 && rs[0].cmd == 4, "the first reply is to the first request")
	vfAssert(rs[1].session == session && rs[1].context == context && rs[1].cmd == cmd, "the second reply is to the second request")
	vfReach("done")
}

// vfC17path is the path of a request: a tag, or a class, an instance and maybe an attribute of any number.
func vfC17path() []byte {
	switch vfPick("path", 3) {
	case 0:
		return vfSrvTagPath("tag", -1)
	case 1:
		return []byte{2, 0x20, vfU8("class"), 0x24, vfU8("inst")}
	}
	return []byte{3, 0x20, vfU8("class"), 0x24, vfU8("inst"), 0x30, vfU8("attr")}
}

// VF_C17_unconnected: any service but opens and closes with a tag path or any class, instance and attribute and 0, 4 or 8 any bytes of data, directly and in an unconnected send by
// way of a known and an unknown route; the provider answers or refuses.
func VF_C17_unconnected() {
	s, p := vfSrvStub()
	p.value, p.refuse = int32(vfU32("value")), vfPick("refuse", 2) == 1
	svc := vfU8("svc")
	vfAssume(svc < 0x80 && svc != 0x52 && svc != 0x54 && svc != 0x5B && svc != 0x4E)
	req := vfCat([]byte{svc}, vfC17path())
	switch vfPick("n", 3) {
	case 1:
		req = vfCat(req, vfBytes("data", 2), []byte{1, 0})
	case 2:
		req = vfCat(req, []byte{0xC4, 0, 1, 0}, vfBytes("data", 4))
	}
	switch vfPick("via", 3) {
	case 1:
		req = vfSendReq(req, []byte{1, 0})
	case 2:
		req = vfSendReq(req, []byte{1, vfU8("slot")})
	}
	got, _, _ := vfUnconnReply(vfOneReply(s, vfUnconnFrame(vfU32("session"), vfU64("context"), req)))
	vfAssert(got == svc|0x80, "a reply has the service of its request")
	vfReach("done")
}

// VF_C17_connected: any service with a tag path or any class, instance and attribute and 0, 4 or 8 any bytes of data on one of two open connections of any ids, any sequence number; the
// provider answers or refuses; a request on any other connection id is answered with an error.
func VF_C17_connected() {
	s, p := vfSrvStub()
	p.value, p.refuse = int32(vfU32("value")), vfPick("refuse", 2) == 1
	ot, to := []uint32{vfU32("ot0"), vfU32("ot1")}, []uint32{vfU32("to0"), vfU32("to1")}
	vfAssume(ot[0] != ot[1] && to[0] != to[1])
	for i := range ot {
		s.srv.ConnMgr.Add(&serverConnection{ID: uint16(i), OT: ot[i], TO: to[i], Path: []byte{1, byte(i)}, Open: true})
	}
	svc := vfU8("svc")
	vfAssume(svc < 0x80)
	req := vfCat([]byte{svc}, vfC17path())
	switch vfPick("n", 3) {
	case 1:
		req = vfCat(req, vfBytes("data", 2), []byte{1, 0})
	case 2:
		req = vfCat(req, []byte{0xC4, 0, 1, 0}, vfBytes("data", 4))
	}
	seq := vfU16("seq")
	k := vfPick("conn", 3)
	id := vfU32("other")
	if k < 2 {
		id = ot[k]
	} else {
		vfAssume(id != ot[0] && id != ot[1])
	}
	gid, gseq, got, status, _ := vfConnReply(vfOneReply(s, vfConnFrame(vfU32("session"), vfU64("context"), id, vfCat(vfLe16(seq), req))))
	vfAssert(gseq == seq, "a reply has the sequence number of its request")
	vfAssert(got == svc|0x80, "a reply has the service of its request")
	if k < 2 {
		vfAssert(gid == to[k], "a reply is sent on the connection of its request")
	} else {
		vfAssert(status != 0 && len(p.reads)+len(p.writes) == 0, "a request on an unknown connection is an error")
	}
	vfReach("done")
}

// VF_C17_multi: multiple service packets of one to three any services with tag paths, the provider answering or refusing.
func VF_C17_multi() {
	s, p := vfSrvStub()
	p.value, p.refuse = int32(vfU32("value")), vfPick("refuse", 2) == 1
	ot, to, seq := vfU32("ot"), vfU32("to"), vfU16("seq")
	s.srv.ConnMgr.Add(&serverConnection{ID: 1, OT: ot, TO: to, Path: []byte{1, 0}, Open: true})
	var reqs [][]byte
	for i := 1 + vfPick("n", 3); i > 0; i-- {
		svc := vfU8("svc")
		vfAssume(svc < 0x80)
		r := vfCat([]byte{svc}, vfSrvTagPath("tag", -1), [][]byte{{1, 0}, {0xC4, 0, 1, 0, 1, 2, 3, 4}}[vfPick("data", 2)])
		reqs = append(reqs, r)
	}
	gid, gseq, got, _, data := vfConnReply(vfOneReply(s, vfConnFrame(vfU32("session"), vfU64("context"), ot, vfCat(vfLe16(seq), vfMultiReq(reqs...)))))
	vfAssert(gid == to && gseq == seq && got == 0x8A, "a reply has the connection, sequence number and service of its request")
	rs := vfMultiReply(data)
	vfAssert(len(rs) == len(reqs), "each service of a packet gets a reply")
	for i := range rs {
		vfAssert(rs[i][0] == reqs[i][0]|0x80, "each reply has the service it is to, in order")
	}
	vfReach("done")
}

// VF_C17_open: forward opens, standard and large, and closes with any identity, ids, session and context: one reply each with the identity of the request, then a read on
// the connection that was opened carries its ids; closing it again is one reply too.
func VF_C17_open() {
	s, p := vfSrvStub()
	p.value = int32(5)
	to, serial, vendor, orig := vfU32("to"), vfU16("serial"), vfU16("vendor"), vfU32("orig")
	vfAssume(to != 0)
	large := vfPick("large", 2) == 1
	path := []byte{1, 0, 0x20, 2, 0x24, 1}
	got, status, data := vfUnconnReply(vfOneReply(s, vfUnconnFrame(vfU32("session"), vfU64("context"), vfOpenReq(large, vfU32("ot"), to, serial, vendor, orig, path))))
	svc := byte(0xD4)
	if large {
		svc = 0xDB
	}
	vfAssert(got == svc && status == 0 && len(data) == 26, "an open is answered")
	vfAssert(vfU32le(data) != 0 && vfU32le(data[4:]) == to, "an open has a connection id for each direction, the originator's own to it")
	vfAssert(vfU16le(data[8:]) == serial && vfU16le(data[10:]) == vendor && vfU32le(data[12:]) == orig, "an open has the identity of its request")
	vfAssert(vfU32le(data[16:]) == 1000000 && vfU32le(data[20:]) == 2000000, "an open confirms the intervals")
	seq := vfU16("seq")
	gid, gseq, got, status, _ := vfConnReply(vfOneReply(s, vfConnFrame(vfU32("session2"), vfU64("context2"), vfU32le(data), vfCat(vfLe16(seq), []byte{0x4C}, vfSrvTagPath("tag", -1), []byte{1, 0}))))
	vfAssert(gid == to && gseq == seq && got == 0xCC && status == 0, "a read on the connection is answered on it")
	got, status, data = vfUnconnReply(vfOneReply(s, vfUnconnFrame(vfU32("session3"), vfU64("context3"), vfCloseReq(serial, vendor, orig, path))))
	vfAssert(got == 0xCE && status == 0, "a close is answered")
	vfAssert(len(data) == 10 && vfU16le(data) == serial && vfU16le(data[2:]) == vendor && vfU32le(data[4:]) == orig, "a close has the identity of its request")
	got, status, _ = vfUnconnReply(vfOneReply(s, vfUnconnFrame(vfU32("session4"), vfU64("context4"), vfCloseReq(serial, vendor, orig, path))))
	vfAssert(got == 0xCE && status != 0, "a close of what is not open is answered with an error")
	vfReach("done")
}

// VF_C17_sessions: two sessions of any handles with a connection each, requests in any order of three, on the session's own or the other one's connection.
func VF_C17_sessions() {
	a, p := vfSrvStub()
	p.value = int32(5)
	b := vfNewSrv(a.srv)
	ss := []*vfSrv{a, b}
	ids := []uint32{vfU32("s0"), vfU32("s1")}
	var ot, to []uint32
	for i, s := range ss {
		t := uint32(100 + i)
		_, st, data := vfUnconnReply(vfOneReply(s, vfUnconnFrame(ids[i], uint64(i), vfOpenReq(true, 0, t, uint16(i), 1, 2, []byte{1, 0, 0x20, 2, 0x24, 1}))))
		vfAssert(st == 0 && len(data) == 26, "an open is answered")
		ot, to = append(ot, vfU32le(data)), append(to, t)
	}
	vfAssert(ot[0] != ot[1], "each connection has an id of its own")
	for i := 0; i < 3; i++ {
		k, c := vfPick("session", 2), vfPick("conn", 2)
		seq, ctx := vfU16("seq"), vfU64("context")
		other := len(ss[1-k].conn.out)
		gid, gseq, got, st, _ := vfConnReply(vfOneReply(ss[k], vfConnFrame(ids[k], ctx, ot[c], vfCat(vfLe16(seq), []byte{0x4C}, vfSrvTagPath("tag", -1), []byte{1, 0}))))
		vfAssert(gid == to[c] && gseq == seq && got == 0xCC && st == 0, "a reply is sent on the connection of its request")
		vfAssert(len(ss[1-k].conn.out) == other, "nothing is sent on another session")
	}
	vfReach("done")
}
