package gologix

// VF_C04_numbers: one to four port,link pairs (thorough: five) of one to three digits each, every digit.
func VF_C04_numbers() {
	n := 4
	if vfTier() > 0 {
		n = 5
	}
	n = 2 * (1 + vfPick("pairs", n))
	w := 1 + vfPick("w", 3)
	var text, want []byte
	ok := true
	for i := 0; i < n; i++ {
		if i > 0 {
			text = append(text, ',')
		}
		wi := w
		if i == 0 {
			wi = 1 + vfPick("w0", 3)
		}
		d, v := vfDec(wi)
		text = append(text, d...)
		want = append(want, byte(v))
		ok = ok && v <= 255
	}
	vfRoute(text, want, ok)
}

func vfRoute(text, want []byte, ok bool) {
	b, err := ParsePath(string(text))
	if !ok {
		vfAssert(err != nil, "a number that does not fit a byte is rejected")
		return
	}
	vfAssert(err == nil, "a well-formed route path is accepted")
	vfAssert(vfEq(b.Bytes(), want), "the route path is every port and link in order")
	vfObsB("path", b.Bytes())
}

// vfAddr is an address text of n characters: digits and dots, at least one dot.
func vfAddr(n int) []byte {
	a := vfBytes("addr", n)
	dot := false
	for _, c := range a {
		vfAssume(c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'f')
		dot = dot || c == '.'
	}
	vfAssume(dot)
	return a
}

func vfAddrSeg(port byte, a []byte) []byte {
	r := append([]byte{port | 0x10, byte(len(a))}, a...)
	if len(a)%2 == 1 {
		r = append(r, 0)
	}
	return r
}

// VF_C04_address: an address link of 1 to 9 characters (thorough: 15) on any port 1 to 14, before, between or after
// number pairs and next to another address link.
func VF_C04_address() {
	n := 9
	if vfTier() > 0 {
		n = 15
	}
	pd, pv := vfDec(1 + vfPick("pw", 2))
	vfAssume(pv >= 1 && pv <= 14)
	a := vfAddr(1 + vfPick("n", n))
	text := vfCat(pd, []byte(","), a)
	want := vfAddrSeg(byte(pv), a)
	d, v := vfDec(2)
	switch vfPick("where", 4) {
	case 1:
		text, want = vfCat([]byte("1,"), d, []byte(","), text), vfCat([]byte{1, byte(v)}, want)
	case 2:
		text, want = vfCat(text, []byte(",3,"), d), vfCat(want, []byte{3, byte(v)})
	case 3:
		b := vfAddr(3)
		text, want = vfCat([]byte("1,"), d, []byte(","), text, []byte(",2,"), b), vfCat([]byte{1, byte(v)}, want, vfAddrSeg(2, b))
	}
	vfRoute(text, want, true)
}

// VF_C04_long: address links of 253 to 258 and 300 characters: encoded in full or rejected.
func VF_C04_long() {
	n := []int{253, 254, 255, 256, 257, 258, 300}[vfPick("n", 7)]
	a := vfAddr(2)
	for len(a) < n {
		a = append(a, '1')
	}
	b, err := ParsePath("2," + string(a))
	if n > 255 {
		vfAssert(err != nil, "an address longer than its length field is rejected")
	} else {
		vfAssert(err == nil && vfEq(b.Bytes(), vfAddrSeg(2, a)), "a long address is encoded in full")
	}
}

// VF_C04_spaces: spaces after the commas and brackets around the whole text do not change the route.
func VF_C04_spaces() {
	p, pv := vfDec(1)
	l, lv := vfDec(2)
	a := vfAddr(3)
	text, want := vfCat(p, []byte(", "), l), []byte{byte(pv), byte(lv)}
	switch vfPick("shape", 3) {
	case 1:
		text = vfCat([]byte("["), text, []byte("]"))
	case 2:
		text, want = vfCat(text, []byte(", 2, "), a), vfCat(want, vfAddrSeg(2, a))
	}
	vfRoute(text, want, true)
}

// VF_C04_reject: text of up to 4 (thorough: 6) arbitrary ASCII characters never panics, and is rejected when a part is
// empty, has a letter and no dot, or is an address without a port in front.
func VF_C04_reject() {
	n := 5
	if vfTier() > 0 {
		n = 7
	}
	s := vfStr("s", vfPick("n", n))
	for i := range s {
		vfAssume(s[i] < 0x80)
	}
	b, err := ParsePath(s)
	// judged without the stripped characters, except signs which the number syntax leaves open
	bad, open := false, false
	partLen, digits, dots, prevNum := 0, 0, 0, false
	end := func() {
		if partLen == 0 || dots == 0 && digits != partLen {
			bad = true
		}
		if dots > 0 && !prevNum {
			bad = true
		}
		prevNum = dots == 0
		partLen, digits, dots = 0, 0, 0
	}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == ',':
			end()
		case c == ' ' || c == '[' || c == ']':
		case c == '+' || c == '-':
			open = true
			partLen++
		default:
			partLen++
			if c == '.' {
				dots++
			}
			if c >= '0' && c <= '9' {
				digits++
			}
		}
	}
	end()
	if len(s) == 0 {
		vfAssert(err == nil && b.Len() == 0, "the empty route is empty")
	} else if bad && !open {
		vfAssert(err != nil, "text that is not a route path is rejected")
	}
	vfAssert(err != nil || b != nil, "a path or an error")
}

// VF_C04_builder: a path builder's Parse appends exactly what ParsePath gives and keeps the first error.
func VF_C04_builder() {
	p, pv := vfDec(1 + vfPick("w", 3))
	text := string(vfCat(p, []byte(",7")))
	pb := NewPathBuilder().Slot(9).Parse(text).Port(3)
	if pv > 255 {
		vfAssert(pb.Err != nil, "the builder reports the bad path")
	} else {
		vfAssert(pb.Err == nil && vfEq(pb.Bytes(), []byte{9, byte(pv), 7, 3}), "the builder appends the parsed path")
	}
}
