package gologix

// vfServerName is the tag name the server derives from a request path.
func vfServerName(path []byte) (string, error) {
	item := newItem(cipItem_Null, path)
	return getTagFromPath(&item)
}

// vfIdx is an index of any value with up to w decimal digits, w in the given list; no leading zero.
func vfIdx(ws ...int) ([]byte, uint64) {
	w := ws[vfPick("w", len(ws))]
	d, v := vfDec(w)
	if w > 1 {
		vfAssume(d[0] != '0')
	}
	return d, v
}

func vfSameText(got string, want []byte) bool {
	if len(got) != len(want) {
		return false
	}
	ok := true
	for i := range want {
		ok = ok && got[i] == vfLow(want[i])
	}
	return ok
}

func vfRoundTrip(path []byte) {
	ioi, err := vfClient().newIOI(string(path), CIPTypeDINT)
	vfAssert(err == nil, "the client encodes the path")
	name, err := vfServerName(ioi.Bytes())
	vfAssert(err == nil, "the server understands the client's path")
	vfAssert(vfSameText(name, path), "the server's tag name is the client's")
	vfObsS("name", name)
}

// VF_C03_names: one to three names of 1..4 characters.
func VF_C03_names() {
	var path []byte
	for i := 1 + vfPick("parts", 3); i > 0; i-- {
		if path != nil {
			path = append(path, '.')
		}
		path = append(path, vfName(1+vfPick("len", 4))...)
	}
	vfRoundTrip(path)
}

// VF_C03_index: one dimension of 1 to 10 digits, below 2^32.
func VF_C03_index() {
	d, v := vfIdx(1, 2, 3, 4, 5, 6, 7, 8, 9, 10)
	vfAssume(v <= 0xFFFFFFFF)
	vfRoundTrip(vfCat(vfName(2), []byte("["), d, []byte("]")))
}

// VF_C03_index23: two and three dimensions of 1, 3 and 5 digits (quick: 1 and 3).
func VF_C03_index23() {
	ws := []int{1, 3}
	if vfTier() > 0 {
		ws = []int{1, 2, 3, 4, 5}
	}
	path := vfCat(vfName(1), []byte("["))
	n := 2 + vfPick("dims", 2)
	for i := 0; i < n; i++ {
		if i > 0 {
			path = append(path, ',')
		}
		d, _ := vfIdx(ws...)
		path = append(path, d...)
	}
	vfRoundTrip(append(path, ']'))
}

// VF_C03_nested: indexed structure members and program scopes, indexes of 1 or 3 digits.
func VF_C03_nested() {
	a, _ := vfIdx(1, 3)
	b, _ := vfIdx(1, 3)
	var path []byte
	switch vfPick("shape", 3) {
	case 0:
		path = vfCat(vfName(2), []byte("["), a, []byte("]."), vfName(1), []byte("["), b, []byte("]"))
	case 1:
		path = vfCat([]byte("Program:"), vfName(2), []byte("."), vfName(3), []byte("["), a, []byte(","), b, []byte("]."), vfName(1))
	case 2:
		path = vfCat(vfName(1), []byte("["), a, []byte(","), b, []byte("]."), vfName(2), []byte("."), vfName(1))
	}
	vfRoundTrip(path)
}

// vfPathOracle decodes a request path of symbolic and element segments; ok is false when it is anything else.
func vfPathOracle(b []byte) (name []byte, ok bool) {
	inIdx := false
	for len(b) > 0 {
		var idx uint64
		switch b[0] {
		case 0x91:
			if len(b) < 2 {
				return nil, false
			}
			n := int(vfConc(uint64(b[1])))
			m := n + n%2
			if len(b) < 2+m {
				return nil, false
			}
			if len(name) > 0 {
				name = append(name, '.')
			}
			name = append(name, b[2:2+n]...)
			b = b[2+m:]
			inIdx = false
			continue
		case 0x28:
			if len(b) < 2 {
				return nil, false
			}
			idx, b = uint64(b[1]), b[2:]
		case 0x29:
			if len(b) < 4 {
				return nil, false
			}
			idx, b = uint64(vfU16le(b[2:])), b[4:]
		case 0x2A:
			if len(b) < 6 {
				return nil, false
			}
			idx, b = uint64(vfU32le(b[2:])), b[6:]
		default:
			return nil, false
		}
		if len(name) == 0 {
			return nil, false
		}
		_ = idx
		_ = inIdx
		name = append(name, 1) // an index; its text is checked by the round trips
	}
	return name, true
}

// VF_C03_reject: request paths of up to 3 words (thorough: 4) of arbitrary bytes in a server read or write: the
// server accepts exactly the paths made of symbol and element segments, names an element only after a symbol, and
// never runs into the bytes after the path.
func VF_C03_reject() {
	n := 4
	if vfTier() > 0 {
		n = 5
	}
	words := vfPick("words", n)
	b := vfBytes("b", 2*words)
	for i := range b {
		vfAssume(b[i] < 0x80 || b[i] == 0x91)
	}
	item := newItem(cipItem_Null, append(append([]byte(nil), b...), 0x28, 0x05, 0x91, 0x01))
	name, err := getTagFromSizedPath(&item, byte(words))
	want, ok := vfPathOracle(b)
	if !ok {
		vfAssert(err != nil, "a path the server cannot interpret is an error")
		return
	}
	vfAssert(err == nil, "a well-formed path is understood")
	vfAssert(item.Pos == 2*words, "the rest of the request is left alone")
	plain := true
	for _, c := range want {
		if c == 1 {
			plain = false
		}
	}
	if plain {
		vfAssert(name == string(want), "the name is the path's symbols in order")
	}
}

// VF_C03_long: paths of 1 to 12 parts with names of 1 to 82 characters, any letter at the end of each, indexes of one to three dimensions between them.
func VF_C03_long() {
	n := []int{1, 2, 3, 5, 8, 12}[vfPick("parts", 6)]
	from := []int{1, 3, 38, 80}[vfPick("len", 4)]
	var path []byte
	for i := 0; i < n; i++ {
		if i > 0 {
			path = append(path, '.')
		}
		path = append(path, vfLongName(from-1+i%3)...)
		path = append(path, vfName(1)...)
		switch i % 4 {
		case 1:
			path = append(path, "["+vfDigits(i*250)+"]"...)
		case 2:
			path = append(path, "["+vfDigits(i*4)+","+vfDigits(i*30000)+"]"...)
		case 3:
			path = append(path, "[1,"+vfDigits(i*9)+",70000]"...)
		}
	}
	vfAssume(len(path) < 480)
	vfRoundTrip(path)
	vfReach("long")
}
