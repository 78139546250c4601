package gologix

func vfIOIis(path, want []byte, ok bool) {
	c := vfClient()
	ioi, err := c.newIOI(string(path), CIPTypeDINT)
	if !ok {
		vfAssert(err != nil, "an index that does not fit an element segment is an error")
		return
	}
	vfAssert(err == nil, "a well-formed tag path is accepted")
	vfAssert(vfEq(ioi.Bytes(), want), "the request path is one symbolic segment per name and one element segment per index")
	vfAssert(ioi.Len() == len(want), "the request path knows its length")
	vfAssert(!ioi.BitAccess, "no bit access without a bit suffix")
	vfObsB("ioi", ioi.Bytes())
}

// VF_C02_scalar: one to three dotted names of 1 to 4 characters (quick: up to 3), every letter, digit and underscore.
func VF_C02_scalar() {
	k := 1 + vfPick("parts", 3)
	max := 3
	if vfTier() > 0 {
		max = 4
	}
	var path, want []byte
	for i := 0; i < k; i++ {
		if i > 0 {
			path = append(path, '.')
		}
		t, s, _ := vfIndexed(1 + vfPick("len", max))
		path = append(path, t...)
		want = append(want, s...)
	}
	vfIOIis(path, want, true)
}

// VF_C02_index1: a one-dimensional index of 1 to 10 digits (thorough: 11), every digit, on a one or two character name.
func VF_C02_index1() {
	w := 10
	if vfTier() > 0 {
		w = 11
	}
	t, s, ok := vfIndexed(1+vfPick("len", 2), 1+vfPick("w", w))
	vfIOIis(t, s, ok)
}

// VF_C02_index2: two-dimensional indexes of 1, 3, 5 or 6 digits each.
func VF_C02_index2() {
	ws := []int{1, 3, 5, 6}
	t, s, ok := vfIndexed(2, ws[vfPick("w1", 4)], ws[vfPick("w2", 4)])
	vfIOIis(t, s, ok)
}

// VF_C02_index3: three-dimensional indexes of 1, 3 or 5 digits each (quick: 2 or 5).
func VF_C02_index3() {
	ws := []int{2, 5}
	if vfTier() > 0 {
		ws = []int{1, 3, 5}
	}
	t, s, ok := vfIndexed(3, ws[vfPick("w1", len(ws))], ws[vfPick("w2", len(ws))], ws[vfPick("w3", len(ws))])
	vfIOIis(t, s, ok)
}

// VF_C02_spaces: a two-dimensional index with a space after the comma or around the numbers is either the same path or an error.
func VF_C02_spaces() {
	n := vfName(2)
	a, av := vfDec(1 + vfPick("w1", 3))
	b, bv := vfDec(1 + vfPick("w2", 3))
	var path []byte
	switch vfPick("where", 3) {
	case 0:
		path = vfCat(n, []byte("["), a, []byte(", "), b, []byte("]"))
	case 1:
		path = vfCat(n, []byte("[ "), a, []byte(","), b, []byte(" ]"))
	case 2:
		path = vfCat(n, []byte("["), a, []byte(" ,"), b, []byte("]"))
	}
	ioi, err := vfClient().newIOI(string(path), CIPTypeDINT)
	if err == nil {
		vfAssert(vfEq(ioi.Bytes(), vfCat(vfNameSeg(n), vfSeg(0x28, uint32(av)), vfSeg(0x28, uint32(bv)))), "spaces never change an index")
	}
}

// VF_C02_program: program-scoped tags "Program:xx.name[index]" of any name and 1..3 digit index.
func VF_C02_program() {
	p := append([]byte("Program:"), vfName(2)...)
	t, s, ok := vfIndexed(2, 1+vfPick("w", 3))
	vfIOIis(vfCat(p, []byte("."), t), vfCat(vfNameSeg(p), s), ok)
}

// VF_C02_nested: array of structs with indexed members "aa[i].bb[j,k].c", indexes of 1 or 3 digits.
func VF_C02_nested() {
	ws := []int{1, 3}
	t1, s1, _ := vfIndexed(2, ws[vfPick("w1", 2)])
	t2, s2, _ := vfIndexed(1, ws[vfPick("w2", 2)], ws[vfPick("w3", 2)])
	t3, s3, _ := vfIndexed(1)
	vfIOIis(vfCat(t1, []byte("."), t2, []byte("."), t3), vfCat(s1, s2, s3), true)
}

// VF_C02_bit: a one or two digit bit suffix on a plain, indexed or member path.
func VF_C02_bit() {
	var t, s []byte
	switch vfPick("shape", 3) {
	case 0:
		t, s, _ = vfIndexed(2)
	case 1:
		t, s, _ = vfIndexed(2, 2)
	case 2:
		t1, s1, _ := vfIndexed(1, 1)
		t2, s2, _ := vfIndexed(3)
		t, s = vfCat(t1, []byte("."), t2), vfCat(s1, s2)
	}
	d, v := vfDec(1 + vfPick("w", 2))
	vfAssume(v <= 31)
	ioi, err := vfClient().newIOI(string(vfCat(t, []byte("."), d)), CIPTypeBOOL)
	vfAssert(err == nil, "a bit suffix is accepted")
	vfAssert(vfEq(ioi.Bytes(), s), "a bit suffix does not change the rest of the path")
	vfAssert(ioi.BitAccess && ioi.BitPosition == int(v), "the bit number is kept")
}

// vfC02again: a path asked for again has the same answer.
func vfC02again(c *Client, path string, ioi *tagIOI, err error) {
	ioi2, err2 := c.newIOI(path, CIPTypeDINT)
	vfAssert((err2 == nil) == (err == nil), "a path is accepted or rejected every time")
	vfAssert(err != nil || vfEq(ioi2.Bytes(), ioi.Bytes()) && ioi2.BitAccess == ioi.BitAccess && ioi2.BitPosition == ioi.BitPosition, "a path is the same every time")
}

// VF_C02_badindex: index text of up to 4 (thorough: 5) arbitrary characters, twice through the same client.
func VF_C02_badindex() {
	n := 5
	if vfTier() > 0 {
		n = 6
	}
	n = vfPick("n", n)
	name := vfName(1)
	x := vfBytes("x", n)
	for _, c := range x {
		vfAssume(c < 0x80 && c != '.')
	}
	path := vfCat(name, []byte("["), x, []byte("]"))
	// list of numbers: digits separated by single commas, optional blanks around a number
	good := true
	var vals []uint64
	cur, have, done := uint64(0), false, false
	for i := 0; i <= n; i++ {
		c := byte(',')
		if i < n {
			c = x[i]
		}
		switch {
		case c >= '0' && c <= '9':
			if done {
				good = false
			}
			cur, have = cur*10+uint64(c-'0'), true
		case c == ' ' || c >= 9 && c <= 13:
			done = have
		case c == ',':
			if !have {
				good = false
			}
			vals = append(vals, cur)
			cur, have, done = 0, false, false
		default:
			good = false
		}
	}
	c := vfClient()
	ioi, err := c.newIOI(string(path), CIPTypeDINT)
	vfC02again(c, string(path), ioi, err)
	if !good {
		vfAssert(err != nil, "index text that is not a list of non-negative numbers is rejected")
	} else if err == nil {
		want := vfNameSeg(name)
		for _, v := range vals {
			want = append(want, vfSeg(0x28, uint32(v))...)
		}
		vfAssert(vfEq(ioi.Bytes(), want), "index list encoded exactly")
	}
}

// VF_C02_nopanic: tag path text of up to 5 (thorough: 6) arbitrary ASCII bytes, twice through the same client, never panics.
func VF_C02_nopanic() {
	n := 6
	if vfTier() > 0 {
		n = 7
	}
	x := vfStr("x", vfPick("n", n))
	for i := range x {
		vfAssume(x[i] < 0x80)
	}
	c := vfClient()
	ioi, err := c.newIOI(x, CIPTypeDINT)
	vfC02again(c, x, ioi, err)
	vfAssert(err != nil || ioi != nil, "a path or an error")
	if err == nil {
		vfAssert(len(ioi.Bytes())%2 == 0, "the request path has even length")
		vfAssert(!ioi.BitAccess || ioi.BitPosition >= 0, "no negative bit")
	}
}

// VF_C02_long: names of 254, 255, 256, 257 and 300 bytes and paths of two or three long names, first letter symbolic.
func VF_C02_long() {
	n := []int{1, 254, 255, 256, 257, 300}[vfPick("n", 6)]
	a := vfName(1)
	for len(a) < n {
		a = append(a, 'x')
	}
	path, want := a, vfNameSeg(a)
	for i := vfPick("more", 3); i > 0; i-- {
		path = vfCat(path, []byte("."), a)
		want = vfCat(want, vfNameSeg(a))
	}
	c := vfClient()
	ioi, err := c.newIOI(string(path), CIPTypeDINT)
	vfC02again(c, string(path), ioi, err)
	if n > 255 || len(want) > 510 {
		vfAssert(err != nil, "a name or path longer than its length field can hold is an error")
	} else {
		vfAssert(err == nil && vfEq(ioi.Bytes(), want), "long names are encoded in full")
	}
}

// VF_C02_cache: two paths requested in turn through one client (names of 1..2 characters, optional index): the
// path of one never depends on what was requested before, in whatever case it was written.
func VF_C02_cache() {
	shape := func() (t, s []byte) {
		if vfBool("idx") {
			t, s, _ = vfIndexed(1, 1)
		} else {
			t, s, _ = vfIndexed(1 + vfPick("len", 2))
		}
		return
	}
	t1, s1 := shape()
	t2, s2 := shape()
	c := vfClient()
	a, err1 := c.newIOI(string(t1), CIPTypeDINT)
	b, err2 := c.newIOI(string(t2), CIPTypeINT)
	d, err3 := c.newIOI(string(t1), CIPTypeSINT)
	vfAssert(err1 == nil && err2 == nil && err3 == nil, "accepted")
	vfAssert(vfEq(a.Bytes(), s1) && vfEq(b.Bytes(), s2) && vfEq(d.Bytes(), s1), "a cached path belongs to its own tag")
}

// VF_C02_cachelong: two paths of one to three long parts (8 to 80 characters) in turn, which may differ in one symbolic
// character of the first part, of the last part, in an index of one to three digits or in the bit only.
func VF_C02_cachelong() {
	fill := func(n int) string {
		return "a_filler_of_eighty_characters_which_ends_only_at_the_end_of_the_eighty_characters"[:n]
	}
	parts := 1 + vfPick("parts", 3)
	long := []int{8, 30, 39, 80}[vfPick("long", 4)]
	mid := "." + fill(long)
	if parts == 1 {
		mid = fill(long)
	} else if parts == 3 {
		mid += "." + fill(long)
	}
	where := vfPick("where", 4)
	path := func(x, y byte, i, bit string) string {
		t := string([]byte{x}) + mid + string([]byte{y}) + "[" + i + "]"
		if bit != "" {
			t += "." + bit
		}
		return t
	}
	x, y, i, bit := vfName(1)[0], vfName(1)[0], "7", ""
	x2, y2, i2, bit2 := x, y, i, bit
	switch where {
	case 0:
		x2 = vfName(1)[0]
	case 1:
		y2 = vfName(1)[0]
	case 2:
		i, i2 = []string{"7", "12", "345"}[vfPick("i", 3)], []string{"7", "13", "346", "1,2"}[vfPick("i2", 4)]
	case 3:
		bit, bit2 = []string{"", "0", "3", "31"}[vfPick("bit", 4)], []string{"", "0", "4", "30"}[vfPick("bit2", 4)]
	}
	p, q := path(x, y, i, bit), path(x2, y2, i2, bit2)
	c := vfClient()
	_, err := c.newIOI(p, CIPTypeDINT)
	vfAssert(err == nil, "accepted")
	a, err := c.newIOI(q, CIPTypeDINT)
	b, err2 := vfClient().newIOI(q, CIPTypeDINT)
	vfAssert(err == nil && err2 == nil, "accepted")
	vfAssert(vfEq(a.Bytes(), b.Bytes()) && a.BitAccess == b.BitAccess && a.BitPosition == b.BitPosition, "a cached path belongs to its own tag")
}

// VF_C02_known: a tag listed from the controller, of any instance id, is addressed by symbol class and that instance;
// a tag that is not listed is still addressed by name.
func VF_C02_known() {
	c := vfClient()
	id := vfU32("id")
	n := vfName(2)
	c.KnownTags["ab"] = KnownTag{Name: "AB", Info: TagInfo{Type: CIPTypeDINT}, Instance: CIPInstance(id)}
	ioi, err := c.newIOI(string(n), CIPTypeDINT)
	vfAssert(err == nil, "accepted")
	if vfLow(n[0]) == 'a' && vfLow(n[1]) == 'b' {
		vfAssert(vfEq(ioi.Bytes(), vfCat([]byte{0x20, 0x6B}, vfSeg(0x24, id))), "known tag addressed by its instance")
	} else {
		vfAssert(vfEq(ioi.Bytes(), vfNameSeg(n)), "unknown tag addressed by name")
	}
}
