package gologix

import "math"

// vfC24types are the declared types of a definition with their sizes.
var vfC24types = vfTypes

// VF_C24_read: groups of one to three definitions of every elementary type and of strings, one to three elements each, names with and without
// an argument; the controller holds any values. Every definition is asked for with its own count and has its own value.
func VF_C24_read() {
	k := 1 + vfPick("defs", 2+vfTier())
	var defs []TagDef
	var tags []*vfPlcTag
	var names []string
	first := vfPick("type", len(vfC24types)+1)
	for i := 0; i < k; i++ {
		w := (first + i*5) % (len(vfC24types) + 1)
		n := 1 + vfPick("elements", 3)
		name := []string{"a{0}", "Bb[{0},2]", "c.d[1]"}[i]
		full := []string{"a7", "Bb[7,2]", "c.d[1]"}[i]
		path := [][]byte{vfNameSeg([]byte("a7")), vfCat(vfNameSeg([]byte("bb")), []byte{0x28, 7, 0x28, 2}),
			vfCat(vfNameSeg([]byte("c")), vfNameSeg([]byte("d")), []byte{0x28, 1})}[i]
		if w == len(vfC24types) {
			n = 1
			t := vfPlcString("x", vfBytes("chars", 3))
			t.path = path
			tags = append(tags, t)
			defs = append(defs, TagDef{Name: name, Type: CIPTypeSTRING, Elements: vfPick("zero", 2)})
		} else {
			t := vfPlcScalar("x", byte(vfC24types[w].t), vfC24types[w].size, n)
			t.path = path
			tags = append(tags, t)
			e := n
			if n == 1 {
				e = vfPick("zero", 2)
			}
			defs = append(defs, TagDef{Name: name, Type: vfC24types[w].t, Elements: e})
		}
		names = append(names, full)
	}
	c, p, _ := vfPlcClient(tags...)
	g := NewTagGroup(defs...)
	r, err := c.ReadTagGroup(g, 7)
	vfAssert(err == nil, "a group is read")
	vfAssert(len(p.order) == k && len(r.Raw()) == k, "exactly the group's tags are read")
	for i, name := range names {
		vfAssert(tags[i].asked == 1, "every tag is read once")
		v, err := r.Value(name)
		vfAssert(err == nil, "every tag has a value")
		d := tags[i].data
		if defs[i].Type == CIPTypeSTRING {
			x, ok := v.(string)
			vfAssert(ok && x == string(d[4:7]), "a string has its own characters")
			continue
		}
		n := len(d) / tags[i].size
		if n == 1 {
			vfAssert(vfGoValue(defs[i].Type, v, vfNum(d)), "a scalar has its own value")
			continue
		}
		xs, ok := v.([]any)
		vfAssert(ok && len(xs) == n, "an array has all its elements")
		for j := range xs {
			vfAssert(vfGoValue(defs[i].Type, xs[j], vfNum(d[j*tags[i].size:(j+1)*tags[i].size])), "an element has its own value")
		}
	}
}

// VF_C24_failed: a group of two definitions, one of which gets any error status, or definitions with one name and different types or counts.
func VF_C24_failed() {
	a, b := vfPlcScalar("a", 0xC4, 4, 2), vfPlcScalar("b", 0xCA, 4, 1)
	a.status, b.status = vfU8("status"), vfU8("status")
	c, p, _ := vfPlcClient(a, b)
	p.eip = vfU32("eip")
	if vfPick("same", 2) == 1 {
		n := 1 + vfPick("elements", 3)
		t := []CIPType{CIPTypeDINT, CIPTypeREAL}[vfPick("type", 2)]
		vfAssume(a.status == 0 && b.status == 0 && p.eip == 0)
		g := NewTagGroup(TagDef{Name: "a", Type: CIPTypeDINT, Elements: 2}, TagDef{Name: "{0}", Type: t, Elements: n})
		r, err := c.ReadTagGroup(g, "a")
		if n == 2 && t == CIPTypeDINT {
			vfAssert(err == nil && len(r.Raw()) == 1, "a tag defined twice alike is read")
		} else {
			vfAssert(err != nil, "one name can't have two definitions")
		}
		return
	}
	r, err := c.ReadTagGroup(NewTagGroup(TagDef{Name: "a", Type: CIPTypeDINT, Elements: 2}, TagDef{Name: "b", Type: CIPTypeREAL}))
	if a.status != 0 || b.status != 0 || p.eip != 0 {
		vfAssert(err != nil && r == nil, "a group with a failed tag is an error")
	} else {
		vfAssert(err == nil && len(r.Raw()) == 2, "a group is read")
	}
}

// VF_C24_expand: names of one or two parts with symbolic letters, any decimal indexes of one to three dimensions of one digit, or two for a single dimension (thorough 2 and 5), on the
// last part, the first or both, counts 1 to 4: element i is the tag whose last index is i more, or index i of a part without one.
func VF_C24_expand() {
	shape := vfPick("shape", 6)
	n := 1 + vfPick("count", 4)
	wide := 1 + vfTier()
	if shape < 2 || shape == 5 {
		wide = 2 + 3*vfTier()
	}
	var text, lead []byte // everything up to the last index, and its path
	var last uint64
	indexed := false
	name := func() {
		b := vfName(1 + vfPick("letters", 2))
		text, lead = append(text, b...), append(lead, vfNameSeg(b)...)
	}
	tail := func() {
		// closes an index list that is not the last
		d := []byte{'0', '3'}
		text, lead = append(append(text, d...), ']', '.'), append(lead, vfSeg(0x28, 3)...)
		indexed = false
	}
	var d []byte
	close := func(dims int) {
		text = append(text, '[')
		for i := 0; i < dims; i++ {
			x, v := vfDec(1 + vfPick("digits", wide))
			vfAssume(v < 60000)
			if i == dims-1 {
				d, last = x, v
				break
			}
			text, lead = append(append(text, x...), ','), append(lead, vfSeg(0x28, uint32(v))...)
		}
		indexed = true
	}
	switch shape {
	case 0:
		name()
	case 1, 2, 3:
		name()
		close(shape)
	case 4:
		name()
		text = append(text, '[')
		tail()
		name()
	case 5:
		name()
		text = append(text, '[')
		tail()
		name()
		close(1)
	}
	base := string(text)
	if indexed {
		base += string(d) + "]"
	}
	out := expandArrayTag(base, n)
	vfAssert(len(out) == n, "an array expands into its element count")
	c := vfClient()
	if n == 1 {
		vfAssert(out[0] == base, "a scalar is the tag itself")
		return
	}
	for i := range out {
		ioi, err := c.newIOI(out[i], CIPTypeDINT)
		vfAssert(err == nil, "every element is a tag")
		want := vfCat(lead, vfSeg(0x28, uint32(last)+uint32(i)))
		if !indexed {
			want = vfCat(lead, vfSeg(0x28, uint32(i)))
		}
		vfAssert(vfEq(ioi.Bytes(), want), "element i of an array is the tag i places on")
	}
}

// VF_C24_format: names of up to 2 pieces, each a placeholder for one of two (thorough three) arguments or text, arguments any integers of 32 bits (up to 3 digits shown) or
// texts, placeholder texts among them; every placeholder becomes the argument's text, everything else stays.
func VF_C24_format() {
	vfTexts(true)
	var args []any
	var texts []string
	for i := 0; i < 2+vfTier(); i++ {
		switch vfPick("arg", 4) {
		case 0:
			d, v := vfDec(1 + vfPick("digits", 3))
			vfAssume(len(d) == 1 || d[0] != '0')
			args, texts = append(args, int(v)), append(texts, string(d))
		case 1:
			s := vfStr("text", vfPick("len", 3))
			args, texts = append(args, s), append(texts, s)
		case 2:
			s := []string{"{0}", "{1}", "{2}"}[vfPick("which", 3)]
			args, texts = append(args, s), append(texts, s)
		default:
			vfAssume(i > 0)
		}
		if len(args) <= i {
			break
		}
	}
	pieces := []string{"{0}", "{1}", "{2}", "Tag[", "{x}", "{", ""}
	name, want := "", ""
	n := 1 + vfPick("pieces", 2)
	for i := 0; i < n; i++ {
		k := vfPick("piece", len(pieces))
		name += pieces[k]
		if k < len(args) && k < 3 {
			want += texts[k]
		} else {
			want += pieces[k]
		}
	}
	vfAssert(formatName(name, args...) == want, "every placeholder becomes its argument, nothing else changes")
}

// VF_C24_zero: every elementary type and the string, 1 to 3 elements: the example value has the type and count of the definition and is zero.
func VF_C24_zero() {
	k := vfPick("type", len(vfC24types)+1)
	n := 1 + vfPick("elements", 3)
	if k == len(vfC24types) {
		v := zeroValueForTagDef(TagDef{Name: "a", Type: CIPTypeSTRING, Elements: n})
		if n == 1 {
			s, ok := v.(string)
			vfAssert(ok && s == "", "a string starts empty")
		} else {
			s, ok := v.([]string)
			vfAssert(ok && len(s) == n && s[0] == "" && s[n-1] == "", "strings start empty")
		}
		return
	}
	t := vfC24types[k].t
	v := zeroValueForTagDef(TagDef{Name: "a", Type: t, Elements: n})
	if n == 1 {
		vfAssert(vfGoValue(t, v, 0), "a value is the zero of its declared type")
		return
	}
	size := 0
	at := func(i int) any { return nil }
	switch x := v.(type) {
	case []bool:
		size, at = len(x), func(i int) any { return x[i] }
	case []byte:
		size, at = len(x), func(i int) any { return x[i] }
	case []int8:
		size, at = len(x), func(i int) any { return x[i] }
	case []int16:
		size, at = len(x), func(i int) any { return x[i] }
	case []uint16:
		size, at = len(x), func(i int) any { return x[i] }
	case []int32:
		size, at = len(x), func(i int) any { return x[i] }
	case []uint32:
		size, at = len(x), func(i int) any { return x[i] }
	case []int64:
		size, at = len(x), func(i int) any { return x[i] }
	case []uint64:
		size, at = len(x), func(i int) any { return x[i] }
	case []float32:
		size, at = len(x), func(i int) any { return x[i] }
	case []float64:
		size, at = len(x), func(i int) any { return x[i] }
	}
	vfAssert(size == n, "an array has the declared number of elements")
	for i := 0; i < n; i++ {
		vfAssert(vfGoValue(t, at(i), 0), "an element is the zero of its declared type")
	}
}

// VF_C24_defs: definitions with any element count: counts below one become one, the rest stay, the group is not changed through what Defs returns or
// through the definitions it was made from.
func VF_C24_defs() {
	n := vfInt("elements", -3, 5)
	in := []TagDef{{Name: "a", Type: CIPTypeDINT, Elements: n}, {Name: "b", Type: CIPTypeREAL, Elements: 2}}
	g := NewTagGroup(in...)
	in[0].Name = "x"
	d := g.Defs()
	vfAssert(len(d) == 2, "a group has all its definitions")
	vfAssert(d[0].Elements == n || n < 1 && d[0].Elements == 1, "an element count below one is one")
	vfAssert(d[1] == TagDef{Name: "b", Type: CIPTypeREAL, Elements: 2}, "a definition is kept")
	d[0].Name, d[1].Elements = "y", 9
	e := g.Defs()
	vfAssert(e[0].Name == "a" && e[0].Type == CIPTypeDINT && e[1].Elements == 2, "a group is not changed from outside")
}

// VF_C24_access: every accessor on a result of two names holding a value of each of 11 Go types or an array of 0 to 3 integers or reals (one element
// possibly of another type), any values, by a name that is there or is not.
func VF_C24_access() {
	b := vfBytes("value", 8)
	var v any
	k := vfPick("kind", 14)
	n := 0
	odd := -1
	switch {
	case k < 11:
		_, size := vfReadPtr(k)
		b = b[:size]
		v = vfGoOf(k, b)
	case k == 11:
		v = string(b[:3])
	default:
		n = vfPick("len", 4)
		odd = vfPick("odd", 5)
		var xs []any
		is, fs := []int32{}, []float32{}
		for i := 0; i < n; i++ {
			e := vfBytes("element", 4)
			switch {
			case i == odd:
				xs = append(xs, int16(1))
			case k == 12:
				xs, is = append(xs, vfGoOf(3, e)), append(is, int32(vfU32le(e)))
			default:
				xs, fs = append(xs, vfGoOf(9, e)), append(fs, vfGoOf(9, e).(float32))
			}
		}
		v = xs
		if odd == 4 {
			if k == 12 {
				v = is
			} else {
				v = fs
			}
		}
	}
	r := &TagGroupResult{values: map[string]any{"a": v, "b": "other"}}
	missing := vfPick("missing", 2) == 1
	name := "a"
	if missing {
		name = "A "
	}
	var got any
	var err error
	fits := false
	acc := vfPick("accessor", 10)
	switch acc {
	case 0:
		got, err = r.Value(name)
		fits = true
	case 1:
		got, err = r.String(name)
		_, fits = v.(string)
	case 2:
		got, err = r.Bool(name)
		_, fits = v.(bool)
	case 3:
		got, err = r.Int16(name)
		_, fits = v.(int16)
	case 4:
		got, err = r.Int32(name)
		_, fits = v.(int32)
	case 5:
		got, err = r.Uint32(name)
		_, fits = v.(uint32)
		if x, ok := v.(int32); ok {
			vfAssert(missing || err == nil && got.(uint32) == uint32(x), "a signed value is read as unsigned bit for bit")
			vfAssert(!missing || err != nil, "an unknown name is an error")
			return
		}
	case 6:
		got, err = r.Float32(name)
		_, fits = v.(float32)
	case 7:
		got, err = r.Float64(name)
		_, fits = v.(float64)
	case 8:
		var x []int32
		x, err = r.Int32Slice(name)
		if k == 12 && (odd >= n) && !missing {
			vfAssert(err == nil && len(x) == n, "an array of integers is read whole")
			for i := range x {
				vfAssert(vfC24at(v, i) == any(x[i]), "an element is read unchanged")
			}
			return
		}
		fits = n == 0 && k >= 12 && odd != 4 || k == 12 && odd >= n
		if fits && !missing {
			vfAssert(err == nil && len(x) == 0, "an empty array is read")
			return
		}
	case 9:
		var x []float32
		x, err = r.Float32Slice(name)
		if k == 13 && (odd >= n) && !missing {
			vfAssert(err == nil && len(x) == n, "an array of reals is read whole")
			for i := range x {
				vfAssert(vfHolds(x[i], vfC24bits(vfC24at(v, i))), "an element is read unchanged")
			}
			return
		}
		fits = n == 0 && k >= 12 && odd != 4 || k == 13 && odd >= n
		if fits && !missing {
			vfAssert(err == nil && len(x) == 0, "an empty array is read")
			return
		}
	}
	if missing {
		vfAssert(err != nil, "an unknown name is an error")
		return
	}
	if !fits {
		vfAssert(err != nil, "a value of another type is an error")
		return
	}
	vfAssert(err == nil, "a value of the asked type is returned")
	switch {
	case k < 11:
		vfAssert(vfHolds(got, b), "a value is returned unchanged")
	case k == 11:
		vfAssert(got.(string) == string(b[:3]), "a value is returned unchanged")
	default:
		_, l := got.([]any)
		_, m := got.([]int32)
		_, o := got.([]float32)
		vfAssert(l || m || o, "a value is returned unchanged")
	}
}

func vfC24at(v any, i int) any {
	switch x := v.(type) {
	case []any:
		return x[i]
	case []int32:
		return x[i]
	case []float32:
		return x[i]
	}
	return nil
}

// vfC24bits are the bytes of a real.
func vfC24bits(v any) []byte {
	return vfLe32(math.Float32bits(v.(float32)))
}

// VF_C24_large: a group of 60 (thorough 200) definitions of DINTs and INTs with names made of one of 12 arguments, one of them an array of 300 elements, three tags and the array's first, last and
// two middle elements of any value; arrays of 2, 257 and 300 elements from indexes 0, 200, 254 to 256, 65500 and 70000 of one to three dimensions.
func VF_C24_large() {
	if vfPick("what", 2) == 0 {
		count := []int{2, 257, 300}[vfPick("count", 3)]
		from := []uint32{0, 200, 254, 255, 256, 65500, 70000}[vfPick("from", 7)]
		dims := vfPick("dims", 4)
		lead := vfNameSeg([]byte("tag"))
		base := "Tag"
		if dims > 0 {
			base += "["
			for i := 1; i < dims; i++ {
				base += string(vfDigits(300)) + ","
				lead = vfCat(lead, vfSeg(0x28, 300))
			}
			base += string(vfDigits(int(from))) + "]"
		} else {
			vfAssume(from == 0)
		}
		out := expandArrayTag(base, count)
		vfAssert(len(out) == count, "an array expands into its element count")
		c := vfClient()
		for i := range out {
			ioi, err := c.newIOI(out[i], CIPTypeDINT)
			vfAssert(err == nil && vfEq(ioi.Bytes(), vfCat(lead, vfSeg(0x28, from+uint32(i)))), "element i of an array is the tag i places on")
		}
		vfReach("expanded")
		return
	}
	k := 60 + 140*vfTier()
	var args []any
	for i := 0; i < 12; i++ {
		args = append(args, "x"+string(vfDigits(i*7)))
	}
	var defs []TagDef
	var names []string
	var tags []*vfPlcTag
	for i := 0; i < k; i++ {
		a := string(vfDigits(i % 12))
		n := string(vfDigits(i))
		full := "T" + n + "_x" + string(vfDigits(i%12*7))
		d := TagDef{Name: "T" + n + "_{" + a + "}", Type: CIPTypeDINT, Elements: 1}
		t := &vfPlcTag{path: vfNameSeg([]byte(vfLower(full))), typ: []byte{0xC4, 0}, size: 4, data: vfCat(vfLe32(uint32(i * 1000003)))}
		switch {
		case i == 17:
			d.Type, d.Elements = CIPTypeINT, 300
			t.typ, t.size, t.data = []byte{0xC3, 0}, 2, make([]byte, 600)
			for j := 0; j < 300; j++ {
				copy(t.data[2*j:], vfLe16(uint16(j*77)))
			}
			for _, j := range []int{0, 127, 128, 299} {
				copy(t.data[2*j:], vfBytes("element", 2))
			}
		case i%3 == 1:
			d.Type = CIPTypeINT
			t.typ, t.size, t.data = []byte{0xC3, 0}, 2, vfLe16(uint16(i*555))
		}
		if i == 0 || i == k/2 || i == k-1 {
			t.data = vfBytes("value", t.size)
		}
		defs, names, tags = append(defs, d), append(names, full), append(tags, t)
	}
	c, p, _ := vfPlcClient(tags...)
	r, err := c.ReadTagGroup(NewTagGroup(defs...), args...)
	vfAssert(err == nil && len(r.Raw()) == k && len(p.order) == k, "exactly the group's tags are read")
	for i, name := range names {
		v, err := r.Value(name)
		vfAssert(err == nil && tags[i].asked == 1, "every tag is read once")
		if i == 17 {
			xs, ok := v.([]any)
			vfAssert(ok && len(xs) == 300, "an array has all its elements")
			for j := range xs {
				vfAssert(vfGoValue(CIPTypeINT, xs[j], vfNum(tags[i].data[2*j:2*j+2])), "an element has its own value")
			}
			continue
		}
		vfAssert(vfGoValue(defs[i].Type, v, vfNum(tags[i].data)), "a scalar has its own value")
	}
	vfReach("read")
}
