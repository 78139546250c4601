package l5x

import "math"

// vfInts are the integer types with their Go values.
var vfInts = []struct {
	name   string
	bits   int
	signed bool
	max    string
	min    string
}{{"SINT", 8, true, "127", "128"}, {"INT", 16, true, "32767", "32768"}, {"DINT", 32, true, "2147483647", "2147483648"},
	{"LINT", 64, true, "9223372036854775807", "9223372036854775808"},
	{"BYTE", 8, false, "255", "0"}, {"WORD", 16, false, "65535", "0"}, {"DWORD", 32, false, "4294967295", "0"},
	{"LWORD", 64, false, "18446744073709551615", "0"},
	{"USINT", 8, false, "255", "0"}, {"UINT", 16, false, "65535", "0"}, {"UDINT", 32, false, "4294967295", "0"},
	{"ULINT", 64, false, "18446744073709551615", "0"}}

// vfIs tells whether v is the Go value of the type whose low bits are u.
func vfIs(k int, v any, u uint64) bool {
	switch vfInts[k].name {
	case "SINT":
		x, ok := v.(int8)
		return ok && x == int8(u)
	case "INT":
		x, ok := v.(int16)
		return ok && x == int16(u)
	case "DINT":
		x, ok := v.(int32)
		return ok && x == int32(u)
	case "LINT":
		x, ok := v.(int64)
		return ok && x == int64(u)
	case "BYTE", "USINT":
		x, ok := v.(uint8)
		return ok && x == uint8(u)
	case "WORD", "UINT":
		x, ok := v.(uint16)
		return ok && x == uint16(u)
	case "DWORD", "UDINT":
		x, ok := v.(uint32)
		return ok && x == uint32(u)
	}
	x, ok := v.(uint64)
	return ok && x == u
}

// vfLeq compares decimal digits.
func vfLeq(a []byte, b string) bool {
	for len(a) < len(b) {
		a = append([]byte{'0'}, a...)
	}
	for len(b) < len(a) {
		b = "0" + b
	}
	le := true
	for i := len(b) - 1; i >= 0; i-- {
		le = a[i] < b[i] || a[i] == b[i] && le
	}
	return le
}

// VF_C29_decimal: every integer type; a sign or none and 1, 2 or from one less to one more digits than the largest value
// has; every digit (from 19 digits on: the last four, the others those of the largest value).
func VF_C29_decimal() {
	k := vfPick("type", len(vfInts))
	t := vfInts[k]
	n := []int{1, 2, len(t.max) - 1, len(t.max), len(t.max) + 1}[vfPick("digits", 5)]
	d := vfBytes("d", n)
	u := uint64(0)
	for i, c := range d {
		vfAssume(c >= '0' && c <= '9')
		if n > 18 && i < n-4 {
			// near the limits of the 64-bit types
			x := byte('0')
			if j := i - (n - len(t.max)); j >= 0 {
				x = t.max[j]
			}
			d[i], c = x, x
		}
		u = u*10 + uint64(c-'0')
	}
	text := string(d)
	neg := t.signed && vfBool("neg")
	limit := t.max
	if neg {
		text, limit, u = "-"+text, t.min, -u
	}
	v, err := L5xTypeToGoType(t.name, text)
	vfObsS("text", text)
	if vfLeq(d, limit) {
		vfAssert(err == nil && vfIs(k, v, u), "the value is the number written, in the type's Go type")
	} else {
		vfAssert(err != nil, "a number the type cannot hold is an error")
	}
}

// VF_C29_radix: every integer type in hexadecimal (either case), octal and binary; from 1 digit to one more than the type
// has, with an underscore before the last digit or none; every digit (hexadecimal: figures, small and capital letters in
// turn, in the three rotations).
func VF_C29_radix() {
	k := vfPick("type", len(vfInts))
	t := vfInts[k]
	r := vfPick("radix", 3)
	bits := []int{4, 3, 1}[r]
	full := (t.bits + bits - 1) / bits
	n := []int{1, full / 2, full, full + 1}[vfPick("digits", 4)]
	d := vfBytes("d", n)
	u, over := uint64(0), false
	rot := 0
	if r == 0 {
		rot = vfPick("rotation", 3)
	}
	for i, c := range d {
		x := uint64(c) - '0'
		switch {
		case r == 1:
			vfAssume(c >= '0' && c <= '7')
		case r == 2:
			vfAssume(c == '0' || c == '1')
		case (i+rot)%3 == 0:
			vfAssume(c >= '0' && c <= '9')
		case (i+rot)%3 == 1:
			vfAssume(c >= 'a' && c <= 'f')
			x = uint64(c) - 'a' + 10
		default:
			vfAssume(c >= 'A' && c <= 'F')
			x = uint64(c) - 'A' + 10
		}
		over = over || u>>(64-bits) != 0
		u = u<<bits | x
	}
	over = over || t.bits < 64 && u>>t.bits != 0
	text := []string{"16#", "8#", "2#"}[r] + string(d)
	if vfBool("underscore") && n > 1 {
		text = text[:len(text)-1] + "_" + text[len(text)-1:]
	}
	v, err := L5xTypeToGoType(t.name, text)
	if over {
		vfAssert(err != nil, "bits the type does not have are an error")
	} else {
		vfAssert(err == nil && vfIs(k, v, u), "the value is the bits written")
	}
}

// VF_C29_text: integer types as quoted text, first character most significant, of 1 character to one more than the type
// has bytes: any plain characters, or one quote, dollar or hexadecimal escape.
func VF_C29_text() {
	k := vfPick("type", len(vfInts))
	t := vfInts[k]
	n := 1 + vfPick("n", t.bits/8+1)
	esc := vfPick("escape", 4)
	at := vfPick("at", n)
	text, u := "'", uint64(0)
	for i := 0; i < n; i++ {
		c := vfU8("c")
		if i != at || esc == 0 {
			vfAssume(c != '\'' && c != '$' && c < 0x80 && c >= ' ')
			text += string([]byte{c})
			u = u<<8 | uint64(c)
			continue
		}
		switch esc {
		case 1:
			text, c = text+"$$", '$'
		case 2:
			text, c = text+"$'", '\''
		case 3:
			text += "$" + string([]byte{"0123456789ABCDEF"[c>>4], "0123456789abcdef"[c&15]})
		}
		u = u<<8 | uint64(c)
	}
	v, err := L5xTypeToGoType(t.name, text+"'")
	if n > t.bits/8 {
		vfAssert(err != nil, "more text than the type has bytes is an error")
	} else if t.signed && n < t.bits/8 {
		vfAssert(err == nil && vfIs(k, v, u), "short text is a small number")
	} else {
		vfAssert(err == nil && vfIs(k, v, u), "the value is the text's bytes")
	}
}

// VF_C29_escapes: every integer type, every escape ($L, $N, $P, $R, $T in either case, $$, $') alone, first and last of two
// characters, the other any plain character.
func VF_C29_escapes() {
	k := vfPick("type", len(vfInts))
	t := vfInts[k]
	e := vfPick("escape", 12)
	esc, val := "lLnNpPrRtT$'"[e], "\n\n\n\n\f\f\r\r\t\t$'"[e]
	c := vfU8("c")
	vfAssume(c != '\'' && c != '$' && c < 0x80 && c >= ' ')
	text, u, n := "$"+string([]byte{esc}), uint64(val), 2
	switch vfPick("at", 3) {
	case 0:
		n = 1
	case 1:
		text, u = text+string([]byte{c}), u<<8|uint64(c)
	case 2:
		text, u = string([]byte{c})+text, uint64(c)<<8|u
	}
	v, err := L5xTypeToGoType(t.name, "'"+text+"'")
	if n > t.bits/8 {
		vfAssert(err != nil, "more text than the type has bytes is an error")
	} else {
		vfAssert(err == nil && vfIs(k, v, u), "the value is the text's bytes")
	}
}

// VF_C29_invalid: every integer, boolean and float type; any text of 0 to 3 bytes (thorough: 4) holding a character no number
// has, digits outside the radix, a radix that is not 2, 8 or 16, or no digits: an error, never a value.
func VF_C29_invalid() {
	names := []string{"SINT", "DINT", "ULINT", "BOOL", "BIT", "BYTE"}
	name := names[vfPick("type", len(names))]
	switch vfPick("how", 4) {
	case 0:
		b := vfBytes("b", vfPick("n", 4+vfTier()))
		odd := len(b) == 0
		for _, c := range b {
			letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			odd = odd || !(c >= '0' && c <= '9' || letter || c == '_' || c == '#' || c == '\'' || c == '$' || c == '+' || c == '-')
		}
		vfAssume(odd)
		vfAssume(len(b) == 0 || b[0] != '\'')
		_, err := L5xTypeToGoType(name, string(b))
		vfAssert(err != nil, "text with other characters is an error")
	case 1:
		c := vfU8("c")
		r := vfPick("radix", 4)
		hex := c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
		ok := []bool{c == '0' || c == '1', c >= '0' && c <= '7', hex, c >= '0' && c <= '9'}[r]
		vfAssume(!ok && c != '_')
		vfAssume(!(r == 3 && name == "BOOL" || r == 3 && name == "BIT"))
		_, err := L5xTypeToGoType(name, []string{"2#0", "8#0", "16#0", "0"}[r]+string([]byte{c}))
		vfAssert(err != nil, "a digit outside the radix is an error")
	case 2:
		r := vfU8("radix")
		vfAssume(r != '2' && r != '8')
		_, err := L5xTypeToGoType(name, string([]byte{r})+"#1")
		vfAssert(err != nil, "an unknown radix is an error")
	case 3:
		_, err := L5xTypeToGoType(name, []string{"", "-", "16#", "2#", "8#_", "''", "'", "'$'", "'$4'", "'a", "#", "1#1", "10#5"}[vfPick("text", 13)])
		vfAssert(err != nil, "text without digits is an error")
	}
}

// VF_C29_bool: booleans in decimal and the other radixes, and numbers that are not booleans.
func VF_C29_bool() {
	name := []string{"BOOL", "BIT"}[vfPick("type", 2)]
	prefix := []string{"", "2#", "8#", "16#"}[vfPick("radix", 4)]
	c := vfU8("c")
	vfAssume(c >= '0' && c <= '9')
	v, err := L5xTypeToGoType(name, prefix+string([]byte{c}))
	if c > '1' {
		vfAssert(err != nil, "a boolean is 0 or 1")
		return
	}
	b, ok := v.(bool)
	vfAssert(err == nil && ok && b == (c == '1'), "the boolean written")
}

// VF_C29_float: a list of decimal, exponential and special float texts, and texts that are none.
func VF_C29_float() {
	name := []string{"REAL", "LREAL"}[vfPick("type", 2)]
	good := []struct {
		s string
		f float64
	}{{"0.0", 0}, {"1.5", 1.5}, {"-2.25", -2.25}, {"93.45", 93.45}, {"1.00000000e+003", 1000}, {"-1.5e-2", -0.015},
		{"1.17549435e-038", 1.17549435e-038}, {"7", 7}, {"3.40282347e+038", 3.40282347e+038}}
	switch vfPick("how", 3) {
	case 0:
		g := good[vfPick("text", len(good))]
		v, err := L5xTypeToGoType(name, g.s)
		f, ok := v.(float64)
		vfAssert(err == nil && ok && f == g.f, "the float written")
	case 1:
		i := vfPick("text", 5)
		v, err := L5xTypeToGoType(name, []string{"1.#QNAN", "-1.#IND0000e+000", "1.#INF", "-1.#INF000e+000", "1.#SNAN"}[i])
		f, ok := v.(float64)
		vfAssert(err == nil && ok, "a special value")
		want := []bool{f != f, f != f, math.IsInf(f, 1), math.IsInf(f, -1), f != f}[i]
		vfAssert(want, "the special value written")
	case 2:
		_, err := L5xTypeToGoType(name, []string{"", "x", "1.2.3", "1,5", "1.#", "2.#INF", "1.#FOO", "--1", "1e", "'1'"}[vfPick("text", 10)])
		vfAssert(err != nil, "text that is not a float is an error")
	}
}

func vfDint(name string) (string, int32) {
	d := vfBytes(name, 3)
	u := int32(0)
	for _, c := range d {
		vfAssume(c >= '0' && c <= '9')
		u = u*10 + int32(c-'0')
	}
	return string(d), u
}

func vfIsDint(m map[string]any, name string, want int32) bool {
	v, ok := m[name].(int32)
	return ok && v == want
}

// vfStruct is a structure with a number, a text, a nested structure and an array, and a check of what was loaded of it.
func vfStruct() (*DataStructure, func(v any) bool) {
	t, u := vfDint("num")
	t2, u2 := vfDint("inner")
	t3, u3 := vfDint("e0")
	t4, u4 := vfDint("e1")
	str := vfStr("text", 2)
	for _, c := range []byte(str) {
		vfAssume(c >= 'a' && c <= 'z')
	}
	s := &DataStructure{
		DataTypeAttr: "UDT",
		DataValueMember: []*DataValue{{NameAttr: "Num", DataTypeAttr: "DINT", ValueAttr: t},
			{NameAttr: "Text", DataTypeAttr: []string{"STRING", "MyString"}[vfPick("strtype", 2)], InnerValue: []byte("\n<![CDATA['" + str + "']]>\n")}},
		StructureMember: []*DataStructure{{NameAttr: "Inner", DataTypeAttr: "X", DataValueMember: []*DataValue{{NameAttr: "Num", DataTypeAttr: "DINT", ValueAttr: t2}}}},
		ArrayMember:     []*DataArray{{NameAttr: "Arr", DataTypeAttr: "DINT", DimensionsAttr: "2", Element: []*DataArrayElement{{IndexAttr: "[0]", ValueAttr: t3}, {IndexAttr: "[1]", ValueAttr: t4}}}},
	}
	return s, func(v any) bool {
		m, ok := v.(map[string]any)
		if !ok || len(m) != 4 {
			return false
		}
		in, ok := m["Inner"].(map[string]any)
		if !ok || len(in) != 1 {
			return false
		}
		arr, ok := m["Arr"].([]any)
		if !ok || len(arr) != 2 {
			return false
		}
		x, y := arr[0].(int32), arr[1].(int32)
		return vfIsDint(m, "Num", u) && m["Text"] == str && vfIsDint(in, "Num", u2) && x == u3 && y == u4
	}
}

// VF_C29_load: a controller and a program with numbers, structures, arrays of numbers and of structures, several
// dimensions, strings and tags without data; any values of 3 digits; any one of them not a number.
func VF_C29_load() {
	t1, u1 := vfDint("a")
	t2, u2 := vfDint("b")
	t3, u3 := vfDint("c")
	s1, ok1 := vfStruct()
	s2, ok2 := vfStruct()
	raw := &DataWideType{FormatAttr: "L5K", InnerValue: []byte("<![CDATA[5]]>")}
	tag := func(name, typ, dims string, d *DataWideType) *TagType {
		d.FormatAttr = "Decorated"
		return &TagType{NameAttr: name, DataTypeAttr: typ, DimensionsAttr: dims, Data: []*DataWideType{raw, d}}
	}
	mk := func() []*TagType {
		return []*TagType{
			tag("One", "DINT", "", &DataWideType{DataValue: &DataValue{DataTypeAttr: "DINT", ValueAttr: t1}}),
			{NameAttr: "Alias"},
			tag("Arr", "INT", "2 1", &DataWideType{Array: &DataArray{DataTypeAttr: "INT", DimensionsAttr: "2,1", Element: []*DataArrayElement{{IndexAttr: "[0,0]", ValueAttr: t2}, {IndexAttr: "[1,0]", ValueAttr: "16#00ff"}}}}),
			tag("Two", "DINT", "", &DataWideType{DataValue: &DataValue{DataTypeAttr: "DINT", ValueAttr: t3}}),
			tag("Str", "UDT", "", &DataWideType{Structure: s1}),
			tag("Strs", "UDT", "2", &DataWideType{Array: &DataArray{DataTypeAttr: "UDT", DimensionsAttr: "2", Element: []*DataArrayElement{{IndexAttr: "[0]", Structure: []*DataStructure{s2}}, {IndexAttr: "[1]", Structure: []*DataStructure{s1}}}}}),
		}
	}
	check := func(m map[string]any) bool {
		arr, ok := m["Arr"].([]any)
		if !ok || len(arr) != 2 {
			return false
		}
		strs, ok := m["Strs"].([]any)
		if !ok || len(strs) != 2 {
			return false
		}
		e0, _ := arr[0].(int16)
		e1, _ := arr[1].(int16)
		return vfIsDint(m, "One", u1) && vfIsDint(m, "Two", u3) && int32(e0) == u2 && e1 == 255 && ok1(m["Str"]) && ok2(strs[0]) && ok1(strs[1])
	}
	ct, pt := mk(), mk()
	bad := vfPick("bad", 7)
	switch bad {
	case 1:
		ct[0].Data[1].DataValue.ValueAttr = "x"
	case 2:
		pt[3].Data[1].DataValue.ValueAttr = ""
	case 3:
		pt[2].Data[1].Array.Element[1].ValueAttr = "99999"
	case 4:
		s1.DataValueMember[0].ValueAttr = "1x"
	case 5:
		s2.StructureMember[0].DataValueMember[0].ValueAttr = "-"
	case 6:
		s2.ArrayMember[0].Element[1].ValueAttr = "3000000000"
	}
	var d RSLogix5000Content = &ProjectType{Controller: &ControllerType{
		Tags:     &TagCollectionType{Tag: ct},
		Programs: &ProgramCollectionType{Program: []*AProgramType{{NameAttr: "Main", Tags: &TagCollectionType{Tag: pt}}, {NameAttr: "Empty"}}},
	}}
	tags, err := LoadTags(d)
	if bad > 0 {
		vfAssert(err != nil, "text that is not a value of its type is an error")
		return
	}
	vfAssert(err == nil, "the file loads")
	prog, ok := tags["program:Main"].(map[string]any)
	vfAssert(ok && len(prog) == 5 && check(prog), "every program tag, member and element has its own value")
	vfAssert(len(tags) == 7 && check(tags), "every controller tag, member and element has its own value")
}

// VF_C29_none: files without a controller, tags or programs load as nothing.
func VF_C29_none() {
	var d RSLogix5000Content
	n := 0
	switch vfPick("what", 3) {
	case 0:
		d = &ProjectType{}
	case 1:
		d = &ProjectType{Controller: &ControllerType{}}
	case 2:
		d = &ProjectType{Controller: &ControllerType{Programs: &ProgramCollectionType{Program: []*AProgramType{{NameAttr: "P"}}}}}
		n = 1
	}
	tags, err := LoadTags(d)
	vfAssert(err == nil && len(tags) == n, "nothing is loaded")
}
