package gologix

import (
	"errors"
	"reflect"
)

// vfEnd2End is a client connected to a server with one tag provider.
func vfEnd2End(p CIPEndpoint) *Client {
	vfRands = 0
	r := NewRouter()
	r.Handle([]byte{1, 0}, p)
	srv := NewServer(r)
	srv.ConnMgr.Init(srv.Logger)
	c, _ := vfSrvClient(srv)
	vfAssert(c.Connect() == nil, "the client connects to the server")
	return c
}

// vfTyped is a value of a kind, its raw bytes, a pointer to read it with and its size.
func vfTyped(label string, kind int) (v any, raw []byte, into any) {
	into, size := vfReadPtr(kind)
	raw = vfBytes(label, size)
	if kind == 0 {
		vfAssume(raw[0] <= 1)
	}
	v = vfGoOf(kind, raw)
	return v, raw, into
}

// vfTypedSlice is vfTyped for a slice of n elements.
func vfTypedSlice(label string, kind, n int) (v any, raw []byte, into any) {
	s := reflect.ValueOf(vfReadSlice(kind, n))
	for i := 0; i < n; i++ {
		e, b, _ := vfTyped(label, kind)
		s.Index(i).Set(reflect.ValueOf(e))
		raw = append(raw, b...)
	}
	return s.Interface(), raw, reflect.New(s.Type()).Interface()
}

func vfSliceHolds(v any, raw []byte, n int) bool {
	s := reflect.ValueOf(v)
	if s.Kind() != reflect.Slice || s.Len() != n {
		return false
	}
	w := 0
	if n > 0 {
		w = len(raw) / n
	}
	ok := true
	for i := 0; i < n; i++ {
		ok = ok && vfHolds(s.Index(i).Interface(), raw[i*w:(i+1)*w])
	}
	return ok
}

// VF_C15_scalar: any value of the eleven scalar types, written with Write and read with Read and with Read_single; the
// tag is new or had another value, its name of 1 or 4 letters in any case; an unrelated tag keeps its value.
func VF_C15_scalar() {
	kind := vfPick("kind", vfReadKinds)
	v, raw, into := vfTyped("v", kind)
	name := []string{"a", "tagx"}[vfPick("name", 2)]
	p := &MapTagProvider{}
	other := int32(vfU32("other"))
	p.Data = map[string]any{"b": other, "tagy": other}
	if vfPick("exists", 2) == 1 {
		old, _, _ := vfTyped("old", kind)
		p.Data[name] = old
	}
	c := vfEnd2End(p)
	up := name
	if vfPick("upper", 2) == 1 {
		up = []string{"A", "TagX"}[len(name)/4]
	}
	vfAssert(c.Write(up, v) == nil, "a write the server can take succeeds")
	vfAssert(c.Read(name, into) == nil, "a tag that was written can be read")
	vfAssert(vfHolds(vfDeref(into), raw), "the value read is the value written")
	var o int32
	vfAssert(c.Read("tagy", &o) == nil && o == other, "another tag still has its own value")
	vfObsU("other", uint64(uint32(o)))
	vfReach("read back")
}

// VF_C15_slice: slices of 1 to 3 elements (thorough: to 6) of every type but bool ([]bool is read as packed words) with any values, written to a new tag or over
// a longer one, and read back whole.
func VF_C15_slice() {
	kind := 1 + vfPick("kind", vfReadKinds-1) // []bool is read as packed 32 bit words, see the bounds
	n := 1 + vfPick("n", 3+3*vfTier())
	v, raw, _ := vfTypedSlice("v", kind, n)
	into := vfReadSlice(kind, n)
	p := &MapTagProvider{Data: map[string]any{}}
	if vfPick("exists", 2) == 1 {
		old, _, _ := vfTypedSlice("old", kind, n)
		p.Data["arr"] = old
	}
	c := vfEnd2End(p)
	vfAssert(c.Write("arr", v) == nil, "a write of an array succeeds")
	vfAssert(c.Read("arr", into) == nil, "an array that was written can be read")
	vfAssert(vfSliceHolds(into, raw, n), "the elements read are the elements written, in order")
	vfReach("read back")
}

// VF_C15_element: an array of 3 elements of each type with any values on the server: one element written through its
// index, then all of them, one, and the two last ones read through an index; an index outside of the array is an error.
func VF_C15_element() {
	kind := vfPick("kind", vfReadKinds)
	arr, raw, _ := vfTypedSlice("arr", kind, 3)
	v, nraw, into := vfTyped("v", kind)
	c := vfEnd2End(&MapTagProvider{Data: map[string]any{"arr": arr}})
	i := vfPick("i", 4)
	path := []string{"arr[0]", "arr[1]", "Arr[2]", "arr[3]"}[i]
	err := c.Write(path, v)
	w := len(raw) / 3
	if i == 3 {
		vfAssert(err != nil, "a write outside of the array is an error")
	} else {
		vfAssert(err == nil, "a write of an element succeeds")
		copy(raw[i*w:], nraw)
	}
	if kind != 0 {
		all := vfReadSlice(kind, 3)
		vfAssert(c.Read("arr", all) == nil && vfSliceHolds(all, raw, 3), "only the element that was written changes")
		two := vfReadSlice(kind, 2)
		vfAssert(c.Read("arr[1]", two) == nil && vfSliceHolds(two, raw[w:], 2), "a read at an index starts with its element")
	}
	err = c.Read(path, into)
	if i == 3 {
		vfAssert(err != nil, "a read outside of the array is an error")
		return
	}
	vfAssert(err == nil && vfHolds(vfDeref(into), nraw), "an element reads as it was written")
	vfReach("read back")
}

// VF_C15_string: strings of 0, 1, 5, 81 and 82 any characters, alone or as arrays of 1 to 3 strings, to a new tag or
// over an old value.
func VF_C15_string() {
	lens := []int{0, 1, 5, 81, 82}
	n := vfPick("n", 4)
	p := &MapTagProvider{Data: map[string]any{}}
	old := vfPick("exists", 2)
	if n == 0 {
		s := vfStr("s", lens[vfPick("len", 5)])
		if old == 1 {
			p.Data["str"] = "older text"
		}
		c := vfEnd2End(p)
		vfAssert(c.Write("str", s) == nil, "a write of a string succeeds")
		var out string
		vfAssert(c.Read("Str", &out) == nil, "a string that was written can be read")
		vfAssert(out == s, "the string read is the string written")
		vfReach("string")
		return
	}
	ss := make([]string, n)
	k := vfPick("len", 5)
	for i := range ss {
		ss[i] = vfStr("s", lens[(k+i)%5])
	}
	if old == 1 {
		p.Data["str"] = make([]string, 4)
	}
	c := vfEnd2End(p)
	vfAssert(c.Write("str", ss) == nil, "a write of strings succeeds")
	out := make([]string, n)
	vfAssert(c.Read("str", out) == nil, "strings that were written can be read")
	same := true
	for i := range ss {
		same = same && out[i] == ss[i]
	}
	vfAssert(same, "the strings read are the strings written, in order")
	vfReach("strings")
}

// vfPickyTags refuses writes of negative numbers and of everything to tags that do not exist.
type vfPickyTags struct{ MapTagProvider }

func (p *vfPickyTags) TagWrite(tag string, value any) error {
	if n, ok := value.(int32); ok && n < 0 {
		return errors.New("negative")
	}
	if _, ok := p.Data[tag]; !ok {
		return errors.New("no such tag")
	}
	return p.MapTagProvider.TagWrite(tag, value)
}

// VF_C15_history: two to three (thorough: four) operations, each a write or a read of one of two existing tags or of one
// the server does not have, to a provider that takes everything but negative numbers: every read gives the last value
// taken, and failures leave everything as it was and the client usable.
func VF_C15_history() {
	names := []string{"one", "two", "ghost"}
	vals := []int32{int32(vfU32("init")), int32(vfU32("init"))}
	p := &vfPickyTags{}
	p.Data = map[string]any{"one": vals[0], "two": vals[1]}
	c := vfEnd2End(p)
	n := 2 + vfPick("ops", 2+vfTier())
	for i := 0; i < n; i++ {
		t := vfPick("tag", 3)
		if vfPick("op", 2) == 0 {
			v := int32(vfU32("v"))
			err := c.Write(names[t], v)
			if t == 2 || v < 0 {
				vfAssert(err != nil, "a write the server refuses is an error")
				continue
			}
			vfAssert(err == nil, "a write the server takes succeeds")
			vals[t] = v
			continue
		}
		out := int32(vfU32("before"))
		err := c.Read(names[t], &out)
		if t == 2 {
			vfAssert(err != nil, "a tag the server does not have reads as an error")
			continue
		}
		vfAssert(err == nil, "an existing tag can be read")
		vfAssert(out == vals[t], "a read gives the last value written to that tag")
	}
	for t, v := range vals {
		var out int32
		vfAssert(c.Read(names[t], &out) == nil && out == v, "every tag has the last value written to it")
	}
	vfReach("done")
}

// VF_C15_multi: WriteMap of two tags and ReadMulti and ReadList of them with any values of any two types (string, array of
// two DINTs or scalar); a tag the server does not have, or a value it refuses, is an error and the other tag is written.
func VF_C15_multi() {
	p := &vfPickyTags{}
	p.Data = map[string]any{"a": int32(1), "b": "x", "arr": []int32{1, 2}}
	c := vfEnd2End(p)
	a := int32(vfU32("a"))
	b := vfStr("b", 3)
	arr := []int32{int32(vfU32("arr")), int32(vfU32("arr"))}
	m := map[string]any{"a": a, "b": b, "arr": arr}
	ghost := vfPick("ghost", 2) == 1
	if ghost {
		m["ghost"] = int16(5)
	}
	err := c.WriteMap(m)
	vfAssert((err != nil) == (ghost || a < 0), "a write of several tags fails exactly if one of them does")
	if a < 0 {
		a = 1
	}
	if vfPick("how", 2) == 0 {
		var s struct {
			A   int32   `gologix:"a"`
			B   string  `gologix:"b"`
			Arr []int32 `gologix:"arr"`
		}
		s.Arr = make([]int32, 2)
		vfAssert(c.ReadMulti(&s) == nil, "existing tags can be read together")
		vfAssert(s.A == a && s.B == b, "each field gets the value of its tag")
		vfAssert(len(s.Arr) == 2 && s.Arr[0] == arr[0] && s.Arr[1] == arr[1], "an array field gets the values of its tag")
		vfReach("struct")
		return
	}
	vals, err := c.ReadList([]string{"b", "arr", "a"}, []any{"", []int32{0, 0}, int32(0)}, []int{1, 2, 1})
	vfAssert(err == nil && len(vals) == 3, "existing tags can be listed together")
	vb, ok := vals[0].(string)
	vfAssert(ok && vb == b, "the first result is the first tag's")
	va, ok := vals[2].(int32)
	vfAssert(ok && va == a, "the last result is the last tag's")
	_, err = c.ReadList([]string{"b", "ghost"}, []any{"", int32(0)}, []int{1, 1})
	vfAssert(err != nil, "a tag the server does not have is an error")
	vfReach("list")
}

// VF_C15_types: a tag of one type read as another: an error, or the tag's own bits; never panics and never changes it.
func VF_C15_types() {
	kind := vfPick("kind", vfReadKinds)
	as := vfPick("as", vfReadKinds)
	v, raw, into := vfTyped("v", kind)
	other, _ := vfReadPtr(as)
	c := vfEnd2End(&MapTagProvider{Data: map[string]any{"t": v}})
	err := c.Read("t", other)
	vfAssert(err != nil || as == kind, "reading a tag as another type is an error")
	vfAssert(c.Read("t", into) == nil && vfHolds(vfDeref(into), raw), "the tag keeps its value")
}

// VF_C15_large: arrays of 900, 1000, 1500 and 3000 DINTs, where the first, the middle and the last element have any value:
// one write and one read if it fits into one message, refused with an error otherwise, never a wrong value.
func VF_C15_large() {
	n := []int{900, 1000, 1500, 3000}[vfPick("n", 4)]
	v := make([]int32, n)
	for i := range v {
		v[i] = int32(i*7 + 1)
	}
	v[0], v[n/2], v[n-1] = int32(vfU32("first")), int32(vfU32("mid")), int32(vfU32("last"))
	p := &MapTagProvider{Data: map[string]any{}}
	have := vfPick("exists", 2) == 1
	if have {
		p.Data["arr"] = v
	}
	c := vfEnd2End(p)
	if !have {
		err := c.Write("arr", v)
		vfAssert(err == nil || n > 900, "an array that fits into a message can be written")
		if err != nil {
			_, ok := p.Data["arr"]
			vfAssert(!ok, "a refused write changes nothing")
			return
		}
	}
	into := make([]int32, n)
	err := c.Read("arr", into)
	vfAssert(err == nil || n > 900, "an array that fits into a message can be read")
	if err == nil {
		same := true
		for i := range v {
			same = same && into[i] == v[i]
		}
		vfAssert(same, "the elements read are the elements written")
		vfReach("read back")
	}
}
