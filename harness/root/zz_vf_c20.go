package gologix

import (
	"math"
	"reflect"
)

// vfScalarKinds is the number of Go kinds vfScalar makes: bool, the ten numbers, string.
const vfScalarKinds = 12

// vfScalar is the Go value of a kind with the given bits.
func vfScalar(kind int, u uint64) any {
	switch kind {
	case 0:
		return u&1 == 1
	case 1:
		return int8(u)
	case 2:
		return int16(u)
	case 3:
		return int32(u)
	case 4:
		return int64(u)
	case 5:
		return uint8(u)
	case 6:
		return uint16(u)
	case 7:
		return uint32(u)
	case 8:
		return u
	case 9:
		f := math.Float32frombits(uint32(u))
		vfAssume(f == f)
		return f
	case 10:
		f := math.Float64frombits(u)
		vfAssume(f == f)
		return f
	}
	return string([]byte{byte(u), byte(u >> 8)})
}

// vfSliceOf is a slice of n values of a kind.
func vfSliceOf(kind, n int) reflect.Value {
	s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(vfScalar(kind, 0))), n, n)
	for i := 0; i < n; i++ {
		s.Index(i).Set(reflect.ValueOf(vfScalar(kind, vfU64("el"))))
	}
	return s
}

// vfTag is a tag name of n letters and digits in any case.
func vfTag(n int) string {
	b := vfBytes("tag", n)
	for i, c := range b {
		vfAssume(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '_' || i > 0 && c >= '0' && c <= '9')
	}
	return string(b)
}

func vfUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		d := c
		if c >= 'a' && c <= 'z' {
			d = c - 32
		}
		b[i] = d
	}
	return string(b)
}

// VF_C20_scalar: two tags with any names of 1 or 2 characters that differ in more than case, written once or twice with
// values of any scalar kind and read back in another case with any count.
func VF_C20_scalar() {
	p := &MapTagProvider{}
	n := 1 + vfPick("len", 2)
	a, b := vfTag(n), vfTag(n)
	vfAssume(vfLower(a) != vfLower(b))
	k := vfPick("kind", vfScalarKinds)
	v, w := vfScalar(k, vfU64("v")), vfScalar((k+5)%vfScalarKinds, vfU64("w"))
	_, err := p.TagRead(a, 1)
	vfAssert(err != nil, "a tag never written is an error")
	vfAssert(p.TagWrite(a, vfScalar(3, 77)) == nil, "a first write succeeds")
	vfAssert(p.TagWrite(b, w) == nil, "a write to another tag succeeds")
	vfAssert(p.TagWrite(vfUpper(a), v) == nil, "a second write succeeds")
	got, err := p.TagRead(vfLower(a), 1)
	vfAssert(err == nil && got == v, "the last value written is read back")
	got, err = p.TagRead(vfUpper(b), 1)
	vfAssert(err == nil && got == w, "the other tag keeps its own value")
	q := int16(vfU16("qty"))
	vfAssume(q < 0 || q > 1)
	_, err = p.TagRead(a, q)
	vfAssert(err != nil, "a scalar has one element")
	_, err = p.TagRead(a+"[0]", 1)
	vfAssert(err != nil, "a scalar has no elements")
	vfAssert(p.TagWrite(a+"[0]", v) != nil, "a scalar's element cannot be written")
	got, err = p.TagRead(a, 1)
	vfAssert(err == nil && got == v, "still the last value written")
}

func vfSameSlice(got any, want reflect.Value) bool {
	g := reflect.ValueOf(got)
	if g.Kind() != reflect.Slice || g.Type() != want.Type() || g.Len() != want.Len() {
		return false
	}
	return reflect.DeepEqual(got, want.Interface())
}

// VF_C20_slice: arrays of 1 to 3 elements (thorough: 4) of any kind; reads with any count and any index from -1 to 5 or none.
func VF_C20_slice() {
	p := &MapTagProvider{}
	k := vfPick("kind", vfScalarKinds)
	n := 1 + vfPick("n", 3+vfTier())
	s := vfSliceOf(k, n)
	vfAssert(p.TagWrite("Arr", s.Interface()) == nil, "an array is written")
	q := int16(vfU16("qty"))
	i := vfPick("index", 8) - 2
	tag, from := "ARR", 0
	if i > -2 {
		tag, from = "aRR["+[]string{"-1", "0", "1", "2", "3", "4", "5"}[i+1]+"]", i
	}
	got, err := p.TagRead(tag, q)
	if q < 0 || from < 0 || from >= n || from+int(q) > n {
		vfAssert(err != nil, "elements outside the array are an error")
		return
	}
	if q == 0 {
		return
	}
	vfAssert(err == nil, "elements of the array are read")
	c := int(vfConc(uint64(q)))
	if c == 1 && i > -2 {
		vfAssert(reflect.DeepEqual(got, s.Index(from).Interface()), "the element is that element")
		return
	}
	vfAssert(vfSameSlice(got, s.Slice(from, from+c)), "the elements are those elements in order")
	// what the caller does with the result does not reach the stored array
	before := s.Index(from).Interface()
	reflect.ValueOf(got).Index(0).Set(reflect.ValueOf(vfScalar(k, vfU64("other"))))
	got, err = p.TagRead("arr[0]", 1)
	vfAssert(err == nil && (from > 0 || reflect.DeepEqual(got, before)), "a result is the caller's own")
}

// vfRepresentable is the value of kind to that equals the number v of kind from, if there is one.
func vfRepresentable(from, to int, u uint64) (uint64, bool) {
	lo := []int64{0, -1 << 7, -1 << 15, -1 << 31, -1 << 63}
	hi := []uint64{0, 1<<7 - 1, 1<<15 - 1, 1<<31 - 1, 1<<63 - 1, 1<<8 - 1, 1<<16 - 1, 1<<32 - 1, 1<<64 - 1}
	var neg bool
	if from <= 4 {
		n := []int64{0, int64(int8(u)), int64(int16(u)), int64(int32(u)), int64(u)}[from]
		neg, u = n < 0, uint64(n)
	} else {
		u &= hi[from]
	}
	if neg {
		return u, to <= 4 && int64(u) >= lo[to]
	}
	return u, u <= hi[to]
}

// VF_C20_convert: an element of an array of every integer kind is overwritten with every value of every scalar kind; the
// other elements keep their values, and a value that is not representable changes nothing.
func VF_C20_convert() {
	p := &MapTagProvider{}
	to := 1 + vfPick("to", 8)
	from := vfPick("from", vfScalarKinds)
	s := vfSliceOf(to, 3)
	was := vfSliceOf(to, 3)
	reflect.Copy(was, s)
	vfAssert(p.TagWrite("arr", s.Interface()) == nil, "an array is written")
	i := vfPick("index", 3)
	tag := []string{"arr[0]", "Arr[1]", "arr[2]"}[i]
	u := vfU64("v")
	v := vfScalar(from, u)
	whole := vfBool("whole")
	var err error
	if whole {
		// the same conversion as a write of the whole array
		vals := []any{was.Index(0).Interface(), was.Index(1).Interface(), was.Index(2).Interface()}
		vals[i] = v
		err = p.TagWrite("arr", vals)
	} else {
		err = p.TagWrite(tag, v)
	}
	got, rerr := p.TagRead("arr", 3)
	vfAssert(rerr == nil, "the array is still there")
	if err != nil {
		vfAssert(vfSameSlice(got, was), "a refused write changes nothing")
	}
	switch {
	case from >= 1 && from <= 8:
		n, ok := vfRepresentable(from, to, u)
		vfAssert(ok == (err == nil), "an integer is converted exactly when it is representable")
		if ok {
			was.Index(i).Set(reflect.ValueOf(vfScalar(to, n)))
			vfAssert(vfSameSlice(got, was), "exactly that element has the value")
		}
	case from == 0 || from == 11:
		vfAssert(err != nil, "text and booleans are not numbers")
	}
}

// VF_C20_float: an element of an array of any integer kind is overwritten with any float: exactly the whole numbers in
// range are taken.
func VF_C20_float() {
	p := &MapTagProvider{}
	to := 1 + vfPick("to", 8)
	vfAssert(p.TagWrite("arr", vfSliceOf(to, 1).Interface()) == nil, "an array is written")
	var f float64
	var v any
	if vfBool("real") {
		x := math.Float32frombits(vfU32("f32"))
		f, v = float64(x), x
	} else {
		x := math.Float64frombits(vfU64("f64"))
		f, v = x, x
	}
	err := p.TagWrite("arr[0]", v)
	if err != nil {
		return
	}
	got, err := p.TagRead("arr[0]", 1)
	vfAssert(err == nil, "the element is read")
	r := reflect.ValueOf(got)
	if r.CanInt() {
		vfAssert(float64(r.Int()) == f && f < 1<<63, "the element is the float's number")
	} else {
		vfAssert(float64(r.Uint()) == f && f < 1<<64, "the element is the float's number")
	}
}

// VF_C20_tofloat: an element of a float array is overwritten with any integer: it is taken only if the float holds it.
func VF_C20_tofloat() {
	p := &MapTagProvider{}
	to := 9 + vfPick("to", 2)
	from := 1 + vfPick("from", 8)
	vfAssert(p.TagWrite("arr", vfSliceOf(to, 1).Interface()) == nil, "an array is written")
	u := vfU64("v")
	v := vfScalar(from, u)
	if p.TagWrite("arr[0]", v) != nil {
		return
	}
	got, err := p.TagRead("arr[0]", 1)
	vfAssert(err == nil, "the element is read")
	var f float64
	if to == 9 {
		f = float64(got.(float32))
	} else {
		f = got.(float64)
	}
	r := reflect.ValueOf(v)
	if r.CanInt() {
		vfAssert(f < 1<<63 && int64(f) == r.Int(), "the float is the integer")
	} else {
		vfAssert(f < 1<<64 && uint64(f) == r.Uint(), "the float is the integer")
	}
}

// VF_C20_new: a list of 1 to 3 values of one kind written to a new tag is stored as an array of that kind; values of
// different kinds are refused or kept as they are.
func VF_C20_new() {
	p := &MapTagProvider{}
	k := vfPick("kind", vfScalarKinds)
	n := 1 + vfPick("n", 3)
	s := vfSliceOf(k, n)
	var vals []any
	for i := 0; i < n; i++ {
		vals = append(vals, s.Index(i).Interface())
	}
	vfAssert(p.TagWrite("New", vals) == nil, "a new array is written")
	vals[0] = "changed by the caller"
	got, err := p.TagRead("new", int16(n))
	vfAssert(err == nil && vfSameSlice(got, s), "and read back as an array of its type")
}

// VF_C20_any: any tag text of up to 4 bytes (thorough: 5) or an index too big for an integer, any count, and values of
// any kind including none: never a panic, and the tag next to it keeps its value.
func VF_C20_any() {
	p := &MapTagProvider{}
	vfAssert(p.TagWrite("keepme", int32(5)) == nil && p.TagWrite("a", []int16{1, 2}) == nil, "writes succeed")
	var tag string
	switch vfPick("text", 3) {
	case 0:
		tag = vfStr("any", vfPick("n", 5+vfTier()))
	case 1:
		tag = "a[" + vfStr("index", vfPick("n", 4)) + "]"
	case 2:
		tag = "a[99999999999999999999999]"
	}
	var v any
	switch vfPick("value", 5) {
	case 0:
		v = vfScalar(3, vfU64("v"))
	case 1:
		v = []any{nil}
	case 2:
		v = []any{}
	case 3:
		v = struct{ A int }{1}
	}
	p.TagRead(tag, int16(vfU16("qty")))
	p.TagWrite(tag, v)
	p.TagRead(tag, int16(vfU16("qty")))
	p.TagList()
	got, err := p.TagRead("keepme", 1)
	vfAssert(err == nil && got == int32(5), "other tags keep their values")
}

// VF_C20_list: the list names every tag written, in lower case, with its type, for two tags of any kind.
func VF_C20_list() {
	p := &MapTagProvider{}
	k := 1 + vfPick("kind", 11)
	u := vfU64("v")
	v := vfScalar(k, u)
	vfAssert(p.TagWrite("One", v) == nil && p.TagWrite("tWO", vfSliceOf(k, 2).Interface()) == nil, "writes succeed")
	l := p.TagList()
	t, _ := GoVarToCIPType(v)
	vfAssert(len(l) == 2, "as many as were written")
	seen := map[string]CIPType{}
	for _, x := range l {
		seen[x.Name] = x.Type
	}
	vfAssert(seen["one"] == t && seen["two"] == t && len(seen) == 2, "each under its name with its type")
}

// VF_C20_large: arrays of 130, 300 and 40000 elements of three kinds among 300 other tags; elements 0, 127, 128, 255, 256, 32767, 32768 and the last are written with any value, and ranges from there on
// of 1, 2, 130, 300 and 32767 elements read.
func VF_C20_large() {
	shape := vfPick("shape", 3)
	n := []int{130, 300, 40000}[shape]
	p := &MapTagProvider{}
	name := vfLongName(40)
	for i := 0; i < 300; i++ {
		vfAssert(p.TagWrite(name+vfDigits(i), int32(i)) == nil, "a tag is written")
	}
	kind := []int{3, 2, 9}[shape]
	s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(vfScalar(kind, 0))), n, n)
	for i := 0; i < n && i < 400; i++ {
		s.Index(i).Set(reflect.ValueOf(vfScalar(kind, uint64(i))))
	}
	vfAssert(p.TagWrite(name, s.Interface()) == nil, "an array is written")
	at := []int{0, 127, 128, 255, 256, 32767, 32768, n - 1}[vfPick("at", 8)]
	v := vfScalar(kind, vfU64("v"))
	err := p.TagWrite(vfUpper(name)+"["+vfDigits(at)+"]", v)
	vfAssert((err == nil) == (at < n), "exactly an element of the array is written")
	if err == nil {
		s.Index(at).Set(reflect.ValueOf(v))
	}
	q := []int{1, 2, 130, 300, 32767}[vfPick("qty", 5)]
	from := 0
	tag := name
	if vfPick("index", 2) == 1 {
		from = at - vfPick("back", 2)
		if from < 0 {
			from = 0
		}
		tag += "[" + vfDigits(from) + "]"
	}
	got, err := p.TagRead(tag, int16(q))
	if from+q > n {
		vfAssert(err != nil, "elements outside the array are an error")
		vfReach("outside")
		return
	}
	vfAssert(err == nil, "elements of the array are read")
	if q == 1 && tag != name {
		vfAssert(reflect.DeepEqual(got, s.Index(from).Interface()), "the element is that element")
		return
	}
	g := reflect.ValueOf(got)
	vfAssert(g.Kind() == reflect.Slice && g.Type() == s.Type() && g.Len() == q, "the elements are as many as asked for")
	for _, i := range []int{0, q / 2, q - 1, at - from} {
		if i >= 0 && i < q {
			vfAssert(reflect.DeepEqual(g.Index(i).Interface(), s.Index(from+i).Interface()), "the elements are those elements in order")
		}
	}
	for _, i := range []int{0, 255, 256, 299} {
		got, err := p.TagRead(name+vfDigits(i), 1)
		vfAssert(err == nil && got == int32(i), "another tag keeps its value")
	}
	vfReach("read")
}
