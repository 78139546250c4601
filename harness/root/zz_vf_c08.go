package gologix

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"

	"github.com/danomagnum/gologix/lgxtypes"
)

// vfLay builds the bytes of a structure by the controller's layout rules, independently of Pack.
type vfLay struct {
	out    []byte
	bit    int
	nested bool
}

func (l *vfLay) align(a int) {
	l.bit = 0
	for len(l.out)%a != 0 {
		l.out = append(l.out, 0)
	}
}

func (l *vfLay) bool(b bool) {
	if l.bit == 0 {
		l.out = append(l.out, 0)
	}
	l.out[len(l.out)-1] |= vfBit(b) << l.bit
	l.bit = (l.bit + 1) % 8
}

func (l *vfLay) num(size int, v uint64) {
	l.align(size)
	for i := 0; i < size; i++ {
		l.out = append(l.out, byte(v>>(8*i)))
	}
}

// vfMem is a member type, its struct tag, its alignment, and a function that gives an addressable member symbolic
// contents and lays the same contents out by the controller's rules.
type vfMem struct {
	t     reflect.Type
	tag   reflect.StructTag
	align int
	fill  func(v reflect.Value, l *vfLay)
}

func vfMemberOf(kind int) vfMem {
	num := func(size int, set func(v reflect.Value, n uint64)) func(v reflect.Value, l *vfLay) {
		return func(v reflect.Value, l *vfLay) {
			n := vfNum(vfBytes("num", size))
			set(v, n)
			l.num(size, n)
		}
	}
	bools := func(v reflect.Value, l *vfLay) {
		for i := 0; i < v.Len(); i++ {
			b := vfBool("b")
			v.Index(i).SetBool(b)
			l.bool(b)
		}
	}
	switch kind {
	case 0:
		return vfMem{reflect.TypeOf(false), "", 1, func(v reflect.Value, l *vfLay) {
			b := vfBool("b")
			v.SetBool(b)
			l.bool(b)
		}}
	case 1:
		return vfMem{reflect.TypeOf(false), `pack:"nopack"`, 1, func(v reflect.Value, l *vfLay) {
			b := vfBool("b")
			v.SetBool(b)
			n := uint64(0)
			if b {
				n = 1
			}
			l.num(1, n)
		}}
	case 2:
		return vfMem{reflect.TypeOf([3]bool{}), "", 1, bools}
	case 3:
		return vfMem{reflect.TypeOf([13]bool{}), "", 1, bools}
	case 4:
		return vfMem{reflect.TypeOf(int8(0)), "", 1, num(1, func(v reflect.Value, n uint64) { v.SetInt(int64(int8(n))) })}
	case 5:
		return vfMem{reflect.TypeOf(uint16(0)), "", 2, num(2, func(v reflect.Value, n uint64) { v.SetUint(n) })}
	case 6:
		return vfMem{reflect.TypeOf(int32(0)), "", 4, num(4, func(v reflect.Value, n uint64) { v.SetInt(int64(int32(n))) })}
	case 7:
		return vfMem{reflect.TypeOf(uint64(0)), "", 8, num(8, func(v reflect.Value, n uint64) { v.SetUint(n) })}
	case 8:
		return vfMem{reflect.TypeOf(float32(0)), "", 4, func(v reflect.Value, l *vfLay) {
			n := vfU32("f")
			f := math.Float32frombits(n)
			vfAssume(f == f)
			v.Set(reflect.ValueOf(f))
			l.num(4, uint64(n))
		}}
	case 9:
		return vfMem{reflect.TypeOf([3]int16{}), "", 2, func(v reflect.Value, l *vfLay) {
			for i := 0; i < 3; i++ {
				n := vfU16("num")
				v.Index(i).SetInt(int64(int16(n)))
				l.num(2, uint64(n))
			}
		}}
	case 10:
		return vfMem{reflect.TypeOf(int64(0)), "", 8, num(8, func(v reflect.Value, n uint64) { v.SetInt(int64(n)) })}
	case 11:
		return vfMem{reflect.TypeOf(uint8(0)), "", 1, num(1, func(v reflect.Value, n uint64) { v.SetUint(n) })}
	}
	panic("kind")
}

// vfSub is a nested structure, vfSubs an array of n of them.
func vfSub(m vfMem) vfMem {
	return vfMem{m.t, "", m.align, func(v reflect.Value, l *vfLay) {
		l.align(m.align)
		sub := vfLay{}
		m.fill(v, &sub)
		l.out = append(l.out, sub.out...)
	}}
}

func vfSubs(m vfMem, n int) vfMem {
	return vfMem{reflect.ArrayOf(n, m.t), "", m.align, func(v reflect.Value, l *vfLay) {
		for i := 0; i < n; i++ {
			l.align(m.align)
			sub := vfLay{}
			m.fill(v.Index(i), &sub)
			l.out = append(l.out, sub.out...)
		}
		l.align(m.align)
	}}
}

// vfStructOf is a structure of the given members.
func vfStructOf(ms ...vfMem) vfMem {
	var fields []reflect.StructField
	align := 1
	for i, m := range ms {
		if m.align > align {
			align = m.align
		}
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: m.t, Tag: m.tag})
	}
	return vfMem{reflect.StructOf(fields), "", align, func(v reflect.Value, l *vfLay) {
		for i := range ms {
			ms[i].fill(v.Field(i), l)
		}
	}}
}

func vfPickMem(kinds ...int) vfMem { return vfMemberOf(kinds[vfPick("kind", len(kinds))]) }

func vfPackCheck(m vfMem) {
	p := reflect.New(m.t)
	l := vfLay{}
	m.fill(p.Elem(), &l)
	var b bytes.Buffer
	n, err := Pack(&b, p.Elem().Interface())
	vfAssert(err == nil, "a structure packs")
	vfAssert(vfEq(b.Bytes(), l.out), "members at the controller's offsets, booleans bit by bit, padding zero")
	vfAssert(n == len(l.out), "the size is reported")
	vfObsB("packed", b.Bytes())
	back := reflect.New(m.t)
	r := &vfChunks{vfCat(l.out, []byte{0xEE}), 1000}
	variant := vfPick("variant", 4)
	if variant == 3 {
		r.n = 3
	}
	n, err = Unpack(r, back.Interface())
	vfAssert(err == nil, "the packed bytes unpack")
	vfAssert(n == len(l.out) && len(r.data) == 1, "exactly the structure's bytes are taken")
	vfAssert(reflect.DeepEqual(p.Elem().Interface(), back.Elem().Interface()), "the same values come back")
	if variant < 3 {
		short := []int{0, len(l.out) / 2, len(l.out) - 1}[variant]
		_, err = Unpack(bytes.NewReader(l.out[:short]), reflect.New(m.t).Interface())
		vfAssert(err != nil, "too few bytes is an error")
	}
}

var vfAllKinds = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}

// VF_C08_flat: structures of 3 members (the middle one a boolean or byte; thorough: 4) where the outer ones are of any kind: booleans (packed or not),
// boolean arrays of 3 and 13, integers of every size, floats, integer arrays; every value.
func VF_C08_flat() {
	ms := []vfMem{vfPickMem(vfAllKinds...)}
	if vfTier() > 0 {
		ms = append(ms, vfPickMem(0, 4, 5, 6), vfPickMem(0, 3, 7, 11))
	} else {
		ms = append(ms, vfPickMem(0, 4))
	}
	ms = append(ms, vfPickMem(vfAllKinds...))
	vfPackCheck(vfStructOf(ms...))
}

// VF_C08_nested: a structure of up to 2 members (boolean, integers of 1, 4 and 8 bytes) nested, singly or as an array of
// 1 to 3, between two other members; every value.
func VF_C08_nested() {
	in := vfStructOf(vfPickMem(0, 4, 6, 7), vfPickMem(0, 4, 6, 7))
	n := vfPick("elements", 4)
	sub := vfSub(in)
	if n > 0 {
		sub = vfSubs(in, n)
	}
	vfPackCheck(vfStructOf(vfPickMem(0, 4, 6), sub, vfPickMem(0, 4, 5)))
}

// VF_C08_deep: three levels of nesting with an array of structures inside an array of structures; every value.
func VF_C08_deep() {
	in := vfStructOf(vfPickMem(4, 7), vfPickMem(0, 5))
	mid := vfStructOf(vfPickMem(0, 4), vfSubs(in, 2), vfPickMem(0, 6))
	vfPackCheck(vfStructOf(vfPickMem(4, 6), vfSub(mid), vfPickMem(0, 7), vfSubs(mid, 2)))
}

type vfTimerUDT struct {
	Flag  bool
	T     lgxtypes.TIMER
	C     [2]lgxtypes.COUNTER
	After int8
	Ctl   lgxtypes.CONTROL
	S     lgxtypes.STRING
}

// VF_C08_builtin: timers, counters, controls and strings as members and array elements; every preset, accumulator and
// flag of one of them at a time.
func VF_C08_builtin() {
	var u vfTimerUDT
	u.Flag = vfBool("flag")
	u.T.PRE, u.T.ACC, u.T.DN = int32(vfU32("pre")), int32(vfU32("acc")), vfBool("dn")
	u.C[0].PRE, u.C[0].CU = int32(vfU32("pre")), vfBool("cu")
	u.C[1].ACC, u.C[1].UN = int32(vfU32("acc")), vfBool("un")
	u.After = int8(vfU8("after"))
	u.Ctl.POS, u.Ctl.FD = int32(vfU32("pos")), vfBool("fd")
	u.S.Len = int32(vfU32("len"))
	u.S.Data[81] = int8(vfU8("c"))
	bit := func(b bool, n int) uint64 {
		if b {
			return 1 << n
		}
		return 0
	}
	l := vfLay{}
	l.bool(u.Flag)
	for _, w := range []uint64{bit(u.T.DN, 29), uint64(uint32(u.T.PRE)), uint64(uint32(u.T.ACC)),
		bit(u.C[0].CU, 31), uint64(uint32(u.C[0].PRE)), 0, bit(u.C[1].UN, 27), 0, uint64(uint32(u.C[1].ACC))} {
		l.num(4, w)
	}
	l.num(1, uint64(uint8(u.After)))
	for _, w := range []uint64{bit(u.Ctl.FD, 24), 0, uint64(uint32(u.Ctl.POS)), uint64(uint32(u.S.Len))} {
		l.num(4, w)
	}
	for _, c := range u.S.Data {
		l.num(1, uint64(uint8(c)))
	}
	var b bytes.Buffer
	n, err := Pack(&b, u)
	vfAssert(err == nil && n == len(l.out), "packs to the layout's size")
	vfAssert(vfEq(b.Bytes(), l.out), "built-in structures are members like any other")
	var back vfTimerUDT
	n, err = Unpack(bytes.NewReader(l.out), &back)
	vfAssert(err == nil && n == len(l.out), "unpacks")
	vfAssert(back == u, "the same values come back")
}

// VF_C08_slice: a slice of 0 to 3 structures unpacks element by element, each padded to its alignment; every value.
func VF_C08_slice() {
	type el struct {
		A uint32
		B int8
		F bool
	}
	n := vfPick("n", 4)
	l := vfLay{}
	want := make([]el, n)
	for i := range want {
		want[i] = el{vfU32("a"), int8(vfU8("b")), vfBool("f")}
		l.align(4)
		l.num(4, uint64(want[i].A))
		l.num(1, uint64(uint8(want[i].B)))
		l.bool(want[i].F)
	}
	l.align(4)
	got := make([]el, n)
	r := &vfChunks{append(l.out, 0xEE), []int{1000, 1}[vfPick("chunk", 2)]}
	k, err := Unpack(r, got)
	vfAssert(err == nil && k == 8*n && len(r.data) == 1, "the elements' bytes are taken")
	ok := true
	for i := range want {
		ok = ok && want[i] == got[i]
	}
	vfAssert(ok, "every element has its own values")
}

// VF_C08_writer: a writer that fails at any byte makes Pack report an error, with or without a Bytes method.
func VF_C08_writer() {
	type s struct {
		F [9]bool
		A int32
		T lgxtypes.TIMER
		B [2]struct{ X int16 }
		G bool
	}
	var v any = s{}
	if vfBool("serializable") {
		p, err := Serialize(CIPAddress(3))
		vfAssert(err == nil && p.Len() > 0, "serializes")
		v = CIPAddress(3)
	}
	var all bytes.Buffer
	_, err := Pack(&all, v)
	vfAssert(err == nil, "packs")
	w := &vfFailWriter{vfInt("room", 0, 40)}
	vfAssume(w.room < all.Len())
	_, err = Pack(w, v)
	vfAssert(err != nil, "a failed write is reported")
}

type vfFailWriter struct{ room int }

func (w *vfFailWriter) Write(p []byte) (int, error) {
	if len(p) > w.room {
		return 0, io.ErrShortWrite
	}
	w.room -= len(p)
	return len(p), nil
}
