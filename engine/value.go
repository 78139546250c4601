package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is one interpreter value:
//
//	*Term            bool, integer, float (bits)
//	*Str             string
//	*value           pointer (nil pointer: (*value)(nil))
//	*symAddr         pointer to a symbolically indexed scalar cell
//	structure, array aggregate
//	[]value          slice (nil slice: []value(nil))
//	*Map, *Chan      reference types (nil: typed nil)
//	iface            interface
//	*closure, *ssa.Function, *ssa.Builtin, *native
//	tuple            multiple results
//	rtype, rval      reflect.Type / reflect.Value
type value any

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// native is an engine-implemented function value.
type native struct {
	name string
	f    func(fr *frame, args []value) value
}

type Str struct {
	s   string
	b   []*Term // non-nil for (partly) symbolic strings
	opq bool    // stands for text the engine did not compute; must not be inspected
}

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s *Str) check() {
	if s.opq {
		panic(pathEnd{"unsupported", "inspection of formatted text"})
	}
}

func (s *Str) conc() bool { return s.b == nil }

type symAddr struct {
	elems []value
	idx   *Term
}

type mapEntry struct {
	k, v value
	dead bool
}

type Map struct {
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys
	n       int
	symKeys bool
}

type Chan struct {
	cap    int
	buf    []value
	closed bool
	// waiting senders for unbuffered channels
	sendq []*chanSend
	vc    vclock
	recvN int // number of receivers currently blocked
}

type chanSend struct {
	v     value
	taken bool
}

type mapIter struct {
	m   *Map
	pos int
}
type strIter struct {
	s   *Str
	pos int
}

type opaque struct { // engine-side object reachable from interpreted code
	kind string
	v    any
}

// strVal builds a Str from byte terms, normalising to concrete when possible.
func strOf(b []*Term) *Str {
	if hasMark(b) {
		return opqStr()
	}
	for _, t := range b {
		if !t.isConst() {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return &Str{s: string(bs)}
}

func (c *Ctx) strBytes(s *Str) []*Term {
	s.check()
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = c.smallC[8][s.s[i]]
	}
	return r
}

func (c *Ctx) strAt(s *Str, i int) *Term {
	s.check()
	if s.b != nil {
		return s.b[i]
	}
	return c.smallC[8][s.s[i]]
}

func (s *Str) slice(lo, hi int) *Str {
	if s.b != nil {
		return strOf(s.b[lo:hi:hi])
	}
	return &Str{s: s.s[lo:hi], opq: s.opq}
}

func (c *Ctx) strEq(a, b *Str) *Term {
	if a.opq && b.Len() == 0 && b.conc() || b.opq && a.Len() == 0 && a.conc() {
		return c.False
	}
	a.check()
	b.check()
	if a.Len() != b.Len() {
		return c.False
	}
	if a.conc() && b.conc() {
		return c.Bool(a.s == b.s)
	}
	r := c.True
	for i := 0; i < a.Len(); i++ {
		r = c.And(r, c.Eq(c.strAt(a, i), c.strAt(b, i)))
		if r == c.False {
			return r
		}
	}
	return r
}

func (c *Ctx) strLess(a, b *Str) *Term {
	a.check()
	b.check()
	if a.conc() && b.conc() {
		return c.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := c.strAt(a, i), c.strAt(b, i)
		r = c.Or(c.Ult(x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case array:
		r := make(array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

// storeTo stores v into the cell, updating aggregates in place so that
// interior pointers stay valid.
func storeTo(addr *value, v value) {
	switch v := v.(type) {
	case structure:
		if old, ok := (*addr).(structure); ok && len(old) == len(v) {
			if len(v) > 0 && &old[0] == &v[0] {
				return
			}
			tmp := copyVal(v).(structure)
			for i := range tmp {
				storeTo(&old[i], tmp[i])
			}
			return
		}
		*addr = copyVal(v)
	case array:
		if old, ok := (*addr).(array); ok && len(old) == len(v) {
			if len(v) > 0 && &old[0] == &v[0] {
				return
			}
			tmp := copyVal(v).(array)
			for i := range tmp {
				storeTo(&old[i], tmp[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

func bitWidth(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 255
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	return 255
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref of non-pointer " + t.String())
}

var emptyStr = &Str{}

// zero returns the zero value of t.
func (c *Ctx) zero(t types.Type) value {
	switch u := t.(type) {
	case *types.Named:
		if isReflectValue(u) {
			return rval{}
		}
		return c.zero(u.Underlying())
	case *types.Alias:
		return c.zero(types.Unalias(u))
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Kind() == types.UntypedNil {
			return (*value)(nil)
		}
		if u.Info()&types.IsComplex != 0 {
			return structure{c.BV(64, 0), c.BV(64, 0)}
		}
		w := bitWidth(u)
		return c.BV(w, 0)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Array:
		r := make(array, u.Len())
		if u.Len() > 0 {
			z := c.zero(u.Elem())
			r[0] = z
			for i := 1; i < len(r); i++ {
				r[i] = copyVal(z)
			}
		}
		return r
	case *types.Struct:
		r := make(structure, u.NumFields())
		for i := range r {
			r[i] = c.zero(u.Field(i).Type())
		}
		return r
	case *types.Interface:
		return iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return c.zero(u.At(0).Type())
		}
		r := make(tuple, u.Len())
		for i := range r {
			r[i] = c.zero(u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		panic("zero of type parameter")
	}
	panic(fmt.Sprintf("zero: %T %v", t, t))
}

func isReflectValue(n *types.Named) bool {
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect"
}

// keyString gives a canonical text for a fully concrete map key; ok=false if symbolic.
func keyString(v value) (string, bool) {
	var sb strings.Builder
	ok := writeKey(&sb, v)
	return sb.String(), ok
}

func writeKey(sb *strings.Builder, v value) bool {
	switch v := v.(type) {
	case *Term:
		if !v.isConst() {
			return false
		}
		fmt.Fprintf(sb, "i%d:%d;", v.w, v.val)
		return true
	case *Str:
		if !v.conc() {
			return false
		}
		fmt.Fprintf(sb, "s%d:%s;", len(v.s), v.s)
		return true
	case structure:
		sb.WriteString("{")
		for _, x := range v {
			if !writeKey(sb, x) {
				return false
			}
		}
		sb.WriteString("}")
		return true
	case array:
		sb.WriteString("[")
		for _, x := range v {
			if !writeKey(sb, x) {
				return false
			}
		}
		sb.WriteString("]")
		return true
	case iface:
		if v.t == nil {
			sb.WriteString("nil;")
			return true
		}
		if r, ok := v.v.(rtype); ok {
			sb.WriteString("T" + r.t.String() + ";")
			return true
		}
		sb.WriteString("(" + types.TypeString(v.t, nil) + ")")
		return writeKey(sb, v.v)
	case *value, *Map, *Chan, *closure, *ssa.Function:
		fmt.Fprintf(sb, "p%p;", v)
		return true
	case rtype:
		sb.WriteString("T" + v.t.String() + ";")
		return true
	}
	panic(fmt.Sprintf("map key %T", v))
}
