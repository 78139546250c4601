package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

// rtype represents a reflect.Type; rval a reflect.Value.
type rtype struct{ t types.Type }

type rval struct {
	t    types.Type
	v    value
	addr *value
	ro   bool
	emb  bool // ro only because an unexported embedded field was passed through
}

func (r rval) get() value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func (p *Path) mkRType(t types.Type) value { return iface{p.w.eng.rtypePtr, rtype{t}} }

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func rtypeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (p *Path) strPanic(format string, a ...any) {
	panic(targetPanic{iface{types.Typ[types.String], &Str{s: fmt.Sprintf(format, a...)}}})
}

func (p *Path) valueOf(v value) rval {
	i := v.(iface)
	if i.t == nil {
		return rval{}
	}
	return rval{t: i.t, v: i.v}
}

func asR(v value) rval {
	switch v := v.(type) {
	case rval:
		return v
	case structure:
		return rval{}
	case *value: // pointer receiver
		return asR(*v)
	}
	panic(fmt.Sprintf("reflect.Value is %T", v))
}

func (p *Path) rKind(r rval) reflect.Kind {
	if r.t == nil {
		return reflect.Invalid
	}
	return kindOf(r.t)
}

func (p *Path) rElem(r rval) rval {
	switch p.rKind(r) {
	case reflect.Interface:
		i := r.get().(iface)
		if i.t == nil {
			return rval{}
		}
		return rval{t: i.t, v: i.v, ro: r.ro}
	case reflect.Pointer:
		q, ok := r.get().(*value)
		if !ok {
			panic(pathEnd{"unsupported", "reflect Elem of special pointer"})
		}
		if q == nil {
			return rval{}
		}
		return rval{t: deref(r.t), addr: q, ro: r.ro, emb: r.emb}
	}
	p.strPanic("reflect: call of reflect.Value.Elem on %s Value", p.rKind(r))
	return rval{}
}

func (p *Path) rField(r rval, i int) rval {
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok {
		p.strPanic("reflect: call of reflect.Value.Field on %s Value", p.rKind(r))
	}
	if i < 0 || i >= st.NumFields() {
		p.strPanic("reflect: Field index out of range")
	}
	f := st.Field(i)
	sticky := r.ro && !r.emb
	ro := sticky || !f.Exported()
	emb := !sticky && f.Embedded() && ro
	s, ok := r.get().(structure)
	if !ok {
		panic(pathEnd{"unsupported", fmt.Sprintf("reflect Field on %T", r.get())})
	}
	if r.addr != nil {
		return rval{t: f.Type(), addr: &s[i], ro: ro, emb: emb}
	}
	return rval{t: f.Type(), v: s[i], ro: ro, emb: emb}
}

func (p *Path) rLen(r rval) int {
	switch x := r.get().(type) {
	case []value:
		return len(x)
	case array:
		return len(x)
	case *Str:
		return x.Len()
	case *Map:
		if x == nil {
			return 0
		}
		return x.n
	case *Chan:
		return len(x.buf)
	case *value:
		if a, ok := deref(r.t).Underlying().(*types.Array); ok {
			return int(a.Len())
		}
	}
	p.strPanic("reflect: call of reflect.Value.Len on %s Value", p.rKind(r))
	return 0
}

func (p *Path) rIndex(fr *frame, r rval, idx *Term) rval {
	n := p.rLen(r)
	c := p.w.ctx
	if !p.branch(c.Ult(idx, c.BV(64, uint64(n))), fr) {
		p.strPanic("reflect: slice index out of range")
	}
	i := int(p.concretize(idx, "reflect index", fr))
	switch x := r.get().(type) {
	case []value:
		return rval{t: r.t.Underlying().(*types.Slice).Elem(), addr: &x[i], ro: r.ro}
	case array:
		et := r.t.Underlying().(*types.Array).Elem()
		if r.addr != nil {
			return rval{t: et, addr: &x[i], ro: r.ro}
		}
		return rval{t: et, v: x[i], ro: r.ro}
	case *Str:
		return rval{t: types.Typ[types.Uint8], v: c.strAt(x, i), ro: r.ro}
	}
	p.strPanic("reflect: call of reflect.Value.Index on %s Value", p.rKind(r))
	return rval{}
}

func (p *Path) rInterface(r rval) value {
	if r.t == nil {
		p.strPanic("reflect: call of reflect.Value.Interface on zero Value")
	}
	if r.ro {
		p.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
	}
	v := copyVal(r.get())
	if i, ok := v.(iface); ok {
		return i
	}
	return iface{r.t, v}
}

func (p *Path) mustSet(r rval, op string) {
	if r.ro {
		p.strPanic("reflect: reflect.Value.%s using value obtained using unexported field", op)
	}
	if r.addr == nil {
		p.strPanic("reflect: reflect.Value.%s using unaddressable value", op)
	}
}

func (p *Path) rSet(r, x rval) {
	p.mustSet(r, "Set")
	if x.t == nil {
		p.strPanic("reflect: call of reflect.Value.Set on zero Value")
	}
	if x.ro {
		p.strPanic("reflect.Set: value obtained using unexported field")
	}
	if !types.AssignableTo(x.t, r.t) {
		p.strPanic("reflect.Set: value of type %s is not assignable to type %s", rtypeString(x.t), rtypeString(r.t))
	}
	v := copyVal(x.get())
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		if _, already := v.(iface); !already {
			v = iface{x.t, v}
		}
	}
	storeTo(r.addr, v)
}

func (p *Path) structField(st *types.Struct, i int, index []int) structure {
	c := p.w.ctx
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	var fs []*types.Var
	for k := 0; k < st.NumFields(); k++ {
		fs = append(fs, st.Field(k))
	}
	off := stdSizes.Offsetsof(fs)[i]
	idx := make([]value, len(index))
	for k, x := range index {
		idx[k] = c.BV(64, uint64(x))
	}
	return structure{&Str{s: f.Name()}, &Str{s: pkg}, p.mkRType(f.Type()), &Str{s: st.Tag(i)}, c.BV(64, uint64(off)), idx, c.Bool(f.Embedded())}
}

func typName(t types.Type) string {
	switch t := t.(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Basic:
		return t.Name()
	case *types.Alias:
		return typName(types.Unalias(t))
	}
	return ""
}

func convertible(src, dst types.Type) bool { return types.ConvertibleTo(src, dst) }

func tT(args []value) types.Type {
	switch x := args[0].(type) {
	case rtype:
		return x.t
	case iface:
		return x.v.(rtype).t
	}
	panic(fmt.Sprintf("rtype receiver %T", args[0]))
}

func init() {
	ty := func(name string, f func(fr *frame, t types.Type, args []value) value) {
		externals["(*reflect.rtype)."+name] = func(fr *frame, args []value) value { return f(fr, tT(args), args) }
	}
	bv := func(fr *frame, n int64) value { return fr.p.w.ctx.BV(64, uint64(n)) }
	ty("Kind", func(fr *frame, t types.Type, a []value) value { return bv(fr, int64(kindOf(t))) })
	ty("String", func(fr *frame, t types.Type, a []value) value { return &Str{s: rtypeString(t)} })
	ty("Name", func(fr *frame, t types.Type, a []value) value { return &Str{s: typName(t)} })
	ty("PkgPath", func(fr *frame, t types.Type, a []value) value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return &Str{s: n.Obj().Pkg().Path()}
		}
		return emptyStr
	})
	ty("Elem", func(fr *frame, t types.Type, a []value) value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return fr.p.mkRType(u.Elem())
		case *types.Slice:
			return fr.p.mkRType(u.Elem())
		case *types.Array:
			return fr.p.mkRType(u.Elem())
		case *types.Map:
			return fr.p.mkRType(u.Elem())
		case *types.Chan:
			return fr.p.mkRType(u.Elem())
		}
		fr.p.strPanic("reflect: Elem of invalid type %s", rtypeString(t))
		return nil
	})
	ty("Key", func(fr *frame, t types.Type, a []value) value {
		return fr.p.mkRType(t.Underlying().(*types.Map).Key())
	})
	ty("NumField", func(fr *frame, t types.Type, a []value) value {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			fr.p.strPanic("reflect: NumField of non-struct type %s", rtypeString(t))
		}
		return bv(fr, int64(st.NumFields()))
	})
	ty("Field", func(fr *frame, t types.Type, a []value) value {
		i := fr.asInt(a[1], "field index")
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			fr.p.strPanic("reflect: Field of non-struct type %s", rtypeString(t))
		}
		if i < 0 || i >= st.NumFields() {
			fr.p.strPanic("reflect: Field index out of bounds")
		}
		return fr.p.structField(st, i, []int{i})
	})
	ty("FieldByName", func(fr *frame, t types.Type, a []value) value {
		st := t.Underlying().(*types.Struct)
		n := a[1].(*Str).s
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return tuple{fr.p.structField(st, i, []int{i}), fr.p.w.ctx.True}
			}
		}
		return tuple{fr.p.w.ctx.zero(fr.p.w.eng.typeByName("reflect", "StructField")), fr.p.w.ctx.False}
	})
	ty("Len", func(fr *frame, t types.Type, a []value) value {
		ar, ok := t.Underlying().(*types.Array)
		if !ok {
			fr.p.strPanic("reflect: Len of non-array type %s", rtypeString(t))
		}
		return bv(fr, ar.Len())
	})
	ty("Size", func(fr *frame, t types.Type, a []value) value { return bv(fr, stdSizes.Sizeof(t)) })
	ty("Align", func(fr *frame, t types.Type, a []value) value { return bv(fr, stdSizes.Alignof(t)) })
	ty("FieldAlign", func(fr *frame, t types.Type, a []value) value { return bv(fr, stdSizes.Alignof(t)) })
	ty("Bits", func(fr *frame, t types.Type, a []value) value { return bv(fr, 8*stdSizes.Sizeof(t)) })
	ty("NumMethod", func(fr *frame, t types.Type, a []value) value {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return bv(fr, int64(it.NumMethods()))
		}
		n := 0
		ms := fr.p.w.eng.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return bv(fr, int64(n))
	})
	ty("Comparable", func(fr *frame, t types.Type, a []value) value { return fr.p.w.ctx.Bool(types.Comparable(t)) })
	two := func(name string, f func(a, b types.Type) bool) {
		ty(name, func(fr *frame, t types.Type, a []value) value {
			return fr.p.w.ctx.Bool(f(t, a[1].(iface).v.(rtype).t))
		})
	}
	two("AssignableTo", types.AssignableTo)
	two("ConvertibleTo", convertible)
	ty("Implements", func(fr *frame, t types.Type, a []value) value {
		return fr.p.w.ctx.Bool(types.Implements(t, a[1].(iface).v.(rtype).t.Underlying().(*types.Interface)))
	})

	fn := func(name string, f externalFn) { externals["reflect."+name] = f }
	fn("TypeOf", func(fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return iface{}
		}
		return fr.p.mkRType(i.t)
	})
	externals["internal/reflectlite.TypeOf"] = externals["reflect.TypeOf"]
	fn("TypeFor", func(fr *frame, a []value) value { return fr.p.mkRType(fr.fn.TypeArgs()[0]) })
	fn("ValueOf", func(fr *frame, a []value) value { return fr.p.valueOf(a[0]) })
	fn("New", func(fr *frame, a []value) value {
		t := a[0].(iface).v.(rtype).t
		cell := new(value)
		*cell = fr.p.w.ctx.zero(t)
		return rval{t: types.NewPointer(t), v: cell}
	})
	fn("Zero", func(fr *frame, a []value) value {
		t := a[0].(iface).v.(rtype).t
		return rval{t: t, v: fr.p.w.ctx.zero(t)}
	})
	fn("Indirect", func(fr *frame, a []value) value {
		r := asR(a[0])
		if fr.p.rKind(r) == reflect.Pointer {
			return fr.p.rElem(r)
		}
		return r
	})
	fn("SliceOf", func(fr *frame, a []value) value { return fr.p.mkRType(types.NewSlice(a[0].(iface).v.(rtype).t)) })
	fn("PointerTo", func(fr *frame, a []value) value { return fr.p.mkRType(types.NewPointer(a[0].(iface).v.(rtype).t)) })
	externals["reflect.PtrTo"] = externals["reflect.PointerTo"]
	fn("ArrayOf", func(fr *frame, a []value) value {
		return fr.p.mkRType(types.NewArray(a[1].(iface).v.(rtype).t, int64(fr.asInt(a[0], "array len"))))
	})
	fn("StructOf", func(fr *frame, a []value) value {
		var vars []*types.Var
		var tags []string
		for _, f := range a[0].([]value) {
			st := f.(structure)
			name, tag := st[0].(*Str), st[3].(*Str)
			if !name.conc() || !tag.conc() {
				panic(pathEnd{"unsupported", "reflect.StructOf with symbolic names"})
			}
			vars = append(vars, types.NewField(token.NoPos, nil, name.s, st[2].(iface).v.(rtype).t, false))
			tags = append(tags, tag.s)
		}
		return fr.p.mkRType(types.NewStruct(vars, tags))
	})
	fn("MakeSlice", func(fr *frame, a []value) value {
		t := a[0].(iface).v.(rtype).t
		c := fr.p.w.ctx
		lt := a[1].(*Term)
		if !fr.p.branch(c.Sle(c.BV(64, 0), lt), fr) {
			fr.p.strPanic("reflect.MakeSlice: negative len")
		}
		n := int(fr.p.concretize(lt, "reflect.MakeSlice", fr))
		cp := int(fr.p.concretize(a[2].(*Term), "reflect.MakeSlice", fr))
		if cp > 1<<20 {
			panic(pathEnd{"bound", "large MakeSlice"})
		}
		s := make([]value, cp)
		for i := range s {
			s[i] = c.zero(t.Underlying().(*types.Slice).Elem())
		}
		return rval{t: t, v: s[:n]}
	})
	fn("MakeMap", func(fr *frame, a []value) value { return rval{t: a[0].(iface).v.(rtype).t, v: newMap()} })
	fn("Append", func(fr *frame, a []value) value {
		r := asR(a[0])
		s := r.get().([]value)
		out := append([]value(nil), s...)
		for _, x := range a[1].([]value) {
			out = append(out, copyVal(asR(x).get()))
		}
		return rval{t: r.t, v: out}
	})
	fn("VisibleFields", func(fr *frame, a []value) value {
		t := a[0].(iface).v.(rtype).t
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			fr.p.strPanic("reflect.VisibleFields of non-struct type")
		}
		return fr.p.visibleFields(st)
	})
	fn("DeepEqual", func(fr *frame, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		return fr.p.deepEq(x, y)
	})
	fn("Copy", func(fr *frame, a []value) value {
		seq := func(v value) []value {
			switch v := v.(type) {
			case []value:
				return v
			case array:
				return v
			}
			panic(pathEnd{"unsupported", fmt.Sprintf("reflect.Copy of %T", v)})
		}
		d, s := seq(asR(a[0]).get()), seq(asR(a[1]).get())
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		for i := 0; i < n; i++ {
			storeTo(&d[i], copyVal(s[i]))
		}
		return bv(fr, int64(n))
	})

	vm := func(name string, f func(fr *frame, r rval, a []value) value) {
		externals["(reflect.Value)."+name] = func(fr *frame, a []value) value { return f(fr, asR(a[0]), a) }
		externals["(*reflect.Value)."+name] = externals["(reflect.Value)."+name]
	}
	vm("Kind", func(fr *frame, r rval, a []value) value { return bv(fr, int64(fr.p.rKind(r))) })
	vm("Type", func(fr *frame, r rval, a []value) value {
		if r.t == nil {
			fr.p.strPanic("reflect: call of reflect.Value.Type on zero Value")
		}
		return fr.p.mkRType(r.t)
	})
	vm("IsValid", func(fr *frame, r rval, a []value) value { return fr.p.w.ctx.Bool(r.t != nil) })
	vm("Elem", func(fr *frame, r rval, a []value) value { return fr.p.rElem(r) })
	vm("NumField", func(fr *frame, r rval, a []value) value {
		if fr.p.rKind(r) != reflect.Struct {
			fr.p.strPanic("reflect: call of reflect.Value.NumField on %s Value", fr.p.rKind(r))
		}
		return bv(fr, int64(r.t.Underlying().(*types.Struct).NumFields()))
	})
	vm("Field", func(fr *frame, r rval, a []value) value {
		if fr.p.rKind(r) != reflect.Struct {
			fr.p.strPanic("reflect: call of reflect.Value.Field on %s Value", fr.p.rKind(r))
		}
		return fr.p.rField(r, fr.asInt(a[1], "field"))
	})
	vm("FieldByName", func(fr *frame, r rval, a []value) value {
		st := r.t.Underlying().(*types.Struct)
		n := a[1].(*Str).s
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return fr.p.rField(r, i)
			}
		}
		return rval{}
	})
	vm("FieldByIndex", func(fr *frame, r rval, a []value) value {
		for k, x := range a[1].([]value) {
			if k > 0 && fr.p.rKind(r) == reflect.Pointer {
				r = fr.p.rElem(r)
			}
			r = fr.p.rField(r, fr.asInt(x, "field"))
		}
		return r
	})
	vm("FieldByIndexErr", func(fr *frame, r rval, a []value) value {
		for k, x := range a[1].([]value) {
			if k > 0 && fr.p.rKind(r) == reflect.Pointer {
				r = fr.p.rElem(r)
				if r.t == nil {
					return tuple{rval{}, fr.p.w.newErrorString(&Str{s: "reflect: indirection through nil pointer to embedded struct field"})}
				}
			}
			r = fr.p.rField(r, fr.asInt(x, "field"))
		}
		return tuple{r, iface{}}
	})
	vm("Len", func(fr *frame, r rval, a []value) value { return bv(fr, int64(fr.p.rLen(r))) })
	vm("Cap", func(fr *frame, r rval, a []value) value {
		switch x := r.get().(type) {
		case []value:
			return bv(fr, int64(cap(x)))
		case array:
			return bv(fr, int64(len(x)))
		}
		panic(pathEnd{"unsupported", "reflect Cap"})
	})
	vm("Index", func(fr *frame, r rval, a []value) value {
		if fr.p.rKind(r) == reflect.Invalid {
			fr.p.strPanic("reflect: call of reflect.Value.Index on zero Value")
		}
		return fr.p.rIndex(fr, r, a[1].(*Term))
	})
	vm("Interface", func(fr *frame, r rval, a []value) value { return fr.p.rInterface(r) })
	vm("CanInterface", func(fr *frame, r rval, a []value) value { return fr.p.w.ctx.Bool(!r.ro) })
	vm("CanSet", func(fr *frame, r rval, a []value) value { return fr.p.w.ctx.Bool(r.addr != nil && !r.ro) })
	vm("CanAddr", func(fr *frame, r rval, a []value) value { return fr.p.w.ctx.Bool(r.addr != nil) })
	vm("Addr", func(fr *frame, r rval, a []value) value {
		if r.addr == nil {
			fr.p.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return rval{t: types.NewPointer(r.t), v: r.addr, ro: r.ro, emb: r.emb}
	})
	vm("Set", func(fr *frame, r rval, a []value) value { fr.p.rSet(r, asR(a[1])); return nil })
	vm("SetZero", func(fr *frame, r rval, a []value) value {
		fr.p.mustSet(r, "SetZero")
		storeTo(r.addr, fr.p.w.ctx.zero(r.t))
		return nil
	})
	setNum := func(name string, kinds func(k reflect.Kind) bool) {
		vm(name, func(fr *frame, r rval, a []value) value {
			fr.p.mustSet(r, name)
			k := fr.p.rKind(r)
			if !kinds(k) {
				fr.p.strPanic("reflect: call of reflect.Value.%s on %s Value", name, k)
			}
			t := a[1].(*Term)
			switch name {
			case "SetFloat":
				t = fr.p.w.ctx.FConv(OpF2F, t, bitWidth(r.t))
			case "SetInt", "SetUint":
				t = fr.p.w.ctx.Extract(t, 0, bitWidth(r.t))
			}
			*r.addr = t
			return nil
		})
	}
	isI := func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 }
	isU := func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }
	isF := func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }
	setNum("SetInt", isI)
	setNum("SetUint", isU)
	setNum("SetFloat", isF)
	setNum("SetBool", func(k reflect.Kind) bool { return k == reflect.Bool })
	vm("SetString", func(fr *frame, r rval, a []value) value {
		fr.p.mustSet(r, "SetString")
		if fr.p.rKind(r) != reflect.String {
			fr.p.strPanic("reflect: call of reflect.Value.SetString on %s Value", fr.p.rKind(r))
		}
		*r.addr = a[1]
		return nil
	})
	vm("SetBytes", func(fr *frame, r rval, a []value) value { fr.p.mustSet(r, "SetBytes"); *r.addr = a[1]; return nil })
	vm("SetLen", func(fr *frame, r rval, a []value) value {
		fr.p.mustSet(r, "SetLen")
		n := fr.asInt(a[1], "SetLen")
		*r.addr = (*r.addr).([]value)[:n]
		return nil
	})
	vm("SetMapIndex", func(fr *frame, r rval, a []value) value {
		fr.p.mapSet(fr, r.get().(*Map), copyVal(asR(a[1]).get()), copyVal(asR(a[2]).get()))
		return nil
	})
	getNum := func(name string, ok func(k reflect.Kind) bool, conv func(c *Ctx, t *Term) *Term) {
		vm(name, func(fr *frame, r rval, a []value) value {
			if !ok(fr.p.rKind(r)) {
				fr.p.strPanic("reflect: call of reflect.Value.%s on %s Value", name, fr.p.rKind(r))
			}
			return conv(fr.p.w.ctx, r.get().(*Term))
		})
	}
	getNum("Int", isI, func(c *Ctx, t *Term) *Term { return c.SExt(t, 64) })
	getNum("Uint", isU, func(c *Ctx, t *Term) *Term { return c.ZExt(t, 64) })
	getNum("Float", isF, func(c *Ctx, t *Term) *Term { return c.FConv(OpF2F, t, 64) })
	getNum("Bool", func(k reflect.Kind) bool { return k == reflect.Bool }, func(c *Ctx, t *Term) *Term { return t })
	can := func(name string, ok func(k reflect.Kind) bool) {
		vm(name, func(fr *frame, r rval, a []value) value { return fr.p.w.ctx.Bool(ok(fr.p.rKind(r))) })
	}
	can("CanInt", isI)
	can("CanUint", isU)
	can("CanFloat", isF)
	ovf := func(name string, signed bool) {
		vm(name, func(fr *frame, r rval, a []value) value {
			c := fr.p.w.ctx
			x := a[1].(*Term)
			w := bitWidth(r.t)
			if w == 64 {
				return c.False
			}
			tr := c.Extract(x, 0, w)
			if signed {
				return c.Not(c.Eq(c.SExt(tr, 64), x))
			}
			return c.Not(c.Eq(c.ZExt(tr, 64), x))
		})
	}
	ovf("OverflowInt", true)
	ovf("OverflowUint", false)
	vm("String", func(fr *frame, r rval, a []value) value {
		if s, ok := r.get().(*Str); ok {
			return s
		}
		if r.t == nil {
			return &Str{s: "<invalid Value>"}
		}
		return &Str{s: "<" + rtypeString(r.t) + " Value>"}
	})
	vm("Bytes", func(fr *frame, r rval, a []value) value {
		switch x := r.get().(type) {
		case []value:
			return x
		case array:
			return []value(x)
		}
		panic(pathEnd{"unsupported", "reflect Bytes"})
	})
	vm("IsNil", func(fr *frame, r rval, a []value) value {
		c := fr.p.w.ctx
		switch x := r.get().(type) {
		case *value:
			return c.Bool(x == nil)
		case []value:
			return c.Bool(x == nil)
		case *Map:
			return c.Bool(x == nil)
		case *Chan:
			return c.Bool(x == nil)
		case iface:
			return c.Bool(x.t == nil)
		case *closure, *native:
			return c.False
		}
		fr.p.strPanic("reflect: call of reflect.Value.IsNil on %s Value", fr.p.rKind(r))
		return nil
	})
	vm("IsZero", func(fr *frame, r rval, a []value) value {
		return fr.p.deepEq(r.get(), fr.p.w.ctx.zero(r.t))
	})
	vm("MapIndex", func(fr *frame, r rval, a []value) value {
		m := r.get().(*Map)
		mt := r.t.Underlying().(*types.Map)
		if e := fr.p.mapFind(fr, m, asR(a[1]).get()); e != nil {
			return rval{t: mt.Elem(), v: e.v}
		}
		return rval{}
	})
	vm("MapKeys", func(fr *frame, r rval, a []value) value {
		m := r.get().(*Map)
		mt := r.t.Underlying().(*types.Map)
		out := []value{}
		if m != nil {
			for _, e := range m.entries {
				if !e.dead {
					out = append(out, rval{t: mt.Key(), v: e.k})
				}
			}
		}
		return out
	})
	vm("Slice", func(fr *frame, r rval, a []value) value {
		c := fr.p.w.ctx
		var s []value
		t := r.t
		lo, hi := a[1].(*Term), a[2].(*Term)
		cp := 0
		switch x := r.get().(type) {
		case []value:
			s, cp = x, cap(x)
		case array:
			if r.addr == nil {
				fr.p.strPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			s, cp = []value(x), len(x)
			t = types.NewSlice(r.t.Underlying().(*types.Array).Elem())
		case *Str:
			cp = x.Len()
		default:
			fr.p.strPanic("reflect: call of reflect.Value.Slice on %s Value", fr.p.rKind(r))
		}
		if !fr.p.branch(c.And(c.And(c.Sle(c.BV(64, 0), lo), c.Sle(lo, hi)), c.Sle(hi, c.BV(64, uint64(cp)))), fr) {
			fr.p.strPanic("reflect.Value.Slice: slice index out of bounds")
		}
		l, h := int(fr.p.concretize(lo, "reflect slice", fr)), int(fr.p.concretize(hi, "reflect slice", fr))
		if x, ok := r.get().(*Str); ok {
			return rval{t: t, v: x.slice(l, h)}
		}
		return rval{t: t, v: s[l:h]}
	})
	vm("Convert", func(fr *frame, r rval, a []value) value {
		dst := a[1].(iface).v.(rtype).t
		if !convertible(r.t, dst) {
			fr.p.strPanic("reflect.Value.Convert: value of type %s cannot be converted to type %s", rtypeString(r.t), rtypeString(dst))
		}
		if _, ok := dst.Underlying().(*types.Interface); ok {
			return rval{t: dst, v: fr.p.rInterface(r)}
		}
		return rval{t: dst, v: fr.conv(dst, r.t, copyVal(r.get())), ro: r.ro}
	})
	vm("CanConvert", func(fr *frame, r rval, a []value) value {
		return fr.p.w.ctx.Bool(convertible(r.t, a[1].(iface).v.(rtype).t))
	})
	vm("NumMethod", func(fr *frame, r rval, a []value) value {
		return externals["(*reflect.rtype).NumMethod"](fr, []value{rtype{r.t}})
	})
	vm("Comparable", func(fr *frame, r rval, a []value) value { return fr.p.w.ctx.Bool(types.Comparable(r.t)) })
	externals["internal/reflectlite.ValueOf"] = externals["reflect.ValueOf"]
	externals["internal/reflectlite.Swapper"] = func(fr *frame, a []value) value {
		s := a[0].(iface).v.([]value)
		return &native{"swapper", func(fr *frame, b []value) value {
			i, j := fr.asInt(b[0], "swap"), fr.asInt(b[1], "swap")
			x, y := copyVal(s[i]), copyVal(s[j])
			storeTo(&s[i], y)
			storeTo(&s[j], x)
			return nil
		}}
	}
	externals["reflect.Swapper"] = externals["internal/reflectlite.Swapper"]
	for _, m := range []string{"Len", "Kind"} {
		externals["(internal/reflectlite.Value)."+m] = externals["(reflect.Value)."+m]
	}
	_ = strings.Contains
	_ = token.NoPos
}

func (p *Path) visibleFields(st *types.Struct) value {
	// breadth of promoted fields following reflect.VisibleFields (declaration order, depth first)
	type ent struct {
		sf    structure
		name  string
		depth int
		dead  bool
	}
	var list []*ent
	by := map[string]*ent{}
	var walk func(st *types.Struct, idx []int, visiting map[types.Type]bool)
	walk = func(st *types.Struct, idx []int, visiting map[types.Type]bool) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			ix := append(append([]int(nil), idx...), i)
			add := true
			if old := by[f.Name()]; old != nil {
				switch {
				case len(ix) == old.depth:
					old.dead = true
					add = false
				case len(ix) < old.depth:
					old.dead = true
				default:
					add = false
				}
			}
			if add {
				e := &ent{sf: p.structField(st, i, ix), name: f.Name(), depth: len(ix)}
				by[f.Name()] = e
				list = append(list, e)
			}
			if f.Embedded() {
				t := f.Type()
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					t = pt.Elem()
				}
				if s2, ok := t.Underlying().(*types.Struct); ok && !visiting[t] {
					visiting[t] = true
					walk(s2, ix, visiting)
					delete(visiting, t)
				}
			}
		}
	}
	walk(st, nil, map[types.Type]bool{})
	out := []value{}
	for _, e := range list {
		if !e.dead {
			out = append(out, e.sf)
		}
	}
	return out
}

// deepEq is reflect.DeepEqual restricted to what harnesses use.
func (p *Path) deepEq(x, y value) *Term {
	c := p.w.ctx
	switch a := x.(type) {
	case []value:
		b, ok := y.([]value)
		if !ok || len(a) != len(b) || (a == nil) != (b == nil) {
			return c.False
		}
		r := c.True
		for i := range a {
			r = c.And(r, p.deepEq(a[i], b[i]))
		}
		return r
	case array:
		b := y.(array)
		r := c.True
		for i := range a {
			r = c.And(r, p.deepEq(a[i], b[i]))
		}
		return r
	case structure:
		b, ok := y.(structure)
		if !ok {
			return c.False
		}
		r := c.True
		for i := range a {
			r = c.And(r, p.deepEq(a[i], b[i]))
		}
		return r
	case iface:
		b := y.(iface)
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !p.w.eng.identical(a.t, b.t) {
			return c.False
		}
		return p.deepEq(a.v, b.v)
	case *value:
		b := y.(*value)
		if a == b {
			return c.True
		}
		if a == nil || b == nil {
			return c.False
		}
		return p.deepEq(*a, *b)
	case *Map:
		b := y.(*Map)
		if a == nil || b == nil {
			return c.Bool(a == nil && b == nil)
		}
		if a.n != b.n {
			return c.False
		}
		r := c.True
		for _, e := range a.entries {
			if e.dead {
				continue
			}
			f := p.mapFind(nil, b, e.k)
			if f == nil {
				return c.False
			}
			r = c.And(r, p.deepEq(e.v, f.v))
		}
		return r
	}
	return p.equals(x, y)
}

// encoding/binary copies slices and arrays of bytes it reaches through reflection one element at a time.
func init() {
	bytesOf := func(fr *frame, r rval) []value {
		var et types.Type
		switch t := r.t.Underlying().(type) {
		case *types.Slice:
			et = t.Elem()
		case *types.Array:
			et = t.Elem()
		default:
			return nil
		}
		if k := kindOf(et); k != reflect.Uint8 && k != reflect.Int8 {
			return nil
		}
		switch x := r.get().(type) {
		case []value:
			return x
		case array:
			return x
		}
		return nil
	}
	coder := func(a []value) (structure, []value, int, bool) {
		q, ok := a[0].(*value)
		if !ok || q == nil {
			return nil, nil, 0, false
		}
		s, ok := (*q).(structure)
		if !ok || len(s) != 3 {
			return nil, nil, 0, false
		}
		buf, ok := s[1].([]value)
		off, ok2 := s[2].(*Term)
		if !ok || !ok2 || off.op != OpConst {
			return nil, nil, 0, false
		}
		return s, buf, int(off.val), true
	}
	ext("(*encoding/binary.decoder).value", func(fr *frame, a []value) value {
		r := asR(a[1])
		if r.t == nil || r.ro {
			return fallThrough{}
		}
		if _, ok := r.t.Underlying().(*types.Array); ok && r.addr == nil {
			return fallThrough{}
		}
		dst := bytesOf(fr, r)
		s, buf, off, ok := coder(a)
		if dst == nil || !ok || off+len(dst) > len(buf) {
			return fallThrough{}
		}
		for i := range dst {
			dst[i] = buf[off+i]
		}
		s[2] = fr.p.w.ctx.BV(64, uint64(off+len(dst)))
		return nil
	})
	ext("(*encoding/binary.encoder).value", func(fr *frame, a []value) value {
		r := asR(a[1])
		if r.t == nil {
			return fallThrough{}
		}
		src := bytesOf(fr, r)
		s, buf, off, ok := coder(a)
		if src == nil || !ok || off+len(src) > len(buf) {
			return fallThrough{}
		}
		for i := range src {
			buf[off+i] = src[i]
		}
		s[2] = fr.p.w.ctx.BV(64, uint64(off+len(src)))
		return nil
	})
}
