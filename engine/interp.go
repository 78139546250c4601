package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"slices"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct{ v value }

// pathEnd unwinds the interpreter when the current path is over.
type pathEnd struct {
	kind string // "assume", "bound", "unsupported", "done", "exit"
	msg  string
}

type deferred struct {
	fn    value
	args  []value
	instr *ssa.Defer
	tail  *deferred
}

type frame struct {
	p         *Path
	caller    *frame
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prevBlock *ssa.BasicBlock
	info      *fnInfo
	env       []value
	defers    *deferred
	result    value
	panicking bool
	panic     any
	phitemps  []value
	skipPhi   bool
	mergedRet bool
	depth     int
	g         *gor
	curInstr  ssa.Instruction
}

// fnInfo assigns env slots to the values of a function.
type fnInfo struct {
	slot     map[ssa.Value]int
	n        int
	hasDefer bool
	inRepo   bool
	fn       *ssa.Function
	rpo      []int
}

func (w *Worker) infoOf(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fnInfos[fn]; ok {
		return fi
	}
	fi := &fnInfo{slot: map[ssa.Value]int{}, fn: fn}
	add := func(v ssa.Value) {
		fi.slot[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, p := range fn.Locals {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
			if v, ok := in.(ssa.Value); ok {
				if _, done := fi.slot[v]; !done {
					add(v)
				}
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	fi.inRepo = w.eng.inRepo(fn)
	w.fnInfos[fn] = fi
	return fi
}

func (fr *frame) get(v ssa.Value) value {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return fr.p.w.constVal(v)
	case *ssa.Global:
		return fr.p.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	i, ok := fr.info.slot[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v.Name(), fr.fn))
	}
	r := fr.env[i]
	if r == nil {
		panic(fmt.Sprintf("unset value %s %s in %s", v.Name(), v.String(), fr.fn))
	}
	return r
}

func (fr *frame) set(v ssa.Value, x value) {
	fr.env[fr.info.slot[v]] = x
}

func (w *Worker) constVal(c *ssa.Const) value {
	if v, ok := w.consts[c]; ok {
		return v
	}
	v := w.mkConst(c)
	w.consts[c] = v
	return v
}

func (w *Worker) mkConst(c *ssa.Const) value {
	if c.Value == nil {
		return w.ctx.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("const of type %v", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return w.ctx.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return &Str{s: constant.StringVal(c.Value)}
		}
		return &Str{s: string(rune(c.Int64()))}
	case b.Info()&types.IsInteger != 0:
		if isUnsigned(b) {
			return w.ctx.BV(bitWidth(b), c.Uint64())
		}
		return w.ctx.BV(bitWidth(b), uint64(c.Int64()))
	case b.Info()&types.IsFloat != 0:
		return w.ctx.BV(bitWidth(b), fbits(bitWidth(b), c.Float64()))
	}
	panic(fmt.Sprintf("const %v", c))
}

func (p *Path) runtimePanic(msg string) {
	t := p.w.eng.runtimeErrT
	panic(targetPanic{iface{t, &Str{s: msg}}})
}

func (fr *frame) asInt(v value, what string) int {
	t, ok := v.(*Term)
	if !ok {
		panic(fmt.Sprintf("asInt %T", v))
	}
	if t.isConst() {
		return int(t.signed())
	}
	return int(sext(fr.p.concretize(t, what, fr), t.w))
}

// call invokes any callable value.
func (p *Path) call(caller *frame, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return p.callSSA(caller, fn, args, nil)
	case *closure:
		return p.callSSA(caller, fn.fn, args, fn.env)
	case *ssa.Builtin:
		return p.callBuiltin(caller, fn, args, nil)
	case *native:
		return fn.f(caller, args)
	}
	panic(fmt.Sprintf("cannot call %T", fn))
}

const maxDepth = 3000

func (p *Path) callSSA(caller *frame, fn *ssa.Function, args []value, env []value) value {
	w := p.w
	if fn.Parent() == nil || fn.Blocks == nil {
		if ext := w.lookupExternal(fn); ext != nil {
			fr := &frame{p: p, caller: caller, fn: fn}
			if caller != nil {
				fr.g = caller.g
				fr.depth = caller.depth + 1
			} else {
				fr.g = p.cur
			}
			if r := ext(fr, args); r != (value)(fallThrough{}) {
				return r
			}
		}
	}
	w.eng.ensureBuilt(fn)
	if fn.Blocks == nil {
		panic(pathEnd{"unsupported", "no body for " + fn.String()})
	}
	info := w.infoOf(fn)
	if info.inRepo {
		p.w.cover[fn] = true
	}
	fr := &frame{p: p, caller: caller, fn: fn, info: info}
	if caller != nil {
		fr.depth = caller.depth + 1
		fr.g = caller.g
	} else {
		fr.g = p.cur
	}
	if fr.depth > maxDepth {
		panic(pathEnd{"stack", "call depth exceeded in " + fn.String()})
	}
	fr.env = make([]value, info.n)
	k := 0
	for range fn.Params {
		fr.env[k] = args[k]
		k++
	}
	for i := range fn.FreeVars {
		fr.env[k] = env[i]
		k++
	}
	for _, l := range fn.Locals {
		cell := new(value)
		*cell = w.ctx.zero(deref(l.Type()))
		fr.env[k] = cell
		k++
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		if info.hasDefer {
			fr.runDefersWrapped()
		} else {
			fr.run()
		}
	}
	return fr.result
}

func (fr *frame) runDefersWrapped() {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r) // engine control flow or engine bug
		}
		fr.panicking = true
		fr.panic = tp
		fr.doDefers()
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered, no named results
			fr.result = fr.p.w.ctx.zeroResults(fr.fn.Signature)
		}
	}()
	fr.run()
}

func (c *Ctx) zeroResults(sig *types.Signature) value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return c.zero(sig.Results().At(0).Type())
	}
	return c.zero(sig.Results())
}

func (fr *frame) doDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) runDefer(d *deferred) {
	var ok bool
	defer func() {
		if !ok {
			r := recover()
			if tp, is := r.(targetPanic); is {
				fr.panicking = true
				fr.panic = tp
				return
			}
			panic(r)
		}
	}()
	fr.p.call(fr, d.fn, d.args)
	ok = true
}

func (fr *frame) doRecover() value {
	caller := fr
	// fr is the deferred function's frame
	if !caller.panicking && caller.caller != nil && caller.caller.panicking {
		caller.caller.panicking = false
		p := caller.caller.panic
		caller.caller.panic = nil
		if tp, ok := p.(targetPanic); ok {
			return tp.v
		}
	}
	return iface{}
}

func (fr *frame) run() {
	p := fr.p
	for {
		blk := fr.block
		instrs := blk.Instrs
		i := 0
		if fr.skipPhi {
			fr.skipPhi = false
			for i < len(instrs) {
				if _, ok := instrs[i].(*ssa.Phi); !ok {
					break
				}
				i++
			}
		} else if _, ok := instrs[0].(*ssa.Phi); ok {
			pred := slices.Index(blk.Preds, fr.prevBlock)
			fr.phitemps = fr.phitemps[:0]
			for i < len(instrs) {
				phi, ok := instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				fr.phitemps = append(fr.phitemps, fr.get(phi.Edges[pred]))
				i++
			}
			for j := 0; j < i; j++ {
				fr.set(instrs[j].(*ssa.Phi), fr.phitemps[j])
			}
		}
		for ; i < len(instrs); i++ {
			p.steps++
			if p.steps&0x3ff == 0 {
				p.checkLimits()
				if p.w.run.hotspots != nil {
					p.w.run.mu.Lock()
					p.w.run.hotspots["steps/1024 in "+fr.fn.String()]++
					p.w.run.mu.Unlock()
				}
			}
			fr.curInstr = instrs[i]
			if fr.info.inRepo {
				p.lastRepo = instrs[i]
			}
			switch fr.visit(instrs[i]) {
			case kReturn:
				return
			case kJump:
				goto next
			}
		}
		panic("fell off block")
	next:
	}
}

type continuation int

const (
	kNext continuation = iota
	kReturn
	kJump
)

func (fr *frame) visit(instr ssa.Instruction) continuation {
	p := fr.p
	c := p.w.ctx
	switch instr := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(instr, fr.unop(instr, fr.get(instr.X)))
	case *ssa.BinOp:
		fr.set(instr, fr.binop(instr.Op, instr.X.Type(), instr.Y.Type(), fr.get(instr.X), fr.get(instr.Y)))
	case *ssa.Call:
		fn, args := fr.prepareCall(&instr.Call)
		var r value
		if b, ok := fn.(*ssa.Builtin); ok {
			r = p.callBuiltin(fr, b, args, &instr.Call)
		} else {
			r = p.call(fr, fn, args)
		}
		if r == nil {
			r = tuple(nil)
		}
		fr.set(instr, r)
	case *ssa.ChangeInterface:
		fr.set(instr, fr.get(instr.X))
	case *ssa.ChangeType:
		fr.set(instr, fr.get(instr.X))
	case *ssa.Convert:
		fr.set(instr, fr.conv(instr.Type(), instr.X.Type(), fr.get(instr.X)))
	case *ssa.MultiConvert:
		fr.set(instr, fr.conv(instr.Type(), instr.X.Type(), fr.get(instr.X)))
	case *ssa.SliceToArrayPointer:
		x := fr.get(instr.X).([]value)
		n := int(deref(instr.Type()).Underlying().(*types.Array).Len())
		if len(x) < n {
			p.runtimePanic("cannot convert slice to array pointer: length too short")
		}
		cell := new(value)
		*cell = array(x[:n:n])
		if x == nil {
			cell = nil
		}
		fr.set(instr, cell)
	case *ssa.MakeInterface:
		fr.set(instr, iface{t: instr.X.Type(), v: copyVal(fr.get(instr.X))})
	case *ssa.Extract:
		fr.set(instr, fr.get(instr.Tuple).(tuple)[instr.Index])
	case *ssa.Slice:
		fr.set(instr, fr.slice(instr))
	case *ssa.Return:
		switch len(instr.Results) {
		case 0:
		case 1:
			fr.result = fr.get(instr.Results[0])
		default:
			res := make(tuple, len(instr.Results))
			for i, r := range instr.Results {
				res[i] = fr.get(r)
			}
			fr.result = res
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.doDefers()
	case *ssa.Panic:
		panic(targetPanic{fr.get(instr.X)})
	case *ssa.Send:
		ch := fr.get(instr.Chan).(*Chan)
		p.chanSend(fr, ch, copyVal(fr.get(instr.X)))
	case *ssa.Store:
		a := fr.get(instr.Addr)
		v := fr.get(instr.Val)
		switch a := a.(type) {
		case *value:
			if a == nil {
				p.runtimePanic("invalid memory address or nil pointer dereference")
			}
			if p.shadow != nil && !localAddr(instr.Addr) {
				p.touch(fr, a, true)
			}
			storeTo(a, v)
		case *symAddr:
			nv := v.(*Term)
			for i := range a.elems {
				a.elems[i] = c.Ite(c.Eq(a.idx, c.BV(a.idx.w, uint64(i))), nv, a.elems[i].(*Term))
			}
		default:
			panic(fmt.Sprintf("store to %T", a))
		}
	case *ssa.If:
		return fr.doIf(instr)
	case *ssa.Jump:
		fr.prevBlock, fr.block = fr.block, fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepareCall(&instr.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			call := &instr.Call
			bb := b
			fn = &native{name: b.Name(), f: func(f2 *frame, a []value) value { return p.callBuiltin(f2, bb, a, call) }}
		}
		ds := &fr.defers
		if instr.DeferStack != nil {
			if into, ok := fr.get(instr.DeferStack).(*opaque); ok {
				ds = &into.v.(*frame).defers
			}
		}
		*ds = &deferred{fn: fn, args: args, instr: instr, tail: *ds}
	case *ssa.Go:
		fn, args := fr.prepareCall(&instr.Call)
		p.spawn(fr, fn, args)
	case *ssa.MakeChan:
		fr.set(instr, &Chan{cap: fr.asInt(fr.get(instr.Size), "chan size")})
	case *ssa.Alloc:
		z := c.zero(deref(instr.Type()))
		if instr.Heap {
			cell := new(value)
			*cell = z
			fr.set(instr, cell)
		} else {
			storeTo(fr.env[fr.info.slot[instr]].(*value), z)
		}
	case *ssa.MakeSlice:
		fr.set(instr, fr.makeSlice(instr))
	case *ssa.MakeMap:
		fr.set(instr, newMap())
	case *ssa.Range:
		x := fr.get(instr.X)
		switch x := x.(type) {
		case *Map:
			fr.set(instr, &mapIter{m: x})
		case *Str:
			fr.set(instr, &strIter{s: x})
		default:
			panic(fmt.Sprintf("range over %T", x))
		}
	case *ssa.Next:
		fr.set(instr, fr.next(instr))
	case *ssa.FieldAddr:
		x := fr.get(instr.X).(*value)
		if x == nil {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		st, ok := (*x).(structure)
		if !ok {
			panic(pathEnd{"unsupported", fmt.Sprintf("field address of %T in %s", *x, fr.fn)})
		}
		fr.set(instr, &st[instr.Field])
	case *ssa.Field:
		st, ok := fr.get(instr.X).(structure)
		if !ok {
			panic(pathEnd{"unsupported", fmt.Sprintf("field of %T in %s", fr.get(instr.X), fr.fn)})
		}
		fr.set(instr, st[instr.Field])
	case *ssa.IndexAddr:
		fr.set(instr, fr.indexAddr(instr))
	case *ssa.Index:
		x := fr.get(instr.X)
		idx := fr.get(instr.Index).(*Term)
		switch x := x.(type) {
		case array:
			fr.set(instr, fr.indexVal(x, idx, instr.Index.Type()))
		case *Str:
			fr.set(instr, fr.strIndex(x, idx, instr.Index.Type()))
		default:
			panic(fmt.Sprintf("index of %T", x))
		}
	case *ssa.Lookup:
		fr.set(instr, fr.lookup(instr))
	case *ssa.MapUpdate:
		m := fr.get(instr.Map).(*Map)
		if m == nil {
			p.runtimePanic("assignment to entry in nil map")
		}
		p.touchMap(fr, m, true)
		p.mapSet(fr, m, copyVal(fr.get(instr.Key)), copyVal(fr.get(instr.Value)))
	case *ssa.TypeAssert:
		fr.set(instr, fr.typeAssert(instr, fr.get(instr.X).(iface)))
	case *ssa.MakeClosure:
		b := make([]value, len(instr.Bindings))
		for i, x := range instr.Bindings {
			b[i] = fr.get(x)
		}
		fr.set(instr, &closure{instr.Fn.(*ssa.Function), b})
	case *ssa.Select:
		fr.set(instr, p.doSelect(fr, instr))
	default:
		panic(fmt.Sprintf("unexpected instruction %T", instr))
	}
	return kNext
}

func (fr *frame) prepareCall(call *ssa.CallCommon) (value, []value) {
	v := fr.get(call.Value)
	if call.Method == nil {
		args := make([]value, len(call.Args))
		for i, a := range call.Args {
			args[i] = copyVal(fr.get(a))
		}
		return v, args
	}
	recv := v.(iface)
	if recv.t == nil {
		fr.p.runtimePanic("invalid memory address or nil pointer dereference")
	}
	args := make([]value, 0, len(call.Args)+1)
	args = append(args, copyVal(recv.v))
	for _, a := range call.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	f := fr.p.w.eng.lookupMethod(recv.t, call.Method)
	if f == nil {
		panic(pathEnd{"unsupported", fmt.Sprintf("method %s of %v not found", call.Method, recv.t)})
	}
	return f, args
}

// ---- indexing ----

// idx64 widens an index term to 64 bits respecting signedness.
func (c *Ctx) idx64(t *Term, typ types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isUnsigned(typ) {
		return c.ZExt(t, 64)
	}
	return c.SExt(t, 64)
}

// boundsCheck panics in the target program if idx is not in [0,n).
func (fr *frame) boundsCheck(idx *Term, n int) {
	c := fr.p.w.ctx
	ok := c.Ult(idx, c.BV(64, uint64(n)))
	if !fr.p.branch(ok, fr) {
		fr.p.runtimePanic(fmt.Sprintf("index out of range [%s] with length %d", termShort(idx), n))
	}
}

func termShort(t *Term) string {
	if t.isConst() {
		return fmt.Sprint(t.signed())
	}
	return "?"
}

func (fr *frame) indexAddr(instr *ssa.IndexAddr) value {
	p := fr.p
	x := fr.get(instr.X)
	idx := p.w.ctx.idx64(fr.get(instr.Index).(*Term), instr.Index.Type())
	var elems []value
	switch x := x.(type) {
	case []value:
		elems = x
	case *value:
		if x == nil {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		elems = (*x).(array)
	default:
		panic(fmt.Sprintf("indexaddr %T", x))
	}
	fr.boundsCheck(idx, len(elems))
	if idx.isConst() {
		return &elems[idx.val]
	}
	if _, ok := elems[0].(*Term); ok && onlyLoadStore(instr) {
		return &symAddr{elems, idx}
	}
	if onlyLoaded(instr) {
		return &elems[fr.groupIndex(elems, idx)]
	}
	i := p.concretize(idx, "index", fr)
	return &elems[i]
}

// groupIndex picks an index of an element that is only going to be read: one path for all the indices whose elements are
// the very same value.
func (fr *frame) groupIndex(elems []value, idx *Term) uint64 {
	p := fr.p
	c := p.w.ctx
	type run struct{ lo, hi int }
	var keys []any
	groups := map[any][]run{}
	for i, e := range elems {
		var k any
		switch e := e.(type) {
		case []value:
			if e == nil {
				k = "nil"
			} else if cap(e) == 0 {
				k = "empty"
			} else {
				k = [3]any{&e[:1][0], len(e), cap(e)}
			}
		case *value:
			k = e
		case *Str:
			if e.conc() {
				k = "=" + e.s
			} else {
				k = e
			}
		case *ssa.Function:
			k = e
		default:
			return p.concretize(idx, "index", fr)
		}
		g := groups[k]
		if g == nil {
			keys = append(keys, k)
		}
		if n := len(g); n > 0 && g[n-1].hi == i-1 {
			g[n-1].hi = i
		} else {
			g = append(g, run{i, i})
		}
		groups[k] = g
	}
	if len(keys) == len(elems) {
		return p.concretize(idx, "index", fr)
	}
	for n, k := range keys {
		in := c.False
		for _, r := range groups[k] {
			in = c.Or(in, c.And(c.Ule(c.BV(64, uint64(r.lo)), idx), c.Ule(idx, c.BV(64, uint64(r.hi)))))
		}
		if n == len(keys)-1 || p.branch(in, fr) {
			return uint64(groups[k][0].lo)
		}
	}
	return 0
}

func onlyLoaded(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func onlyLoadStore(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Addr != v || r.Val == v {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (fr *frame) indexVal(x array, idx *Term, typ types.Type) value {
	p := fr.p
	i64 := p.w.ctx.idx64(idx, typ)
	fr.boundsCheck(i64, len(x))
	if i64.isConst() {
		return x[i64.val]
	}
	if _, ok := x[0].(*Term); ok {
		return p.selectTerm(x, i64)
	}
	return x[fr.groupIndex(x, i64)]
}

// selectTerm builds an ITE chain (or balanced tree) over scalar elements.
func (p *Path) selectTerm(elems []value, idx *Term) *Term {
	c := p.w.ctx
	r := elems[len(elems)-1].(*Term)
	for i := len(elems) - 2; i >= 0; i-- {
		r = c.Ite(c.Eq(idx, c.BV(64, uint64(i))), elems[i].(*Term), r)
	}
	return r
}

func (fr *frame) strIndex(s *Str, idx *Term, typ types.Type) value {
	p := fr.p
	c := p.w.ctx
	i64 := c.idx64(idx, typ)
	fr.boundsCheck(i64, s.Len())
	if i64.isConst() {
		return c.strAt(s, int(i64.val))
	}
	b := c.strBytes(s)
	r := b[len(b)-1]
	for i := len(b) - 2; i >= 0; i-- {
		r = c.Ite(c.Eq(i64, c.BV(64, uint64(i))), b[i], r)
	}
	return r
}

func (fr *frame) sliceBound(v ssa.Value, def int) (*Term, bool) {
	if v == nil {
		return fr.p.w.ctx.BV(64, uint64(def)), false
	}
	return fr.p.w.ctx.idx64(fr.get(v).(*Term), v.Type()), true
}

func (fr *frame) slice(instr *ssa.Slice) value {
	p := fr.p
	c := p.w.ctx
	x := fr.get(instr.X)
	var ln, cp int
	switch x := x.(type) {
	case *Str:
		ln = x.Len()
		cp = ln
	case []value:
		ln, cp = len(x), cap(x)
	case *value:
		if x == nil {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		ln = len((*x).(array))
		cp = ln
	default:
		panic(fmt.Sprintf("slice of %T", x))
	}
	lo, _ := fr.sliceBound(instr.Low, 0)
	hi, _ := fr.sliceBound(instr.High, ln)
	mx, hasMax := fr.sliceBound(instr.Max, cp)
	ok := c.And(c.Ule(lo, hi), c.And(c.Ule(hi, mx), c.Ule(mx, c.BV(64, uint64(cp)))))
	if !p.branch(ok, fr) {
		p.runtimePanic(fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", termShort(lo), termShort(hi), cp))
	}
	l := int(p.concretize(lo, "slice low", fr))
	h := int(p.concretize(hi, "slice high", fr))
	m := cp
	if hasMax {
		m = int(p.concretize(mx, "slice max", fr))
	}
	switch x := x.(type) {
	case *Str:
		return x.slice(l, h)
	case []value:
		if x == nil {
			return x
		}
		return x[l:h:m]
	case *value:
		return []value((*x).(array))[l:h:m]
	}
	return nil
}

func (fr *frame) makeSlice(instr *ssa.MakeSlice) value {
	p := fr.p
	c := p.w.ctx
	lnT := c.idx64(fr.get(instr.Len).(*Term), instr.Len.Type())
	cpT := c.idx64(fr.get(instr.Cap).(*Term), instr.Cap.Type())
	tElt := instr.Type().Underlying().(*types.Slice).Elem()
	// a negative or absurd length panics
	if !p.branch(c.Ult(lnT, c.BV(64, 1<<47)), fr) {
		p.runtimePanic("makeslice: len out of range")
	}
	if cpT != lnT {
		if !p.branch(c.Ult(cpT, c.BV(64, 1<<47)), fr) || !p.branch(c.Ule(lnT, cpT), fr) {
			p.runtimePanic("makeslice: cap out of range")
		}
	}
	ln := int(p.concretize(lnT, "make len", fr))
	cp := ln
	if cpT != lnT {
		cp = int(p.concretize(cpT, "make cap", fr))
	}
	if cp > 1<<20 {
		panic(pathEnd{"bound", fmt.Sprintf("allocation of %d elements", cp)})
	}
	s := make([]value, cp)
	if cp > 0 {
		z := c.zero(tElt)
		s[0] = z
		for i := 1; i < cp; i++ {
			s[i] = copyVal(z)
		}
	}
	return s[:ln]
}

// ---- maps ----

func newMap() *Map { return &Map{idx: map[string]*mapEntry{}} }

func (p *Path) mapFind(fr *frame, m *Map, k value) *mapEntry {
	if m == nil {
		return nil
	}
	p.checkHashable(k)
	ks, conc := keyString(k)
	if conc && !m.symKeys {
		return m.idx[ks]
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if p.branch(p.equals(e.k, k), fr) {
			return e
		}
	}
	return nil
}

func (p *Path) checkHashable(k value) {
	if i, ok := k.(iface); ok && i.t != nil {
		switch i.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			p.runtimePanic("hash of unhashable type " + i.t.String())
		}
	}
}

func (p *Path) mapSet(fr *frame, m *Map, k, v value) {
	if e := p.mapFind(fr, m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.entries = append(m.entries, e)
	m.n++
	if ks, conc := keyString(k); conc {
		m.idx[ks] = e
	} else {
		m.symKeys = true
	}
}

func (p *Path) mapDelete(fr *frame, m *Map, k value) {
	if m == nil {
		return
	}
	if e := p.mapFind(fr, m, k); e != nil {
		e.dead = true
		m.n--
		if ks, conc := keyString(e.k); conc {
			delete(m.idx, ks)
		}
	}
}

func (fr *frame) lookup(instr *ssa.Lookup) value {
	p := fr.p
	x := fr.get(instr.X)
	if s, ok := x.(*Str); ok {
		return fr.strIndex(s, fr.get(instr.Index).(*Term), instr.Index.Type())
	}
	m := x.(*Map)
	k := fr.get(instr.Index)
	p.touchMap(fr, m, false)
	e := p.mapFind(fr, m, k)
	var v value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = p.w.ctx.zero(instr.X.Type().Underlying().(*types.Map).Elem())
	}
	if instr.CommaOk {
		return tuple{v, p.w.ctx.Bool(e != nil)}
	}
	return v
}

func (fr *frame) next(instr *ssa.Next) value {
	p := fr.p
	c := p.w.ctx
	switch it := fr.get(instr.Iter).(type) {
	case *mapIter:
		if it.m != nil {
			p.touchMap(fr, it.m, false)
			if it.pos == 0 && p.mapOrder != nil && len(it.m.entries) > 1 {
				// harness asked for every iteration order (reversed as the alternative)
				it.m = p.mapOrder(fr, it.m)
			}
			for it.pos < len(it.m.entries) {
				e := it.m.entries[it.pos]
				it.pos++
				if e.dead {
					continue
				}
				return tuple{c.True, copyVal(e.k), copyVal(e.v)}
			}
		}
		tt := instr.Type().(*types.Tuple)
		zk, zv := value(c.False), value(c.False)
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zk = c.zero(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zv = c.zero(tt.At(2).Type())
		}
		return tuple{c.False, zk, zv}
	case *strIter:
		if it.pos >= it.s.Len() {
			return tuple{c.False, c.BV(64, 0), c.BV(32, 0)}
		}
		pos := it.pos
		r, n := p.decodeRune(fr, it.s, pos)
		it.pos += n
		return tuple{c.True, c.BV(64, uint64(pos)), r}
	}
	panic("next")
}

// decodeRune decodes one rune at pos, forking on ASCII-ness of symbolic bytes.
func (p *Path) decodeRune(fr *frame, s *Str, pos int) (*Term, int) {
	c := p.w.ctx
	b := c.strAt(s, pos)
	if b.isConst() && b.val < 0x80 {
		return c.ZExt(b, 32), 1
	}
	if p.branch(c.Ult(b, c.BV(8, 0x80)), fr) {
		return c.ZExt(b, 32), 1
	}
	// non-ASCII: concretize the (up to four) bytes via the real decoder source
	fn := p.w.eng.funcByName("unicode/utf8", "DecodeRuneInString")
	r := p.callSSA(fr, fn, []value{s.slice(pos, s.Len())}, nil).(tuple)
	return r[0].(*Term), int(p.concretize(r[1].(*Term), "rune size", fr))
}

// ---- type assertion ----

func (fr *frame) typeAssert(instr *ssa.TypeAssert, x iface) value {
	p := fr.p
	c := p.w.ctx
	var ok bool
	var v value
	if x.t != nil {
		if it, is := instr.AssertedType.Underlying().(*types.Interface); is {
			ok = p.w.eng.implements(x.t, it)
			v = x
		} else {
			ok = p.w.eng.identical(x.t, instr.AssertedType)
			v = copyVal(x.v)
		}
	}
	if !ok {
		if !instr.CommaOk {
			p.runtimePanic(fmt.Sprintf("interface conversion: interface is %v, not %v", x.t, instr.AssertedType))
		}
		v = c.zero(instr.AssertedType)
	}
	if instr.CommaOk {
		return tuple{v, c.Bool(ok)}
	}
	return v
}

// ---- operators ----

func (fr *frame) load(a value) value {
	switch a := a.(type) {
	case *value:
		if a == nil {
			fr.p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*a)
	case *symAddr:
		return fr.p.selectTerm(a.elems, a.idx)
	}
	panic(fmt.Sprintf("load from %T in %s", a, fr.fn))
}

func (fr *frame) unop(instr *ssa.UnOp, x value) value {
	c := fr.p.w.ctx
	switch instr.Op {
	case token.MUL:
		if fr.p.shadow != nil && !localAddr(instr.X) {
			if a, ok := x.(*value); ok && a != nil {
				fr.p.touch(fr, a, false)
			}
		}
		return fr.load(x)
	case token.NOT:
		return c.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if isFloat(instr.X.Type()) {
			return c.BXor(t, c.BV(t.w, uint64(1)<<(t.w-1)))
		}
		return c.Neg(t)
	case token.XOR:
		return c.BNot(x.(*Term))
	case token.ARROW:
		v, ok := fr.p.chanRecv(fr, x.(*Chan), instr.X.Type().Underlying().(*types.Chan).Elem())
		if instr.CommaOk {
			return tuple{v, c.Bool(ok)}
		}
		return v
	}
	panic("unop " + instr.Op.String())
}

func (fr *frame) binop(op token.Token, tx, ty types.Type, x, y value) value {
	p := fr.p
	c := p.w.ctx
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if isFloat(tx) {
			r = c.FCmp(OpFEq, x.(*Term), y.(*Term))
		} else {
			r = p.equals(x, y)
		}
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	switch a := x.(type) {
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return p.strConcat(a, b)
		case token.LSS:
			return c.strLess(a, b)
		case token.GTR:
			return c.strLess(b, a)
		case token.LEQ:
			return c.Not(c.strLess(b, a))
		case token.GEQ:
			return c.Not(c.strLess(a, b))
		}
	case *Term:
		b := y.(*Term)
		if isFloat(tx) {
			switch op {
			case token.ADD:
				return c.FArith(OpFAdd, a, b)
			case token.SUB:
				return c.FArith(OpFSub, a, b)
			case token.MUL:
				return c.FArith(OpFMul, a, b)
			case token.QUO:
				return c.FArith(OpFDiv, a, b)
			case token.LSS:
				return c.FCmp(OpFLt, a, b)
			case token.LEQ:
				return c.FCmp(OpFLe, a, b)
			case token.GTR:
				return c.FCmp(OpFLt, b, a)
			case token.GEQ:
				return c.FCmp(OpFLe, b, a)
			}
		}
		if a.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.And(a, b)
			case token.OR, token.LOR:
				return c.Or(a, b)
			}
		}
		uns := isUnsigned(tx)
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO, token.REM:
			if !p.branch(c.Not(c.Eq(b, c.BV(b.w, 0))), fr) {
				p.runtimePanic("integer divide by zero")
			}
			if op == token.QUO {
				if uns {
					return c.UDiv(a, b)
				}
				return c.SDiv(a, b)
			}
			if uns {
				return c.URem(a, b)
			}
			return c.SRem(a, b)
		case token.AND:
			return c.BAnd(a, b)
		case token.OR:
			return c.BOr(a, b)
		case token.XOR:
			return c.BXor(a, b)
		case token.AND_NOT:
			return c.BAnd(a, c.BNot(b))
		case token.SHL, token.SHR:
			if !isUnsigned(ty) {
				if !p.branch(c.Sle(c.BV(b.w, 0), b), fr) {
					p.runtimePanic("negative shift amount")
				}
			}
			n := c.shiftCount(b, a.w)
			if op == token.SHL {
				return c.Shl(a, n)
			}
			if uns {
				return c.LShr(a, n)
			}
			return c.AShr(a, n)
		case token.LSS:
			if uns {
				return c.Ult(a, b)
			}
			return c.Slt(a, b)
		case token.LEQ:
			if uns {
				return c.Ule(a, b)
			}
			return c.Sle(a, b)
		case token.GTR:
			if uns {
				return c.Ult(b, a)
			}
			return c.Slt(b, a)
		case token.GEQ:
			if uns {
				return c.Ule(b, a)
			}
			return c.Sle(b, a)
		}
	}
	panic(fmt.Sprintf("binop %s %T %T", op, x, y))
}

// shiftCount converts a non-negative count to width w, saturating.
func (c *Ctx) shiftCount(n *Term, w uint8) *Term {
	if n.w == w {
		return n
	}
	if n.w < w {
		return c.ZExt(n, w)
	}
	big := c.Not(c.Ult(n, c.BV(n.w, uint64(w))))
	return c.Ite(big, c.BV(w, uint64(w)), c.Extract(n, 0, w))
}

func (p *Path) strConcat(a, b *Str) *Str {
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	if a.opq || b.opq {
		return opqStr()
	}
	if a.conc() && b.conc() {
		return &Str{s: a.s + b.s}
	}
	c := p.w.ctx
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(r, c.strBytes(a)...)
	r = append(r, c.strBytes(b)...)
	return strOf(r)
}

// equals returns the boolean term x == y.
func (p *Path) equals(x, y value) *Term {
	c := p.w.ctx
	switch x := x.(type) {
	case *Term:
		if x.w == 64 || x.w == 32 {
			// integer equality; float equality handled by caller through types where it matters
		}
		return c.Eq(x, y.(*Term))
	case *Str:
		return c.strEq(x, y.(*Str))
	case structure:
		r := c.True
		yy, ok := y.(structure)
		if !ok {
			return c.False
		}
		for i := range x {
			r = c.And(r, p.equals(x[i], yy[i]))
		}
		return r
	case array:
		r := c.True
		yy := y.(array)
		for i := range x {
			r = c.And(r, p.equals(x[i], yy[i]))
		}
		return r
	case iface:
		yy, ok := y.(iface)
		if !ok {
			panic(fmt.Sprintf("iface == %T", y))
		}
		if x.t == nil || yy.t == nil {
			return c.Bool(x.t == nil && yy.t == nil)
		}
		if !p.w.eng.identical(x.t, yy.t) {
			return c.False
		}
		switch x.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			p.runtimePanic("comparing uncomparable type " + x.t.String())
		}
		if isFloat(x.t) {
			return c.FCmp(OpFEq, x.v.(*Term), yy.v.(*Term))
		}
		return p.equals(x.v, yy.v)
	case rtype:
		yy, ok := y.(rtype)
		return c.Bool(ok && types.Identical(x.t, yy.t))
	case *value:
		if yy, ok := y.(*value); ok {
			return c.Bool(x == yy)
		}
		return c.False
	case []value:
		yy := y.([]value)
		return c.Bool(x == nil && yy == nil)
	case *Map:
		yy := y.(*Map)
		return c.Bool(x == yy)
	case *Chan:
		return c.Bool(x == y.(*Chan))
	case *ssa.Function:
		if yy, ok := y.(*ssa.Function); ok {
			return c.Bool(x == yy)
		}
		return c.False
	case *closure:
		return c.False
	case *native:
		return c.False
	case *opaque:
		return c.Bool(value(x) == y)
	}
	panic(fmt.Sprintf("equals %T %T", x, y))
}

func (fr *frame) conv(dst, src types.Type, x value) value {
	p := fr.p
	c := p.w.ctx
	ud, us := dst.Underlying(), src.Underlying()
	switch v := x.(type) {
	case *Term:
		if isString(ud) {
			// integer -> string (rune)
			return p.runeToString(fr, v, us)
		}
		if p2, ok := ud.(*types.Basic); ok && p2.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		w := bitWidth(ud)
		if w == 255 {
			panic(pathEnd{"unsupported", fmt.Sprintf("convert %v to %v", src, dst)})
		}
		sf, df := isFloat(us), isFloat(ud)
		switch {
		case sf && df:
			return c.FConv(OpF2F, v, w)
		case sf:
			if isUnsigned(ud) {
				return c.FConv(OpF2UI, v, w)
			}
			return c.FConv(OpF2SI, v, w)
		case df:
			if isUnsigned(us) {
				return c.FConv(OpUI2F, v, w)
			}
			return c.FConv(OpSI2F, v, w)
		}
		if w <= v.w {
			return c.Extract(v, 0, w)
		}
		if isUnsigned(us) {
			return c.ZExt(v, w)
		}
		return c.SExt(v, w)
	case *Str:
		if sl, ok := ud.(*types.Slice); ok {
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Byte {
				b := c.strBytes(v)
				r := make([]value, len(b))
				for i, t := range b {
					r[i] = t
				}
				return r
			}
			// []rune
			r := []value{}
			for i := 0; i < v.Len(); {
				t, n := p.decodeRune(fr, v, i)
				r = append(r, t)
				i += n
			}
			return r
		}
		return v
	case []value:
		if isString(ud) {
			eb := us.(*types.Slice).Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Byte {
				b := make([]*Term, len(v))
				for i, t := range v {
					b[i] = t.(*Term)
				}
				if len(b) == 0 {
					return emptyStr
				}
				return strOf(b)
			}
			r := emptyStr
			for _, t := range v {
				r = p.strConcat(r, p.runeToString(fr, t.(*Term), types.Typ[types.Int32]))
			}
			return r
		}
		if _, ok := ud.(*types.Array); ok {
			n := int(ud.(*types.Array).Len())
			if len(v) < n {
				p.runtimePanic("cannot convert slice to array: length too short")
			}
			return copyVal(array(v[:n]))
		}
		return v
	case *value:
		return v
	}
	return x
}

func (p *Path) runeToString(fr *frame, v *Term, us types.Type) *Str {
	c := p.w.ctx
	if v.isConst() {
		return &Str{s: string(rune(v.signed()))}
	}
	// fork on ASCII
	var asc *Term
	if v.w == 8 {
		asc = c.Ult(v, c.BV(8, 0x80))
	} else {
		asc = c.Ult(v, c.BV(v.w, 0x80))
	}
	if p.branch(asc, fr) {
		return strOf([]*Term{c.Extract(v, 0, 8)})
	}
	if v.w == 8 {
		v = c.ZExt(v, 32)
	}
	x := p.concretize(v, "rune", fr)
	return &Str{s: string(rune(sext(x, v.w)))}
}

func (p *Path) callBuiltin(fr *frame, b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	c := p.w.ctx
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s0 := args[0].([]value)
		var add []value
		switch s := args[1].(type) {
		case *Str:
			for _, t := range c.strBytes(s) {
				add = append(add, t)
			}
		case []value:
			add = s
		}
		if len(add) == 0 {
			return s0
		}
		n := len(s0) + len(add)
		if n <= cap(s0) {
			r := s0[:n]
			// overlapping-safe copy
			tmp := make([]value, len(add))
			for i, x := range add {
				tmp[i] = copyVal(x)
			}
			for i, x := range tmp {
				p.touch(fr, &r[len(s0)+i], true)
				storeTo(&r[len(s0)+i], x)
			}
			return r
		}
		r := make([]value, len(s0), growCap(cap(s0), n, elemSize(call)))
		for i, x := range s0 {
			r[i] = copyVal(x)
		}
		for _, x := range add {
			r = append(r, copyVal(x))
		}
		// initialise spare capacity so reslicing sees zero values
		if cap(r) > n {
			full := r[:cap(r)]
			var z value
			if call != nil {
				z = c.zero(call.Args[0].Type().Underlying().(*types.Slice).Elem())
			} else if t, ok := r[0].(*Term); ok {
				z = c.BV(t.w, 0)
			}
			for i := n; i < len(full); i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch s := args[1].(type) {
		case *Str:
			for _, t := range c.strBytes(s) {
				src = append(src, t)
			}
		case []value:
			src = s
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			if p.shadow != nil {
				if _, ok := args[1].([]value); ok {
					p.touch(fr, &src[i], false)
				}
				p.touch(fr, &dst[i], true)
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeTo(&dst[i], tmp[i])
		}
		return c.BV(64, uint64(n))
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return c.BV(64, uint64(x.Len()))
		case []value:
			return c.BV(64, uint64(len(x)))
		case array:
			return c.BV(64, uint64(len(x)))
		case *value:
			return c.BV(64, uint64(len((*x).(array))))
		case *Map:
			if x == nil {
				return c.BV(64, 0)
			}
			return c.BV(64, uint64(x.n))
		case *Chan:
			if x == nil {
				return c.BV(64, 0)
			}
			return c.BV(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return c.BV(64, uint64(cap(x)))
		case array:
			return c.BV(64, uint64(len(x)))
		case *value:
			return c.BV(64, uint64(len((*x).(array))))
		case *Chan:
			return c.BV(64, uint64(x.cap))
		}
	case "close":
		ch := args[0].(*Chan)
		if ch == nil {
			panic(targetPanic{iface{p.w.eng.runtimeErrT, &Str{s: "close of nil channel"}}})
		}
		if ch.closed {
			panic(targetPanic{iface{p.w.eng.runtimeErrT, &Str{s: "close of closed channel"}}})
		}
		ch.vc = p.release(ch.vc)
		ch.closed = true
		return nil
	case "delete":
		p.touchMap(fr, args[0].(*Map), true)
		p.mapDelete(fr, args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				x.entries = nil
				x.idx = map[string]*mapEntry{}
				x.n = 0
				x.symKeys = false
			}
		case []value:
			for i := range x {
				storeTo(&x[i], zeroLike(c, x[i]))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		return fr.doRecover()
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			var lt *Term
			t := call.Args[0].Type()
			switch {
			case isString(t):
				panic(pathEnd{"unsupported", "min/max of strings"})
			case isFloat(t):
				lt = c.FCmp(OpFLt, y.(*Term), r.(*Term))
			case isUnsigned(t):
				lt = c.Ult(y.(*Term), r.(*Term))
			default:
				lt = c.Slt(y.(*Term), r.(*Term))
			}
			if b.Name() == "max" {
				switch {
				case isFloat(t):
					lt = c.FCmp(OpFLt, r.(*Term), y.(*Term))
				case isUnsigned(t):
					lt = c.Ult(r.(*Term), y.(*Term))
				default:
					lt = c.Slt(r.(*Term), y.(*Term))
				}
			}
			r = c.Ite(lt, y.(*Term), r.(*Term))
		}
		return r
	case "ssa:wrapnilchk":
		if q, ok := args[0].(*value); ok && q == nil {
			p.runtimePanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return &opaque{"deferstack", fr}
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("builtin %s(%T) in %s", b.Name(), args, fr.fn)})
}

func zeroLike(c *Ctx, v value) value {
	switch v := v.(type) {
	case *Term:
		return c.BV(v.w, 0)
	case *Str:
		return emptyStr
	case *value:
		return (*value)(nil)
	case structure:
		r := make(structure, len(v))
		for i := range v {
			r[i] = zeroLike(c, v[i])
		}
		return r
	case array:
		r := make(array, len(v))
		for i := range v {
			r[i] = zeroLike(c, v[i])
		}
		return r
	case iface:
		return iface{}
	case []value:
		return []value(nil)
	case *Map:
		return (*Map)(nil)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("zeroLike %T", v)})
}

func elemSize(call *ssa.CallCommon) int64 {
	if call == nil {
		return 1
	}
	if s, ok := call.Args[0].Type().Underlying().(*types.Slice); ok {
		return stdSizes.Sizeof(s.Elem())
	}
	return 1
}

var stdSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap mirrors the runtime's slice growth.
func growCap(oldCap, newLen int, es int64) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return newLen
	}
	bytes := int64(nc) * es
	if bytes <= 32768 {
		for _, s := range sizeClasses {
			if s >= bytes {
				return int(s / es)
			}
		}
	}
	bytes = (bytes + 8191) &^ 8191
	return int(bytes / es)
}

// ---- branching with local merging ----

func (fr *frame) doIf(instr *ssa.If) continuation {
	p := fr.p
	cond := fr.get(instr.Cond).(*Term)
	if !cond.isConst() {
		if k, v := p.implied(cond); k {
			cond = p.w.ctx.Bool(v)
		}
	}
	if !cond.isConst() && !p.noMerge {
		if fr.tryMerge(cond) {
			if fr.mergedRet {
				return kReturn
			}
			return kJump
		}
	}
	succ := 1
	if p.branch(cond, fr) {
		succ = 0
	}
	fr.prevBlock, fr.block = fr.block, fr.block.Succs[succ]
	return kJump
}

// specLeaf is one way of leaving a speculated region.
type specLeaf struct {
	cond *Term
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
}

// tryMerge speculatively evaluates small pure regions after a symbolic branch so that
// both sides continue as a single path with ITE values.  Blocks are absorbed in reverse
// postorder, each at most once, so that short-circuit chains merge completely.
func (fr *frame) tryMerge(cond *Term) bool {
	blk := fr.block
	c := fr.p.w.ctx
	rpo := fr.info.rpoOf()
	base := rpo[blk.Index]
	leaves := []specLeaf{{cond, blk, blk.Succs[0]}, {c.Not(cond), blk, blk.Succs[1]}}
	if blk.Succs[0] == blk.Succs[1] {
		return false
	}
	budget := 60
	final := map[*ssa.BasicBlock]bool{}
	// phiVals merges the phi inputs of block t over the leaves entering it
	phiVals := func(t *ssa.BasicBlock) ([]value, *Term, bool) {
		var group []specLeaf
		cd := c.False
		for _, l := range leaves {
			if l.to == t {
				group = append(group, l)
				cd = c.Or(cd, l.cond)
			}
		}
		var vals []value
		for _, in := range t.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var acc value
			for gi := len(group) - 1; gi >= 0; gi-- {
				l := group[gi]
				pred := slices.Index(t.Preds, l.from)
				v := fr.specGet(phi.Edges[pred])
				if v == nil {
					return nil, nil, false
				}
				if acc == nil {
					acc = v
					continue
				}
				m, ok := mergeVal(c, l.cond, v, acc)
				if !ok {
					return nil, nil, false
				}
				acc = m
			}
			vals = append(vals, acc)
		}
		return vals, cd, true
	}
	type undo struct {
		slot int
		val  value
	}
	var undos []undo
	setU := func(v ssa.Value, x value) {
		i := fr.info.slot[v]
		undos = append(undos, undo{i, fr.env[i]})
		fr.env[i] = x
	}
	merged := false
	// ways of returning from the function inside the region
	type retLeaf struct {
		cond *Term
		vals []value
	}
	var rets []retLeaf
	for {
		var b *ssa.BasicBlock
		for _, l := range leaves {
			if !final[l.to] && (b == nil || rpo[l.to.Index] < rpo[b.Index]) {
				b = l.to
			}
		}
		if b == nil {
			break
		}
		if rpo[b.Index] <= base || !pureBlock(b) || budget <= 0 {
			final[b] = true
			continue
		}
		vals, cd, ok := phiVals(b)
		if !ok {
			final[b] = true
			continue
		}
		for i, v := range vals {
			setU(b.Instrs[i].(*ssa.Phi), v)
		}
		n := len(b.Instrs)
		for _, in := range b.Instrs[len(vals) : n-1] {
			budget--
			if v, isv := in.(ssa.Value); isv {
				i := fr.info.slot[v]
				undos = append(undos, undo{i, fr.env[i]})
			}
			if budget < 0 || !fr.specInstr(in) {
				ok = false
				break
			}
		}
		if !ok {
			final[b] = true
			continue
		}
		var next []specLeaf
		cnt := 0
		for _, l := range leaves {
			if l.to != b {
				next = append(next, l)
			} else {
				cnt++
			}
		}
		if cnt > 1 {
			merged = true
		}
		switch last := b.Instrs[n-1].(type) {
		case *ssa.Return:
			rl := retLeaf{cond: cd}
			for _, rv := range last.Results {
				v := fr.specGet(rv)
				if v == nil {
					ok = false
					break
				}
				rl.vals = append(rl.vals, v)
			}
			for i := range rl.vals {
				if len(rets) > 0 && ok {
					_, ok = mergeVal(c, cd, rl.vals[i], rets[0].vals[i])
				}
			}
			if !ok {
				final[b] = true
				continue
			}
			rets = append(rets, rl)
		case *ssa.Jump:
			next = append(next, specLeaf{cd, b, b.Succs[0]})
		case *ssa.If:
			t, ok := fr.get(last.Cond).(*Term)
			if !ok {
				final[b] = true
				continue
			}
			if k, v := fr.p.implied(t); k {
				t = c.Bool(v)
			}
			if t.isConst() {
				s := b.Succs[1]
				if t.val != 0 {
					s = b.Succs[0]
				}
				next = append(next, specLeaf{cd, b, s})
			} else {
				next = append(next, specLeaf{c.And(cd, t), b, b.Succs[0]}, specLeaf{c.And(cd, c.Not(t)), b, b.Succs[1]})
			}
		}
		if len(next) > 10 {
			final[b] = true
			continue
		}
		leaves = next
	}
	// distinct targets
	var targets []*ssa.BasicBlock
	for _, l := range leaves {
		if !slices.Contains(targets, l.to) {
			targets = append(targets, l.to)
		}
	}
	fail := func() bool {
		for i := len(undos) - 1; i >= 0; i-- {
			fr.env[undos[i].slot] = undos[i].val
		}
		return false
	}
	if len(targets) == len(leaves) && !merged && len(rets) < 2 || len(targets) > 3 {
		return fail() // nothing merges
	}
	// for every target compute the merged phi values; all must be mergeable
	type tinfo struct {
		cond *Term
		vals []value
	}
	infos := make([]tinfo, len(targets))
	for ti, t := range targets {
		vals, cd, ok := phiVals(t)
		if !ok {
			return fail()
		}
		infos[ti] = tinfo{cd, vals}
	}
	if len(rets) > 0 {
		cd := c.False
		acc := rets[len(rets)-1].vals
		for i := len(rets) - 2; i >= 0; i-- {
			for j := range acc {
				m, ok := mergeVal(c, rets[i].cond, rets[i].vals[j], acc[j])
				if !ok {
					return fail()
				}
				acc[j] = m
			}
		}
		for _, r := range rets {
			cd = c.Or(cd, r.cond)
		}
		if len(targets) == 0 || fr.p.branch(cd, fr) {
			switch len(acc) {
			case 0:
			case 1:
				fr.result = acc[0]
			default:
				fr.result = tuple(acc)
			}
			fr.block = nil
			fr.mergedRet = true
			return true
		}
	}
	pick := len(targets) - 1
	for i := 0; i < len(targets)-1; i++ {
		if fr.p.branch(infos[i].cond, fr) {
			pick = i
			break
		}
	}
	t := targets[pick]
	for i, v := range infos[pick].vals {
		fr.set(t.Instrs[i].(*ssa.Phi), v)
	}
	for _, l := range leaves {
		if l.to == t {
			fr.prevBlock = l.from
			break
		}
	}
	fr.block = t
	fr.skipPhi = true
	return true
}

// rpoOf numbers the blocks of the function in reverse postorder.
func (fi *fnInfo) rpoOf() []int {
	if fi.rpo != nil {
		return fi.rpo
	}
	n := len(fi.fn.Blocks)
	r := make([]int, n)
	seen := make([]bool, n)
	k := n
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		k--
		r[b.Index] = k
	}
	for _, b := range fi.fn.Blocks {
		if !seen[b.Index] {
			dfs(b)
		}
	}
	fi.rpo = r
	return r
}

func mergeVal(c *Ctx, cond *Term, a, b value) (value, bool) {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && y.w == x.w {
			return c.Ite(cond, x, y), true
		}
	case *value:
		if y, ok := b.(*value); ok && x == y {
			return a, true
		}
	case *Map:
		if y, ok := b.(*Map); ok && x == y {
			return a, true
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			if x == y || (x.conc() && y.conc() && x.s == y.s) {
				return a, true
			}
		}
	case []value:
		if y, ok := b.([]value); ok {
			if len(x) == len(y) && cap(x) == cap(y) && (cap(x) == 0 && (x == nil) == (y == nil) || cap(x) > 0 && &x[:1][0] == &y[:1][0]) {
				return a, true
			}
		}
	case iface:
		if y, ok := b.(iface); ok {
			if x.t == nil && y.t == nil {
				return a, true
			}
			if x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
				if v, ok := mergeVal(c, cond, x.v, y.v); ok {
					return iface{x.t, v}, true
				}
			}
		}
	}
	return nil, false
}

// pureBlock tells whether a block has no effects and could be evaluated speculatively.
func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 20 {
		return false
	}
	switch b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Jump, *ssa.If:
	case *ssa.Return:
		if b.Parent().Recover != nil {
			return false
		}
	default:
		return false
	}
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.BinOp:
			if in.Op == token.QUO || in.Op == token.REM {
				if k, ok := in.Y.(*ssa.Const); !ok || k.Value == nil || !isInteger(in.Y.Type()) || constant.Sign(k.Value) == 0 {
					return false
				}
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
		case *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.DebugRef, *ssa.Extract, *ssa.Lookup:
		case *ssa.Call:
			bi, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || (bi.Name() != "len" && bi.Name() != "cap") {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (fr *frame) specGet(v ssa.Value) value {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return fr.get(v)
	}
	i, ok := fr.info.slot[v]
	if !ok {
		return nil
	}
	return fr.env[i]
}

// specInstr evaluates a pure, non-faulting instruction; false means it cannot be speculated.
func (fr *frame) specInstr(in ssa.Instruction) bool {
	c := fr.p.w.ctx
	var ops [8]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o != nil && fr.specGet(*o) == nil {
			return false
		}
	}
	constIdx := func(t value, typ types.Type, n int) (int, bool) {
		i := c.idx64(t.(*Term), typ)
		if !i.isConst() || i.val >= uint64(n) {
			return 0, false
		}
		return int(i.val), true
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.BinOp:
		x, y := fr.get(in.X), fr.get(in.Y)
		if _, ok := x.(*Term); !ok {
			if s, ok := x.(*Str); ok && (in.Op == token.EQL || in.Op == token.NEQ) {
				r := c.strEq(s, y.(*Str))
				if in.Op == token.NEQ {
					r = c.Not(r)
				}
				fr.set(in, r)
				return true
			}
			switch x.(type) {
			case *value, []value, *Map, *Chan:
				if in.Op == token.EQL || in.Op == token.NEQ {
					r := fr.p.equals(x, y)
					if in.Op == token.NEQ {
						r = c.Not(r)
					}
					fr.set(in, r)
					return true
				}
			case iface:
				yy, ok := y.(iface)
				if ok && (yy.t == nil || x.(iface).t == nil) && (in.Op == token.EQL || in.Op == token.NEQ) {
					r := fr.p.equals(x, y)
					if in.Op == token.NEQ {
						r = c.Not(r)
					}
					fr.set(in, r)
					return true
				}
			}
			return false
		}
		switch in.Op {
		case token.SHL, token.SHR:
			if !isUnsigned(in.Y.Type()) {
				t := y.(*Term)
				if !t.isConst() || t.signed() < 0 {
					return false
				}
			}
		}
		fr.set(in, fr.binop(in.Op, in.X.Type(), in.Y.Type(), x, y))
		return true
	case *ssa.UnOp:
		x := fr.get(in.X)
		if in.Op == token.MUL {
			switch a := x.(type) {
			case *value:
				if a == nil {
					return false
				}
			case *symAddr:
			default:
				return false
			}
		}
		fr.set(in, fr.unop(in, x))
		return true
	case *ssa.Convert:
		x := fr.get(in.X)
		if _, ok := x.(*Term); !ok || bitWidth(in.Type()) == 255 {
			return false
		}
		fr.set(in, fr.conv(in.Type(), in.X.Type(), x))
		return true
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
		return true
	case *ssa.Extract:
		t, ok := fr.get(in.Tuple).(tuple)
		if !ok {
			return false
		}
		fr.set(in, t[in.Index])
		return true
	case *ssa.FieldAddr:
		x, ok := fr.get(in.X).(*value)
		if !ok || x == nil {
			return false
		}
		st, ok := (*x).(structure)
		if !ok {
			return false
		}
		fr.set(in, &st[in.Field])
		return true
	case *ssa.Field:
		st, ok := fr.get(in.X).(structure)
		if !ok {
			return false
		}
		fr.set(in, st[in.Field])
		return true
	case *ssa.IndexAddr:
		var elems []value
		switch x := fr.get(in.X).(type) {
		case []value:
			elems = x
		case *value:
			if x == nil {
				return false
			}
			elems = (*x).(array)
		default:
			return false
		}
		i, ok := constIdx(fr.get(in.Index), in.Index.Type(), len(elems))
		if !ok {
			return false
		}
		fr.set(in, &elems[i])
		return true
	case *ssa.Index:
		switch x := fr.get(in.X).(type) {
		case array:
			i, ok := constIdx(fr.get(in.Index), in.Index.Type(), len(x))
			if !ok {
				return false
			}
			fr.set(in, x[i])
			return true
		case *Str:
			i, ok := constIdx(fr.get(in.Index), in.Index.Type(), x.Len())
			if !ok {
				return false
			}
			fr.set(in, c.strAt(x, i))
			return true
		}
		return false
	case *ssa.Lookup:
		x, ok := fr.get(in.X).(*Str)
		if !ok {
			return false
		}
		i, ok := constIdx(fr.get(in.Index), in.Index.Type(), x.Len())
		if !ok {
			return false
		}
		fr.set(in, c.strAt(x, i))
		return true
	case *ssa.Call:
		switch fr.get(in.Call.Args[0]).(type) {
		case *Str, []value, array, *Map:
		default:
			return false
		}
		bi := in.Call.Value.(*ssa.Builtin)
		if m, ok := fr.get(in.Call.Args[0]).(*Map); ok && m == nil {
			return false
		}
		fr.set(in, fr.p.callBuiltin(fr, bi, []value{fr.get(in.Call.Args[0])}, &in.Call))
		return true
	}
	return false
}

var debugEngine = os.Getenv("VERIF_DEBUG") != ""

// localAddr tells whether an address is inside a variable no other goroutine can see.
func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return !x.Heap
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}
