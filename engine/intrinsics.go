package main

import (
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"regexp"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type externalFn func(fr *frame, args []value) value

var externals = map[string]externalFn{}

// lookupExternal returns the engine's model of fn, nil when fn is to be interpreted.
func (w *Worker) lookupExternal(fn *ssa.Function) externalFn {
	if e, ok := w.extern[fn]; ok {
		return e
	}
	e := w.findExternal(fn)
	w.extern[fn] = e
	return e
}

func (w *Worker) findExternal(fn *ssa.Function) externalFn {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if o.Pkg == nil {
		// wrappers and bound methods carry no package: resolve by the receiver name
		if e, ok := externals[o.String()]; ok {
			return e
		}
		return nil
	}
	name := o.String()
	if e, ok := externals[name]; ok {
		return e
	}
	pp := o.Pkg.Pkg.Path()
	if w.eng.repoPkg(pp) {
		if e, ok := vfIntrinsics[fn.Name()]; ok && strings.HasPrefix(filepath.Base(w.eng.prog.Fset.Position(fn.Pos()).Filename), "zz_vf_api") {
			return e
		}
		return nil
	}
	switch pp {
	case "log", "log/slog":
		return noopExternal(fn)
	}
	return nil
}

// noopExternal: logging has no effect on program state.
func noopExternal(fn *ssa.Function) externalFn {
	sig := fn.Signature
	switch fn.Name() {
	case "Panic", "Panicf", "Panicln":
		return func(fr *frame, args []value) value {
			panic(targetPanic{iface{types.Typ[types.String], &Str{s: "log.Panic", opq: true}}})
		}
	case "Fatal", "Fatalf", "Fatalln":
		return func(fr *frame, args []value) value { panic(pathEnd{"stack", "log.Fatal"}) }
	}
	return func(fr *frame, args []value) value {
		c := fr.p.w.ctx
		mk := func(t types.Type) value {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				if sig.Recv() != nil && len(args) > 0 {
					if q, ok := args[0].(*value); ok && types.Identical(sig.Recv().Type(), t) && q != nil {
						return q
					}
				}
				cell := new(value)
				*cell = c.zero(p.Elem())
				return cell
			}
			return c.zero(t)
		}
		switch sig.Results().Len() {
		case 0:
			return nil
		case 1:
			return mk(sig.Results().At(0).Type())
		}
		r := make(tuple, sig.Results().Len())
		for i := range r {
			r[i] = mk(sig.Results().At(i).Type())
		}
		return r
	}
}

func (fr *frame) loc() string {
	f := fr
	for f != nil && f.curInstr == nil {
		f = f.caller
	}
	if f == nil {
		return ""
	}
	pos := f.p.w.eng.prog.Fset.Position(f.curInstr.Pos())
	return fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line)
}

func concStr(v value, what string) string {
	s, ok := v.(*Str)
	if !ok || !s.conc() {
		panic(pathEnd{"unsupported", "symbolic " + what})
	}
	return s.s
}

// ---- harness API ----

var vfIntrinsics = map[string]externalFn{
	"vfRaw": func(fr *frame, a []value) value {
		if fr.p.inInit {
			return fr.p.w.ctx.BV(64, 0)
		}
		w := a[1].(*Term).val
		t := fr.p.fresh(concStr(a[0], "input name"), uint8(w))
		return fr.p.w.ctx.ZExt(t, 64)
	},
	"vfConc": func(fr *frame, a []value) value {
		return fr.p.w.ctx.BV(64, fr.p.concretize(a[0].(*Term), "vfConc", fr))
	},
	"vfAssume": func(fr *frame, a []value) value { fr.p.assume(a[0].(*Term)); return nil },
	"vfAssert": func(fr *frame, a []value) value {
		fr.p.assert(a[0].(*Term), concStr(a[1], "assertion text"), fr.loc(), "")
		return nil
	},
	"vfAssertKnown": func(fr *frame, a []value) value {
		// vfAssertKnown(id, region, ok, msg): inside region a failure is the known finding id
		c := fr.p.w.ctx
		id, msg := concStr(a[0], "finding id"), concStr(a[3], "assertion text")
		region, ok := a[1].(*Term), a[2].(*Term)
		fr.p.assert(c.Or(region, ok), msg, fr.loc(), "")
		fr.p.assert(ok, msg, fr.loc(), id)
		return nil
	},
	"vfObsU": func(fr *frame, a []value) value {
		fr.p.obs = append(fr.p.obs, Obs{Name: concStr(a[0], "obs"), Val: a[1]})
		return nil
	},
	"vfObsS": func(fr *frame, a []value) value {
		fr.p.obs = append(fr.p.obs, Obs{Name: concStr(a[0], "obs"), Val: a[1]})
		return nil
	},
	"vfObsB": func(fr *frame, a []value) value {
		fr.p.obs = append(fr.p.obs, Obs{Name: concStr(a[0], "obs"), Val: append([]value(nil), a[1].([]value)...)})
		return nil
	},
	"vfReach":    func(fr *frame, a []value) value { fr.p.reach[concStr(a[0], "label")] = true; return nil },
	"vfTier":     func(fr *frame, a []value) value { return fr.p.w.ctx.BV(64, uint64(fr.p.w.run.tier)) },
	"vfYield":    func(fr *frame, a []value) value { fr.p.turn(fr); return nil },
	"vfLock":     func(fr *frame, a []value) value { fr.p.turn(fr); fr.p.lock(fr, cellOf(a[0])); return nil },
	"vfRWLock":   func(fr *frame, a []value) value { fr.p.turn(fr); fr.p.lock(fr, cellOf(a[0])); return nil },
	"vfRLock":    func(fr *frame, a []value) value { fr.p.turn(fr); fr.p.rlock(fr, cellOf(a[0])); return nil },
	"vfUnlock":   func(fr *frame, a []value) value { fr.p.unlock(fr, cellOf(a[0])); return nil },
	"vfRWUnlock": func(fr *frame, a []value) value { fr.p.unlock(fr, cellOf(a[0])); return nil },
	"vfRUnlock":  func(fr *frame, a []value) value { fr.p.runlock(fr, cellOf(a[0])); return nil },
	"vfSchedule": func(fr *frame, a []value) value {
		fr.p.schedOn = true
		fr.p.shadow = map[*value]*shadow{}
		fr.p.mapShadow = map[*Map]*shadow{}
		fr.p.maxPre = int(a[0].(*Term).signed())
		return nil
	},
	"vfJoin": func(fr *frame, a []value) value {
		p := fr.p
		p.block(fr, func() bool {
			for _, g := range p.gors {
				if g != p.cur && g != p.mainG && !g.done {
					return false
				}
			}
			return true
		}, "vfJoin")
		for _, g := range p.gors {
			p.acquire(g.vc)
		}
		p.w.run.assertRec("no data race or deadlock in the schedule", fr.loc(), func(a *AssertRec) { a.Total++; a.Triv++ })
		p.schedOn = false
		p.shadow, p.mapShadow = nil, nil
		return nil
	},
	"vfSettle": func(fr *frame, a []value) value {
		p := fr.p
		me := p.cur
		p.block(fr, func() bool {
			for _, g := range p.gors {
				if g != me && !g.done && (g.ready == nil || g.ready()) {
					return false
				}
			}
			return true
		}, "vfSettle")
		return nil
	},
	"vfIsSymbolic": func(fr *frame, a []value) value { return fr.p.w.ctx.True },
	"vfMute":       func(fr *frame, a []value) value { return nil },
	"vfTexts": func(fr *frame, a []value) value {
		fr.p.texts = a[0].(*Term).val != 0
		return nil
	},
	"vfMapPerm": func(fr *frame, a []value) value {
		fr.p.mapPerm = a[0].(*Term).val != 0
		return nil
	},
}

// ---- library models ----

func ext(name string, f externalFn) { externals[name] = f }

func (fr *frame) indexSeq(hay, nee []*Term) value {
	c := fr.p.w.ctx
	for i := 0; i+len(nee) <= len(hay); i++ {
		m := c.True
		for j := range nee {
			m = c.And(m, c.Eq(hay[i+j], nee[j]))
			if m == c.False {
				break
			}
		}
		if fr.p.branch(m, fr) {
			return c.BV(64, uint64(i))
		}
	}
	return c.BV(64, ^uint64(0))
}

func (fr *frame) lastIndexSeq(hay, nee []*Term) value {
	c := fr.p.w.ctx
	for i := len(hay) - len(nee); i >= 0; i-- {
		m := c.True
		for j := range nee {
			m = c.And(m, c.Eq(hay[i+j], nee[j]))
			if m == c.False {
				break
			}
		}
		if fr.p.branch(m, fr) {
			return c.BV(64, uint64(i))
		}
	}
	return c.BV(64, ^uint64(0))
}

func (c *Ctx) terms(v value) []*Term {
	switch v := v.(type) {
	case *Str:
		return c.strBytes(v)
	case []value:
		r := make([]*Term, len(v))
		for i, x := range v {
			r[i] = x.(*Term)
		}
		return r
	}
	panic(fmt.Sprintf("terms of %T", v))
}

func (fr *frame) cmpSeq(a, b []*Term) value {
	c := fr.p.w.ctx
	lt, eq := c.Bool(len(a) < len(b)), c.Bool(len(a) == len(b))
	n := min(len(a), len(b))
	for i := n - 1; i >= 0; i-- {
		e := c.Eq(a[i], b[i])
		lt = c.Or(c.Ult(a[i], b[i]), c.And(e, lt))
		eq = c.And(e, eq)
	}
	return c.Ite(eq, c.BV(64, 0), c.Ite(lt, c.BV(64, ^uint64(0)), c.BV(64, 1)))
}

func (fr *frame) caseMap(s *Str, lower bool) value {
	c := fr.p.w.ctx
	if s.conc() {
		if lower {
			return &Str{s: strings.ToLower(s.s), opq: s.opq}
		}
		return &Str{s: strings.ToUpper(s.s), opq: s.opq}
	}
	b := s.b
	ascii := c.True
	for _, t := range b {
		ascii = c.And(ascii, c.Ult(t, c.BV(8, 0x80)))
	}
	if !fr.p.branch(ascii, fr) {
		panic(pathEnd{"bound", "case mapping of symbolic non-ASCII text"})
	}
	r := make([]*Term, len(b))
	for i, t := range b {
		lo, hi := uint64('A'), uint64('Z')
		if !lower {
			lo, hi = 'a', 'z'
		}
		in := c.And(c.Ule(c.BV(8, lo), t), c.Ule(t, c.BV(8, hi)))
		if k, v := fr.p.implied(in); k {
			in = c.Bool(v)
		}
		if lower {
			r[i] = c.Ite(in, c.Add(t, c.BV(8, 32)), t)
		} else {
			r[i] = c.Ite(in, c.Sub(t, c.BV(8, 32)), t)
		}
	}
	return strOf(r)
}

func cellOf(v value) *value { return v.(*value) }

// atomicField returns the cell that carries the value of a sync/atomic type.
func atomicField(fr *frame, v value) *value {
	q := v.(*value)
	if q == nil {
		fr.p.runtimePanic("invalid memory address or nil pointer dereference")
	}
	st := (*q).(structure)
	return &st[len(st)-1]
}

func init() {
	idx := func(names []string, f func(fr *frame, hay, nee []*Term) value) {
		for _, n := range names {
			ext(n, func(fr *frame, a []value) value {
				c := fr.p.w.ctx
				hay := c.terms(a[0])
				var nee []*Term
				if t, ok := a[1].(*Term); ok {
					nee = []*Term{t}
				} else {
					nee = c.terms(a[1])
				}
				return f(fr, hay, nee)
			})
		}
	}
	idx([]string{"strings.Index", "bytes.Index", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.Index", "internal/stringslite.IndexByte",
		"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/bytealg.Index", "internal/bytealg.IndexString"},
		func(fr *frame, h, n []*Term) value { return fr.indexSeq(h, n) })
	idx([]string{"strings.LastIndex", "bytes.LastIndex", "strings.LastIndexByte", "bytes.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"},
		func(fr *frame, h, n []*Term) value { return fr.lastIndexSeq(h, n) })
	count := func(fr *frame, h, n []*Term) value {
		c := fr.p.w.ctx
		k := uint64(0)
		for _, t := range h {
			if fr.p.branch(c.Eq(t, n[0]), fr) {
				k++
			}
		}
		return c.BV(64, k)
	}
	idx([]string{"internal/bytealg.Count", "internal/bytealg.CountString"}, count)
	idx([]string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "bytes.Compare"},
		func(fr *frame, a, b []*Term) value { return fr.cmpSeq(a, b) })
	eq := func(fr *frame, a []value) value {
		c := fr.p.w.ctx
		x, y := c.terms(a[0]), c.terms(a[1])
		if len(x) != len(y) {
			return c.False
		}
		r := c.True
		for i := range x {
			r = c.And(r, c.Eq(x[i], y[i]))
		}
		return r
	}
	ext("bytes.Equal", eq)
	ext("internal/bytealg.Equal", eq)
	pre := func(fr *frame, a []value) value {
		c := fr.p.w.ctx
		x, y := c.terms(a[0]), c.terms(a[1])
		if len(x) < len(y) {
			return c.False
		}
		r := c.True
		for i := range y {
			r = c.And(r, c.Eq(x[i], y[i]))
		}
		return r
	}
	ext("strings.HasPrefix", pre)
	ext("bytes.HasPrefix", pre)
	ext("internal/stringslite.HasPrefix", pre)
	suf := func(fr *frame, a []value) value {
		c := fr.p.w.ctx
		x, y := c.terms(a[0]), c.terms(a[1])
		if len(x) < len(y) {
			return c.False
		}
		r := c.True
		d := len(x) - len(y)
		for i := range y {
			r = c.And(r, c.Eq(x[d+i], y[i]))
		}
		return r
	}
	ext("strings.HasSuffix", suf)
	ext("bytes.HasSuffix", suf)
	ext("internal/stringslite.HasSuffix", suf)
	ext("internal/bytealg.MakeNoZero", func(fr *frame, a []value) value {
		n := fr.asInt(a[0], "MakeNoZero")
		s := make([]value, n)
		for i := range s {
			s[i] = fr.p.w.ctx.BV(8, 0)
		}
		return s
	})
	ext("strings.ToLower", func(fr *frame, a []value) value { return fr.caseMap(a[0].(*Str), true) })
	ext("strings.ToUpper", func(fr *frame, a []value) value { return fr.caseMap(a[0].(*Str), false) })
	ext("(*strings.Builder).String", func(fr *frame, a []value) value {
		st := (*cellOf(a[0])).(structure)
		return strOf(fr.p.w.ctx.terms(st[1]))
	})
	ext("(*strings.Builder).copyCheck", func(fr *frame, a []value) value { return nil })
	ext("strings.Clone", func(fr *frame, a []value) value { return a[0] })
	ext("internal/stringslite.Clone", func(fr *frame, a []value) value { return a[0] })
	ext("slices.overlaps", func(fr *frame, a []value) value {
		x, y := a[0].([]value), a[1].([]value)
		if len(x) == 0 || len(y) == 0 {
			return fr.p.w.ctx.False
		}
		for i := range x {
			if &x[i] == &y[0] || &x[i] == &y[len(y)-1] {
				return fr.p.w.ctx.True
			}
		}
		for i := range y {
			if &y[i] == &x[0] {
				return fr.p.w.ctx.True
			}
		}
		return fr.p.w.ctx.False
	})
	ext("maps.clone", func(fr *frame, a []value) value {
		v := a[0].(iface)
		m := v.v.(*Map)
		if m == nil {
			return v
		}
		fr.p.touchMap(fr, m, false)
		n := &Map{idx: map[string]*mapEntry{}, n: m.n, symKeys: m.symKeys}
		for _, e := range m.entries {
			if !e.dead {
				n.entries = append(n.entries, &mapEntry{k: copyVal(e.k), v: copyVal(e.v)})
			}
		}
		for k, e := range m.idx {
			for i, j := 0, 0; i < len(m.entries); i++ {
				if m.entries[i] == e && !e.dead {
					n.idx[k] = n.entries[j]
				}
				if !m.entries[i].dead {
					j++
				}
			}
		}
		return iface{v.t, n}
	})
	id := func(fr *frame, a []value) value { return a[0] }
	// rounding to a whole number: below 2^52 through the integers, keeping the sign bit
	for _, n := range []string{"Trunc", "Floor", "Ceil"} {
		externals["math.arch"+n] = func(fr *frame, a []value) value {
			c := fr.p.w.ctx
			x := a[0].(*Term)
			sign := c.BAnd(x, c.BV(64, 1<<63))
			abs := c.BAnd(x, c.BV(64, 1<<63-1))
			r := c.FConv(OpSI2F, c.FConv(OpF2SI, x, 64), 64)
			one := c.BV(64, math.Float64bits(1))
			switch n {
			case "Floor":
				r = c.Ite(c.FCmp(OpFLt, x, r), c.FArith(OpFSub, r, one), r)
			case "Ceil":
				r = c.Ite(c.FCmp(OpFLt, r, x), c.FArith(OpFAdd, r, one), r)
			}
			r = c.BOr(c.BAnd(r, c.BV(64, 1<<63-1)), sign)
			return c.Ite(c.FCmp(OpFLt, abs, c.BV(64, math.Float64bits(1<<52))), r, x)
		}
	}
	for _, n := range []string{"math.Float32bits", "math.Float64bits", "math.Float32frombits", "math.Float64frombits",
		"internal/strconv.float64frombits", "internal/strconv.float32frombits", "internal/strconv.float64bits", "internal/strconv.float32bits", "internal/abi.NoEscape", "internal/stringslite.noescape"} {
		ext(n, id)
	}

	// sync
	ext("(*sync.Mutex).Lock", func(fr *frame, a []value) value { fr.p.lock(fr, cellOf(a[0])); return nil })
	ext("(*sync.Mutex).Unlock", func(fr *frame, a []value) value { fr.p.unlock(fr, cellOf(a[0])); return nil })
	ext("(*sync.Mutex).TryLock", func(fr *frame, a []value) value {
		l := fr.p.lockOf(cellOf(a[0]))
		if l.writer {
			return fr.p.w.ctx.False
		}
		l.writer = true
		fr.p.acquire(l.vc)
		return fr.p.w.ctx.True
	})
	ext("(*sync.RWMutex).Lock", func(fr *frame, a []value) value { fr.p.lock(fr, cellOf(a[0])); return nil })
	ext("(*sync.RWMutex).Unlock", func(fr *frame, a []value) value { fr.p.unlock(fr, cellOf(a[0])); return nil })
	ext("(*sync.RWMutex).RLock", func(fr *frame, a []value) value { fr.p.rlock(fr, cellOf(a[0])); return nil })
	ext("(*sync.RWMutex).RUnlock", func(fr *frame, a []value) value { fr.p.runlock(fr, cellOf(a[0])); return nil })
	try := func(read bool) externalFn {
		return func(fr *frame, a []value) value {
			p := fr.p
			l := p.lockOf(cellOf(a[0]))
			if l.writer || !read && l.readers > 0 {
				return p.w.ctx.False
			}
			if read {
				l.readers++
			} else {
				l.writer = true
				p.acquire(l.rvc)
			}
			p.acquire(l.vc)
			return p.w.ctx.True
		}
	}
	ext("(*sync.RWMutex).TryLock", try(false))
	ext("(*sync.RWMutex).TryRLock", try(true))
	ext("(*sync.Once).Do", func(fr *frame, a []value) value {
		l := fr.p.lockOf(cellOf(a[0]))
		if l.once {
			fr.p.block(fr, func() bool { return !l.writer }, "sync.Once")
			fr.p.acquire(l.vc)
			return nil
		}
		l.once, l.writer = true, true
		defer func() { l.writer = false; l.vc = fr.p.release(l.vc) }()
		fr.p.call(fr, a[1], nil)
		return nil
	})
	ext("(*sync.WaitGroup).Add", func(fr *frame, a []value) value {
		l := fr.p.lockOf(cellOf(a[0]))
		l.readers += fr.asInt(a[1], "WaitGroup delta")
		if l.readers < 0 {
			fr.p.strPanic("sync: negative WaitGroup counter")
		}
		return nil
	})
	ext("(*sync.WaitGroup).Done", func(fr *frame, a []value) value {
		l := fr.p.lockOf(cellOf(a[0]))
		l.readers--
		l.vc = fr.p.release(l.vc)
		if l.readers < 0 {
			fr.p.strPanic("sync: negative WaitGroup counter")
		}
		return nil
	})
	ext("(*sync.WaitGroup).Wait", func(fr *frame, a []value) value {
		l := fr.p.lockOf(cellOf(a[0]))
		fr.p.yield(fr)
		fr.p.block(fr, func() bool { return l.readers == 0 }, "WaitGroup")
		fr.p.acquire(l.vc)
		return nil
	})
	ext("(*sync.Pool).Get", func(fr *frame, a []value) value {
		st := (*cellOf(a[0])).(structure)
		return fr.p.call(fr, st[len(st)-1], nil)
	})
	ext("(*sync.Pool).Put", func(fr *frame, a []value) value { return nil })
	smap := func(fr *frame, v value, write bool) *Map {
		fr.p.atom(fr, v, write)
		k := [2]any{"syncmap", v.(*value)}
		if m, ok := fr.p.natives[k]; ok {
			return m.(*Map)
		}
		m := newMap()
		fr.p.natives[k] = m
		return m
	}
	ext("(*sync.Map).Load", func(fr *frame, a []value) value {
		e := fr.p.mapFind(fr, smap(fr, a[0], false), a[1])
		if e == nil {
			return tuple{iface{}, fr.p.w.ctx.False}
		}
		return tuple{e.v, fr.p.w.ctx.True}
	})
	ext("(*sync.Map).Store", func(fr *frame, a []value) value { fr.p.mapSet(fr, smap(fr, a[0], true), a[1], a[2]); return nil })
	ext("(*sync.Map).Delete", func(fr *frame, a []value) value { fr.p.mapDelete(fr, smap(fr, a[0], true), a[1]); return nil })
	ext("(*sync.Map).LoadOrStore", func(fr *frame, a []value) value {
		e := fr.p.mapFind(fr, smap(fr, a[0], true), a[1])
		if e == nil {
			fr.p.mapSet(fr, smap(fr, a[0], true), a[1], a[2])
			return tuple{a[2], fr.p.w.ctx.False}
		}
		return tuple{e.v, fr.p.w.ctx.True}
	})

	// sync/atomic
	for _, w := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr", "Pointer", "Bool"} {
		for _, pkg := range []string{"sync/atomic"} {
			ext(pkg+".Load"+w, func(fr *frame, a []value) value { fr.p.atom(fr, a[0], false); return *cellOf(a[0]) })
			ext(pkg+".Store"+w, func(fr *frame, a []value) value { fr.p.atom(fr, a[0], true); storeTo(cellOf(a[0]), a[1]); return nil })
			ext(pkg+".Swap"+w, func(fr *frame, a []value) value {
				fr.p.atom(fr, a[0], true)
				o := *cellOf(a[0])
				storeTo(cellOf(a[0]), a[1])
				return o
			})
			ext(pkg+".Add"+w, func(fr *frame, a []value) value {
				fr.p.atom(fr, a[0], true)
				q := cellOf(a[0])
				if q == nil {
					fr.p.runtimePanic("invalid memory address or nil pointer dereference")
				}
				n := fr.p.w.ctx.Add((*q).(*Term), a[1].(*Term))
				*q = n
				return n
			})
			ext(pkg+".CompareAndSwap"+w, func(fr *frame, a []value) value {
				fr.p.atom(fr, a[0], true)
				q := cellOf(a[0])
				ok := fr.p.branch(fr.p.equals(*q, a[1]), fr)
				if ok {
					*q = a[2]
				}
				return fr.p.w.ctx.Bool(ok)
			})
		}
	}
	ext("(*sync/atomic.Value).Load", func(fr *frame, a []value) value { fr.p.atom(fr, a[0], false); return *atomicField(fr, a[0]) })
	ext("(*sync/atomic.Value).Store", func(fr *frame, a []value) value { fr.p.atom(fr, a[0], true); *atomicField(fr, a[0]) = a[1]; return nil })
	ext("(*sync/atomic.Pointer[T]).Load", func(fr *frame, a []value) value {
		fr.p.atom(fr, a[0], false)
		return *atomicField(fr, a[0])
	})
	ext("(*sync/atomic.Pointer[T]).Store", func(fr *frame, a []value) value { fr.p.atom(fr, a[0], true); *atomicField(fr, a[0]) = a[1]; return nil })

	// time
	ext("time.Now", func(fr *frame, a []value) value {
		z := fr.p.w.ctx.zero(fr.p.w.eng.typeByName("time", "Time")).(structure)
		z[1] = fr.p.w.ctx.BV(64, 63900000000)
		return z
	})
	ext("time.Since", func(fr *frame, a []value) value { return fr.p.w.ctx.BV(64, 0) })
	ext("time.Sleep", func(fr *frame, a []value) value { fr.p.yield(fr); return nil })
	ext("time.After", func(fr *frame, a []value) value { return &Chan{cap: 1} })
	ext("time.Tick", func(fr *frame, a []value) value { return &Chan{cap: 1} })
	mkTimer := func(tn string) externalFn {
		return func(fr *frame, a []value) value {
			z := fr.p.w.ctx.zero(fr.p.w.eng.typeByName("time", tn)).(structure)
			z[0] = &Chan{cap: 1}
			cell := new(value)
			*cell = z
			return cell
		}
	}
	ext("time.NewTicker", mkTimer("Ticker"))
	ext("time.NewTimer", mkTimer("Timer"))
	ext("(*time.Ticker).Stop", func(fr *frame, a []value) value { return nil })
	ext("(*time.Ticker).Reset", func(fr *frame, a []value) value { return nil })
	ext("(*time.Timer).Stop", func(fr *frame, a []value) value { return fr.p.w.ctx.True })
	ext("(*time.Timer).Reset", func(fr *frame, a []value) value { return fr.p.w.ctx.True })

	ext("math/rand.Seed", func(fr *frame, a []value) value { return nil })
	ext("math/rand.Uint32", func(fr *frame, a []value) value { return fr.p.w.ctx.BV(32, 0x1234567) })
	ext("math/rand.Int", func(fr *frame, a []value) value { return fr.p.w.ctx.BV(64, 0x1234567) })
	ext("math/rand.Intn", func(fr *frame, a []value) value { return fr.p.w.ctx.BV(64, 0) })
	ext("runtime.GC", func(fr *frame, a []value) value { return nil })
	ext("runtime.Gosched", func(fr *frame, a []value) value { fr.p.yield(fr); return nil })
	ext("runtime.NumGoroutine", func(fr *frame, a []value) value { return fr.p.w.ctx.BV(64, 1) })
	ext("os.Exit", func(fr *frame, a []value) value { panic(pathEnd{"stack", "os.Exit"}) })
	ext("errors.New", func(fr *frame, a []value) value { return fr.p.w.newErrorString(a[0].(*Str)) })

	ext("errors.As", func(fr *frame, a []value) value {
		target := a[1].(iface)
		pt, ok := target.t.(*types.Pointer)
		if !ok {
			panic(pathEnd{"unsupported", "errors.As target"})
		}
		return fr.p.w.ctx.Bool(fr.errorsAs(a[0].(iface), pt.Elem(), target))
	})

	initFmt()
	initRegexp()
}

// ---- fmt ----

func ifaceArgs(v value) []value {
	s, _ := v.([]value)
	return s
}

func opqStr() *Str { return &Str{s: "<formatted text>", opq: true} }

func initFmt() {
	ext("fmt.Errorf", func(fr *frame, a []value) value {
		p := fr.p
		format := ""
		if s := a[0].(*Str); s.conc() {
			format = s.s
		}
		args := ifaceArgs(a[1])
		var wrapped []value
		ai := 0
		text := opqStr()
		if p.texts {
			text = fr.sprintf(a[0].(*Str), args).(*Str)
		}
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				continue
			}
			i++
			for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
				i++
			}
			if i >= len(format) {
				break
			}
			if format[i] == '%' {
				continue
			}
			if format[i] == 'w' && ai < len(args) {
				if e, ok := args[ai].(iface); ok && e.t != nil && p.w.eng.implements(e.t, errorIface) {
					wrapped = append(wrapped, e)
				}
			}
			ai++
		}
		cell := new(value)
		switch len(wrapped) {
		case 0:
			return p.w.newErrorString(text)
		case 1:
			*cell = structure{text, wrapped[0]}
			return iface{types.NewPointer(p.w.eng.typeByName("fmt", "wrapError")), cell}
		}
		*cell = structure{text, wrapped}
		return iface{types.NewPointer(p.w.eng.typeByName("fmt", "wrapErrors")), cell}
	})
	ext("fmt.Sprintf", func(fr *frame, a []value) value {
		return fr.sprintf(a[0].(*Str), ifaceArgs(a[1]))
	})
	sprint := func(fr *frame, args []value, ln bool) *Str {
		out := emptyStr
		for i, x := range args {
			s := fr.fmtArg('v', "%v", x, 0)
			if i > 0 && (ln || !isStrArg(x) && !isStrArg(args[i-1])) {
				out = fr.p.strConcat(out, &Str{s: " "})
			}
			out = fr.p.strConcat(out, s)
		}
		if ln {
			out = fr.p.strConcat(out, &Str{s: "\n"})
		}
		return out
	}
	ext("fmt.Sprint", func(fr *frame, a []value) value { return sprint(fr, ifaceArgs(a[0]), false) })
	ext("fmt.Sprintln", func(fr *frame, a []value) value { return sprint(fr, ifaceArgs(a[0]), true) })
	for _, n := range []string{"fmt.Print", "fmt.Printf", "fmt.Println"} {
		ext(n, func(fr *frame, a []value) value { return tuple{fr.p.w.ctx.BV(64, 0), iface{}} })
	}
	// what is printed to a file is dropped, any other writer gets it.
	fprint := func(fr *frame, w iface, text func() *Str) value {
		if w.t == nil {
			fr.p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		if w.t.String() == "*os.File" || w.t.String() == "io.discard" {
			return tuple{fr.p.w.ctx.BV(64, 0), iface{}}
		}
		f := fr.p.w.eng.methodByName(w.t, "Write")
		return fr.p.call(fr, f, []value{copyVal(w.v), fr.p.w.ctx.byteValues(text())})
	}
	ext("fmt.Fprintf", func(fr *frame, a []value) value {
		return fprint(fr, a[0].(iface), func() *Str { return fr.sprintf(a[1].(*Str), ifaceArgs(a[2])).(*Str) })
	})
	ext("fmt.Fprint", func(fr *frame, a []value) value {
		return fprint(fr, a[0].(iface), func() *Str { return sprint(fr, ifaceArgs(a[1]), false) })
	})
	ext("fmt.Fprintln", func(fr *frame, a []value) value {
		return fprint(fr, a[0].(iface), func() *Str { return sprint(fr, ifaceArgs(a[1]), true) })
	})
	ext("fmt.Appendf", func(fr *frame, a []value) value {
		return append(a[0].([]value), fr.p.w.ctx.byteValues(fr.sprintf(a[1].(*Str), ifaceArgs(a[2])).(*Str))...)
	})
	ext("fmt.Append", func(fr *frame, a []value) value {
		return append(a[0].([]value), fr.p.w.ctx.byteValues(sprint(fr, ifaceArgs(a[1]), false))...)
	})
	ext("(*strings.Builder).WriteString", func(fr *frame, a []value) value {
		b := a[0].(*value)
		if b == nil {
			fr.p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		s := a[1].(*Str)
		st := (*b).(structure)
		st[1] = append(st[1].([]value), fr.p.w.ctx.byteValues(s)...)
		return tuple{fr.p.w.ctx.BV(64, uint64(s.Len())), iface{}}
	})
}

// byteValues returns the bytes of s. Text that is not known becomes a mark that strOf knows.
func (c *Ctx) byteValues(s *Str) []value {
	if s.opq {
		s = &Str{s: opqMark}
	}
	b := c.strBytes(s)
	r := make([]value, len(b))
	for i := range b {
		r[i] = b[i]
	}
	return r
}

const opqMark = "\x02<formatted text>\x03"

// hasMark tells whether opqMark is among the bytes.
func hasMark(b []*Term) bool {
next:
	for i := 0; i+len(opqMark) <= len(b); i++ {
		for j := 0; j < len(opqMark); j++ {
			if t := b[i+j]; !t.isConst() || byte(t.val) != opqMark[j] {
				continue next
			}
		}
		return true
	}
	return false
}

func isStrArg(v value) bool {
	i, ok := v.(iface)
	return ok && i.t != nil && isString(i.t)
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (fr *frame) sprintf(format *Str, args []value) value {
	if !format.conc() {
		return opqStr()
	}
	f := format.s
	out := emptyStr
	add := func(s *Str) { out = fr.p.strConcat(out, s) }
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			add(&Str{s: f[i:]})
			break
		}
		add(&Str{s: f[i : i+j]})
		i += j
		st := i
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			add(&Str{s: "%!(NOVERB)"})
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			add(&Str{s: "%"})
			continue
		}
		if ai >= len(args) {
			add(&Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		add(fr.fmtArg(verb, f[st:i], args[ai], 0))
		ai++
	}
	if ai < len(args) {
		return opqStr()
	}
	return out
}

func (fr *frame) fmtArg(verb byte, spec string, a value, depth int) *Str {
	p := fr.p
	i, ok := a.(iface)
	if !ok {
		return opqStr()
	}
	if i.t == nil {
		return &Str{s: fmt.Sprintf(spec, nil)}
	}
	if verb == 'w' {
		verb, spec = 'v', "%v"
	}
	if verb == 'X' || verb == 'x' { // of the text where there is one
		for _, m := range []string{"Error", "String"} {
			if f := p.w.eng.methodByName(i.t, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
				if hasSymbolic(i.v, 3) {
					return opqStr()
				}
				s, ok := p.call(fr, f, []value{copyVal(i.v)}).(*Str)
				if !ok || !s.conc() || s.opq {
					return opqStr()
				}
				return &Str{s: fmt.Sprintf(spec, s.s)}
			}
		}
	}
	if (verb == 'v' || verb == 's') && depth < 8 {
		for _, m := range []string{"Error", "String"} {
			if f := p.w.eng.methodByName(i.t, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
				if !p.texts && hasSymbolic(i.v, 3) {
					return opqStr()
				}
				if q, ok := i.v.(*value); ok && q == nil {
					return opqStr()
				}
				s, ok := p.call(fr, f, []value{copyVal(i.v)}).(*Str)
				if ok && !s.conc() && (spec == "%s" || spec == "%v") {
					return s
				}
				if !ok || !s.conc() {
					return opqStr()
				}
				return &Str{s: fmt.Sprintf(spec, s.s), opq: s.opq}
			}
		}
	}
	switch v := i.v.(type) {
	case *Str:
		if v.conc() {
			return &Str{s: fmt.Sprintf(spec, v.s), opq: v.opq}
		}
		if spec == "%s" || spec == "%v" {
			return v
		}
		return opqStr()
	case *Term:
		n, isn := constNative(i.t, v)
		if isn {
			return &Str{s: fmt.Sprintf(spec, n)}
		}
		if (spec == "%d" || spec == "%v") && isInteger(i.t) {
			c := p.w.ctx
			if isUnsigned(i.t) {
				return p.call(fr, p.w.eng.funcByName("strconv", "FormatUint"), []value{c.ZExt(v, 64), c.BV(64, 10)}).(*Str)
			}
			return p.call(fr, p.w.eng.funcByName("strconv", "FormatInt"), []value{c.SExt(v, 64), c.BV(64, 10)}).(*Str)
		}
		width := 0
		if len(spec) == 4 && spec[1] == '0' && isUnsigned(i.t) && (verb == 'X' || verb == 'x') {
			width = int(spec[2] - '0')
		}
		if (width > 0 || spec == "%X" || spec == "%x") && isInteger(i.t) {
			c := p.w.ctx
			var s *Str
			if isUnsigned(i.t) {
				s = p.call(fr, p.w.eng.funcByName("strconv", "FormatUint"), []value{c.ZExt(v, 64), c.BV(64, 16)}).(*Str)
			} else {
				s = p.call(fr, p.w.eng.funcByName("strconv", "FormatInt"), []value{c.SExt(v, 64), c.BV(64, 16)}).(*Str)
			}
			if verb == 'X' {
				s = fr.caseMap(s, false).(*Str)
			}
			for s.Len() < width {
				s = p.strConcat(&Str{s: "0"}, s)
			}
			return s
		}
		if spec == "%v" || spec == "%t" {
			if b, ok := i.t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				if p.branch(v, fr) {
					return &Str{s: "true"}
				}
				return &Str{s: "false"}
			}
		}
		return opqStr()
	}
	return opqStr()
}

func hasSymbolic(v value, d int) bool {
	if d < 0 {
		return true
	}
	switch v := v.(type) {
	case *Term:
		return !v.isConst()
	case *Str:
		return !v.conc() || v.opq
	case structure:
		for _, x := range v {
			if hasSymbolic(x, d-1) {
				return true
			}
		}
	case array:
		for _, x := range v {
			if hasSymbolic(x, d-1) {
				return true
			}
		}
	case []value:
		for _, x := range v {
			if hasSymbolic(x, d-1) {
				return true
			}
		}
	case iface:
		return v.t != nil && hasSymbolic(v.v, d-1)
	case *value:
		return v != nil && hasSymbolic(*v, d-1)
	case *Map:
		return true
	}
	return false
}

func constNative(t types.Type, v *Term) (any, bool) {
	if !v.isConst() {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch b.Kind() {
	case types.Bool:
		return v.val != 0, true
	case types.Int:
		return int(v.val), true
	case types.Int8:
		return int8(v.val), true
	case types.Int16:
		return int16(v.val), true
	case types.Int32:
		return int32(v.val), true
	case types.Int64:
		return int64(v.val), true
	case types.Uint:
		return uint(v.val), true
	case types.Uint8:
		return uint8(v.val), true
	case types.Uint16:
		return uint16(v.val), true
	case types.Uint32:
		return uint32(v.val), true
	case types.Uint64, types.Uintptr:
		return v.val, true
	case types.Float32:
		return float32(fval(32, v.val)), true
	case types.Float64:
		return fval(64, v.val), true
	}
	return nil, false
}

// ---- regexp ----

type rx struct {
	re   *regexp.Regexp
	prog *syntax.Prog
}

func (fr *frame) rxCompile(s *Str) (*rx, error) {
	if !s.conc() {
		panic(pathEnd{"unsupported", "symbolic regular expression"})
	}
	re, err := regexp.Compile(s.s)
	if err != nil {
		return nil, err
	}
	ast, _ := syntax.Parse(s.s, syntax.Perl)
	prog, _ := syntax.Compile(ast.Simplify())
	return &rx{re, prog}, nil
}

// rxMatch finds the leftmost-first match of a symbolic subject; nil when there is none.
func (fr *frame) rxMatch(r *rx, s *Str) []int {
	c := fr.p.w.ctx
	b := c.strBytes(s)
	ncap := r.prog.NumCap
	var run func(pc int, pos int, cap []int, depth int, seen map[[2]int]bool) []int
	run = func(pc, pos int, cap []int, depth int, seen map[[2]int]bool) []int {
		for {
			if depth > 2000 {
				panic(pathEnd{"bound", "regular expression depth"})
			}
			in := &r.prog.Inst[pc]
			switch in.Op {
			case syntax.InstFail:
				return nil
			case syntax.InstMatch:
				return cap
			case syntax.InstNop:
				pc = int(in.Out)
			case syntax.InstCapture:
				cap = append([]int(nil), cap...)
				if int(in.Arg) < len(cap) {
					cap[in.Arg] = pos
				}
				pc = int(in.Out)
			case syntax.InstAlt, syntax.InstAltMatch:
				k := [2]int{pc, pos}
				if seen[k] {
					return nil
				}
				s2 := map[[2]int]bool{k: true}
				for x := range seen {
					if x[1] == pos {
						s2[x] = true
					}
				}
				if m := run(int(in.Out), pos, cap, depth+1, s2); m != nil {
					return m
				}
				pc = int(in.Arg)
				seen = s2
			case syntax.InstEmptyWidth:
				op := syntax.EmptyOp(in.Arg)
				if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary|syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
					panic(pathEnd{"unsupported", "regular expression assertion"})
				}
				if op&syntax.EmptyBeginText != 0 && pos != 0 || op&syntax.EmptyEndText != 0 && pos != len(b) {
					return nil
				}
				pc = int(in.Out)
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if pos >= len(b) {
					return nil
				}
				t := b[pos]
				var cond *Term
				switch in.Op {
				case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
					if !fr.p.branch(c.Ult(t, c.BV(8, 0x80)), fr) {
						panic(pathEnd{"bound", "non-ASCII regular expression subject"})
					}
					cond = c.True
					if in.Op == syntax.InstRuneAnyNotNL {
						cond = c.Not(c.Eq(t, c.BV(8, '\n')))
					}
				default:
					cond = c.False
					rs := in.Rune
					big := false
					if len(rs) == 1 {
						rs = []rune{rs[0], rs[0]}
					}
					for k := 0; k+1 < len(rs); k += 2 {
						lo, hi := rs[k], rs[k+1]
						if hi >= 0x80 {
							big = true
						}
						if lo >= 0x80 {
							continue
						}
						if hi > 0x7f {
							hi = 0x7f
						}
						cond = c.Or(cond, c.And(c.Ule(c.BV(8, uint64(lo)), t), c.Ule(t, c.BV(8, uint64(hi)))))
					}
					if big && !fr.p.branch(c.Ult(t, c.BV(8, 0x80)), fr) {
						panic(pathEnd{"bound", "non-ASCII regular expression subject"})
					}
				}
				if !fr.p.branch(cond, fr) {
					return nil
				}
				pos++
				pc = int(in.Out)
				seen = nil
			}
		}
	}
	for st := 0; st <= len(b); st++ {
		cap := make([]int, max(ncap, 2))
		for i := range cap {
			cap[i] = -1
		}
		cap[0] = st
		if m := run(r.prog.Start, st, cap, 0, nil); m != nil {
			return m
		}
	}
	return nil
}

func initRegexp() {
	mk := func(fr *frame, r *rx) value {
		cell := new(value)
		*cell = &opaque{"regexp", r}
		return cell
	}
	ext("regexp.Compile", func(fr *frame, a []value) value {
		r, err := fr.rxCompile(a[0].(*Str))
		if err != nil {
			return tuple{(*value)(nil), fr.p.w.newErrorString(&Str{s: err.Error()})}
		}
		return tuple{mk(fr, r), iface{}}
	})
	ext("regexp.MustCompile", func(fr *frame, a []value) value {
		r, err := fr.rxCompile(a[0].(*Str))
		if err != nil {
			fr.p.strPanic("regexp: Compile: %v", err)
		}
		return mk(fr, r)
	})
	get := func(fr *frame, v value) *rx {
		q := v.(*value)
		if q == nil {
			fr.p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return (*q).(*opaque).v.(*rx)
	}
	find := func(fr *frame, a []value) []int {
		r := get(fr, a[0])
		s, ok := a[1].(*Str)
		if !ok {
			s = strOf(fr.p.w.ctx.terms(a[1]))
		}
		if s.conc() {
			if s.opq {
				panic(pathEnd{"unsupported", "regexp over formatted text"})
			}
			return r.re.FindStringSubmatchIndex(s.s)
		}
		return fr.rxMatch(r, s)
	}
	ext("(*regexp.Regexp).FindStringIndex", func(fr *frame, a []value) value {
		m := find(fr, a)
		if m == nil {
			return []value(nil)
		}
		c := fr.p.w.ctx
		return []value{c.BV(64, uint64(m[0])), c.BV(64, uint64(m[1]))}
	})
	ext("(*regexp.Regexp).FindString", func(fr *frame, a []value) value {
		m := find(fr, a)
		if m == nil {
			return emptyStr
		}
		return a[1].(*Str).slice(m[0], m[1])
	})
	ext("(*regexp.Regexp).MatchString", func(fr *frame, a []value) value { return fr.p.w.ctx.Bool(find(fr, a) != nil) })
	ext("(*regexp.Regexp).Match", func(fr *frame, a []value) value { return fr.p.w.ctx.Bool(find(fr, a) != nil) })
	ext("(*regexp.Regexp).FindStringSubmatchIndex", func(fr *frame, a []value) value {
		m := find(fr, a)
		if m == nil {
			return []value(nil)
		}
		out := make([]value, len(m))
		for i, x := range m {
			out[i] = fr.p.w.ctx.BV(64, uint64(int64(x)))
		}
		return out
	})
	ext("(*regexp.Regexp).FindStringSubmatch", func(fr *frame, a []value) value {
		m := find(fr, a)
		if m == nil {
			return []value(nil)
		}
		s := a[1].(*Str)
		out := make([]value, len(m)/2)
		for i := range out {
			out[i] = emptyStr
			if m[2*i] >= 0 {
				out[i] = s.slice(m[2*i], m[2*i+1])
			}
		}
		return out
	})
	ext("(*regexp.Regexp).String", func(fr *frame, a []value) value { return &Str{s: get(fr, a[0]).re.String()} })
}

// errorsAs walks the chain of err for one assignable to t, which target points to.
func (fr *frame) errorsAs(err iface, t types.Type, target iface) bool {
	eng := fr.p.w.eng
	for err.t != nil {
		if it, is := t.Underlying().(*types.Interface); is {
			if eng.implements(err.t, it) {
				storeTo(target.v.(*value), err)
				return true
			}
		} else if eng.identical(err.t, t) {
			storeTo(target.v.(*value), copyVal(err.v))
			return true
		}
		if m := eng.methodByName(err.t, "As"); m != nil {
			if r, ok := fr.p.call(fr, m, []value{copyVal(err.v), target}).(*Term); ok && fr.p.branch(r, fr) {
				return true
			}
		}
		m := eng.methodByName(err.t, "Unwrap")
		if m == nil {
			return false
		}
		switch r := fr.p.call(fr, m, []value{copyVal(err.v)}).(type) {
		case iface:
			err = r
		case []value:
			for _, x := range r {
				if fr.errorsAs(x.(iface), t, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func init() {
	vfIntrinsics["vfGo"] = func(fr *frame, a []value) value {
		p := fr.p
		p.vfGos++
		g := p.newGor(fr, a[0], nil)
		g.num = p.vfGos
		return nil
	}
}
