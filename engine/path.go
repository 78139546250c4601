package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	Kind byte // 'b' branch (V=0/1), 'v' concretization (V=value, Eq=true: equal / false: different)
	V    uint64
	Eq   bool
}

type Input struct {
	Name string
	W    uint8
	T    *Term
}

type Obs struct {
	Name string
	Kind string
	Val  value
}

// Job is a path prefix waiting to be explored.
type Job struct {
	prefix []Dec
	model  Model
}

type AssertRec struct {
	Msg    string
	Loc    string
	Total  int // times reached
	Triv   int // discharged by rewriting
	Solved int // discharged by a solver query
	Failed int
	Unk    int
}

// Path is the state of one symbolic execution.
type Path struct {
	w      *Worker
	prefix []Dec
	pos    int
	decs   []Dec

	pc      []*Term
	pcSet   map[*Term]bool
	model   Model
	modelOK bool
	vars    []*Term
	ranges  map[*Term]iv
	rmemo   map[*Term]iv

	inputs []Input
	obs    []Obs
	names  map[string]int

	globals map[*ssa.Global]*value
	steps   int
	start   time.Time
	noMerge bool
	inInit  bool

	mapOrder func(fr *frame, m *Map) *Map
	mapPerm  bool
	texts    bool

	// scheduler
	gors      []*gor
	cur       *gor
	mainG     *gor
	schedOn   bool
	preempts  int
	maxPre    int
	order     []int // the goroutines that went on, in order
	vfGos     int
	shadow    map[*value]*shadow // while schedules are explored
	mapShadow map[*Map]*shadow
	aborting  bool
	allG      int

	asserts   int
	locks     map[*value]*lockState
	dials     int
	natives   map[any]any
	reported  bool
	clock     uint64
	lastRepo  ssa.Instruction
	reach     map[string]bool
	concCount map[string]int
	bounded   bool
}

func (p *Path) eval(t *Term) uint64 { return p.w.ctx.eval(t, p.model) }

func (p *Path) setModel(m Model) {
	p.model = m
	p.modelOK = true
	p.w.ctx.newGen()
}

// solve checks pc && extra.
func (p *Path) solve(extra *Term) (Sat, Model) {
	p.w.solverWork()
	r, m := p.w.solver.check(p.pc, extra, p.vars)
	if r == Unknown {
		p.w.run.noteUnknown()
	}
	return r, m
}

func (p *Path) addPC(t *Term) {
	if t.isConst() {
		return
	}
	if p.pcSet[t] {
		return
	}
	if t.op == OpBAnd {
		p.addPC(t.a)
		p.addPC(t.b)
		return
	}
	p.pcSet[t] = true
	p.pc = append(p.pc, t)
	p.learn(t)
}

func (p *Path) implied(t *Term) (bool, bool) { return p.impliedN(t, 10) } // (known, value)

func (p *Path) impliedN(t *Term, d int) (bool, bool) {
	if k, v := p.impliedRaw(t); k {
		return k, v
	}
	if d == 0 {
		return false, false
	}
	d--
	switch t.op {
	case OpBNot:
		k, v := p.impliedN(t.a, d)
		return k, !v
	case OpBAnd:
		k1, v1 := p.impliedN(t.a, d)
		if k1 && !v1 {
			return true, false
		}
		k2, v2 := p.impliedN(t.b, d)
		if k2 && !v2 {
			return true, false
		}
		return k1 && k2, k1 && k2
	case OpBOr:
		k1, v1 := p.impliedN(t.a, d)
		if k1 && v1 {
			return true, true
		}
		k2, v2 := p.impliedN(t.b, d)
		if k2 && v2 {
			return true, true
		}
		return k1 && k2, false
	}
	return p.byRange(t)
}

func (p *Path) impliedRaw(t *Term) (bool, bool) { // (known, value)
	if t.isConst() {
		return true, t.val != 0
	}
	if p.pcSet[t] {
		return true, true
	}
	if p.pcSet[p.w.ctx.Not(t)] {
		return true, false
	}
	return false, false
}

// ensureModel makes p.model satisfy pc.
func (p *Path) ensureModel() {
	if p.modelOK {
		return
	}
	r, m := p.solve(nil)
	if r == SatYes {
		p.setModel(m)
		return
	}
	if r == Unsat {
		panic(pathEnd{"assume", "infeasible"})
	}
	panic(pathEnd{"unknown", "solver could not decide path feasibility"})
}

// branch decides a boolean, forking when both outcomes are feasible.
func (p *Path) branch(cond *Term, fr *frame) bool {
	if cond.isConst() {
		return cond.val != 0
	}
	if k, v := p.implied(cond); k {
		return v
	}
	if p.inInit {
		panic(pathEnd{"unsupported", "symbolic branch during init"})
	}
	c := p.w.ctx
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		if d.Kind != 'b' {
			panic(fmt.Sprintf("replay divergence: want branch, have %c at %d/%d", d.Kind, p.pos, len(p.prefix)))
		}
		p.decs = append(p.decs, d)
		if d.V != 0 {
			p.addPC(cond)
		} else {
			p.addPC(c.Not(cond))
		}
		return d.V != 0
	}
	p.ensureModel()
	side := p.eval(cond) != 0
	other := c.Not(cond)
	if !side {
		other = cond
	}
	r, m := p.solve(other)
	switch r {
	case SatYes:
		alt := append(append([]Dec(nil), p.decs...), Dec{Kind: 'b', V: b2u(!side)})
		p.w.push(Job{alt, m})
		if p.w.run.hotspots != nil && fr != nil {
			p.w.run.hot(fr)
		}
		p.decs = append(p.decs, Dec{Kind: 'b', V: b2u(side)})
	case Unsat:
		// forced: the decision is recorded so that replays stay aligned
		p.decs = append(p.decs, Dec{Kind: 'b', V: b2u(side)})
	default:
		p.w.run.noteBound("solver-unknown branch", fr)
		p.decs = append(p.decs, Dec{Kind: 'b', V: b2u(side)})
	}
	if side {
		p.addPC(cond)
	} else {
		p.addPC(c.Not(cond))
	}
	return side
}

const maxConcretize = 300

// concretize picks a concrete value for t, forking over all feasible values (bounded).
func (p *Path) concretize(t *Term, what string, fr *frame) uint64 {
	c := p.w.ctx
	for n := 0; ; n++ {
		if t.isConst() {
			return t.val
		}
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			if d.Kind != 'v' {
				panic("replay divergence: want value")
			}
			p.decs = append(p.decs, d)
			eq := c.Eq(t, c.BV(t.w, d.V))
			if d.Eq {
				p.addPC(eq)
				return d.V
			}
			p.addPC(c.Not(eq))
			continue
		}
		p.ensureModel()
		if n >= maxConcretize {
			p.w.run.noteBound("concretization of "+what+" limited", fr)
			panic(pathEnd{"bound", "too many values for " + what})
		}
		v := p.eval(t)
		eq := c.Eq(t, c.BV(t.w, v))
		r, m := p.solve(c.Not(eq))
		if r == SatYes {
			alt := append(append([]Dec(nil), p.decs...), Dec{Kind: 'v', V: v, Eq: false})
			p.w.push(Job{alt, m})
			if p.w.run.hotspots != nil && fr != nil {
				p.w.run.hot(fr)
			}
		} else if r == Unknown {
			p.w.run.noteBound("solver-unknown concretization of "+what, fr)
		}
		p.decs = append(p.decs, Dec{Kind: 'v', V: v, Eq: true})
		p.addPC(eq)
		return v
	}
}

func (p *Path) assume(t *Term) {
	if t.isConst() {
		if t.val == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if k, v := p.implied(t); k {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if p.pos < len(p.prefix) || !p.modelOK {
		// still replaying: the prefix is known to be feasible past this point
		p.addPC(t)
		if p.modelOK && p.eval(t) == 0 {
			p.modelOK = false
		}
		if p.pos >= len(p.prefix) && !p.modelOK {
			p.ensureModel()
		}
		return
	}
	if p.eval(t) != 0 {
		p.addPC(t)
		return
	}
	r, m := p.solve(t)
	switch r {
	case SatYes:
		p.addPC(t)
		p.setModel(m)
	case Unsat:
		panic(pathEnd{"assume", ""})
	default:
		panic(pathEnd{"unknown", "assume undecided"})
	}
}

func (p *Path) assert(t *Term, msg, loc, known string) {
	p.asserts++
	run := p.w.run
	key := msg
	if known != "" {
		key = "[known " + known + "] " + msg
	}
	if p.pos < len(p.prefix) {
		// checked by an ancestor path already
		if t.isConst() && t.val == 0 {
			panic(pathEnd{"done", "assertion failed"})
		}
		p.addPC(t)
		if p.modelOK && p.eval(t) == 0 {
			p.modelOK = false
		}
		return
	}
	if t.isConst() && t.val != 0 {
		run.assertRec(key, loc, func(a *AssertRec) { a.Total++; a.Triv++ })
		return
	}
	if k, v := p.implied(t); k && v {
		run.assertRec(key, loc, func(a *AssertRec) { a.Total++; a.Triv++ })
		return
	}
	p.ensureModel()
	if t.isConst() {
		run.assertRec(key, loc, func(a *AssertRec) { a.Total++; a.Failed++ })
		p.report("assert", msg, loc, known, p.model)
		panic(pathEnd{"done", "assertion failed"})
	}
	r, m := p.solve(p.w.ctx.Not(t))
	switch r {
	case Unsat:
		run.assertRec(key, loc, func(a *AssertRec) { a.Total++; a.Solved++ })
		p.addPC(t)
	case SatYes:
		run.assertRec(key, loc, func(a *AssertRec) { a.Total++; a.Failed++ })
		p.report("assert", msg, loc, known, m)
		// continue on the side where the assertion holds
		p.addPC(t)
		if p.eval(t) == 0 {
			r, m := p.solve(nil)
			if r != SatYes {
				panic(pathEnd{"done", "assertion fails on the whole path"})
			}
			p.setModel(m)
		}
	default:
		run.assertRec(key, loc, func(a *AssertRec) { a.Total++; a.Unk++ })
		p.addPC(t)
		p.modelOK = p.modelOK && p.eval(t) != 0
	}
}

// fresh declares a new symbolic input.
func (p *Path) fresh(name string, w uint8) *Term {
	n := p.names[name]
	p.names[name] = n + 1
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	full = fmt.Sprintf("%s/%d", full, w)
	t := p.w.ctx.Var(full, w)
	p.vars = append(p.vars, t)
	p.inputs = append(p.inputs, Input{full, w, t})
	return t
}

func (p *Path) global(g *ssa.Global) *value {
	if c, ok := p.globals[g]; ok {
		return c
	}
	return p.w.globalCell(p, g)
}

func (p *Path) checkLimits() {
	if p.steps > p.w.run.maxSteps {
		panic(pathEnd{"bound", "step limit"})
	}
	if p.w.run.expired() {
		panic(pathEnd{"time", "time budget"})
	}
}

func (p *Path) report(kind, msg, loc, known string, m Model) {
	vals := map[string]uint64{}
	for _, in := range p.inputs {
		vals[in.Name] = m[in.Name]
	}
	p.addOrder(vals)
	p.w.run.addCE(&CE{Known: known, Harness: p.w.run.h.Name, Kind: kind, Msg: msg, Loc: loc, Inputs: vals, Order: p.inputOrder(), Decs: append([]Dec(nil), p.decs...)})
}

// addOrder adds the schedule to the inputs of a native run.
func (p *Path) addOrder(vals map[string]uint64) {
	for i, g := range p.order {
		k := "trace"
		if i > 0 {
			k = fmt.Sprintf("trace#%d", i)
		}
		vals[k+"/8"] = uint64(g)
	}
}

func (p *Path) inputOrder() []string {
	var r []string
	for _, in := range p.inputs {
		r = append(r, in.Name)
	}
	return r
}

// repoLoc is the last executed position inside the repository's own code.
func (p *Path) repoLoc() string {
	if p.lastRepo == nil {
		return ""
	}
	pos := p.w.eng.prog.Fset.Position(p.lastRepo.Pos())
	fn := ""
	if f := p.lastRepo.Parent(); f != nil {
		fn = shortFn(f.String())
	}
	return fmt.Sprintf("%s %s:%d", fn, filepath.Base(pos.Filename), pos.Line)
}

var _ = types.Identical
