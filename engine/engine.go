package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the program under analysis (shared, read-only after load).
type Engine struct {
	repo        string
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package
	modPath     string
	schedStand  bool // the locks are stand-ins that are scheduling points of their own
	runtimeErrT types.Type
	rtypePtr    types.Type
	buildMu     sync.Mutex
	built       sync.Map // *ssa.Package -> *sync.Once
	methMu      sync.Mutex
	methCache   map[methKey]*ssa.Function
	implCache   sync.Map
	identCache  sync.Map
	harnesses   []*Harness
	loadTime    time.Duration
}

type methKey struct {
	t types.Type
	m *types.Func
}

type Harness struct {
	Name string
	Prop string
	Doc  string
	Pkg  string
	fn   *ssa.Function
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0")
	return env
}

// loadEngine loads /repo's packages with the harness files laid over them.
func loadEngine(repo string, patterns []string, overlay map[string][]byte) (*Engine, error) {
	t0 := time.Now()
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Fset:    fset,
		Env:     goEnv(),
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs loadErrors
	packages.Visit(pkgs, nil, func(p *packages.Package) { errs = append(errs, p.Errors...) })
	if len(errs) > 0 {
		return nil, errs
	}
	prog, initial := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.BareInits)
	e := &Engine{repo: repo, prog: prog, pkgs: map[string]*ssa.Package{}, methCache: map[methKey]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	if pkgs[0].Module != nil {
		e.modPath = pkgs[0].Module.Path
	}
	e.runtimeErrT = e.pkgs["runtime"].Type("errorString").Object().Type()
	if rp := e.pkgs["reflect"]; rp != nil {
		e.rtypePtr = types.NewPointer(rp.Type("rtype").Object().Type())
	}
	for i, sp := range initial {
		if sp == nil {
			continue
		}
		sp.Build()
		e.markBuilt(sp)
		docs := map[string]string{}
		for _, f := range pkgs[i].Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && strings.HasPrefix(fd.Name.Name, "VF_") {
					docs[fd.Name.Name] = strings.TrimSpace(fd.Doc.Text())
				}
			}
		}
		var names []string
		for n := range docs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fn := sp.Func(n)
			parts := strings.SplitN(n, "_", 3)
			if fn == nil || len(parts) < 3 {
				continue
			}
			e.harnesses = append(e.harnesses, &Harness{Name: n, Prop: parts[1], Doc: docs[n], Pkg: sp.Pkg.Path(), fn: fn})
		}
	}
	e.loadTime = time.Since(t0)
	return e, nil
}

func (e *Engine) markBuilt(p *ssa.Package) { e.built.Store(p, true) }

// ensureBuilt builds SSA bodies lazily, one package at a time.
func (e *Engine) ensureBuilt(fn *ssa.Function) {
	pkg := fn.Pkg
	if pkg == nil {
		if o := fn.Origin(); o != nil {
			pkg = o.Pkg
		}
	}
	if pkg == nil {
		return
	}
	e.ensurePkg(pkg)
}

func (e *Engine) ensurePkg(pkg *ssa.Package) {
	if _, ok := e.built.Load(pkg); ok {
		return
	}
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	if _, ok := e.built.Load(pkg); ok {
		return
	}
	pkg.Build()
	e.built.Store(pkg, true)
}

func (e *Engine) inRepo(fn *ssa.Function) bool {
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil || e.modPath == "" {
		return false
	}
	pp := pkg.Pkg.Path()
	if pp != e.modPath && !strings.HasPrefix(pp, e.modPath+"/") {
		return false
	}
	pos := fn.Pos()
	if !pos.IsValid() {
		return true
	}
	base := filepath.Base(e.prog.Fset.Position(pos).Filename)
	return !strings.HasPrefix(base, "zz_vf_")
}

func (e *Engine) repoPkg(pp string) bool {
	return pp == e.modPath || strings.HasPrefix(pp, e.modPath+"/")
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	e.methMu.Lock()
	f, ok := e.methCache[k]
	e.methMu.Unlock()
	if ok {
		return f
	}
	e.buildMu.Lock()
	f = e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.buildMu.Unlock()
	e.methMu.Lock()
	e.methCache[k] = f
	e.methMu.Unlock()
	return f
}

// methodByName finds a method of t by name (nil if absent).
func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return e.lookupMethod(t, s.Obj().(*types.Func))
		}
	}
	return nil
}

type pairKey struct{ a, b types.Type }

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := pairKey{t, it}
	if v, ok := e.implCache.Load(k); ok {
		return v.(bool)
	}
	e.buildMu.Lock()
	r := types.Implements(t, it)
	e.buildMu.Unlock()
	e.implCache.Store(k, r)
	return r
}

func (e *Engine) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	k := pairKey{a, b}
	if v, ok := e.identCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Identical(a, b)
	e.identCache.Store(k, r)
	return r
}

func (e *Engine) funcByName(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		panic(pathEnd{"unsupported", "package not loaded: " + pkg})
	}
	f := p.Func(name)
	if f == nil {
		panic(pathEnd{"unsupported", "no function " + pkg + "." + name})
	}
	return f
}

func (e *Engine) typeByName(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil || p.Type(name) == nil {
		panic(pathEnd{"unsupported", "no type " + pkg + "." + name})
	}
	return p.Type(name).Object().Type()
}

// ---- one harness run ----

type CE struct {
	Harness string
	Kind    string
	Msg     string
	Loc     string
	Inputs  map[string]uint64
	Order   []string
	Decs    []Dec
	Known   string
}

func (c *CE) key() string {
	return c.Harness + "|" + c.Kind + "|" + c.Msg + "|" + c.Loc + "|" + c.Known
}

type Trace struct {
	Inputs map[string]uint64
	Obs    []string
	Status string
}

type Run struct {
	eng      *Engine
	h        *Harness
	tier     int
	seed     int64
	deadline time.Time
	maxSteps int
	maxPaths int

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Job
	active   int
	stopped  bool
	paths    int
	ends     map[string]int
	asserts  map[string]*AssertRec
	ces      map[string][]*CE
	bounds   map[string]int
	traces   []Trace
	traceCap int
	reach    map[string]int
	hotspots map[string]int
	unknowns int64
	steps    int64
	decs     int64
	forks    int64
	lateTO   bool
	unsup    map[string]int
	funcs    map[string]bool
	queries  int
	sat      int
	unsat    int
	unk      int
	solverT  time.Duration
	maxT     time.Duration
	serr     int
	wall     time.Duration
}

func (r *Run) expired() bool { return time.Now().After(r.deadline) }

func (r *Run) noteUnknown() { atomic.AddInt64(&r.unknowns, 1) }

func (r *Run) noteBound(what string, fr *frame) {
	if fr != nil && fr.fn != nil {
		what += " in " + shortFn(fr.fn.String())
	}
	r.mu.Lock()
	r.bounds[what]++
	r.mu.Unlock()
}

func shortFn(s string) string {
	return strings.ReplaceAll(s, "github.com/danomagnum/gologix", "gologix")
}

func (r *Run) assertRec(msg, loc string, f func(*AssertRec)) {
	r.mu.Lock()
	a := r.asserts[msg]
	if a == nil {
		a = &AssertRec{Msg: msg, Loc: loc}
		r.asserts[msg] = a
	}
	f(a)
	r.mu.Unlock()
}

func (r *Run) addCE(c *CE) {
	r.mu.Lock()
	k := c.key()
	if len(r.ces[k]) < 4 {
		r.ces[k] = append(r.ces[k], c)
	}
	r.mu.Unlock()
}

func (r *Run) hot(fr *frame) {
	r.mu.Lock()
	pos := ""
	f := fr
	for f != nil && f.curInstr == nil {
		f = f.caller
	}
	if f != nil {
		pp := r.eng.prog.Fset.Position(f.curInstr.Pos())
		pos = fmt.Sprintf("%s %s:%d", shortFn(fr.fn.String()), filepath.Base(pp.Filename), pp.Line)
	}
	r.hotspots[pos]++
	r.mu.Unlock()
}

// Worker explores paths with its own term table and solver.
type Worker struct {
	eng     *Engine
	run     *Run
	ctx     *Ctx
	solver  *Solver
	fnInfos map[*ssa.Function]*fnInfo
	consts  map[*ssa.Const]value
	extern  map[*ssa.Function]externalFn
	stdGlob map[*ssa.Global]*value
	stdBad  map[*ssa.Global]bool
	stdInit map[*ssa.Package]int
	cover   map[*ssa.Function]bool
	local   []Job
}

func (w *Worker) solverWork() {}

func newWorker(e *Engine, r *Run) *Worker {
	return &Worker{eng: e, run: r, ctx: newCtx(), solver: newSolver(20000), fnInfos: map[*ssa.Function]*fnInfo{},
		consts: map[*ssa.Const]value{}, extern: map[*ssa.Function]externalFn{}, stdGlob: map[*ssa.Global]*value{},
		stdInit: map[*ssa.Package]int{}, cover: map[*ssa.Function]bool{}}
}

func (w *Worker) push(j Job) {
	atomic.AddInt64(&w.run.forks, 1)
	w.local = append(w.local, j)
	// share when others are idle
	w.run.mu.Lock()
	if w.run.active < numWorkers && len(w.run.queue) < numWorkers*2 {
		// give away the oldest (shallowest) job
		w.run.queue = append(w.run.queue, w.local[0])
		w.local = w.local[1:]
		w.run.cond.Signal()
	}
	w.run.mu.Unlock()
}

func (w *Worker) nextJob() (Job, bool) {
	if n := len(w.local); n > 0 {
		r := w.run
		r.mu.Lock()
		st := r.stopped
		r.mu.Unlock()
		if st {
			return Job{}, false
		}
		j := w.local[n-1]
		w.local = w.local[:n-1]
		return j, true
	}
	r := w.run
	r.mu.Lock()
	defer r.mu.Unlock()
	r.active--
	for len(r.queue) == 0 && r.active > 0 && !r.stopped {
		r.cond.Wait()
	}
	if r.stopped || len(r.queue) == 0 {
		r.cond.Broadcast()
		return Job{}, false
	}
	j := r.queue[len(r.queue)-1]
	r.queue = r.queue[:len(r.queue)-1]
	r.active++
	return j, true
}

var numWorkers = 8

func runHarness(e *Engine, h *Harness, tier int, seed int64, budget time.Duration, maxPaths int) *Run {
	r := &Run{eng: e, h: h, tier: tier, seed: seed, deadline: time.Now().Add(budget), maxSteps: 6000000, maxPaths: maxPaths,
		ends: map[string]int{}, asserts: map[string]*AssertRec{}, ces: map[string][]*CE{}, bounds: map[string]int{},
		reach: map[string]int{}, unsup: map[string]int{}, funcs: map[string]bool{}, traceCap: 400}
	if os.Getenv("VERIF_HOT") != "" {
		r.hotspots = map[string]int{}
	}
	r.cond = sync.NewCond(&r.mu)
	r.queue = []Job{{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	r.active = numWorkers
	for i := 0; i < numWorkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(e, r)
			defer w.solver.close()
			for {
				j, ok := w.nextJob()
				if !ok {
					break
				}
				w.explore(j)
				if len(w.ctx.tab) > 3000000 {
					// bounded memory: start over with a fresh term table
					w.solver.restart()
					w.ctx = newCtx()
					w.consts = map[*ssa.Const]value{}
					w.stdGlob = map[*ssa.Global]*value{}
					w.stdBad = nil
					w.stdInit = map[*ssa.Package]int{}
				}
			}
			r.mu.Lock()
			r.queries += w.solver.Queries
			r.sat += w.solver.SatN
			r.unsat += w.solver.UnsatN
			r.unk += w.solver.UnkN
			r.serr += w.solver.errs
			r.solverT += w.solver.Time
			if w.solver.MaxT > r.maxT {
				r.maxT = w.solver.MaxT
			}
			for f := range w.cover {
				r.funcs[shortFn(f.String())] = true
			}
			r.mu.Unlock()
		}()
	}
	wg.Wait()
	r.wall = time.Since(t0)
	return r
}

func (w *Worker) newPath(j Job) *Path {
	p := &Path{w: w, prefix: j.prefix, pcSet: map[*Term]bool{}, names: map[string]int{}, globals: map[*ssa.Global]*value{},
		locks: map[*value]*lockState{}, natives: map[any]any{}, start: time.Now(), reach: map[string]bool{}}
	m := j.model
	if m == nil {
		m = Model{}
	}
	p.setModel(m)
	return p
}

func (w *Worker) explore(j Job) {
	r := w.run
	p := w.newPath(j)
	status, msg := "ok", ""
	func() {
		defer func() {
			rec := recover()
			if rec == nil {
				return
			}
			switch x := rec.(type) {
			case pathEnd:
				status, msg = x.kind, x.msg
			case targetPanic:
				status, msg = "panic", p.panicText(x)
			default:
				if debugEngine {
					panic(rec)
				}
				status, msg = "engine", fmt.Sprint(rec)
			}
		}()
		p.runMain()
	}()
	p.killAll()
	if status == "panic" || status == "stack" || status == "deadlock" || status == "race" {
		ok := p.modelOK
		if !ok {
			if rr, m := p.solve(nil); rr == SatYes {
				p.setModel(m)
				ok = true
			}
		}
		if ok {
			r.assertRec("no "+status, "", func(a *AssertRec) { a.Total++; a.Failed++ })
			p.report(status, normMsg(msg), p.repoLoc(), "", p.model)
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.paths++
	r.ends[status]++
	r.steps += int64(p.steps)
	r.decs += int64(len(p.decs) - len(j.prefix))
	for k := range p.reach {
		r.reach[k]++
	}
	switch status {
	case "unsupported", "engine":
		r.unsup[msg]++
	case "bound", "unknown":
		r.bounds[msg]++
	case "time":
		r.lateTO = true
	case "stack":
	}
	if (status == "ok" || status == "panic") && p.modelOK && len(r.traces) < r.traceCap {
		r.traces = append(r.traces, p.trace(status))
	}
	if r.paths >= r.maxPaths && !r.stopped {
		r.stopped = true
		r.bounds["path limit"]++
		r.cond.Broadcast()
	}
	if r.expired() && !r.stopped {
		r.stopped = true
		if len(r.queue) > 0 || r.active > 1 || len(w.local) > 0 {
			r.lateTO = true
		}
		r.cond.Broadcast()
	}
}

func normMsg(s string) string {
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func (p *Path) panicText(tp targetPanic) string {
	switch v := tp.v.(type) {
	case iface:
		if s, ok := v.v.(*Str); ok {
			if s.conc() {
				return s.s
			}
			return "<symbolic text>"
		}
		return fmt.Sprintf("%v", v.t)
	}
	return fmt.Sprintf("%T", tp.v)
}

func (p *Path) trace(status string) Trace {
	t := Trace{Inputs: map[string]uint64{}, Status: status}
	for _, in := range p.inputs {
		t.Inputs[in.Name] = p.model[in.Name]
	}
	p.addOrder(t.Inputs)
	for _, o := range p.obs {
		t.Obs = append(t.Obs, o.Name+"="+p.showObs(o.Val))
	}
	return t
}

func (p *Path) showObs(v value) string {
	switch v := v.(type) {
	case *Term:
		return fmt.Sprint(p.eval(v))
	case *Str:
		b := p.w.ctx.strBytes(v)
		x := make([]byte, len(b))
		for i, t := range b {
			x[i] = byte(p.eval(t))
		}
		return fmt.Sprintf("%q", string(x))
	case []value:
		x := make([]byte, len(v))
		for i, t := range v {
			x[i] = byte(p.eval(t.(*Term)))
		}
		return fmt.Sprintf("%x", x)
	}
	return fmt.Sprintf("%T", v)
}

// runMain initialises the package under test and calls the harness.
func (p *Path) runMain() {
	p.initRepo(p.w.run.h.fn.Pkg)
	p.mainG = &gor{id: 0, wake: make(chan struct{}, 1)}
	p.cur = p.mainG
	p.gors = []*gor{p.mainG}
	p.callSSA(nil, p.w.run.h.fn, nil, nil)
}

// initRepo runs the initialisers of the repository packages for this path (dependencies first).
func (p *Path) initRepo(pkg *ssa.Package) {
	seen := map[*types.Package]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		if !p.w.eng.repoPkg(tp.Path()) {
			return
		}
		for _, i := range tp.Imports() {
			visit(i)
		}
		sp := p.w.eng.prog.Package(tp)
		p.w.eng.ensurePkg(sp)
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				cell := new(value)
				*cell = p.w.ctx.zero(deref(g.Type()))
				p.globals[g] = cell
			}
		}
		p.inInit = true
		if f := sp.Func("init"); f != nil && f.Blocks != nil {
			p.callSSA(nil, f, nil, nil)
		}
		p.inInit = false
	}
	visit(pkg.Pkg)
}

// globalCell resolves a global of a non-repository package.  Those packages are
// initialised at most once per worker and treated as read-only.
func (w *Worker) globalCell(p *Path, g *ssa.Global) *value {
	if c, ok := w.stdGlob[g]; ok && !w.stdBad[g] {
		return c
	}
	pkg := g.Pkg
	if w.stdInit[pkg] == 0 {
		w.stdInit[pkg] = 1
		w.eng.ensurePkg(pkg)
		for _, m := range pkg.Members {
			if gg, ok := m.(*ssa.Global); ok {
				cell := new(value)
				*cell = w.ctx.zero(deref(gg.Type()))
				w.stdGlob[gg] = cell
			}
		}
		if pp := pkg.Pkg.Path(); !skipInit[pp] && (!strings.HasPrefix(pp, "internal/") || initInternal[pp]) && !strings.HasPrefix(pp, "crypto/") {
			func() {
				save := p.inInit
				p.inInit = true
				defer func() {
					p.inInit = save
					if r := recover(); r != nil {
						if debugEngine {
							fmt.Fprintf(os.Stderr, "init of %s incomplete: %v\n", pkg.Pkg.Path(), r)
						}
					}
				}()
				if f := pkg.Func("init"); f != nil && f.Blocks != nil {
					p.callSSA(nil, f, nil, nil)
				}
			}()
		} else {
			// give every error-typed global a distinct non-nil value
			for _, m := range pkg.Members {
				if gg, ok := m.(*ssa.Global); ok && deref(gg.Type()).String() == "error" {
					*w.stdGlob[gg] = w.newErrorString(&Str{s: pkg.Pkg.Path() + "." + gg.Name()})
				}
			}
		}
		w.stdInit[pkg] = 2
		// globals that should have an initial value but still are zero: reading one would be unsound
		if f := pkg.Func("init"); f != nil {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if gg, ok := (*op).(*ssa.Global); ok && gg.Pkg == pkg && gg.Name() != "init$guard" && w.stdGlob[gg] != nil &&
							reflect.DeepEqual(*w.stdGlob[gg], w.ctx.zero(deref(gg.Type()))) {
							if w.stdBad == nil {
								w.stdBad = map[*ssa.Global]bool{}
							}
							w.stdBad[gg] = true
						}
					}
				}
			}
		}
	}
	if w.stdBad[g] && w.stdInit[pkg] == 2 && !p.inInit {
		if debugEngine {
			fmt.Fprintf(os.Stderr, "uninitialised library global %s\n", g)
		}
		p.w.run.noteBound("library state "+g.String()+" not modelled", nil)
		panic(pathEnd{"bound", "library state " + g.String() + " not modelled"})
	}
	c, ok := w.stdGlob[g]
	if !ok {
		c = new(value)
		*c = w.ctx.zero(deref(g.Type()))
		w.stdGlob[g] = c
	}
	return c
}

var initInternal = map[string]bool{"internal/strconv": true, "internal/stringslite": true, "internal/itoa": true, "internal/byteorder": true, "internal/fmtsort": true}
var skipInit = map[string]bool{"net": true, "os": true, "syscall": true, "runtime": true, "log": true, "log/slog": true, "time": true,
	"reflect": true, "regexp": true, "math/rand": true, "encoding/xml": true, "net/netip": true, "testing": true, "fmt": true, "regexp/syntax": true, "sync": true, "io/fs": true, "path/filepath": true, "encoding/json": true}

func (w *Worker) newErrorString(s *Str) value {
	t := w.eng.typeByName("errors", "errorString")
	cell := new(value)
	*cell = structure{s}
	return iface{types.NewPointer(t), cell}
}
