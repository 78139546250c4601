package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Repository packages that can carry harnesses: harness directory -> package directory.
var pkgDirs = map[string]string{"root": ".", "l5x": "l5x", "canned": "canned", "lgxtypes": "lgxtypes"}

// environment stand-ins: the only source rewriting done, identical for the symbolic and the native run.
var standIns = map[string]string{
	"net.DialTimeout": "vfDialTimeout", "net.Dial": "vfDial", "net.Listen": "vfListen", "net.ListenPacket": "vfListenPacket",
	"math/rand.Uint32": "vfRand32", "time.Sleep": "vfSleep", "time.NewTicker": "vfNewTicker", "time.Now": "vfNow",
}

// with schedules, also the locks, so that the native run can follow a schedule at the same places.
var schedStandIns = map[string]string{
	"sync.Mutex": "vfMutex", "sync.RWMutex": "vfRWMutex",
	"sync/atomic.Uint32": "vfAtomicUint32", "sync/atomic.Int32": "vfAtomicInt32", "sync/atomic.Bool": "vfAtomicBool",
	"sync/atomic.AddUint32": "vfAddUint32", "sync/atomic.LoadUint32": "vfLoadUint32", "sync/atomic.StoreUint32": "vfStoreUint32", "sync/atomic.CompareAndSwapUint32": "vfCASUint32",
	"sync/atomic.AddInt32": "vfAddInt32", "sync/atomic.LoadInt32": "vfLoadInt32", "sync/atomic.StoreInt32": "vfStoreInt32", "sync/atomic.CompareAndSwapInt32": "vfCASInt32",
}
var keepUse = map[string]string{"net": "Conn", "math/rand": "Rand", "time": "Duration", "sync": "Mutex", "sync/atomic": "Uint32"}

type build struct {
	repo, verif string
	files       map[string][]byte   // absolute path in repo -> content (symbolic run)
	pkgs        []string            // package directories with harnesses of the property
	harnesses   map[string][]string // package dir -> harness names
	names       map[string]string   // package dir -> package name
	removed     []string            // repo test files hidden from the native build
	srcHash     string
	sched       bool     // a harness explores schedules
	dropped     []string // harness declarations that no longer fit the code
}

var declRe = regexp.MustCompile(`(?m)^(?:func|type|var|const) (\w+)`)
var harnessRe = regexp.MustCompile(`(?m)^func (VF_([A-Za-z0-9]+)_\w+)\(\)`)

// collect prepares the overlay for one property.
func collect(repo, verif, prop string) (*build, error) {
	b := &build{repo: repo, verif: verif, files: map[string][]byte{}, harnesses: map[string][]string{}, names: map[string]string{}}
	var dirs []string
	for d := range pkgDirs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, hd := range dirs {
		hs, _ := filepath.Glob(filepath.Join(verif, "harness", hd, "zz_vf_"+strings.ToLower(prop)+"*.go"))
		for _, h := range hs {
			src, _ := os.ReadFile(h)
			b.sched = b.sched || bytes.Contains(src, []byte("vfSchedule("))
		}
	}
	for _, hd := range dirs {
		rel := pkgDirs[hd]
		pdir := filepath.Join(repo, rel)
		ents, err := os.ReadDir(pdir)
		if err != nil {
			continue
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") {
				continue
			}
			full := filepath.Join(pdir, n)
			if strings.HasSuffix(n, "_test.go") {
				b.removed = append(b.removed, full)
				continue
			}
			src, err := os.ReadFile(full)
			if err != nil {
				return nil, err
			}
			out, pkg, err := substitute(full, src, b.sched)
			if err != nil {
				return nil, err
			}
			b.names[rel] = pkg
			if out != nil {
				b.files[full] = out
			}
		}
		if b.names[rel] == "" {
			continue
		}
		b.files[filepath.Join(pdir, "zz_vf_api.go")] = []byte(strings.ReplaceAll(apiSrc, "PKG", b.names[rel]))
		hs, _ := filepath.Glob(filepath.Join(verif, "harness", hd, "zz_vf_*.go"))
		sort.Strings(hs)
		var libs, mine []string
		for _, h := range hs {
			base := filepath.Base(h)
			if strings.HasPrefix(base, "zz_vf_lib") {
				libs = append(libs, h)
				continue
			}
			src, _ := os.ReadFile(h)
			for _, m := range harnessRe.FindAllStringSubmatch(string(src), -1) {
				if m[2] == prop {
					if len(mine) == 0 || mine[len(mine)-1] != h {
						mine = append(mine, h)
					}
					b.harnesses[rel] = append(b.harnesses[rel], m[1])
				}
			}
		}
		if len(mine) > 0 {
			b.pkgs = append(b.pkgs, rel)
			declared := map[string]string{}
			for _, h := range append(libs, mine...) {
				src, err := os.ReadFile(h)
				if err != nil {
					return nil, err
				}
				for _, m := range declRe.FindAllStringSubmatch(string(src), -1) {
					if o := declared[m[1]]; o != "" {
						return nil, fmt.Errorf("harness files %s and %s both declare %s", filepath.Base(o), filepath.Base(h), m[1])
					}
					declared[m[1]] = h
				}
				b.files[filepath.Join(pdir, filepath.Base(h))] = src
			}
		}
	}
	for _, rel := range b.pkgs {
		if rel == "." {
			continue
		}
		pubs, _ := filepath.Glob(filepath.Join(verif, "harness", "root", "zz_vf_pub*.go"))
		for _, h := range pubs {
			src, err := os.ReadFile(h)
			if err != nil {
				return nil, err
			}
			b.files[filepath.Join(repo, filepath.Base(h))] = src
		}
	}
	if len(b.pkgs) == 0 {
		return nil, fmt.Errorf("no harness for %s", prop)
	}
	return b, nil
}

// substitute replaces the environment entry points by harness-controlled stand-ins.
func substitute(name string, src []byte, sched bool) ([]byte, string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, "", err
	}
	imp := map[string]string{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := filepath.Base(p)
		if i.Name != nil {
			n = i.Name.Name
		}
		imp[n] = p
	}
	type edit struct {
		lo, hi int
		s      string
	}
	var edits []edit
	used := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := imp[id.Name]
		if !ok {
			return true
		}
		r, ok := standIns[p+"."+sel.Sel.Name]
		if !ok && sched {
			r, ok = schedStandIns[p+"."+sel.Sel.Name]
		}
		if ok {
			edits = append(edits, edit{fset.Position(sel.Pos()).Offset, fset.Position(sel.End()).Offset, r})
			used[id.Name] = p
		}
		return true
	})
	if len(edits) == 0 {
		return nil, f.Name.Name, nil
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].lo < edits[j].lo })
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		out.Write(src[pos:e.lo])
		out.WriteString(e.s)
		pos = e.hi
	}
	out.Write(src[pos:])
	var ns []string
	for n := range used {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&out, "\nvar _ %s.%s\n", n, keepUse[used[n]])
	}
	return out.Bytes(), f.Name.Name, nil
}

// Native is the natively compiled harness binary of one package.
type Native struct {
	bin  string
	race bool
	err  error
	out  string
	done chan struct{}
	dir  string
}

// buildNative compiles the harnesses against the real package, in the background.
func (b *build) buildNative(work, rel string, race bool) *Native {
	n := &Native{race: race, done: make(chan struct{}), dir: filepath.Join(work, "n_"+strings.ReplaceAll(rel, ".", "root"))}
	if race {
		n.dir += "_race"
	}
	go func() {
		defer close(n.done)
		os.MkdirAll(n.dir, 0o755)
		repl := map[string]string{}
		i := 0
		for p, src := range b.files {
			i++
			f := filepath.Join(n.dir, fmt.Sprintf("f%d_%s", i, filepath.Base(p)))
			if err := os.WriteFile(f, src, 0o644); err != nil {
				n.err = err
				return
			}
			repl[p] = f
		}
		for _, r := range b.removed {
			repl[r] = ""
		}
		var hs strings.Builder
		for _, h := range b.harnesses[rel] {
			fmt.Fprintf(&hs, "\t%q: %s,\n", h, h)
		}
		run := strings.ReplaceAll(strings.ReplaceAll(runnerSrc, "PKG", b.names[rel]), "HARNESSES", hs.String())
		f := filepath.Join(n.dir, "runner_test.go")
		os.WriteFile(f, []byte(run), 0o644)
		repl[filepath.Join(b.repo, rel, "zz_vf_run_test.go")] = f
		j, _ := json.Marshal(map[string]any{"Replace": repl})
		ov := filepath.Join(n.dir, "overlay.json")
		os.WriteFile(ov, j, 0o644)
		n.bin = filepath.Join(n.dir, "h.test")
		args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-o", n.bin, "./" + rel}
		cmd := exec.Command("go", args...)
		cmd.Env = goEnv()
		if race {
			cmd = exec.Command("go", append([]string{"test", "-race"}, args[1:]...)...)
			cmd.Env = append(goEnv(), "CGO_ENABLED=1")
		}
		cmd.Dir = b.repo
		o, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build of %s: %v\n%s", rel, err, o)
		}
	}()
	return n
}

type nCase struct {
	Harness string
	Inputs  map[string]uint64
	Tier    int
}
type nRes struct {
	Case   int
	Status string
	Text   string
	Fails  [][2]string
	Obs    []string
}

// run executes cases natively; a crash or hang is attributed to the case it happened in.
func (n *Native) run(cases []nCase) ([]nRes, error) {
	<-n.done
	if n.err != nil {
		return nil, n.err
	}
	res := make([]nRes, len(cases))
	got := make([]bool, len(cases))
	cf, of := filepath.Join(n.dir, "cases.json"), filepath.Join(n.dir, "out.jsonl")
	j, _ := json.Marshal(cases)
	if err := os.WriteFile(cf, j, 0o644); err != nil {
		return nil, err
	}
	start := 0
	for start < len(cases) {
		os.Remove(of)
		cmd := exec.Command(n.bin, "-test.run", "TestVFRun", "-test.timeout", "0")
		cmd.Dir = n.dir
		cmd.Env = append(os.Environ(), "VF_CASES="+cf, "VF_OUT="+of, "VF_START="+strconv.Itoa(start), "GOMEMLIMIT=4GiB", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		dn := make(chan error, 1)
		go func() { dn <- cmd.Wait() }()
		var werr error
		select {
		case werr = <-dn:
		case <-time.After(300 * time.Second):
			cmd.Process.Kill()
			werr = <-dn
		}
		data, _ := os.ReadFile(of)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprint(os.Stderr, buf.String())
		}
		next := start
		for _, ln := range bytes.Split(data, []byte("\n")) {
			var r nRes
			if len(ln) > 0 && json.Unmarshal(ln, &r) == nil && r.Case < len(cases) {
				res[r.Case], got[r.Case] = r, true
				next = r.Case + 1
			}
		}
		if next >= len(cases) {
			break
		}
		if werr != nil && (next == start || cmd.ProcessState.ExitCode() != 3) { // 3: the last case hangs
			txt := buf.String()
			if len(txt) > 1500 {
				txt = txt[:1500]
			}
			res[next] = nRes{Case: next, Status: "crash", Text: txt}
			next++
		} else if werr == nil && next == start {
			return nil, fmt.Errorf("native runner made no progress: %s", buf.String())
		}
		start = next
	}
	return res, nil
}
