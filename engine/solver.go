package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

// Solver drives one persistent SMT solver process.
type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	emitted map[uint32]bool
	stack   []*Term // asserted terms, one push level each
	Queries int
	SatN    int
	UnsatN  int
	UnkN    int
	Time    time.Duration
	MaxT    time.Duration
	timeout int // ms
	errs    int
	log     io.Writer
	alt     *Solver // one-shot contexts for queries the incremental core does not settle quickly
}

const quickMs = 400

func solverBin() string {
	if s := os.Getenv("VERIF_Z3"); s != "" {
		return s
	}
	if _, err := os.Stat("/usr/local/bin/z3-new"); err == nil {
		return "/usr/local/bin/z3-new"
	}
	return "z3"
}

func newSolver(timeoutMs int) *Solver {
	s := &Solver{bin: solverBin(), args: []string{"-in"}, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.emitted = map[uint32]bool{}
	s.stack = nil
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", min(s.timeout, quickMs)))
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		f, _ := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		s.log = f
	}
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.WriteString("(exit)\n")
		s.in.Flush()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.alt != nil {
		s.alt.close()
		s.alt = nil
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) define(t *Term) {
	if t.op == OpConst || s.emitted[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		k int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t == nil || f.t.op == OpConst || s.emitted[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.k < 3 {
			k := f.k
			f.k++
			ch := [3]*Term{f.t.a, f.t.b, f.t.c}[k]
			if ch != nil && ch.op != OpConst && !s.emitted[ch.id] {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		s.emitted[x.id] = true
		if x.op == OpVar {
			s.send(fmt.Sprintf("(declare-fun |%s| () %s)\n", x.name, sortName(x.w)))
		} else {
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortName(x.w), x.smtBody()))
		}
	}
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", k))
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		s.send("(push 1)\n(assert " + t.ref() + ")\n")
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check decides pc && extra (extra may be nil); on SatYes the model of vars is returned.
func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (Sat, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if dir := os.Getenv("VERIF_SLOWDIR"); dir != "" && d > time.Second {
			os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", dir, os.Getpid(), t0.UnixNano()), []byte(standalone(pc, extra)), 0644)
		}
		if d > s.MaxT {
			s.MaxT = d
		}
	}()
	s.Queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
	}
	for _, v := range vars {
		s.define(v)
	}
	if extra != nil {
		s.send("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	res := Unknown
	l, err := s.readLine()
	if err != nil {
		s.errs++
		s.UnkN++
		s.restart()
		return Unknown, nil
	}
	for strings.HasPrefix(l, "(error") {
		// any error makes this query (and this process) inconclusive
		fmt.Fprintln(os.Stderr, "solver:", l)
		s.errs++
		s.UnkN++
		s.restart()
		return Unknown, nil
	}
	switch l {
	case "sat":
		res = SatYes
	case "unsat":
		res = Unsat
	}
	var m Model
	if res == Unknown {
		res, m = s.oneShot(pc, extra, vars)
	} else if res == SatYes {
		m = Model{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.ref())
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n(echo \"--end\")\n")
			s.send(sb.String())
			s.in.Flush()
			var txt strings.Builder
			for {
				l, err := s.readLine()
				if err != nil {
					s.errs++
					s.UnkN++
					s.restart()
					return Unknown, nil
				}
				if l == "--end" || l == "\"--end\"" {
					break
				}
				txt.WriteString(l)
				txt.WriteByte('\n')
			}
			parseModel(txt.String(), m)
		}
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	switch res {
	case SatYes:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnkN++
	}
	return res, m
}

// parseModel parses ((|x| #x00) (|y| true) ...)
func parseModel(txt string, m Model) {
	i := 0
	for i < len(txt) {
		if txt[i] != '|' {
			i++
			continue
		}
		j := strings.IndexByte(txt[i+1:], '|')
		if j < 0 {
			return
		}
		name := txt[i+1 : i+1+j]
		i = i + j + 2
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		k := i
		for k < len(txt) && txt[k] != ')' && txt[k] != ' ' && txt[k] != '\n' {
			k++
		}
		v := txt[i:k]
		i = k
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			n, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = n
		case strings.HasPrefix(v, "#b"):
			n, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = n
		}
	}
}

func solverName() string {
	out, err := exec.Command(solverBin(), "--version").Output()
	if err != nil {
		return solverBin()
	}
	return strings.TrimSpace(string(out))
}

// standalone is the query as a self-contained SMT-LIB script.
func standalone(pc []*Term, extra *Term) string {
	var buf strings.Builder
	t := &Solver{emitted: map[uint32]bool{}, log: &buf, in: bufio.NewWriter(io.Discard)}
	t.send("(set-logic QF_BV)\n")
	for _, x := range pc {
		t.define(x)
		t.send("(assert " + x.ref() + ")\n")
	}
	if extra != nil {
		t.define(extra)
		t.send("(assert " + extra.ref() + ")\n")
	}
	t.send("(check-sat)\n")
	return buf.String()
}

// oneShot decides the query in a fresh context of a second process, where the solver is
// free to use its non-incremental strategies.
func (s *Solver) oneShot(pc []*Term, extra *Term, vars []*Term) (Sat, Model) {
	if s.alt == nil {
		s.alt = &Solver{bin: s.bin, args: s.args, timeout: s.timeout}
		s.alt.start()
	}
	a := s.alt
	a.emitted = map[uint32]bool{}
	fail := func() (Sat, Model) {
		s.errs++
		a.close()
		s.alt = nil
		return Unknown, nil
	}
	a.send(fmt.Sprintf("(reset)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout))
	for _, x := range append(append([]*Term(nil), pc...), extra) {
		if x != nil {
			a.define(x)
			a.send("(assert " + x.ref() + ")\n")
		}
	}
	for _, v := range vars {
		a.define(v)
	}
	a.send("(check-sat)\n")
	a.in.Flush()
	l, err := a.readLine()
	if err != nil || strings.HasPrefix(l, "(error") {
		return fail()
	}
	switch l {
	case "unsat":
		return Unsat, nil
	case "sat":
	default:
		return Unknown, nil
	}
	m := Model{}
	if len(vars) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref())
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n(echo \"--end\")\n")
		a.send(sb.String())
		a.in.Flush()
		var txt strings.Builder
		for {
			l, err := a.readLine()
			if err != nil {
				return fail()
			}
			if l == "--end" || l == "\"--end\"" {
				break
			}
			txt.WriteString(l)
			txt.WriteByte('\n')
		}
		parseModel(txt.String(), m)
	}
	return SatYes, m
}
