package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type replayFile struct {
	Property string
	Harness  string
	Pkg      string
	Kind     string
	Msg      string
	Loc      string
	Known    string `json:",omitempty"`
	Tier     int
	Inputs   map[string]uint64
	Native   string
	HowTo    string
}

type finding struct{ prop, id, text string }

var knownRe = regexp.MustCompile(`^known: property=(\S+) id=(\S+) (.*)$`)

func loadKnown(verif string) map[string]finding {
	m := map[string]finding{}
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if x := knownRe.FindStringSubmatch(strings.TrimSpace(l)); x != nil {
			m[x[2]] = finding{x[1], x[2], x[3]}
		}
	}
	return m
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "property id")
	tierS := flag.String("tier", "", "quick or thorough")
	only := flag.String("only", "", "run only this harness")
	budget := flag.Duration("budget", 0, "time budget")
	replay := flag.String("replay", "", "replay file")
	flag.IntVar(&numWorkers, "j", 0, "workers")
	noNative := flag.Bool("nonative", false, "skip native replay (debugging)")
	flag.Parse()
	if numWorkers == 0 {
		numWorkers = runtime.NumCPU()
		if numWorkers > 8 {
			numWorkers = 8
		}
	}
	debug.SetMaxStack(4 << 30)
	debug.SetMemoryLimit(20 << 30)
	if *replay != "" {
		os.Exit(doReplay(*repo, *verif, *replay))
	}
	if *tierS == "" {
		*tierS = os.Getenv("VERIF_TIER")
	}
	tier := 0
	if *tierS == "thorough" {
		tier = 1
	}
	if *budget == 0 {
		*budget = 240 * time.Second
		if tier == 1 {
			*budget = 780 * time.Second
		}
	}
	os.Exit(doCheck(*repo, *verif, *prop, *only, tier, *budget, *noNative))
}

func doReplay(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	bd, err := collect(repo, verif, rf.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if _, err := bd.load(); err != nil {
		fmt.Println(err)
		return 2
	}
	work, _ := os.MkdirTemp("", "vfr")
	defer os.RemoveAll(work)
	n := bd.buildNative(work, rf.Pkg, rf.Kind == "race")
	res, err := n.run([]nCase{{rf.Harness, rf.Inputs, rf.Tier}})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	j, _ := json.MarshalIndent(res[0], "", " ")
	fmt.Printf("%s\n", j)
	if reproduces(&CE{Kind: rf.Kind, Msg: rf.Msg}, res[0]) {
		fmt.Printf("REPRODUCED property=%s %s\n", rf.Property, rf.Msg)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func reproduces(c *CE, r nRes) bool {
	switch c.Kind {
	case "assert":
		if r.Status == "fail" {
			for _, f := range r.Fails {
				if f[0] == c.Msg && f[1] == c.Known {
					return true
				}
			}
		}
		return false
	case "panic":
		return r.Status == "panic" || r.Status == "crash"
	case "stack":
		return r.Status == "crash" || r.Status == "timeout"
	case "deadlock":
		return r.Status == "timeout" || r.Status == "crash" || r.Status == "panic" && strings.HasPrefix(r.Text, "deadlock")
	case "race":
		return strings.Contains(r.Text, "DATA RACE")
	}
	return false
}

func doCheck(repo, verif, prop, only string, tier int, budget time.Duration, noNative bool) int {
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	fail := func(f string, a ...any) int {
		fmt.Printf("ERROR property=%s "+f+"\n", append([]any{prop}, a...)...)
		return 2
	}
	bd, err := collect(repo, verif, prop)
	if err != nil {
		return fail("%v", err)
	}
	work, err := os.MkdirTemp("", "vf")
	if err != nil {
		return fail("%v", err)
	}
	defer os.RemoveAll(work)
	eng, err := bd.load()
	if err != nil {
		return fail("cannot encode the current tree: %v", err)
	}
	natives := map[string]*Native{}
	for _, p := range bd.pkgs {
		natives[p] = bd.buildNative(work, p, false)
	}
	for _, d := range bd.dropped {
		fmt.Printf("REDUCED-BOUND: %s does not fit the current code and was left out\n", d)
	}
	known := loadKnown(verif)
	var hs []*Harness
	for _, h := range eng.harnesses {
		if h.Prop == prop && (only == "" || h.Name == only) {
			hs = append(hs, h)
		}
	}
	relOf := func(h *Harness) string {
		r := strings.TrimPrefix(strings.TrimPrefix(h.Pkg, eng.modPath), "/")
		if r == "" {
			r = "."
		}
		return r
	}
	var runs []*Run
	deadline := t0.Add(budget)
	for i, h := range hs {
		left := time.Until(deadline)
		share := left / time.Duration(len(hs)-i)
		// early harnesses may use up to twice their even share
		if i < len(hs)-1 {
			share = min(share*2, left*2/3)
		}
		if share < 2*time.Second {
			share = 2 * time.Second
		}
		r := runHarness(eng, h, tier, seed, share, 400000)
		runs = append(runs, r)
		if debugEngine || only != "" || os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Println(r.summary())
		}
		runtime.GC()
	}
	// native replay: counterexamples, then a sample of explored paths
	violations := 0
	var spurious []string
	knownSeen := map[string]string{}
	validated, mismatched := 0, 0
	var mismatches []string
	var samples []any
	outDir := filepath.Join(verif, "out", "replay")
	if !noNative {
		for _, r := range runs {
			rel := relOf(r.h)
			nat := natives[rel]
			var ces []*CE
			var keys []string
			for k := range r.ces {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				ces = append(ces, r.ces[k]...)
			}
			var cases []nCase
			for _, c := range ces {
				cases = append(cases, nCase{r.h.Name, c.Inputs, tier})
			}
			trs := r.traces
			max := 120
			if len(trs) > max {
				// spread the sample over the recorded paths
				var t2 []Trace
				for i := 0; i < max; i++ {
					t2 = append(t2, trs[i*len(trs)/max])
				}
				trs = t2
			}
			for _, t := range trs {
				cases = append(cases, nCase{r.h.Name, t.Inputs, tier})
			}
			res, err := nat.run(cases)
			if err != nil {
				return fail("%v", err)
			}
			// data races are confirmed by the race detector
			var raced []int
			var rcases []nCase
			for i, c := range ces {
				if c.Kind == "race" {
					raced = append(raced, i)
					rcases = append(rcases, cases[i])
				}
			}
			if len(raced) > 0 {
				if natives[rel+" race"] == nil {
					natives[rel+" race"] = bd.buildNative(work, rel, true)
				}
				rres, err := natives[rel+" race"].run(rcases)
				if err != nil {
					return fail("%v", err)
				}
				for k, i := range raced {
					res[i] = rres[k]
				}
			}
			doneKey := map[string]bool{}
			bad := map[string]*CE{}
			var badOrder []string
			for i, c := range ces {
				k := c.key()
				if doneKey[k] {
					continue
				}
				if !reproduces(c, res[i]) {
					if bad[k] == nil {
						badOrder = append(badOrder, k)
					}
					bad[k] = c
					if debugEngine || only != "" {
						fmt.Printf("CE not reproduced natively: %s %q %v -> %s %v %s\n", c.Kind, c.Msg, fmtInputs(c), res[i].Status, res[i].Fails, res[i].Text)
					}
					continue
				}
				doneKey[k] = true
				if c.Known != "" {
					if f, ok := known[c.Known]; ok && f.prop == prop {
						if knownSeen[c.Known] == "" {
							knownSeen[c.Known] = f.text
							fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, c.Known, f.text)
						}
						continue
					}
				}
				os.MkdirAll(outDir, 0o755)
				violations++
				fn := filepath.Join(outDir, fmt.Sprintf("%s_%d.json", prop, violations))
				rf := replayFile{prop, r.h.Name, rel, c.Kind, c.Msg, c.Loc, c.Known, tier, c.Inputs, res[i].Status + " " + res[i].Text, "bash /verif/run.sh replay " + fn}
				j, _ := json.MarshalIndent(rf, "", " ")
				os.WriteFile(fn, j, 0o644)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, fn)
				fmt.Printf("  %s: %s: %s (at %s)\n  inputs: %s\n", r.h.Name, c.Kind, c.Msg, c.Loc, fmtInputs(c))
			}
			for _, k := range badOrder {
				if !doneKey[k] {
					spurious = append(spurious, fmt.Sprintf("%s: %s %s (%s)", bad[k].Harness, bad[k].Kind, bad[k].Msg, bad[k].Loc))
				}
			}
			for i, t := range trs {
				n := res[len(ces)+i]
				ok := n.Status == t.Status && strings.Join(n.Obs, "\n") == strings.Join(t.Obs, "\n")
				if ok {
					validated++
				} else {
					mismatched++
					if len(mismatches) < 5 {
						mismatches = append(mismatches, fmt.Sprintf("%s inputs %v: model %s %v, native %s %v %v %s", r.h.Name, t.Inputs, t.Status, t.Obs, n.Status, n.Obs, n.Fails, n.Text))
					}
				}
				if ok && i < 2 && len(samples) < 12 {
					samples = append(samples, map[string]any{"harness": r.h.Name, "path_inputs": t.Inputs, "outcome": t.Status, "observed": t.Obs})
				}
			}
		}
	}
	code := 0
	vac := []string{}
	var tot struct {
		paths, asserts, solved, triv, unk, q, sat, unsat, unkq int
		steps, decs                                            int64
		solver                                                 time.Duration
		maxq                                                   time.Duration
	}
	funcs := map[string]bool{}
	bounds := map[string]int{}
	unsup := map[string]int{}
	per := []any{}
	incomplete := []string{}
	for _, r := range runs {
		na := 0
		var al []any
		var ks []string
		for k := range r.asserts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			a := r.asserts[k]
			na += a.Total
			tot.asserts += a.Total
			tot.solved += a.Solved
			tot.triv += a.Triv
			tot.unk += a.Unk
			al = append(al, map[string]any{"assertion": k, "reached": a.Total, "by_solver": a.Solved, "by_rewriting": a.Triv, "failed": a.Failed, "undecided": a.Unk})
		}
		if na == 0 {
			vac = append(vac, r.h.Name)
		}
		tot.paths += r.paths
		tot.steps += r.steps
		tot.decs += r.decs
		tot.q += r.queries
		tot.sat += r.sat
		tot.unsat += r.unsat
		tot.unkq += r.unk
		tot.solver += r.solverT
		if r.maxT > tot.maxq {
			tot.maxq = r.maxT
		}
		for f := range r.funcs {
			funcs[f] = true
		}
		for k, v := range r.bounds {
			bounds[k] += v
		}
		for k, v := range r.unsup {
			unsup[k] += v
		}
		if r.lateTO {
			incomplete = append(incomplete, r.h.Name+": time budget reached, remaining paths unexplored")
		}
		per = append(per, map[string]any{"harness": r.h.Name, "bounds": r.h.Doc, "paths": r.paths, "path_ends": r.ends, "assertions": al,
			"queries": r.queries, "solver_s": r.solverT.Seconds(), "wall_s": r.wall.Seconds(), "reach": r.reach, "complete": !r.lateTO && len(r.bounds) == 0 && len(r.unsup) == 0})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no validated path"})
	}
	cov := map[string]any{
		"states": int(tot.decs) + tot.paths, "transitions": int(tot.steps), "traces_validated_against_impl": validated, "samples": samples,
		"explanation": "states = symbolic states at decision points plus completed paths; transitions = SSA instructions interpreted symbolically",
		"paths":       tot.paths, "assertions_reached": tot.asserts, "discharged_by_solver": tot.solved, "discharged_by_rewriting": tot.triv, "assertions_undecided": tot.unk,
		"queries": tot.q, "sat": tot.sat, "unsat": tot.unsat, "unknown": tot.unkq, "solver_s": tot.solver.Seconds(), "max_query_s": tot.maxq.Seconds(), "solver": solverName(),
		"functions_encoded": fl, "functions_encoded_n": len(fl), "harnesses": per, "reduced_bounds": bounds, "not_encoded": unsup, "incomplete": incomplete,
		"trace_mismatches": mismatches, "spurious_counterexamples": spurious, "known_findings_seen": knownSeen, "encode_s": eng.loadTime.Seconds(),
	}
	tn := "quick"
	if tier == 1 {
		tn = "thorough"
	}
	ev := map[string]any{"property": prop, "tier": tn, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": violations,
		"assumptions": []string{"the bounds in each harness's text", "the engine's Go SSA semantics, cross-checked by replaying explored paths natively", "z3's verdicts",
			"stand-ins: network dial/listen, random numbers, clock, sleep and tickers are replaced by harness-controlled functions; logging has no effect"}}
	if only == "" {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		j, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(j, '\n'), 0o644); err != nil {
			return fail("%v", err)
		}
	}
	fmt.Printf("property=%s tier=%s harnesses=%d paths=%d assertions=%d (solver %d, rewriting %d, undecided %d) queries=%d solver=%.1fs replayed=%d wall=%.1fs\n",
		prop, tn, len(runs), tot.paths, tot.asserts, tot.solved, tot.triv, tot.unk, tot.q, tot.solver.Seconds(), validated, time.Since(t0).Seconds())
	for _, x := range incomplete {
		fmt.Println("REDUCED-BOUND:", x)
	}
	for k, v := range bounds {
		fmt.Printf("REDUCED-BOUND: %s (%d paths)\n", k, v)
	}
	for k, v := range unsup {
		fmt.Printf("NOT-ENCODED: %s (%d paths)\n", k, v)
	}
	for _, s := range spurious {
		fmt.Println("SPURIOUS:", s)
	}
	for _, s := range mismatches {
		fmt.Println("MISMATCH:", s)
	}
	if violations > 0 {
		return 1
	}
	if len(vac) > 0 {
		return fail("no assertion reached in %v", vac)
	}
	if len(spurious) > 0 {
		return fail("counterexamples that the real code does not reproduce")
	}
	if mismatched > 0 && mismatched*10 > validated {
		return fail("the encoding disagrees with the real code on %d of %d paths", mismatched, validated+mismatched)
	}
	return code
}

func fmtInputs(c *CE) string {
	var sb strings.Builder
	for i, n := range c.Order {
		if i > 60 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, " %s=%d", n, c.Inputs[n])
	}
	return sb.String()
}

func (r *Run) summary() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: paths=%d ends=%v queries=%d solver=%.1fs wall=%.1fs max=%.2fs unk=%d err=%d steps=%d late=%v\n", r.h.Name, r.paths, r.ends, r.queries, r.solverT.Seconds(), r.wall.Seconds(), r.maxT.Seconds(), r.unk, r.serr, r.steps, r.lateTO)
	var ks []string
	for k := range r.asserts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "   %+v\n", *r.asserts[k])
	}
	for k, v := range r.bounds {
		fmt.Fprintf(&sb, "   bound %s: %d\n", k, v)
	}
	for k, v := range r.unsup {
		fmt.Fprintf(&sb, "   unsup %s: %d\n", k, v)
	}
	fmt.Fprintf(&sb, "   reach %v\n", r.reach)
	if r.hotspots != nil {
		type kv struct {
			k string
			v int
		}
		var l []kv
		for k, v := range r.hotspots {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for i, x := range l {
			if i > 15 {
				break
			}
			fmt.Fprintf(&sb, "   hot %d %s\n", x.v, x.k)
		}
	}
	for _, cs := range r.ces {
		fmt.Fprintf(&sb, "   CE %s %q at %s known=%s: %s\n", cs[0].Kind, cs[0].Msg, cs[0].Loc, cs[0].Known, fmtInputs(cs[0]))
	}
	return sb.String()
}
