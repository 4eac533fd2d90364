package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------------------
// gocv check: decide one property and report

type finding struct{ prop, name, what string }

func loadFindings(file string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := finding{}
		fs := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(fs) < 3 {
			continue
		}
		f.prop = strings.TrimPrefix(fs[0], "property=")
		f.name = strings.TrimPrefix(fs[1], "obligation=")
		f.what = fs[2]
		out = append(out, f)
	}
	return out
}

type checkOpts struct {
	repo, verif, prop, tier string
	seed                    int
	timeout                 int
	verbose                 bool
}

func runCheck(o checkOpts) int {
	t0 := time.Now()
	quick := o.tier != "thorough"
	findings := loadFindings(filepath.Join(o.verif, "known-findings.txt"))
	var fails []*failure
	var out *outcome
	var eng *Engine
	s := newSolver(time.Duration(o.timeout) * time.Second)
	s.Retry = 3
	s.Deadline = t0.Add(420 * time.Second)
	if !quick {
		s.Deadline = t0.Add(780 * time.Second)
		s.Retry = 6
	}
	// The first obligation that is not discharged starts the replay; an input
	// that breaks the property on the real code settles the check.
	secs := 60
	if !quick {
		secs = 240
	}
	repc := make(chan *replayResult, 1)
	var repOnce sync.Once
	var repStarted atomic.Bool
	startReplay := func() {
		repOnce.Do(func() {
			repStarted.Store(true)
			r := replay(o, secs)
			if r.found && quick {
				s.stop.Store(true)
			}
			repc <- r
		})
	}
	s.OnFail = startReplay
	w, err := Load(o.repo)
	if err != nil {
		fails = append(fails, &failure{Name: "load/" + o.prop, Kind: "load", Result: "the source does not type-check: " + err.Error()})
	}
	var sp *Spec
	if err == nil {
		sp, err = LoadSpecs(filepath.Join(o.verif, "contracts"))
		if err != nil {
			fmt.Println("contracts:", err)
			return 2
		}
	}
	if sp != nil {
		p := sp.Props[o.prop]
		if p == nil {
			fmt.Println("no property", o.prop)
			return 2
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					fails = append(fails, &failure{Name: o.prop + "/generator", Kind: "generator", Result: fmt.Sprint("the generator stopped: ", r)})
				}
			}()
			eng = NewEngine(w, sp, p)
			r := &runner{e: eng, p: p, s: s, probes: 1}
			if !quick {
				r.probes = 1000
			}
			out = r.run()
			fails = append(fails, out.fails...)
			if len(out.fails) == 0 {
				fails = append(fails, r.vacuity(out)...)
			}
		}()
	}
	known := map[string]bool{}
	for _, f := range findings {
		if f.prop == o.prop {
			known[f.name] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.prop, f.what)
		}
	}
	var bad []*failure
	for _, f := range fails {
		if !known[f.Name] {
			bad = append(bad, f)
		}
	}
	nobl, nok := 0, 0
	if out != nil {
		for _, u := range out.units {
			nobl += u.n
			nok += u.ok
		}
		if nobl == 0 && len(bad) == 0 {
			bad = append(bad, &failure{Name: o.prop + "/no-obligations", Kind: "vacuous", Result: "no obligation was generated"})
		}
	}
	// replay
	rc := 0
	replayFile := filepath.Join(o.verif, "evidence", "replay", o.prop+".txt")
	var rep *replayResult
	if len(bad) > 0 || !quick || repStarted.Load() {
		go startReplay()
		rep = <-repc
	}
	if rep != nil && rep.found {
		// what was not tried any more is not a failure
		var tried []*failure
		for _, f := range bad {
			if f.Result != notTried {
				tried = append(tried, f)
			}
		}
		if len(tried) > 0 {
			bad = tried
		}
	}
	if rep != nil && rep.found && len(bad) == 0 {
		// the bounded cross-check of the contracts disagrees with the proof
		bad = append(bad, &failure{Name: o.prop + "/cross-check", Kind: "cross-check", Result: "an input breaks the property although every obligation was discharged"})
	}
	if len(bad) > 0 {
		rc = 1
		os.MkdirAll(filepath.Dir(replayFile), 0o755)
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n", o.prop)
		if rep != nil && rep.found {
			fmt.Fprintf(&b, "\nfailing input, run against the code in %s:\n%s\n", o.repo, rep.text)
		}
		fmt.Fprintf(&b, "\nfailed obligations:\n")
		for _, f := range bad {
			fmt.Fprintf(&b, "  %s at %s: %s\n      %s\n", f.Name, f.Pos, f.Result, clip(f.Goal, 2000))
		}
		if rep != nil && !rep.found {
			fmt.Fprintf(&b, "\nreplay: %s\n", rep.text)
		}
		os.WriteFile(replayFile, []byte(b.String()), 0o644)
		for i, f := range bad {
			if i == 12 {
				fmt.Printf("  ... %d more\n", len(bad)-i)
				break
			}
			fmt.Printf("failed obligation %s at %s: %s\n", f.Name, f.Pos, clip(f.Result, 300))
		}
		if rep != nil && rep.found {
			fmt.Print(rep.text)
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, replayFile)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", o.prop, replayFile)
		}
	}
	writeEvidence(o, eng, out, s, bad, rep, nobl, nok, time.Since(t0))
	if rc == 0 {
		n := 0
		if out != nil {
			n = len(out.units)
		}
		fmt.Printf("ok property=%s functions=%d obligations=%d discharged=%d wall=%.1fs\n", o.prop, n, nobl, nok, time.Since(t0).Seconds())
	}
	if o.verbose && out != nil {
		report(out.units, true)
	}
	return rc
}

// vacuity makes sure that what is assumed on entry of a function does not
// exclude everything.
func (r *runner) vacuity(o *outcome) []*failure {
	var fails []*failure
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, u := range o.units {
		if u.vc == nil || u.err != "" || u.vc.entryNode == nil {
			continue
		}
		wg.Add(1)
		go func(u *unit) {
			defer wg.Done()
			v := u.vc
			r.e.mu.Lock()
			q := v.query(v.entryNode, v.entrySeq, "true", "false")
			var rq []string
			for _, n := range v.retNodes {
				rq = append(rq, v.query(n, len(v.items), n.guard, "false"))
			}
			r.e.mu.Unlock()
			if len(rq) > 6 {
				rq = rq[:6]
			}
			o.mu.Lock()
			o.covers++
			o.mu.Unlock()
			bad := ""
			if r.s.run(backends[0], q, time.Second) == "unsat" {
				bad = "the assumptions on entry are contradictory"
			} else if len(rq) > 0 {
				all := true
				for _, x := range rq {
					if r.s.run(backends[0], x, time.Second) != "unsat" {
						all = false
						break
					}
				}
				if all {
					bad = "no return of the function can be reached"
				}
			}
			if bad == "" {
				seen := map[string]int{}
				for _, p := range v.probes {
					if seen[p.name]++; seen[p.name] > r.probes {
						continue
					}
					r.e.mu.Lock()
					q1 := v.query(p.n1, p.seq1, p.n1.guard, "false")
					q0 := v.query(p.n0, p.seq0, p.n0.guard, "false")
					r.e.mu.Unlock()
					if r.s.run(backends[0], q1, time.Second) == "unsat" && r.s.run(backends[0], q0, time.Second) != "unsat" {
						bad = "the contract of " + p.name + " excludes every outcome of a call"
						rq = []string{q1}
						break
					}
				}
			}
			if bad != "" && os.Getenv("GOCV_KEEP") != "" {
				for i, x := range append([]string{q}, rq...) {
					os.WriteFile(fmt.Sprintf("/tmp/gocvq/vac_%d.smt2", i), []byte(x), 0644)
				}
			}
			if bad != "" {
				mu.Lock()
				fails = append(fails, &failure{Name: u.key + "/vacuity", Kind: "vacuous", Result: bad})
				mu.Unlock()
			}
		}(u)
	}
	wg.Wait()
	sort.Slice(fails, func(i, j int) bool { return fails[i].Name < fails[j].Name })
	return fails
}

type replayResult struct {
	found bool
	text  string
	cases int64
}

// replay looks for an input on which the real code breaks the property.
func replay(o checkOpts, secs int) *replayResult {
	dir, err := os.MkdirTemp("", "gocv-replay-")
	if err != nil {
		return &replayResult{text: err.Error()}
	}
	defer os.RemoveAll(dir)
	src := filepath.Join(o.verif, "replay")
	fs, _ := filepath.Glob(filepath.Join(src, "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return &replayResult{text: err.Error()}
		}
		os.WriteFile(filepath.Join(dir, filepath.Base(f)), b, 0o644)
	}
	abs, _ := filepath.Abs(o.repo)
	mod := "module replay\n\ngo 1.22.4\n\nrequire github.com/jschaf/bibtex v0.0.0\nrequire github.com/google/go-cmp v0.6.0 // indirect\n\nreplace github.com/jschaf/bibtex => " + abs + "\n"
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte(mod), 0o644)
	if b, err := os.ReadFile(filepath.Join(abs, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(dir, "go.sum"), b, 0o644)
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	bin := filepath.Join(dir, "replay.bin")
	ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "go", "build", "-o", bin, ".")
	c.Dir = dir
	c.Env = env
	if b, err := c.CombinedOutput(); err != nil {
		return &replayResult{text: "the replay program does not build: " + string(b)}
	}
	ctx2, cancel2 := context.WithTimeout(context.Background(), time.Duration(secs+60)*time.Second)
	defer cancel2()
	c = exec.CommandContext(ctx2, bin, "-prop", o.prop, "-seed", fmt.Sprint(o.seed), "-secs", fmt.Sprint(secs))
	c.Dir = dir
	b, err := c.CombinedOutput()
	r := &replayResult{text: string(b)}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
		r.found = true
	}
	for _, l := range strings.Split(string(b), "\n") {
		fmt.Sscanf(l, "cases %d", &r.cases)
	}
	return r
}

func writeEvidence(o checkOpts, e *Engine, out *outcome, s *Solver, bad []*failure, rep *replayResult, nobl, nok int, wall time.Duration) {
	type fn struct {
		Name        string         `json:"name"`
		Obligations int            `json:"obligations"`
		Discharged  int            `json:"discharged"`
		Backends    map[string]int `json:"backends,omitempty"`
		Note        string         `json:"note,omitempty"`
	}
	cov := map[string]interface{}{
		"obligations": nobl,
		"discharged":  nok,
		"checker_cmd": fmt.Sprintf("bash /verif/check.sh %s %s", o.prop, o.tier),
		"trusted_base": []string{
			"gocv, the verification condition generator in /verif/gocv (go/ssa form of /repo's source to SMT-LIB)",
			"golang.org/x/tools/go/ssa and go/types for the SSA form", "the Go compiler",
			"z3 5.3.2, z3 4.8.12 and cvc5 1.1.2 (an obligation counts when one of them answers unsat)",
			"assumed contracts of functions outside /repo, listed under assumptions",
		},
	}
	var assumptions []string
	assumptions = append(assumptions, "int is treated as a mathematical integer; conversions to smaller types are modelled exactly where they occur",
		"single-threaded execution; no unsafe code and no reflection in /repo",
		"byte slices are not modified while the code under contract holds them")
	if out != nil {
		var fs []fn
		back := map[string]int{}
		for _, u := range out.units {
			fs = append(fs, fn{u.key, u.n, u.ok, u.byBack, u.err})
			for k, n := range u.byBack {
				back[k] += n
			}
		}
		cov["functions"] = fs
		cov["functions_verified"] = len(fs)
		cov["lemmas"] = out.lemmas
		cov["by_backend"] = back
		cov["cover_checks"] = out.covers
		var un []string
		for k := range out.uncontracted {
			un = append(un, k)
		}
		sort.Strings(un)
		cov["inlined_helpers_off_contract"] = un
		for _, a := range out.assumed {
			assumptions = append(assumptions, a)
		}
	}
	if e != nil {
		p := e.Spec.Props[o.prop]
		if p != nil {
			for _, a := range e.Spec.Axioms {
				if !a.Lemma && activeFor(p, a.Tags) {
					assumptions = append(assumptions, "axiom (definition) "+clip(a.Src, 300))
				}
			}
			var ks []string
			for k := range e.Spec.Contracts {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				c := e.Spec.Contracts[k]
				for _, cl := range c.Assumes {
					if activeFor(p, cl.Tags) {
						assumptions = append(assumptions, "ghost definition at exit of "+k+": "+clip(cl.Src, 200))
					}
				}
				for _, cl := range c.EntryAs {
					if activeFor(p, cl.Tags) {
						assumptions = append(assumptions, "ghost definition at entry of "+k+": "+clip(cl.Src, 200))
					}
				}
			}
			for _, n := range p.Notes {
				assumptions = append(assumptions, n)
			}
		}
	}
	st := map[string]float64{}
	s.mu.Lock()
	for k, d := range s.Time {
		st[k] = float64(int(d.Seconds()*100)) / 100
	}
	cov["solver_s"] = st
	cov["solver_queries"] = s.Count
	s.mu.Unlock()
	if rep != nil {
		cov["replay_cases"] = rep.cases
	}
	ev := map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "proof",
		"coverage": cov, "wall_s": float64(int(wall.Seconds()*100)) / 100,
		"assumptions": assumptions, "violations": len(bad),
	}
	var names []string
	for _, f := range bad {
		names = append(names, f.Name)
	}
	if len(names) > 0 {
		cov["failed_obligations"] = names
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(o.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, o.prop+".json"), append(b, '\n'), 0o644)
}
