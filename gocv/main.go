package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository under verification")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "verify only this function")
	ssaf := flag.String("ssa", "", "print the SSA form of a function")
	locals := flag.Bool("locals", false, "print the locals of the functions that have loop invariants")
	eff := flag.String("eff", "", "print the inferred effects of a function")
	tmo := flag.Int("timeout", 10, "solver timeout in seconds")
	vb := flag.Bool("v", false, "verbose")
	check := flag.Bool("check", false, "decide -prop and report")
	verif := flag.String("verif", "/verif", "directory of the framework")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "seed")
	flag.Parse()
	if *check {
		os.Exit(runCheck(checkOpts{*repo, *verif, *prop, *tier, *seed, *tmo, *vb}))
	}
	w, err := Load(*repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if *ssaf != "" {
		w.Funcs[*ssaf].WriteTo(os.Stdout)
		return
	}
	sp, err := LoadSpecs(*dir)
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(2)
	}
	if *locals {
		for _, k := range sortedKeys(w.Funcs) {
			if c := sp.Contracts[k]; c != nil && len(c.Invs)+len(c.Decreases) > 0 {
				for _, l := range localNames(w.Funcs[k]) {
					fmt.Printf("%s\t%s\t%s\n", k, l[0], l[1])
				}
			}
		}
		return
	}
	e := NewEngine(w, sp, sp.Props[*prop])
	if *eff != "" {
		fmt.Print(e.Eff.of(w.Funcs[*eff]))
		return
	}
	p := sp.Props[*prop]
	if p == nil {
		fmt.Println("no such property")
		os.Exit(2)
	}
	s := newSolver(time.Duration(*tmo) * time.Second)
	r := &runner{e: e, p: p, s: s}
	if *only != "" {
		r.roots = map[string]bool{}
		var as *Contract
		if f, t, ok := strings.Cut(*only, " as "); ok {
			*only = f
			if as = sp.Contracts["functype "+t]; as == nil {
				as = sp.Contracts["iface "+t]
			}
		}
		fn := w.Funcs[*only]
		r.noPool = os.Getenv("GOCV_POOL") == ""
		u := r.verify(fn, e.contractOf(fn), as)
		report([]*unit{u}, true)
		return
	}
	o := r.run()
	report(o.units, *vb)
	for _, f := range o.fails {
		fmt.Printf("FAIL %s at %s: %s\n     %s\n", f.Name, f.Pos, f.Result, clip(f.Goal, 300))
	}
	fmt.Printf("wall %v assumed %s\n", o.wall, strings.Join(o.assumed, ", "))
}

func report(us []*unit, vb bool) {
	n, ok := 0, 0
	for _, u := range us {
		n += u.n
		ok += u.ok
		if vb {
			fmt.Printf("%-50s %d/%d %s\n", u.key, u.ok, u.n, u.err)
			for _, f := range u.fails {
				fmt.Printf("   FAIL %s at %s: %s\n        %s\n", f.Name, f.Pos, f.Result, clip(f.Goal, 400))
			}
		}
	}
	fmt.Printf("%d functions, %d/%d obligations\n", len(us), ok, n)
}
