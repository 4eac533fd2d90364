package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// verification of one function

type config struct {
	pool    bool
	loopTry map[string]bool // candidate invariants that were refuted
	off     map[string]bool // contracts not used: the functions are inlined
}

func newVC(e *Engine, fn *ssa.Function, ct *Contract, p *Property, s *Solver, cf *config) *VC {
	v := &VC{e: e, fn: fn, ct: ct, prop: p, solver: s, cf: cf, pool: cf.pool, loopTry: cf.loopTry,
		initial: map[string]string{}, hist: map[string]*hrec{}, allocSeq: map[string]int{}, oldRef: map[string]int{},
		closures: map[string]*closure{}, facts: map[string][]int{}, lits: map[string]string{}, names: map[string]int{},
		assumed: map[string]bool{}, callees: map[string]bool{}, decl: map[string]bool{}, boxes: map[string]bool{}, entry: state{}}
	if v.loopTry == nil {
		v.loopTry = map[string]bool{}
	}
	v.rtUsed = len(v.heapInvs()) > 0
	return v
}

func (v *VC) key() string {
	if v.rel != "" {
		return "relation." + v.rel
	}
	if v.fn == nil {
		return "lemma"
	}
	return v.e.W.Key(v.fn)
}

// addAxioms translates the active axioms and lemmas that come before stop.
func (v *VC) addAxioms(c *cursor, stop *Axiom) {
	for _, a := range v.e.Spec.Axioms {
		if a == stop {
			break
		}
		if !v.active(a.Tags) {
			continue
		}
		st := v.entry
		// the axiom holds whatever the heap that its functions read
		reads := map[string]bool{}
		v.e.readsOf(a.E, reads, map[string]bool{})
		var binders string
		if len(reads) > 0 {
			st = state{}
			for k, t := range v.entry {
				st[k] = t
			}
			for _, l := range sortedKeys(reads) {
				n := v.fresh("q_h")
				st[l] = n
				binders += fmt.Sprintf("(%s %s) ", n, v.e.sortOfLoc(l))
			}
		}
		en := &env{v: v, cur: c, st: st, vars: map[string]sval{}, noDef: true}
		en.old = en
		t, ok := v.tryTr(en, a.E)
		if !ok {
			unsup("axiom %s", a.Name)
		}
		if binders != "" {
			if !strings.HasPrefix(t, "(forall (") {
				unsup("axiom %s reads the heap but has no quantifier", a.Name)
			}
			t = "(forall (" + binders + strings.TrimPrefix(t, "(forall (")
		}
		var syms []string
		for _, s := range symbols(t) {
			if strings.HasPrefix(s, "F_") {
				syms = append(syms, s)
			}
		}
		v.axText = append(v.axText, axText{text: t, syms: syms})
		kind := "axiom"
		if a.Lemma {
			kind = "lemma"
		}
		if kind == "axiom" {
			v.axNames = append(v.axNames, a.Name)
		} else {
			v.axNames = append(v.axNames, "")
		}
	}
}

// splitGoal takes a goal apart: conjunctions, and universal quantifiers and
// implications in front of them.
func (v *VC) splitGoal(g string) []string {
	switch {
	case strings.HasPrefix(g, "(and "):
		var out []string
		for _, a := range splitArgs(g)[1:] {
			out = append(out, v.splitGoal(a)...)
		}
		return out
	case strings.HasPrefix(g, "(forall "):
		p := splitArgs(g)
		body := p[2]
		if strings.HasPrefix(body, "(! ") {
			body = splitArgs(body)[1]
		}
		for _, b := range splitList(p[1]) {
			q := splitArgs(b)
			n := v.newConst("sk_"+strings.TrimPrefix(strings.Split(q[0], "!")[0], "q_"), q[1])
			body = replaceSym(body, q[0], n)
		}
		return v.splitGoal(body)
	case strings.HasPrefix(g, "(=> "):
		p := splitArgs(g)
		var out []string
		for _, r := range v.splitGoal(p[2]) {
			out = append(out, fmt.Sprintf("(=> %s %s)", p[1], r))
		}
		return out
	}
	return []string{g}
}

func splitList(s string) []string { return splitArgs(s) }

// replaceSym replaces whole symbols.
func replaceSym(t, from, to string) string {
	var b strings.Builder
	for {
		i := strings.Index(t, from)
		if i < 0 {
			b.WriteString(t)
			return b.String()
		}
		end := i + len(from)
		okL := i == 0 || t[i-1] == ' ' || t[i-1] == '('
		okR := end == len(t) || t[end] == ' ' || t[end] == ')'
		b.WriteString(t[:i])
		if okL && okR {
			b.WriteString(to)
		} else {
			b.WriteString(from)
		}
		t = t[end:]
	}
}

type unit struct {
	key    string
	vc     *VC
	err    string
	fails  []*failure
	n      int
	ok     int
	byBack map[string]int
	vac    bool
}

type failure struct {
	Name   string
	Kind   string
	Pos    string
	Goal   string
	Result string
	Auto   bool
	extra  []string
}

// build generates the obligations of one function.
func (e *Engine) build(fn *ssa.Function, ct *Contract, self *Contract, p *Property, s *Solver, cf *config) (v *VC, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s (near %s)", u.msg, v.curPos)
				return
			}
			if m, ok := r.(missingName); ok {
				err = fmt.Errorf("the contract mentions %s, which the code no longer has", m.name)
				return
			}
			if os.Getenv("GOCV_PANIC") != "" {
				panic(r)
			}
			err = fmt.Errorf("internal: %v (near %s)", r, v.curPos)
		}
	}()
	spec := ct
	if self != nil {
		spec = self
	}
	v = newVC(e, fn, spec, p, s, cf)
	root := v.newNode(nil)
	c := &cursor{root, state{}}
	v.assume(root, fmt.Sprintf("(<= 1 %s)", v.initialOf("brk")))
	c.st["brk"] = v.initialOf("brk")
	fr := v.newFrame(fn, nil)
	fr.top = true
	fr.ct = ct
	var args []val
	for i, pa := range fn.Params {
		t := v.newConst("p_"+sani(pa.Name()), e.Reg.sortOf(pa.Type()))
		v.typeFacts(c, t, pa.Type())
		x := val{t: t, typ: pa.Type()}
		fr.regs[pa] = x
		args = append(args, x)
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := ptrElem(pa.Type()); ok {
				v.assume(root, fmt.Sprintf("(not (= %s 0))", t))
			}
		}
	}
	for _, fv := range fn.FreeVars {
		t := v.newConst("fv_"+sani(fv.Name()), e.Reg.sortOf(fv.Type()))
		v.typeFacts(c, t, fv.Type())
		v.assume(root, fmt.Sprintf("(not (= %s 0))", t))
		x := val{t: t, typ: fv.Type()}
		if el, ok := ptrElem(fv.Type()); ok && !isStruct(el) {
			x.addr = &addr{kind: 'H', loc: e.cellLoc(el), ref: t, typ: el}
		}
		fr.regs[fv] = x
		fr.free = append(fr.free, x)
	}
	v.entry = c.st.clone()
	fr.entry = v.entry
	v.addAxioms(c, nil)
	en := v.paramEnv(spec, fn, args, nil, c, v.entry)
	en.old = en
	for _, fv := range fn.FreeVars { // captured variables, as they are at entry
		x := fr.regs[fv]
		if _, ok := en.vars[fv.Name()]; !ok && x.addr != nil && x.addr.kind == 'H' {
			en.vars[fv.Name()] = sval{t: v.selectH(v.get(v.entry, x.addr.loc), x.addr.ref), sort: e.Reg.sortOf(x.addr.typ), typ: x.addr.typ}
		}
	}
	if self != nil && self.Kind == "iface" {
		// a method called through an interface
		rt := fn.Signature.Recv().Type()
		k := strings.LastIndex(self.Key, ".")
		it := e.resolveType(self.Key[:k])
		en.vars[self.Params[0]] = sval{t: fmt.Sprintf("(mkI %d %s)", e.Reg.typeTag(rt), v.box(args[0].t, rt, c)), sort: "Iface", typ: it}
		v.frameOf(c, fn, self)
	} else if self != nil {
		v.frameOf(c, fn, self)
		// a function value: its identity is tied to what it captured
		sv := v.newConst("self", "Int")
		en.vars["self"] = sval{t: sv, sort: "Int", typ: nil}
		v.assume(root, fmt.Sprintf("(and (< 0 %s) (= (fencl %s) %d))", sv, sv, e.fnNo(enclosing(fn))))
		cl := &closure{fn: fn, binds: fr.free}
		v.closureFacts(fr, c, cl, val{t: sv})
	}
	v.entryEnv = en
	if spec != nil {
		for _, r := range append(append([]*Clause{}, spec.Requires...), spec.EntryAs...) {
			if !v.active(r.Tags) {
				continue
			}
			if t, ok := v.tryTr(en, r.E); ok {
				v.assume(root, t)
			}
		}
	}
	v.assumeHeap(c)
	v.entryNode = root
	v.entrySeq = len(v.items)
	v.run(fr, c)
	bad := v.afterDefers(fr)
	for _, x := range bad {
		xc := v.merge([]edge{x})
		xc.st = xc.st.clone()
		if spec != nil && spec.Bailout {
			xen := en.with(nil)
			xen.cur, xen.st, xen.old = xc, xc.st, en
			for _, cl := range spec.Exsures {
				if !v.active(cl.Tags) {
					continue
				}
				if t, ok := v.tryTr(xen, cl.E); ok {
					for _, g := range v.splitGoal(t) {
						v.assert(xc, fmt.Sprintf("exsures.%d", cl.Idx), g)
					}
				}
			}
			v.checkHeap(xc, "bailout")
			continue
		}
		v.assert(xc, "escaping-panic", "false")
	}
	for _, r := range fr.rets {
		rc := v.merge([]edge{r})
		rc.st = rc.st.clone()
		ren := en.with(nil)
		ren.cur, ren.st, ren.old = rc, rc.st, en
		ren = v.addResults(ren, spec, r.vals)
		ren.st = rc.st
		if spec != nil {
			if self == nil {
				for _, g := range spec.Ghost {
					if v.active(g.Tags) {
						v.ghostAssign(rc, ren, g)
					}
				}
			}
			if self != nil {
				// ghost variables the call changes but the body does not
				own := e.Eff.of(fn).locs
				for _, l := range self.effects(v.prop) {
					if strings.HasPrefix(l, "GV|") && own[l] == nil && v.defines(spec, l[3:]) {
						rc.st[l] = v.newConst("gv", e.sortOfLoc(l))
					}
				}
			}
			for _, cl := range spec.Assumes {
				if v.active(cl.Tags) {
					if t, ok := v.tryTr(ren, cl.E); ok {
						v.assume(rc.n, t)
					}
				}
			}
			for _, cl := range spec.Asserts {
				if !v.active(cl.Tags) {
					continue
				}
				if t, ok := v.tryTr(ren, cl.E); ok {
					for _, g := range v.splitGoal(t) {
						v.assert(rc, fmt.Sprintf("hint.%d", cl.Idx), g)
					}
					v.assume(rc.n, t)
				}
			}
			for _, cl := range spec.Ensures {
				if !v.active(cl.Tags) {
					continue
				}
				if t, ok := v.tryTr(ren, cl.E); ok {
					for _, g := range v.splitGoal(t) {
						v.assert(rc, fmt.Sprintf("ensures.%d", cl.Idx), g)
					}
				} else {
					v.assert(rc, fmt.Sprintf("ensures.%d", cl.Idx), "false")
				}
			}
		}
		v.checkHeap(rc, "exit")
		v.retNodes = append(v.retNodes, rc.n)
	}
	return v, nil
}

func (v *VC) ghostAssign(c *cursor, en *env, g *GhostUpd) {
	x := en.tr(g.Val)
	t := g.Target
	switch t.Op {
	case "id":
		c.st["GV|"+t.Name] = x.t
	case "index":
		k := en.tr(t.Args[1])
		kt := k.t
		if k.sort == "Iface" {
			kt = ivalOf(kt)
		}
		v.storeH(c, "GM|"+t.Args[0].Name, kt, x.t)
	case "field":
		b := en.tr(t.Args[0])
		ty := b.typ
		if p, ok := ptrElem(ty); ok {
			ty = p
		}
		v.storeH(c, "F|"+tname(ty)+"|"+t.Name, b.t, x.t)
	default:
		unsup("ghost target %s", g.Src)
	}
}

// check discharges all obligations of a unit.
func (s *Solver) check(v *VC, u *unit) {
	type res struct {
		o *obl
		r verdict
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	u.byBack = map[string]int{}
	var all []res
	for _, o := range v.obls {
		wg.Add(1)
		go func(o *obl) {
			defer wg.Done()
			r := s.prove(v, o, len(o.extra) > 0)
			if !r.ok && len(o.extra) == 0 {
				s.failed()
			}
			mu.Lock()
			all = append(all, res{o, r})
			mu.Unlock()
		}(o)
	}
	wg.Wait()
	sort.Slice(all, func(i, j int) bool { return all[i].o.name < all[j].o.name })
	for _, x := range all {
		u.n++
		if x.r.ok {
			u.ok++
			u.byBack[x.r.backend]++
			if x.r.ms > 5000 && os.Getenv("GOCV_SLOW") != "" {
				fmt.Printf("slow %s %dms %s\n", x.o.name, x.r.ms, x.r.backend)
				os.MkdirAll("/tmp/gocvq", 0o755)
				os.WriteFile(filepath.Join("/tmp/gocvq", sani(x.o.name)+".smt2"), []byte(v.query(v.nodes[x.o.node], x.o.seq, x.o.guard, x.o.goal)), 0o644)
			}
			continue
		}
		if os.Getenv("GOCV_KEEP") != "" {
			os.MkdirAll("/tmp/gocvq", 0o755)
			v.e.mu.Lock()
			q := v.query(v.nodes[x.o.node], x.o.seq, x.o.guard, x.o.goal)
			v.e.mu.Unlock()
			os.WriteFile(filepath.Join("/tmp/gocvq", sani(x.o.name)+".smt2"), []byte(q), 0o644)
		}
		u.fails = append(u.fails, &failure{Name: x.o.name, Kind: x.o.kind, Pos: x.o.pos, Goal: x.o.goal, Result: x.r.result, extra: x.o.extra})
	}
}

// verify runs one function, inferring loop invariants if the stated ones do
// not fit.
func (r *runner) verify(fn *ssa.Function, ct, self *Contract) *unit {
	key := r.e.W.Key(fn)
	if self != nil {
		key += " as " + self.Key
	}
	u := r.once(fn, ct, self, key, &config{off: r.off})
	if u.err == "" && len(u.fails) == 0 {
		return u
	}
	if u.err == "" && u.vc.hasLoops && !r.noPool {
		// Houdini over the clauses of the contract as loop invariants
		try := map[string]bool{}
		for round := 0; round < 6 && !r.s.over(); round++ {
			w := r.once(fn, ct, self, key, &config{off: r.off, pool: true, loopTry: try})
			if w.err != "" {
				break
			}
			n := 0
			var real []*failure
			for _, f := range w.fails {
				if len(f.extra) == 0 {
					real = append(real, f)
				}
				for _, x := range f.extra {
					if !try[x] {
						if os.Getenv("GOCV_HOUDINI") != "" {
							fmt.Println("    drop", x, f.Name, f.Result)
						}
						try[x] = true
						n++
					}
				}
			}
			if os.Getenv("GOCV_HOUDINI") != "" {
				fmt.Printf("%s: round %d, %d candidates dropped, %d other failures\n", key, round, n, len(real))
				for _, f := range real {
					fmt.Println("   ", f.Name, f.Pos, clip(f.Goal, 150))
				}
			}
			if n == 0 {
				if len(real) == 0 {
					return w
				}
				break
			}
		}
	}
	return u
}

func (r *runner) once(fn *ssa.Function, ct, self *Contract, key string, cf *config) *unit {
	u := &unit{key: key}
	r.e.mu.Lock()
	v, err := r.e.build(fn, ct, self, r.p, r.s, cf)
	r.e.mu.Unlock()
	u.vc = v
	if err != nil {
		u.err = err.Error()
		return u
	}
	r.s.check(v, u)
	return u
}

// ---------------------------------------------------------------------------
// one property

type runner struct {
	e      *Engine
	p      *Property
	s      *Solver
	off    map[string]bool
	noPool bool
	units  map[string]*unit
	order  []string
	roots  map[string]bool
	probes int // calls of one function looked at by the vacuity check
}

func (r *runner) rootFuncs() ([]*ssa.Function, []string) {
	var out []*ssa.Function
	var missing []string
	for _, k := range r.p.Roots {
		if strings.HasSuffix(k, "*") {
			for _, f := range r.e.W.All {
				if strings.HasPrefix(r.e.W.Key(f), strings.TrimSuffix(k, "*")) && f.Parent() == nil && f.Synthetic == "" {
					out = append(out, f)
				}
			}
			continue
		}
		f := r.e.W.Funcs[k]
		if f == nil {
			missing = append(missing, k)
			continue
		}
		out = append(out, f)
	}
	return out, missing
}

type outcome struct {
	units        []*unit
	fails        []*failure
	lemmas       int
	assumed      []string
	wall         time.Duration
	mu           sync.Mutex
	covers       int
	uncontracted map[string]bool
}

func (r *runner) run() *outcome {
	t0 := time.Now()
	var o *outcome
	r.off = map[string]bool{}
	var first *outcome
	for round := 0; round < 3 && (round == 0 || !r.s.over()); round++ {
		o = r.pass()
		if len(o.fails) == 0 {
			break
		}
		if first == nil {
			first = o
		}
		// retry without the contracts of helpers that do not fit any more
		changed := false
		for _, f := range o.fails {
			var cand []string
			k := strings.SplitN(f.Name, "/", 2)[0]
			cand = append(cand, k)
			if strings.HasPrefix(f.Kind, "call:") {
				cand = append(cand, strings.SplitN(strings.TrimPrefix(f.Kind, "call:"), "/", 2)[0])
			}
			for _, k := range cand {
				fn := r.e.W.Funcs[k]
				if fn != nil && !r.roots[k] && !r.e.recursive(fn) && !r.off[k] && r.e.Spec.Contracts[k] != nil {
					r.off[k] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	if len(o.fails) > 0 && first != nil {
		o = first
	}
	o.wall = time.Since(t0)
	o.uncontracted = r.off
	return o
}

func (r *runner) pass() *outcome {
	o := &outcome{}
	r.units = map[string]*unit{}
	r.roots = map[string]bool{}
	assumed := map[string]bool{}
	roots, missing := r.rootFuncs()
	for _, m := range missing {
		o.fails = append(o.fails, &failure{Name: m + "/missing", Kind: "missing", Result: "the function is gone"})
	}
	r.lemmas(o)
	r.relations(o)
	type job struct {
		fn   *ssa.Function
		ct   *Contract
		self *Contract
	}
	seen := map[string]bool{}
	var todo []job
	add := func(fn *ssa.Function) {
		k := r.e.W.Key(fn)
		if !seen[k] {
			seen[k] = true
			todo = append(todo, job{fn, r.e.contractOf(fn), nil})
		}
	}
	for _, f := range roots {
		r.roots[r.e.W.Key(f)] = true
		add(f)
	}
	// function literals and functions used where a function type has a contract
	for k, ct := range r.e.Spec.Contracts {
		if ct.Kind != "functype" || !contractApplies(r.p, ct) || len(ct.Ensures) == 0 {
			continue
		}
		_ = k
		only := activeLocs(r.p, ct.Only)
		t := r.e.resolveType(ct.Key)
		sig := under(t).(*types.Signature)
		for _, f := range r.e.W.All {
			if len(only) > 0 && !slices.Contains(only, r.e.W.Key(enclosing(f))) {
				continue
			}
			if (f.Parent() != nil || r.e.valueFuncs()[f]) && types.Identical(dropRecv(f.Signature), sig) {
				kk := r.e.W.Key(f) + " as " + ct.Key
				if !seen[kk] {
					seen[kk] = true
					todo = append(todo, job{f, r.e.contractOf(f), ct})
				}
			}
		}
	}
	// methods that implement an interface method with a contract
	for _, k := range sortedKeys(r.e.Spec.Contracts) {
		ct := r.e.Spec.Contracts[k]
		if ct.Kind != "iface" || !contractApplies(r.p, ct) {
			continue
		}
		dot := strings.LastIndex(ct.Key, ".")
		it, ok := under(r.e.resolveType(ct.Key[:dot])).(*types.Interface)
		if !ok {
			continue
		}
		for _, f := range r.e.W.All {
			if f.Parent() != nil || f.Signature.Recv() == nil || f.Name() != ct.Key[dot+1:] || f.Synthetic != "" {
				continue
			}
			if types.Implements(f.Signature.Recv().Type(), it) {
				kk := r.e.W.Key(f) + " as " + ct.Key
				if !seen[kk] {
					seen[kk] = true
					todo = append(todo, job{f, r.e.contractOf(f), ct})
				}
			}
		}
	}
	for len(todo) > 0 {
		batch := todo
		todo = nil
		us := make([]*unit, len(batch))
		var wg sync.WaitGroup
		sem := make(chan bool, 4)
		var mu sync.Mutex
		for i, j := range batch {
			wg.Add(1)
			go func(i int, j job) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				us[i] = r.verify(j.fn, j.ct, j.self)
				mu.Lock()
				mu.Unlock()
			}(i, j)
		}
		wg.Wait()
		for i, u := range us {
			o.units = append(o.units, u)
			if u.err != "" {
				o.fails = append(o.fails, &failure{Name: u.key + "/unsupported", Kind: "unsupported", Result: u.err})
			}
			for _, f := range u.fails {
				if len(f.extra) == 0 {
					o.fails = append(o.fails, f)
				}
			}
			if u.vc == nil {
				continue
			}
			for a := range u.vc.assumed {
				assumed[a] = true
			}
			_ = i
			for _, k := range sortedKeys(u.vc.callees) {
				f := r.e.W.Funcs[k]
				if f != nil && slices.Contains(r.p.Stop, k) && r.e.contractOf(f) != nil {
					assumed["contract of "+k+", proved by another property's check"] = true
				} else if f != nil {
					add(f)
				}
			}
		}
	}
	sort.Slice(o.units, func(i, j int) bool { return o.units[i].key < o.units[j].key })
	sort.Slice(o.fails, func(i, j int) bool { return o.fails[i].Name < o.fails[j].Name })
	o.assumed = sortedKeys(assumed)
	return o
}

// valueFuncs are the declared functions that are used as values.
func (e *Engine) valueFuncs() map[*ssa.Function]bool {
	if e.valFns == nil {
		e.valFns = map[*ssa.Function]bool{}
		for _, f := range e.W.All {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var callee ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok {
						callee = c.Common().Value
					}
					for _, o := range in.Operands(nil) {
						if g, ok := (*o).(*ssa.Function); ok && (*o != callee || slices.Contains(callArgs(in), *o)) {
							e.valFns[g] = true
						}
					}
				}
			}
		}
	}
	return e.valFns
}

func callArgs(in ssa.Instruction) []ssa.Value {
	if c, ok := in.(ssa.CallInstruction); ok {
		return c.Common().Args
	}
	return nil
}

// frameOf checks that a function stays within the effects its contract as a
// function value or interface method declares.
func (v *VC) frameOf(c *cursor, fn *ssa.Function, ct *Contract) {
	s := v.e.Eff.of(fn)
	if s.all {
		v.assert(c, "frame", "false")
	}
	decl := map[string][]string{}
	for _, l := range ct.effects(v.prop) {
		at := ""
		if k := strings.Index(l, "@"); k >= 0 {
			l, at = l[:k], l[k+1:]
		}
		decl[l] = append(decl[l], at)
	}
	for _, loc := range sortedKeys(s.locs) {
		if strings.HasPrefix(loc, "L|") {
			continue
		}
		for r := range s.locs[loc] {
			ok := r.kind == "alloc"
			for _, at := range decl[loc] {
				ok = ok || at == "" || r.kind == "param" && r.n < len(ct.Params) && ct.Params[r.n] == at
			}
			if !ok {
				v.assert(c, "frame:"+loc, "false")
			}
		}
	}
}

func dropRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (e *Engine) contractOf(fn *ssa.Function) *Contract {
	ct := e.Spec.Contracts[e.W.Key(fn)]
	if ct == nil {
		return nil
	}
	if len(ct.Params) > 0 && len(ct.Params) != len(fn.Params) || len(ct.Results) > 0 && len(ct.Results) != fn.Signature.Results().Len() {
		return nil // the function was given another shape
	}
	return ct
}

// relations proves the clauses that relate several calls of functions of the
// code, by symbolic execution of each call.
func (r *runner) relations(o *outcome) {
	for _, k := range sortedContracts(r.e.Spec.Contracts) {
		ct := r.e.Spec.Contracts[k]
		if ct.Kind != "relation" || !activeFor(r.p, ct.Tags) {
			continue
		}
		u := &unit{key: "relation." + ct.Key}
		r.e.mu.Lock()
		v, err := r.e.buildRelation(ct, r.p, r.s)
		r.e.mu.Unlock()
		u.vc = v
		if err != nil {
			u.err = err.Error()
			o.fails = append(o.fails, &failure{Name: u.key, Kind: "unsupported", Result: u.err})
		} else {
			r.s.check(v, u)
		}
		o.fails = append(o.fails, u.fails...)
		o.units = append(o.units, u)
	}
}

func sortedContracts(m map[string]*Contract) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (e *Engine) buildRelation(ct *Contract, p *Property, s *Solver) (v *VC, err error) {
	defer func() {
		if x := recover(); x != nil {
			switch u := x.(type) {
			case unsupported:
				err = fmt.Errorf("%s (near %s)", u.msg, v.curPos)
			case missingName:
				err = fmt.Errorf("the relation mentions %s, which the code no longer has", u.name)
			default:
				err = fmt.Errorf("internal: %v", x)
			}
		}
	}()
	v = newVC(e, nil, nil, p, s, &config{})
	v.rel = ct.Key
	root := v.newNode(nil)
	c := &cursor{root, state{}}
	v.assume(root, fmt.Sprintf("(<= 1 %s)", v.initialOf("brk")))
	c.st["brk"] = v.initialOf("brk")
	v.entry = c.st.clone()
	v.addAxioms(c, nil)
	en := &env{v: v, cur: c, st: v.entry, vars: map[string]sval{}}
	en.old = en
	for _, q := range ct.Vars {
		so, ty := e.specSort(q.Typ), e.specType(q.Typ)
		t := v.newConst("p_"+q.Name, so)
		if ty != nil {
			v.typeFacts(c, t, ty)
		}
		en.vars[q.Name] = sval{t: t, sort: so, typ: ty}
	}
	for _, q := range ct.Requires {
		v.assume(root, en.tr(q.E).t)
	}
	v.entryNode, v.entrySeq = root, len(v.items)
	for _, rc := range ct.Calls {
		fn := e.W.Funcs[rc.Func]
		if fn == nil {
			unsup("no function %s", rc.Func)
		}
		fr := v.newFrame(fn, nil)
		cen := en.with(nil)
		cen.cur, cen.st = c, c.st
		var args []val
		if len(rc.Args) != len(fn.Params) {
			unsup("%s takes %d arguments", rc.Func, len(fn.Params))
		}
		for i, a := range rc.Args {
			x := cen.tr(a)
			args = append(args, val{t: x.t, typ: fn.Params[i].Type()})
		}
		for i, pa := range fn.Params {
			fr.regs[pa] = args[i]
		}
		fr.entry = c.st.clone()
		v.run(fr, &cursor{c.n, c.st})
		v.afterDefers(fr)
		if len(fr.rets) == 0 {
			unsup("%s does not return", rc.Func)
		}
		nc := v.merge(fr.rets)
		v.callees[rc.Func] = true
		if fn.Signature.Results().Len() == 0 {
			c = nc
			continue
		}
		var ts []string
		for _, x := range fr.rets {
			ts = append(ts, x.vals[0].t)
		}
		rt := fn.Signature.Results().At(0).Type()
		t := v.joinTerms(nc.n, fr.rets, ts, e.Reg.sortOf(rt), "ret")
		c = nc
		en.vars[rc.Result] = sval{t: t, sort: e.Reg.sortOf(rt), typ: rt}
	}
	en = en.with(nil)
	en.cur, en.st = c, c.st
	for _, q := range ct.Ensures {
		for _, g := range v.splitGoal(en.tr(q.E).t) {
			v.assert(c, fmt.Sprintf("ensures.%d", q.Idx), g)
		}
	}
	return v, nil
}

// lemmas proves the lemmas of the property.
func (r *runner) lemmas(o *outcome) {
	for _, a := range r.e.Spec.Axioms {
		if !a.Lemma || !activeFor(r.p, a.Tags) {
			continue
		}
		u := &unit{key: "lemma." + a.Name}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if us, ok := x.(unsupported); ok {
						u.err = us.msg
						return
					}
					panic(x)
				}
			}()
			r.e.mu.Lock()
			locked := true
			defer func() {
				if locked {
					r.e.mu.Unlock()
				}
			}()
			v := newVC(r.e, nil, nil, r.p, r.s, &config{})
			u.vc = v
			root := v.newNode(nil)
			c := &cursor{root, state{}}
			v.addAxioms(c, a)
			en := &env{v: v, cur: c, st: v.entry, vars: map[string]sval{}, noDef: true}
			en.old = en
			x := a.E
			if x.Op == "forall" {
				vars := map[string]sval{}
				for _, q := range x.Vars {
					so := r.e.specSort(q.Typ)
					vars[q.Name] = sval{t: v.newConst("l_"+q.Name, so), sort: so, typ: r.e.specType(q.Typ)}
				}
				ind, terms, _ := strings.Cut(strings.TrimPrefix(a.Uses, "induction "), " with ")
				if strings.HasPrefix(a.Uses, "with ") {
					ind, terms = a.Uses, strings.TrimPrefix(a.Uses, "with ")
				}
				if terms != "" { // ground terms for the solver to start from
					fe, err := parseExpr("f(" + terms + ")")
					if err != nil {
						unsup("lemma %s: %v", a.Name, err)
					}
					for _, t := range fe.Args {
						tv := en.with(vars).tr(t)
						v.assume(root, fmt.Sprintf("(hint_%s %s)", sortID(tv.sort), tv.t))
					}
				}
				if ind != a.Uses {
					// hypothesis for smaller values of the measure
					me, err := parseExpr(ind)
					if err != nil {
						unsup("lemma %s: %v", a.Name, err)
					}
					iv := en.with(vars).tr(me)
					hv := map[string]sval{}
					var bs []string
					for _, q := range x.Vars {
						so := r.e.specSort(q.Typ)
						n := v.fresh("q_" + q.Name)
						hv[q.Name] = sval{t: n, sort: so, typ: r.e.specType(q.Typ)}
						bs = append(bs, fmt.Sprintf("(%s %s)", n, so))
					}
					hen := en.with(hv)
					hb := hen.tr(x.Args[0]).t
					k := hen.tr(me).t
					pats := ""
					for _, tr := range x.Trigs {
						var ts []string
						for _, t := range tr {
							ts = append(ts, hen.tr(t).t)
						}
						pats += " :pattern (" + strings.Join(ts, " ") + ")"
					}
					v.assume(root, fmt.Sprintf("(forall (%s) (! (=> (and (<= 0 %s) (< %s %s)) %s) %s))", strings.Join(bs, " "), k, k, iv.t, hb, pats))
				}
				g := en.with(vars).tr(x.Args[0]).t
				for _, q := range v.splitGoal(g) {
					v.assert(c, "lemma."+a.Name, q)
				}
			} else {
				v.assert(c, "lemma."+a.Name, en.tr(x).t)
			}
			r.e.mu.Unlock()
			locked = false
			r.s.check(v, u)
		}()
		if u.err != "" {
			o.fails = append(o.fails, &failure{Name: u.key, Kind: "unsupported", Result: u.err})
		}
		o.fails = append(o.fails, u.fails...)
		o.units = append(o.units, u)
		o.lemmas++
	}
}

// defines: an active ghostdef of the contract mentions the ghost variable.
func (v *VC) defines(c *Contract, name string) bool {
	for _, cl := range c.Assumes {
		if v.active(cl.Tags) && mentions(cl.E, name) {
			return true
		}
	}
	return false
}

func mentions(x *Expr, name string) bool {
	if x == nil {
		return false
	}
	if x.Op == "id" && x.Name == name {
		return true
	}
	for _, a := range x.Args {
		if mentions(a, name) {
			return true
		}
	}
	return false
}
