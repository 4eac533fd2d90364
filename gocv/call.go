package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// active says whether a clause counts for the property being checked.
func (v *VC) active(tags []string) bool { return activeFor(v.prop, tags) }

func activeFor(p *Property, tags []string) bool {
	if len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if t == p.ID {
			return true
		}
		for _, u := range p.Uses {
			if t == u {
				return true
			}
		}
	}
	return false
}

// applies says whether a contract stands for its function under a property;
// otherwise the function is inlined at its calls.
func (v *VC) applies(c *Contract) bool {
	return contractApplies(v.prop, c) && !v.cf.off[c.Key]
}

func contractApplies(p *Property, c *Contract) bool {
	if c == nil || c.Inline {
		return false
	}
	if c.Opaque {
		return true
	}
	for _, l := range [][]*Clause{c.Requires, c.Ensures, c.Exsures} {
		for _, x := range l {
			if activeFor(p, x.Tags) {
				return true
			}
		}
	}
	return false
}

func (v *VC) contractOf(fn *ssa.Function) *Contract {
	return v.e.contractOf(fn)
}

// ---------------------------------------------------------------------------
// heap invariants

func (v *VC) heapInvs() []*HeapInv {
	var out []*HeapInv
	for _, h := range v.e.Spec.HeapInvs {
		if len(h.Tags) > 0 && v.active(h.Tags) {
			out = append(out, h)
		}
	}
	return out
}

func (v *VC) heapInvAt(h *HeapInv, c *cursor, r string) string {
	t := v.e.resolveType(h.Type)
	en := &env{v: v, cur: c, st: c.st, vars: map[string]sval{h.Var: {t: r, sort: "Int", typ: types.NewPointer(t)}}, noDef: true}
	en.old = en
	s, ok := v.tryTr(en, h.E)
	if !ok {
		unsup("heap invariant %s does not fit the code", h.Src)
	}
	return s
}

// onlyMade states that the objects from brk to nb that a heap invariant speaks
// about have types that are listed in made.
func (v *VC) onlyMade(c *cursor, made map[string]bool, brk, nb string) {
	if !v.rtUsed || !v.prop.Kinds {
		return
	}
	var cs []string
	for _, it := range v.e.invTypes() {
		if !made["A|"+tname(it.(*types.Pointer).Elem())] {
			cs = append(cs, fmt.Sprintf("(not (= (rtype r) %d))", v.e.Reg.typeTag(it)))
		}
	}
	if len(cs) > 0 {
		v.assume(c.n, fmt.Sprintf("(forall ((r Int)) (! (=> (and (<= %s r) (< r %s)) (and %s)) :pattern ((rtype r))))", brk, nb, strings.Join(cs, " ")))
	}
}

func (v *VC) checkHeap(c *cursor, kind string) {
	for _, h := range v.heapInvs() {
		cur := v.heapInvAt(h, c, "r?")
		if k, ok := c.st["X|chk"]; ok && k != "" {
			var i int
			fmt.Sscan(k, &i)
			if v.heapInvAt(h, &cursor{c.n, v.chks(i)}, "r?") == cur {
				continue
			}
		}
		tag := v.e.Reg.typeTag(types.NewPointer(v.e.resolveType(h.Type)))
		r := v.newConst("obj", "Int")
		goal := v.heapInvAt(h, c, r)
		v.assert(c, fmt.Sprintf("%s/heap:%s.%d", kind, h.Type, h.Idx), fmt.Sprintf("(=> (and (= (rtype %s) %d) (< 0 %s) (< %s %s)) %s)", r, tag, r, r, v.get(c.st, "brk"), goal))
	}
	v.snapshot(c)
}

func (v *VC) chks(i int) state { return v.snaps[i] }

func (v *VC) snapshot(c *cursor) {
	v.snaps = append(v.snaps, c.st.clone())
	c.st["X|chk"] = fmt.Sprint(len(v.snaps) - 1)
}

// closedHeap says that slices in fields of objects under heap invariants point
// to allocated arrays: true in every state the program reaches.
func (v *VC) closedHeap(c *cursor) {
	if v.closedAt == nil {
		v.closedAt = map[string][]int{}
	}
	done := map[string]bool{}
	for _, hi := range v.heapInvs() {
		if done[hi.Type] {
			continue
		}
		done[hi.Type] = true
		t := v.e.resolveType(hi.Type)
		st, ok := under(t).(*types.Struct)
		if !ok {
			continue
		}
	fields:
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := under(st.Field(i).Type()).(*types.Slice); !ok {
				continue
			}
			h := v.get(c.st, v.e.fieldLoc(t, st.Field(i)))
			key := h + " " + v.get(c.st, "brk")
			for _, m := range v.closedAt[key] {
				if c.n.dom.has(m) {
					continue fields
				}
			}
			v.closedAt[key] = append(v.closedAt[key], c.n.id)
			v.items = append(v.items, item{node: c.n.id, def: h, text: fmt.Sprintf("(forall ((r Int)) (! (=> (and (< 0 r) (< r %s)) (< (sarr (select %s r)) %s)) :pattern ((select %s r))))", v.get(c.st, "brk"), h, v.get(c.st, "brk"), h)})
		}
	}
}

func (v *VC) assumeHeap(c *cursor) {
	v.closedHeap(c)
	for _, h := range v.heapInvs() {
		tag := v.e.Reg.typeTag(types.NewPointer(v.e.resolveType(h.Type)))
		body := v.heapInvAt(h, c, "r?")
		v.assume(c.n, strings.ReplaceAll(fmt.Sprintf("(forall ((r? Int)) (! (=> (and (= (rtype r?) %d) (< 0 r?) (< r? %s)) %s) :pattern ((rtype r?))))", tag, v.get(c.st, "brk"), body), "r?", "rinv"))
	}
	v.snapshot(c)
}

// ---------------------------------------------------------------------------
// environments

// gmapRef is the reference of a constant global map, with its contents.
func (v *VC) gmapRef(a val) val {
	gi := v.e.globals[a.t[5:]]
	n := "gm_" + sani(gi.name)
	if !v.decl[n] {
		v.decl[n] = true
		v.globalDef(n, fmt.Sprintf("(declare-const %s Int)", n))
		mt := under(gi.typ).(*types.Map)
		d, mv := v.e.mapLocs(gi.typ)
		ks := v.e.Reg.sortOf(mt.Key())
		has, value := v.globalMap(gi, "k")
		sd := fmt.Sprintf("(select (select %s %s) k)", v.initialOf(d), n)
		sm := fmt.Sprintf("(select (select %s %s) k)", v.initialOf(mv), n)
		v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(and (< 0 %s) (< %s %s))", n, n, v.initialOf("brk")), def: n, hint: true},
			item{node: -1, text: fmt.Sprintf("(forall ((k %s)) (! (= %s %s) :pattern (%s)))", ks, sd, has, sd), def: n, hint: true},
			item{node: -1, text: fmt.Sprintf("(forall ((k %s)) (! (= %s %s) :pattern (%s)))", ks, sm, value, sm), def: n, hint: true})
		v.oldRef[n] = 0
	}
	return val{t: n, typ: gi.typ}
}

func (v *VC) paramEnv(c *Contract, fn *ssa.Function, args []val, ptypes []types.Type, cur *cursor, st state) *env {
	en := &env{v: v, cur: cur, st: st, vars: map[string]sval{}}
	for i, a := range args {
		if strings.HasPrefix(a.t, "gmap:") {
			a = v.gmapRef(a)
			args[i] = a
		}
		name := ""
		if c != nil && i < len(c.Params) {
			name = c.Params[i]
		} else if fn != nil && i < len(fn.Params) {
			name = fn.Params[i].Name()
		}
		if name == "" || name == "_" {
			continue
		}
		ty := a.typ
		if i < len(ptypes) && ptypes[i] != nil {
			ty = ptypes[i]
		}
		if strings.HasPrefix(a.t, "gmap:") || a.addr != nil && a.addr.kind != 'S' && a.t == "0" {
			continue
		}
		en.vars[name] = sval{t: a.t, sort: v.e.Reg.sortOf(ty), typ: ty}
	}
	return en
}

func (v *VC) addResults(en *env, c *Contract, rs []val) *env {
	vars := map[string]sval{}
	for i, r := range rs {
		if r.t == "" || strings.HasPrefix(r.t, "gmap:") {
			continue
		}
		s := sval{t: r.t, sort: v.e.Reg.sortOf(r.typ), typ: r.typ}
		if c != nil && i < len(c.Results) {
			vars[c.Results[i]] = s
		}
		if len(rs) == 1 {
			vars["result"] = s
		}
		vars[fmt.Sprintf("result%d", i)] = s
	}
	n := en.with(vars)
	n.old = en.old
	n.pre = en.pre
	return n
}

// ---------------------------------------------------------------------------
// calls

func (v *VC) call(fr *frame, cur *cursor, in ssa.Instruction, c *ssa.CallCommon) val {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return v.builtin(fr, cur, in, b, c)
	}
	var args []val
	if c.IsInvoke() {
		recv := v.value(fr, cur, c.Value)
		for _, a := range c.Args {
			args = append(args, v.value(fr, cur, a))
		}
		return v.invoke(fr, cur, c, recv, args)
	}
	for _, a := range c.Args {
		args = append(args, v.value(fr, cur, a))
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			clo := v.closures[v.value(fr, cur, mc).t]
			return v.callFunc(fr, cur, f, clo.binds, args, c)
		}
		if f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "from type information") && !v.e.W.Mine(f) {
			unsup("call of synthetic %s", f)
		}
		if v.e.W.Mine(f) {
			return v.callFunc(fr, cur, f, nil, args, c)
		}
		return v.external(fr, cur, f, args, c)
	}
	fv := v.value(fr, cur, c.Value)
	return v.callValue(fr, cur, fv, c.Value.Type(), args, c.Signature(), c)
}

// callValue calls a function value.
func (v *VC) callValue(fr *frame, cur *cursor, fv val, t types.Type, args []val, sig *types.Signature, c *ssa.CallCommon) val {
	if clo := v.closures[fv.t]; clo != nil {
		if v.e.W.Mine(clo.fn) {
			return v.callFunc(fr, cur, clo.fn, clo.binds, args, c)
		}
		return v.external(fr, cur, clo.fn, args, c)
	}
	ct := v.e.Spec.Contracts["functype "+tnameAlias(t)]
	if ct == nil {
		unsup("call of unknown function value of type %s in %s", tnameAlias(t), v.e.W.Key(fr.fn))
	}
	v.safety(cur, "nilfunc", fmt.Sprintf("(not (= %s 0))", fv.t))
	self := fv
	self.typ = t
	var pts []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	return v.applyContract(fr, cur, ct, nil, append([]val{}, args...), pts, sig, &self, "functype "+tnameAlias(t))
}

func (v *VC) invoke(fr *frame, cur *cursor, c *ssa.CallCommon, recv val, args []val) val {
	v.safety(cur, "nilmethod", fmt.Sprintf("(not (= %s 0))", itagOf(recv.t)))
	sig := c.Method.Type().(*types.Signature)
	if c.Method.Name() == "Kind" && sig.Results().Len() == 1 {
		k := v.define("kind", "Int", v.kindOf(recv.t))
		return val{t: k, typ: sig.Results().At(0).Type()}
	}
	if ct := v.e.ifaceContract(c); ct != nil {
		var pts = []types.Type{c.Value.Type()}
		for i := 0; i < sig.Params().Len(); i++ {
			pts = append(pts, sig.Params().At(i).Type())
		}
		return v.applyContract(fr, cur, ct, nil, append([]val{recv}, args...), pts, sig, nil, "iface "+tname(c.Value.Type())+"."+c.Method.Name())
	}
	if v.e.pureInvoke(c) {
		return v.freshResults(cur, sig.Results())
	}
	unsup("call of interface method %s.%s without contract", c.Value.Type(), c.Method.Name())
	return val{}
}

func (v *VC) freshResults(cur *cursor, rs *types.Tuple) val {
	mk := func(t types.Type) val {
		x := val{t: v.newConst("ret", v.e.Reg.sortOf(t)), typ: t}
		v.typeFacts(cur, x.t, t)
		return x
	}
	switch rs.Len() {
	case 0:
		return val{}
	case 1:
		return mk(rs.At(0).Type())
	}
	r := val{typ: rs}
	for i := 0; i < rs.Len(); i++ {
		r.tup = append(r.tup, mk(rs.At(i).Type()))
	}
	return r
}

// loopFree functions are executed rather than abstracted where two runs are
// compared.
func loopFree(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return len(f.Blocks) > 0
}

func (v *VC) callFunc(fr *frame, cur *cursor, f *ssa.Function, binds []val, args []val, c *ssa.CallCommon) val {
	ct := v.contractOf(f)
	if v.applies(ct) && !(v.rel != "" && !v.e.recursive(f) && loopFree(f)) {
		v.callees[v.e.W.Key(f)] = true
		return v.applyContract(fr, cur, ct, f, args, nil, f.Signature, nil, v.e.W.Key(f))
	}
	if v.e.recursive(f) && (v.inlining(fr, f) || !(ct == nil || ct.Inline)) {
		// no usable contract: nothing is known about the call but its frame
		v.callees[v.e.W.Key(f)] = true
		e := ct
		if e == nil {
			e = &Contract{Kind: "func", Key: v.e.W.Key(f), Bailout: v.mayBail(f)}
		}
		return v.applyContract(fr, cur, e, f, args, nil, f.Signature, nil, v.e.W.Key(f))
	}
	// inline
	nf := v.newFrame(f, fr)
	nf.free = binds
	if len(args) != len(f.Params) {
		unsup("call of %s with %d arguments", f, len(args))
	}
	for i, p := range f.Params {
		a := args[i]
		a.typ = p.Type()
		nf.regs[p] = a
	}
	for i, p := range f.FreeVars {
		nf.regs[p] = binds[i]
	}
	pos := v.curPos
	nf.entry = cur.st.clone()
	v.run(nf, &cursor{cur.n, cur.st})
	v.curPos = pos
	for _, e := range v.afterDefers(nf) {
		v.excExit(fr, e)
	}
	if len(nf.rets) == 0 {
		// never returns normally
		v.assume(cur.n, "true")
		dead := v.newConst("dead", "Bool")
		v.assume(cur.n, fmt.Sprintf("(not %s)", dead))
		e := v.mkEdge(cur, dead, nil)
		nc := v.merge([]edge{e})
		cur.n, cur.st = nc.n, nc.st
		return v.freshResults(cur, f.Signature.Results())
	}
	nc := v.merge(nf.rets)
	cur.n, cur.st = nc.n, nc.st
	n := f.Signature.Results().Len()
	var rs []val
	for i := 0; i < n; i++ {
		var ts []string
		var same = true
		for _, r := range nf.rets {
			ts = append(ts, r.vals[i].t)
			if r.vals[i].t != ts[0] {
				same = false
			}
		}
		t := f.Signature.Results().At(i).Type()
		if same {
			x := nf.rets[0].vals[i]
			x.typ = t
			rs = append(rs, x)
			continue
		}
		rs = append(rs, val{t: v.joinTerms(nc.n, nf.rets, ts, v.e.Reg.sortOf(t), "ret"), typ: t})
	}
	switch n {
	case 0:
		return val{}
	case 1:
		return rs[0]
	}
	return val{typ: f.Signature.Results(), tup: rs}
}

func (v *VC) inlining(fr *frame, f *ssa.Function) bool {
	for ; fr != nil; fr = fr.parent {
		if fr.fn == f {
			return true
		}
	}
	return false
}

// mayBail: does the function contain a bailout panic, or call one that does?
func (v *VC) mayBail(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		if c := v.contractOf(f); c != nil && c.Bailout {
			return true
		}
		if f.Recover != nil {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Panic); ok {
					if mi, ok := p.X.(*ssa.MakeInterface); ok && tname(mi.X.Type()) == v.bailoutType() {
						return true
					}
				}
			}
		}
		for _, g := range v.e.callees(f) {
			if visit(g) {
				return true
			}
		}
		return false
	}
	return visit(f)
}

// measureOf evaluates a function-level decreases clause list.
func (v *VC) measureOf(c *Contract, en *env) ([]string, bool) {
	var out []string
	if c == nil {
		return nil, false
	}
	for _, d := range c.Decreases {
		if d.Loop >= 0 || !v.active(d.Tags) {
			continue
		}
		var t string
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(missingName); is {
						ok = false
						return
					}
					panic(r)
				}
			}()
			t = en.tr(d.E).t
			return true
		}()
		if !ok {
			return nil, false
		}
		out = append(out, t)
	}
	return out, len(out) > 0
}

// lexLess is the lexicographic decrease of m below m0, with m0 bounded below.
func lexLess(m, m0 []string) string {
	goal := "false"
	n := min(len(m), len(m0))
	for i := n - 1; i >= 0; i-- {
		lt := fmt.Sprintf("(and (< %s %s) (<= 0 %s))", m[i], m0[i], m0[i])
		if goal == "false" {
			goal = lt
		} else {
			goal = fmt.Sprintf("(or %s (and (= %s %s) %s))", lt, m[i], m0[i], goal)
		}
	}
	return goal
}

func (v *VC) applyContract(fr *frame, cur *cursor, ct *Contract, f *ssa.Function, args []val, ptypes []types.Type, sig *types.Signature, self *val, name string) val {
	for i := range args {
		if f != nil {
			args[i].typ = f.Params[i].Type()
		}
		if args[i].addr != nil && args[i].addr.kind != 'S' {
			unsup("address of a variable or field passed to %s", name)
		}
	}
	pre := cur.st.clone()
	probe := callProbe{name: name, n0: cur.n, seq0: len(v.items)}
	oldEnv := v.paramEnv(ct, f, args, ptypes, &cursor{cur.n, pre}, pre)
	if self != nil {
		oldEnv.vars["self"] = sval{t: self.t, sort: "Int", typ: self.typ}
	}
	oldEnv.old = oldEnv
	if f != nil && f.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := ptrElem(f.Params[0].Type()); ok {
			v.nilRef(cur, args[0].t)
		}
	}
	for _, r := range ct.Requires {
		if !v.active(r.Tags) {
			continue
		}
		t, ok := v.tryTr(oldEnv, r.E)
		if !ok {
			v.assert(cur, fmt.Sprintf("call:%s/requires.%d", name, r.Idx), "false")
		}
		if ok {
			if ct.Kind == "extern" {
				v.safety(cur, "extern:"+name, t)
				continue
			}
			for _, g := range v.splitGoal(t) {
				v.assert(cur, fmt.Sprintf("call:%s/requires.%d", name, r.Idx), g)
			}
			v.assume(cur.n, t)
		}
	}
	if v.prop.Term && f != nil && v.e.scc[f] != 0 && v.e.scc[f] == v.e.scc[v.fn] {
		m, ok := v.measureOf(ct, oldEnv)
		m0, ok2 := v.measureOf(v.ct, v.entryEnv)
		goal := "false"
		if ok && ok2 {
			goal = lexLess(m, m0)
		}
		v.assert(cur, fmt.Sprintf("term:recursion:%s", name), goal)
	}
	if f != nil || ct.Kind == "functype" {
		v.checkHeap(cur, "call:"+name)
	}
	// frame
	brk := v.get(cur.st, "brk")
	type hv struct {
		loc       string
		refs      []string
		fr, top   bool
		elemArray bool
	}
	var hs []hv
	anyFresh := false
	made := map[string]bool{}
	if ct != nil && f == nil {
		for _, loc := range v.e.Eff.made(ct) {
			made[loc] = true
		}
	}
	if f != nil {
		s := v.e.Eff.of(f)
		if s.all {
			unsup("call of %s with unknown effects", name)
		}
		for _, loc := range sortedKeys(s.locs) {
			if strings.HasPrefix(loc, "A|") {
				made[loc] = true
				continue
			}
			h := hv{loc: loc}
			for r := range s.locs[loc] {
				switch r.kind {
				case "param":
					rt, ok := v.refOf(args[r.n], loc)
					if !ok {
						h.top = true
					} else {
						h.refs = append(h.refs, rt)
					}
				case "alloc":
					h.fr = true
				default:
					h.top = true
				}
			}
			if h.fr {
				anyFresh = true
			}
			sort.Strings(h.refs)
			hs = append(hs, h)
		}
	} else {
		for _, e := range ct.effects(v.prop) {
			if e == "fresh" {
				anyFresh = true
				continue
			}
			if k := strings.Index(e, "@"); k > 0 {
				a, ok := oldEnv.vars[e[k+1:]]
				if !ok {
					unsup("effect %s", e)
				}
				rt := a.t
				if a.sort == "Iface" {
					rt = ivalOf(rt)
				}
				hs = append(hs, hv{loc: e[:k], refs: []string{rt}})
				continue
			}
			hs = append(hs, hv{loc: e, top: true})
		}
		if ct.Kind == "functype" {
			anyFresh = true
		}
	}
	seq := v.nalloc
	apply := func(c *cursor) {
		if anyFresh {
			nb := v.newConst("brk", "Int")
			c.st["brk"] = nb
			v.assume(c.n, fmt.Sprintf("(<= %s %s)", brk, nb))
			v.nalloc++
			v.onlyMade(c, made, brk, nb)
			if v.rtUsed && f == nil && ct.Kind != "functype" {
				// code outside the repository does not make objects of these types
				for _, it := range v.e.invTypes() {
					v.assume(c.n, fmt.Sprintf("(forall ((r Int)) (! (=> (and (<= %s r) (< r %s)) (not (= (rtype r) %d))) :pattern ((rtype r))))", brk, nb, v.e.Reg.typeTag(it)))
				}
			}
		}
		for _, h := range hs {
			v.havoc(c, h.loc, h.refs, h.fr, h.top, brk, seq)
		}
	}
	if ct.Bailout || f != nil && v.contractOf(f) == nil && v.mayBail(f) {
		k := v.newConst("normal", "Bool")
		ee := v.mkEdge(cur, not(k), nil)
		ec := v.merge([]edge{ee})
		ec.st = ec.st.clone()
		apply(ec)
		ec.st["X|panic"] = fmt.Sprintf("(mkI %d 0)", v.e.Reg.typeTag(v.e.resolveType(v.bailoutType())))
		xen := v.paramEnv(ct, f, args, ptypes, ec, ec.st)
		if self != nil {
			xen.vars["self"] = oldEnv.vars["self"]
		}
		xen.old = oldEnv
		for _, x := range ct.Exsures {
			if v.active(x.Tags) {
				if t, ok := v.tryTr(xen, x.E); ok {
					v.assume(ec.n, t)
				}
			}
		}
		if f != nil {
			v.assumeHeap(ec)
		}
		v.excExit(fr, edge{n: ec.n, st: ec.st, guard: ec.n.guard})
		ne := v.mkEdge(cur, k, nil)
		nc := v.merge([]edge{ne})
		cur.n, cur.st = nc.n, nc.st.clone()
	}
	apply(cur)
	res := v.freshResults(cur, sig.Results())
	rs := res.tup
	if sig.Results().Len() == 1 {
		rs = []val{res}
	}
	en := v.paramEnv(ct, f, args, ptypes, cur, cur.st)
	if self != nil {
		en.vars["self"] = oldEnv.vars["self"]
	}
	en.old = oldEnv
	en = v.addResults(en, ct, rs)
	for _, g := range ct.Ghost {
		if v.active(g.Tags) {
			v.assume(cur.n, fmt.Sprintf("(= %s %s)", en.tr(g.Target).t, en.tr(g.Val).t))
		}
	}
	for _, x := range append(append([]*Clause{}, ct.Ensures...), ct.Assumes...) {
		if !v.active(x.Tags) {
			continue
		}
		if t, ok := v.tryTr(en, x.E); ok {
			v.assume(cur.n, t)
		}
	}
	if f != nil || ct.Kind == "functype" {
		v.assumeHeap(cur)
	}
	probe.n1, probe.seq1 = cur.n, len(v.items)
	v.probes = append(v.probes, probe)
	return res
}

// refOf is the object an argument denotes for the frame of location loc.
func (v *VC) refOf(a val, loc string) (string, bool) {
	if a.addr != nil {
		if a.addr.kind == 'S' {
			return a.addr.ref, true
		}
		return "", false
	}
	switch v.e.Reg.sortOf(a.typ) {
	case "Int":
		return a.t, true
	case "Slice":
		if s := sliceArr(a.t); s != "" {
			return s, true
		}
		return "(sarr " + a.t + ")", true
	case "Iface":
		return ivalOf(a.t), true
	}
	return "", false
}

func splitAnd(t string) []string {
	if strings.HasPrefix(t, "(and ") {
		var out []string
		for _, a := range splitArgs(t)[1:] {
			out = append(out, splitAnd(a)...)
		}
		return out
	}
	return []string{t}
}

// ---------------------------------------------------------------------------
// builtins

func (v *VC) builtin(fr *frame, cur *cursor, in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon) val {
	var args []val
	for _, a := range c.Args {
		if isIgnoredAlloc(a) {
			args = append(args, val{t: "0"})
			continue
		}
		args = append(args, v.value(fr, cur, a))
	}
	switch b.Name() {
	case "len":
		t := c.Args[0].Type()
		switch {
		case isString(t):
			return val{t: "(strlen " + args[0].t + ")", typ: intType}
		case isSlice(t):
			return val{t: lenTerm(args[0].t), typ: intType}
		case isMapType(t):
			return val{t: v.mapLen(cur.st, args[0].t, t), typ: intType}
		case isArray(t):
			return val{t: num(under(t).(*types.Array).Len()), typ: intType}
		}
		if p, ok := ptrElem(t); ok && isArray(p) {
			return val{t: num(under(p).(*types.Array).Len()), typ: intType}
		}
	case "cap":
		return val{t: "(vcap " + args[0].t + ")", typ: intType}
	case "append":
		return v.appendCall(fr, cur, c, args)
	case "copy":
		if isByteSlice(c.Args[0].Type()) {
			unsup("copy of bytes")
		}
		el := under(c.Args[0].Type()).(*types.Slice).Elem()
		loc := v.e.elemLoc(el)
		d, s := args[0].t, args[1].t
		n := v.define("n", "Int", fmt.Sprintf("(ite (< (vlen %s) (vlen %s)) (vlen %s) (vlen %s))", d, s, d, s))
		h := v.get(cur.st, loc)
		at := v.atFun(loc)
		e := v.newConst("E", v.e.sortOfLoc(loc))
		v.items = append(v.items, item{node: -1, def: e, hint: true, text: fmt.Sprintf("(forall ((t Slice) (i Int)) (! (= (%s %s t i) (ite (and (= (sarr t) (sarr %s)) (<= (soff %s) (+ (soff t) i)) (< (+ (soff t) i) (+ (soff %s) %s))) (%s %s %s (- (+ (soff t) i) (soff %s))) (%s %s t i))) :pattern ((%s %s t i))))", at, e, d, d, d, n, at, h, s, d, at, h, at, e)})
		v.hist[e] = &hrec{prev: h, ref: ""}
		cur.st[loc] = e
		return val{t: n, typ: intType}
	case "recover":
		p, ok := cur.st["X|panic"]
		if !ok {
			p = "niliface"
		}
		cur.st["X|panic"] = "niliface"
		return val{t: p, typ: types.NewInterfaceType(nil, nil)}
	case "delete":
		d, _ := v.e.mapLocs(c.Args[0].Type())
		v.storeH(cur, d, args[0].t, fmt.Sprintf("(store %s %s false)", v.selectH(v.get(cur.st, d), args[0].t), args[1].t))
		return val{}
	case "ssa:wrapnilchk":
		return args[0]
	case "ssa:deferstack":
		return val{t: "0", typ: intType}
	case "min", "max":
		op := "<="
		if b.Name() == "max" {
			op = ">="
		}
		t := args[0].t
		for _, a := range args[1:] {
			t = fmt.Sprintf("(ite (%s %s %s) %s %s)", op, t, a.t, t, a.t)
		}
		return val{t: v.define("mm", "Int", t), typ: c.Args[0].Type()}
	}
	unsup("builtin %s", b.Name())
	return val{}
}

func (v *VC) appendCall(fr *frame, cur *cursor, c *ssa.CallCommon, args []val) val {
	s, t := args[0].t, args[1].t
	ty := c.Args[0].Type()
	el := under(ty).(*types.Slice).Elem()
	if isByteType(el) {
		unsup("append of bytes")
	}
	if isString(c.Args[1].Type()) {
		unsup("append of a string")
	}
	loc := v.e.elemLoc(el)
	h := v.get(cur.st, loc)
	at := v.atFun(loc)
	n := lenTerm(s)
	m := lenTerm(t)
	f := v.alloc(cur, "app")
	v.untyped(cur, f)
	r := v.newConst("app", "Slice")
	e := v.newConst("E", v.e.sortOfLoc(loc))
	capS := fmt.Sprintf("(vcap %s)", s)
	inpl := fmt.Sprintf("(<= (+ %s %s) %s)", n, m, capS)
	if s == "nilslice" {
		inpl = "false"
		if m == "0" {
			inpl = "true"
		}
	}
	// new slice
	v.fact(cur.n, fmt.Sprintf("(and (= (vlen %s) (+ %s %s)) (<= (vlen %s) (vcap %s)) (=> %s (and (= (sarr %s) (sarr %s)) (= (soff %s) (soff %s)) (= (vcap %s) %s))) (=> (not %s) (and (= (sarr %s) %s) (= (soff %s) 0))))",
		r, n, m, r, r, inpl, r, s, r, s, r, capS, inpl, r, f, r))
	// contents: everything outside of the appended part keeps its value
	v.items = append(v.items, item{node: -1, def: e, hint: true, text: fmt.Sprintf("(forall ((t Slice) (i Int)) (! (=> (or (not (= (sarr t) (sarr %s))) (and %s (or (< (+ (soff t) i) (+ (soff %s) %s)) (>= (+ (soff t) i) (+ (soff %s) (vlen %s)))))) (= (%s %s t i) (%s %s t i))) :pattern ((%s %s t i))))",
		r, inpl, r, n, r, r, at, e, at, h, at, e)})
	v.items = append(v.items, item{node: -1, def: e, hint: true, text: fmt.Sprintf("(forall ((a Int)) (! (=> (not (= a (sarr %s))) (= (select %s a) (select %s a))) :pattern ((select %s a))))", r, e, h, e)})
	v.items = append(v.items, item{node: -1, def: e, hint: true, text: fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (%s %s %s i) (%s %s %s i))) :pattern ((%s %s %s i))))", n, at, e, r, at, h, s, at, e, r)})
	if isNum(m) {
		var k int
		fmt.Sscan(m, &k)
		for i := 0; i < k; i++ {
			x := v.readElem(cur.st, loc, t, fmt.Sprint(i))
			v.items = append(v.items, item{node: -1, def: e, hint: true, text: fmt.Sprintf("(= (%s %s %s (+ %s %d)) %s)", at, e, r, n, i, x)})
			if v.rtUsed {
				v.items = append(v.items, item{node: -1, def: e, hint: true, text: fmt.Sprintf("(forall ((t Slice) (i Int)) (! (=> (and (= (sarr t) (sarr %s)) (= (+ (soff t) i) (+ (soff %s) %s %d))) (= (%s %s t i) %s)) :pattern ((%s %s t i))))", r, r, n, i, at, e, x, at, e)})
			}
		}
	} else {
		v.items = append(v.items, item{node: -1, def: e, hint: true, text: fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= %s i) (< i (+ %s %s))) (= (%s %s %s i) (%s %s %s (- i %s)))) :pattern ((%s %s %s i))))", n, n, m, at, e, r, at, h, t, n, at, e, r)})
	}
	// the items above speak about r, which is defined by a fact of this node
	v.hist[e] = &hrec{prev: h, ref: ""}
	cur.st[loc] = e
	return val{t: r, typ: ty}
}

// ---------------------------------------------------------------------------
// deferred calls

func (v *VC) deferInstr(fr *frame, cur *cursor, x *ssa.Defer) {
	fv := x.Call.Value
	if x.Call.IsInvoke() {
		unsup("deferred method call")
	}
	d := &deferRec{in: x, flag: "D|" + fr.prefix + fmt.Sprint(len(fr.defers))}
	v.e.setLoc(d.flag, "Bool", nil)
	if mc, ok := fv.(*ssa.MakeClosure); ok {
		d.clo = v.closures[v.value(fr, cur, mc).t]
	} else if f := x.Call.StaticCallee(); f != nil {
		d.clo = &closure{fn: f}
	} else {
		unsup("deferred function value")
	}
	for _, a := range x.Call.Args {
		d.args = append(d.args, v.value(fr, cur, a))
	}
	if fr.loops[x.Block()] != nil {
		unsup("defer in a loop")
	}
	for _, l := range fr.loops {
		if l.body[x.Block()] {
			unsup("defer in a loop")
		}
	}
	cur.st[d.flag] = "true"
	fr.defers = append(fr.defers, d)
}

// runDefers runs the deferred calls registered so far at cur.
func (v *VC) runDefers(fr *frame, cur *cursor, exc bool) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		flag, ok := cur.st[d.flag]
		if !ok || flag == "false" {
			continue
		}
		cur.st[d.flag] = "false"
		if flag == "true" {
			v.callFunc(fr, cur, d.clo.fn, d.clo.binds, d.args, &d.in.Call)
			continue
		}
		yes := v.merge([]edge{v.mkEdge(cur, flag, nil)})
		yes.st = yes.st.clone()
		no := v.mkEdge(cur, not(flag), nil)
		v.callFunc(fr, yes, d.clo.fn, d.clo.binds, d.args, &d.in.Call)
		nc := v.merge([]edge{{n: yes.n, st: yes.st, guard: yes.n.guard}, no})
		cur.n, cur.st = nc.n, nc.st
	}
}

// afterDefers handles the exceptional exits of a finished frame: deferred calls
// run, a recovered panic becomes a return, the others stay exceptional.
func (v *VC) afterDefers(fr *frame) []edge {
	if len(fr.excs) == 0 || len(fr.defers) == 0 {
		return fr.excs
	}
	excs := fr.excs
	fr.excs = nil
	for i := range excs {
		excs[i].st = excs[i].st.clone()
		for _, d := range fr.defers {
			if _, ok := excs[i].st[d.flag]; !ok {
				excs[i].st[d.flag] = "false"
			}
		}
	}
	c := v.merge(excs)
	c.st = c.st.clone()
	v.runDefers(fr, c, true)
	p := c.st["X|panic"]
	if p == "" {
		p = "niliface"
	}
	var out []edge
	out = append(out, fr.excs...) // panics raised again by deferred calls
	fr.excs = nil
	still := fmt.Sprintf("(not (= %s 0))", itagOf(p))
	if p == "niliface" {
		still = "false"
	}
	if still != "false" {
		out = append(out, v.mkEdge(c, still, nil))
	}
	if fr.fn.Recover != nil {
		e := v.mkEdge(c, not(still), nil)
		rc := v.merge([]edge{e})
		rc.st = rc.st.clone()
		delete(rc.st, "X|panic")
		rc.st["X|panic"] = "niliface"
		v.block(fr, rc, fr.fn.Recover, map[*ssa.BasicBlock][]edge{})
	}
	return out
}
