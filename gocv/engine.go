package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	mu      sync.Mutex
	W       *World
	Spec    *Spec
	Prop    *Property
	valFns  map[*ssa.Function]bool
	Reg     *Registry
	Eff     *effectsEngine
	locSort map[string]string
	fnNos   map[*ssa.Function]int
	locType map[string]types.Type
	scc     map[*ssa.Function]int
	globals map[string]*globalInfo
	types   map[string]types.Type // resolved spec types
	renames map[*ssa.Function]map[string]string
}

func NewEngine(w *World, sp *Spec, p *Property) *Engine {
	e := &Engine{renames: map[*ssa.Function]map[string]string{}, Prop: p, W: w, Spec: sp, Reg: newRegistry(w, sp), locSort: map[string]string{}, locType: map[string]types.Type{}, globals: map[string]*globalInfo{}, types: map[string]types.Type{}}
	for g, ty := range sp.GhostM {
		e.locSort["GM|"+g] = "(Array Int " + e.specSort(ty) + ")"
	}
	for g, ty := range sp.GhostV {
		e.locSort["GV|"+g] = e.specSort(ty)
	}
	for t, fs := range sp.GhostF {
		for f, ty := range fs {
			e.locSort["F|"+t+"|"+f] = "(Array Int " + e.specSort(ty) + ")"
		}
	}
	e.locSort["brk"] = "Int"
	e.locSort["GV|epoch"] = "Int"
	e.reg("F|strings.Builder|$str", "(Array Int Str)", types.Typ[types.String])
	e.expandAST()
	e.Eff = &effectsEngine{eng: e, sum: map[*ssa.Function]*Effects{}}
	e.Eff.compute()
	e.computeSCC()
	e.scanGlobals()
	return e
}

func (e *Engine) specSort(ty string) string {
	switch ty {
	case "int":
		return "Int"
	case "bool":
		return "Bool"
	case "string":
		return "Str"
	}
	if e.Spec.Sorts[ty] {
		return ty
	}
	return e.Reg.sortOf(e.resolveType(ty))
}

// specType returns the Go type of a spec type name, nil for logic-only sorts.
func (e *Engine) specType(ty string) types.Type {
	if e.Spec.Sorts[ty] {
		return nil
	}
	return e.resolveType(ty)
}

func (e *Engine) resolveType(ty string) types.Type {
	if t := e.types[ty]; t != nil {
		return t
	}
	t := e.resolveType0(ty)
	if t == nil {
		unsup("unknown type %q in a contract", ty)
	}
	e.types[ty] = t
	return t
}

func (e *Engine) resolveType0(ty string) types.Type {
	switch {
	case strings.HasPrefix(ty, "*"):
		return types.NewPointer(e.resolveType(ty[1:]))
	case strings.HasPrefix(ty, "[]"):
		return types.NewSlice(e.resolveType(ty[2:]))
	case strings.HasPrefix(ty, "map["):
		k := strings.Index(ty, "]")
		return types.NewMap(e.resolveType(ty[4:k]), e.resolveType(ty[k+1:]))
	case ty == "interface{}" || ty == "any":
		return types.NewInterfaceType(nil, nil)
	case ty == "struct{}":
		return types.NewStruct(nil, nil)
	case ty == "any":
		return types.NewInterfaceType(nil, nil)
	}
	if o := types.Universe.Lookup(ty); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if k := strings.Index(ty, "."); k >= 0 {
		for _, p := range e.W.Prog.AllPackages() {
			if p.Pkg.Name() == ty[:k] {
				if o := p.Pkg.Scope().Lookup(ty[k+1:]); o != nil {
					if tn, ok := o.(*types.TypeName); ok {
						// prefer packages of the repository
						if e.W.Pkgs[p.Pkg.Path()] != nil {
							return tn.Type()
						}
						defer func(t types.Type) {
							if e.types[ty] == nil {
								e.types[ty] = t
							}
						}(tn.Type())
						if e.W.ByName[ty[:k]] == nil || e.W.ByName[ty[:k]].Pkg.Scope().Lookup(ty[k+1:]) == nil {
							return tn.Type()
						}
					}
				}
			}
		}
	}
	return nil
}

// isLocalVar: a variable whose address never escapes and that holds a scalar.
func (e *Engine) isLocalVar(a *ssa.Alloc) bool {
	t := a.Type().(*types.Pointer).Elem()
	if a.Heap || isStruct(t) || isArray(t) {
		return false
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Defer:
		default:
			if d, ok := r.(*ssa.Defer); ok && d.DeferStack == a {
				continue
			}
			return false
		}
	}
	return true
}

func (e *Engine) setLoc(loc, sort string, t types.Type) { e.reg(loc, sort, t) }

func (e *Engine) reg(loc, sort string, t types.Type) string {
	if _, ok := e.locSort[loc]; !ok {
		e.locSort[loc] = sort
		e.locType[loc] = t
	}
	return loc
}

func (e *Engine) fieldLoc(st types.Type, f *types.Var) string {
	return e.reg("F|"+tname(st)+"|"+f.Name(), "(Array Int "+e.Reg.sortOf(f.Type())+")", f.Type())
}

func (e *Engine) elemLoc(t types.Type) string {
	return e.reg("E|"+tname(t), "(Array Int (Array Int "+e.Reg.sortOf(t)+"))", t)
}

func (e *Engine) cellLoc(t types.Type) string {
	return e.reg("C|"+tname(t), "(Array Int "+e.Reg.sortOf(t)+")", t)
}

func (e *Engine) mapLocs(t types.Type) (string, string) {
	m := under(t).(*types.Map)
	n := tname(m.Key()) + "|" + tname(m.Elem())
	ks, vs := e.Reg.sortOf(m.Key()), e.Reg.sortOf(m.Elem())
	return e.reg("MD|"+n, "(Array Int (Array "+ks+" Bool))", types.Typ[types.Bool]), e.reg("MV|"+n, "(Array Int (Array "+ks+" "+vs+"))", m.Elem())
}

func (e *Engine) nested(t types.Type) bool { return true }

// opaque structs are modelled by one ghost field.
func opaqueStruct(t types.Type) bool {
	n := tname(t)
	return n == "strings.Builder" || n == "bytes.Buffer"
}

func (e *Engine) eachField(t types.Type, f func(loc string, v *types.Var)) {
	if opaqueStruct(t) {
		return
	}
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		if isStruct(v.Type()) {
			f("", v)
			continue
		}
		f(e.fieldLoc(t, v), v)
	}
}

func (e *Engine) strLoc(t types.Type) string {
	return e.reg("F|"+tname(t)+"|$str", "(Array Int Str)", types.Typ[types.String])
}

type ghostTarget struct {
	key  string
	root root
}

// ghostLoc finds the location a ghost update of a contract writes.
func (e *Engine) ghostLoc(fn *ssa.Function, c *Contract, g *GhostUpd) ghostTarget {
	t := g.Target
	rootOf := func(x *Expr) root {
		if x.Op == "id" {
			for i, p := range c.Params {
				if p == x.Name {
					return root{kind: "param", n: i}
				}
			}
			for _, p := range c.Results {
				if p == x.Name {
					return root{kind: "result"}
				}
			}
			if x.Name == "result" {
				return root{kind: "result"}
			}
		}
		return root{kind: "top"}
	}
	switch t.Op {
	case "index":
		if t.Args[0].Op == "id" {
			if _, ok := e.Spec.GhostM[t.Args[0].Name]; ok {
				return ghostTarget{"GM|" + t.Args[0].Name, rootOf(t.Args[1])}
			}
		}
	case "id":
		if _, ok := e.Spec.GhostV[t.Name]; ok {
			return ghostTarget{"GV|" + t.Name, root{kind: "top"}}
		}
	case "field":
		for ty, fs := range e.Spec.GhostF {
			if _, ok := fs[t.Name]; ok {
				return ghostTarget{"F|" + ty + "|" + t.Name, rootOf(t.Args[0])}
			}
		}
	}
	unsup("ghost target %s", g.Src)
	return ghostTarget{}
}

func (e *Engine) ifaceContract(c *ssa.CallCommon) *Contract {
	return e.Spec.Contracts["iface "+tname(c.Value.Type())+"."+c.Method.Name()]
}

// pureInvoke: interface methods of the AST that only read.
func (e *Engine) pureInvoke(c *ssa.CallCommon) bool {
	switch c.Method.Name() {
	case "Pos", "End", "Kind", "Error", "String":
		return true
	}
	return false
}

// funcValueContract finds the contract of a called function value by its type
// name, or by the parameter or field it comes from.
func (e *Engine) funcValueContract(fn *ssa.Function, v ssa.Value) *Contract {
	if ct := e.Spec.Contracts["functype "+tnameAlias(v.Type())]; ct != nil {
		return ct
	}
	return nil
}

func tnameAlias(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (e *Engine) computeSCC() {
	e.scc = map[*ssa.Function]int{}
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, comp := 0, 0
	self := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, g := range e.callees(f) {
			if g == f {
				self[f] = true
			}
			if idx[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			comp++
			var mem []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				mem = append(mem, g)
				if g == f {
					break
				}
			}
			if len(mem) > 1 || self[f] {
				for _, g := range mem {
					e.scc[g] = comp
				}
			}
		}
	}
	for _, f := range e.W.All {
		if idx[f] == 0 {
			visit(f)
		}
	}
}

// callees lists the repository functions f can call directly, including the
// function literals it creates.
func (e *Engine) callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var c *ssa.CallCommon
			switch x := in.(type) {
			case *ssa.Call:
				c = &x.Call
			case *ssa.Defer:
				c = &x.Call
			case *ssa.MakeClosure:
				out = append(out, x.Fn.(*ssa.Function))
				continue
			default:
				continue
			}
			if g := c.StaticCallee(); g != nil && e.W.Mine(g) {
				out = append(out, g)
			}
		}
	}
	return out
}

// recursive says whether f is part of a call cycle.
func (e *Engine) recursive(f *ssa.Function) bool { return e.scc[f] != 0 }

// ---------------------------------------------------------------------------
// package-level tables

type globalInfo struct {
	name     string
	typ      types.Type
	constant bool // only written by package initialisation, never escapes
	arr      map[int64]*ssa.Const
	n        int64
	mp       []mapEntry
	isMap    bool
	isArr    bool
	alloc    bool // initialised with a fresh pointer
	ok       bool
}

type mapEntry struct{ k, v *ssa.Const }

// scanGlobals extracts the contents of constant tables (arrays and maps that
// only the package initialiser writes) from the initialiser's own code.
func (e *Engine) scanGlobals() {
	written := map[*ssa.Global]bool{}
	for _, fn := range e.W.All {
		init := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if init {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if isMapType(x.Type()) {
							for _, r := range *x.Referrers() {
								if _, ok := r.(*ssa.Lookup); !ok {
									if _, ok := r.(*ssa.DebugRef); !ok {
										if c, ok := r.(*ssa.Call); ok && e.readOnlyMapArg(c, x) {
											continue
										}
										written[g] = true
									}
								}
							}
						}
					case *ssa.IndexAddr:
						for _, r := range *x.Referrers() {
							if u, ok := r.(*ssa.UnOp); ok && u.Op.String() == "*" {
								continue
							}
							written[g] = true
						}
					case *ssa.DebugRef:
					default:
						written[g] = true
					}
				}
			}
		}
	}
	for _, p := range e.W.Pkgs {
		init := p.Func("init")
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.Name() == "init$guard" {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			gi := &globalInfo{name: p.Pkg.Name() + "." + g.Name(), typ: t, constant: !written[g]}
			e.globals[gi.name] = gi
			if !gi.constant || init == nil {
				continue
			}
			switch {
			case isArray(t):
				gi.isArr = true
				gi.n = under(t).(*types.Array).Len()
				gi.arr = map[int64]*ssa.Const{}
				gi.ok = true
				// the literal may be built in a temporary first
				var base ssa.Value = g
				for _, b := range init.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == g {
							u, ok := st.Val.(*ssa.UnOp)
							if !ok || base != g {
								gi.ok = false
								continue
							}
							al, ok := u.X.(*ssa.Alloc)
							if !ok {
								gi.ok = false
								continue
							}
							base = al
						}
					}
				}
				for _, b := range init.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						ia, ok := st.Addr.(*ssa.IndexAddr)
						if !ok || ia.X != base {
							continue
						}
						k, ok1 := ia.Index.(*ssa.Const)
						v, ok2 := st.Val.(*ssa.Const)
						if !ok1 || !ok2 {
							gi.ok = false
							continue
						}
						gi.arr[k.Int64()] = v
					}
				}
			case isMapType(t):
				gi.isMap = true
				for _, b := range init.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok || st.Addr != g {
							continue
						}
						mv := st.Val
						if u, ok := mv.(*ssa.UnOp); ok {
							if al, ok := u.X.(*ssa.Alloc); ok {
								n := 0
								for _, r := range *al.Referrers() {
									if s2, ok := r.(*ssa.Store); ok && s2.Addr == al {
										n++
										mv = s2.Val
									}
								}
								if n != 1 {
									continue
								}
							}
						}
						mm, ok := mv.(*ssa.MakeMap)
						if !ok {
							continue
						}
						gi.ok = true
						for _, r := range *mm.Referrers() {
							switch u := r.(type) {
							case *ssa.MapUpdate:
								k, ok1 := u.Key.(*ssa.Const)
								v, ok2 := u.Value.(*ssa.Const)
								if !ok1 || !ok2 || u.Map != mm {
									gi.ok = false
									continue
								}
								gi.mp = append(gi.mp, mapEntry{k, v})
							case *ssa.Store:
							default:
								gi.ok = false
							}
						}
					}
				}
			case !isStruct(t):
				if _, ok := ptrElem(t); ok {
					gi.alloc = true
					gi.ok = true
				}
			}
		}
	}
}

// readOnlyMapArg: the map is passed to a repository function that only looks
// things up in that parameter.
func (e *Engine) readOnlyMapArg(c *ssa.Call, v ssa.Value) bool {
	f := c.Call.StaticCallee()
	if f == nil || !e.W.Mine(f) {
		return false
	}
	for i, a := range c.Call.Args {
		if a != v {
			continue
		}
		if i >= len(f.Params) {
			return false
		}
		for _, r := range *f.Params[i].Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok {
				if _, ok := r.(*ssa.Lookup); ok {
					continue
				}
				return false
			}
			al, ok := st.Addr.(*ssa.Alloc)
			if !ok || !e.isLocalVar(al) {
				return false
			}
			for _, r2 := range *al.Referrers() {
				u, ok := r2.(*ssa.UnOp)
				if !ok {
					continue
				}
				for _, r3 := range *u.Referrers() {
					if _, ok := r3.(*ssa.Lookup); !ok {
						return false
					}
				}
			}
		}
	}
	return true
}

func isMapType(t types.Type) bool { _, ok := under(t).(*types.Map); return ok }

var _ = fmt.Sprint

// fnNo numbers functions, to keep the locals of different functions apart.
func (e *Engine) fnNo(f *ssa.Function) int {
	if e.fnNos == nil {
		e.fnNos = map[*ssa.Function]int{}
	}
	if n, ok := e.fnNos[f]; ok {
		return n
	}
	e.fnNos[f] = len(e.fnNos) + 1
	return len(e.fnNos)
}

// astLocs lists the heap locations of syntax trees: the fields, elements and
// maps of the structs of package ast, except scopes.
func (e *Engine) astLocs() []string {
	var out []string
	p := e.W.ByName["ast"]
	if p == nil {
		return nil
	}
	sc := p.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || n == "Scope" || n == "Object" {
			continue
		}
		if s, ok := under(tn.Type()).(*types.Slice); ok {
			out = append(out, e.elemLoc(s.Elem()))
		}
		if !isStruct(tn.Type()) {
			continue
		}
		e.eachField(tn.Type(), func(loc string, f *types.Var) {
			if loc == "" {
				return
			}
			out = append(out, loc)
			switch t := under(f.Type()).(type) {
			case *types.Slice:
				out = append(out, e.elemLoc(t.Elem()))
			case *types.Map:
				a, b := e.mapLocs(f.Type())
				out = append(out, a, b)
			}
		})
	}
	return out
}

// expandAST replaces the location AST in effects and reads by those of trees.
func (e *Engine) expandAST() {
	var locs []string
	get := func() []string {
		if locs == nil {
			seen := map[string]bool{}
			for _, l := range e.astLocs() {
				if !seen[l] {
					seen[l] = true
					locs = append(locs, l)
				}
			}
			sort.Strings(locs)
		}
		return locs
	}
	for _, c := range e.Spec.Contracts {
		var out []effClause
		for _, f := range c.Effects {
			if f.loc != "AST" {
				out = append(out, f)
				continue
			}
			for _, l := range get() {
				out = append(out, effClause{f.tags, l})
			}
		}
		c.Effects = out
	}
	for _, f := range e.Spec.Funs {
		var out []string
		for _, r := range f.Reads {
			if r == "AST" {
				out = append(out, get()...)
			} else {
				out = append(out, r)
			}
		}
		f.Reads = out
	}
}
