package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A root says which object an effect hits: a parameter, a free variable, an
// allocation of the function itself, the result of a contract ghost update, or
// an unknown object (top).
type root struct {
	kind string // "param" "free" "alloc" "result" "top"
	n    int
	v    ssa.Value
}

type rootset map[root]bool

func (r rootset) add(o root) bool {
	if r[o] {
		return false
	}
	r[o] = true
	return true
}

// Effects is the inferred frame of a function: for each memory location (a
// field of a struct type, the elements of a slice type, ...) the objects whose
// location may change. Objects that are allocated during the call are "alloc".
type Effects struct {
	locs map[string]rootset
	all  bool // unknown effects
}

func newEffects() *Effects { return &Effects{locs: map[string]rootset{}} }

func (e *Effects) add(loc string, r root) bool {
	if e.locs[loc] == nil {
		e.locs[loc] = rootset{}
	}
	return e.locs[loc].add(r)
}

type effectsEngine struct {
	eng   *Engine
	sum   map[*ssa.Function]*Effects
	dirty bool
}

func (ee *effectsEngine) of(fn *ssa.Function) *Effects {
	if e := ee.sum[fn]; e != nil {
		return e
	}
	e := newEffects()
	ee.sum[fn] = e
	return e
}

// compute runs the interprocedural fixpoint.
func (ee *effectsEngine) compute() {
	for {
		ee.dirty = false
		for _, fn := range ee.eng.W.All {
			ee.function(fn)
		}
		if !ee.dirty {
			return
		}
	}
}

func (ee *effectsEngine) put(dst *Effects, loc string, rs rootset) {
	for r := range rs {
		if dst.add(loc, r) {
			ee.dirty = true
		}
	}
	if len(rs) == 0 && dst.locs[loc] == nil {
		dst.locs[loc] = rootset{}
		ee.dirty = true
	}
}

func (ee *effectsEngine) function(fn *ssa.Function) {
	dst := ee.of(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ee.instr(fn, in, func(loc string, rs rootset) {
				if strings.HasPrefix(loc, "L|") {
					return
				}
				out := rootset{}
				for r := range rs {
					if r.kind == "alloc" {
						r = root{kind: "alloc"}
					}
					out[r] = true
				}
				ee.put(dst, loc, out)
			}, func() {
				if !dst.all {
					dst.all = true
					ee.dirty = true
				}
			})
		}
	}
	if c := ee.eng.Spec.Contracts[ee.eng.W.Key(fn)]; c != nil {
		for _, g := range c.Ghost {
			if !activeFor(ee.eng.Prop, g.Tags) {
				continue
			}
			loc := ee.eng.ghostLoc(fn, c, g)
			ee.put(dst, loc.key, rootset{loc.root: true})
		}
	}
}

var topset = rootset{root{kind: "top"}: true}

// instr reports the effects of one instruction, with roots relative to fn.
func (ee *effectsEngine) instr(fn *ssa.Function, in ssa.Instruction, put func(loc string, rs rootset), all func()) {
	eng := ee.eng
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if eng.isLocalVar(x) {
			put("L|"+x.Name()+"@"+eng.W.Key(fn), rootset{root{kind: "alloc", v: x}: true})
			return
		}
		if eng.kinds() && isStruct(t) && eng.hasInv(t) {
			put("A|"+tname(t), rootset{})
		}
		ee.allocLocs(t, func(loc string) { put(loc, rootset{root{kind: "alloc", v: x}: true}) })
	case *ssa.MakeSlice:
		put(eng.elemLoc(x.Type().Underlying().(*types.Slice).Elem()), rootset{root{kind: "alloc", v: x}: true})
	case *ssa.MakeMap:
		d, v := eng.mapLocs(x.Type())
		put(d, rootset{root{kind: "alloc", v: x}: true})
		put(v, rootset{root{kind: "alloc", v: x}: true})
	case *ssa.Store:
		ee.storeTo(fn, x.Addr, put)
	case *ssa.MapUpdate:
		d, v := eng.mapLocs(x.Map.Type())
		rs := ee.chase(fn, x.Map, nil)
		put(d, rs)
		put(v, rs)
	case *ssa.Call:
		ee.call(fn, x, &x.Call, put, all)
	case *ssa.Defer:
		ee.call(fn, x, &x.Call, put, all)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		all()
	case *ssa.MakeClosure:
		cl := x.Fn.(*ssa.Function)
		ee.mapSummary(fn, cl, nil, x.Bindings, true, put, all)
	}
}

func (ee *effectsEngine) allocLocs(t types.Type, put func(loc string)) {
	eng := ee.eng
	switch u := under(t).(type) {
	case *types.Struct:
		eng.eachField(t, func(loc string, f *types.Var) {
			if isStruct(f.Type()) && eng.nested(f.Type()) {
				ee.allocLocs(f.Type(), put)
				return
			}
			put(loc)
		})
		for g := range eng.Spec.GhostF[tname(t)] {
			put("F|" + tname(t) + "|" + g)
		}
		if tname(t) == "strings.Builder" || tname(t) == "bytes.Buffer" {
			put("F|" + tname(t) + "|$str")
		}
	case *types.Array:
		put(eng.elemLoc(u.Elem()))
	default:
		put(eng.cellLoc(t))
	}
}

func (ee *effectsEngine) storeTo(fn *ssa.Function, a ssa.Value, put func(loc string, rs rootset)) {
	eng := ee.eng
	switch y := a.(type) {
	case *ssa.Alloc:
		t := y.Type().(*types.Pointer).Elem()
		if eng.isLocalVar(y) {
			put("L|"+y.Name()+"@"+eng.W.Key(fn), rootset{root{kind: "alloc", v: y}: true})
			return
		}
		ee.allocLocs(t, func(loc string) { put(loc, rootset{root{kind: "alloc", v: y}: true}) })
	case *ssa.FieldAddr:
		st, _ := ptrElem(y.X.Type())
		f := under(st).(*types.Struct).Field(y.Field)
		rs := ee.chase(fn, y.X, nil)
		if isStruct(f.Type()) && eng.nested(f.Type()) {
			ee.allocLocs(f.Type(), func(loc string) { put(loc, rs) })
			return
		}
		put(eng.fieldLoc(st, f), rs)
	case *ssa.IndexAddr:
		var el types.Type
		switch u := under(y.X.Type()).(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Pointer:
			el = under(u.Elem()).(*types.Array).Elem()
		}
		put(eng.elemLoc(el), ee.chase(fn, y.X, nil))
	case *ssa.Global:
		put("G|"+y.Pkg.Pkg.Name()+"."+y.Name(), rootset{})
	default:
		t, _ := ptrElem(a.Type())
		rs := ee.chase(fn, a, nil)
		ee.allocLocs(t, func(loc string) { put(loc, rs) })
	}
}

// mapSummary adds the summary of callee with its parameters replaced by args.
func (ee *effectsEngine) mapSummary(fn, callee *ssa.Function, args []ssa.Value, binds []ssa.Value, onlyEffects bool, put func(loc string, rs rootset), all func()) {
	s := ee.of(callee)
	if s.all {
		all()
	}
	for loc, rs := range s.locs {
		out := rootset{}
		for r := range rs {
			switch r.kind {
			case "param":
				if args == nil || r.n >= len(args) {
					out[root{kind: "top"}] = true
					continue
				}
				for q := range ee.chase(fn, args[r.n], nil) {
					out[q] = true
				}
			case "free":
				if r.n >= len(binds) {
					out[root{kind: "top"}] = true
					continue
				}
				for q := range ee.chase(fn, binds[r.n], nil) {
					out[q] = true
				}
			case "result":
				out[root{kind: "top"}] = true
			default:
				out[root{kind: r.kind}] = true
			}
		}
		put(loc, out)
	}
}

func (ee *effectsEngine) call(fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, put func(loc string, rs rootset), all func()) {
	eng := ee.eng
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			el := under(c.Args[0].Type()).(*types.Slice).Elem()
			rs := rootset{}
			for q := range ee.chase(fn, c.Args[0], nil) {
				rs[q] = true
			}
			if v, ok := in.(ssa.Value); ok {
				rs[root{kind: "alloc", v: v}] = true
			} else {
				rs[root{kind: "alloc"}] = true
			}
			put(eng.elemLoc(el), rs)
		case "copy":
			el := under(c.Args[0].Type()).(*types.Slice).Elem()
			put(eng.elemLoc(el), ee.chase(fn, c.Args[0], nil))
		case "delete":
			d, _ := eng.mapLocs(c.Args[0].Type())
			put(d, ee.chase(fn, c.Args[0], nil))
		case "clear":
			all()
		}
		return
	}
	if c.IsInvoke() {
		ct := eng.ifaceContract(c)
		if ct == nil {
			if eng.pureInvoke(c) {
				return
			}
			all()
			return
		}
		ee.declared(fn, ct, append([]ssa.Value{c.Value}, c.Args...), put)
		return
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			ee.mapSummary(fn, f, c.Args, mc.Bindings, false, put, all)
			return
		}
		if eng.W.Mine(f) {
			ee.mapSummary(fn, f, c.Args, nil, false, put, all)
			return
		}
		for _, e := range extEffects(eng, f, c) {
			rs := rootset{}
			if e.arg == -2 {
				rs = topset
			} else if e.arg < 0 {
				rs = rootset{root{kind: "alloc"}: true}
			} else {
				for q := range ee.chase(fn, c.Args[e.arg], nil) {
					rs[q] = true
				}
			}
			put(e.loc, rs)
		}
		return
	}
	// a function value
	if ct := eng.funcValueContract(fn, c.Value); ct != nil {
		ee.declared(fn, ct, c.Args, put)
		return
	}
	all()
}

func (ee *effectsEngine) declared(fn *ssa.Function, ct *Contract, args []ssa.Value, put func(loc string, rs rootset)) {
	for _, l := range ct.effects(ee.eng.Prop) {
		if l == "fresh" {
			if ee.eng.kinds() {
				for _, loc := range ee.made(ct) {
					put(loc, rootset{})
				}
			}
			continue
		}
		k := strings.Index(l, "@")
		if k < 0 {
			put(l, topset)
			continue
		}
		for i, p := range ct.Params {
			if p == l[k+1:] {
				rs := rootset{}
				for q := range ee.chase(fn, args[i], nil) {
					rs[q] = true
				}
				put(l[:k], rs)
			}
		}
	}
}

// made lists the types of the objects that a function value with the contract
// makes: those that a function of the repository with this signature makes.
func (ee *effectsEngine) made(ct *Contract) []string {
	if ct.Kind != "functype" {
		return nil
	}
	sig := under(ee.eng.resolveType(ct.Key)).(*types.Signature)
	m := map[string]bool{}
	for _, f := range ee.eng.W.All {
		if (f.Parent() != nil || ee.eng.valueFuncs()[f]) && types.Identical(dropRecv(f.Signature), sig) {
			for loc := range ee.of(f).locs {
				if strings.HasPrefix(loc, "A|") {
					m[loc] = true
				}
			}
		}
	}
	return sortedKeys(m)
}

func (e *Engine) kinds() bool { return e.Prop != nil && e.Prop.Kinds }

// chase finds the objects a reference-like value can denote.
func (ee *effectsEngine) chase(fn *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) rootset {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	out := rootset{}
	if seen[v] {
		return out
	}
	seen[v] = true
	join := func(rs rootset) {
		for r := range rs {
			out[r] = true
		}
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range fn.Params {
			if p == x {
				out[root{kind: "param", n: i}] = true
			}
		}
	case *ssa.FreeVar:
		for i, p := range fn.FreeVars {
			if p == x {
				out[root{kind: "free", n: i}] = true
			}
		}
	case *ssa.Alloc:
		out[root{kind: "alloc", v: x}] = true
	case *ssa.MakeSlice, *ssa.MakeMap:
		out[root{kind: "alloc", v: v}] = true
	case *ssa.Const, *ssa.Function, *ssa.MakeClosure:
	case *ssa.Slice:
		join(ee.chase(fn, x.X, seen))
	case *ssa.FieldAddr:
		st, _ := ptrElem(x.X.Type())
		f := under(st).(*types.Struct).Field(x.Field)
		if isStruct(f.Type()) {
			join(ee.chase(fn, x.X, seen))
		} else {
			join(ee.chase(fn, x.X, seen))
		}
	case *ssa.ChangeType:
		join(ee.chase(fn, x.X, seen))
	case *ssa.ChangeInterface:
		join(ee.chase(fn, x.X, seen))
	case *ssa.MakeInterface:
		join(ee.chase(fn, x.X, seen))
	case *ssa.TypeAssert:
		join(ee.chase(fn, x.X, seen))
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			join(ee.chase(fn, ta.X, seen))
		} else {
			out[root{kind: "top"}] = true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			join(ee.chase(fn, e, seen))
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op.String() == "*" {
			if escapesToStore(a) {
				out[root{kind: "top"}] = true
				break
			}
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					join(ee.chase(fn, s.Val, seen))
				}
			}
			break
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op.String() == "*" {
			if a, ok := fa.X.(*ssa.Alloc); ok && ee.chaseField(fn, a, fa.Field, seen, map[*ssa.Alloc]bool{}, out) {
				break
			}
		}
		out[root{kind: "top"}] = true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			out[root{kind: "alloc", v: x}] = true
			join(ee.chase(fn, x.Call.Args[0], seen))
			break
		}
		out[root{kind: "top"}] = true
	default:
		out[root{kind: "top"}] = true
	}
	return out
}

// escapesToStore says whether variable a may be assigned by anything but the
// direct stores in its own function (closures that assign it, passed address).
func escapesToStore(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == a && freeVarStored(f, f.FreeVars[i]) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func freeVarStored(f *ssa.Function, fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == fv && freeVarStored(g, g.FreeVars[i]) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func (e *Effects) String() string {
	var sb strings.Builder
	for _, l := range sortedKeys(e.locs) {
		fmt.Fprintf(&sb, "  %s:", l)
		for r := range e.locs[l] {
			fmt.Fprintf(&sb, " %s%d", r.kind, r.n)
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

// chaseField adds what field k of the local struct a can denote; false if that
// is unknown.
func (ee *effectsEngine) chaseField(fn *ssa.Function, a *ssa.Alloc, k int, seen map[ssa.Value]bool, done map[*ssa.Alloc]bool, out rootset) bool {
	if done[a] {
		return true
	}
	done[a] = true
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if x.Field != k {
				continue
			}
			for _, q := range *x.Referrers() {
				switch y := q.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if y.Addr != x {
						return false
					}
					for r := range ee.chase(fn, y.Val, seen) {
						out[r] = true
					}
				default:
					return false
				}
			}
		case *ssa.Store:
			if x.Addr != a {
				return false
			}
			switch y := x.Val.(type) {
			case *ssa.Const:
			case *ssa.UnOp:
				b, ok := y.X.(*ssa.Alloc)
				if !ok || y.Op.String() != "*" || !ee.chaseField(fn, b, k, seen, done, out) {
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}
