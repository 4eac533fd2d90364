package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of functions outside the repository. What is assumed about them is
// written as "extern" contracts in /verif/contracts; the few that need a
// memory model of their own are here. Everything used is listed as an
// assumption in the evidence.

type extEff struct {
	loc string
	arg int // -1: objects allocated by the call, -2: a ghost variable
}

// extKey names an external function: strings.ToLower, go/token.File.Pos.
func extKey(f *ssa.Function) string {
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		return pkg + "." + typeBaseName(r.Type()) + "." + f.Name()
	}
	return pkg + "." + f.Name()
}

var purePkgs = map[string]bool{"strings": true, "unicode": true, "unicode/utf8": true, "strconv": true, "errors": true, "path/filepath": true, "path": true, "math": true, "bytes": true, "go/token": true, "go/scanner": true, "slices": true, "maps": true, "cmp": true, "unicode/utf16": true, "math/bits": true}

func extEffects(eng *Engine, f *ssa.Function, c *ssa.CallCommon) []extEff {
	key := extKey(f)
	if ct := eng.Spec.Contracts["extern "+key]; ct != nil {
		var out []extEff
		for _, e := range ct.effects(eng.Prop) {
			if e == "fresh" {
				continue
			}
			if strings.HasPrefix(e, "GV|") {
				out = append(out, extEff{e, -2})
				continue
			}
			k := strings.Index(e, "@")
			if k < 0 {
				unsup("effect %s of %s", e, key)
			}
			for i, p := range ct.Params {
				if p == e[k+1:] {
					out = append(out, extEff{e[:k], i})
				}
			}
		}
		return out
	}
	switch key {
	case "strings.Builder.WriteString", "strings.Builder.WriteByte", "strings.Builder.WriteRune", "strings.Builder.Reset", "strings.Builder.Grow", "strings.Builder.Write":
		return []extEff{{eng.strLoc(c.Args[0].Type().(*types.Pointer).Elem()), 0}}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		return []extEff{{eng.reg("F|strings.Builder|$str", "(Array Int Str)", types.Typ[types.String]), 0}}
	case "go/scanner.ErrorList.Add":
		if fa, ok := c.Args[0].(*ssa.FieldAddr); ok {
			st, _ := ptrElem(fa.X.Type())
			return []extEff{{eng.fieldLoc(st, under(st).(*types.Struct).Field(fa.Field)), 0}}
		}
		el, _ := ptrElem(c.Args[0].Type())
		return []extEff{{eng.cellLoc(el), 0}}
	}
	return nil
}

func (v *VC) note(f string, a ...interface{}) { v.assumed[fmt.Sprintf(f, a...)] = true }

func (v *VC) nonNilError(cur *cursor, t types.Type) val {
	r := v.newConst("err", "Iface")
	v.assume(cur.n, fmt.Sprintf("(and (> (itag %s) 0) (< (itag %s) 1000))", r, r))
	return val{t: r, typ: t}
}

func (v *VC) external(fr *frame, cur *cursor, f *ssa.Function, args []val, c *ssa.CallCommon) val {
	key := extKey(f)
	res := f.Signature.Results()
	v.note("extern %s", key)
	if ct := v.e.Spec.Contracts["extern "+key]; ct != nil {
		var pts []types.Type
		if r := f.Signature.Recv(); r != nil {
			pts = append(pts, r.Type())
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			pts = append(pts, f.Signature.Params().At(i).Type())
		}
		if ct.Pure {
			if r, ok := v.pureResult(cur, key, args, res); ok {
				en := v.paramEnv(ct, nil, args, pts, cur, cur.st)
				en.old = en
				en = v.addResults(en, ct, []val{r})
				for _, x := range ct.Ensures {
					if v.active(x.Tags) {
						if t, ok := v.tryTr(en, x.E); ok {
							v.assume(cur.n, t)
						}
					}
				}
				return r
			}
		}
		return v.applyContract(fr, cur, ct, nil, args, pts, f.Signature, nil, key)
	}
	bref := func(a val) (string, string) {
		t := args[0].t
		if args[0].addr != nil {
			if args[0].addr.kind != 'S' {
				unsup("builder at %c", args[0].addr.kind)
			}
			t = args[0].addr.ref
		}
		el, _ := ptrElem(args[0].typ)
		return v.e.strLoc(el), t
	}
	switch key {
	case "fmt.Errorf", "errors.New":
		r := v.nonNilError(cur, res.At(0).Type())
		if f := v.e.Spec.Funs["cause"]; f != nil && key == "fmt.Errorf" {
			if k, ok := c.Args[0].(*ssa.Const); ok {
				if s, ok := constString(k); ok {
					if i := wrapArg(s); i >= 0 {
						el := under(c.Args[1].Type()).(*types.Slice).Elem()
						v.useRec(f)
						v.assume(cur.n, fmt.Sprintf("(= (F_cause %s) (F_cause %s))", r.t, v.readElem(cur.st, v.e.elemLoc(el), args[1].t, fmt.Sprint(i))))
					}
				}
			}
		}
		return r
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return v.freshResults(cur, res)
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		return v.freshResults(cur, res)
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		ref := ivalOf(args[0].t)
		v.storeH(cur, "F|strings.Builder|$str", ref, v.newConst("w", "Str"))
		return v.freshResults(cur, res)
	case "io.WriteString":
		// writes the bytes unless it reports an error
		ref := ivalOf(args[0].t)
		loc := v.e.reg("F|strings.Builder|$str", "(Array Int Str)", types.Typ[types.String])
		old := v.selectH(v.get(cur.st, loc), ref)
		nw := v.newConst("w", "Str")
		r := v.freshResults(cur, res)
		v.assume(cur.n, fmt.Sprintf("(=> (= (itag %s) 0) (= %s (strcat %s %s)))", r.tup[1].t, nw, old, args[1].t))
		v.storeH(cur, loc, ref, nw)
		return r
	case "strings.Builder.WriteString", "strings.Builder.Write":
		loc, ref := bref(args[0])
		v.nilRef(cur, ref)
		s := args[1].t
		if key == "strings.Builder.Write" {
			s = "(bstr " + s + ")"
		}
		v.storeH(cur, loc, ref, v.define("cat", "Str", fmt.Sprintf("(strcat %s %s)", v.selectH(v.get(cur.st, loc), ref), s)))
		return v.okResult(cur, res)
	case "strings.Builder.WriteByte", "strings.Builder.WriteRune":
		loc, ref := bref(args[0])
		v.nilRef(cur, ref)
		ch := fmt.Sprintf("(runestr %s)", args[1].t)
		if key == "strings.Builder.WriteByte" {
			v.byteStr()
			ch = fmt.Sprintf("(bytestr %s)", args[1].t)
		}
		v.storeH(cur, loc, ref, v.define("cat", "Str", fmt.Sprintf("(strcat %s %s)", v.selectH(v.get(cur.st, loc), ref), ch)))
		return v.okResult(cur, res)
	case "strings.Builder.String":
		loc, ref := bref(args[0])
		v.nilRef(cur, ref)
		return val{t: v.selectH(v.get(cur.st, loc), ref), typ: types.Typ[types.String]}
	case "strings.Builder.Reset":
		loc, ref := bref(args[0])
		v.storeH(cur, loc, ref, "str_empty")
		return val{}
	case "strings.Builder.Len":
		loc, ref := bref(args[0])
		return val{t: "(strlen " + v.selectH(v.get(cur.st, loc), ref) + ")", typ: intType}
	case "strings.Builder.Grow":
		v.safety(cur, "grow", fmt.Sprintf("(<= 0 %s)", args[1].t))
		return val{}
	case "go/scanner.ErrorList.Add":
		a := v.addrOf(args[0])
		old := v.load(cur, a)
		r := v.newConst("errs", "Slice")
		v.typeFacts(cur, r, a.typ)
		v.assume(cur.n, fmt.Sprintf("(and (= (vlen %s) (+ (vlen %s) 1)) (not (= (sarr %s) 0)))", r, old.t, r))
		if st, ok := under(a.typ).(*types.Slice); ok {
			loc := v.e.elemLoc(st.Elem())
			h := v.get(cur.st, loc)
			at := v.atFun(loc)
			v.assume(cur.n, fmt.Sprintf("(not (= (%s %s %s (vlen %s)) 0))", at, h, r, old.t))
			v.assume(cur.n, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (vlen %s))) (= (%s %s %s i) (%s %s %s i))) :pattern ((%s %s %s i))))", old.t, at, h, r, at, h, old.t, at, h, r))
		}
		v.store(cur, a, val{t: r, typ: a.typ})
		return val{}
	case "go/scanner.ErrorList.Err":
		r := v.newConst("err", "Iface")
		v.assume(cur.n, fmt.Sprintf("(and (<= 0 (itag %s)) (= (= (itag %s) 0) (= (vlen %s) 0)) (=> (= (itag %s) 0) (= %s niliface)))", r, r, args[0].t, r, r))
		return val{t: r, typ: res.At(0).Type()}
	case "go/scanner.ErrorList.Len":
		return val{t: lenTerm(args[0].t), typ: intType}
	case "go/scanner.ErrorList.Sort":
		return val{}
	}
	if f.Pkg != nil && purePkgs[f.Pkg.Pkg.Path()] {
		if res.Len() == 1 {
			if r, ok := v.pureResult(cur, key, args, res); ok {
				return r
			}
		}
		for _, a := range args {
			if a.typ == nil {
				continue
			}
			if _, ok := under(a.typ).(*types.Signature); ok {
				unsup("function value passed to %s", key)
			}
			if isSlice(a.typ) && !isByteSlice(a.typ) && f.Pkg.Pkg.Path() == "slices" {
				unsup("call of %s", key)
			}
		}
		return v.freshResults(cur, res)
	}
	unsup("call of external function %s", key)
	return val{}
}

// okResult: results of a call that cannot fail (error nil).
func (v *VC) okResult(cur *cursor, rs *types.Tuple) val {
	r := v.freshResults(cur, rs)
	fix := func(x val) {
		if v.e.Reg.sortOf(x.typ) == "Iface" {
			v.assume(cur.n, fmt.Sprintf("(= %s niliface)", x.t))
		}
	}
	if len(r.tup) > 0 {
		for _, x := range r.tup {
			fix(x)
		}
	} else if r.typ != nil {
		fix(r)
	}
	return r
}

func (v *VC) byteStr() {
	if !v.decl["bytestr"] {
		v.decl["bytestr"] = true
		v.globalDef("bytestr", "(declare-fun bytestr (Int) Str)")
		v.items = append(v.items, item{node: -1, def: "bytestr", hint: true, text: "(forall ((b Int)) (! (and (= (strlen (bytestr b)) 1) (= (strat (bytestr b) 0) b)) :pattern ((bytestr b))))"})
	}
}

// pureResult names the result of a deterministic function of its arguments.
func (v *VC) pureResult(cur *cursor, key string, args []val, res *types.Tuple) (val, bool) {
	var ss, ts []string
	for _, a := range args {
		if a.addr != nil || a.typ == nil || a.t == "" || strings.HasPrefix(a.t, "gmap:") || strings.HasPrefix(a.t, "opaque:") {
			return val{}, false
		}
		t := a.t
		so := v.e.Reg.sortOf(a.typ)
		if so == "Slice" {
			if !isByteSlice(a.typ) {
				return val{}, false
			}
			so, t = "Str", "(bstr "+t+")"
		}
		if so != "Str" && so != "Int" && so != "Bool" || isMapType(a.typ) {
			return val{}, false
		}
		if p, ok := ptrElem(a.typ); ok && !strings.HasPrefix(tname(p), "token.File") {
			return val{}, false
		}
		ss = append(ss, so)
		ts = append(ts, t)
	}
	if res.Len() != 1 {
		return val{}, false
	}
	rt := res.At(0).Type()
	rs := v.e.Reg.sortOf(rt)
	if rs != "Str" && rs != "Int" && rs != "Bool" {
		return val{}, false
	}
	if _, ok := ptrElem(rt); ok {
		return val{}, false
	}
	n := "F_" + sani(key)
	if fd := v.e.Spec.Funs[sani(key)]; fd != nil {
		v.useRec(fd)
	} else if !v.decl[n] {
		v.decl[n] = true
		v.globalDef(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), rs))
	}
	t := n
	if len(ts) > 0 {
		t = fmt.Sprintf("(%s %s)", n, strings.Join(ts, " "))
	}
	r := val{t: v.define("x", rs, t), typ: rt}
	v.typeFacts(cur, r.t, rt)
	return r, true
}

// closureFacts ties a new function literal to the object it reports to.
func (v *VC) closureFacts(fr *frame, cur *cursor, c *closure, x val) {
	if c.fn.Parent() != nil {
		v.capturedFacts(cur, c, x)
	}
	for i, fv := range c.fn.FreeVars {
		el, ok := ptrElem(fv.Type())
		if !ok {
			continue
		}
		t := ""
		ty := fv.Type()
		if pe, ok := ptrElem(el); ok && isStruct(pe) {
			// captured by reference: the variable must not be reassigned
			if al, ok := mcBinding(c, i); ok && !escapesToStore(al) {
				t = v.load(cur, v.addrOf(c.binds[i])).t
				ty = el
			}
		} else if isStruct(el) {
			t = c.binds[i].t
		}
		if t == "" {
			continue
		}
		st, _ := ptrElem(ty)
		if fd := v.e.Spec.Funs["owner_"+sani(tname(st))]; fd != nil {
			v.useRec(fd)
			v.assume(cur.n, fmt.Sprintf("(= (F_%s %s) %s)", fd.Name, x.t, t))
		}
	}
}

// capFun names the value of a captured variable as a function of the closure.
func (v *VC) capFun(name string, t types.Type) string {
	so := v.e.Reg.sortOf(t)
	n := "cap_" + sani(name) + "_" + sortID(so)
	if !v.decl[n] {
		v.decl[n] = true
		v.globalDef(n, fmt.Sprintf("(declare-fun %s (Int) %s)", n, so))
	}
	return n
}

// capturedFacts ties a function literal to the variables it captures that keep
// their value.
func (v *VC) capturedFacts(cur *cursor, c *closure, x val) {
	for i, fv := range c.fn.FreeVars {
		el, ok := ptrElem(fv.Type())
		if ok && isStruct(el) && i < len(c.binds) && c.binds[i].t != "" && !strings.Contains(c.binds[i].t, ":") {
			// a struct variable: where it is
			v.assume(cur.n, fmt.Sprintf("(= (%s %s) %s)", v.capFun(fv.Name(), fv.Type()), x.t, c.binds[i].t))
			continue
		}
		if !ok || isStruct(el) || i >= len(c.binds) || c.binds[i].addr == nil {
			continue
		}
		al, ok := mcBinding(c, i)
		if !ok || escapesToStore(al) || directStores(al) != 1 {
			continue
		}
		y := v.load(cur, v.addrOf(c.binds[i]))
		if y.t == "" || strings.Contains(y.t, ":") {
			continue
		}
		v.assume(cur.n, fmt.Sprintf("(= (%s %s) %s)", v.capFun(fv.Name(), el), x.t, y.t))
	}
}

func directStores(a *ssa.Alloc) int {
	n := 0
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			n++
		}
	}
	return n
}

func mcBinding(c *closure, i int) (*ssa.Alloc, bool) {
	for _, b := range c.fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == c.fn {
				al, ok := mc.Bindings[i].(*ssa.Alloc)
				return al, ok
			}
		}
	}
	return nil, false
}

// wrapArg finds the argument of the %w verb of a format, or -1.
func wrapArg(f string) int {
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
		}
		if i == len(f) || f[i] == '*' || f[i] == '[' {
			return -1
		}
		if f[i] == 'w' {
			return n
		}
		if f[i] != '%' {
			n++
		}
	}
	return -1
}
