package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// sval is a translated contract expression.
type sval struct {
	t    string
	sort string
	typ  types.Type // nil for logic-only sorts
	nest bool       // t is the reference of a nested struct
}

type env struct {
	v     *VC
	cur   *cursor
	st    state
	old   *env
	pre   *env
	vars  map[string]sval
	depth int
	noDef bool // inside a quantifier: no naming of terms
	fresh string
}

type missingName struct{ name string }

func (e *env) with(vars map[string]sval) *env {
	n := *e
	n.vars = map[string]sval{}
	for k, x := range e.vars {
		n.vars[k] = x
	}
	for k, x := range vars {
		n.vars[k] = x
	}
	return &n
}

func (e *env) has(n string) bool {
	_, ok := e.vars[n]
	return ok
}

// tryTr translates e; a name that does not exist in the code any more makes
// the clause inapplicable.
func (v *VC) tryTr(en *env, x *Expr) (t string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(missingName); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	s := en.tr(x)
	if s.sort != "Bool" {
		unsup("contract clause is not boolean: %s", x.Src)
	}
	return s.t, true
}

var intType = types.Typ[types.Int]

func sI(t string) sval { return sval{t: t, sort: "Int", typ: intType} }
func sB(t string) sval { return sval{t: t, sort: "Bool", typ: types.Typ[types.Bool]} }
func sS(t string) sval { return sval{t: t, sort: "Str", typ: types.Typ[types.String]} }

func and(xs ...string) string {
	var o []string
	for _, x := range xs {
		if x == "false" {
			return "false"
		}
		if x != "true" {
			o = append(o, x)
		}
	}
	switch len(o) {
	case 0:
		return "true"
	case 1:
		return o[0]
	}
	return "(and " + strings.Join(o, " ") + ")"
}

func (e *env) field(x sval, name string, src string) sval {
	v := e.v
	t := x.typ
	if t == nil {
		unsup("field %s of a logical value in %s", name, src)
	}
	isRef := x.nest
	if p, ok := ptrElem(t); ok && !x.nest {
		t = p
		isRef = true
	}
	if gs, ok := v.e.Spec.GhostF[tname(t)]; ok && isRef {
		if ty, ok := gs[name]; ok {
			loc := "F|" + tname(t) + "|" + name
			return sval{t: v.selectH(v.get(e.st, loc), x.t), sort: v.e.specSort(ty), typ: v.e.specType(ty)}
		}
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		unsup("field %s of %s in %s", name, t, src)
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() != name {
			continue
		}
		if isRef {
			if isStruct(f.Type()) {
				return sval{t: x.t, sort: "Int", typ: f.Type(), nest: true}
			}
			return sval{t: v.selectH(v.get(e.st, v.e.fieldLoc(t, f)), x.t), sort: v.e.Reg.sortOf(f.Type()), typ: f.Type()}
		}
		d := v.e.Reg.structSort(t)
		return sval{t: fmt.Sprintf("(%s_%s %s)", d.name, name, x.t), sort: v.e.Reg.sortOf(f.Type()), typ: f.Type()}
	}
	panic(missingName{name})
}

// pkgConst resolves pkg.Name constants and globals.
func (e *env) pkgConst(pkg, name string) (sval, bool) {
	var p *types.Package
	if sp := e.v.e.W.ByName[pkg]; sp != nil {
		p = sp.Pkg
	}
	look := func(p *types.Package) (sval, bool) {
		if p == nil {
			return sval{}, false
		}
		switch o := p.Scope().Lookup(name).(type) {
		case *types.Const:
			switch o.Val().Kind() {
			case constant.Int:
				i, _ := constant.Int64Val(o.Val())
				return sval{t: num(i), sort: "Int", typ: o.Type()}, true
			case constant.String:
				return sS(e.v.strLit(constant.StringVal(o.Val()))), true
			case constant.Bool:
				return sB(fmt.Sprint(constant.BoolVal(o.Val()))), true
			}
		}
		return sval{}, false
	}
	if x, ok := look(p); ok {
		return x, true
	}
	for _, q := range e.v.e.W.Prog.AllPackages() {
		if q.Pkg.Name() == pkg {
			if x, ok := look(q.Pkg); ok {
				return x, true
			}
		}
	}
	return sval{}, false
}

func num(i int64) string {
	if i < 0 {
		return fmt.Sprintf("(- %d)", -i)
	}
	return fmt.Sprint(i)
}

func isNilT(s sval) string {
	switch s.sort {
	case "Iface":
		return fmt.Sprintf("(= (itag %s) 0)", s.t)
	case "Slice":
		return fmt.Sprintf("(= (sarr %s) 0)", s.t)
	}
	return fmt.Sprintf("(= %s 0)", s.t)
}

func (e *env) tr(x *Expr) sval {
	v := e.v
	switch x.Op {
	case "num":
		return sI(num(x.Num))
	case "true", "false":
		return sB(x.Op)
	case "str":
		return sS(v.strLit(x.Name))
	case "nil":
		return sval{t: "nil", sort: "nil"}
	case "id":
		if s, ok := e.vars[x.Name]; ok {
			return s
		}
		if f := v.e.Spec.Funs[x.Name]; f != nil && len(f.Params) == 0 {
			return e.call(f, nil)
		}
		if ty, ok := v.e.Spec.GhostV[x.Name]; ok {
			return sval{t: v.get(e.st, "GV|"+x.Name), sort: v.e.specSort(ty), typ: v.e.specType(ty)}
		}
		if x.Name == "$brk" {
			return sI(v.get(e.st, "brk"))
		}
		panic(missingName{x.Name})
	case "field":
		if x.Args[0].Op == "id" {
			if _, shadow := e.vars[x.Args[0].Name]; !shadow {
				if c, ok := e.pkgConst(x.Args[0].Name, x.Name); ok {
					return c
				}
			}
		}
		return e.field(e.tr(x.Args[0]), x.Name, x.Src)
	case "index":
		if x.Args[0].Op == "id" {
			if ty, ok := v.e.Spec.GhostM[x.Args[0].Name]; ok {
				k := e.tr(x.Args[1])
				kt := k.t
				if k.sort == "Iface" {
					kt = ivalOf(kt)
				}
				return sval{t: v.selectH(v.get(e.st, "GM|"+x.Args[0].Name), kt), sort: v.e.specSort(ty), typ: v.e.specType(ty)}
			}
		}
		a, i := e.tr(x.Args[0]), e.tr(x.Args[1])
		switch {
		case a.sort == "Str":
			return sI(fmt.Sprintf("(strat %s %s)", a.t, i.t))
		case a.sort == "Slice":
			el := under(a.typ).(*types.Slice).Elem()
			if isByteType(el) {
				return sval{t: fmt.Sprintf("(bat %s %s)", a.t, i.t), sort: "Int", typ: el}
			}
			return sval{t: v.readElem(e.st, v.e.elemLoc(el), a.t, i.t), sort: v.e.Reg.sortOf(el), typ: el}
		case a.typ != nil && isMapType(a.typ):
			d, m := v.e.mapLocs(a.typ)
			el := under(a.typ).(*types.Map).Elem()
			return sval{t: fmt.Sprintf("(ite (and (not (= %s 0)) (select %s %s)) (select %s %s) %s)", a.t, v.selectH(v.get(e.st, d), a.t), i.t, v.selectH(v.get(e.st, m), a.t), i.t, v.e.Reg.zero(el)), sort: v.e.Reg.sortOf(el), typ: el}
		}
		if strings.HasPrefix(a.sort, "(Array ") && strings.HasSuffix(a.sort, " Bool)") {
			return sB(fmt.Sprintf("(select %s %s)", a.t, i.t))
		}
		unsup("cannot index %s in %s", a.sort, x.Src)
	case "slice":
		a, lo := e.tr(x.Args[0]), e.tr(x.Args[1])
		var hi string
		if x.Args[2] != nil {
			hi = e.tr(x.Args[2]).t
		} else if a.sort == "Str" {
			hi = "(strlen " + a.t + ")"
		} else {
			hi = "(vlen " + a.t + ")"
		}
		if a.sort == "Str" {
			return sS(fmt.Sprintf("(strsub %s %s %s)", a.t, lo.t, hi))
		}
		return sval{t: fmt.Sprintf("(subS %s %s %s)", a.t, lo.t, hi), sort: "Slice", typ: a.typ}
	case "is":
		a := e.tr(x.Args[0])
		if t := v.e.resolveType(x.Typ); isIface(t) {
			return sB(v.implTest(itagOf(a.t), t))
		}
		return sB(fmt.Sprintf("(= %s %d)", itagOf(a.t), v.e.Reg.typeTag(v.e.resolveType(x.Typ))))
	case "as":
		a := e.tr(x.Args[0])
		ty := v.e.resolveType(x.Typ)
		return sval{t: v.unbox(a.t, ty), sort: v.e.Reg.sortOf(ty), typ: ty}
	case "!":
		return sB("(not " + e.tr(x.Args[0]).t + ")")
	case "neg":
		a := e.tr(x.Args[0])
		if isNum(a.t) {
			return sI("(- " + a.t + ")")
		}
		return sI("(- " + a.t + ")")
	case "ite":
		c, a, b := e.tr(x.Args[0]), e.tr(x.Args[1]), e.tr(x.Args[2])
		return sval{t: fmt.Sprintf("(ite %s %s %s)", c.t, a.t, b.t), sort: a.sort, typ: a.typ}
	case "forall", "exists":
		vars := map[string]sval{}
		var bs []string
		for _, q := range x.Vars {
			n := v.fresh("q_" + q.Name)
			so := v.e.specSort(q.Typ)
			vars[q.Name] = sval{t: n, sort: so, typ: v.e.specType(q.Typ)}
			bs = append(bs, fmt.Sprintf("(%s %s)", n, so))
		}
		n := e.with(vars)
		n.noDef = true
		if e.old != nil {
			n.old = e.old.with(vars)
		}
		if e.pre != nil {
			n.pre = e.pre.with(vars)
		}
		body := n.tr(x.Args[0]).t
		var pats string
		for _, tr := range x.Trigs {
			var ts []string
			for _, t := range tr {
				ts = append(ts, n.tr(t).t)
			}
			pats += " :pattern (" + strings.Join(ts, " ") + ")"
		}
		if pats != "" {
			body = "(! " + body + pats + ")"
		}
		return sB(fmt.Sprintf("(%s (%s) %s)", x.Op, strings.Join(bs, " "), body))
	case "call":
		return e.trCall(x)
	}
	// binary operators
	if len(x.Args) == 2 {
		switch x.Op {
		case "&&", "||", "==>", "<==>":
			a, b := e.tr(x.Args[0]).t, e.tr(x.Args[1]).t
			switch x.Op {
			case "&&":
				return sB(and(a, b))
			case "||":
				return sB(fmt.Sprintf("(or %s %s)", a, b))
			case "==>":
				return sB(fmt.Sprintf("(=> %s %s)", a, b))
			}
			return sB(fmt.Sprintf("(= %s %s)", a, b))
		case "==", "!=":
			a, b := e.tr(x.Args[0]), e.tr(x.Args[1])
			var r string
			switch {
			case b.sort == "nil":
				r = isNilT(a)
			case a.sort == "nil":
				r = isNilT(b)
			default:
				if a.sort != b.sort {
					unsup("comparison of %s with %s in %s", a.sort, b.sort, x.Src)
				}
				r = fmt.Sprintf("(= %s %s)", a.t, b.t)
			}
			if x.Op == "!=" {
				r = "(not " + r + ")"
			}
			return sB(r)
		}
		a, b := e.tr(x.Args[0]), e.tr(x.Args[1])
		switch x.Op {
		case "<", "<=", ">", ">=":
			return sB(fmt.Sprintf("(%s %s %s)", x.Op, a.t, b.t))
		case "+":
			if a.sort == "Str" {
				return sS(fmt.Sprintf("(strcat %s %s)", a.t, b.t))
			}
			return sval{t: fmt.Sprintf("(+ %s %s)", a.t, b.t), sort: "Int", typ: a.typ}
		case "-", "*":
			return sval{t: fmt.Sprintf("(%s %s %s)", x.Op, a.t, b.t), sort: "Int", typ: a.typ}
		case "/":
			return sI(fmt.Sprintf("(div %s %s)", a.t, b.t))
		case "%":
			return sI(fmt.Sprintf("(mod %s %s)", a.t, b.t))
		}
	}
	unsup("contract expression %s (%s)", x.Op, x.Src)
	return sval{}
}

func ivalOf(t string) string {
	if strings.HasPrefix(t, "(mkI ") {
		f := splitArgs(t)
		return f[2]
	}
	return "(ival " + t + ")"
}
func itagOf(t string) string {
	if strings.HasPrefix(t, "(mkI ") {
		return splitArgs(t)[1]
	}
	if t == "niliface" {
		return "0"
	}
	return "(itag " + t + ")"
}

// splitArgs splits "(f a b)" into f, a, b at the top level.
func splitArgs(t string) []string {
	t = t[1 : len(t)-1]
	var out []string
	d, st := 0, 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				if i > st {
					out = append(out, t[st:i])
				}
				st = i + 1
			}
		}
	}
	if st < len(t) {
		out = append(out, t[st:])
	}
	return out
}

func lenOf(s sval) string {
	if s.sort == "Str" {
		return "(strlen " + s.t + ")"
	}
	if strings.HasPrefix(s.t, "(mkS ") {
		return splitArgs(s.t)[3]
	}
	return "(vlen " + s.t + ")"
}

func (e *env) trCall(x *Expr) sval {
	v := e.v
	arg := func(i int) sval { return e.tr(x.Args[i]) }
	switch x.Name {
	case "old":
		if e.old == nil {
			return e.tr(x.Args[0])
		}
		o := e.old
		o2 := *o
		o2.noDef = e.noDef
		return (&o2).tr(x.Args[0])
	case "pre":
		if e.pre == nil {
			return e.tr(x.Args[0])
		}
		return e.pre.tr(x.Args[0])
	case "len":
		a := arg(0)
		if a.typ != nil && isMapType(a.typ) {
			return sI(v.mapLen(e.st, a.t, a.typ))
		}
		return sI(lenOf(a))
	case "cap":
		return sI("(vcap " + arg(0).t + ")")
	case "has":
		m, k := arg(0), arg(1)
		d, _ := v.e.mapLocs(m.typ)
		return sB(fmt.Sprintf("(select %s %s)", v.selectH(v.get(e.st, d), m.t), k.t))
	case "samemap":
		// samemap(m, n): same contents of a map now and in the old state
		m := arg(0)
		d, mv := v.e.mapLocs(m.typ)
		return sB(fmt.Sprintf("(and (= %s %s) (= %s %s))", v.selectH(v.get(e.st, d), m.t), v.selectH(v.get(e.old.st, d), m.t), v.selectH(v.get(e.st, mv), m.t), v.selectH(v.get(e.old.st, mv), m.t)))
	case "fresh":
		a := arg(0)
		t := a.t
		switch a.sort {
		case "Iface":
			t = ivalOf(t)
		case "Slice":
			t = "(sarr " + t + ")"
		}
		return sB(fmt.Sprintf("(>= %s %s)", t, v.get(e.old.st, "brk")))
	case "allocated":
		a := arg(0)
		t := a.t
		if a.sort == "Iface" {
			t = ivalOf(t)
		}
		if a.sort == "Slice" {
			t = "(sarr " + t + ")"
		}
		return sB(fmt.Sprintf("(< %s %s)", t, v.get(e.st, "brk")))
	case "ref":
		a := arg(0)
		if a.sort == "Iface" {
			return sI(ivalOf(a.t))
		}
		return sI(a.t)
	case "arr":
		return sI("(sarr " + arg(0).t + ")")
	case "off":
		return sI("(soff " + arg(0).t + ")")
	case "tag":
		return sI(itagOf(arg(0).t))
	case "u8": // byte i of the array with identity a
		return sI(fmt.Sprintf("(u8 %s %s)", arg(0).t, arg(1).t))
	case "samefields": // the structs behind two pointers have equal fields
		a, b := arg(0), arg(1)
		pt, ok := under(a.typ).(*types.Pointer)
		if !ok {
			unsup("samefields of %s", a.typ)
		}
		st := under(pt.Elem()).(*types.Struct)
		var cs []string
		for i := 0; i < st.NumFields(); i++ {
			n := &Expr{Op: "field", Name: st.Field(i).Name()}
			l, r := *n, *n
			l.Args, r.Args = []*Expr{x.Args[0]}, []*Expr{x.Args[1]}
			cs = append(cs, fmt.Sprintf("(= %s %s)", e.tr(&l).t, e.tr(&r).t))
		}
		_ = b
		return sB("(and " + strings.Join(cs, " ") + ")")
	case "bstr":
		return sS("(bstr " + arg(0).t + ")")
	case "runestr":
		return sS("(runestr " + arg(0).t + ")")
	case "streqw":
		return sI(fmt.Sprintf("(streqw %s %s)", arg(0).t, arg(1).t))
	case "bit":
		return sI(fmt.Sprintf("(bit %s %s)", arg(0).t, arg(1).t))
	case "codeof": // codeof("pkg.F"): the identity of a function
		name := strings.Trim(x.Args[0].Name, "\"")
		f := v.e.W.Funcs[name]
		if f == nil {
			panic(missingName{name})
		}
		return sI(num(int64(v.e.fnNo(f))))
	case "code": // code(f): the function a function value is, or is a literal in
		return sI("(fencl " + arg(0).t + ")")
	case "captured": // captured(f, x, T): variable x of type T captured by literal f
		t := v.e.resolveType(strings.Trim(x.Args[2].Name, "\""))
		return sval{t: fmt.Sprintf("(%s %s)", v.capFun(strings.Trim(x.Args[1].Name, "\""), t), arg(0).t), sort: v.e.Reg.sortOf(t), typ: t}
	case "out": // text written to a writer or builder
		a := arg(0)
		t := a.t
		if a.sort == "Iface" {
			t = ivalOf(t)
		}
		return sS(v.selectH(v.get(e.st, "F|strings.Builder|$str"), t))
	case "iface": // iface(x): the interface value holding pointer x
		a := arg(0)
		return sval{t: fmt.Sprintf("(mkI %d %s)", v.e.Reg.typeTag(a.typ), a.t), sort: "Iface", typ: types.NewInterfaceType(nil, nil)}
	case "kind": // Kind() of an AST node
		return sI(v.kindOf(arg(0).t))
	case "same": // same(E): the location set is unchanged, given as Go field pkg.T.f
		loc := "F|" + strings.Trim(x.Args[0].Name, "\"")
		return sB(fmt.Sprintf("(= %s %s)", v.get(e.st, loc), v.get(e.old.st, loc)))
	case "int":
		return sI(arg(0).t)
	}
	f := v.e.Spec.Funs[x.Name]
	if f == nil {
		unsup("unknown function %s in a contract", x.Name)
	}
	var args []sval
	for i := range x.Args {
		args = append(args, arg(i))
	}
	return e.call(f, args)
}

func (e *env) call(f *FunDef, args []sval) sval {
	v := e.v
	if len(args) != len(f.Params) {
		unsup("%s takes %d arguments", f.Name, len(f.Params))
	}
	ret := v.e.specSort(f.Ret)
	rt := v.e.specType(f.Ret)
	if f.Body == nil {
		v.useRec(f)
		t := "F_" + f.Name
		var ts []string
		for _, a := range args {
			ts = append(ts, a.t)
		}
		for _, l := range f.Reads {
			ts = append(ts, v.get(e.st, l))
		}
		if len(ts) > 0 {
			t = fmt.Sprintf("(%s %s)", t, strings.Join(ts, " "))
		}
		return sval{t: t, sort: ret, typ: rt}
	}
	if e.depth > 40 {
		unsup("recursive fun %s", f.Name)
	}
	vars := map[string]sval{}
	ovars := map[string]sval{}
	for i, p := range f.Params {
		a := args[i]
		if a.sort == "nil" {
			so := v.e.specSort(p.Typ)
			a = sval{t: zeroOfSort(so), sort: so}
		}
		if ty := v.e.specType(p.Typ); ty != nil {
			if a.nest && !isStruct(ty) {
				a.nest = false
			}
			if !a.nest {
				a.typ = ty
			}
		}
		vars[p.Name] = a
		ovars[p.Name] = a
	}
	n := *e
	n.vars = vars
	n.depth++
	if e.old != nil {
		o := *e.old
		o.vars = ovars
		n.old = &o
	}
	if e.pre != nil {
		o := *e.pre
		o.vars = ovars
		n.pre = &o
	}
	r := n.tr(f.Body)
	if r.sort == "nil" {
		r = sval{t: zeroOfSort(ret), sort: ret}
	}
	r.typ = rt
	return r
}

func (v *VC) useRec(f *FunDef) {
	k := "F_" + f.Name
	if v.decl[k] {
		return
	}
	v.decl[k] = true
	var ps []string
	for _, p := range f.Params {
		ps = append(ps, v.e.specSort(p.Typ))
	}
	for _, l := range f.Reads {
		ps = append(ps, v.e.sortOfLoc(l))
	}
	v.globalDef(k, fmt.Sprintf("(declare-fun %s (%s) %s)", k, strings.Join(ps, " "), v.e.specSort(f.Ret)))
}

// box/unbox convert between values and interface payloads.
func (v *VC) box(t string, ty types.Type, cur *cursor) string {
	if t == "" {
		unsup("boxing of %s", ty)
	}
	so := v.e.Reg.sortOf(ty)
	if _, ok := under(ty).(*types.Pointer); ok || so == "Int" {
		return t
	}
	v.declBox(so)
	id := sortID(so)
	if cur != nil {
		v.fact(cur.n, fmt.Sprintf("(= (unbox_%s (box_%s %s)) %s)", id, id, t, t))
	}
	return fmt.Sprintf("(box_%s %s)", id, t)
}

func (v *VC) declBox(so string) {
	id := sortID(so)
	if !v.decl["box_"+id] {
		v.decl["box_"+id] = true
		v.globalDef("box_"+id, fmt.Sprintf("(declare-fun box_%s (%s) Int)", id, so))
		v.globalDef("unbox_"+id, fmt.Sprintf("(declare-fun unbox_%s (Int) %s)", id, so))
	}
}

func (v *VC) unbox(t string, ty types.Type) string {
	so := v.e.Reg.sortOf(ty)
	if so == "Iface" {
		return t
	}
	if _, ok := under(ty).(*types.Pointer); ok || so == "Int" {
		return ivalOf(t)
	}
	v.declBox(so)
	if strings.HasPrefix(t, "(mkI ") {
		iv := splitArgs(t)[2]
		if strings.HasPrefix(iv, "(box_"+sortID(so)+" ") {
			return splitArgs(iv)[1]
		}
	}
	return fmt.Sprintf("(unbox_%s (ival %s))", sortID(so), t)
}

// readsOf collects the heap locations the spec functions in x depend on.
func (e *Engine) readsOf(x *Expr, out map[string]bool, seen map[string]bool) {
	if x == nil {
		return
	}
	if f := e.Spec.Funs[x.Name]; f != nil && (x.Op == "call" || x.Op == "id") && !seen[x.Name] {
		seen[x.Name] = true
		for _, l := range f.Reads {
			out[l] = true
		}
		e.readsOf(f.Body, out, seen)
	}
	for _, a := range x.Args {
		e.readsOf(a, out, seen)
	}
	for _, tr := range x.Trigs {
		for _, a := range tr {
			e.readsOf(a, out, seen)
		}
	}
}
