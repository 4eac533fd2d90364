package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (v *VC) constVal(c *ssa.Const) val {
	t := c.Type()
	if c.Value == nil {
		if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return val{t: "0", typ: t}
		}
		return val{t: v.e.Reg.zero(t), typ: t}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return val{t: fmt.Sprint(constant.BoolVal(c.Value)), typ: t}
	case constant.Int:
		if isString(t) {
			break
		}
		i, ok := constant.Int64Val(c.Value)
		if !ok {
			return val{t: c.Value.ExactString(), typ: t}
		}
		return val{t: num(i), typ: t}
	case constant.String:
		return val{t: v.strLit(constant.StringVal(c.Value)), typ: t}
	case constant.Float:
		if isInteger(t) {
			i, _ := constant.Int64Val(constant.ToInt(c.Value))
			return val{t: num(i), typ: t}
		}
	}
	unsup("constant %s", c)
	return val{}
}

func (v *VC) value(fr *frame, cur *cursor, x ssa.Value) val {
	switch y := x.(type) {
	case *ssa.Const:
		return v.constVal(y)
	case *ssa.Function:
		return v.closureVal(&closure{fn: y}, y.Type(), "fn_"+sani(v.e.W.Key(y)))
	case *ssa.Global:
		return v.globalAddr(y)
	case *ssa.Builtin:
		return val{t: "0", typ: y.Type()}
	}
	if r, ok := fr.regs[x]; ok {
		return r
	}
	unsup("value %s %T of %s", x.Name(), x, v.e.W.Key(fr.fn))
	return val{}
}

// enclosing is the declared function a function literal is part of.
func enclosing(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func (v *VC) closureVal(c *closure, t types.Type, name string) val {
	if name == "" {
		name = v.fresh("clo")
	}
	if !v.decl[name] {
		v.decl[name] = true
		v.globalDef(name, fmt.Sprintf("(declare-const %s Int)", name))
		v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(< 0 %s)", name), def: name, hint: true})
		v.closures[name] = c
		v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(= (fencl %s) %d)", name, v.e.fnNo(enclosing(c.fn))), def: name, hint: true})
	}
	return val{t: name, typ: t}
}

func (v *VC) globalAddr(g *ssa.Global) val {
	t := g.Type().(*types.Pointer).Elem()
	name := g.Pkg.Pkg.Name() + "." + g.Name()
	gi := v.e.globals[name]
	a := &addr{kind: 'G', loc: "G|" + name, typ: t, tab: gi}
	if isStruct(t) {
		unsup("struct global %s", name)
	}
	v.e.setLoc(a.loc, v.e.Reg.sortOf(t), t)
	return val{t: "0", typ: g.Type(), addr: a}
}

// addrOf turns a pointer value into an address.
func (v *VC) addrOf(x val) *addr {
	if x.addr != nil {
		return x.addr
	}
	t, ok := ptrElem(x.typ)
	if !ok {
		unsup("address of %s", x.typ)
	}
	if isStruct(t) {
		return &addr{kind: 'S', ref: x.t, typ: t}
	}
	if isArray(t) {
		unsup("array value through pointer")
	}
	return &addr{kind: 'H', loc: v.e.cellLoc(t), ref: x.t, typ: t}
}

func (v *VC) setPos(p token.Pos) {
	if p.IsValid() {
		pp := v.e.W.Fset.Position(p)
		v.curPos = fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, v.e.W.Repo+"/"), pp.Line)
	}
}

func (v *VC) instr(fr *frame, cur *cursor, in ssa.Instruction) {
	v.setPos(in.Pos())
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.regs[x] = v.allocInstr(fr, cur, x)
	case *ssa.Store:
		if isIgnoredAlloc(x.Addr) {
			return
		}
		a := v.addrOf(v.value(fr, cur, x.Addr))
		v.nilCheck(cur, a)
		v.store(cur, a, v.value(fr, cur, x.Val))
	case *ssa.UnOp:
		fr.regs[x] = v.unop(fr, cur, x)
	case *ssa.BinOp:
		fr.regs[x] = v.binop(fr, cur, x)
	case *ssa.FieldAddr:
		p := v.value(fr, cur, x.X)
		st, _ := ptrElem(x.X.Type())
		f := under(st).(*types.Struct).Field(x.Field)
		if p.addr != nil && p.addr.kind != 'S' {
			fr.regs[x] = val{t: "0", typ: x.Type(), addr: &addr{kind: 'F', par: p.addr, fld: x.Field, typ: f.Type()}}
			return
		}
		if p.addr != nil {
			p.t = p.addr.ref
		}
		v.nilRef(cur, p.t)
		if isStruct(f.Type()) {
			fr.regs[x] = val{t: p.t, typ: x.Type()}
			return
		}
		fr.regs[x] = val{t: "0", typ: x.Type(), addr: &addr{kind: 'H', loc: v.e.fieldLoc(st, f), ref: p.t, typ: f.Type()}}
	case *ssa.Field:
		p := v.value(fr, cur, x.X)
		d := v.e.Reg.structSort(x.X.Type())
		f := under(x.X.Type()).(*types.Struct).Field(x.Field)
		r := val{t: fmt.Sprintf("(%s_%s %s)", d.name, f.Name(), p.t), typ: x.Type()}
		v.typeFacts(cur, r.t, x.Type())
		fr.regs[x] = r
	case *ssa.IndexAddr:
		fr.regs[x] = v.indexAddr(fr, cur, x)
	case *ssa.Index:
		a, i := v.value(fr, cur, x.X), v.value(fr, cur, x.Index)
		if isString(x.X.Type()) {
			v.safety(cur, "index", fmt.Sprintf("(and (<= 0 %s) (< %s (strlen %s)))", i.t, i.t, a.t))
			fr.regs[x] = val{t: fmt.Sprintf("(strat %s %s)", a.t, i.t), typ: x.Type()}
			return
		}
		unsup("index of array value")
	case *ssa.Lookup:
		fr.regs[x] = v.lookup(fr, cur, x)
	case *ssa.Slice:
		fr.regs[x] = v.slice(fr, cur, x)
	case *ssa.MakeSlice:
		n := v.value(fr, cur, x.Len)
		c := v.value(fr, cur, x.Cap)
		v.safety(cur, "makeslice", fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", n.t, n.t, c.t))
		r := v.alloc(cur, "arr")
		v.untyped(cur, r)
		el := under(x.Type()).(*types.Slice).Elem()
		sl := fmt.Sprintf("(mkS %s 0 %s %s)", r, n.t, c.t)
		if !isByteType(el) {
			v.zeroArray(cur, el, r)
		}
		fr.regs[x] = val{t: sl, typ: x.Type()}
	case *ssa.MakeMap:
		r := v.alloc(cur, "map")
		v.untyped(cur, r)
		d, m := v.e.mapLocs(x.Type())
		mt := under(x.Type()).(*types.Map)
		ks := v.e.Reg.sortOf(mt.Key())
		v.storeH(cur, d, r, fmt.Sprintf("((as const (Array %s Bool)) false)", ks))
		v.storeH(cur, m, r, v.constArray(ks, v.e.Reg.sortOf(mt.Elem()), v.e.Reg.zero(mt.Elem())))
		fr.regs[x] = val{t: r, typ: x.Type()}
	case *ssa.MapUpdate:
		m, k, y := v.value(fr, cur, x.Map), v.value(fr, cur, x.Key), v.value(fr, cur, x.Value)
		d, mv := v.e.mapLocs(x.Map.Type())
		v.safety(cur, "nilmap", fmt.Sprintf("(not (= %s 0))", m.t))
		v.storeH(cur, d, m.t, fmt.Sprintf("(store %s %s true)", v.selectH(v.get(cur.st, d), m.t), k.t))
		v.storeH(cur, mv, m.t, fmt.Sprintf("(store %s %s %s)", v.selectH(v.get(cur.st, mv), m.t), k.t, y.t))
	case *ssa.MakeInterface:
		y := v.value(fr, cur, x.X)
		fr.regs[x] = val{t: fmt.Sprintf("(mkI %d %s)", v.e.Reg.typeTag(x.X.Type()), v.box(y.t, x.X.Type(), cur)), typ: x.Type()}
	case *ssa.ChangeInterface:
		y := v.value(fr, cur, x.X)
		fr.regs[x] = val{t: y.t, typ: x.Type()}
	case *ssa.ChangeType:
		y := v.value(fr, cur, x.X)
		y.typ = x.Type()
		fr.regs[x] = y
	case *ssa.Convert:
		fr.regs[x] = v.convert(fr, cur, x)
	case *ssa.TypeAssert:
		fr.regs[x] = v.typeAssert(fr, cur, x)
	case *ssa.Extract:
		t := v.value(fr, cur, x.Tuple)
		if x.Index >= len(t.tup) {
			unsup("extract %d of %s", x.Index, x.Tuple)
		}
		fr.regs[x] = t.tup[x.Index]
	case *ssa.MakeClosure:
		c := &closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, v.value(fr, cur, b))
		}
		fr.regs[x] = v.closureVal(c, x.Type(), "")
		v.closureFacts(fr, cur, c, fr.regs[x])
	case *ssa.Range:
		v.rangeInit(fr, cur, x)
	case *ssa.Next:
		fr.regs[x] = v.rangeNext(fr, cur, x)
	case *ssa.Call:
		fr.regs[x] = v.call(fr, cur, x, &x.Call)
	case *ssa.Defer:
		v.deferInstr(fr, cur, x)
	case *ssa.RunDefers:
		v.runDefers(fr, cur, false)
	default:
		unsup("instruction %T", in)
	}
}

func isIgnoredAlloc(a ssa.Value) bool {
	al, ok := a.(*ssa.Alloc)
	return ok && strings.HasPrefix(al.Comment, "defer$")
}

func (v *VC) nilRef(cur *cursor, ref string) {
	if _, ok := v.allocSeq[ref]; ok {
		return
	}
	v.safety(cur, "nil", fmt.Sprintf("(not (= %s 0))", ref))
}

func (v *VC) nilCheck(cur *cursor, a *addr) {
	if a.kind == 'S' || a.kind == 'H' && strings.HasPrefix(a.loc, "C|") {
		v.nilRef(cur, a.ref)
	}
}

func (v *VC) allocInstr(fr *frame, cur *cursor, x *ssa.Alloc) val {
	t := x.Type().(*types.Pointer).Elem()
	if isIgnoredAlloc(x) {
		return val{t: "0", typ: x.Type()}
	}
	if v.e.isLocalVar(x) {
		loc := "L|" + fr.prefix + x.Name()
		v.e.setLoc(loc, v.e.Reg.sortOf(t), t)
		cur.st[loc] = v.e.Reg.zero(t)
		return val{t: "0", typ: x.Type(), addr: &addr{kind: 'L', loc: loc, typ: t}}
	}
	r := v.alloc(cur, sani(clip(x.Comment, 12)))
	switch {
	case isStruct(t):
		v.structRefStore(cur, t, r, v.e.Reg.zero(t))
		if v.rtUsed {
			v.assume(cur.n, fmt.Sprintf("(= (rtype %s) %d)", r, v.e.Reg.typeTag(x.Type())))
		}
		return val{t: r, typ: x.Type()}
	case isArray(t):
		v.untyped(cur, r)
		at := under(t).(*types.Array)
		if isByteType(at.Elem()) {
			return val{t: r, typ: x.Type()}
		}
		v.zeroArray(cur, at.Elem(), r)
		return val{t: r, typ: x.Type()}
	}
	v.untyped(cur, r)
	v.storeH(cur, v.e.cellLoc(t), r, v.e.Reg.zero(t))
	return val{t: r, typ: x.Type(), addr: &addr{kind: 'H', loc: v.e.cellLoc(t), ref: r, typ: t}}
}

// constArray is the array of one value; a literal only where every solver takes it as one.
func (v *VC) constArray(ks, vs, z string) string {
	if z == "niliface" {
		z = "(mkI 0 0)"
	}
	if z == "nilslice" {
		z = "(mkS 0 0 0 0)"
	}
	if z == "0" || z == "false" || z == "(mkI 0 0)" || z == "(mkS 0 0 0 0)" {
		return fmt.Sprintf("((as const (Array %s %s)) %s)", ks, vs, z)
	}
	c := v.newConst("za", fmt.Sprintf("(Array %s %s)", ks, vs))
	v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i))))", ks, c, z, c), def: c, hint: true})
	return c
}

// zeroArray fills a new array with zero values.
func (v *VC) zeroArray(cur *cursor, el types.Type, r string) {
	loc := v.e.elemLoc(el)
	h := v.get(cur.st, loc)
	at := v.atFun(loc)
	c := v.newConst("E", v.e.sortOfLoc(loc))
	z := v.e.Reg.zero(el)
	v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(= %s (store %s %s %s))", c, h, r, v.constArray("Int", v.e.Reg.sortOf(el), z)), def: c, hint: true})
	v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(forall ((s Slice) (i Int)) (! (= (%s %s s i) (ite (= (sarr s) %s) %s (%s %s s i))) :pattern ((%s %s s i))))", at, c, r, z, at, h, at, c), def: c, hint: true})
	v.hist[c] = &hrec{prev: h, ref: r + "#new", val: z}
	cur.st[loc] = c
}

func (v *VC) unop(fr *frame, cur *cursor, x *ssa.UnOp) val {
	if x.Op == token.MUL {
		if isIgnoredAlloc(x.X) {
			return val{t: "0", typ: x.Type()}
		}
		p := v.value(fr, cur, x.X)
		if p.addr != nil && p.addr.kind == 'G' {
			gi := p.addr.tab
			t := p.addr.typ
			if gi != nil && gi.constant && gi.ok && gi.isMap {
				return val{t: "gmap:" + gi.name, typ: t}
			}
			if gi != nil && gi.constant && gi.alloc {
				n := "g_" + sani(gi.name)
				if !v.decl[n] {
					v.decl[n] = true
					v.globalDef(n, fmt.Sprintf("(declare-const %s Int)", n))
					v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(and (< 0 %s) (< %s %s))", n, n, v.initialOf("brk")), def: n, hint: true})
					v.oldRef[n] = 0
				}
				return val{t: n, typ: t}
			}
			if isArray(t) {
				unsup("load of array %s", p.addr.loc)
			}
		}
		a := v.addrOf(p)
		v.nilCheck(cur, a)
		return v.load(cur, a)
	}
	y := v.value(fr, cur, x.X)
	switch x.Op {
	case token.NOT:
		return val{t: not(y.t), typ: x.Type()}
	case token.SUB:
		return val{t: fmt.Sprintf("(- %s)", y.t), typ: x.Type()}
	case token.XOR:
		return val{t: fmt.Sprintf("(- (- %s) 1)", y.t), typ: x.Type()}
	}
	unsup("unary %s", x.Op)
	return val{}
}

func not(t string) string {
	switch {
	case t == "true":
		return "false"
	case t == "false":
		return "true"
	case strings.HasPrefix(t, "(not "):
		return t[5 : len(t)-1]
	}
	return "(not " + t + ")"
}

func (v *VC) binop(fr *frame, cur *cursor, x *ssa.BinOp) val {
	a, b := v.value(fr, cur, x.X), v.value(fr, cur, x.Y)
	r := func(f string, args ...interface{}) val {
		return val{t: v.define("t", v.e.Reg.sortOf(x.Type()), fmt.Sprintf(f, args...)), typ: x.Type()}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		var t string
		switch {
		case isSlice(x.X.Type()):
			s := a.t
			if a.t == "nilslice" {
				s = b.t
			}
			t = fmt.Sprintf("(= (sarr %s) 0)", s)
		case isString(x.X.Type()) && (strings.HasPrefix(a.t, "lit") || a.t == "str_empty") && (strings.HasPrefix(b.t, "lit") || b.t == "str_empty"):
			t = fmt.Sprint(a.t == b.t)
		case b.t == "niliface" && strings.HasPrefix(a.t, "(mkI "):
			t = "false"
		case b.t == "niliface":
			t = fmt.Sprintf("(= (itag %s) 0)", a.t)
		case isNum(a.t) && isNum(b.t):
			t = fmt.Sprint(a.t == b.t)
		default:
			t = fmt.Sprintf("(= %s %s)", a.t, b.t)
		}
		if x.Op == token.NEQ {
			t = not(t)
		}
		return val{t: t, typ: x.Type()}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(x.X.Type()) {
			return val{t: v.newConst("strcmp", "Bool"), typ: x.Type()}
		}
		return val{t: fmt.Sprintf("(%s %s %s)", x.Op, a.t, b.t), typ: x.Type()}
	case token.ADD:
		if isString(x.X.Type()) {
			return r("(strcat %s %s)", a.t, b.t)
		}
		return val{t: fmt.Sprintf("(+ %s %s)", a.t, b.t), typ: x.Type()}
	case token.SUB:
		return val{t: fmt.Sprintf("(- %s %s)", a.t, b.t), typ: x.Type()}
	case token.MUL:
		return val{t: fmt.Sprintf("(* %s %s)", a.t, b.t), typ: x.Type()}
	case token.QUO:
		v.safety(cur, "div", fmt.Sprintf("(not (= %s 0))", b.t))
		return r("(tdiv %s %s)", a.t, b.t)
	case token.REM:
		v.safety(cur, "div", fmt.Sprintf("(not (= %s 0))", b.t))
		return r("(tmod %s %s)", a.t, b.t)
	case token.AND, token.OR, token.AND_NOT:
		if isNum(a.t) && x.Op != token.AND_NOT {
			a, b = b, a
		}
		if !isNum(b.t) {
			// unknown mask
			c := v.newConst("bits", "Int")
			v.typeFacts(cur, c, x.Type())
			return val{t: c, typ: x.Type()}
		}
		var m int64
		fmt.Sscan(b.t, &m)
		var ps []string
		for i := int64(1); i <= m && i > 0; i <<= 1 {
			if m&i == 0 {
				continue
			}
			switch x.Op {
			case token.AND:
				ps = append(ps, fmt.Sprintf("(* %d (bit %s %d))", i, a.t, i))
			case token.OR:
				ps = append(ps, fmt.Sprintf("(* %d (- 1 (bit %s %d)))", i, a.t, i))
			default:
				ps = append(ps, fmt.Sprintf("(* (- %d) (bit %s %d))", i, a.t, i))
			}
		}
		if x.Op == token.AND {
			if len(ps) == 0 {
				return val{t: "0", typ: x.Type()}
			}
			if len(ps) == 1 {
				return val{t: ps[0], typ: x.Type()}
			}
			return r("(+ %s)", strings.Join(ps, " "))
		}
		if len(ps) == 0 {
			return val{t: a.t, typ: x.Type()}
		}
		return r("(+ %s %s)", a.t, strings.Join(ps, " "))
	case token.SHL:
		if isNum(b.t) {
			var k uint
			fmt.Sscan(b.t, &k)
			return r("(* %s %d)", a.t, int64(1)<<k)
		}
	}
	unsup("operator %s", x.Op)
	return val{}
}

func (v *VC) indexAddr(fr *frame, cur *cursor, x *ssa.IndexAddr) val {
	a, i := v.value(fr, cur, x.X), v.value(fr, cur, x.Index)
	if pt, ok := ptrElem(x.X.Type()); ok {
		at := under(pt).(*types.Array)
		v.safety(cur, "index", boundsGoal(i.t, num(at.Len())))
		if a.addr != nil && a.addr.kind == 'G' {
			if a.addr.tab == nil || !a.addr.tab.ok {
				unsup("array global %s", a.addr.loc)
			}
			return val{t: "0", typ: x.Type(), addr: &addr{kind: 'T', tab: a.addr.tab, idx: i.t, typ: at.Elem()}}
		}
		sl := fmt.Sprintf("(mkS %s 0 %d %d)", a.t, at.Len(), at.Len())
		k := byte('E')
		loc := ""
		if isByteType(at.Elem()) {
			k = 'B'
		} else {
			loc = v.e.elemLoc(at.Elem())
		}
		return val{t: "0", typ: x.Type(), addr: &addr{kind: k, loc: loc, sl: sl, idx: i.t, typ: at.Elem()}}
	}
	el := under(x.X.Type()).(*types.Slice).Elem()
	v.safety(cur, "index", boundsGoal(i.t, lenTerm(a.t)))
	if isByteType(el) {
		return val{t: "0", typ: x.Type(), addr: &addr{kind: 'B', sl: a.t, idx: i.t, typ: el}}
	}
	return val{t: "0", typ: x.Type(), addr: &addr{kind: 'E', loc: v.e.elemLoc(el), sl: a.t, idx: i.t, typ: el}}
}

func lenTerm(t string) string { return lenOf(sval{t: t, sort: "Slice"}) }

func boundsGoal(i, n string) string {
	if isNum(i) && isNum(n) {
		var a, b int64
		fmt.Sscan(i, &a)
		fmt.Sscan(n, &b)
		if a < b {
			return "true"
		}
	}
	return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", i, i, n)
}

func (v *VC) lookup(fr *frame, cur *cursor, x *ssa.Lookup) val {
	m, k := v.value(fr, cur, x.X), v.value(fr, cur, x.Index)
	if isString(x.X.Type()) {
		v.safety(cur, "index", fmt.Sprintf("(and (<= 0 %s) (< %s (strlen %s)))", k.t, k.t, m.t))
		return val{t: fmt.Sprintf("(strat %s %s)", m.t, k.t), typ: x.Type()}
	}
	mt := under(x.X.Type()).(*types.Map)
	var has, value string
	if strings.HasPrefix(m.t, "gmap:") {
		has, value = v.globalMap(v.e.globals[m.t[5:]], k.t)
		has = v.define("has", "Bool", has)
		value = v.define("mv", v.e.Reg.sortOf(mt.Elem()), value)
	} else {
		d, mv := v.e.mapLocs(x.X.Type())
		has = fmt.Sprintf("(select %s %s)", v.selectH(v.get(cur.st, d), m.t), k.t)
		raw := fmt.Sprintf("(select %s %s)", v.selectH(v.get(cur.st, mv), m.t), k.t)
		has = v.define("has", "Bool", fmt.Sprintf("(and (not (= %s 0)) %s)", m.t, has))
		value = v.define("mv", v.e.Reg.sortOf(mt.Elem()), fmt.Sprintf("(ite %s %s %s)", has, raw, v.e.Reg.zero(mt.Elem())))
		v.typeFacts(cur, value, mt.Elem())
	}
	r := val{t: value, typ: mt.Elem()}
	if x.CommaOk {
		return val{typ: x.Type(), tup: []val{r, {t: has, typ: types.Typ[types.Bool]}}}
	}
	return r
}

func (v *VC) slice(fr *frame, cur *cursor, x *ssa.Slice) val {
	a := v.value(fr, cur, x.X)
	lo := "0"
	if x.Low != nil {
		lo = v.value(fr, cur, x.Low).t
	}
	if x.Max != nil {
		unsup("three-index slice")
	}
	if isString(x.X.Type()) {
		hi := "(strlen " + a.t + ")"
		if x.High != nil {
			hi = v.value(fr, cur, x.High).t
		}
		v.safety(cur, "slice", fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (strlen %s)))", lo, lo, hi, hi, a.t))
		return val{t: v.define("s", "Str", fmt.Sprintf("(strsub %s %s %s)", a.t, lo, hi)), typ: x.Type()}
	}
	if pt, ok := ptrElem(x.X.Type()); ok {
		n := num(under(pt).(*types.Array).Len())
		hi := n
		if x.High != nil {
			hi = v.value(fr, cur, x.High).t
		}
		if lo == "0" && (hi == n || isNum(hi)) {
			return val{t: fmt.Sprintf("(mkS %s 0 %s %s)", a.t, hi, n), typ: x.Type()}
		}
		a.t = fmt.Sprintf("(mkS %s 0 %s %s)", a.t, n, n)
		v.safety(cur, "slice", fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s))", lo, lo, hi, hi, n))
		return val{t: fmt.Sprintf("(subS %s %s %s)", a.t, lo, hi), typ: x.Type()}
	}
	hi := lenTerm(a.t)
	if x.High != nil {
		hi = v.value(fr, cur, x.High).t
	}
	v.safety(cur, "slice", fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (vcap %s)))", lo, lo, hi, hi, a.t))
	r := val{t: v.define("sl", "Slice", fmt.Sprintf("(subS %s %s %s)", a.t, lo, hi)), typ: x.Type()}
	return r
}

func (v *VC) convert(fr *frame, cur *cursor, x *ssa.Convert) val {
	y := v.value(fr, cur, x.X)
	from, to := x.X.Type(), x.Type()
	switch {
	case isString(to) && isByteSlice(from):
		return val{t: v.define("s", "Str", fmt.Sprintf("(bstr %s)", y.t)), typ: to}
	case isString(to) && isInteger(from):
		return val{t: fmt.Sprintf("(runestr %s)", y.t), typ: to}
	case isByteSlice(to) && isString(from):
		r := v.alloc(cur, "bytes")
		v.untyped(cur, r)
		t := fmt.Sprintf("(mkS %s 0 (strlen %s) (strlen %s))", r, y.t, y.t)
		v.assume(cur.n, fmt.Sprintf("(= (bstr %s) %s)", t, y.t))
		return val{t: t, typ: to}
	case isInteger(to) && isInteger(from):
		b := under(to).(*types.Basic)
		if b.Kind() == types.Uint8 && !isByteType(from) {
			if isNum(y.t) {
				return val{t: y.t, typ: to}
			}
			return val{t: fmt.Sprintf("(mod %s 256)", y.t), typ: to}
		}
		return val{t: y.t, typ: to}
	case isString(to) && isString(from):
		return val{t: y.t, typ: to}
	}
	unsup("conversion %s to %s", from, to)
	return val{}
}

// implTest says whether the type with the tag implements interface type t.
func (v *VC) implTest(tag string, t types.Type) string {
	it := under(t).(*types.Interface)
	if it.NumMethods() == 0 {
		return fmt.Sprintf("(not (= %s 0))", tag)
	}
	var alt []string
	for _, u := range v.e.implementers(it) {
		alt = append(alt, fmt.Sprintf("(= %s %d)", tag, v.e.Reg.typeTag(u)))
	}
	if v.e.closedImpls(t) != nil {
		return "(or false " + strings.Join(alt, " ") + ")"
	}
	f := "implements_" + sani(tname(t))
	if !v.decl[f] {
		v.decl[f] = true
		v.globalDef(f, fmt.Sprintf("(declare-fun %s (Int) Bool)", f))
	}
	alt = append(alt, fmt.Sprintf("(%s %s)", f, tag))
	// types without methods
	not := []string{fmt.Sprintf("(not (= %s 0))", tag)}
	for _, b := range []types.Type{types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.Int]} {
		not = append(not, fmt.Sprintf("(not (= %s %d))", tag, v.e.Reg.typeTag(b)))
	}
	return fmt.Sprintf("(and %s (or %s))", strings.Join(not, " "), strings.Join(alt, " "))
}

func (v *VC) typeAssert(fr *frame, cur *cursor, x *ssa.TypeAssert) val {
	y := v.value(fr, cur, x.X)
	var ok string
	r := val{typ: x.AssertedType}
	if isIface(x.AssertedType) {
		ok = v.implTest(itagOf(y.t), x.AssertedType)
		ok = v.define("ok", "Bool", ok)
		r.t = y.t
		if x.CommaOk {
			r.t = v.define("ti", "Iface", fmt.Sprintf("(ite %s %s niliface)", ok, y.t))
		}
	} else {
		tag := v.e.Reg.typeTag(x.AssertedType)
		it := itagOf(y.t)
		if isNum(it) {
			ok = fmt.Sprint(it == fmt.Sprint(tag))
		} else {
			ok = fmt.Sprintf("(= %s %d)", it, tag)
		}
		r.t = v.unbox(y.t, x.AssertedType)
		if x.CommaOk && ok != "true" {
			so := v.e.Reg.sortOf(x.AssertedType)
			if _, isp := under(x.AssertedType).(*types.Pointer); !isp || true {
				c := v.newConst("ta", so)
				v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(= %s (ite %s %s %s))", c, ok, r.t, v.e.Reg.zero(x.AssertedType)), def: c, hint: true})
				r.t = c
			}
		}
	}
	if x.CommaOk {
		v.typeFacts(cur, r.t, x.AssertedType)
		return val{typ: x.Type(), tup: []val{r, {t: ok, typ: types.Typ[types.Bool]}}}
	}
	v.safety(cur, "typeassert", ok)
	v.typeFacts(cur, r.t, x.AssertedType)
	return r
}

// kindOf computes Kind() of an interface value from the bodies of the Kind
// methods.
func (v *VC) kindOf(t string) string {
	out := ""
	var ts []types.Type
	for _, p := range sortedKeys(v.e.W.Pkgs) {
		sc := v.e.W.Pkgs[p].Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() && !isIface(tn.Type()) {
				ts = append(ts, tn.Type(), types.NewPointer(tn.Type()))
			}
		}
	}
	f := "kind_other"
	if !v.decl[f] {
		v.decl[f] = true
		v.globalDef(f, fmt.Sprintf("(declare-fun %s (Iface) Int)", f))
	}
	out = fmt.Sprintf("(kind_other %s)", t)
	for _, ty := range ts {
		sel := types.NewMethodSet(ty).Lookup(nil, "Kind")
		if sel == nil {
			continue
		}
		fn := v.e.W.Prog.MethodValue(sel)
		k, ok := v.e.constResult(fn)
		if !ok {
			continue
		}
		out = fmt.Sprintf("(ite (= %s %d) %s %s)", itagOf(t), v.e.Reg.typeTag(ty), num(k), out)
	}
	return out
}

// constResult finds the constant a one-line method returns.
func (e *Engine) constResult(fn *ssa.Function) (int64, bool) {
	if fn == nil {
		return 0, false
	}
	if fn.Synthetic != "" && fn.Object() != nil {
		if g := e.W.Prog.FuncValue(fn.Object().(*types.Func)); g != nil {
			fn = g
		}
	}
	if len(fn.Blocks) != 1 {
		return 0, false
	}
	r, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return 0, false
	}
	res := r.Results[0]
	if u, ok := res.(*ssa.UnOp); ok && u.Op == token.MUL {
		// a result variable that is assigned once
		a, ok := u.X.(*ssa.Alloc)
		if !ok || a.Heap {
			return 0, false
		}
		res = nil
		for _, in := range fn.Blocks[0].Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == a {
				if res != nil {
					return 0, false
				}
				res = st.Val
			}
			if _, ok := in.(ssa.CallInstruction); ok {
				if c, ok := in.(*ssa.Call); !ok || c.Call.Value.Name() != "ssa:deferstack" {
					return 0, false
				}
			}
		}
	}
	c, ok := res.(*ssa.Const)
	if !ok || c == nil {
		return 0, false
	}
	return c.Int64(), true
}

// ---------------------------------------------------------------------------
// range over strings and maps

func (v *VC) rangeInit(fr *frame, cur *cursor, x *ssa.Range) {
	m := v.value(fr, cur, x.X)
	ii := iterInfo{m: m}
	if isString(x.X.Type()) {
		ii.str = m.t
		ii.loc = "X|" + fr.prefix + x.Name()
		v.e.setLoc(ii.loc, "Int", nil)
		cur.st[ii.loc] = "0"
	} else {
		ii.smap = true
		// the set of keys already visited
		mt := under(x.X.Type()).(*types.Map)
		ii.loc = "X|" + fr.prefix + x.Name()
		ks := v.e.Reg.sortOf(mt.Key())
		v.e.setLoc(ii.loc, "(Array "+ks+" Bool)", nil)
		cur.st[ii.loc] = fmt.Sprintf("((as const (Array %s Bool)) false)", ks)
		ii.cnt = "X|" + fr.prefix + x.Name() + "#"
		v.e.setLoc(ii.cnt, "Int", nil)
		cur.st[ii.cnt] = "0"
		d, _ := v.e.mapLocs(x.X.Type())
		ii.dom0 = v.define("dom0", "(Array "+ks+" Bool)", v.selectH(v.get(cur.st, d), m.t))
	}
	fr.iters[x] = ii
	fr.regs[x] = val{t: "0", typ: x.Type()}
}

// mapLen is the number of keys of a map.
func (v *VC) mapLen(st state, m string, t types.Type) string {
	d, _ := v.e.mapLocs(t)
	ks := v.e.Reg.sortOf(under(t).(*types.Map).Key())
	if ks != "Str" && ks != "Int" {
		unsup("len of a map with keys of sort %s", ks)
	}
	return fmt.Sprintf("(ite (= %s 0) 0 (card_%s %s))", m, ks, v.selectH(v.get(st, d), m))
}

func (v *VC) rangeNext(fr *frame, cur *cursor, x *ssa.Next) val {
	ii := fr.iters[x.Iter]
	ok := v.newConst("ok", "Bool")
	tt := x.Type().(*types.Tuple)
	if !ii.smap {
		pos := cur.st[ii.loc]
		r := v.newConst("rune", "Int")
		w := v.newConst("w", "Int")
		s := ii.str
		v.assume(cur.n, fmt.Sprintf("(and (= %s (< %s (strlen %s))) (=> %s (and (<= 1 %s) (<= %s 4) (<= (+ %s %s) (strlen %s)) (=> (< (strat %s %s) 128) (and (= %s 1) (= %s (strat %s %s)))) (=> (>= (strat %s %s) 128) (and (>= %s 128) (<= %s 1114111))))))",
			ok, pos, s, ok, w, w, pos, w, s, s, pos, w, r, s, pos, s, pos, r, r))
		cur.st[ii.loc] = v.define("pos", "Int", fmt.Sprintf("(ite %s (+ %s %s) %s)", ok, pos, w, pos))
		return val{typ: x.Type(), tup: []val{{t: ok, typ: types.Typ[types.Bool]}, {t: pos, typ: intType}, {t: r, typ: types.Typ[types.Rune]}}}
	}
	mt := under(ii.m.typ).(*types.Map)
	d, mv := v.e.mapLocs(ii.m.typ)
	k := v.newConst("key", v.e.Reg.sortOf(mt.Key()))
	v.typeFacts(cur, k, mt.Key())
	dom := v.selectH(v.get(cur.st, d), ii.m.t)
	seen := cur.st[ii.loc]
	ks := v.e.Reg.sortOf(mt.Key())
	v.assume(cur.n, fmt.Sprintf("(=> %s (and (not (= %s 0)) (select %s %s) (not (select %s %s))))", ok, ii.m.t, dom, k, seen, k))
	v.assume(cur.n, fmt.Sprintf("(=> (not %s) (forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k)))))", ok, ks, dom, seen, dom))
	if ks == "Str" || ks == "Int" {
		// every key is visited once when the keys stay the same
		n := cur.st[ii.cnt]
		l := fmt.Sprintf("(ite (= %s 0) 0 (card_%s %s))", ii.m.t, ks, dom)
		v.assume(cur.n, fmt.Sprintf("(=> (= %s %s) (ite %s (< %s %s) (= %s %s)))", dom, ii.dom0, ok, n, l, n, l))
	}
	cur.st[ii.cnt] = v.define("cnt", "Int", fmt.Sprintf("(ite %s (+ %s 1) %s)", ok, cur.st[ii.cnt], cur.st[ii.cnt]))
	cur.st[ii.loc] = v.newConst("seen", "(Array "+ks+" Bool)")
	v.assume(cur.n, fmt.Sprintf("(= %s (ite %s (store %s %s true) %s))", cur.st[ii.loc], ok, seen, k, seen))
	val2 := fmt.Sprintf("(select %s %s)", v.selectH(v.get(cur.st, mv), ii.m.t), k)
	v.typeFacts(cur, val2, mt.Elem())
	_ = tt
	return val{typ: x.Type(), tup: []val{{t: ok, typ: types.Typ[types.Bool]}, {t: k, typ: mt.Key()}, {t: val2, typ: mt.Elem()}}}
}

// ---------------------------------------------------------------------------
// control flow

func (v *VC) newFrame(fn *ssa.Function, parent *frame) *frame {
	v.depth++
	fr := &frame{fn: fn, id: v.depth, regs: map[ssa.Value]val{}, loops: map[*ssa.BasicBlock]*loopInfo{}, parent: parent, iters: map[ssa.Value]iterInfo{}, pre: map[int]state{}}
	fr.prefix = fmt.Sprintf("%d.%d.", fr.id, v.e.fnNo(fn))
	if fr.id > 400 {
		unsup("too many inlined calls in %s", v.e.W.Key(v.fn))
	}
	// loops
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fr.loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = l
				}
				var st = []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					st = append(st, x.Preds...)
				}
				continue
			}
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fr.order = append(fr.order, post[i])
	}
	var hs []*ssa.BasicBlock
	for h := range fr.loops {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	// source order: by position of the loop body
	sort.SliceStable(hs, func(i, j int) bool { return blockPos(fr.loops[hs[i]]) < blockPos(fr.loops[hs[j]]) })
	for i, h := range hs {
		fr.loops[h].ord = i + 1
	}
	return fr
}

func blockPos(l *loopInfo) token.Pos {
	best := token.Pos(1 << 40)
	for b := range l.body {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && p < best {
				best = p
			}
		}
	}
	return best
}

// run translates the body of a frame from cur on.
func (v *VC) run(fr *frame, cur *cursor) {
	in := map[*ssa.BasicBlock][]edge{}
	first := fr.fn.Blocks[0]
	in[first] = []edge{{n: cur.n, st: cur.st, guard: cur.n.guard}}
	for _, b := range fr.order {
		es := in[b]
		if len(es) == 0 {
			continue
		}
		c := v.merge(es)
		v.phis(fr, c, b, es)
		if l := fr.loops[b]; l != nil {
			v.loopHead(fr, c, l)
		}
		v.block(fr, c, b, in)
	}
}

func (v *VC) phis(fr *frame, c *cursor, b *ssa.BasicBlock, es []edge) {
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if fr.loops[b] != nil {
			unsup("phi at loop header")
		}
		var ts []string
		var last val
		for _, e := range es {
			for i, q := range b.Preds {
				if q == e.from {
					last = v.value(fr, c, p.Edges[i])
					ts = append(ts, last.t)
					break
				}
			}
		}
		if len(ts) == 1 {
			fr.regs[p] = last
			continue
		}
		fr.regs[p] = val{t: v.joinTerms(c.n, es, ts, v.e.Reg.sortOf(p.Type()), "phi"), typ: p.Type()}
	}
}

func (v *VC) block(fr *frame, c *cursor, b *ssa.BasicBlock, in map[*ssa.BasicBlock][]edge) {
	send := func(s *ssa.BasicBlock, cond string) {
		if cond == "false" {
			return
		}
		e := v.mkEdge(c, cond, b)
		if s.Dominates(b) && fr.loops[s] != nil {
			v.loopBack(fr, fr.loops[s], e)
			return
		}
		in[s] = append(in[s], e)
	}
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi:
		case *ssa.If:
			v.setPos(x.Cond.Pos())
			cond := v.value(fr, c, x.Cond).t
			if v.skipBranch(fr, c, cond, b) {
				cond = "false"
			}
			send(b.Succs[0], cond)
			send(b.Succs[1], not(cond))
			return
		case *ssa.Jump:
			send(b.Succs[0], "true")
			return
		case *ssa.Return:
			v.setPos(x.Pos())
			var rs []val
			for _, r := range x.Results {
				rs = append(rs, v.value(fr, c, r))
			}
			fr.rets = append(fr.rets, edge{n: c.n, st: c.st, guard: c.n.guard, vals: rs})
			return
		case *ssa.Panic:
			v.setPos(x.Pos())
			if mi, ok := x.X.(*ssa.MakeInterface); ok && tname(mi.X.Type()) == v.bailoutType() {
				st := c.st.clone()
				st["X|panic"] = fmt.Sprintf("(mkI %d 0)", v.e.Reg.typeTag(mi.X.Type()))
				v.excExit(fr, edge{n: c.n, st: st, guard: c.n.guard})
				return
			}
			v.safety(c, "panic", "false")
			return
		default:
			v.instr(fr, c, ins)
		}
	}
}

func (v *VC) bailoutType() string { return "parser.bailout" }

// skipBranch: blocks that only register a deferred call under a condition the
// contract excludes (tracing) are dropped if the solver says they are dead.
func (v *VC) skipBranch(fr *frame, c *cursor, cond string, b *ssa.BasicBlock) bool {
	t := b.Succs[0]
	hasDefer := false
	for _, in := range t.Instrs {
		switch in.(type) {
		case *ssa.Defer:
			hasDefer = true
		}
	}
	if !hasDefer {
		return false
	}
	return v.unsatNow(c, cond)
}

// excExit records an exceptional exit of the frame.
func (v *VC) excExit(fr *frame, e edge) {
	fr.excs = append(fr.excs, e)
}
