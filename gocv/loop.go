package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type linv struct {
	name string
	e    *Expr
	t    func(c *cursor) (string, bool) // engine generated
	auto bool
	as   map[string]string // names of the clause that stand for locals
	at0  bool              // parameters are those at entry
	top  bool              // old is the entry of the function being verified
}

// localNames lists the named locals of a function, in the order of the code.
func localNames(f *ssa.Function) [][2]string {
	var out [][2]string
	for _, fv := range f.FreeVars {
		out = append(out, [2]string{fv.Name(), fv.Type().String()})
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment != "" && !strings.ContainsAny(a.Comment, " .$(") {
				out = append(out, [2]string{a.Comment, a.Type().String()})
			}
		}
	}
	return out
}

// renamed maps names of locals that clauses were written for to the names that
// the code uses now: locals of the same type, in order. A wrong guess only makes
// a clause that cannot be shown.
func (e *Engine) renamed(f *ssa.Function) map[string]string {
	if m, ok := e.renames[f]; ok {
		return m
	}
	m := map[string]string{}
	e.renames[f] = m
	was := e.Spec.Locals[e.W.Key(f)]
	now := localNames(f)
	has := func(l [][2]string, n string) bool {
		for _, x := range l {
			if x[0] == n {
				return true
			}
		}
		return false
	}
	used := map[string]bool{}
	for _, p := range f.Params {
		used[p.Name()] = true
	}
	for _, o := range was {
		if has(now, o[0]) || m[o[0]] != "" {
			continue
		}
		for _, n := range now {
			if n[1] == o[1] && !has(was, n[0]) && !used[n[0]] {
				m[o[0]] = n[0]
				used[n[0]] = true
				break
			}
		}
	}
	return m
}

// conjuncts splits a clause.
func conjuncts(x *Expr) []*Expr {
	imp := func(c, y *Expr) (out []*Expr) {
		for _, k := range conjuncts(y) {
			out = append(out, &Expr{Op: "==>", Args: []*Expr{c, k}, Src: x.Src})
		}
		return out
	}
	switch x.Op {
	case "&&":
		return append(conjuncts(x.Args[0]), conjuncts(x.Args[1])...)
	case "==>":
		return imp(x.Args[0], x.Args[1])
	case "ite":
		return append(imp(x.Args[0], x.Args[1]), imp(&Expr{Op: "!", Args: []*Expr{x.Args[0]}, Src: x.Src}, x.Args[2])...)
	}
	return []*Expr{x}
}

// localEnv makes the names of a frame visible to a clause.
func (v *VC) localEnv(fr *frame, c *cursor, l *loopInfo) *env {
	var en, inl *env
	if fr.top && v.entryEnv != nil {
		en = v.entryEnv.with(nil)
		en.old = v.entryEnv
	} else {
		ct := v.contractOf(fr.fn)
		var args []val
		for _, p := range fr.fn.Params {
			args = append(args, fr.regs[p])
		}
		en = v.paramEnv(ct, fr.fn, args, nil, c, c.st)
		if v.entryEnv != nil {
			st := fr.entry
			if st == nil {
				st = v.entry
			}
			en.old = &env{v: v, cur: c, st: st, vars: en.vars}
			inl = en.old
		}
	}
	en.cur, en.st = c, c.st
	vars := map[string]sval{}
	best := map[string]*ssa.Alloc{}
	for _, b := range fr.fn.Blocks {
		if !b.Dominates(l.header) {
			continue
		}
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Comment == "" || strings.ContainsAny(a.Comment, " .$(") {
				continue
			}
			if _, done := fr.regs[a]; !done {
				continue
			}
			best[a.Comment] = a
		}
	}
	for n, a := range best {
		if s, ok := v.allocVal(fr, c, a); ok {
			vars[n] = s
		}
	}
	if v.pool && !fr.top {
		// clauses may have been written for the code before a helper was taken out of it
		for p := fr.parent; p != nil; p = p.parent {
			mine := map[string]bool{}
			for _, b := range p.fn.Blocks {
				for _, in := range b.Instrs {
					a, ok := in.(*ssa.Alloc)
					if !ok || a.Comment == "" || best[a.Comment] != nil || en.has(a.Comment) {
						continue
					}
					if _, is := vars[a.Comment]; is && !mine[a.Comment] {
						continue
					}
					if _, done := p.regs[a]; done {
						if s, ok := v.allocVal(p, c, a); ok {
							vars[a.Comment], mine[a.Comment] = s, true
						}
					}
				}
			}
			for _, q := range p.fn.Params {
				if x := p.regs[q]; x.t != "" && !strings.HasPrefix(x.t, "gmap:") && !en.has(q.Name()) {
					if _, is := vars[q.Name()]; !is {
						vars[q.Name()] = sval{t: x.t, sort: v.e.Reg.sortOf(x.typ), typ: x.typ}
					}
				}
			}
		}
	}
	// captured variables
	for i, f := range fr.fn.FreeVars {
		_ = i
		x := fr.regs[f]
		if x.addr != nil && x.addr.kind == 'H' {
			vars[f.Name()] = sval{t: v.selectH(v.get(c.st, x.addr.loc), x.addr.ref), sort: v.e.Reg.sortOf(x.addr.typ), typ: x.addr.typ}
		}
	}
	if a := rangeIndex(fr, l); a != nil {
		if s, ok := v.allocVal(fr, c, a); ok {
			vars["$n"] = sI(fmt.Sprintf("(+ %s 1)", s.t))
			// a loop "for i < n" that became a range over the same values
			for b := range l.body {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					u, ok := st.Val.(*ssa.UnOp)
					i, ok2 := st.Addr.(*ssa.Alloc)
					if ok && ok2 && u.X == a && i.Comment != "" {
						if _, is := vars[i.Comment]; !is && !en.has(i.Comment) {
							vars[i.Comment] = vars["$n"]
						}
					}
				}
			}
		}
	} else if i, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		// a range that became a loop "for i < n"
		if b, ok := i.Cond.(*ssa.BinOp); ok && b.Op.String() == "<" {
			if u, ok := b.X.(*ssa.UnOp); ok {
				if a, ok := u.X.(*ssa.Alloc); ok && isInteger(a.Type().(*types.Pointer).Elem()) {
					if s, ok := v.allocVal(fr, c, a); ok {
						vars["$n"] = s
					}
				}
			}
		}
	}
	for _, in := range l.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			ii := fr.iters[nx.Iter]
			if !ii.smap {
				vars["$pos"] = sI(c.st[ii.loc])
			} else {
				vars["$n"] = sI(c.st[ii.cnt])
				vars["$seen"] = sval{t: c.st[ii.loc], sort: v.e.locSort[ii.loc]}
			}
		}
	}
	ren := v.e.renamed(fr.fn)
	for o, n := range ren {
		if x, ok := vars[n]; ok {
			if _, is := vars[o]; !is {
				vars[o] = x
			}
		}
	}
	en = en.with(vars)
	if inl != nil {
		en.old = inl
	} else {
		en.old = v.entryEnv
	}
	if st, ok := fr.pre[l.ord]; ok {
		pe := *en
		pe.st = st
		pvars := map[string]sval{}
		for k, x := range en.vars {
			pvars[k] = x
		}
		for n, a := range best {
			if s, ok := v.allocVal(fr, &cursor{c.n, st}, a); ok {
				pvars[n] = s
			}
		}
		for o, n := range ren {
			if _, is := best[n]; is && best[o] == nil {
				pvars[o] = pvars[n]
			}
		}
		pe.vars = pvars
		en.pre = &pe
	}
	return en
}

func (v *VC) allocVal(fr *frame, c *cursor, a *ssa.Alloc) (sval, bool) {
	x := fr.regs[a]
	t := a.Type().(*types.Pointer).Elem()
	if x.addr == nil {
		if isStruct(t) {
			return sval{t: x.t, sort: "Int", typ: types.NewPointer(t)}, true
		}
		return sval{}, false
	}
	switch x.addr.kind {
	case 'L':
		s, ok := c.st[x.addr.loc]
		if !ok || strings.HasPrefix(s, "gmap:") {
			return sval{}, false
		}
		return sval{t: s, sort: v.e.Reg.sortOf(t), typ: t}, true
	case 'H':
		return sval{t: v.selectH(v.get(c.st, x.addr.loc), x.addr.ref), sort: v.e.Reg.sortOf(t), typ: t}, true
	}
	return sval{}, false
}

// rangeIndex finds the hidden index variable of a range loop.
func rangeIndex(fr *frame, l *loopInfo) *ssa.Alloc {
	for _, in := range l.header.Instrs {
		if u, ok := in.(*ssa.UnOp); ok {
			if a, ok := u.X.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				return a
			}
		}
	}
	return nil
}

// rangeLen is the register holding the length a range loop counts to.
func (v *VC) rangeLen(fr *frame, c *cursor, l *loopInfo) (string, bool) {
	i, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return "", false
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok || b.Op.String() != "<" {
		return "", false
	}
	if k, ok := b.Y.(*ssa.Const); ok {
		return v.constVal(k).t, true
	}
	x, ok := fr.regs[b.Y]
	return x.t, ok
}

// counters finds local variables compared with "<" in the header of a plain
// counting loop; they are candidates for bounds.
func (v *VC) invariants(fr *frame, l *loopInfo) []linv {
	var out []linv
	key := v.e.W.Key(fr.fn)
	pfx := ""
	if !fr.top {
		pfx = "inlined:" + key + ":"
	}
	if a := rangeIndex(fr, l); a != nil {
		out = append(out, linv{name: "range", t: func(c *cursor) (string, bool) {
			s, ok := v.allocVal(fr, c, a)
			n, ok2 := v.rangeLen(fr, c, l)
			if !ok || !ok2 {
				return "", false
			}
			return fmt.Sprintf("(and (<= (- 1) %s) (or (< %s %s) (= %s (- 1))))", s.t, s.t, n, s.t), true
		}})
	}
	for _, in := range l.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			ii := fr.iters[nx.Iter]
			out = append(out, linv{name: "range", t: func(c *cursor) (string, bool) {
				return fmt.Sprintf("(<= 0 %s)", c.st[ii.cnt]), true
			}})
		}
		if nx, ok := in.(*ssa.Next); ok && nx.IsString {
			ii := fr.iters[nx.Iter]
			out = append(out, linv{name: "range", t: func(c *cursor) (string, bool) {
				p := c.st[ii.loc]
				return fmt.Sprintf("(and (<= 0 %s) (<= %s (strlen %s)))", p, p, ii.str), true
			}})
		}
	}
	ct := v.contractOf(fr.fn)
	if ct != nil {
		for _, i := range ct.Invs {
			if v.active(i.Tags) && (i.Loop == l.ord || i.Loop < 0) && !v.pool {
				out = append(out, linv{name: fmt.Sprintf("inv@%d.%d", l.ord, i.Idx), e: i.E})
			}
		}
	}
	// candidates that are kept only if they can be shown
	cand := func(name string, e *Expr, t func(c *cursor) (string, bool)) {
		n := fmt.Sprintf("%sloop%d:%s", pfx, l.ord, name)
		if v.loopTry[n] {
			return
		}
		out = append(out, linv{name: n, e: e, t: t, auto: true})
	}
	if v.pool {
		// what a function returns is often built up by its loops
		results := func(c *Contract, f *ssa.Function) {
			if c == nil || f == nil {
				return
			}
			res := f.Signature.Results()
			for k, rn := range c.Results {
				if k >= res.Len() {
					break
				}
				done := map[string]bool{}
				for _, b := range fr.fn.Blocks {
					if !b.Dominates(l.header) {
						continue
					}
					for _, in := range b.Instrs {
						a, ok := in.(*ssa.Alloc)
						if !ok || a.Comment == "" || a.Comment == rn || done[a.Comment] || strings.ContainsAny(a.Comment, " .$(") ||
							!types.Identical(a.Type().(*types.Pointer).Elem(), res.At(k).Type()) {
							continue
						}
						done[a.Comment] = true
						for _, q := range c.Ensures {
							if !v.active(q.Tags) || !mentions(q.E, rn) {
								continue
							}
							for j, x := range conjuncts(q.E) {
								n := len(out)
								cand(fmt.Sprintf("as.%s.%d.%d.%s=%s", c.Key, q.Idx, j, rn, a.Comment), x, nil)
								if len(out) > n {
									out[n].as, out[n].at0 = map[string]string{rn: a.Comment}, true
								}
							}
						}
					}
				}
			}
		}
		results(ct, fr.fn)
		if v.ct != ct {
			results(v.ct, v.fn)
		}
		seen := map[string]bool{}
		add := func(c *Contract) {
			if c == nil {
				return
			}
			for _, i := range c.Invs {
				if v.active(i.Tags) && !seen[i.Src] {
					seen[i.Src] = true
					cand(fmt.Sprintf("inv.%s.%d", c.Key, i.Idx), i.E, nil)
				}
			}
			for _, i := range c.Requires {
				if v.active(i.Tags) && !seen[i.Src] {
					seen[i.Src] = true
					cand(fmt.Sprintf("req.%s.%d", c.Key, i.Idx), i.E, nil)
				}
			}
			for _, i := range c.Ensures {
				if v.active(i.Tags) && !seen[i.Src] {
					seen[i.Src] = true
					cand(fmt.Sprintf("ens.%s.%d", c.Key, i.Idx), i.E, nil)
				}
			}
		}
		add(ct)
		first := len(out)
		add(v.ct)
		defer func() {
			for i := first; i < len(out); i++ {
				out[i].top = !fr.top && ct != v.ct
			}
		}()
		if !fr.top && ct == nil && v.ct != nil && v.fn != nil {
			for _, q := range v.ct.Invs {
				if !v.active(q.Tags) {
					continue
				}
				for _, o := range v.e.Spec.Locals[v.e.W.Key(v.fn)] {
					if !mentions(q.E, o[0]) {
						continue
					}
					for _, m := range localNames(fr.fn) {
						if m[1] == o[1] && m[0] != o[0] {
							n := len(out)
							cand(fmt.Sprintf("inv.%s.%d.%s=%s", v.ct.Key, q.Idx, o[0], m[0]), q.E, nil)
							if len(out) > n {
								out[n].as = map[string]string{o[0]: m[0]}
							}
						}
					}
				}
			}
		}
		for k, f := range v.counterCands(fr, l) {
			cand(k, nil, f)
		}
	}
	return out
}

// counterCands proposes bounds for integer locals compared in the loop header.
func (v *VC) counterCands(fr *frame, l *loopInfo) map[string]func(c *cursor) (string, bool) {
	out := map[string]func(c *cursor) (string, bool){}
	ri := rangeIndex(fr, l)
	for b := range l.body {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			u, ok := bo.X.(*ssa.UnOp)
			if !ok {
				continue
			}
			a, ok := u.X.(*ssa.Alloc)
			if !ok || !isInteger(a.Type().(*types.Pointer).Elem()) {
				continue
			}
			out["lo:"+a.Comment] = func(c *cursor) (string, bool) {
				s, ok := v.allocVal(fr, c, a)
				if !ok {
					return "", false
				}
				return fmt.Sprintf("(<= 0 %s)", s.t), true
			}
			if ri != nil && a != ri {
				out["range:"+a.Comment] = func(c *cursor) (string, bool) {
					s, ok := v.allocVal(fr, c, a)
					i, ok2 := v.allocVal(fr, c, ri)
					if !ok || !ok2 {
						return "", false
					}
					return fmt.Sprintf("(<= %s (+ %s 1))", s.t, i.t), true
				}
			}
			switch bo.Op.String() {
			case "<", "<=", "!=":
				if cl, ok := bo.Y.(*ssa.Call); ok {
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if lu, ok := cl.Call.Args[0].(*ssa.UnOp); ok {
							if la, ok := lu.X.(*ssa.Alloc); ok {
								out["hi:"+a.Comment] = func(c *cursor) (string, bool) {
									s, ok := v.allocVal(fr, c, a)
									n, ok2 := v.allocVal(fr, c, la)
									if !ok || !ok2 || n.sort != "Slice" && n.sort != "Str" {
										return "", false
									}
									return fmt.Sprintf("(<= %s %s)", s.t, lenOf(n)), true
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func (v *VC) invTerm(fr *frame, c *cursor, l *loopInfo, i linv) (string, bool) {
	if i.t != nil {
		return i.t(c)
	}
	en := v.localEnv(fr, c, l)
	if i.top && v.entryEnv != nil {
		n := *en
		n.old = v.entryEnv
		en = &n
	}
	if i.as != nil {
		vars := map[string]sval{}
		if en.old != nil && i.at0 {
			for k, x := range en.old.vars {
				vars[k] = x
			}
		}
		for k, n := range i.as {
			x, ok := en.vars[n]
			if !ok {
				return "", false
			}
			vars[k] = x
		}
		old, pre := en.old, en.pre
		en = en.with(vars)
		en.old, en.pre = old, pre
	}
	if i.auto {
		ok := false
		var t string
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(unsupported); is {
						ok = false
						return
					}
					panic(r)
				}
			}()
			t, ok = v.tryTr(en, i.e)
		}()
		return t, ok
	}
	return v.tryTr(en, i.e)
}

func (v *VC) loopHead(fr *frame, c *cursor, l *loopInfo) {
	v.hasLoops = true
	c.st = c.st.clone()
	fr.pre[l.ord] = c.st.clone()
	invs := v.invariants(fr, l)
	loopName := fmt.Sprintf("loop%d", l.ord)
	if !fr.top {
		loopName = v.e.W.Key(fr.fn) + ":" + loopName
	}
	for _, i := range invs {
		if t, ok := v.invTerm(fr, c, l, i); ok {
			v.assertInv(c, i, loopName, "init", t)
		}
	}
	v.checkHeap(c, loopName+"/init")
	v.havocLoop(fr, c, l)
	fr.loopSt(l, c.st.clone(), invs)
	for _, i := range invs {
		if t, ok := v.invTerm(fr, c, l, i); ok {
			v.assume(c.n, t)
		}
	}
	v.assumeHeap(c)
	// measure
	if v.prop.Term {
		m, ok := v.loopMeasure(fr, c, l)
		if ok {
			for i := range m {
				m[i] = v.define("measure", "Int", "(+ 0 0 "+m[i]+")")
			}
			fr.measure(l, m)
		} else if !v.finiteLoop(fr, l) {
			v.assert(c, "term:"+loopName, "false")
		}
	}
}

func (v *VC) assertInv(c *cursor, i linv, loop, what, t string) {
	for _, g := range v.splitGoal(t) {
		if i.auto {
			o := v.assert(c, "auto:"+i.name+"/"+what, g)
			o.extra = []string{i.name}
			continue
		}
		v.assert(c, fmt.Sprintf("%s/%s/%s", loop, i.name, what), g)
	}
}

// finiteLoop: ranges over strings and maps end by themselves.
func (v *VC) finiteLoop(fr *frame, l *loopInfo) bool {
	for _, in := range l.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

func (v *VC) loopMeasure(fr *frame, c *cursor, l *loopInfo) ([]string, bool) {
	if a := rangeIndex(fr, l); a != nil {
		s, ok := v.allocVal(fr, c, a)
		n, ok2 := v.rangeLen(fr, c, l)
		if ok && ok2 {
			return []string{fmt.Sprintf("(- %s %s)", n, s.t)}, true
		}
	}
	try := func(ct *Contract, match func(d *Clause) bool) ([]string, bool) {
		if ct == nil {
			return nil, false
		}
		var out []string
		en := v.localEnv(fr, c, l)
		for _, d := range ct.Decreases {
			if !v.active(d.Tags) || !match(d) {
				continue
			}
			ok := func() (ok bool) {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(missingName); is {
							ok = false
							return
						}
						panic(r)
					}
				}()
				out = append(out, en.tr(d.E).t)
				return true
			}()
			if !ok {
				return nil, false
			}
		}
		return out, len(out) > 0
	}
	ct := v.contractOf(fr.fn)
	if m, ok := try(ct, func(d *Clause) bool { return d.Loop == l.ord }); ok {
		return m, true
	}
	if m, ok := v.counterMeasure(fr, c, l); ok {
		return m, true
	}
	if v.finiteLoop(fr, l) {
		return nil, false
	}
	if m, ok := try(ct, func(d *Clause) bool { return d.Loop >= 0 }); ok {
		return m, true
	}
	return try(v.ct, func(d *Clause) bool { return d.Loop >= 0 })
}

// counterMeasure handles "for i < n" loops: n - i.
func (v *VC) counterMeasure(fr *frame, c *cursor, l *loopInfo) ([]string, bool) {
	i, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	term := func(x ssa.Value) (string, bool) {
		switch y := x.(type) {
		case *ssa.Const:
			return v.constVal(y).t, true
		case *ssa.UnOp:
			if a, ok := y.X.(*ssa.Alloc); ok {
				s, ok := v.allocVal(fr, c, a)
				return s.t, ok && s.sort == "Int"
			}
		case *ssa.Call:
			if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if lu, ok := y.Call.Args[0].(*ssa.UnOp); ok {
					if la, ok := lu.X.(*ssa.Alloc); ok {
						s, ok := v.allocVal(fr, c, la)
						if ok && (s.sort == "Slice" || s.sort == "Str") {
							return lenOf(s), true
						}
					}
				}
			}
		}
		if r, ok := fr.regs[x]; ok && !l.body[x.(ssa.Instruction).Block()] {
			return r.t, true
		}
		return "", false
	}
	x, ok1 := term(b.X)
	y, ok2 := term(b.Y)
	if !ok1 || !ok2 {
		return nil, false
	}
	switch b.Op.String() {
	case "<", "<=":
		return []string{fmt.Sprintf("(- (+ %s 1) %s)", y, x)}, true
	case ">", ">=":
		return []string{fmt.Sprintf("(- (+ %s 1) %s)", x, y)}, true
	}
	return nil, false
}

func (v *VC) loopBack(fr *frame, l *loopInfo, e edge) {
	c := v.merge([]edge{e})
	c.st = c.st.clone()
	st := fr.lst[l]
	loopName := fmt.Sprintf("loop%d", l.ord)
	if !fr.top {
		loopName = v.e.W.Key(fr.fn) + ":" + loopName
	}
	for _, i := range st.invs {
		if t, ok := v.invTerm(fr, c, l, i); ok {
			v.assertInv(c, i, loopName, "keep", t)
		}
	}
	v.checkHeap(c, loopName+"/keep")
	if v.prop.Term && st.m != nil {
		m, ok := v.loopMeasure(fr, c, l)
		goal := "false"
		if ok {
			goal = lexLess(m, st.m)
		}
		v.assert(c, "term:"+loopName, goal)
	}
}

type loopState struct {
	st   state
	invs []linv
	m    []string
}

func (fr *frame) loopSt(l *loopInfo, st state, invs []linv) {
	if fr.lst == nil {
		fr.lst = map[*loopInfo]*loopState{}
	}
	fr.lst[l] = &loopState{st: st, invs: invs}
}

func (fr *frame) measure(l *loopInfo, m []string) { fr.lst[l].m = m }

// havocLoop forgets everything the loop body may change.
func (v *VC) havocLoop(fr *frame, c *cursor, l *loopInfo) {
	type hv struct {
		refs map[string]bool
		fr   bool
		top  bool
	}
	hs := map[string]*hv{}
	get := func(loc string) *hv {
		if hs[loc] == nil {
			hs[loc] = &hv{refs: map[string]bool{}}
		}
		return hs[loc]
	}
	fresh := false
	made := map[string]bool{}
	locals := map[string]types.Type{}
	bad := false
	for b := range l.body {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				ii := fr.iters[nx.Iter]
				if _, set := c.st[ii.loc]; set {
					locals[ii.loc] = nil
					if ii.cnt != "" {
						locals[ii.cnt] = nil
					}
				}
				continue
			}
			if fr.dead[in.Block()] {
				continue
			}
			v.e.Eff.instr(fr.fn, in, func(loc string, rs rootset) {
				if strings.HasPrefix(loc, "L|") {
					for r := range rs {
						a := r.v.(*ssa.Alloc)
						if x, ok := fr.regs[a]; ok && x.addr != nil {
							locals[x.addr.loc] = a.Type().(*types.Pointer).Elem()
						}
					}
					return
				}
				if strings.HasPrefix(loc, "A|") {
					made[loc] = true
					return
				}
				h := get(loc)
				for r := range rs {
					switch r.kind {
					case "alloc":
						if r.v == nil {
							h.fr = true
							fresh = true
							continue
						}
						in, ok := r.v.(ssa.Instruction)
						if ok && l.body[in.Block()] {
							h.fr = true
							fresh = true
							continue
						}
						x, ok := fr.regs[r.v]
						if !ok {
							h.fr = true
							fresh = true
							continue
						}
						if rt, ok := v.refOf2(x); ok {
							h.refs[rt] = true
						} else {
							h.top = true
						}
					case "param":
						if rt, ok := v.refOf2(fr.regs[fr.fn.Params[r.n]]); ok {
							h.refs[rt] = true
						} else {
							h.top = true
						}
					case "free":
						if rt, ok := v.refOf2(fr.regs[fr.fn.FreeVars[r.n]]); ok {
							h.refs[rt] = true
						} else {
							h.top = true
						}
					default:
						h.top = true
					}
				}
			}, func() { bad = true })
		}
	}
	if bad {
		// calls of known closures inside the loop
		unsup("loop with unknown effects in %s", v.e.W.Key(fr.fn))
	}
	brk := v.get(c.st, "brk")
	seq := v.nalloc
	if fresh {
		nb := v.newConst("brk", "Int")
		c.st["brk"] = nb
		v.assume(c.n, fmt.Sprintf("(<= %s %s)", brk, nb))
		v.nalloc++
		v.onlyMade(c, made, brk, nb)
	}
	for _, loc := range sortedKeys(hs) {
		h := hs[loc]
		var refs []string
		for r := range h.refs {
			refs = append(refs, r)
		}
		sort.Strings(refs)
		v.havoc(c, loc, refs, h.fr, h.top, brk, seq)
	}
	for _, loc := range sortedKeys(locals) {
		if _, ok := c.st[loc]; !ok {
			continue
		}
		n := v.newConst("l_"+sani(shortLoc(loc)), v.e.sortOfLoc(loc))
		c.st[loc] = n
		if t := locals[loc]; t != nil {
			v.typeFacts(c, n, t)
		}
	}
}

func (v *VC) refOf2(a val) (string, bool) {
	if a.addr != nil {
		switch a.addr.kind {
		case 'S', 'H':
			return a.addr.ref, true
		}
		return "", false
	}
	if a.typ == nil {
		return "", false
	}
	switch v.e.Reg.sortOf(a.typ) {
	case "Int":
		return a.t, true
	case "Slice":
		if s := sliceArr(a.t); s != "" {
			return s, true
		}
		return "(sarr " + a.t + ")", true
	case "Iface":
		return ivalOf(a.t), true
	}
	return "", false
}
