package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// verification conditions of one function

type bitset []uint64

func (b bitset) has(i int) bool { return i/64 < len(b) && b[i/64]&(1<<(uint(i)%64)) != 0 }
func (b bitset) with(i int) bitset {
	n := make(bitset, max(len(b), i/64+1))
	copy(n, b)
	n[i/64] |= 1 << (uint(i) % 64)
	return n
}
func (b bitset) or(c bitset) bitset {
	n := make(bitset, max(len(b), len(c)))
	copy(n, b)
	for i := range c {
		n[i] |= c[i]
	}
	return n
}
func (b bitset) and(c bitset) bitset {
	n := make(bitset, min(len(b), len(c)))
	for i := range n {
		n[i] = b[i] & c[i]
	}
	return n
}

type node struct {
	id       int
	guard    string
	anc, dom bitset
	in       []nodeEdge // the edges that meet here, if more than one
}

type nodeEdge struct {
	n     *node
	guard string
}

type item struct {
	node int // -1: global
	text string
	def  string // symbol defined by this item; the item is dropped if unused
	hint bool
}

type obl struct {
	name  string
	kind  string
	node  int
	seq   int
	guard string
	goal  string
	pos   string
	fn    string
	extra []string
}

type state map[string]string

func (s state) clone() state {
	n := make(state, len(s))
	for k, v := range s {
		n[k] = v
	}
	return n
}

type addr struct {
	kind byte // L local, H heap, E slice element, T constant table, G global, F field of struct value at parent
	loc  string
	ref  string
	sl   string
	idx  string
	tab  *globalInfo
	par  *addr
	fld  int
	typ  types.Type
}

type val struct {
	t    string
	typ  types.Type
	addr *addr
	tup  []val
}

// hrec tells how a heap constant was built from an older one.
type hrec struct {
	prev  string
	ref   string // store form
	val   string
	frame bool     // frame form: equal to prev for refs older than brk and not in refs
	brk   int      // allocation sequence number at the havoc
	refs  []string // excluded
}

type closure struct {
	fn    *ssa.Function
	binds []val
}

type VC struct {
	e         *Engine
	fn        *ssa.Function
	ct        *Contract
	prop      *Property
	rel       string
	nodes     []*node
	items     []item
	obls      []*obl
	n         int
	initial   map[string]string
	hist      map[string]*hrec
	allocSeq  map[string]int // fresh refs
	oldRef    map[string]int // terms known to denote objects older than allocation k
	nalloc    int
	closures  map[string]*closure
	entry     state
	entryEnv  *env
	facts     map[string][]int // emitted fact -> nodes
	lits      map[string]string
	names     map[string]int
	assumed   map[string]bool
	callees   map[string]bool
	loopTry   map[string]bool // disabled auto invariants
	autos     []string
	decl      map[string]bool
	depth     int
	rtUsed    bool
	boxes     map[string]bool
	checkpt   []string
	pool      bool
	curPos    string
	invLoops  int
	onlyReq   bool
	closedAt  map[string][]int
	snaps     []state
	sc        *symCache
	axText    []axText
	mu        sync.Mutex
	solver    *Solver
	cf        *config
	axNames   []string
	entryNode *node
	entrySeq  int
	retNodes  []*node
	probes    []callProbe
	hasLoops  bool
}

type axText struct {
	text string
	syms []string
}

type cursor struct {
	n  *node
	st state
}

type edge struct {
	n     *node
	st    state
	guard string
	from  *ssa.BasicBlock
	vals  []val
}

type frame struct {
	fn     *ssa.Function
	id     int
	prefix string
	regs   map[ssa.Value]val
	free   []val
	loops  map[*ssa.BasicBlock]*loopInfo
	order  []*ssa.BasicBlock
	defers []*deferRec
	excs   []edge
	rets   []edge
	parent *frame
	top    bool
	ct     *Contract
	iters  map[ssa.Value]iterInfo
	pre    map[int]state
	lst    map[*loopInfo]*loopState
	dead   map[*ssa.BasicBlock]bool
	entry  state
}

type iterInfo struct {
	loc  string
	str  string
	m    val
	smap bool
	cnt  string // keys of a map visited so far
	dom0 string // the keys when the loop began
}

type deferRec struct {
	in   *ssa.Defer
	flag string
	clo  *closure
	args []val
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}

func (v *VC) fresh(p string) string {
	v.n++
	return fmt.Sprintf("%s!%d", p, v.n)
}

func (v *VC) global(text string) { v.items = append(v.items, item{node: -1, text: text}) }
func (v *VC) globalDef(sym, text string) {
	v.items = append(v.items, item{node: -1, text: text, def: sym})
}

func (v *VC) declare(name, sort string) string {
	v.globalDef(name, fmt.Sprintf("(declare-const %s %s)", name, sort))
	return name
}

func (v *VC) newConst(p, sort string) string { return v.declare(v.fresh(p), sort) }

// define names a term.
func (v *VC) define(p, sort, term string) string {
	if len(term) < 40 && !strings.Contains(term, "(ite") {
		return term
	}
	n := v.fresh(p)
	v.globalDef(n, fmt.Sprintf("(define-fun %s () %s %s)", n, sort, term))
	return n
}

func (v *VC) assume(n *node, f string) {
	if f == "true" || f == "" {
		return
	}
	v.items = append(v.items, item{node: n.id, text: f})
}

// fact assumes f unless an enclosing node already did.
func (v *VC) fact(n *node, f string) {
	for _, m := range v.facts[f] {
		if n.dom.has(m) {
			return
		}
	}
	v.facts[f] = append(v.facts[f], n.id)
	v.assume(n, f)
}

func (v *VC) newNode(edges []edge) *node {
	nd := &node{id: len(v.nodes)}
	for i, e := range edges {
		nd.anc = nd.anc.or(e.n.anc)
		if i == 0 {
			nd.dom = e.n.dom
		} else {
			nd.dom = nd.dom.and(e.n.dom)
		}
	}
	nd.anc = nd.anc.with(nd.id)
	nd.dom = nd.dom.with(nd.id)
	switch {
	case len(edges) == 0:
		nd.guard = "true"
	case len(edges) == 1:
		nd.guard = edges[0].guard
	default:
		nd.guard = v.fresh("g")
		var gs []string
		for _, e := range edges {
			gs = append(gs, e.guard)
		}
		v.globalDef(nd.guard, fmt.Sprintf("(declare-const %s Bool)", nd.guard))
		for _, e := range edges {
			nd.in = append(nd.in, nodeEdge{e.n, e.guard})
		}
		// the guard implies one of its edges; edges carry their own definitions
		v.nodes = append(v.nodes, nd)
		v.items = append(v.items, item{node: nd.id, text: fmt.Sprintf("(or %s)", strings.Join(gs, " "))})
		return nd
	}
	v.nodes = append(v.nodes, nd)
	return nd
}

// mkEdge makes the guard of leaving cur under cond.
func (v *VC) mkEdge(cur *cursor, cond string, from *ssa.BasicBlock) edge {
	g := cur.n.guard
	if cond != "true" {
		e := v.fresh("e")
		v.globalDef(e, fmt.Sprintf("(declare-const %s Bool)", e))
		// definition: e <=> guard && cond
		v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(= %s (and %s %s))", e, g, cond), def: e, hint: true})
		g = e
		return edge{n: cur.n, st: cur.st, guard: e, from: from}
	}
	return edge{n: cur.n, st: cur.st, guard: g, from: from}
}

// merge joins edges into a new cursor.
func (v *VC) merge(edges []edge) *cursor {
	if len(edges) == 1 {
		e := edges[0]
		if e.guard == e.n.guard {
			return &cursor{e.n, e.st}
		}
		return &cursor{v.newNode(edges), e.st.clone()}
	}
	nd := v.newNode(edges)
	st := state{}
	keys := map[string]bool{}
	for _, e := range edges {
		for k := range e.st {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		var terms []string
		same := true
		for _, e := range edges {
			t, ok := e.st[k]
			if !ok {
				if strings.HasPrefix(k, "L|") || strings.HasPrefix(k, "D|") || strings.HasPrefix(k, "X|") {
					t = ""
				} else {
					t = v.initialOf(k)
				}
			}
			terms = append(terms, t)
			if t != terms[0] {
				same = false
			}
		}
		if same {
			if terms[0] != "" {
				st[k] = terms[0]
			}
			continue
		}
		miss := false
		for _, t := range terms {
			if t == "" {
				miss = true
			}
		}
		if miss {
			if strings.HasPrefix(k, "D|") {
				for i := range terms {
					if terms[i] == "" {
						terms[i] = "false"
					}
				}
			} else {
				continue // a variable not live here
			}
		}
		if k == "X|chk" {
			continue // checked at different points: check again
		}
		st[k] = v.joinTerms(nd, edges, terms, v.e.sortOfLoc(k), k)
	}
	return &cursor{nd, st}
}

func (v *VC) joinTerms(nd *node, edges []edge, terms []string, sort, name string) string {
	same := true
	for _, t := range terms {
		if t != terms[0] {
			same = false
		}
	}
	if same {
		return terms[0]
	}
	m := v.newConst("m_"+sani(shortLoc(name)), sort)
	old, known := 0, true
	for i, e := range edges {
		v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(=> %s (= %s %s))", e.guard, m, terms[i]), def: m, hint: true})
		if o, ok := v.oldRef[terms[i]]; ok {
			old = max(old, o)
		} else if o, ok := v.allocSeq[terms[i]]; ok {
			old = max(old, o)
		} else if terms[i] != "0" {
			known = false
		}
	}
	if known && sort == "Int" {
		v.oldRef[m] = old
	}
	return m
}

func shortLoc(k string) string {
	if i := strings.LastIndex(k, "|"); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (e *Engine) sortOfLoc(k string) string {
	if s, ok := e.locSort[k]; ok {
		return s
	}
	unsup("no sort for location %s", k)
	return ""
}

func (v *VC) initialOf(k string) string {
	if c, ok := v.initial[k]; ok {
		return c
	}
	c := v.fresh("h0_" + sani(strings.ReplaceAll(k, "|", "_")))
	v.initial[k] = c
	v.globalDef(c, fmt.Sprintf("(declare-const %s %s)", c, v.e.sortOfLoc(k)))
	return c
}

func (v *VC) get(st state, k string) string {
	if t, ok := st[k]; ok {
		return t
	}
	return v.initialOf(k)
}

// distinct says whether two object references are syntactically known to differ.
func (v *VC) distinct(a, b string) bool {
	sa, fa := v.allocSeq[a]
	sb, fb := v.allocSeq[b]
	switch {
	case fa && fb:
		return sa != sb
	case fa:
		o, ok := v.oldRef[b]
		return ok && o < sa || b == "0"
	case fb:
		o, ok := v.oldRef[a]
		return ok && o < sb || a == "0"
	}
	return false
}

// older says whether a is known to exist before allocation k.
func (v *VC) older(a string, k int) bool {
	if s, ok := v.allocSeq[a]; ok {
		return s <= k
	}
	if o, ok := v.oldRef[a]; ok {
		return o <= k
	}
	return false
}

// selectH reads heap map h at ref.
func (v *VC) selectH(h, ref string) string {
	for {
		r := v.hist[h]
		if r == nil {
			break
		}
		if r.frame {
			if !v.older(ref, r.brk) {
				break
			}
			ok := true
			for _, x := range r.refs {
				if x == ref || !v.distinct(x, ref) {
					ok = false
				}
			}
			if !ok {
				break
			}
			h = r.prev
			continue
		}
		if r.ref == ref {
			return r.val
		}
		if v.distinct(r.ref, ref) {
			h = r.prev
			continue
		}
		break
	}
	return fmt.Sprintf("(select %s %s)", h, ref)
}

func (v *VC) storeH(cur *cursor, loc, ref, t string) {
	h := v.get(cur.st, loc)
	c := v.newConst("h_"+sani(strings.ReplaceAll(loc, "|", "_")), v.e.sortOfLoc(loc))
	v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(= %s (store %s %s %s))", c, h, ref, t), def: c, hint: true})
	if v.rtUsed && v.e.sortOfLoc(loc) == "(Array Int Slice)" {
		v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(forall ((r Int)) (! (= (select %s r) (ite (= r %s) %s (select %s r))) :pattern ((select %s r))))", c, ref, t, h, c), def: c, hint: true})
	}
	v.hist[c] = &hrec{prev: h, ref: ref, val: t}
	cur.st[loc] = c
}

// ---------------------------------------------------------------------------
// element maps

// atFun declares the element access function for an element location.
func (v *VC) atFun(loc string) string {
	s := v.e.sortOfLoc(loc) // (Array Int (Array Int S))
	es := strings.TrimSuffix(strings.TrimPrefix(s, "(Array Int (Array Int "), "))")
	name := "at_" + sortID(es)
	if !v.decl[name] {
		v.decl[name] = true
		v.globalDef(name, fmt.Sprintf("(declare-fun %s (%s Slice Int) %s)", name, s, es))
		ax := fmt.Sprintf("(forall ((E %s) (s Slice) (i Int)) (! (= (%s E s i) (select (select E (sarr s)) (+ (soff s) i))) :pattern ((%s E s i))))", s, name, name)
		v.items = append(v.items, item{node: -1, text: ax, def: name, hint: true})
		ax = fmt.Sprintf("(forall ((E %s) (s Slice) (l Int) (h Int) (i Int)) (! (= (%s E (subS s l h) i) (%s E s (+ l i))) :pattern ((%s E (subS s l h) i))))", s, name, name, name)
		v.items = append(v.items, item{node: -1, text: ax, def: name, hint: true})
	}
	return name
}

func (v *VC) readElem(st state, loc, sl, idx string) string {
	h := v.get(st, loc)
	// skip over stores to arrays known to be different, or to the same slot
	for {
		r := v.hist[h]
		if r == nil {
			break
		}
		arr := sliceArr(sl)
		if r.frame {
			if arr == "" || !v.older(arr, r.brk) {
				break
			}
			ok := true
			for _, x := range r.refs {
				if x == arr || !v.distinct(x, arr) {
					ok = false
				}
			}
			if !ok {
				break
			}
			h = r.prev
			continue
		}
		if arr == "" {
			break
		}
		if p := strings.SplitN(r.ref, "#", 2); len(p) == 2 {
			if p[0] == arr && sliceOff(sl) == "0" && p[1] == idx {
				return r.val
			}
			if v.distinct(p[0], arr) || p[0] == arr && isNum(p[1]) && isNum(idx) && sliceOff(sl) == "0" {
				h = r.prev
				continue
			}
		}
		break
	}
	return fmt.Sprintf("(%s %s %s %s)", v.atFun(loc), h, sl, idx)
}

func isNum(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

// sliceArr extracts the array of a literal slice term (mkS a o l c).
func sliceArr(sl string) string {
	f := strings.Fields(strings.Trim(sl, "()"))
	if len(f) >= 5 && f[0] == "mkS" && !strings.Contains(f[1], "(") {
		return f[1]
	}
	return ""
}
func sliceOff(sl string) string {
	f := strings.Fields(strings.Trim(sl, "()"))
	if len(f) >= 5 && f[0] == "mkS" && !strings.Contains(f[2], "(") {
		return f[2]
	}
	return ""
}

func (v *VC) writeElem(cur *cursor, loc, sl, idx, t string) {
	h := v.get(cur.st, loc)
	at := v.atFun(loc)
	c := v.newConst("E", v.e.sortOfLoc(loc))
	arr, off := fmt.Sprintf("(sarr %s)", sl), fmt.Sprintf("(+ (soff %s) %s)", sl, idx)
	key := ""
	if a := sliceArr(sl); a != "" {
		arr = a
		if sliceOff(sl) == "0" {
			off = idx
			key = a + "#" + idx
		}
	}
	v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(= %s (store %s %s (store (select %s %s) %s %s)))", c, h, arr, h, arr, off, t), def: c, hint: true})
	v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(forall ((s Slice) (i Int)) (! (= (%s %s s i) (ite (and (= (sarr s) %s) (= (+ (soff s) i) %s)) %s (%s %s s i))) :pattern ((%s %s s i))))", at, c, arr, off, t, at, h, at, c), def: c, hint: true})
	v.hist[c] = &hrec{prev: h, ref: key, val: t}
	cur.st[loc] = c
}

// havoc replaces a location: objects in refs and, if fr, objects allocated
// since brk may have changed; with top anything may have.
func (v *VC) havoc(cur *cursor, loc string, refs []string, fr, top bool, brk string, seq int) {
	sort := v.e.sortOfLoc(loc)
	h := v.get(cur.st, loc)
	if strings.HasPrefix(loc, "G|") || strings.HasPrefix(loc, "GV|") || loc == "brk" || strings.HasPrefix(loc, "L|") {
		cur.st[loc] = v.newConst("v_"+sani(shortLoc(loc)), sort)
		if t := v.e.locType[loc]; t != nil {
			v.typeFacts(cur, cur.st[loc], t)
		}
		return
	}
	if !fr && !top && !strings.HasPrefix(loc, "E|") {
		if len(refs) == 0 {
			return
		}
		for _, r := range refs {
			nv := v.newConst("v_"+sani(shortLoc(loc)), elemSortOf(sort))
			if t := v.e.locType[loc]; t != nil && (strings.HasPrefix(loc, "F|") || strings.HasPrefix(loc, "C|")) {
				v.typeFacts(cur, nv, t)
			}
			v.storeH(cur, loc, r, nv)
		}
		return
	}
	c := v.newConst("h_"+sani(strings.ReplaceAll(loc, "|", "_")), sort)
	cur.st[loc] = c
	if top {
		return
	}
	conds := []string{fmt.Sprintf("(< r %s)", brk)}
	for _, r := range refs {
		conds = append(conds, fmt.Sprintf("(not (= r %s))", r))
	}
	v.hist[c] = &hrec{prev: h, frame: true, brk: seq, refs: refs}
	v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(forall ((r Int)) (! (=> (and %s) (= (select %s r) (select %s r))) :pattern ((select %s r))))", strings.Join(conds, " "), c, h, c), def: c, hint: true})
	if strings.HasPrefix(loc, "E|") {
		at := v.atFun(loc)
		conds[0] = fmt.Sprintf("(< (sarr s) %s)", brk)
		for i, r := range refs {
			conds[i+1] = fmt.Sprintf("(not (= (sarr s) %s))", r)
		}
		v.items = append(v.items, item{node: -1, text: fmt.Sprintf("(forall ((s Slice) (i Int)) (! (=> (and %s) (= (%s %s s i) (%s %s s i))) :pattern ((%s %s s i))))", strings.Join(conds, " "), at, c, at, h, at, c), def: c, hint: true})
	}
}

// elemSortOf strips one "(Array Int X)".
func elemSortOf(s string) string {
	return strings.TrimSuffix(strings.TrimPrefix(s, "(Array Int "), ")")
}

// ---------------------------------------------------------------------------
// allocation and typed facts

func (v *VC) alloc(cur *cursor, p string) string {
	r := v.newConst("r_"+p, "Int")
	brk := v.get(cur.st, "brk")
	nb := v.newConst("brk", "Int")
	v.nalloc++
	v.allocSeq[r] = v.nalloc
	v.assume(cur.n, fmt.Sprintf("(and (= %s %s) (= %s (+ %s 1)))", r, brk, nb, r))
	cur.st["brk"] = nb
	return r
}

// untyped: the new object r is not a struct.
func (v *VC) untyped(cur *cursor, r string) {
	if v.rtUsed {
		v.assume(cur.n, fmt.Sprintf("(= (rtype %s) 0)", r))
	}
}

func (v *VC) typeFacts(cur *cursor, t string, ty types.Type) {
	if ty == nil || isNum(t) || t == "true" || t == "false" {
		return
	}
	n := cur.n
	switch u := under(ty).(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Uint8:
			v.fact(n, fmt.Sprintf("(and (<= 0 %s) (<= %s 255))", t, t))
		case u.Info()&types.IsUnsigned != 0:
			v.fact(n, fmt.Sprintf("(<= 0 %s)", t))
		case u.Kind() == types.Int32:
			v.fact(n, fmt.Sprintf("(and (<= (- 2147483648) %s) (<= %s 2147483647))", t, t))
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if _, ok := v.allocSeq[t]; ok {
			return
		}
		v.fact(n, fmt.Sprintf("(and (<= 0 %s) (< %s %s))", t, t, v.get(cur.st, "brk")))
		if _, ok := v.oldRef[t]; !ok {
			v.oldRef[t] = v.nalloc
		}
		if p, ok := u.(*types.Pointer); ok && v.rtUsed && v.e.hasInv(p.Elem()) {
			v.fact(n, fmt.Sprintf("(=> (not (= %s 0)) (= (rtype %s) %d))", t, t, v.e.Reg.typeTag(ty)))
		}
	case *types.Signature:
		v.fact(n, fmt.Sprintf("(<= 0 %s)", t))
	case *types.Slice:
		v.fact(n, fmt.Sprintf("(and (<= 0 (vlen %s)) (<= (vlen %s) (vcap %s)) (<= 0 (soff %s)) (<= 0 (sarr %s)) (< (sarr %s) %s) (=> (= (sarr %s) 0) (= (vcap %s) 0)))", t, t, t, t, t, t, v.get(cur.st, "brk"), t, t))
	case *types.Interface:
		if strings.HasPrefix(t, "(mkI") || t == "niliface" {
			return
		}
		v.fact(n, fmt.Sprintf("(and (<= 0 (itag %s)) (=> (= (itag %s) 0) (= %s niliface)) (=> (>= (itag %s) 1000) (and (<= 0 (ival %s)) (< (ival %s) %s))))", t, t, t, t, t, t, v.get(cur.st, "brk")))
		if impl := v.e.closedImpls(ty); impl != nil {
			var alt []string
			alt = append(alt, fmt.Sprintf("(= (itag %s) 0)", t))
			for _, it := range impl {
				alt = append(alt, fmt.Sprintf("(= (itag %s) %d)", t, v.e.Reg.typeTag(it)))
			}
			v.fact(n, "(or "+strings.Join(alt, " ")+")")
		}
		if v.rtUsed {
			for _, it := range v.e.invTypes() {
				v.fact(n, fmt.Sprintf("(=> (and (= (itag %s) %d) (not (= (ival %s) 0))) (= (rtype (ival %s)) %d))", t, v.e.Reg.typeTag(it), t, t, v.e.Reg.typeTag(it)))
			}
		}
	case *types.Struct:
		if opaqueStruct(ty) {
			return
		}
		d := v.e.Reg.structSort(ty)
		for i, f := range d.fields {
			if isStruct(d.typs[i]) {
				continue
			}
			v.typeFacts(cur, fmt.Sprintf("(%s_%s %s)", d.name, f, t), d.typs[i])
		}
	}
}

// hasInv says whether objects of struct type t have heap invariants.
func (e *Engine) hasInv(t types.Type) bool {
	n := tname(t)
	for _, i := range e.Spec.HeapInvs {
		if i.Type == n {
			return true
		}
	}
	return false
}

func (e *Engine) invTypes() []types.Type {
	var out []types.Type
	seen := map[string]bool{}
	for _, i := range e.Spec.HeapInvs {
		if !seen[i.Type] {
			seen[i.Type] = true
			out = append(out, types.NewPointer(e.resolveType(i.Type)))
		}
	}
	return out
}

// closedImpls lists the types implementing an interface that has an unexported
// method, so that no other package can implement it.
func (e *Engine) closedImpls(t types.Type) []types.Type {
	nt, ok := types.Unalias(t).(*types.Named)
	if !ok || nt.Obj().Pkg() == nil || e.W.Pkgs[nt.Obj().Pkg().Path()] == nil {
		return nil
	}
	it := under(t).(*types.Interface)
	closed := false
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			closed = true
		}
	}
	if !closed {
		return nil
	}
	return e.implementers(it)
}

// implementers lists the repository types that implement it.
func (e *Engine) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, p := range sortedKeys(e.W.Pkgs) {
		sc := e.W.Pkgs[p].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if isIface(t) {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, t)
			}
			if p := types.NewPointer(t); types.Implements(p, it) {
				out = append(out, p)
			}
		}
	}
	return out
}

// ---------------------------------------------------------------------------
// strings

func (v *VC) strLit(s string) string {
	if s == "" {
		return "str_empty"
	}
	if n, ok := v.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit%d_%s", len(v.lits), sani(clip(s, 12)))
	v.lits[s] = n
	v.globalDef(n, fmt.Sprintf("(declare-const %s Str)", n))
	fs := []string{fmt.Sprintf("(= (strlen %s) %d)", n, len(s))}
	if len(s) == 1 && s[0] < 128 {
		fs = append(fs, fmt.Sprintf("(= %s (runestr %d))", n, s[0]))
	}
	if len(s) <= 40 {
		for i := 0; i < len(s); i++ {
			fs = append(fs, fmt.Sprintf("(= (strat %s %d) %d)", n, i, s[i]))
		}
	}
	v.items = append(v.items, item{node: -1, text: "(and " + strings.Join(fs, " ") + ")", def: n, hint: true})
	return n
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---------------------------------------------------------------------------
// loads and stores

func (v *VC) structRefLoad(cur *cursor, t types.Type, ref string) string {
	if opaqueStruct(t) {
		// modelled by its text; the value is never looked into
		v.e.strLoc(t)
		return "opaque:" + v.selectH(v.get(cur.st, v.e.strLoc(t)), ref)
	}
	d := v.e.Reg.structSort(t)
	st := under(t).(*types.Struct)
	var vs []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "_" {
			continue
		}
		if isStruct(f.Type()) {
			vs = append(vs, v.structRefLoad(cur, f.Type(), ref))
			continue
		}
		vs = append(vs, v.selectH(v.get(cur.st, v.e.fieldLoc(t, f)), ref))
	}
	return d.mk(vs)
}

func (v *VC) structRefStore(cur *cursor, t types.Type, ref, s string) {
	if opaqueStruct(t) {
		x := "str_empty"
		if strings.HasPrefix(s, "opaque:") {
			x = strings.TrimPrefix(s, "opaque:")
		}
		v.storeH(cur, v.e.strLoc(t), ref, x)
		return
	}
	st := under(t).(*types.Struct)
	zero := s == v.e.Reg.zero(t)
	d := v.e.Reg.structSort(t)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "_" {
			continue
		}
		if isStruct(f.Type()) {
			if zero {
				v.structRefStore(cur, f.Type(), ref, v.e.Reg.zero(f.Type()))
			} else {
				v.structRefStore(cur, f.Type(), ref, fmt.Sprintf("(%s_%s %s)", d.name, f.Name(), s))
			}
			continue
		}
		x := fmt.Sprintf("(%s_%s %s)", d.name, f.Name(), s)
		if zero {
			x = v.e.Reg.zero(f.Type())
		}
		v.storeH(cur, v.e.fieldLoc(t, f), ref, x)
	}
}

func (v *VC) initGhost(cur *cursor, t types.Type, ref string) {
	for _, g := range sortedKeys(v.e.Spec.GhostF[tname(t)]) {
		_ = g // ghost fields of new objects start arbitrary
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if isStruct(st.Field(i).Type()) {
			v.initGhost(cur, st.Field(i).Type(), ref)
		}
	}
}

func (v *VC) load(cur *cursor, a *addr) val {
	var t string
	switch a.kind {
	case 'L':
		x, ok := cur.st[a.loc]
		if !ok {
			unsup("read of unset variable %s", a.loc)
		}
		t = x
		return val{t: t, typ: a.typ}
	case 'H':
		t = v.selectH(v.get(cur.st, a.loc), a.ref)
	case 'E':
		t = v.readElem(cur.st, a.loc, a.sl, a.idx)
	case 'G':
		t = v.get(cur.st, a.loc)
	case 'T':
		t = v.tableAt(a.tab, a.idx)
	case 'F':
		p := v.load(cur, a.par)
		d := v.e.Reg.structSort(a.par.typ)
		t = fmt.Sprintf("(%s_%s %s)", d.name, under(a.par.typ).(*types.Struct).Field(a.fld).Name(), p.t)
	case 'S':
		return val{t: v.structRefLoad(cur, a.typ, a.ref), typ: a.typ}
	case 'B':
		t = fmt.Sprintf("(bat %s %s)", a.sl, a.idx)
	}
	v.typeFacts(cur, t, a.typ)
	return val{t: t, typ: a.typ}
}

func (v *VC) store(cur *cursor, a *addr, x val) {
	switch a.kind {
	case 'L':
		cur.st[a.loc] = x.t
		if _, ok := v.e.locSort[a.loc]; !ok {
			v.e.setLoc(a.loc, v.e.Reg.sortOf(a.typ), a.typ)
		}
	case 'H':
		v.storeH(cur, a.loc, a.ref, x.t)
	case 'E':
		v.writeElem(cur, a.loc, a.sl, a.idx, x.t)
	case 'G':
		cur.st[a.loc] = x.t
	case 'S':
		v.structRefStore(cur, a.typ, a.ref, x.t)
	case 'F':
		p := v.load(cur, a.par)
		d := v.e.Reg.structSort(a.par.typ)
		st := under(a.par.typ).(*types.Struct)
		var vs []string
		for i := range d.fields {
			if d.fields[i] == st.Field(a.fld).Name() {
				vs = append(vs, x.t)
			} else {
				vs = append(vs, fmt.Sprintf("(%s_%s %s)", d.name, d.fields[i], p.t))
			}
		}
		v.store(cur, a.par, val{t: d.mk(vs), typ: a.par.typ})
	case 'B':
		// only while building a byte array literal
		v.assume(cur.n, fmt.Sprintf("(= (bat %s %s) %s)", a.sl, a.idx, x.t))
	default:
		unsup("store to %c", a.kind)
	}
}

// tableAt is the content of a constant array.
func (v *VC) tableAt(g *globalInfo, idx string) string {
	el := under(g.typ).(*types.Array).Elem()
	if isNum(idx) {
		var k int64
		fmt.Sscan(idx, &k)
		if c, ok := g.arr[k]; ok {
			return v.constVal(c).t
		}
		return v.e.Reg.zero(el)
	}
	f := "tab_" + sani(g.name)
	if !v.decl[f] {
		v.decl[f] = true
		v.globalDef(f, fmt.Sprintf("(declare-fun %s (Int) %s)", f, v.e.Reg.sortOf(el)))
		var fs []string
		for i := int64(0); i < g.n; i++ {
			x := v.e.Reg.zero(el)
			if c, ok := g.arr[i]; ok {
				x = v.constVal(c).t
			}
			fs = append(fs, fmt.Sprintf("(= (%s %d) %s)", f, i, x))
		}
		if len(fs) > 0 {
			v.items = append(v.items, item{node: -1, text: "(and true " + strings.Join(fs, " ") + ")", def: f, hint: true})
		}
	}
	return fmt.Sprintf("(%s %s)", f, idx)
}

func constString(c *ssa.Const) (string, bool) {
	if c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// globalMap gives membership and value terms of a constant map.
func (v *VC) globalMap(g *globalInfo, key string) (has, value string) {
	mt := under(g.typ).(*types.Map)
	has, value = "false", v.e.Reg.zero(mt.Elem())
	eq := func(c *ssa.Const) string {
		if s, ok := constString(c); ok && len(s) <= 8 {
			// equality with a short literal, byte by byte
			fs := []string{fmt.Sprintf("(= (strlen %s) %d)", key, len(s))}
			for i := 0; i < len(s); i++ {
				fs = append(fs, fmt.Sprintf("(= (strat %s %d) %d)", key, i, s[i]))
			}
			return and(fs...)
		}
		return fmt.Sprintf("(= %s %s)", key, v.constVal(c).t)
	}
	for i := len(g.mp) - 1; i >= 0; i-- {
		x := v.constVal(g.mp[i].v).t
		value = fmt.Sprintf("(ite %s %s %s)", eq(g.mp[i].k), x, value)
	}
	var hs []string
	for _, m := range g.mp {
		hs = append(hs, eq(m.k))
	}
	if len(hs) > 0 {
		has = "(or " + strings.Join(hs, " ") + ")"
		if len(hs) == 1 {
			has = hs[0]
		}
	}
	return
}

func (v *VC) oblName(kind string) string {
	v.names[kind]++
	n := v.names[kind]
	return fmt.Sprintf("%s/%s#%d", v.key(), kind, n)
}

func (v *VC) assert(cur *cursor, kind, goal string) *obl {
	return v.assertG(cur.n, cur.n.guard, kind, goal)
}

func (v *VC) assertG(n *node, guard, kind, goal string) *obl {
	o := &obl{name: v.oblName(kind), kind: kind, node: n.id, seq: len(v.items), guard: guard, goal: goal, pos: v.curPos, fn: v.key()}
	v.obls = append(v.obls, o)
	return o
}

// safety asserts goal if the property asks for absence of panics and assumes
// it afterwards either way.
func (v *VC) safety(cur *cursor, kind, goal string) {
	if goal == "true" {
		return
	}
	if v.prop.Safe && !(v.ct != nil && v.ct.NoSafe) {
		v.assert(cur, "safe:"+kind, goal)
	}
	v.assume(cur.n, goal)
}

func sortStrings(s []string) []string { sort.Strings(s); return s }

// callProbe is a call whose contract was assumed, for the vacuity check.
type callProbe struct {
	name       string
	n0, n1     *node
	seq0, seq1 int
}
