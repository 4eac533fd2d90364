package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------------------
// queries

func symbols(s string) []string {
	var out []string
	i := 0
	isSym := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '?' || c == '.'
	}
	for i < len(s) {
		if !isSym(s[i]) {
			i++
			continue
		}
		j := i
		for j < len(s) && isSym(s[j]) {
			j++
		}
		if c := s[i]; !(c >= '0' && c <= '9') {
			out = append(out, s[i:j])
		}
		i = j
	}
	return out
}

type symCache struct {
	syms map[int][]string
	defs map[string][]int // symbol -> items defining or describing it
	upto int
}

func (v *VC) symIndex() *symCache {
	if v.sc == nil {
		v.sc = &symCache{syms: map[int][]string{}, defs: map[string][]int{}}
	}
	for i := v.sc.upto; i < len(v.items); i++ {
		it := v.items[i]
		v.sc.syms[i] = symbols(it.text)
		if it.def != "" {
			v.sc.defs[it.def] = append(v.sc.defs[it.def], i)
		}
	}
	v.sc.upto = len(v.items)
	return v.sc
}

func isDecl(t string) bool {
	return strings.HasPrefix(t, "(declare-") || strings.HasPrefix(t, "(define-")
}

// query builds the SMT problem "the goal fails at this point"; unsat means the
// obligation is discharged.
func (v *VC) query(n *node, seq int, guard, goal string) string {
	sc := v.symIndex()
	use := map[int]bool{}
	seen := map[string]bool{}
	var work []string
	push := func(ss []string) {
		for _, s := range ss {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	push(symbols(guard))
	push(symbols(goal))
	for i, it := range v.items {
		if i >= seq && it.node >= 0 {
			continue
		}
		if it.node >= 0 && n.anc.has(it.node) && it.def == "" {
			use[i] = true
			push(sc.syms[i])
		}
		if it.node == -1 && it.def == "" {
			use[i] = true
			push(sc.syms[i])
		}
		if it.node >= 0 && !n.anc.has(it.node) {
			continue
		}
	}
	// guards of non-dominating nodes
	for _, nd := range v.nodes {
		if n.anc.has(nd.id) && !n.dom.has(nd.id) {
			push(symbols(nd.guard))
		}
	}
	for {
		for len(work) > 0 {
			s := work[len(work)-1]
			work = work[:len(work)-1]
			for _, i := range sc.defs[s] {
				if nd := v.items[i].node; nd >= 0 && (i >= seq || !n.anc.has(nd)) {
					continue
				}
				if !use[i] {
					use[i] = true
					push(sc.syms[i])
				}
			}
		}
		// axioms about functions in use
		more := false
		for k, a := range v.axText {
			if use[-1-k] {
				continue
			}
			hit := len(a.syms) == 0
			for _, s := range a.syms {
				if seen[s] {
					hit = true
				}
			}
			if hit {
				use[-1-k] = true
				push(symbols(a.text))
				more = true
			}
		}
		if !more && len(work) == 0 {
			break
		}
	}
	var b strings.Builder
	b.WriteString(prelude)
	for s := range v.e.Spec.Sorts {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, s := range v.e.Reg.order {
		d := v.e.Reg.structs[s]
		b.WriteString(d.decl)
		b.WriteByte('\n')
	}
	var idx []int
	for i := range use {
		if i >= 0 {
			idx = append(idx, i)
		}
	}
	sort.Ints(idx)
	// declarations first: definitions may only use what is declared before
	for _, i := range idx {
		if strings.HasPrefix(v.items[i].text, "(declare-") {
			b.WriteString(v.items[i].text)
			b.WriteByte('\n')
		}
	}
	for _, i := range idx {
		if strings.HasPrefix(v.items[i].text, "(define-") {
			b.WriteString(v.items[i].text)
			b.WriteByte('\n')
		}
	}
	for k, a := range v.axText {
		if use[-1-k] {
			fmt.Fprintf(&b, "(assert %s)\n", a.text)
		}
	}
	for _, i := range idx {
		it := v.items[i]
		if isDecl(it.text) {
			continue
		}
		if it.node < 0 || n.dom.has(it.node) || v.nodes[it.node].guard == "true" {
			fmt.Fprintf(&b, "(assert %s)\n", it.text)
		} else {
			fmt.Fprintf(&b, "(assert (=> %s %s))\n", v.nodes[it.node].guard, it.text)
		}
	}
	if guard != "true" {
		fmt.Fprintf(&b, "(assert %s)\n", guard)
	}
	// make the point where two strings differ available
	for i, e := range strEqs(goal) {
		fmt.Fprintf(&b, "(declare-const wit!%d Int)\n(assert (= wit!%d (streqw %s %s)))\n", i, i, e[0], e[1])
	}
	fmt.Fprintf(&b, "(assert (not %s))\n", goal)
	b.WriteString("(check-sat)\n")
	return b.String()
}

var (
	heapGoal  = regexp.MustCompile(`^\(=> \(and \(= \(rtype (obj!\d+)\)`)
	allocItem = regexp.MustCompile(`\(and \(= (\S+) \S+\) \(= \S+ \(\+ (\S+) 1\)\)\)`)
)

func strEqs(t string) [][2]string {
	var out [][2]string
	var walk func(t string, d int)
	walk = func(t string, d int) {
		if !strings.HasPrefix(t, "(") || d > 6 {
			return
		}
		p := splitArgs(t)
		switch p[0] {
		case "=":
			if len(p) == 3 && looksStr(p[1]) && looksStr(p[2]) {
				out = append(out, [2]string{p[1], p[2]})
			}
		case "and", "or", "=>", "not", "ite":
			for _, q := range p[1:] {
				walk(q, d+1)
			}
		}
	}
	walk(t, 0)
	return out
}

func looksStr(t string) bool {
	for _, p := range []string{"(strcat", "(strsub", "(bstr", "(runestr", "lit", "str_empty", "cat!", "s!", "(bytestr"} {
		if strings.HasPrefix(t, p) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// solvers

type Solver struct {
	mu       sync.Mutex
	sem      chan bool
	Time     map[string]time.Duration
	Count    map[string]int
	Timeout  time.Duration
	Keep     string
	Retry    int       // failed queries are tried again with this many times the time
	Deadline time.Time // nothing is started after it
	OnFail   func()
	onFail   sync.Once
	stop     atomic.Bool // nothing more is started
	retried  int
	n        int
}

func newSolver(timeout time.Duration) *Solver {
	return &Solver{sem: make(chan bool, 8), Time: map[string]time.Duration{}, Count: map[string]int{}, Timeout: timeout}
}

type backend struct {
	name string
	cmd  func(ms int) []string
	prep func(q string) string
}

var backends = []backend{
	{"z3-5", func(ms int) []string { return []string{"z3-new", "-in", "smt.solve_eqs=false", fmt.Sprintf("-T:%d", (ms+999)/1000)} }, nil},
	{"z3-4.8", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-T:%d", (ms+999)/1000)} }, nil},
	{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}, func(q string) string {
		var o []string
		for _, l := range strings.Split(q, "\n") {
			if strings.HasPrefix(l, "(set-option") {
				continue
			}
			o = append(o, l)
		}
		return "(set-logic ALL)\n" + strings.Join(o, "\n")
	}},
}

func (s *Solver) run(b backend, q string, d time.Duration) string {
	s.sem <- true
	defer func() { <-s.sem }()
	if s.stop.Load() {
		return "unknown"
	}
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), d+2*time.Second)
	defer cancel()
	c := b.cmd(int(d / time.Millisecond))
	cmd := exec.CommandContext(ctx, c[0], c[1:]...)
	if b.prep != nil {
		q = b.prep(q)
	}
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	el := time.Since(t0)
	s.mu.Lock()
	s.Time[b.name] += el
	s.Count[b.name]++
	s.mu.Unlock()
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown", "timeout":
			return l
		}
		if strings.HasPrefix(l, "(error") || strings.Contains(l, "Error") {
			return "error: " + l
		}
	}
	return "unknown"
}

// The law (ab)c = a(bc) makes many search spaces infinite; most obligations
// about concatenations do not need it.
const assocPattern = ":pattern ((strcat (strcat a b) c))"

func withoutAssoc(q string) string {
	var o []string
	for _, l := range strings.Split(q, "\n") {
		if !strings.Contains(l, assocPattern) {
			o = append(o, l)
		}
	}
	return strings.Join(o, "\n")
}

// first makes a short attempt with the first back end; where concatenation
// occurs it is tried without its associative law before.
func (s *Solver) first(q string, d time.Duration) bool {
	if strings.Count(q, "(strcat ") > strings.Count(prelude, "(strcat ") && s.run(backends[0], withoutAssoc(q), d) == "unsat" {
		return true
	}
	return s.run(backends[0], q, d) == "unsat"
}

func (s *Solver) over() bool {
	return s.stop.Load() || !s.Deadline.IsZero() && time.Now().After(s.Deadline)
}

// failed is told of every obligation of the contracts that no back end
// discharged; OnFail runs once, at the first of them.
func (s *Solver) failed() {
	if s.OnFail != nil {
		s.onFail.Do(func() { go s.OnFail() })
	}
}

const notTried = "not tried: out of time"

type verdict struct {
	ok      bool
	backend string
	result  string
	ms      int64
}

// prove decides one obligation with the back ends in turn.
func (s *Solver) prove(v *VC, o *obl, quickOnly bool) verdict {
	v.e.mu.Lock()
	q := v.query(v.nodes[o.node], o.seq, o.guard, o.goal)
	v.e.mu.Unlock()
	t0 := time.Now()
	var last string
	list := backends
	if quickOnly {
		list = backends[:1]
	}
	if s.over() {
		return verdict{false, "", notTried, 0}
	}
	if !quickOnly {
		if s.first(q, s.Timeout/4) {
			return verdict{true, backends[0].name, "unsat", time.Since(t0).Milliseconds()}
		}
		if s.split(v, o, v.nodes[o.node], o.guard, len(v.nodes), 3, time.Now().Add(s.Timeout*4)) {
			return verdict{true, backends[0].name, "unsat", time.Since(t0).Milliseconds()}
		}
	}
	for i, b := range list {
		d := s.Timeout
		if i > 0 && last == "sat" {
			break
		}
		r := s.run(b, q, d)
		if strings.HasPrefix(r, "error") {
			if f, err := os.CreateTemp("", "gocv-err-*.smt2"); err == nil {
				f.WriteString(q)
				f.Close()
				r += " in " + f.Name()
			}
			return verdict{false, b.name, r, time.Since(t0).Milliseconds()}
		}
		if r == "unsat" {
			return verdict{true, b.name, r, time.Since(t0).Milliseconds()}
		}
		last = r
	}
	if s.Retry > 0 && !quickOnly && last != "sat" && !s.over() {
		s.mu.Lock()
		s.retried++
		ok := s.retried <= 16
		s.mu.Unlock()
		if ok {
			for _, b := range backends[:2] {
				if r := s.run(b, q, time.Duration(s.Retry)*s.Timeout); r == "unsat" {
					return verdict{true, b.name, r, time.Since(t0).Milliseconds()}
				}
			}
		}
	}
	if s.stop.Load() {
		last = notTried
	}
	return verdict{false, "", last, time.Since(t0).Milliseconds()}
}

// split decides an obligation once for each edge into the last point before it
// where control paths meet; one of these edges was taken.
func (s *Solver) split(v *VC, o *obl, n *node, guard string, below, depth int, until time.Time, taken ...string) bool {
	var m *node
	for i := 0; i < below; i++ {
		if n.dom.has(i) && len(v.nodes[i].in) > 1 {
			m = v.nodes[i]
		}
	}
	if m == nil {
		return false
	}
	for _, e := range m.in {
		if s.over() || time.Now().After(until) {
			return false
		}
		x := &node{id: n.id, guard: n.guard, anc: e.n.anc, dom: e.n.dom}
		for i := m.id; i < len(v.nodes); i++ {
			if n.anc.has(i) && v.nodes[i].anc.has(m.id) {
				x.anc = x.anc.with(i)
				if n.dom.has(i) {
					x.dom = x.dom.with(i)
				}
			}
		}
		g := e.guard
		if guard != "true" {
			g = fmt.Sprintf("(and %s %s)", guard, e.guard)
		}
		v.e.mu.Lock()
		q := v.query(x, o.seq, g, o.goal)
		v.e.mu.Unlock()
		tk := append(append([]string{}, taken...), e.guard)
		for _, t := range tk {
			q = along(q, t)
		}
		if s.first(q, s.Timeout/4) {
			continue
		}
		if os.Getenv("GOCV_SPLIT") != "" {
			fmt.Fprintf(os.Stderr, "split %s depth %d below %d via node %d failed\n", o.name, depth, m.id, e.n.id)
			os.WriteFile(fmt.Sprintf("/tmp/gocvq/split_%s_%d_%d.smt2", sani(o.name), m.id, e.n.id), []byte(q), 0644)
		}
		if s.run(backends[1], q, s.Timeout/4) == "unsat" || s.cases(v, x, q, o, until) {
			continue
		}
		if depth > 1 && s.split(v, o, x, g, m.id, depth-1, until, tk...) {
			continue
		}
		done := false
		for _, b := range backends[2:] {
			if done = !time.Now().After(until) && s.run(b, q, s.Timeout/4) == "unsat"; done {
				break
			}
		}
		if !done {
			return false
		}
	}
	return true
}

// along replaces the names of merged values by the values they have when the
// edge with the given guard is taken.
func along(q, guard string) string {
	pre := "(assert (=> " + guard + " (= m_"
	val := map[string]string{}
	var ls []string
	for _, l := range strings.Split(q, "\n") {
		if strings.HasPrefix(l, pre) && strings.HasSuffix(l, ")))") {
			p := splitArgs(l[len("(assert (=> "+guard+" ") : len(l)-2])
			if len(p) == 3 {
				val[p[1]] = p[2]
				continue
			}
		}
		ls = append(ls, l)
	}
	if len(val) == 0 {
		return q
	}
	var b strings.Builder
	for _, l := range ls {
		if strings.HasPrefix(l, "(assert") && strings.Contains(l, "m_") {
			i := 0
			for i < len(l) {
				j := i
				for j < len(l) && l[j] != ' ' && l[j] != '(' && l[j] != ')' {
					j++
				}
				if j == i {
					b.WriteByte(l[i])
					i++
					continue
				}
				if t, ok := val[l[i:j]]; ok {
					b.WriteString(t)
				} else {
					b.WriteString(l[i:j])
				}
				i = j
			}
		} else {
			b.WriteString(l)
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// cases decides an obligation about an object under a heap invariant once for
// each of the last objects allocated on the path, and for the ones between.
func (s *Solver) cases(v *VC, x *node, q string, o *obl, until time.Time) bool {
	m := heapGoal.FindStringSubmatch(o.goal)
	if m == nil {
		return false
	}
	var rs []string
	v.e.mu.Lock()
	for i := o.seq - 1; i >= 0 && len(rs) < 3; i-- {
		it := v.items[i]
		if it.node < 0 || !x.dom.has(it.node) {
			continue
		}
		if a := allocItem.FindStringSubmatch(it.text); a != nil && a[1] == a[2] {
			rs = append([]string{a[1]}, rs...)
		}
	}
	v.e.mu.Unlock()
	if os.Getenv("GOCV_SPLIT") != "" {
		fmt.Fprintf(os.Stderr, "cases %s: %v\n", o.name, rs)
	}
	if len(rs) == 0 {
		return false
	}
	var cs []string
	low := ""
	for _, r := range rs {
		cs = append(cs, fmt.Sprintf("%s(assert (< %s %s))", low, m[1], r), fmt.Sprintf("(assert (= %s %s))", m[1], r))
		low = fmt.Sprintf("(assert (> %s %s))", m[1], r)
	}
	cs = append(cs, low)
	for _, c := range cs {
		if time.Now().After(until) {
			return false
		}
		qc := strings.Replace(q, "(check-sat)", c+"\n(check-sat)", 1)
		if s.run(backends[1], qc, s.Timeout/4) != "unsat" && s.run(backends[0], qc, s.Timeout/4) != "unsat" {
			if os.Getenv("GOCV_SPLIT") != "" {
				fmt.Fprintf(os.Stderr, "cases %s: %s failed\n", o.name, c)
			}
			return false
		}
	}
	return true
}

// unsatNow: can cond be true at the cursor?
func (v *VC) unsatNow(c *cursor, cond string) bool {
	q := v.query(c.n, len(v.items), c.n.guard, not(cond))
	return v.solver.run(backends[0], q, 2*time.Second) == "unsat"
}
