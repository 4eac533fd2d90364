package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The contract language. Contracts live in /verif/contracts/*.gocv and are
// keyed by function, so the verified text is the code of /repo itself.

type Expr struct {
	Op    string // "num" "str" "id" "call" "field" "index" "slice" "is" "as" "forall" "exists" "old" "pre" "ite" "nil" "true" "false" or an operator
	Name  string
	Num   int64
	Args  []*Expr
	Typ   string
	Vars  []QVar
	Trigs [][]*Expr
	Src   string
}

type QVar struct{ Name, Typ string }

type Clause struct {
	Tags  []string
	E     *Expr
	Src   string
	Idx   int
	Loop  int // for inv/decreases: loop ordinal or -1 for any
	Label string
}

// RelCall is one of the calls a relation speaks about.
type RelCall struct {
	Result string
	Func   string
	Args   []*Expr
}

type GhostUpd struct {
	Tags   []string
	Target *Expr
	Val    *Expr
	Cond   *Expr
	Src    string
}

type Contract struct {
	Kind      string // func, functype, iface, extern
	Key       string
	Params    []string
	Results   []string
	Requires  []*Clause
	Ensures   []*Clause
	Exsures   []*Clause // facts that hold when the function leaves by a bailout panic
	Bailout   bool
	Invs      []*Clause
	Decreases []*Clause
	Assumes   []*Clause // ghost definitions, assumed at exit (listed)
	EntryAs   []*Clause // ghost definitions assumed at entry (listed)
	Ghost     []*GhostUpd
	Effects   []effClause // for functype/iface/extern: locations written, "loc" or "loc@param"
	Only      []effClause // functype: the functions whose values are considered
	Inline    bool
	Opaque    bool // verified but never inlined, no extra facts
	Pure      bool
	Fresh     bool
	NoSafe    bool
	File      string
	headed    bool
	Locals    map[string]string
	Asserts   []*Clause  // lemma hints at exit
	Calls     []*RelCall // of a relation
	Vars      []QVar
	Tags      []string
}

type effClause struct {
	tags []string
	loc  string
}

// effects lists the locations a declared contract writes for property p.
func (c *Contract) effects(p *Property) []string { return activeLocs(p, c.Effects) }

func activeLocs(p *Property, es []effClause) []string {
	var out []string
	for _, e := range es {
		if len(e.tags) == 0 || p != nil && activeFor(p, e.tags) {
			out = append(out, e.loc)
		}
	}
	return out
}

type FunDef struct {
	Name   string
	Params []QVar
	Ret    string
	Body   *Expr // nil for rec/uninterpreted
	Reads  []string // heap locations it depends on
	Src    string
}

type Axiom struct {
	Name  string
	Tags  []string
	E     *Expr
	Src   string
	Lemma bool     // proved by induction, see Proof
	Uses  string   // "induction i" style hint
	When  []string // only emitted when one of these functions is mentioned
}

type HeapInv struct {
	Type string
	Var  string
	Tags []string
	E    *Expr
	Src  string
	Idx  int
}

type Property struct {
	ID    string
	Uses  []string // further tags
	Roots []string // function keys or pkg.* patterns
	Stop  []string // functions whose contracts another property's check proves
	Safe  bool
	Term  bool
	Kinds bool // calls and loops make objects of the types their code allocates only
	Notes []string
	Invs  []string
}

type Spec struct {
	Locals    map[string][][2]string // names and types of the locals that the clauses were written for
	Contracts map[string]*Contract
	Funs      map[string]*FunDef
	Axioms    []*Axiom
	HeapInvs  []*HeapInv
	Props     map[string]*Property
	GhostF    map[string]map[string]string // Go type -> field -> sort type
	GhostM    map[string]string            // ghost map name -> value type
	GhostV    map[string]string            // ghost variables
	Sorts     map[string]bool
	Assumed   []string
}

type lexer struct {
	s    string
	toks []tok
	i    int
}
type tok struct {
	k string // id num chr str op eof
	s string
}

var ops = []string{"<==>", "==>", "::", "||", "&&", "==", "!=", "<=", ">=", ":=", "(", ")", "[", "]", "{", "}", ",", ".", "<", ">", "+", "-", "*", "/", "%", "!", ":", "|", "&", "="}

func lex(s string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
		case c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case c == '\'':
			j := i + 1
			for j < len(s) && (s[j] != '\'' || j == i+1 && false) {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("bad char literal in %q", s)
			}
			r, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"num", strconv.Itoa(int(r))})
			i = j + 1
		case c == '"' || c == '`':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c == '"' {
					j++
				}
				j++
			}
			v, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"str", v})
			i = j + 1
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("bad character %q in %q", c, s)
			}
		}
	}
	return append(out, tok{"eof", ""}), nil
}

func (l *lexer) peek() tok { return l.toks[l.i] }
func (l *lexer) is(s string) bool {
	t := l.toks[l.i]
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (l *lexer) accept(s string) bool {
	if l.is(s) {
		l.i++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		panic(fmt.Errorf("expected %q at %q (token %d) in %q", s, l.peek().s, l.i, l.s))
	}
}

func parseExpr(s string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = er
				return
			}
			panic(r)
		}
	}()
	toks, err := lex(s)
	if err != nil {
		return nil, err
	}
	l := &lexer{s: s, toks: toks}
	e = l.expr(0)
	if l.peek().k != "eof" {
		return nil, fmt.Errorf("unexpected %q in %q", l.peek().s, s)
	}
	e.Src = strings.Join(strings.Fields(s), " ")
	return e, nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "is": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (l *lexer) expr(min int) *Expr {
	lhs := l.unary()
	for {
		t := l.peek()
		p, ok := prec[t.s]
		if !ok || (t.k != "op" && t.s != "is") || p < min || t.k == "str" {
			return lhs
		}
		if p == min && min == 0 {
			return lhs
		}
		l.i++
		if t.s == "is" {
			lhs = &Expr{Op: "is", Args: []*Expr{lhs}, Typ: l.typ()}
			continue
		}
		next := p + 1
		if t.s == "==>" {
			next = p // right assoc
		}
		rhs := l.expr(next)
		// chained comparison a <= b < c
		if p == 5 && (t.s == "<" || t.s == "<=") {
			cur := &Expr{Op: t.s, Args: []*Expr{lhs, rhs}}
			for l.is("<") || l.is("<=") {
				o := l.peek().s
				l.i++
				r2 := l.expr(6)
				cur = &Expr{Op: "&&", Args: []*Expr{cur, {Op: o, Args: []*Expr{rhs, r2}}}}
				rhs = r2
			}
			lhs = cur
			continue
		}
		lhs = &Expr{Op: t.s, Args: []*Expr{lhs, rhs}}
	}
}

func (l *lexer) typ() string {
	switch {
	case l.accept("*"):
		return "*" + l.typ()
	case l.accept("["):
		l.expect("]")
		return "[]" + l.typ()
	case l.accept("("):
		s := l.typ()
		l.expect(")")
		return s
	}
	t := l.peek()
	if t.k != "id" {
		panic(fmt.Errorf("type expected at %q in %q", t.s, l.s))
	}
	l.i++
	s := t.s
	if s == "map" {
		l.expect("[")
		k := l.typ()
		l.expect("]")
		return "map[" + k + "]" + l.typ()
	}
	for l.accept(".") {
		s += "." + l.peek().s
		l.i++
	}
	return s
}

func (l *lexer) unary() *Expr {
	switch {
	case l.accept("!"):
		return &Expr{Op: "!", Args: []*Expr{l.unary()}}
	case l.accept("-"):
		return &Expr{Op: "neg", Args: []*Expr{l.unary()}}
	case l.is("forall") || l.is("exists"):
		op := l.peek().s
		l.i++
		e := &Expr{Op: op}
		for {
			n := l.peek()
			if n.k != "id" {
				panic(fmt.Errorf("quantified variable expected in %q", l.s))
			}
			l.i++
			names := []string{n.s}
			for l.accept(",") {
				names = append(names, l.peek().s)
				l.i++
			}
			ty := l.typ()
			for _, nm := range names {
				e.Vars = append(e.Vars, QVar{nm, ty})
			}
			if !l.accept(";") && !l.is("{") && !l.is("::") {
				if l.accept(",") {
					continue
				}
				panic(fmt.Errorf("bad quantifier in %q near %q", l.s, l.peek().s))
			}
			if l.is("{") || l.is("::") {
				break
			}
		}
		for l.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, l.expr(1))
				if !l.accept(",") {
					break
				}
			}
			l.expect("}")
			e.Trigs = append(e.Trigs, tr)
		}
		l.expect("::")
		e.Args = []*Expr{l.expr(1)}
		return e
	}
	return l.postfix(l.primary())
}

func (l *lexer) primary() *Expr {
	t := l.peek()
	l.i++
	switch t.k {
	case "num":
		v, err := strconv.ParseInt(t.s, 0, 64)
		if err != nil {
			panic(err)
		}
		return &Expr{Op: "num", Num: v}
	case "str":
		return &Expr{Op: "str", Name: t.s}
	case "id":
		switch t.s {
		case "true", "false", "nil":
			return &Expr{Op: t.s}
		case "if":
			c := l.expr(1)
			l.expect("then")
			a := l.expr(1)
			l.expect("else")
			b := l.expr(1)
			return &Expr{Op: "ite", Args: []*Expr{c, a, b}}
		}
		return &Expr{Op: "id", Name: t.s}
	case "op":
		if t.s == "(" {
			e := l.expr(1)
			l.expect(")")
			return e
		}
	}
	panic(fmt.Errorf("unexpected %q in %q", t.s, l.s))
}

func (l *lexer) postfix(e *Expr) *Expr {
	for {
		switch {
		case l.accept("."):
			if l.accept("(") {
				ty := l.typ()
				l.expect(")")
				e = &Expr{Op: "as", Args: []*Expr{e}, Typ: ty}
				continue
			}
			n := l.peek()
			l.i++
			e = &Expr{Op: "field", Name: n.s, Args: []*Expr{e}}
		case l.accept("["):
			if l.accept(":") {
				hi := l.expr(1)
				l.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, {Op: "num"}, hi}}
				continue
			}
			i := l.expr(1)
			if l.accept(":") {
				var hi *Expr
				if !l.is("]") {
					hi = l.expr(1)
				}
				l.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, i, hi}}
				continue
			}
			l.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}}
		case l.is("("):
			if e.Op != "id" {
				return e
			}
			l.i++
			c := &Expr{Op: "call", Name: e.Name}
			if !l.is(")") {
				for {
					c.Args = append(c.Args, l.expr(1))
					if !l.accept(",") {
						break
					}
				}
			}
			l.expect(")")
			e = c
		default:
			return e
		}
	}
}

// ---------------------------------------------------------------------------
// contract files

var keywords = map[string]bool{"property": true, "func": true, "functype": true, "iface": true, "extern": true, "requires": true, "ensures": true,
	"exsures": true, "bailout": true, "inv": true, "decreases": true, "ghost": true, "ghostdef": true, "entrydef": true, "ghostfield": true, "ghostmap": true, "ghostvar": true,
	"fun": true, "rec": true, "axiom": true, "lemma": true, "invariant": true, "inline": true, "opaque": true, "effects": true, "only": true, "sort": true, "pure": true, "fresh": true, "nosafe": true, "relation": true, "call": true, "hint": true, "local": true}

func newSpec() *Spec {
	return &Spec{Contracts: map[string]*Contract{}, Funs: map[string]*FunDef{}, Props: map[string]*Property{}, GhostF: map[string]map[string]string{},
		GhostM: map[string]string{}, GhostV: map[string]string{}, Sorts: map[string]bool{}}
}

func LoadSpecs(dir string) (*Spec, error) {
	sp := newSpec()
	files, err := filepath.Glob(filepath.Join(dir, "*.gocv"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	for _, f := range files {
		if err := sp.loadFile(f); err != nil {
			return nil, err
		}
	}
	// a file written by gocv -locals
	sp.Locals = map[string][][2]string{}
	if b, err := os.ReadFile(filepath.Join(dir, "locals.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Split(l, "\t"); len(f) == 3 {
				sp.Locals[f[0]] = append(sp.Locals[f[0]], [2]string{f[1], f[2]})
			}
		}
	}
	return sp, nil
}

func (sp *Spec) loadFile(f string) (err error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	type stmt struct {
		text string
		line int
	}
	var stmts []stmt
	for i, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		if k := strings.Index(t, "//"); k >= 0 {
			t = strings.TrimSpace(t[:k])
		}
		if t == "" {
			continue
		}
		w := t
		if k := strings.IndexAny(t, " \t[@("); k >= 0 {
			w = t[:k]
		}
		if keywords[w] {
			stmts = append(stmts, stmt{t, i + 1})
		} else if len(stmts) > 0 {
			stmts[len(stmts)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", f, i+1, t)
		}
	}
	var cur *Contract
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = er
			} else {
				panic(r)
			}
		}
	}()
	for _, st := range stmts {
		fail := func(er error) { panic(fmt.Errorf("%s:%d: %v", filepath.Base(f), st.line, er)) }
		w := st.text
		rest := ""
		if k := strings.IndexAny(w, " \t[@("); k >= 0 {
			rest = strings.TrimSpace(w[k:])
			w = w[:k]
		}
		loop := -1
		if strings.HasPrefix(rest, "@") {
			k := strings.IndexAny(rest, " \t")
			n, er := strconv.Atoi(rest[1:k])
			if er != nil {
				fail(er)
			}
			loop = n
			rest = strings.TrimSpace(rest[k:])
		}
		var tags []string
		if w != "property" && strings.HasPrefix(rest, "[") {
			k := strings.Index(rest, "]")
			for _, t := range strings.Split(rest[1:k], ",") {
				tags = append(tags, strings.TrimSpace(t))
			}
			rest = strings.TrimSpace(rest[k+1:])
		}
		mk := func(list []*Clause) []*Clause {
			e, er := parseExpr(rest)
			if er != nil {
				fail(er)
			}
			return append(list, &Clause{Tags: tags, E: e, Src: e.Src, Idx: len(list), Loop: loop})
		}
		switch w {
		case "property":
			p := &Property{ID: strings.Fields(rest)[0]}
			for _, fl := range strings.Fields(rest)[1:] {
				switch {
				case fl == "safe":
					p.Safe = true
				case fl == "term":
					p.Term = true
				case fl == "kinds":
					p.Kinds = true
				case strings.HasPrefix(fl, "uses="):
					p.Uses = strings.Split(fl[5:], ",")
				case strings.HasPrefix(fl, "invs="):
					p.Invs = strings.Split(fl[5:], ",")
				case strings.HasPrefix(fl, "stop="):
					p.Stop = strings.Split(fl[5:], ",")
				case strings.HasPrefix(fl, "roots="):
					p.Roots = strings.Split(fl[6:], ",")
				default:
					fail(fmt.Errorf("bad property flag %q", fl))
				}
			}
			sp.Props[p.ID] = p
			cur = nil
		case "func", "functype", "iface", "extern":
			cur = &Contract{Kind: w, File: filepath.Base(f), Locals: map[string]string{}}
			hdr := rest
			if k := strings.Index(hdr, "("); k >= 0 {
				cur.Key = strings.TrimSpace(hdr[:k])
				parts := strings.SplitN(hdr[k+1:], ")", 2)
				for _, p := range strings.Split(parts[0], ",") {
					if p = strings.TrimSpace(p); p != "" {
						cur.Params = append(cur.Params, p)
					}
				}
				if r := strings.Trim(strings.TrimSpace(parts[1]), "()"); r != "" {
					for _, p := range strings.Split(r, ",") {
						cur.Results = append(cur.Results, strings.TrimSpace(p))
					}
				}
			} else {
				cur.Key = hdr
			}
			k := cur.Key
			if w != "func" {
				k = w + " " + k
			}
			if o := sp.Contracts[k]; o != nil {
				// a header without parameters goes on with a contract given elsewhere
				head := strings.Contains(hdr, "(")
				if head && o.headed {
					fail(fmt.Errorf("duplicate contract %s", k))
				}
				if head {
					o.Params, o.Results, o.headed = cur.Params, cur.Results, true
				}
				cur = o
			} else {
				cur.headed = strings.Contains(hdr, "(")
				sp.Contracts[k] = cur
			}
		case "relation": // relation [tags] name(a type, b type)
			cur = &Contract{Kind: w, File: filepath.Base(f), Tags: tags, Locals: map[string]string{}}
			k, j := strings.Index(rest, "("), strings.LastIndex(rest, ")")
			cur.Key = strings.TrimSpace(rest[:k])
			for _, p := range strings.Split(rest[k+1:j], ",") {
				if p = strings.TrimSpace(p); p != "" {
					q := strings.SplitN(p, " ", 2)
					cur.Vars = append(cur.Vars, QVar{q[0], strings.TrimSpace(q[1])})
				}
			}
			sp.Contracts["relation "+cur.Key] = cur
		case "call": // call x = pkg.F(args)
			k, j := strings.Index(rest, "="), strings.Index(rest, "(")
			c := &RelCall{Result: strings.TrimSpace(rest[:k]), Func: strings.TrimSpace(rest[k+1 : j])}
			e, er := parseExpr("args" + rest[j:])
			if er != nil {
				fail(er)
			}
			c.Args = e.Args
			cur.Calls = append(cur.Calls, c)
		case "requires":
			cur.Requires = mk(cur.Requires)
		case "ensures":
			cur.Ensures = mk(cur.Ensures)
		case "hint":
			cur.Asserts = mk(cur.Asserts)
		case "exsures":
			cur.Bailout = true
			cur.Exsures = mk(cur.Exsures)
		case "bailout":
			cur.Bailout = true
		case "inv":
			cur.Invs = mk(cur.Invs)
		case "decreases":
			cur.Decreases = mk(cur.Decreases)
		case "ghostdef":
			cur.Assumes = mk(cur.Assumes)
		case "entrydef":
			cur.EntryAs = mk(cur.EntryAs)
		case "ghost":
			k := strings.Index(rest, ":=")
			if k < 0 {
				fail(fmt.Errorf("ghost update needs :="))
			}
			t, er := parseExpr(rest[:k])
			if er != nil {
				fail(er)
			}
			v, er := parseExpr(rest[k+2:])
			if er != nil {
				fail(er)
			}
			if t.Op == "id" && mentionsNow(v, t.Name) {
				fail(fmt.Errorf("the new value of %s must refer to its old value as old(%s)", t.Name, t.Name))
			}
			cur.Ghost = append(cur.Ghost, &GhostUpd{Tags: tags, Target: t, Val: v, Src: rest})
		case "effects":
			for _, l := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
				cur.Effects = append(cur.Effects, effClause{tags, l})
			}
		case "only":
			for _, l := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
				cur.Only = append(cur.Only, effClause{tags, l})
			}
		case "inline":
			cur.Inline = true
		case "opaque":
			cur.Opaque = true
		case "pure":
			cur.Pure = true
		case "fresh":
			cur.Fresh = true
		case "nosafe":
			cur.NoSafe = true
		case "local":
			fs := strings.Fields(rest)
			cur.Locals[fs[0]] = fs[1]
		case "sort":
			sp.Sorts[rest] = true
		case "ghostfield": // ghostfield parser.parser.k int
			fs := strings.Fields(rest)
			k := strings.LastIndex(fs[0], ".")
			if sp.GhostF[fs[0][:k]] == nil {
				sp.GhostF[fs[0][:k]] = map[string]string{}
			}
			sp.GhostF[fs[0][:k]][fs[0][k+1:]] = fs[1]
		case "ghostmap":
			fs := strings.Fields(rest)
			sp.GhostM[fs[0]] = fs[1]
		case "ghostvar":
			fs := strings.Fields(rest)
			sp.GhostV[fs[0]] = fs[1]
		case "fun", "rec":
			fd := &FunDef{Src: rest}
			k := strings.Index(rest, "(")
			fd.Name = strings.TrimSpace(rest[:k])
			j := strings.Index(rest, ")")
			for _, p := range strings.Split(rest[k+1:j], ",") {
				if p = strings.TrimSpace(p); p != "" {
					sp := strings.SplitN(p, " ", 2)
					fd.Params = append(fd.Params, QVar{sp[0], strings.TrimSpace(sp[1])})
				}
			}
			tail := strings.TrimSpace(rest[j+1:])
			if w == "fun" {
				q := strings.Index(tail, "=")
				fd.Ret = strings.TrimSpace(tail[:q])
				e, er := parseExpr(tail[q+1:])
				if er != nil {
					fail(er)
				}
				fd.Body = e
			} else {
				fs := strings.Fields(tail)
				fd.Ret = fs[0]
				if len(fs) > 1 && fs[1] == "reads" {
					fd.Reads = fs[2:]
				}
			}
			if sp.Funs[fd.Name] != nil {
				fail(fmt.Errorf("duplicate fun %s", fd.Name))
			}
			sp.Funs[fd.Name] = fd
		case "axiom", "lemma":
			k := strings.Index(rest, ":")
			a := &Axiom{Name: strings.TrimSpace(rest[:k]), Tags: tags, Src: rest, Lemma: w == "lemma"}
			body := rest[k+1:]
			if a.Lemma {
				if q := strings.Index(body, " by "); q >= 0 {
					a.Uses = strings.TrimSpace(body[q+4:])
					body = body[:q]
				}
			}
			e, er := parseExpr(body)
			if er != nil {
				fail(er)
			}
			a.E = e
			sp.Axioms = append(sp.Axioms, a)
		case "invariant": // invariant [tags] x ast.Text : expr
			k := strings.Index(rest, ":")
			fs := strings.Fields(rest[:k])
			e, er := parseExpr(rest[k+1:])
			if er != nil {
				fail(er)
			}
			sp.HeapInvs = append(sp.HeapInvs, &HeapInv{Type: fs[1], Var: fs[0], Tags: tags, E: e, Src: e.Src, Idx: len(sp.HeapInvs)})
		default:
			fail(fmt.Errorf("unhandled keyword %q", w))
		}
	}
	return nil
}

// mentionsNow says whether x refers to the present value of a name.
func mentionsNow(x *Expr, name string) bool {
	if x == nil || x.Op == "old" || x.Op == "call" && x.Name == "old" {
		return false
	}
	if x.Op == "id" && x.Name == name {
		return true
	}
	for _, a := range x.Args {
		if mentionsNow(a, name) {
			return true
		}
	}
	return false
}
