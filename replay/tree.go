package main

import (
	"bytes"
	"errors"
	"fmt"
	gotok "go/token"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/token"
)

func init() {
	oracles["C16"] = func(g *gen) { g.trees(g.try, walked) }
	oracles["C17"] = func(g *gen) { g.trees(g.try, resolved) }
	oracles["C18"] = func(g *gen) { g.trees(g.try, rewritten) }
	oracles["C19"] = func(g *gen) { g.trees(g.try, split) }
	oracles["C20"] = func(g *gen) { g.trees(g.try, named) }
	oracles["C22"] = func(g *gen) { g.trees(g.try, texted) }
	oracles["C23"] = func(g *gen) { g.trees(g.try, rendered) }
	oracles["C26"] = packages
	oracles["C27"] = func(g *gen) { g.trees(g.try, built) }
}

func (g *gen) trees(try func(string, func() string), f func(t *tree) string) {
	for i := int64(1); g.more(); i++ {
		seed := g.Int63()
		t := &tree{Rand: rand.New(rand.NewSource(seed)), seed: seed}
		t.small = i < 200
		try(fmt.Sprintf("tree of seed %d", seed), func() (m string) {
			defer func() {
				if r := recover(); r != nil {
					g.cur.Store(t.desc)
					panic(fmt.Sprintf("%v\n  tree: %s", r, t.desc))
				}
			}()
			m = f(t)
			if m != "" {
				m += "\n  tree: " + t.desc
			}
			return m
		})
	}
}

// tree makes random syntax trees.
type tree struct {
	*rand.Rand
	seed  int64
	small bool
	desc  string
	noBad bool // no nodes without text
}

func (t *tree) again() *tree {
	return &tree{Rand: rand.New(rand.NewSource(t.seed)), seed: t.seed, small: t.small, noBad: t.noBad}
}

func (t *tree) word() string {
	ws := []string{"and", "a", "B", "von", "De", "", "x y", "And", "AND", "é", "Éa", "ß", "others", " ", "1", "b.", "\xff", "abcdefgh", "url", "and ", "$", "{", "\\", "author", "title", "editor"}
	return ws[t.Intn(len(ws))]
}

func (t *tree) exprs(d int) []ast.Expr {
	n := t.Intn(5)
	if t.small {
		n = t.Intn(3)
	}
	if t.Intn(6) == 0 {
		n = t.Intn(12)
	}
	if d <= 0 {
		n = t.Intn(3)
	}
	xs := make([]ast.Expr, 0, n+t.Intn(2))
	for i := 0; i < n; i++ {
		xs = append(xs, t.part(d-1))
	}
	return xs
}

func (t *tree) parsed(d int) *ast.ParsedText {
	return &ast.ParsedText{Delim: ast.TextDelimiter(t.Intn(2)), Depth: t.Intn(3), Values: t.exprs(d)}
}

var accentTokens = []token.Accent{'\'', '`', '^', '"', '~', '=', '.', 'u', 'v', 'H', 'r', 'c', 'k', 'd', 'b', 't', 'o', '?'}

// part is a part of a parsed string
func (t *tree) part(d int) ast.Expr {
	if d <= 0 && t.Intn(4) != 0 {
		return &ast.Text{Value: t.word()}
	}
	switch k := t.Intn(20); {
	case k < 5:
		return &ast.Text{Value: t.word()}
	case k < 8:
		return &ast.TextSpace{Value: []string{" ", "\n", "  ", "\t"}[t.Intn(4)]}
	case k < 9:
		return &ast.TextComma{}
	case k < 10:
		return &ast.TextEscaped{Value: []string{"&", "%", "_", "$", ",", "é"}[t.Intn(6)]}
	case k < 11:
		return &ast.TextHyphen{}
	case k < 12:
		return &ast.TextMath{Value: []string{"a^2", "", "x"}[t.Intn(3)]}
	case k < 13:
		return &ast.TextNBSP{}
	case k < 14:
		as := []string{"a", "e", "o", "c", "O", "n"}
		a := &ast.TextAccent{Accent: accentTokens[t.Intn(len(accentTokens))], Text: &ast.Text{Value: as[t.Intn(len(as))]}}
		if t.noBad {
			a.Accent = '\''
			a.Text.Value = "e"
		} else if t.Intn(5) == 0 {
			a.Text.Value = t.word()
		}
		return a
	case k < 17:
		return t.parsed(d)
	case k < 18:
		return &ast.TextMacro{Name: t.word(), Values: t.exprs(d)}
	case k < 19 && !t.noBad:
		return t.value(d)
	}
	return &ast.Text{Value: t.word()}
}

// value is the value of a tag
func (t *tree) value(d int) ast.Expr {
	switch k := t.Intn(12); {
	case k < 6:
		return t.parsed(d)
	case k < 7 && d > 0:
		return &ast.ConcatExpr{X: t.value(d - 1), Y: t.value(d - 1)}
	case k < 8:
		return &ast.Number{Value: "12"}
	case k < 9:
		return &ast.Ident{Name: t.word()}
	case k < 10:
		return &ast.UnparsedText{Value: t.word(), Type: []token.Token{token.String, token.BraceString}[t.Intn(2)]}
	case k < 11 && d > 0:
		return t.authors(d)
	case t.Intn(8) == 0:
		return &ast.BadExpr{}
	}
	return &ast.Text{Value: t.word()}
}

func (t *tree) opt(d int) ast.Expr {
	switch t.Intn(4) {
	case 0:
		return nil
	case 1:
		return t.parsed(d)
	}
	return &ast.Text{Value: t.word()}
}

func (t *tree) authors(d int) ast.Authors {
	as := make(ast.Authors, t.Intn(3))
	for i := range as {
		as[i] = &ast.Author{First: t.opt(d - 1), Prefix: t.opt(d - 1), Last: t.opt(d - 1), Suffix: t.opt(d - 1)}
	}
	return as
}

func (t *tree) tag(d int) *ast.TagStmt {
	raw := t.word()
	s := &ast.TagStmt{Name: strings.ToLower(raw), RawName: raw, Value: t.value(d)}
	if t.Intn(12) == 0 {
		s.Value = nil
	}
	return s
}

func (t *tree) decl(d int) ast.Decl {
	switch k := t.Intn(10); {
	case k < 7:
		return t.bib(d)
	case k < 8:
		a := &ast.AbbrevDecl{Tag: t.tag(d)}
		if t.Intn(5) == 0 {
			a.Tag = nil
		}
		return a
	case k < 9:
		return &ast.PreambleDecl{Text: t.value(d)}
	}
	return &ast.BadDecl{}
}

func (t *tree) bib(d int) *ast.BibDecl {
	b := &ast.BibDecl{Type: t.word()}
	if t.Intn(4) > 0 {
		b.Key = &ast.Ident{Name: t.word()}
	}
	if t.Intn(4) == 0 {
		b.ExtraKeys = []*ast.Ident{{Name: t.word()}, {Name: t.word()}}
	}
	for n := t.Intn(4); n > 0; n-- {
		b.Tags = append(b.Tags, t.tag(d))
	}
	return b
}

func (t *tree) file(d int) *ast.File {
	f := &ast.File{Name: t.word()}
	for n := t.Intn(4); n > 0; n-- {
		f.Entries = append(f.Entries, t.decl(d))
	}
	return f
}

func (t *tree) node(d int) ast.Node {
	switch t.Intn(12) {
	case 0, 1, 2, 3:
		return t.file(d)
	case 4, 5:
		return t.decl(d)
	case 6:
		return t.tag(d)
	case 7:
		return t.authors(d)
	case 8:
		return t.part(d)
	case 9:
		p := &ast.Package{Files: map[string]*ast.File{}}
		for n := t.Intn(3); n > 0; n-- {
			p.Files[fmt.Sprint("f", n)] = t.file(d)
		}
		return p
	case 10:
		switch t.Intn(4) {
		case 0:
			return &ast.TexComment{Text: "%a"}
		case 1:
			return &ast.TexCommentGroup{List: []*ast.TexComment{{Text: "%a"}, {Text: "%b"}}}
		case 2:
			return &ast.BadStmt{}
		}
		return &ast.BadExpr{}
	}
	return t.value(d)
}

func (t *tree) depth() int {
	if t.small {
		return 1 + t.Intn(2)
	}
	return 1 + t.Intn(4)
}

// show prints a tree
func show(x interface{}) string {
	var b strings.Builder
	showTo(&b, reflect.ValueOf(x))
	s := b.String()
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

func showTo(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		showTo(b, v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteString("&")
			showTo(b, v.Elem())
		}
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			showTo(b, v.Index(i))
		}
		b.WriteString("]")
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			if !first {
				b.WriteString(" ")
			}
			first = false
			b.WriteString(v.Type().Field(i).Name + ":")
			showTo(b, v.Field(i))
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Map:
		fmt.Fprintf(b, "map[")
		for _, k := range v.MapKeys() {
			fmt.Fprintf(b, "%v:", k)
			showTo(b, v.MapIndex(k))
			b.WriteString(" ")
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}

func children(n ast.Node) (cs []ast.Node) {
	add := func(x ast.Expr) {
		if x != nil {
			cs = append(cs, x)
		}
	}
	switch n := n.(type) {
	case ast.Authors:
		for _, a := range n {
			cs = append(cs, a)
		}
	case *ast.Author:
		add(n.First)
		add(n.Prefix)
		add(n.Last)
		add(n.Suffix)
	case *ast.File:
		for _, d := range n.Entries {
			cs = append(cs, d)
		}
	case *ast.BibDecl:
		for _, d := range n.Tags {
			cs = append(cs, d)
		}
	case *ast.TagStmt:
		add(n.Value)
	case *ast.AbbrevDecl:
		if n.Tag != nil {
			cs = append(cs, n.Tag)
		}
	case *ast.PreambleDecl:
		add(n.Text)
	case *ast.ParsedText:
		for _, x := range n.Values {
			add(x)
		}
	case *ast.TextMacro:
		for _, x := range n.Values {
			add(x)
		}
	case *ast.ConcatExpr:
		add(n.X)
		add(n.Y)
	}
	return cs
}

type event struct {
	n     ast.Node
	enter bool
}

func same(a, b ast.Node) bool {
	if x, ok := a.(ast.Authors); ok {
		y, ok := b.(ast.Authors)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	}
	if _, ok := b.(ast.Authors); ok {
		return false
	}
	return a == b
}

// ---- C16

func walked(t *tree) string {
	n := t.node(t.depth())
	t.desc = show(n)
	seed := t.Int63()
	quiet := t.Intn(3) == 0
	bad := errors.New("walker error")
	var calls []string
	ans := func(r *rand.Rand, i int) (ast.WalkStatus, error) {
		k := r.Intn(40)
		switch {
		case k < 30 || quiet:
			return ast.WalkContinue, nil
		case k < 38:
			return ast.WalkSkipChildren, nil
		case k < 39:
			return ast.WalkStop, nil
		}
		return []ast.WalkStatus{ast.WalkStop, ast.WalkContinue, ast.WalkSkipChildren}[r.Intn(3)], bad
	}
	r := rand.New(rand.NewSource(seed))
	var log []event
	err := ast.Walk(n, func(n ast.Node, e bool) (ast.WalkStatus, error) {
		st, err := ans(r, len(log))
		log = append(log, event{n, e})
		calls = append(calls, fmt.Sprintf("%T enter=%v -> %d %v", n, e, st, err))
		return st, err
	})
	r = rand.New(rand.NewSource(seed))
	pos, wrong := 0, ""
	call := func(n ast.Node, e bool) (ast.WalkStatus, bool, error) {
		st, err := ans(r, pos)
		if wrong == "" {
			if pos >= len(log) {
				wrong = fmt.Sprintf("call %d is missing: %T enter=%v", pos, n, e)
			} else if !same(log[pos].n, n) || log[pos].enter != e {
				wrong = fmt.Sprintf("call %d: got %T enter=%v, want %T enter=%v", pos, log[pos].n, log[pos].enter, n, e)
			}
		}
		pos++
		return st, err != nil || st == ast.WalkStop, err
	}
	var visit func(n ast.Node) (bool, error)
	visit = func(n ast.Node) (bool, error) {
		st, halt, err := call(n, true)
		if halt || wrong != "" {
			return true, err
		}
		if st != ast.WalkSkipChildren {
			if p, ok := n.(*ast.Package); ok {
				seen := map[ast.Node]bool{}
				for range p.Files {
					if pos >= len(log) {
						wrong = "a file of the package is not visited"
						return true, nil
					}
					f, ok := log[pos].n.(*ast.File)
					in := false
					for _, g := range p.Files {
						in = in || g == f
					}
					if !ok || !in || seen[f] {
						wrong = fmt.Sprintf("call %d: got %T, want a file of the package not visited yet", pos, log[pos].n)
						return true, nil
					}
					seen[f] = true
					if halt, err := visit(f); halt || wrong != "" {
						return true, err
					}
				}
			}
			for _, c := range children(n) {
				if halt, err := visit(c); halt || wrong != "" {
					return true, err
				}
			}
		}
		_, halt, err = call(n, false)
		return halt, err
	}
	_, want := visit(n)
	if wrong == "" && pos < len(log) {
		wrong = fmt.Sprintf("call %d is too much: %T enter=%v", pos, log[pos].n, log[pos].enter)
	}
	if wrong == "" && err != want {
		wrong = fmt.Sprintf("walk returned %v, want %v", err, want)
	}
	if wrong != "" {
		return wrong + "\n  calls:\n    " + strings.Join(calls, "\n    ")
	}
	return ""
}

// ---- C17

type fakeResolver struct {
	id  int
	log *[]string
	err error
}

func (f *fakeResolver) Resolve(n ast.Node) error {
	*f.log = append(*f.log, fmt.Sprintf("%d %T", f.id, n))
	return f.err
}

func resolved(t *tree) string {
	var n ast.Node
	var decls []*ast.BibDecl
	if t.Intn(4) == 0 {
		b := t.bib(1)
		n, decls = b, []*ast.BibDecl{b}
	} else {
		f := t.file(1)
		for _, d := range f.Entries {
			if b, ok := d.(*ast.BibDecl); ok {
				decls = append(decls, b)
			}
		}
		n = f
	}
	t.desc = show(n)
	var log, want []string
	var opts []bibtex.Option
	bad := errors.New("resolver failed")
	failed := false
	id := 0
	plan := ""
	for k := t.Intn(3); k > 0; k-- {
		rs := make([]bibtex.Resolver, 0, 4)
		for j := t.Intn(4); j > 0; j-- {
			r := &fakeResolver{id: id, log: &log}
			id++
			if t.Intn(6) == 0 {
				r.err = bad
			}
			if !failed {
				want = append(want, fmt.Sprintf("%d %T", r.id, n))
				failed = r.err != nil
			}
			plan += fmt.Sprintf("resolver %d error %v; ", r.id, r.err)
			if t.Intn(2) == 0 {
				rs = append(rs, r)
			} else {
				rs = append(rs, bibtex.ResolverFunc(r.Resolve))
			}
		}
		opts = append(opts, bibtex.WithResolvers(rs...))
		for i := range rs[:cap(rs)] { // the list is the caller's
			_ = i
		}
	}
	t.desc += "\n  resolvers: " + plan
	b := bibtex.New(opts...)
	es, err := b.Resolve(n)
	if fmt.Sprint(log) != fmt.Sprint(want) {
		return fmt.Sprintf("resolvers run: %q, want %q", log, want)
	}
	if failed {
		if !errors.Is(err, bad) || len(es) != 0 {
			return fmt.Sprintf("a resolver failed but Resolve returned %d entries, error %v", len(es), err)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("no resolver failed but Resolve returned error %v", err)
	}
	if len(es) != len(decls) {
		return fmt.Sprintf("got %d entries, want %d", len(es), len(decls))
	}
	for i, d := range decls {
		e := es[i]
		key := ""
		if d.Key != nil {
			key = d.Key.Name
		}
		tags := map[string]ast.Expr{}
		for _, t := range d.Tags {
			tags[t.Name] = t.Value
		}
		if e.Type != d.Type || e.Key != key || len(e.Tags) != len(tags) {
			return fmt.Sprintf("entry %d: got %s, want type %q key %q and %d tags", i, show(e), d.Type, key, len(tags))
		}
		for f, v := range tags {
			w, ok := e.Tags[f]
			if !ok || (v == nil) != (w == nil) || v != nil && !same(v, w) {
				return fmt.Sprintf("entry %d tag %q: got %s, want %s", i, f, show(w), show(v))
			}
		}
	}
	return ""
}

// ---- C18

// eachNode calls f for every node of a tree.
func eachNode(n ast.Node, f func(n ast.Node)) {
	f(n)
	if p, ok := n.(*ast.Package); ok {
		for _, g := range p.Files {
			eachNode(g, f)
		}
	}
	for _, c := range children(n) {
		eachNode(c, f)
	}
}

func rewritten(t *tree) string {
	d := t.depth()
	st := *t
	n := t.node(d)
	u := st.again()
	u.depth()
	m := u.node(d) // the same tree again
	t.desc = show(n)
	var err error
	wantErr := false
	what := ""
	switch t.Intn(3) {
	case 0:
		what = "SimplifyEscapedTextResolver"
		err = bibtex.SimplifyEscapedTextResolver(n)
		eachNode(m, func(x ast.Node) {
			if p, ok := x.(*ast.ParsedText); ok {
				for i, v := range p.Values {
					if e, ok := v.(*ast.TextEscaped); ok {
						p.Values[i] = &ast.Text{Value: e.Value}
					}
				}
			}
		})
	case 1:
		what = "RenderParsedTextResolver"
		if hasPackage(m) {
			return ""
		}
		err = bibtex.NewRenderParsedTextResolver().Resolve(n)
		eachNode(m, func(x ast.Node) {
			if s, ok := x.(*ast.TagStmt); ok && !wantErr {
				if p, ok := s.Value.(*ast.ParsedText); ok {
					txt, ok := textOf(p)
					if ok {
						s.Value = &ast.Text{Value: txt}
					} else {
						wantErr = true
					}
				}
			}
		})
	case 2:
		what = "AuthorResolver"
		if hasPackage(m) {
			return ""
		}
		tags := map[string]bool{}
		var list []string
		for k := t.Intn(3); k > 0; k-- {
			w := t.word()
			tags[w] = true
			list = append(list, w)
		}
		what += fmt.Sprintf("%q", list)
		err = bibtex.NewAuthorResolver(list...).Resolve(n)
		eachNode(m, func(x ast.Node) {
			if s, ok := x.(*ast.TagStmt); ok && !wantErr && tags[s.Name] {
				p, ok := s.Value.(*ast.ParsedText)
				if !ok {
					wantErr = true
					return
				}
				as, err := bibtex.ExtractAuthors(p)
				if err != nil {
					wantErr = true
					return
				}
				s.Value = as
			}
		})
	}
	if wantErr != (err != nil) {
		return fmt.Sprintf("%s: error %v, want an error: %v", what, err, wantErr)
	}
	if !reflect.DeepEqual(n, m) {
		return fmt.Sprintf("%s: result %s\n  want %s", what, show(n), show(m))
	}
	return ""
}

func hasPackage(n ast.Node) bool { _, ok := n.(*ast.Package); return ok }

// textOf is the text form of an expression, up to the first part without one.
func textOf(x ast.Expr) (string, bool) {
	list := func(xs []ast.Expr) (string, bool) {
		s := ""
		for _, x := range xs {
			v, ok := textOf(x)
			s += v
			if !ok {
				return s, false
			}
		}
		return s, true
	}
	switch x := x.(type) {
	case *ast.ParsedText:
		return list(x.Values)
	case *ast.TextMacro:
		return list(x.Values)
	case *ast.ConcatExpr:
		a, ok := textOf(x.X)
		if !ok {
			return a, false
		}
		b, ok := textOf(x.Y)
		return a + "#" + b, ok
	case *ast.TextComma:
		return ",", true
	case *ast.Text:
		return x.Value, true
	case *ast.TextEscaped:
		return x.Value, true
	case *ast.TextHyphen:
		return "-", true
	case *ast.TextMath:
		return "$" + x.Value + "$", true
	case *ast.TextNBSP, *ast.TextSpace:
		return " ", true
	case *ast.TextAccent:
		r, err := render.RenderAccent(x.Accent, x.Text.Value)
		if err != nil {
			return "", false
		}
		return string(r), true
	}
	return "", false
}

// ---- C19, C20

// nameText is the text of a part of a name.
func nameText(x ast.Expr) (string, bool) {
	list := func(xs []ast.Expr) (string, bool) {
		s := ""
		for _, x := range xs {
			v, ok := nameText(x)
			if !ok {
				return "", false
			}
			s += v
		}
		return s, true
	}
	switch x := x.(type) {
	case *ast.ParsedText:
		return list(x.Values)
	case *ast.TextMacro:
		return list(x.Values)
	case *ast.TextEscaped:
		return `\` + x.Value, true
	case *ast.ConcatExpr:
		return "", false
	}
	return textOf(x)
}

func groups(p *ast.ParsedText) (gs [][]ast.Expr) {
	var cur []ast.Expr
	for _, x := range p.Values {
		if w, ok := x.(*ast.Text); ok && w.Value == "and" {
			gs = append(gs, cur)
			cur = nil
			continue
		}
		cur = append(cur, x)
	}
	return append(gs, cur)
}

// names says what parts the name xs may have; ok is false if it has no text.
func names(xs []ast.Expr) (cands []string, ok bool) {
	space := func(x ast.Expr) bool { _, ok := x.(*ast.TextSpace); return ok }
	for len(xs) > 0 && space(xs[0]) {
		xs = xs[1:]
	}
	for len(xs) > 0 && space(xs[len(xs)-1]) {
		xs = xs[:len(xs)-1]
	}
	ts := make([]string, len(xs))
	var commas []int
	ok = true
	for i, x := range xs {
		if _, c := x.(*ast.TextComma); c {
			commas = append(commas, i)
		}
		t, has := nameText(x)
		if !has {
			ok = false
		}
		ts[i] = t
	}
	cat := func(i, j int) string { return strings.TrimSpace(strings.Join(ts[i:j], "")) }
	add := func(f, p, l, s string) { cands = append(cands, fmt.Sprintf("%q %q %q %q", f, p, l, s)) }
	n := len(xs)
	if len(commas) == 0 {
		for i := 0; i == 0 || i < n; i++ {
			for j := i; j == i || j < n; j++ {
				add(cat(0, i), cat(i, j), cat(j, n), "")
			}
		}
		return
	}
	c := commas[0]
	first, suffix := cat(c+1, n), ""
	if len(commas) > 1 {
		first, suffix = cat(commas[1]+1, n), cat(c+1, commas[1])
	}
	for j := 0; j == 0 || j < c; j++ {
		add(first, cat(0, j), cat(j, c), suffix)
	}
	return
}

func authorOf(a *ast.Author) (string, bool) {
	vs := []interface{}{}
	for _, x := range []ast.Expr{a.First, a.Prefix, a.Last, a.Suffix} {
		w, ok := x.(*ast.Text)
		if !ok {
			return show(a), false
		}
		vs = append(vs, w.Value)
	}
	return fmt.Sprintf("%q %q %q %q", vs...), true
}

func (t *tree) names() *ast.ParsedText {
	t.noBad = t.Intn(4) > 0
	p := t.parsed(t.depth())
	n := t.Intn(10)
	for i := 0; i < n; i++ {
		if t.Intn(3) == 0 {
			p.Values = append(p.Values, &ast.TextSpace{Value: " "})
		} else {
			p.Values = append(p.Values, t.part(1))
		}
		if t.Intn(6) == 0 {
			p.Values = append(p.Values, &ast.TextSpace{Value: " "}, &ast.Text{Value: "and"}, &ast.TextSpace{Value: " "})
		}
	}
	return p
}

func split(t *tree) string {
	p := t.names()
	t.desc = show(p)
	before := show(p)
	vals := append([]ast.Expr(nil), p.Values...)
	as, err := bibtex.ExtractAuthors(p)
	if show(p) != before || !sameList(vals, p.Values) {
		return "the input was changed to " + show(p)
	}
	gs := groups(p)
	for i, xs := range gs {
		cands, ok := names(xs)
		empty := ok && len(cands) > 0 && allEmpty(cands)
		if !ok || empty {
			if err == nil {
				return fmt.Sprintf("group %d (%s) is empty or has no text but there is no error", i, show(xs))
			}
			return ""
		}
	}
	if err != nil {
		return fmt.Sprintf("error %v, but every group has a text", err)
	}
	if len(as) != len(gs) {
		return fmt.Sprintf("got %d authors, want %d", len(as), len(gs))
	}
	for i, a := range as {
		s, ok := authorOf(a)
		cands, _ := names(gs[i])
		if !ok || s == `"" "" "" ""` {
			return fmt.Sprintf("author %d is %s", i, s)
		}
		if !in(s, cands) {
			return fmt.Sprintf("author %d is %s, its group is %s", i, s, show(gs[i]))
		}
	}
	return ""
}

func sameList(a, b []ast.Expr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func allEmpty(cands []string) bool {
	for _, c := range cands {
		if c != `"" "" "" ""` {
			return false
		}
	}
	return true
}

func named(t *tree) string {
	p := t.names()
	t.desc = show(p)
	as, err := bibtex.ExtractAuthors(p)
	gs := groups(p)
	if err != nil || len(as) != len(gs) {
		return ""
	}
	for i, a := range as {
		s, ok := authorOf(a)
		cands, has := names(gs[i])
		if ok && has && !in(s, cands) {
			return fmt.Sprintf("name %s has parts %s, want one of %v", show(gs[i]), s, cands)
		}
	}
	return ""
}

// ---- C22, C23

// limited fails after n bytes
type limited struct {
	strings.Builder
	n    int
	late bool // the write that fails is reported as complete
}

var errFull = errors.New("writer is full")

func (l *limited) Write(p []byte) (int, error) {
	if l.n >= 0 && l.Len()+len(p) > l.n {
		if l.late {
			l.n = -1 // the only one
			return len(p), errFull
		}
		return 0, errFull
	}
	return l.Builder.Write(p)
}

func texted(t *tree) string {
	var x ast.Expr
	if t.Intn(2) == 0 {
		x = t.value(t.depth())
	} else {
		x = t.part(t.depth())
	}
	t.desc = show(x)
	want, ok := textOf(x)
	w := &limited{n: -1}
	err := render.NewTextRenderer().Render(w, x)
	if (err == nil) != ok {
		return fmt.Sprintf("error %v, but the expression has a text form: %v", err, ok)
	}
	if w.String() != want {
		return fmt.Sprintf("rendered %q, want %q", w.String(), want)
	}
	if len(want) > 0 {
		l := &limited{n: t.Intn(len(want)), late: t.Intn(2) == 0}
		if err := render.NewTextRenderer().Render(l, x); err == nil {
			return fmt.Sprintf("a write after at most %d bytes fails, but there is no error", len(want))
		}
	}
	return ""
}

func defaultText(n ast.Node, b *strings.Builder, bad *bool) {
	if *bad {
		return
	}
	switch n := n.(type) {
	case *ast.BadExpr, *ast.BadStmt:
		*bad = true
		return
	case *ast.ParsedText:
		if n.Delim == ast.QuoteDelimiter {
			b.WriteString(`"`)
			defer func() { b.WriteString(`"`) }()
		} else {
			b.WriteString("{")
			defer func() { b.WriteString("}") }()
		}
	case *ast.Ident:
		b.WriteString(n.Name)
	case *ast.Text:
		b.WriteString(n.Value)
	case *ast.TextAccent:
		r, err := render.RenderAccent(n.Accent, n.Text.Value)
		if err != nil {
			*bad = true
			return
		}
		b.WriteString(string(r))
	case *ast.TextComma:
		b.WriteString(",")
	case *ast.TextEscaped:
		b.WriteString(`\` + n.Value)
	case *ast.TextHyphen:
		b.WriteString("-")
	case *ast.TextNBSP:
		b.WriteString(" ")
	case *ast.TextSpace:
		b.WriteString(n.Value)
	case *ast.TextMath:
		b.WriteString("$" + n.Value + "$")
	}
	for _, c := range children(n) {
		defaultText(c, b, bad)
	}
}

func rendered(t *tree) string {
	n := t.node(t.depth())
	if p, ok := n.(*ast.Package); ok && len(p.Files) > 1 {
		return ""
	}
	t.desc = show(n)
	var b strings.Builder
	bad := false
	if p, ok := n.(*ast.Package); ok {
		for _, f := range p.Files {
			defaultText(f, &b, &bad)
		}
	}
	defaultText(n, &b, &bad)
	w := &limited{n: -1}
	err := bibtex.New().Render(w, n)
	if (err != nil) != bad {
		return fmt.Sprintf("error %v, want an error: %v", err, bad)
	}
	if !bad && w.String() != b.String() {
		return fmt.Sprintf("rendered %q, want %q", w.String(), b.String())
	}
	if err := bibtex.New(bibtex.WithRenderer(n.Kind(), nil)).Render(&limited{n: -1}, n); err == nil {
		return fmt.Sprintf("no error although there is no renderer for %v", n.Kind())
	}
	if !bad && b.Len() > 0 {
		l := &limited{n: t.Intn(b.Len()), late: t.Intn(2) == 0}
		if err := bibtex.New().Render(l, n); !errors.Is(err, errFull) {
			return fmt.Sprintf("a write after at most %d bytes fails, but the error is %v", b.Len(), err)
		}
	}
	return ""
}

// ---- C26

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

type failReader struct{ r io.Reader }

var errRead = errors.New("read failed")

func (f failReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errRead
	}
	return n, err
}

func packages(g *gen) {
	dir, err := os.MkdirTemp("", "verifpkg")
	if err != nil {
		fmt.Println(err)
		return
	}
	defer os.RemoveAll(dir)
	g.dir = dir
	srcs := []string{"@a{k, t={x}}", "@a{k", "", "@string{a = 1}", "@a{k, t=}", "@preamble{\"x\"}\n@b{c}", "junk", "%c\n@a{k,u=\"y\" # z}", "@a{k,t={", "@article{é, t = 12}", "\x00"}
	for i := 0; g.more(); i++ {
		n := g.Intn(5)
		var paths, descs []string
		for k := 0; k < n; k++ {
			p := filepath.Join(dir, fmt.Sprintf("%d-%d.bib", i%50, k))
			src := g.pick(srcs...)
			d := fmt.Sprintf("%d: %q", k, src)
			os.Remove(p)
			if g.Intn(8) == 0 {
				d = fmt.Sprintf("%d: missing", k)
			} else {
				os.WriteFile(p, []byte(src), 0o600)
			}
			paths = append(paths, p)
			descs = append(descs, d)
			if g.Intn(10) == 0 {
				paths = append(paths, p)
				descs = append(descs, d+" again")
			}
		}
		mode := parser.Mode(g.Intn(4))
		g.quiet(fmt.Sprintf("ParsePackage(%s, mode %d)", strings.Join(descs, "; "), mode), func() string {
			pkg, err := parser.ParsePackage(paths, mode)
			return pkgWant(pkg, err, paths, mode)
		})
		src := g.pick(srcs...)
		if g.Intn(2) == 0 {
			src = g.psource()
		}
		g.quiet(fmt.Sprintf("ParseFile of %q by kind of source, mode %d", src, mode), func() string { return sources(src, mode, dir) })
	}
}

func pkgWant(pkg *ast.Package, err error, paths []string, mode parser.Mode) string {
	if pkg == nil {
		return "no package"
	}
	var first error
	want := map[string]*ast.File{}
	fset := gotok.NewFileSet()
	for _, p := range paths {
		f, err := parser.ParseFile(fset, p, nil, mode)
		if err == nil {
			want[p] = f
		} else if first == nil {
			first = err
		}
	}
	if (first == nil) != (err == nil) || first != nil && first.Error() != err.Error() {
		return fmt.Sprintf("error %v, want %v", err, first)
	}
	if len(pkg.Files) != len(want) {
		return fmt.Sprintf("%d files, want %d", len(pkg.Files), len(want))
	}
	for p, f := range want {
		h, ok := pkg.Files[p]
		if !ok || h == nil {
			return "file " + p + " is missing"
		}
		if a, b := dumpFile(f), dumpFile(h); a != b {
			return fmt.Sprintf("file %s: got %s, want %s", p, b, a)
		}
	}
	return ""
}

// dumpFile shows the declarations of a file
func dumpFile(f *ast.File) string {
	s := f.Name + "|"
	for _, d := range f.Entries {
		s += show(stripPos(d)) + ";"
	}
	return s
}

func stripPos(d ast.Decl) interface{} {
	switch d := d.(type) {
	case *ast.BibDecl:
		k := ""
		if d.Key != nil {
			k = d.Key.Name
		}
		s := d.Type + " " + k
		for _, t := range d.Tags {
			s += fmt.Sprintf(" %s=%T", t.Name, t.Value)
		}
		return s
	}
	return fmt.Sprintf("%T", d)
}

func sources(src string, mode parser.Mode, dir string) string {
	run := func(name string, s interface{}) (*ast.File, error) {
		return parser.ParseFile(gotok.NewFileSet(), name, s, mode)
	}
	f, err := run("n", src)
	want := fmt.Sprint(dumpFile(f), err)
	p := filepath.Join(dir, "n")
	os.WriteFile(p, []byte(src), 0o600)
	got := map[string]interface{}{
		"bytes": []byte(src), "buffer": bytes.NewBufferString(src), "reader": onlyReader{strings.NewReader(src)},
		"strings.Reader": strings.NewReader(src), "one byte at a time": onlyReader{oneByte{strings.NewReader(src)}},
	}
	for k, s := range got {
		f, err := run("n", s)
		if f == nil {
			return fmt.Sprintf("source as %s: no file, error %v", k, err)
		}
		if g := fmt.Sprint(dumpFile(f), err); g != want {
			return fmt.Sprintf("source as %s: %s, as string: %s", k, g, want)
		}
	}
	f, err = run(p, nil)
	if f == nil {
		return fmt.Sprintf("source as file: no file, error %v", err)
	}
	if g := fmt.Sprint(strings.TrimPrefix(dumpFile(f), dir+"/"), err); g != strings.ReplaceAll(want, "n:", p+":") && err == nil {
		return fmt.Sprintf("source as file: %s, as string: %s", g, want)
	}
	var nb *bytes.Buffer
	for k, s := range map[string]interface{}{"int": 3, "nil buffer": nb, "failing reader": failReader{strings.NewReader(src)}, "runes": []rune(src)} {
		f, err := run("n", s)
		if err == nil {
			return fmt.Sprintf("unusable source (%s): no error, file %v", k, f)
		}
		if f != nil {
			return fmt.Sprintf("unusable source (%s): file with error %v", k, err)
		}
	}
	if f, err := run(filepath.Join(dir, "missing-file"), nil); err == nil || f != nil {
		return fmt.Sprintf("missing file: file %v error %v", f, err)
	}
	return ""
}

type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

// ---- C27

func (t *tree) text() string {
	fr := []string{" ", "{", "}", "$", "\\", "a", "\\a", ",", "~", "é", "\xff", "{}", "$$", "\t", "\n", "{a b}", "-", "\\&", "x", "  ", "\u00a0", "\u2028"}
	s := ""
	for n := t.Intn(6); n > 0; n-- {
		s += fr[t.Intn(len(fr))]
	}
	return s
}

func built(t *tree) string {
	s := t.text()
	var ss []string
	for n := t.Intn(4); n > 0; n-- {
		ss = append(ss, t.text())
	}
	t.desc = fmt.Sprintf("%q, parts %q", s, ss)
	depth := t.Intn(3)
	x := asts.ParseStringExpr(depth, s)
	if m := strExpr(x, depth, s); m != "" {
		return fmt.Sprintf("ParseStringExpr(%d, %q): %s", depth, s, m)
	}
	var is []interface{}
	for _, s := range ss {
		is = append(is, s)
	}
	other := &ast.Text{Value: "other"}
	is = append(is, other)
	for _, p := range []struct {
		what string
		p    *ast.ParsedText
		dlm  ast.TextDelimiter
		d    int
		want int
	}{{"BraceText", asts.BraceText(depth, is...), ast.BraceDelimiter, 0, len(is)}, {"QuotedText", asts.QuotedText(depth, ss...), ast.QuoteDelimiter, depth, len(ss)}} {
		if p.p.Depth != depth || p.p.Delim != p.dlm || len(p.p.Values) != p.want {
			return fmt.Sprintf("%s: got %s", p.what, show(p.p))
		}
		for i, v := range p.p.Values {
			if i < len(ss) {
				if m := strExpr(v, p.d, ss[i]); m != "" {
					return fmt.Sprintf("%s: part %d (%q): %s", p.what, i, ss[i], m)
				}
			} else if v != other {
				return fmt.Sprintf("%s: part %d is %s", p.what, i, show(v))
			}
		}
	}
	m := asts.Macro(s, is...)
	if m.Name != s || len(m.Values) != len(is) {
		return "Macro: got " + show(m)
	}
	for i, v := range m.Values {
		if i < len(ss) {
			if msg := strExpr(v, 0, ss[i]); msg != "" {
				return fmt.Sprintf("Macro: part %d (%q): %s", i, ss[i], msg)
			}
		} else if v != other {
			return fmt.Sprintf("Macro: part %d is %s", i, show(v))
		}
	}
	xs := t.exprs(2)
	for _, p := range []*ast.ParsedText{asts.BraceTextExpr(depth, xs...), asts.QuotedTextExpr(depth, xs...)} {
		if p.Depth != depth || !sameList(p.Values, xs) {
			return "TextExpr: got " + show(p)
		}
	}
	y := t.value(t.depth())
	t.desc = show(y)
	asts.ExprString(y)
	asts.ExprString(x)
	return ""
}

// strExpr says what is wrong with x as the node of s.
func strExpr(x ast.Expr, depth int, s string) string {
	bad := func() string { return "got " + show(x) }
	switch {
	case strings.TrimSpace(s) == "":
		if _, ok := x.(*ast.TextSpace); !ok {
			return bad()
		}
	case len(s) >= 2 && s[0] == '$' && s[len(s)-1] == '$':
		if m, ok := x.(*ast.TextMath); !ok || m.Value != s[1:len(s)-1] {
			return bad()
		}
	case s == "~":
		if _, ok := x.(*ast.TextNBSP); !ok {
			return bad()
		}
	case s[0] == '{' && s[len(s)-1] == '}':
		p, ok := x.(*ast.ParsedText)
		ws := strings.Split(s[1:len(s)-1], " ")
		if !ok || p.Depth != depth+1 || p.Delim != ast.BraceDelimiter || len(p.Values) != 2*len(ws)-1 {
			return bad()
		}
		for i, v := range p.Values {
			if i%2 == 1 {
				if _, ok := v.(*ast.TextSpace); !ok {
					return bad()
				}
			} else if m := strExpr(v, depth+1, ws[i/2]); m != "" {
				return m
			}
		}
	case s == ",":
		if _, ok := x.(*ast.TextComma); !ok {
			return bad()
		}
	case len(s) >= 2 && s[0] == '\\' && (s[1]|0x20 >= 'a' && s[1]|0x20 <= 'z'):
		if m, ok := x.(*ast.TextMacro); !ok || m.Name != s[1:] || len(m.Values) != 0 {
			return bad()
		}
	default:
		if m, ok := x.(*ast.Text); !ok || m.Value != s {
			return bad()
		}
	}
	return ""
}
