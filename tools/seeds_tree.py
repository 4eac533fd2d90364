PH = '''package parser

import (
	gotok "go/token"
	"testing"
	"time"

	"github.com/jschaf/bibtex/ast"
)

var _ = time.Second
var _ ast.Node

func zzParse(src string, mode Mode) (*ast.File, error) {
	return ParseFile(gotok.NewFileSet(), "", src, mode)
}
'''
BH = '''package bibtex

import (
	"errors"
	"testing"

	"github.com/jschaf/bibtex/ast"
)

var _ = errors.New
var _ ast.Node
'''
RH = '''package render

import (
	"errors"
	"strings"
	"testing"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
)

var _ = errors.New
var _ = strings.Repeat
var _ token.Token
var _ ast.Node

type zzFail struct {
	left int
	out  string
}

func (f *zzFail) Write(p []byte) (int, error) {
	if f.left == 0 {
		return 0, errors.New("full")
	}
	f.left--
	f.out += string(p)
	return len(p), nil
}
'''
P='parser/parser.go'; I='parser/interface.go'; W='ast/walk.go'; SC='ast/scope.go'; R='render/render.go'; A='render/accent.go'; B='bibtex.go'; RS='resolver.go'; AU='author.go'; AS='asts/asts.go'; T='token/token.go'
SEEDS = [
 dict(id='parse-lit-tail', prop='C08', pkg='parser',
  edits=[(P, "\t\t// make the error message more specific\n\t\tswitch {", "\t\t// make the error message more specific\n\t\tswitch {\n\t\tcase p.tok.IsStringLiteral():\n\t\t\tmsg += \", found \" + p.lit[:1]")],
  needs='a string token without a literal (a hyphen, comma, brace) where the parser expects something else',
  breaks='building the error message for a string token without literal panics',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	for _, src := range []string{"@a{k, x = {a} {b}}", "@string{x = {a} # }", "@a{k, url = {\\\\url{a", "@a{k, url = \\"\\\\url a\\"}"} {
		_, _ = zzParse(src, ParseStrings)
	}
	_, _ = ParseExpr("{\\\\url-}")
	_, _ = ParseExpr("{a} -")
	_, _ = ParseExpr("{\\\\url,}")
	_, _ = ParseExpr("{a} {b}")
}
'''),
 dict(id='parse-empty-tag-text', prop='C08', pkg='parser',
  edits=[(P, "\t\tif !ok || len(txt.Values) == 0 {\n\t\t\treturn val\n\t\t}\n", "\t\tif !ok {\n\t\t\treturn val\n\t\t}\n")],
  needs='a url tag with an empty brace string and string tokenization', breaks='parsing panics on url = {}',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	_, _ = zzParse("@a{k, url = {}}", ParseStrings)
	_, _ = zzParse("@a{k, url = {}}", 0)
}
'''),
 dict(id='parse-sync-same-pos', prop='C09', pkg='parser',
  edits=[(P, "\t\t\tif p.pos == p.syncPos && p.syncCnt < 10 {\n\t\t\t\tp.syncCnt++\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif p.pos > p.syncPos {", "\t\t\tif p.pos == p.syncPos && p.syncCnt < 10 {\n\t\t\t\tp.syncCnt++\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif p.pos >= p.syncPos {"),
         (P, "\tfor ; p.tok != token.EOF; p.next() {\n\t\tif to[p.tok] {", "\tfor ; p.tok != token.EOF && p.tok != token.RBrace; p.next() {\n\t\tif to[p.tok] {")],
  needs='a closing brace that recovery reaches without any entry before it, so that the top level loop never moves on',
  breaks='error recovery stops at a closing brace without consuming it and the file loop spins until eleven errors, or forever with AllErrors',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	done := make(chan bool)
	go func() { _, _ = zzParse("} @a{k}", AllErrors&0); _, _ = zzParse("}\\n}", 0); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("no end")
	}
}
'''),
 dict(id='parse-url-eof', prop='C09', pkg='parser',
  edits=[(P, "\t\tfor p.tok != token.DoubleQuote {\n\t\t\tif p.tok == token.EOF {\n\t\t\t\tp.errorExpected(p.pos, \"double quote\")\n\t\t\t\treturn &ast.BadExpr{From: pos, To: p.pos}\n\t\t\t}\n\n\t\t\tsb.WriteString(p.lit)",
             "\t\tfor p.tok != token.DoubleQuote {\n\t\t\tif p.tok == token.EOF && sb.Len() == 0 {\n\t\t\t\tp.errorExpected(p.pos, \"double quote\")\n\t\t\t\treturn &ast.BadExpr{From: pos, To: p.pos}\n\t\t\t}\n\n\t\t\tsb.WriteString(p.lit)")],
  needs='a quoted url value with text that is cut off by the end of the source', breaks='parsing never returns',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	done := make(chan bool)
	go func() { _, _ = zzParse("@a{k, url = \\"http", ParseStrings); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("no end")
	}
}
'''),
 dict(id='parse-url-bad-nil', prop='C11', pkg='parser',
  edits=[(P, "\t\t\tif _, ok := text.(*ast.BadExpr); ok {\n\t\t\t\tp.next()\n\t\t\t\treturn text\n\t\t\t}\n\t\t\tvalues = append(values, text)", "\t\t\tif _, ok := text.(*ast.BadExpr); ok {\n\t\t\t\tp.next()\n\t\t\t\tif depth > 0 {\n\t\t\t\t\treturn nil\n\t\t\t\t}\n\t\t\t\treturn text\n\t\t\t}\n\t\t\tvalues = append(values, text)")],
  needs='a bad part in a brace group nested inside a quoted string', breaks='a quoted string gets a nil child',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	f, _ := zzParse("@a{k, x = \\"a{\\\\' }b\\"}", ParseStrings|AllErrors)
	for _, e := range f.Entries {
		if d, ok := e.(*ast.BibDecl); ok {
			for _, tag := range d.Tags {
				if p, ok := tag.Value.(*ast.ParsedText); ok {
					for _, v := range p.Values {
						if v == nil {
							t.Fatal("nil child")
						}
					}
				}
			}
		}
	}
}
'''),
 dict(id='parse-comment-empty-group', prop='C11', pkg='parser',
  edits=[(P, "\t\t\tcomment, endLine = p.consumeCommentGroup(0)\n", "\t\t\tcomment, endLine = p.consumeCommentGroup(-1)\n")],
  needs='a comment on the same line as the previous token', breaks='an empty comment group is recorded',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	f, _ := zzParse("@a{k, % c\\n x = 1}", ParseComments)
	for _, g := range f.Comments {
		if len(g.List) == 0 {
			t.Fatal("empty group")
		}
	}
}
'''),
 dict(id='parse-extra-keys', prop='C11', pkg='parser',
  edits=[(P, "\tvar extraKeys []*ast.Ident\n", "\tvar extraKeys []*ast.Ident\n\tlast := token.Illegal // kind of the previous element\n"),
         (P, "\t\t\tif bibKey == nil {\n\t\t\t\tbibKey = key\n\t\t\t} else {\n\t\t\t\textraKeys = append(extraKeys, key)\n\t\t\t}\n", "\t\t\tif bibKey == nil {\n\t\t\t\tbibKey = key\n\t\t\t} else {\n\t\t\t\tif last == token.Assign && extraKeys == nil {\n\t\t\t\t\textraKeys = make([]*ast.Ident, 1, 4)\n\t\t\t\t}\n\t\t\t\textraKeys = append(extraKeys, key)\n\t\t\t}\n\t\t\tlast = token.Ident\n"),
         (P, "\t\t\ttags = append(tags, tag)\n", "\t\t\ttags = append(tags, tag)\n\t\t\tlast = token.Assign\n")],
  needs='a second cite key after a tag', breaks='the list of extra keys starts with a nil key',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	f, _ := zzParse("@a{k, x = 1, k2, k3}", 0)
	for _, k := range f.Entries[0].(*ast.BibDecl).ExtraKeys {
		if k == nil {
			t.Fatal("nil key")
		}
	}
}
'''),
 dict(id='walk-error-continue', prop='C16', pkg='ast',
  edits=[(W, "\tif st1 == WalkStop || err1 != nil {\n\t\treturn st1, err1\n\t}\n", "\tif st1 == WalkStop {\n\t\treturn st1, err1\n\t}\n\tif err1 != nil && st1 != WalkSkipChildren {\n\t\treturn st1, err1\n\t}\n")],
  needs='a walker that returns skip children together with an error on entering', breaks='the error of the walker is lost and the walk goes on',
  test='''package ast

import (
	"errors"
	"testing"
)

func TestZZDemo(t *testing.T) {
	n := 0
	err := Walk(&ParsedText{Values: []Expr{&Text{}, &Text{}}}, func(x Node, e bool) (WalkStatus, error) {
		n++
		if n == 1 {
			return WalkSkipChildren, errors.New("boom")
		}
		return WalkContinue, nil
	})
	if err == nil || n != 1 {
		t.Fatal(err, n)
	}
}
'''),
 dict(id='walk-file-stop', prop='C16', pkg='ast',
  edits=[(W, "\t\tcase *File:\n\t\t\tfor _, entry := range t.Entries {\n\t\t\t\tif st, err := walkHelper(entry, walker); st == WalkStop || err != nil {\n\t\t\t\t\treturn st, err\n\t\t\t\t}\n\t\t\t}\n",
             "\t\tcase *File:\n\t\t\tfor _, entry := range t.Entries {\n\t\t\t\tst, err := walkHelper(entry, walker)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn st, err\n\t\t\t\t}\n\t\t\t\tif st == WalkStop {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t}\n")],
  needs='a walker that stops without an error below a file node', breaks='after stop the walker is called again for the file node on leaving',
  test='''package ast

import "testing"

func TestZZDemo(t *testing.T) {
	n := 0
	_ = Walk(&File{Entries: []Decl{&BibDecl{}, &BibDecl{}}}, func(x Node, e bool) (WalkStatus, error) {
		n++
		if n == 2 {
			return WalkStop, nil
		}
		return WalkContinue, nil
	})
	if n != 2 {
		t.Fatal(n)
	}
}
'''),
 dict(id='walk-author-order', prop='C16', pkg='ast',
  edits=[(W, "\t\t\tif t.Suffix != nil {\n\t\t\t\tif st, err := walkHelper(t.Suffix, walker); st == WalkStop || err != nil {\n\t\t\t\t\treturn st, err\n\t\t\t\t}\n\t\t\t}\n", "\t\t\tif t.Suffix != nil && t.Last != nil {\n\t\t\t\tif st, err := walkHelper(t.Suffix, walker); st == WalkStop || err != nil {\n\t\t\t\t\treturn st, err\n\t\t\t\t}\n\t\t\t}\n")],
  needs='an author with a suffix but without a last name', breaks='the suffix is not visited',
  test='''package ast

import "testing"

func TestZZDemo(t *testing.T) {
	n := 0
	_ = Walk(&Author{Suffix: &Text{Value: "Jr"}}, func(x Node, e bool) (WalkStatus, error) {
		n++
		return WalkContinue, nil
	})
	if n != 4 {
		t.Fatal(n)
	}
}
'''),
 dict(id='resolve-first-tag', prop='C17', pkg='.',
  edits=[(B, "\tfor _, tag := range decl.Tags {\n\t\tentry.Tags[tag.Name] = tag.Value\n\t}\n", "\tfor i := len(decl.Tags) - 1; i >= 0; i-- {\n\t\ttag := decl.Tags[i]\n\t\tentry.Tags[tag.Name] = tag.Value\n\t}\n")],
  needs='an entry that has the same tag twice', breaks='the first instead of the last value of a repeated tag is kept',
  test=BH+'''
func TestZZDemo(t *testing.T) {
	x, y := &ast.Text{Value: "1"}, &ast.Text{Value: "2"}
	es, err := New().Resolve(&ast.File{Entries: []ast.Decl{&ast.BibDecl{Tags: []*ast.TagStmt{{Name: "a", Value: x}, {Name: "a", Value: y}}}}})
	if err != nil || len(es) != 1 || es[0].Tags["a"] != ast.Expr(y) {
		t.Fatal(es, err)
	}
}
'''),
 dict(id='resolve-keep-going', prop='C17', pkg='.',
  edits=[(B, "\tfor i, resolver := range b.resolvers {\n\t\tif err := resolver.Resolve(node); err != nil {\n\t\t\treturn nil, fmt.Errorf(\"run resolvers[%d]: %w\", i, err)\n\t\t}\n\t}\n",
             "\tvar rErr error\n\tfor i, resolver := range b.resolvers {\n\t\tif err := resolver.Resolve(node); err != nil {\n\t\t\trErr = fmt.Errorf(\"run resolvers[%d]: %w\", i, err)\n\t\t}\n\t}\n\tif rErr != nil {\n\t\treturn nil, rErr\n\t}\n")],
  needs='several resolvers, one of them failing that is not the last one', breaks='resolvers after a failed one still run, and the last error is reported',
  test=BH+'''
func TestZZDemo(t *testing.T) {
	n := 0
	f := func(err error) Resolver { return ResolverFunc(func(ast.Node) error { n++; return err }) }
	e1 := errors.New("1")
	_, err := New(WithResolvers(f(nil), f(e1), f(errors.New("2")))).Resolve(&ast.File{})
	if !errors.Is(err, e1) || n != 2 {
		t.Fatal(err, n)
	}
}
'''),
 dict(id='resolve-skip-keyless', prop='C17', pkg='.',
  edits=[(B, "\t\tentries := make([]Entry, 0, len(n.Entries))\n\t\tfor _, decl := range n.Entries {\n\t\t\tif decl, ok := decl.(*ast.BibDecl); ok {\n", "\t\tentries := make([]Entry, 0, len(n.Entries))\n\t\tfor _, decl := range n.Entries {\n\t\t\tif decl, ok := decl.(*ast.BibDecl); ok && (decl.Key != nil || len(decl.Tags) > 0) {\n")],
  needs='an entry with neither a cite key nor tags', breaks='an empty entry is dropped from the resolved list',
  test=BH+'''
func TestZZDemo(t *testing.T) {
	es, err := New().Resolve(&ast.File{Entries: []ast.Decl{&ast.BibDecl{Type: "misc"}, &ast.BibDecl{Type: "book"}}})
	if err != nil || len(es) != 2 {
		t.Fatal(es, err)
	}
}
'''),
 dict(id='resolver-escape-once', prop='C18', pkg='.',
  edits=[(RS, "\t\t\tif esc, ok := val.(*ast.TextEscaped); ok {\n\t\t\t\ttxt.Values[i] = &ast.Text{Value: esc.Value}\n\t\t\t}\n\t\t}\n\t\treturn ast.WalkContinue, nil", "\t\t\tif esc, ok := val.(*ast.TextEscaped); ok {\n\t\t\t\tif i > 0 {\n\t\t\t\t\tif prev, ok := txt.Values[i-1].(*ast.TextMacro); ok && len(prev.Values) == 0 {\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\ttxt.Values[i] = &ast.Text{Value: esc.Value}\n\t\t\t}\n\t\t}\n\t\treturn ast.WalkContinue, nil")],
  needs='an escaped character right after a macro without arguments', breaks='such an escape is not replaced',
  test=BH+'''
func TestZZDemo(t *testing.T) {
	p := &ast.ParsedText{Values: []ast.Expr{&ast.TextMacro{Name: "x"}, &ast.TextEscaped{Value: "&"}}}
	if err := SimplifyEscapedTextResolver(p); err != nil {
		t.Fatal(err)
	}
	if x, ok := p.Values[1].(*ast.Text); !ok || x.Value != "&" {
		t.Fatal(p.Values)
	}
}
'''),
 dict(id='resolver-author-any-tag', prop='C18', pkg='.',
  edits=[(RS, "\t\tif _, ok := a.tags[tag.Name]; !ok {\n\t\t\treturn ast.WalkContinue, nil\n\t\t}\n\t\ttxt, ok := tag.Value.(*ast.ParsedText)\n\t\tif !ok {\n", "\t\tif _, ok := a.tags[tag.Name]; !ok {\n\t\t\treturn ast.WalkContinue, nil\n\t\t}\n\t\tif _, ok := tag.Value.(*ast.UnparsedText); ok {\n\t\t\treturn ast.WalkContinue, nil // not parsed\n\t\t}\n\t\ttxt, ok := tag.Value.(*ast.ParsedText)\n\t\tif !ok {\n")],
  needs='an author tag with a raw string value', breaks='the author resolver silently leaves a raw string in place instead of reporting an error',
  test=BH+'''
func TestZZDemo(t *testing.T) {
	tag := &ast.TagStmt{Name: "author", Value: &ast.UnparsedText{Value: "x"}}
	if err := NewAuthorResolver("author").Resolve(tag); err == nil {
		t.Fatal("no error")
	}
}
'''),
 dict(id='resolver-render-partial', prop='C18', pkg='.',
  edits=[(RS, "\t\t\tif err := r.rend.Render(sb, tag.Value); err != nil {\n\t\t\t\treturn ast.WalkStop, fmt.Errorf(\"render parsed text tag=%q: %w\", tag.Name, err)\n\t\t\t}\n", "\t\t\tif err := r.rend.Render(sb, tag.Value); err != nil && sb.Len() == 0 {\n\t\t\t\treturn ast.WalkStop, fmt.Errorf(\"render parsed text tag=%q: %w\", tag.Name, err)\n\t\t\t}\n")],
  needs='a value whose rendering fails after some text was already written', breaks='the tag value is replaced by a partial rendering',
  test=BH+'''
func TestZZDemo(t *testing.T) {
	tag := &ast.TagStmt{Name: "title", Value: &ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: "a"}, &ast.Ident{Name: "b"}}}}
	if err := NewRenderParsedTextResolver().Resolve(tag); err == nil {
		t.Fatal("no error", tag.Value)
	}
}
'''),
 dict(id='author-trim-comma', prop='C20', pkg='.',
  edits=[(AU, "\t\tpart2 = xs[commas[1]+1:]\n", "\t\tpart2 = xs[commas[len(commas)-1]+1:]\n")],
  needs='a name with three or more commas', breaks='text between the second and the last comma is dropped from the first name',
  test=BH+'''
func TestZZDemo(t *testing.T) {
	tx := func(s string) ast.Expr { return &ast.Text{Value: s} }
	c := &ast.TextComma{}
	as, err := ExtractAuthors(&ast.ParsedText{Values: []ast.Expr{tx("L"), c, tx("Jr"), c, tx("F"), c, tx("X")}})
	if err != nil || as[0].First.(*ast.Text).Value != "F,X" {
		t.Fatal(as, err)
	}
}
'''),
 dict(id='author-last-suffix', prop='C20', pkg='.',
  edits=[(AU, "\treturn &ast.Author{\n\t\tFirst:  &ast.Text{Value: strings.TrimSpace(first.String())},\n\t\tPrefix: &ast.Text{Value: strings.TrimSpace(prefix.String())},\n\t\tLast:   &ast.Text{Value: strings.TrimSpace(last.String())},\n\t\tSuffix: &ast.Text{Value: \"\"},", "\treturn &ast.Author{\n\t\tFirst:  &ast.Text{Value: strings.Join(strings.Fields(first.String()), \" \")},\n\t\tPrefix: &ast.Text{Value: strings.TrimSpace(prefix.String())},\n\t\tLast:   &ast.Text{Value: strings.TrimSpace(last.String())},\n\t\tSuffix: &ast.Text{Value: \"\"},")],
  needs='a first name with a literal double blank in one of its parts (e.g. inside math or an inner group)', breaks='blanks inside the first name are collapsed',
  test=BH+'''
func TestZZDemo(t *testing.T) {
	as, err := ExtractAuthors(&ast.ParsedText{Values: []ast.Expr{&ast.TextMath{Value: "a  b"}, &ast.TextSpace{Value: " "}, &ast.Text{Value: "Last"}}})
	if err != nil || as[0].First.(*ast.Text).Value != "$a  b$" {
		t.Fatal(as[0].First, err)
	}
}
'''),
 dict(id='author-empty-final', prop='C19', pkg='.',
  edits=[(AU, "\tif final.IsEmpty() {\n\t\treturn nil, fmt.Errorf(\"found an empty author\")\n\t}\n", "\tif final.IsEmpty() {\n\t\tif len(authors) > 0 {\n\t\t\treturn authors, nil\n\t\t}\n\t\treturn nil, fmt.Errorf(\"found an empty author\")\n\t}\n")],
  needs='a trailing "and" with nothing after it', breaks='an empty last group is silently dropped instead of being an error',
  test=BH+'''
func TestZZDemo(t *testing.T) {
	tx := func(s string) ast.Expr { return &ast.Text{Value: s} }
	_, err := ExtractAuthors(&ast.ParsedText{Values: []ast.Expr{tx("A"), &ast.TextSpace{}, tx("and"), &ast.TextSpace{}}})
	if err == nil {
		t.Fatal("no error")
	}
}
'''),
 dict(id='author-and-case', prop='C19', pkg='.',
  edits=[(AU, "\t\t\tif t.Value == authorSep {\n", "\t\t\tif strings.EqualFold(t.Value, authorSep) {\n")],
  needs='a name part spelled And or AND', breaks='a name part that only differs in case from the separator splits a name',
  test=BH+'''
func TestZZDemo(t *testing.T) {
	tx := func(s string) ast.Expr { return &ast.Text{Value: s} }
	as, err := ExtractAuthors(&ast.ParsedText{Values: []ast.Expr{tx("Bob"), &ast.TextSpace{}, tx("And"), &ast.TextSpace{}, tx("Co")}})
	if err != nil || len(as) != 1 {
		t.Fatal(as, err)
	}
}
'''),
 dict(id='author-reuse-values', prop='C19', pkg='.',
  edits=[(AU, "\taExprs := make([]ast.Expr, 0, 8)\n", "\taExprs := txt.Values[:0] // reuse, at most as many as there are values\n")],
  needs='a string with at least two authors', breaks='extracting authors overwrites the values of its input',
  test=BH+'''
func TestZZDemo(t *testing.T) {
	tx := func(s string) ast.Expr { return &ast.Text{Value: s} }
	p := &ast.ParsedText{Values: []ast.Expr{tx("A"), tx("and"), tx("B")}}
	_, err := ExtractAuthors(p)
	if err != nil || p.Values[0].(*ast.Text).Value != "A" {
		t.Fatal(p.Values[0], err)
	}
}
'''),
 dict(id='accent-multi', prop='C21', pkg='render',
  edits=[(A, "\tif len(text) > 1 {\n\t\treturn 0, fmt.Errorf(\"cannot render accent %q for multi-rune text %q\", accent, text)\n\t}\n\tif accent == 0 {\n\t\treturn 0, fmt.Errorf(\"cannot render accent for empty accent\")\n\t}\n\taccented, ok := accentMap[(string(accent) + text)]\n\tif !ok {\n", "\tif len(text) > 1 && text[0] != '\\\\' {\n\t\treturn 0, fmt.Errorf(\"cannot render accent %q for multi-rune text %q\", accent, text)\n\t}\n\tif accent == 0 {\n\t\treturn 0, fmt.Errorf(\"cannot render accent for empty accent\")\n\t}\n\t// \\i and \\j are the dotless letters.\n\tif text[0] == '\\\\' {\n\t\ttext = text[1:2]\n\t}\n\taccented, ok := accentMap[(string(accent) + text)]\n\tif !ok {\n")],
  needs='an accent over text that starts with a backslash', breaks='text of more than one byte is accepted, and a lone backslash panics',
  test=RH+'''
func TestZZDemo(t *testing.T) {
	if r, err := RenderAccent(token.AccentAcute, "\\\\aa"); err == nil || r != 0 {
		t.Fatal(r, err)
	}
	if r, err := RenderAccent(token.AccentAcute, "\\\\"); err == nil || r != 0 {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='accent-table', prop='C21', pkg='render',
  edits=[(A, "`\"A`: 'Ä', `\"E`: 'Ë', `\"I`: 'Ï', `\"O`: 'Ö', `\"U`: 'Ü',", "`\"A`: 'Ä', `\"E`: 'Ë', `\"I`: 'Ï', `\"O`: 'Ő', `\"U`: 'Ü',")],
  needs='the umlaut over a capital O', breaks='the umlaut of O is rendered as a double acute',
  test=RH+'''
func TestZZDemo(t *testing.T) {
	if r, err := RenderAccent(token.AccentUmlaut, "O"); err != nil || r != 'Ö' {
		t.Fatal(r, err)
	}
}
'''),
 dict(id='render-macro-first', prop='C22', pkg='render',
  edits=[(R, "\tcase *ast.TextMacro:\n\t\tfor _, v := range t.Values {\n\t\t\tif err := p.Render(w, v); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n", "\tcase *ast.TextMacro:\n\t\tfor i, v := range t.Values {\n\t\t\tif err := p.Render(w, v); err != nil {\n\t\t\t\tif i > 0 {\n\t\t\t\t\tbreak // optional argument\n\t\t\t\t}\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n")],
  needs='a macro with two arguments of which the second cannot be rendered', breaks='an unrenderable second argument is dropped without an error',
  test=RH+'''
func TestZZDemo(t *testing.T) {
	err := TextRenderer{}.Render(&strings.Builder{}, &ast.TextMacro{Values: []ast.Expr{&ast.Text{Value: "a"}, &ast.Number{}}})
	if err == nil {
		t.Fatal("no error")
	}
}
'''),
 dict(id='render-math-write', prop='C22', pkg='render',
  edits=[(R, "\t\tif _, err := w.Write([]byte(t.Value)); err != nil {\n\t\t\treturn err\n\t\t}\n\t\t_, err := w.Write([]byte(\"$\"))\n", "\t\tif n, err := w.Write([]byte(t.Value)); err != nil && n < len(t.Value) {\n\t\t\treturn err\n\t\t}\n\t\t_, err := w.Write([]byte(\"$\"))\n")],
  needs='an empty math section and a writer that fails exactly there', breaks='a failing write of an empty math value is ignored and rendering goes on',
  test=RH+'''
type zzW struct{ n int }

func (z *zzW) Write(p []byte) (int, error) {
	z.n++
	if z.n == 2 {
		return len(p), errors.New("full")
	}
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	err := TextRenderer{}.Render(&zzW{}, &ast.TextMath{Value: ""})
	if err == nil {
		t.Fatal("no error")
	}
}
'''),
 dict(id='render-concat-order', prop='C22', pkg='render',
  edits=[(R, "\tcase *ast.ConcatExpr:\n\t\tif err := p.Render(w, t.X); err != nil {\n\t\t\treturn err\n\t\t}\n", "\tcase *ast.ConcatExpr:\n\t\tif y, ok := t.Y.(*ast.ConcatExpr); ok {\n\t\t\t// flatten\n\t\t\tt = &ast.ConcatExpr{X: &ast.ConcatExpr{X: t.X, Y: y.X}, Y: y.Y}\n\t\t\tif _, ok := y.Y.(*ast.ConcatExpr); ok {\n\t\t\t\tt = &ast.ConcatExpr{X: &ast.ConcatExpr{X: t.X, Y: y.Y}, Y: y.X}\n\t\t\t}\n\t\t}\n\t\tif err := p.Render(w, t.X); err != nil {\n\t\t\treturn err\n\t\t}\n")],
  needs='a chain of four concatenated strings', breaks='the operands of a long chain are rendered twice or out of order',
  test=RH+'''
func TestZZDemo(t *testing.T) {
	x := func(s string) ast.Expr { return &ast.Text{Value: s} }
	sb := &strings.Builder{}
	err := TextRenderer{}.Render(sb, &ast.ConcatExpr{X: x("a"), Y: &ast.ConcatExpr{X: x("b"), Y: &ast.ConcatExpr{X: x("c"), Y: x("d")}}})
	if err != nil || sb.String() != "a#b#c#d" {
		t.Fatal(sb.String(), err)
	}
}
'''),
 dict(id='render-default-delim', prop='C23', pkg='render',
  edits=[(R, "\tif entering {\n\t\tif _, err := w.Write([]byte(left)); err != nil {\n\t\t\treturn ast.WalkStop, fmt.Errorf(\"default renderParsedText left: %w\", err)", "\tif txt.Depth > 0 && len(txt.Values) == 0 && !entering {\n\t\tright = \"\"\n\t}\n\tif entering {\n\t\tif _, err := w.Write([]byte(left)); err != nil {\n\t\t\treturn ast.WalkStop, fmt.Errorf(\"default renderParsedText left: %w\", err)")],
  needs='an empty nested brace group', breaks='the closing delimiter of an empty nested group is not written',
  test=RH+'''
func TestZZDemo(t *testing.T) {
	sb := &strings.Builder{}
	n := &ast.ParsedText{Depth: 1, Delim: ast.BraceDelimiter}
	_, _ = renderParsedText(sb, n, true)
	_, _ = renderParsedText(sb, n, false)
	if sb.String() != "{}" {
		t.Fatal(sb.String())
	}
}
'''),
 dict(id='render-default-missing', prop='C23', pkg='.',
  edits=[(B, "\t\tif rend == nil {\n\t\t\treturn ast.WalkStop, fmt.Errorf(\"biber render - no renderer for node kind %s\", n.Kind())\n\t\t}\n", "\t\tif rend == nil {\n\t\t\tif !isEntering || n.Kind() == ast.KindTagStmt {\n\t\t\t\treturn ast.WalkContinue, nil\n\t\t\t}\n\t\t\treturn ast.WalkStop, fmt.Errorf(\"biber render - no renderer for node kind %s\", n.Kind())\n\t\t}\n")],
  needs='a biber without a renderer for tags', breaks='a missing renderer is not reported',
  test=BH+'''
type zzW struct{}

func (zzW) Write(p []byte) (int, error) { return len(p), nil }

func TestZZDemo(t *testing.T) {
	b := New()
	b.renderers[ast.KindTagStmt] = nil
	if err := b.Render(zzW{}, &ast.TagStmt{Name: "x", Value: &ast.Text{Value: "a"}}); err == nil {
		t.Fatal("no error")
	}
}
'''),
 dict(id='render-default-comma', prop='C23', pkg='render',
  edits=[(R, "\tif _, err := w.Write([]byte(\",\")); err != nil {\n\t\treturn ast.WalkStop, fmt.Errorf(\"default renderTextComma: %w\", err)\n\t}\n\treturn ast.WalkContinue, nil", "\tif _, err := w.Write([]byte(\",\")); err != nil {\n\t\treturn ast.WalkSkipChildren, nil\n\t}\n\treturn ast.WalkContinue, nil")],
  needs='a writer that fails at a comma', breaks='a failed write of a comma is not reported',
  test=RH+'''
func TestZZDemo(t *testing.T) {
	st, err := renderTextComma(&zzFail{}, &ast.TextComma{}, true)
	if err == nil || st != ast.WalkStop {
		t.Fatal(st, err)
	}
}
'''),
 dict(id='token-class-edge', prop='C24', pkg='token',
  edits=[(T, "\treturn literalBegin < tok && tok < literalEnd\n", "\treturn literalBegin <= tok && tok < literalEnd\n")],
  needs='the unexported marker token before the literals', breaks='a marker value that is no token counts as a literal',
  test='''package token

import "testing"

func TestZZDemo(t *testing.T) {
	if Token(7).String() != "token(7)" && Token(8).String() != "token(8)" {
		t.Skip()
	}
	for i := Token(-3); i < 80; i++ {
		if i.IsLiteral() && (i < Ident || i > Number) {
			t.Fatal(int(i))
		}
	}
}
'''),
 dict(id='token-name-neg', prop='C24', pkg='token',
  edits=[(T, "\tif 0 <= tok && tok < Token(len(tokens)) {", "\tif -1 <= tok && tok < Token(len(tokens)) {")],
  needs='naming the undefined token -1', breaks='naming a negative token panics',
  test='''package token

import "testing"

func TestZZDemo(t *testing.T) {
	_ = Token(-1).String()
}
'''),
 dict(id='scope-outer', prop='C25', pkg='ast',
  edits=[(SC, "\treturn s.Objects[name]\n", "\tif obj := s.Objects[name]; obj != nil || s.Outer == nil {\n\t\treturn obj\n\t}\n\treturn s.Outer.Objects[name]\n")],
  needs='a nested scope whose outer scope has the name', breaks='lookup returns an object of the outer scope',
  test='''package ast

import "testing"

func TestZZDemo(t *testing.T) {
	o := NewScope(nil)
	o.Insert(NewObj(Entry, "a"))
	if NewScope(o).Lookup("a") != nil {
		t.Fatal("outer")
	}
}
'''),
 dict(id='scope-replace-bad', prop='C25', pkg='ast',
  edits=[(SC, "\tif alt = s.Objects[obj.Name]; alt == nil {\n", "\tif alt = s.Objects[obj.Name]; alt == nil || alt.Kind == Bad {\n")],
  needs='a second declaration of a name whose first object has kind bad', breaks='the first declaration is replaced',
  test='''package ast

import "testing"

func TestZZDemo(t *testing.T) {
	s := NewScope(nil)
	a := NewObj(Bad, "a")
	s.Insert(a)
	s.Insert(NewObj(Entry, "a"))
	if s.Lookup("a") != a {
		t.Fatal("replaced")
	}
}
'''),
 dict(id='pkg-first-error', prop='C26', pkg='parser',
  edits=[(I, "\t\t} else if first == nil {\n\t\t\tfirst = err\n\t\t}\n", "\t\t} else if first == nil || src != nil {\n\t\t\tfirst = err\n\t\t}\n")],
  needs='two files with errors of which the later one is readable', breaks='a later syntax error replaces the first error',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	_, err := ParsePackage([]string{"/nonexistent/zz.bib", "interface.go"}, 0)
	_, want := ParseFile(gotok.NewFileSet(), "/nonexistent/zz.bib", nil, 0)
	if err == nil || err.Error() != want.Error() {
		t.Fatal(err)
	}
}
'''),
 dict(id='pkg-nil-buffer', prop='C26', pkg='parser',
  edits=[(I, "\t\t\tif s != nil {\n\t\t\t\treturn s.Bytes(), nil\n\t\t\t}\n", "\t\t\tif s != nil {\n\t\t\t\treturn s.Bytes(), nil\n\t\t\t}\n\t\t\treturn nil, nil\n")],
  needs='a nil buffer as the source', breaks='an unusable source is parsed as an empty file',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	var b *bytes.Buffer
	_, err := ParseFile(gotok.NewFileSet(), "x", b, 0)
	if err == nil {
		t.Fatal("no error")
	}
}
'''.replace('', '')),
 dict(id='asts-brace-one', prop='C27', pkg='asts',
  edits=[(AS, "\tcase strings.HasPrefix(s, \"{\") && strings.HasSuffix(s, \"}\"):\n\t\tbs := []byte(s)\n", "\tcase s[0] == '{' && s[len(s)-1] != '{' || strings.HasPrefix(s, \"{\") && strings.HasSuffix(s, \"}\"):\n\t\tbs := []byte(s)\n")],
  needs='a string with an opening brace that is not closed at its end', breaks='an unclosed brace string loses its last character',
  test='''package asts

import (
	"testing"

	"github.com/jschaf/bibtex/ast"
)

func TestZZDemo(t *testing.T) {
	x, ok := ParseStringExpr(0, "{a}b").(*ast.Text)
	if !ok || x.Value != "{a}b" {
		t.Fatal(x)
	}
}
'''),
 dict(id='asts-fields', prop='C27', pkg='asts',
  edits=[(AS, "\t\tsplit := strings.Split(innerString, \" \")\n", "\t\tsplit := strings.Fields(innerString)\n\t\tif len(split) == 0 {\n\t\t\tsplit = []string{innerString}\n\t\t}\n")],
  needs='a braced string with two blanks in a row', breaks='blank-separated empty words of a braced string are dropped',
  test='''package asts

import (
	"testing"

	"github.com/jschaf/bibtex/ast"
)

func TestZZDemo(t *testing.T) {
	x := ParseStringExpr(0, "{a  b}").(*ast.ParsedText)
	if len(x.Values) != 5 {
		t.Fatal(len(x.Values))
	}
}
'''),
 dict(id='asts-macro-one', prop='C27', pkg='asts',
  edits=[(AS, "\tcase len(s) >= 2 && s[0] == '\\\\' && scanner.IsAsciiLetter(rune(s[1])):", "\tcase s[0] == '\\\\' && scanner.IsAsciiLetter(rune(s[1])):")],
  needs='a lone backslash', breaks='building a node from a single backslash panics',
  test='''package asts

import "testing"

func TestZZDemo(t *testing.T) {
	_ = ParseStringExpr(0, "\\\\")
}
'''),
 dict(id='asts-print-nil-delim', prop='C27', pkg='asts',
  edits=[(AS, "\t\tfor i, value := range v.Values {\n\t\t\tsb.WriteString(ExprString(value))\n\t\t\tif i < len(v.Values)-1 {", "\t\tfor i, value := range v.Values {\n\t\t\tsb.WriteString(ExprString(value))\n\t\t\tif _, ok := v.Values[i+1].(*ast.TextSpace); !ok && i < len(v.Values)-1 {")],
  needs='printing a macro with arguments', breaks='printing a macro with arguments panics',
  test='''package asts

import "testing"

func TestZZDemo(t *testing.T) {
	_ = ExprString(Macro("x", "a", "b"))
}
'''),
]
for s in SEEDS:
    if s['id'] == 'pkg-nil-buffer':
        s['test'] = s['test'].replace('import (\n', 'import (\n\t"bytes"\n')
