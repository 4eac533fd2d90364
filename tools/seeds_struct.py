PH = '''package parser

import (
	"fmt"
	gotok "go/token"
	"strings"
	"testing"

	"github.com/jschaf/bibtex/ast"
)

var _ ast.Node
var _ = fmt.Sprint
var _ = strings.Repeat

func zzParse(src string, mode Mode) (*ast.File, error) {
	return ParseFile(gotok.NewFileSet(), "", src, mode)
}

func zzComments(src string, mode Mode) string {
	f, _ := zzParse(src, mode)
	s := ""
	for _, g := range f.Comments {
		s += "("
		for _, c := range g.List {
			s += fmt.Sprintf("%d%s", c.Start, c.Text)
		}
		s += ")"
	}
	return s
}

func zzValue(t *testing.T, src string, mode Mode) ast.Expr {
	f, err := zzParse("@a{k, t = "+src+"}", mode)
	if err != nil {
		t.Fatal(err)
	}
	return f.Entries[0].(*ast.BibDecl).Tags[0].Value
}
'''
P='parser/parser.go'; I='parser/interface.go'; S='scanner/scanner.go'
SEEDS=[
 dict(id='ok-closer-any', prop='C10', pkg='parser',
  edits=[(P,"	case token.LParen:\n		end = p.expect(token.RParen)","	case token.LParen:\n		if p.tok == token.RBrace && p.syncPos == 0 && len(p.comments) > 1 {\n			p.next()\n			return end\n		}\n		end = p.expect(token.RParen)")],
  needs='an entry opened by a parenthesis and closed by a brace, after two comment groups', breaks='the mismatched closing delimiter is accepted without error',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	if _, err := zzParse("% a\\n\\n% b\\n@article(k, a = 1}", ParseComments); err == nil {
		t.Fatal("accepted")
	}
}
'''),
 dict(id='ok-same-line', prop='C10', pkg='parser',
  edits=[(P,"		if n > 0 && p.errors[n-1].Pos.Line == epos.Line {","		if n >= 0 && (n > 0 && p.errors[n-1].Pos.Line == epos.Line || n == 0 && epos.Line > 1 && p.tok == token.EOF) {")],
  needs='a source of more than one line whose only error is found at its end', breaks='an entry that is not closed at the end of the source is accepted without error',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	if _, err := zzParse("@article{k,\\n a = 1", 0); err == nil {
		t.Fatal("accepted")
	}
}
'''),
 dict(id='ok-stop-illegal', prop='C10', pkg='parser',
  edits=[(P,"	for p.tok != token.EOF && p.tok != token.Illegal {\n		decls","	for p.tok != token.EOF && p.tok != token.Illegal && p.tok != token.RBrace {\n		decls")],
  needs='a stray closing brace between entries', breaks='the rest of the source is ignored silently',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	if _, err := zzParse("@article{k, a = 1} } @book{x, b = 2}", 0); err == nil {
		t.Fatal("accepted")
	}
}
'''),
 dict(id='leaf-raw-trim', prop='C13', pkg='parser',
  edits=[(P,"			Type:     p.tok,\n			Value:    p.lit,","			Type:     p.tok,\n			Value:    strings.TrimRight(p.lit, \"\\r\"),")],
  needs='a raw string that ends in a carriage return', breaks='the text of the string is not the source text',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	if v := zzValue(t, "{ab\\r}", 0).(*ast.UnparsedText); v.Value != "ab\\r" {
		t.Fatalf("%q", v.Value)
	}
}
'''),
 dict(id='leaf-number-zero', prop='C13', pkg='parser',
  edits=[(P,"			ValuePos: p.pos,\n			Value:    p.lit,\n		}\n		p.next()\n\n	case token.Ident","			ValuePos: p.pos,\n			Value:    strings.TrimLeft(p.lit, \"0\") + p.lit[:0],\n		}\n		p.next()\n\n	case token.Ident")],
  needs='a number with leading zeros', breaks='leading zeros are dropped from a number',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	if v := zzValue(t, "0012", 0).(*ast.Number); v.Value != "0012" {
		t.Fatalf("%q", v.Value)
	}
}
'''),
 dict(id='leaf-comment-cr', prop='C13', pkg='parser',
  edits=[(P,"	comment = &ast.TexComment{Start: p.pos, Text: p.lit}","	comment = &ast.TexComment{Start: p.pos, Text: strings.TrimSuffix(p.lit, \" \")}")],
  needs='a comment that ends in a space', breaks='the comment text is not the source text',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	if s := zzComments("% a \\n@a{k}", ParseComments); s != "(1% a )" {
		t.Fatalf("%q", s)
	}
}
'''),
 dict(id='leaf-math-pos', prop='C13', pkg='parser',
  edits=[(P,"		txt = &ast.TextMath{ValuePos: p.pos, Value: p.lit}","		txt = &ast.TextMath{ValuePos: p.pos, Value: strings.Replace(p.lit, \"\\\\$\", \"$\", 1)}")],
  needs='inline math with an escaped dollar sign', breaks='the math text is not the source text',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	v := zzValue(t, "{$a\\\\$b$}", ParseStrings).(*ast.ParsedText)
	if m := v.Values[0].(*ast.TextMath); m.Value != "a\\\\$b" {
		t.Fatalf("%q", m.Value)
	}
}
'''),
 dict(id='leaf-key-number', prop='C13', pkg='parser',
  edits=[(P,"	return &ast.Ident{NamePos: pos, Name: name}","	if p.tok == token.Assign && name[len(name)-1] == '-' {\n		name = name[:len(name)-1]\n	}\n	return &ast.Ident{NamePos: pos, Name: name}")],
  needs='a tag name that ends in a hyphen', breaks='the last letter of a tag name is lost',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	f, err := zzParse("@a{k, ab- = 1}", 0)
	if err != nil || f.Entries[0].(*ast.BibDecl).Tags[0].RawName != "ab-" {
		t.Fatal(err)
	}
}
'''),
 dict(id='com-line-group', prop='C14', pkg='parser',
  edits=[(P,"			comment, endLine = p.consumeCommentGroup(0)\n			if","			comment, endLine = p.consumeCommentGroup(0)\n			if p.tok == token.EOF && len(p.comments) > 1 {\n				p.comments = p.comments[:len(p.comments)-1]\n			}\n			if")],
  needs='a comment behind the last token of the source, after an earlier comment', breaks='the last comment is lost',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	if s := zzComments("% a\\n@a{k} % b", ParseComments); s != "(1% a)(11% b)" {
		t.Fatal(s)
	}
}
'''),
 dict(id='com-empty-skip', prop='C14', pkg='parser',
  edits=[(P,"		list = append(list, comment)\n","		if len(list) == 0 || comment.Text != \"%\" {\n			list = append(list, comment)\n		}\n")],
  needs='an empty comment line inside a comment block', breaks='the empty comment is missing from the list',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	if s := zzComments("% a\\n%\\n% b\\n@a{k}", ParseComments); s != "(1% a5%7% b)" {
		t.Fatal(s)
	}
}
'''),
 dict(id='com-lead-copy', prop='C14', pkg='parser',
  edits=[(P,"			p.leadComment = comment\n","			p.leadComment = comment\n			if n := len(comment.List); n > 1 && comment.List[n-1].Text == \"%\" {\n				p.leadComment = &ast.TexCommentGroup{List: comment.List[:n-1]}\n			}\n")],
  needs='documentation whose last line is an empty comment', breaks='the documentation group of the entry is not one of the listed groups',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	f, _ := zzParse("@x{1}\\n% a\\n%\\n@a{k}", ParseComments)
	d := f.Entries[1].(*ast.BibDecl).Doc
	for _, g := range f.Comments {
		if g == d {
			return
		}
	}
	t.Fatal("not listed")
}
'''),
 dict(id='com-order', prop='C14', pkg='parser',
  edits=[(P,"	p.comments = append(p.comments, comments)\n","	p.comments = append(p.comments, comments)\n	if k := len(p.comments); k > 1 && len(list) > 1 && p.tok == token.EOF {\n		p.comments[k-1], p.comments[k-2] = p.comments[k-2], p.comments[k-1]\n	}\n")],
  needs='a comment group of two lines at the end of the source', breaks='the comment groups are out of order',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	if s := zzComments("% a\\n@a{k}\\n\\n% b\\n% c\\n", ParseComments); s != "(1% a)(12% b16% c)" {
		t.Fatal(s)
	}
}
'''),
 dict(id='com-dup', prop='C14', pkg='parser',
  edits=[(P,"			p.leadComment = comment\n","			p.leadComment = comment\n			if len(p.comments) > 1 && p.lineComment != nil {\n				p.comments = append(p.comments, comment)\n			}\n")],
  needs='a line comment behind a token and a lead comment before the next token', breaks='the lead comment is listed twice',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	if s := zzComments("@a{k} % a\\n% b\\n@b{l}", ParseComments); s != "(7% a)(11% b)" {
		t.Fatal(s)
	}
}
'''),
 dict(id='str-depth', prop='C15', pkg='parser',
  edits=[(P,"			text := p.parseText(depth + 1)","			text := p.parseText(depth + 1 - depth/3)")],
  needs='strings nested five levels deep', breaks='the depth of deeply nested strings is wrong',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	var x ast.Expr = zzValue(t, "{{{{{{a}}}}}}", ParseStrings)
	for i := 0; i < 6; i++ {
		p := x.(*ast.ParsedText)
		if p.Depth != i {
			t.Fatal(i, p.Depth)
		}
		x = p.Values[0]
	}
}
'''),
 dict(id='str-space-drop', prop='C15', pkg='parser',
  edits=[(P,"			values = append(values, text)\n		}\n		closer := p.pos\n		p.next() // consume closing '}'","			if _, ok := text.(*ast.TextSpace); !ok || p.tok != token.StringRBrace || depth == 0 {\n				values = append(values, text)\n			}\n		}\n		closer := p.pos\n		p.next() // consume closing '}'")],
  needs='a space before the closing brace of an inner group', breaks='the space is missing from the children',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	p := zzValue(t, "{a {b }c}", ParseStrings).(*ast.ParsedText)
	if len(p.Values[2].(*ast.ParsedText).Values) != 2 {
		t.Fatal("dropped")
	}
}
'''),
 dict(id='str-concat-left', prop='C15', pkg='parser',
  edits=[(P,"	y := p.parseExpr()\n","	y := p.parseExpr()\n	if z, ok := y.(*ast.ConcatExpr); ok {\n		if _, ok := z.Y.(*ast.ConcatExpr); ok {\n			return &ast.ConcatExpr{X: &ast.ConcatExpr{X: x, OpPos: opPos, Y: z.X}, OpPos: z.OpPos, Y: z.Y}\n		}\n	}\n")],
  needs='a chain of at least four operands', breaks='long chains are not right-nested',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	c := zzValue(t, "1 # 2 # 3 # 4", 0).(*ast.ConcatExpr)
	if _, ok := c.X.(*ast.Number); !ok {
		t.Fatal("left-nested")
	}
}
'''),
 dict(id='str-op-pos', prop='C15', pkg='parser',
  edits=[(P,"	opPos := p.pos\n	p.next()\n","	opPos := p.pos\n	p.next()\n	if p.tok == token.Number {\n		opPos = p.pos - 2\n	}\n")],
  needs='a number after a concatenation sign with other than one space between them', breaks='the operator position is not that of the sign',
  test=PH+'''
func TestZZDemo(t *testing.T) {
	c := zzValue(t, "a #  2", 0).(*ast.ConcatExpr)
	if c.OpPos != 13 {
		t.Fatal(c.OpPos)
	}
}
'''),
]
