HEAD = '''package scanner

import (
	gotok "go/token"
	"testing"

	"github.com/jschaf/bibtex/token"
)

type zzTok struct {
	pos int
	tok token.Token
	lit string
}

func zzScan(src string, mode Mode) (toks []zzTok, s *Scanner, calls int) {
	fset := gotok.NewFileSet()
	f := fset.AddFile("x.bib", -1, len(src))
	s = new(Scanner)
	s.Init(f, []byte(src), func(gotok.Position, string) { calls++ }, mode)
	for i := 0; i < 4*len(src)+8; i++ {
		pos, tok, lit := s.Scan()
		toks = append(toks, zzTok{f.Offset(pos), tok, lit})
		if tok == token.EOF {
			break
		}
	}
	return
}
'''
S = 'scanner/scanner.go'
SEEDS = [
 dict(id='scan-accent-eof', prop='C01', pkg='scanner',
  edits=[(S, "\t// Check that it's only ascii letters.\n\tfor _, c := range name {", "\tif last := s.src[s.offset]; last == '\\n' {\n\t\ts.lineOffset = s.offset\n\t}\n\t// Check that it's only ascii letters.\n\tfor _, c := range name {")],
  needs='a macro name inside a tokenized string that runs up to the very end of the input',
  breaks='scanning panics (index out of range) on input that ends right after a macro name',
  test=HEAD+'''
func TestZZDemo(t *testing.T) {
	for _, src := range []string{"a = {\\\\foo", "a = \\"x \\\\b"} {
		zzScan(src, ScanStrings)
	}
}
'''),
 dict(id='scan-quote-group', prop='C04', pkg='scanner',
  edits=[(S, "\t\ts.next()\n\t\tif ch == '\"' {\n\t\t\tbreak\n\t\t}\n\t\tif ch == '{' {\n\t\t\ts.scanBraceString()\n\t\t}",
             "\t\ts.next()\n\t\tif ch == '\"' {\n\t\t\tbreak\n\t\t}\n\t\tif ch == '{' && s.ch != '}' {\n\t\t\tif s.ch == '{' {\n\t\t\t\ts.next()\n\t\t\t}\n\t\t\ts.scanBraceString()\n\t\t}")],
  needs='a double-quoted string that holds a doubly nested brace group with a quote between the two closing braces',
  breaks='a quote inside nested braces ends a double-quoted string',
  test=HEAD+'''
func TestZZDemo(t *testing.T) {
	src := "a = \\"x{{b}\\"}y\\""
	toks, s, _ := zzScan(src, 0)
	if s.ErrorCount != 0 || toks[2].tok != token.String || toks[2].lit != "x{{b}\\"}y" {
		t.Fatal(toks, s.ErrorCount)
	}
}
'''),
 dict(id='scan-math-escape', prop='C05', pkg='scanner',
  edits=[(S, "\t\tif s.ch == '\\\\' {\n\t\t\ts.next() // consume the backslash and whatever comes next\n\t\t}\n\t\ts.next()\n\t}\n\ts.next() // consume closing '$'",
             "\t\tif s.ch == '\\\\' && s.peek() == '$' {\n\t\t\ts.next() // consume the backslash and the dollar sign\n\t\t}\n\t\ts.next()\n\t}\n\ts.next() // consume closing '$'")],
  needs='math in a tokenized string that ends with an escaped backslash right before the closing dollar sign',
  breaks='the closing dollar sign after a double backslash is taken for an escaped one, so the math swallows what follows',
  test=HEAD+'''
func TestZZDemo(t *testing.T) {
	src := `a = {$x\\\\$ and $y$}`
	toks, s, _ := zzScan(src, ScanStrings)
	if s.ErrorCount != 0 || toks[3].tok != token.StringMath || toks[3].lit != `x\\\\` {
		t.Fatal(toks, s.ErrorCount)
	}
}
'''),
 dict(id='scan-silent-escape', prop='C06', pkg='scanner',
  edits=[(S, "\tif len(name) == 0 {\n\t\ts.error(offs,", "\tif len(name) == 0 && s.ch >= 0 {\n\t\treturn token.Illegal, string(s.src[offs : s.offset])\n\t}\n\tif len(name) == 0 {\n\t\ts.error(offs,")],
  needs='a backslash in a tokenized string that is followed by a character that can neither start a macro name nor be escaped',
  breaks='an Illegal token is returned without an error having been reported',
  test=HEAD+'''
func TestZZDemo(t *testing.T) {
	toks, s, n := zzScan("a = {\\\\ b}", ScanStrings)
	if toks[3].tok != token.Illegal || s.ErrorCount == 0 || n != s.ErrorCount {
		t.Fatal(toks, s.ErrorCount, n)
	}
}
'''),
 dict(id='scan-bom-middle', prop='C06', pkg='scanner',
  edits=[(S, "} else if r == bom && s.offset > 0 {", "} else if r == bom && s.offset > 0 && s.endQuoteCh == 0 {")],
  needs='a byte order mark inside a tokenized string',
  breaks='a byte order mark in the middle of the file is accepted silently',
  test=HEAD+'''
func TestZZDemo(t *testing.T) {
	_, s, n := zzScan("a = {x\\ufeffy}", ScanStrings)
	if s.ErrorCount == 0 || n != s.ErrorCount {
		t.Fatal(s.ErrorCount, n)
	}
}
'''),
 dict(id='scan-ident-slash', prop='C03', pkg='scanner',
  edits=[(S, "\tfor IsName(s.ch) {\n\t\ts.next()\n\t}\n\treturn string(s.src[offs:s.offset])", "\tfor IsName(s.ch) {\n\t\tif s.ch == '/' && s.offset > offs && s.src[s.offset-1] == '/' {\n\t\t\toffs = s.offset\n\t\t}\n\t\ts.next()\n\t}\n\treturn string(s.src[offs:s.offset])")],
  needs='a cite key with two consecutive slashes',
  breaks='the text of an identifier token loses what precedes a double slash',
  test=HEAD+'''
func TestZZDemo(t *testing.T) {
	toks, _, _ := zzScan("@a{b//c,}", 0)
	if toks[2].tok != token.Ident || toks[2].lit != "b//c" {
		t.Fatal(toks)
	}
}
'''),
 dict(id='scan-init-offset', prop='C07', pkg='scanner',
  edits=[(S, "\ts.lineOffset = 0\n", ""), (S, "\ts.ErrorCount = 0\n", "\tif mode&ScanComments == 0 {\n\t\ts.ErrorCount = 0\n\t}\n")],
  needs='a scanner that saw errors and is initialised again with ScanComments',
  breaks='the error count of an earlier source survives Init',
  test=HEAD+'''
func TestZZDemo(t *testing.T) {
	_, s, _ := zzScan("a = \\x00", 0)
	if s.ErrorCount == 0 {
		t.Fatal("no error")
	}
	f := gotok.NewFileSet().AddFile("y.bib", -1, 1)
	s.Init(f, []byte("a"), nil, ScanComments)
	if s.ErrorCount != 0 {
		t.Fatal(s.ErrorCount)
	}
}
'''),
]
