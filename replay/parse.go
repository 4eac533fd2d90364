package main

import (
	"fmt"
	goscan "go/scanner"
	gotok "go/token"
	"reflect"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

func init() {
	oracles["C08"] = func(g *gen) { g.parses(g.try, func(c *pcase) string { c.run(); return "" }) }
	oracles["C09"] = func(g *gen) { g.parses(g.quiet, func(c *pcase) string { c.run(); return "" }) }
	oracles["C10"] = func(g *gen) { g.parses(g.quiet, whole) }
	oracles["C11"] = func(g *gen) { g.parses(g.quiet, complete) }
	oracles["C12"] = func(g *gen) { g.parses(g.quiet, faithful) }
	oracles["C13"] = func(g *gen) { g.parses(g.quiet, leaves) }
	oracles["C14"] = func(g *gen) { g.parses(g.quiet, comments) }
	oracles["C15"] = func(g *gen) { g.parses(g.quiet, structure) }
}

// pcase is one parse: of a file, or of an expression.
type pcase struct {
	src  string
	mode parser.Mode
	expr bool
	pad  int // size of a file added to the file set before

	base int // position of the first byte of text
	text string
	file *ast.File
	x    ast.Expr
	err  error
}

func (c *pcase) String() string {
	if c.expr {
		return fmt.Sprintf("ParseExpr(%q)", c.src)
	}
	return fmt.Sprintf("ParseFile(%q, mode %d)", c.src, c.mode)
}

func (c *pcase) run() {
	if c.expr {
		c.base, c.text = 1, "="+c.src
		c.mode = parser.ParseStrings
		c.x, c.err = parser.ParseExpr(c.src)
		return
	}
	fset := gotok.NewFileSet()
	if c.pad > 0 {
		fset.AddFile("pad", -1, c.pad)
	}
	c.base, c.text = fset.Base(), c.src
	c.file, c.err = parser.ParseFile(fset, "f.bib", []byte(c.src), c.mode)
}

func (c *pcase) root() interface{} {
	if c.expr {
		if c.x == nil {
			return nil
		}
		return c.x
	}
	return c.file
}

var pfrags = []string{"@a{", "@article{", "@STRING{", "@preamble{", "@book(", "@string(", "@preamble(", "}", ")", "k", ",", " ", "t=", "u = ", "1", "12", "{x}", "\"x\"", " # ", "=", "{", "\"",
	"\n", "%c\n", "% d e\n", "url = ", "URL=", "{\\url{http://a}}", "\"\\url{b c}\"", "\"http://x.y\"", "{a {b {c} d} e}", "\"a {b\"c} d\"", "{$a^2$ \\& \\'{o} ~,}", "{\\c c}", "\\", "$", "{}", "\"\"",
	"@", "@comment{", "_", "%", "\x00", "\xff", "é", "@é{", "a-b/c:d", "Foo = ", "aBc,", "\n\n", "\r\n", "\t", "\\href{x y", "{-}", "{a\\,b}", "#", "1a = ", "k,l,m,", "\ufeff", "\\\"o", "{\\\"{o}}", "{\n%x\n}", "@a{k,t={x},u=\"y\"}"}

func (g *gen) pick(s ...string) string { return s[g.Intn(len(s))] }

func (g *gen) many(n int, f func() string) string {
	var b strings.Builder
	for i := g.Intn(n + 1); i > 0; i-- {
		b.WriteString(f())
	}
	return b.String()
}

// sp returns blanks and comments.
func (g *gen) sp() string {
	if g.Intn(3) > 0 {
		return g.pick("", "", " ")
	}
	return g.many(3, func() string { return g.pick(" ", "\n", "\t", "%c\n", "% x @a{\n", "\n\n", "\r\n", "%\n", " %d\r\n") })
}

func (g *gen) word() string {
	return g.pick("a", "b", "Foo", "k1", "x:y", "title", "x-y", "A", "Z/z", "author", "//", "a", "and", "k", "month", "ab-", "x.")
}

func (g *gen) str(d int) string {
	return g.many(6, func() string {
		switch g.Intn(16) {
		case 0:
			return "$" + g.pick("", "x", "a+b", "\\$", " y ") + "$"
		case 1:
			return "\\" + g.pick("$", "&", "%", "{", "}", "_", "\\")
		case 2:
			return "\\" + g.pick("'o", "'{o}", "\"o", "c c", "c{c}", "^ a", "^  a", "`{E}", ".z", "~n")
		case 3:
			return "\\" + g.pick("foo", "LaTeX", "alpha", ",", ";", "[", "(")
		case 4:
			return "~"
		case 5:
			return ","
		case 6, 7:
			return g.pick(" ", "  ", "\n", "\t")
		case 8, 9, 10:
			if d < 4 {
				return "{" + g.str(d+1) + "}"
			}
			return "z"
		case 11:
			if d < 4 {
				return "{" + g.pick("\"", "a\"b", "\" {\"} \"") + "}"
			}
			return "y"
		case 12:
			if g.Intn(3) == 0 {
				return "\\" + g.pick("url", "href") + "{" + g.pick("http://a.b/c", "x y", "x~y", "", "a_b", "a ") + "}"
			}
			return g.pick("é", "%", "1")
		}
		return g.word()
	})
}

func (g *gen) value(d int) string {
	switch g.Intn(9) {
	case 0:
		return g.word()
	case 1:
		return g.pick("1", "2010", "007")
	case 2, 3, 4:
		return "{" + g.str(0) + "}"
	case 5, 6:
		s := g.str(1)
		if g.Intn(2) == 0 {
			s = g.pick("a", "http://x", "http", "b c", "{\"}", "")
		}
		return "\"" + s + "\""
	}
	if d > 4 {
		return "x"
	}
	return g.value(d+1) + g.sp() + "#" + g.sp() + g.value(d+1)
}

func (g *gen) entry() string {
	o, c := "{", "}"
	if g.Intn(3) == 0 {
		o, c = "(", ")"
	}
	switch g.Intn(8) {
	case 0:
		return "@" + g.pick("preamble", "PREAMBLE") + g.sp() + o + g.sp() + g.value(0) + g.sp() + c
	case 1:
		return "@" + g.pick("string", "String") + g.sp() + o + g.sp() + g.word() + g.sp() + "=" + g.sp() + g.value(0) + g.sp() + g.pick("", "", ",") + g.sp() + c
	}
	body := g.many(5, func() string {
		sep := g.pick(",", ",", ",", ",", " ")
		if g.Intn(3) == 0 {
			return g.pick("k", "l", "12", "x1", "a:b", "K2") + g.sp() + sep + g.sp()
		}
		name := g.pick("title", "a", "T", "aUthor", "ab-", "A_", "x:", "url", "URL", "month", "a", "b", "Zz")
		return name + g.sp() + "=" + g.sp() + g.value(0) + g.sp() + sep + g.sp()
	})
	if g.Intn(12) == 0 { // many items
		for n := g.Intn(40); n > 0; n-- {
			body += fmt.Sprintf(g.pick("k%d, ", "t%d = 1, ", "t%d = 2, ", "u%d = {x} "), n)
		}
	}
	return "@" + g.pick("article", "a", "BOOK", "misc", "aX", "comments", "_", "strings", "é") + g.sp() + o + g.sp() + body + c + g.pick("", "", "", ",")
}

func (g *gen) mutate(s string) string {
	if g.Intn(4) == 0 && len(s) > 0 {
		return s[:g.Intn(len(s))]
	}
	for n := g.Intn(3) + 1; n > 0 && len(s) > 0; n-- {
		i := g.Intn(len(s))
		j := i + g.Intn(min(len(s)-i, 4)+1)
		switch g.Intn(3) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:i] + pfrags[g.Intn(len(pfrags))] + s[i:]
		case 2:
			s = s[:i] + pfrags[g.Intn(len(pfrags))] + s[j:]
		}
	}
	return s
}

// psource returns a text, most of the time a well-formed or nearly well-formed one.
func (g *gen) psource() string {
	switch g.Intn(12) {
	case 0:
		return g.source()
	case 1:
		return g.many(10, func() string { return pfrags[g.Intn(len(pfrags))] })
	case 2:
		return g.many(60, func() string { return pfrags[g.Intn(len(pfrags))] })
	case 3:
		return strings.Repeat(g.pick("@a{k,}", "@a{k,t=1}\n", "}\n", "@\n", "%c\n", "@a{1=2}\n", "{", "@string{x=1}", "\n% c\n\n% d\n", "@a{ =\n"), g.Intn(20)) + g.psource()
	}
	s := g.many(3, func() string { return g.sp() + g.entry() + g.sp() + g.pick("", "", "\n") })
	if g.Intn(3) == 0 {
		s = g.mutate(s)
	}
	return s
}

var pmodes = []parser.Mode{0, parser.ParseStrings, parser.ParseComments, parser.ParseComments | parser.ParseStrings, parser.AllErrors, parser.AllErrors | parser.ParseStrings,
	parser.ParseStrings | parser.ParseComments | parser.AllErrors | parser.DeclarationErrors}

func (g *gen) parses(try func(string, func() string), f func(c *pcase) string) {
	one := func(c pcase) { try(c.String(), func() string { return f(&c) }) }
	all := func(s string) {
		for _, m := range []parser.Mode{0, parser.ParseStrings, parser.AllErrors | parser.ParseStrings | parser.ParseComments} {
			one(pcase{src: s, mode: m})
		}
		one(pcase{src: s, expr: true})
	}
	all("")
	for _, a := range pfrags {
		all(a)
		for _, b := range pfrags {
			all(a + b)
			one(pcase{src: "@a{k,t=" + a + b, mode: parser.ParseStrings})
			one(pcase{src: "@a{k," + a + b + "}", mode: parser.ParseStrings})
			one(pcase{src: "@a{k," + a + b + "}", mode: 0})
			one(pcase{src: "@string{" + a + b + "}", mode: parser.ParseStrings})
			one(pcase{src: "{" + a + b + "}", expr: true})
			one(pcase{src: "\"" + a + b + "\"", expr: true})
		}
	}
	for g.more() {
		c := pcase{src: g.psource(), mode: pmodes[g.Intn(len(pmodes))]}
		switch g.Intn(8) {
		case 0:
			c.src, c.expr = g.value(0), true
			if g.Intn(3) == 0 {
				c.src = g.mutate(c.src)
			}
		case 1:
			c.pad = 1 + g.Intn(30)
		}
		one(c)
	}
}

// ---- the tokens of the text

type ptok struct {
	pos int
	tok token.Token
	lit string
}

// tokens scans the text like the parser does. The last token is the end of the file.
func (c *pcase) tokens() (toks, coms []ptok, errs int) {
	fset := gotok.NewFileSet()
	if c.base > 1 {
		fset.AddFile("pad", -1, c.base-2)
	}
	f := fset.AddFile("f", -1, len(c.text))
	var s scanner.Scanner
	var m scanner.Mode
	if c.mode&parser.ParseStrings != 0 {
		m = scanner.ScanStrings
	}
	s.Init(f, []byte(c.text), nil, m)
	for {
		pos, tok, lit := s.Scan()
		if tok == token.TexComment {
			coms = append(coms, ptok{int(pos), tok, lit})
			continue
		}
		toks = append(toks, ptok{int(pos), tok, lit})
		if tok == token.EOF || len(toks) > 4*len(c.text)+8 {
			return toks, coms, s.ErrorCount
		}
	}
}

// ---- a reference parser for texts without errors

type rerr struct{ msg string }

type rparse struct {
	toks []ptok
	i    int
}

func (r *rparse) tok() ptok { return r.toks[r.i] }

func (r *rparse) next() ptok {
	t := r.toks[r.i]
	if r.i < len(r.toks)-1 {
		r.i++
	}
	return t
}

func (r *rparse) bad(format string, args ...interface{}) {
	panic(rerr{fmt.Sprintf("offset position %d: ", r.tok().pos) + fmt.Sprintf(format, args...)})
}

func (r *rparse) want(ts ...token.Token) ptok {
	for _, t := range ts {
		if r.tok().tok == t {
			return r.next()
		}
	}
	r.bad("found %v instead of %v", r.tok().tok, ts)
	return ptok{}
}

func (r *rparse) open() token.Token {
	if r.want(token.LBrace, token.LParen).tok == token.LBrace {
		return token.RBrace
	}
	return token.RParen
}

func catch(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			re, ok := e.(rerr)
			if !ok {
				panic(e)
			}
			msg = re.msg
		}
	}()
	f()
	return ""
}

type rtag struct {
	name ptok
	val  string
}

type rdecl struct {
	pos, end   int
	kind       string
	typ        string
	keys       []ptok
	tags       []rtag
	val        string
	open, clos token.Token
}

func (r *rparse) file() (ds []*rdecl) {
	for r.tok().tok != token.EOF {
		ds = append(ds, r.decl())
	}
	return
}

func (r *rparse) decl() *rdecl {
	t := r.next()
	d := &rdecl{pos: t.pos}
	switch t.tok {
	case token.Preamble:
		d.kind = "preamble"
		c := r.open()
		d.val = r.expr()
		d.end = r.want(c).pos
	case token.Abbrev:
		d.kind = "string"
		c := r.open()
		name := r.want(token.Ident, token.Number)
		r.want(token.Assign)
		d.tags = []rtag{{name, r.expr()}}
		if r.tok().tok == token.Comma {
			r.next()
		}
		d.end = r.want(c).pos
	case token.BibEntry:
		d.kind = "entry"
		d.typ = strings.ToLower(t.lit[1:])
		c := r.open()
		for r.tok().tok == token.Ident || r.tok().tok == token.Number {
			k := r.next()
			if r.tok().tok == token.Assign {
				if ch := k.lit[0] | 0x20; ch < 'a' || ch > 'z' {
					r.bad("bad tag name %q", k.lit)
				}
				r.next()
				if strings.ToLower(k.lit) == "url" && r.tok().tok == token.DoubleQuote {
					d.tags = append(d.tags, rtag{k, r.concat(r.urlString())})
				} else {
					d.tags = append(d.tags, rtag{k, r.expr()})
				}
			} else {
				d.keys = append(d.keys, k)
			}
			if r.tok().tok == token.Comma {
				r.next()
			}
		}
		d.end = r.want(c).pos
		if r.tok().tok == token.Comma {
			r.next()
		}
	default:
		r.i--
		r.bad("no entry starts with %v", t.tok)
	}
	return d
}

func (r *rparse) expr() string {
	t := r.tok()
	switch t.tok {
	case token.Ident, token.Number, token.String, token.BraceString:
		r.next()
		return r.concat(fmt.Sprintf("%v@%d%q", t.tok, t.pos, t.lit))
	case token.DoubleQuote, token.StringLBrace:
		return r.concat(r.str(0))
	}
	r.bad("no expression starts with %v", t.tok)
	return ""
}

func (r *rparse) concat(x string) string {
	if r.tok().tok != token.Concat {
		return x
	}
	op := r.next()
	return fmt.Sprintf("(%s #@%d %s)", x, op.pos, r.expr())
}

// str parses a string that starts at the current token.
func (r *rparse) str(depth int) string {
	t := r.want(token.DoubleQuote, token.StringLBrace)
	end := token.StringRBrace
	delim := "brace"
	if t.tok == token.DoubleQuote {
		end = token.DoubleQuote
		delim = "quote"
	}
	var b strings.Builder
	for r.tok().tok != end {
		b.WriteString(" " + r.part(depth+1))
	}
	return fmt.Sprintf("<%s@%d depth %d%s @%d>", delim, t.pos, depth, b.String(), r.next().pos)
}

func (r *rparse) part(depth int) string {
	t := r.tok()
	switch t.tok {
	case token.StringLBrace:
		return r.str(depth)
	case token.StringMath, token.StringContents:
		r.next()
		return fmt.Sprintf("%v@%d%q", t.tok, t.pos, t.lit)
	case token.StringSpace, token.StringComma, token.StringNBSP, token.StringHyphen:
		r.next()
		return fmt.Sprintf("%v@%d", t.tok, t.pos)
	case token.StringBackslash:
		r.next()
		return fmt.Sprintf("%v@%d%q", t.tok, t.pos, t.lit[1:])
	case token.StringAccent:
		r.next()
		v := t.lit[2:]
		if v[0] == '{' {
			v = v[1 : len(v)-1]
		}
		return fmt.Sprintf("%v@%d%c%q", t.tok, t.pos, t.lit[1], v)
	case token.StringMacro:
		r.next()
		if t.lit == "url" || t.lit == "href" {
			return r.urlMacro(t)
		}
		return fmt.Sprintf("%v@%d%q", t.tok, t.pos, t.lit)
	}
	r.bad("%v inside of a string", t.tok)
	return ""
}

func (r *rparse) urlMacro(t ptok) string {
	r.want(token.StringLBrace)
	for r.tok().tok != token.StringRBrace && r.tok().tok != token.StringSpace && r.tok().tok != token.EOF {
		r.next()
	}
	if r.tok().tok == token.StringSpace {
		r.next()
	}
	end := r.want(token.StringRBrace)
	return fmt.Sprintf("url@%d%q@%d", t.pos, t.lit, end.pos)
}

func (r *rparse) urlString() string {
	t := r.want(token.DoubleQuote)
	if r.tok().tok == token.StringMacro {
		u := r.urlMacro(r.next())
		return fmt.Sprintf("<quote@%d depth 0 %s @%d>", t.pos, u, r.want(token.DoubleQuote).pos)
	}
	for r.tok().tok != token.DoubleQuote {
		if r.tok().tok == token.EOF {
			r.bad("end inside of a string")
		}
		r.next()
	}
	r.next()
	return "urltext"
}

// dump writes an expression the way the reference parser does.
func dump(x ast.Expr) string {
	switch n := x.(type) {
	case *ast.Ident:
		return fmt.Sprintf("%v@%d%q", token.Ident, n.NamePos, n.Name)
	case *ast.Number:
		return fmt.Sprintf("%v@%d%q", token.Number, n.ValuePos, n.Value)
	case *ast.UnparsedText:
		return fmt.Sprintf("%v@%d%q", n.Type, n.ValuePos, n.Value)
	case *ast.ConcatExpr:
		return fmt.Sprintf("(%s #@%d %s)", dump(n.X), n.OpPos, dump(n.Y))
	case *ast.ParsedText:
		delim := "brace"
		if n.Delim == ast.QuoteDelimiter {
			delim = "quote"
		}
		var b strings.Builder
		for _, v := range n.Values {
			b.WriteString(" " + dump(v))
		}
		return fmt.Sprintf("<%s@%d depth %d%s @%d>", delim, n.Opener, n.Depth, b.String(), n.Closer)
	case *ast.Text:
		return fmt.Sprintf("%v@%d%q", token.StringContents, n.ValuePos, n.Value)
	case *ast.TextMath:
		return fmt.Sprintf("%v@%d%q", token.StringMath, n.ValuePos, n.Value)
	case *ast.TextSpace:
		return fmt.Sprintf("%v@%d", token.StringSpace, n.ValuePos)
	case *ast.TextComma:
		return fmt.Sprintf("%v@%d", token.StringComma, n.ValuePos)
	case *ast.TextNBSP:
		return fmt.Sprintf("%v@%d", token.StringNBSP, n.ValuePos)
	case *ast.TextHyphen:
		return fmt.Sprintf("%v@%d", token.StringHyphen, n.ValuePos)
	case *ast.TextEscaped:
		return fmt.Sprintf("%v@%d%q", token.StringBackslash, n.ValuePos, n.Value)
	case *ast.TextAccent:
		return fmt.Sprintf("%v@%d%c%q", token.StringAccent, n.ValuePos, rune(n.Accent), n.Text.Value)
	case *ast.TextMacro:
		if n.Name == "url" || n.Name == "href" {
			return fmt.Sprintf("url@%d%q@%d", n.Cmd, n.Name, n.RBrace)
		}
		return fmt.Sprintf("%v@%d%q", token.StringMacro, n.Cmd, n.Name)
	}
	return fmt.Sprintf("%T", x)
}

// ---- the properties

// each calls f for every non-nil node below x, including fields and lists that Walk does not visit.
func each(x interface{}, f func(n interface{}, path string)) { eachPath(reflect.ValueOf(x), "", f, 0) }

func eachPath(v reflect.Value, path string, f func(n interface{}, path string), depth int) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			eachPath(v.Elem(), path, f, depth)
		}
	case reflect.Ptr:
		if v.IsNil() || v.Type().Elem().PkgPath() != "github.com/jschaf/bibtex/ast" || v.Type().Elem().Name() == "Scope" || v.Type().Elem().Name() == "Object" {
			return
		}
		f(v.Interface(), path)
		s := v.Elem()
		for i := 0; i < s.NumField(); i++ {
			eachPath(s.Field(i), path+"."+s.Type().Field(i).Name, f, depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			eachPath(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f, depth+1)
		}
	}
}

func isNil(x interface{}) bool {
	v := reflect.ValueOf(x)
	return !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil()
}

func complete(c *pcase) (msg string) {
	c.run()
	if c.err == nil && isNil(c.root()) {
		return "no tree and no error"
	}
	if isNil(c.root()) {
		return ""
	}
	each(c.root(), func(n interface{}, path string) {
		bad := func(what string) {
			if msg == "" {
				msg = fmt.Sprintf("%T at %s: %s", n, path, what)
			}
		}
		v := reflect.ValueOf(n).Elem()
		for i := 0; i < v.NumField(); i++ {
			if l := v.Field(i); l.Kind() == reflect.Slice && l.Type().Elem().Kind() != reflect.Uint8 {
				for k := 0; k < l.Len(); k++ {
					if e := l.Index(k); (e.Kind() == reflect.Ptr || e.Kind() == reflect.Interface) && isNil(e.Interface()) {
						bad(fmt.Sprintf("element %d of %s is nil", k, v.Type().Field(i).Name))
					}
				}
			}
		}
		switch n := n.(type) {
		case *ast.TagStmt:
			if isNil(n.Value) {
				bad("no value")
			}
		case *ast.AbbrevDecl:
			if n.Tag == nil {
				bad("no tag")
			}
		case *ast.PreambleDecl:
			if isNil(n.Text) {
				bad("no text")
			}
		case *ast.ConcatExpr:
			if isNil(n.X) || isNil(n.Y) {
				bad("missing operand")
			}
		case *ast.TexCommentGroup:
			if len(n.List) == 0 {
				bad("empty comment group")
			}
		case *ast.TextAccent:
			if n.Text == nil {
				bad("no text")
			}
		}
	})
	return
}

// ref runs the reference parser on the whole text.
func (c *pcase) ref() (ds []*rdecl, x string, msg string) {
	toks, _, errs := c.tokens()
	r := &rparse{toks: toks}
	msg = catch(func() {
		if c.expr {
			r.want(token.Assign)
			x = r.expr()
			r.want(token.EOF)
		} else {
			ds = r.file()
		}
	})
	if msg == "" && errs > 0 {
		msg = "the scanner reports an error"
	}
	return
}

func whole(c *pcase) (msg string) {
	c.run()
	if c.err != nil {
		return ""
	}
	if _, _, e := c.ref(); e != "" {
		return "no error is reported, but " + e
	}
	each(c.root(), func(n interface{}, path string) {
		switch n.(type) {
		case *ast.BadDecl, *ast.BadExpr, *ast.BadStmt:
			msg = fmt.Sprintf("no error is reported, but there is a %T at %s", n, path)
		}
	})
	return
}

func faithful(c *pcase) string {
	c.run()
	if c.err != nil || c.expr {
		return ""
	}
	ds, _, e := c.ref()
	if e != "" {
		return "" // C10
	}
	var want, got []string
	for _, d := range ds {
		s := fmt.Sprintf("%s@%d %q", d.kind, d.pos, d.typ)
		for i, k := range d.keys {
			s += fmt.Sprintf(" %s %q@%d", []string{"key", "extra"}[min(i, 1)], k.lit, k.pos)
		}
		for _, t := range d.tags {
			s += fmt.Sprintf(" tag %q %q@%d", strings.ToLower(t.name.lit), t.name.lit, t.name.pos)
		}
		want = append(want, s)
	}
	for _, d := range c.file.Entries {
		s := fmt.Sprintf("%T", d)
		tag := func(t *ast.TagStmt) {
			s += fmt.Sprintf(" tag %q %q@%d", t.Name, t.RawName, t.NamePos)
		}
		switch d := d.(type) {
		case *ast.PreambleDecl:
			s = fmt.Sprintf("preamble@%d %q", d.Entry, "")
		case *ast.AbbrevDecl:
			s = fmt.Sprintf("string@%d %q", d.Entry, "")
			tag(d.Tag)
		case *ast.BibDecl:
			s = fmt.Sprintf("entry@%d %q", d.Entry, d.Type)
			if d.Key != nil {
				s += fmt.Sprintf(" key %q@%d", d.Key.Name, d.Key.NamePos)
			}
			for _, k := range d.ExtraKeys {
				s += fmt.Sprintf(" extra %q@%d", k.Name, k.NamePos)
			}
			for _, t := range d.Tags {
				tag(t)
			}
		}
		got = append(got, s)
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("entry %d is missing: %s", i, want[i])
		case i >= len(want):
			return fmt.Sprintf("entry %d is not in the source: %s", i, got[i])
		case want[i] != got[i]:
			return fmt.Sprintf("entry %d is %s, should be %s", i, got[i], want[i])
		}
	}
	return ""
}

func leaves(c *pcase) (msg string) {
	c.run()
	if isNil(c.root()) {
		return ""
	}
	urls := map[*ast.Text]bool{}
	// the tokens of the source
	lits := map[int]string{}
	toks, coms, _ := c.tokens()
	for _, l := range [][]ptok{toks, coms} {
		for _, t := range l {
			if _, ok := lits[int(t.pos)]; !ok {
				lits[int(t.pos)] = t.lit
			}
		}
	}
	each(c.root(), func(n interface{}, path string) {
		at := func(pos gotok.Pos, skip int, text string) {
			o := int(pos) - c.base
			if o < 0 || o > len(c.text) {
				msg = fmt.Sprintf("%T at %s: position %d is outside of the source", n, path, pos)
			} else if o += skip; o > len(c.text) || !strings.HasPrefix(c.text[o:], text) {
				msg = fmt.Sprintf("%T at %s: text %q is not at its position, offset %d", n, path, text, o)
			}
		}
		leaf := func(pos gotok.Pos, skip int, text string) {
			at(pos, skip, text)
			if lit, ok := lits[int(pos)]; msg == "" && (!ok || lit != text) {
				msg = fmt.Sprintf("%T at %s: text %q is not the text %q of the token at its position", n, path, text, lit)
			}
		}
		switch n := n.(type) {
		case *ast.Ident:
			if n.Name == "_" { // may stand for a missing name
				at(n.NamePos, 0, "")
			} else {
				leaf(n.NamePos, 0, n.Name)
			}
		case *ast.Number:
			leaf(n.ValuePos, 0, n.Value)
		case *ast.UnparsedText:
			leaf(n.ValuePos, 1, n.Value)
		case *ast.TextMath:
			leaf(n.ValuePos, 1, n.Value)
		case *ast.TexComment:
			leaf(n.Start, 0, n.Text)
			if o := int(n.Start) - c.base + len(n.Text); msg == "" && o < len(c.text) && c.text[o] != '\n' {
				msg = fmt.Sprintf("comment at %s does not end at the end of its line", path)
			}
		case *ast.TextMacro:
			at(n.Cmd, 0, "")
			for _, v := range n.Values {
				if t, ok := v.(*ast.Text); ok {
					urls[t] = true
				}
			}
		case *ast.TextAccent:
			at(n.ValuePos, 0, "\\")
			urls[n.Text] = true
		case *ast.TagStmt:
			if n.RawName == "_" {
				at(n.NamePos, 0, "")
			} else {
				leaf(n.NamePos, 0, n.RawName)
			}
			if t, ok := n.Value.(*ast.Text); ok {
				urls[t] = true // a quoted url
			}
			if x, ok := n.Value.(*ast.ConcatExpr); ok && n.Name == "url" {
				if t, ok := x.X.(*ast.Text); ok {
					urls[t] = true
				}
			}
		case *ast.Text:
			if urls[n] {
				at(n.ValuePos, 0, "")
			} else {
				leaf(n.ValuePos, 0, n.Value)
			}
		}
	})
	return
}

func comments(c *pcase) (msg string) {
	c.run()
	if c.expr || c.file == nil {
		return ""
	}
	_, coms, _ := c.tokens()
	line := func(pos int) int { return strings.Count(c.text[:min(pos-c.base, len(c.text))], "\n") }
	groups := map[*ast.TexCommentGroup]bool{}
	n := 0
	for i, gr := range c.file.Comments {
		groups[gr] = true
		for k, cm := range gr.List {
			if n >= len(coms) {
				return fmt.Sprintf("comment %q at %d is one too many", cm.Text, cm.Start)
			}
			if cm.Text != coms[n].lit || int(cm.Start) != coms[n].pos {
				return fmt.Sprintf("comment %d is %q at %d, should be %q at %d", n, cm.Text, cm.Start, coms[n].lit, coms[n].pos)
			}
			if k > 0 && line(coms[n].pos) > line(coms[n-1].pos)+1 {
				return fmt.Sprintf("group %d has an empty line between its comments", i)
			}
			if k > 0 && strings.Trim(c.text[coms[n-1].pos-c.base+len(coms[n-1].lit):coms[n].pos-c.base], " \t\r\n") != "" {
				return fmt.Sprintf("group %d has something between its comments", i)
			}
			n++
		}
	}
	if c.err == nil && n < len(coms) {
		return fmt.Sprintf("comment %q at %d is missing", coms[n].lit, coms[n].pos)
	}
	end := 0
	each(c.file, func(x interface{}, path string) {
		if d, ok := x.(ast.Decl); ok && strings.Count(path, ".") == 1 {
			if _, bad := d.(*ast.BadDecl); !bad {
				end = int(d.End())
			}
		}
		var doc *ast.TexCommentGroup
		pos := 0
		switch x := x.(type) {
		case *ast.BibDecl:
			doc, pos = x.Doc, int(x.Entry)
		case *ast.TagStmt:
			doc, pos = x.Doc, int(x.NamePos)
		case *ast.PreambleDecl:
			doc, pos = x.Doc, int(x.Entry)
		case *ast.AbbrevDecl:
			doc, pos = x.Doc, int(x.Entry)
		case *ast.File:
			doc = x.Doc
		}
		if doc != nil && !groups[doc] {
			msg = fmt.Sprintf("the documentation of %s is not in the list of comments", path)
		}
		if doc != nil && pos > 0 && int(doc.List[len(doc.List)-1].Start) > pos {
			msg = fmt.Sprintf("the documentation of %s comes after it", path)
		}
	})
	if el, ok := c.err.(goscan.ErrorList); msg == "" && n < len(coms) && coms[n].pos < end && !(ok && len(el) > 10 && c.file.Entries == nil) {
		msg = fmt.Sprintf("comment %q at %d is missing", coms[n].lit, coms[n].pos)
	}
	return
}

func structure(c *pcase) (msg string) {
	c.run()
	if c.mode&parser.ParseStrings == 0 || isNil(c.root()) {
		return ""
	}
	toks, _, _ := c.tokens()
	at := map[int]int{}
	for i, t := range toks {
		at[t.pos] = i
	}
	if c.err == nil {
		ds, x, e := c.ref()
		if e != "" {
			return "" // C10
		}
		cmp := func(what string, got ast.Expr, want string) {
			if msg == "" && dump(got) != want && !strings.Contains(want, "urltext") {
				msg = fmt.Sprintf("%s is %s, should be %s", what, dump(got), want)
			}
		}
		if c.expr {
			cmp("expression", c.x, x)
			return
		}
		if len(ds) != len(c.file.Entries) {
			return ""
		}
		for i, d := range c.file.Entries {
			switch d := d.(type) {
			case *ast.PreambleDecl:
				cmp(fmt.Sprintf("preamble %d", i), d.Text, ds[i].val)
			case *ast.AbbrevDecl:
				if len(ds[i].tags) == 1 {
					cmp(fmt.Sprintf("string macro %d", i), d.Tag.Value, ds[i].tags[0].val)
				}
			case *ast.BibDecl:
				if len(d.Tags) == len(ds[i].tags) {
					for k, t := range d.Tags {
						if t.Name == "url" {
							continue
						}
						cmp(fmt.Sprintf("tag %d of entry %d", k, i), t.Value, ds[i].tags[k].val)
					}
				}
			}
		}
		return
	}
	// Strings without syntax errors in a text with some.
	url := "none" // the path of the last url value, which has rules of its own
	each(c.root(), func(n interface{}, path string) {
		if t, ok := n.(*ast.TagStmt); ok && t.Name == "url" {
			url = path
		}
		t, ok := n.(*ast.ParsedText)
		if !ok || msg != "" || strings.HasPrefix(path, url) {
			return
		}
		i, ok := at[int(t.Opener)]
		if !ok {
			msg = fmt.Sprintf("no token at the opener of %s", path)
			return
		}
		r := &rparse{toks: toks, i: i}
		want := ""
		if e := catch(func() { want = r.str(t.Depth) }); e != "" {
			return
		}
		if got := dump(t); got != want && !strings.Contains(got, "*ast.Bad") && !strings.Contains(got, "url@") {
			msg = fmt.Sprintf("string at %s is %s, should be %s", path, got, want)
		}
	})
	return
}
