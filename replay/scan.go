package main

import (
	"bytes"
	"fmt"
	gotok "go/token"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

func init() {
	oracles["C01"] = func(g *gen) { g.sources(func(src string, m scanner.Mode) { g.try(desc(src, m), func() string { scanAll(src, m, nil); return "" }) }) }
	oracles["C02"] = func(g *gen) { g.sources(g.scanCase(progress)) }
	oracles["C03"] = func(g *gen) { g.sources(g.scanCase(tiles)) }
	oracles["C04"] = func(g *gen) { g.sources(g.scanCase(rawStrings)) }
	oracles["C05"] = func(g *gen) { g.sources(g.scanCase(inStrings)) }
	oracles["C06"] = func(g *gen) { g.sources(g.scanCase(scanErrors)) }
	oracles["C07"] = func(g *gen) { g.sources(g.scanCase(history)) }
}

func desc(src string, m scanner.Mode) string { return fmt.Sprintf("mode %d source %q", m, src) }

var frags = []string{"{", "}", "\"", "\\", "$", "a", "@a{k, t = ", " ", ",", "%c\n", "=", "#", "~", "1", "\n", "@", "(", ")", "\\{", "\\'", "\\'{", "é", "\xff", "\x00", "\ufeff", "o", "}",
	"@comment", "@string{", "@preamble{", "\\url", "_", "-", "\\c  ", "and", "\r", "\t", "\\\"", "%", "=\"", "={", "x1", "1x", "\\\\", "B", "'", "^", "\\$", "\u2028"}

func (g *gen) source() string {
	var b strings.Builder
	n := 1 + g.Intn(10)
	if g.Intn(6) == 0 {
		n = 1 + g.Intn(60)
	}
	if g.Intn(2) == 0 {
		b.WriteString([]string{"@a{k, t = ", "@a{k, t = {", "@a{k, t = \"", "={", "=\"", "@string(s = ", "# "}[g.Intn(7)])
	}
	for i := 0; i < n; i++ {
		b.WriteString(frags[g.Intn(len(frags))])
	}
	return b.String()
}

// sources calls f with small sources first, then with random ones.
func (g *gen) sources(f func(src string, m scanner.Mode)) {
	all := func(s string) {
		for m := scanner.Mode(0); m < 4; m++ {
			f(s, m)
		}
	}
	all("")
	for _, a := range frags {
		all(a)
		for _, b := range frags {
			all(a + b)
		}
	}
	for _, p := range []string{"=\"", "={"} {
		for _, a := range frags {
			all(p + a)
			for _, b := range frags {
				all(p + a + b)
				for _, c := range frags {
					if !g.more() {
						return
					}
					f(p+a+b+c, 2)
					f(p+a+b+c, 0)
				}
			}
		}
	}
	for g.more() {
		f(g.source(), scanner.Mode(g.Intn(4)))
	}
}

type stok struct {
	off  int
	tok  token.Token
	lit  string
	errs int // error count after the token
	in   bool
}

type scan struct {
	src   string
	mode  scanner.Mode
	toks  []stok
	calls int
	first int // errors of Init
	last  int
	endIn bool
}

func scanInto(s *scanner.Scanner, src string, m scanner.Mode, limit int, after func(r *scan)) *scan {
	r := &scan{src: src, mode: m}
	fset := gotok.NewFileSet()
	file := fset.AddFile("d/f.bib", -1, len(src))
	s.Init(file, []byte(src), func(gotok.Position, string) { r.calls++ }, m)
	r.first = s.ErrorCount
	if after != nil {
		after(r)
	}
	// whether the scanner is inside a tokenized string is read off the tokens
	q, depth := token.Illegal, 0
	for len(r.toks) < limit {
		in := q != token.Illegal
		pos, tok, lit := s.Scan()
		r.toks = append(r.toks, stok{int(pos) - file.Base(), tok, lit, s.ErrorCount, in})
		if r.calls != s.ErrorCount {
			r.last = -1
		}
		switch {
		case tok == token.EOF:
			r.endIn = in
			return r
		case !in && (tok == token.DoubleQuote || tok == token.StringLBrace):
			q, depth = tok, 0
		case in && tok == token.StringLBrace:
			depth++
		case in && tok == token.StringRBrace && depth == 0 && q == token.StringLBrace:
			q = token.Illegal
		case in && tok == token.StringRBrace:
			depth--
		case in && tok == token.DoubleQuote:
			q = token.Illegal
		}
	}
	return r
}

func scanAll(src string, m scanner.Mode, s *scanner.Scanner) *scan {
	if s == nil {
		s = &scanner.Scanner{}
	}
	r := scanInto(s, src, m, len(src)+3, nil)
	for i := 0; i < 3; i++ {
		pos, tok, lit := s.Scan()
		_ = pos
		r.toks = append(r.toks, stok{off: len(src), tok: tok, lit: lit, errs: s.ErrorCount})
	}
	return r
}

func (g *gen) scanCase(f func(r *scan) string) func(string, scanner.Mode) {
	return func(src string, m scanner.Mode) {
		g.quiet(desc(src, m), func() string { return f(scanAll(src, m, nil)) })
	}
}

func progress(r *scan) string {
	prev := -1
	eof := false
	for i, t := range r.toks {
		if t.tok == token.EOF {
			eof = true
			continue
		}
		if eof {
			return fmt.Sprintf("token %s after the end of file", t.tok)
		}
		if t.off <= prev || t.off >= len(r.src) {
			return fmt.Sprintf("token %d (%s) at offset %d after one at %d, source length %d", i, t.tok, t.off, prev, len(r.src))
		}
		prev = t.off
	}
	if !eof {
		return "no end of file"
	}
	return ""
}

func isNameByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_-/!$&*+.:;<>?[]^`|", c) >= 0
}

func isBlank(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// where a command that starts at o ends
func cmdEnd(s string, o int) int {
	o++
	for o < len(s) {
		r, w := utf8.DecodeRuneInString(s[o:])
		if !(r < 128 && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_') || r >= 128 && unicode.IsLetter(r)) {
			break
		}
		o += w
	}
	return o
}

func run(s string, o int, f func(c byte) bool) int {
	for o < len(s) && f(s[o]) {
		o++
	}
	return o
}

func matchBrace(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '{':
			d++
		case '}':
			if d == 0 {
				return i
			}
			d--
		}
	}
	return -1
}

func matchQuote(s string, i int) int {
	for ; i < len(s); i++ {
		switch s[i] {
		case '{':
			e := matchBrace(s, i+1)
			if e < 0 {
				return -1
			}
			i = e
		case '"':
			return i
		}
	}
	return -1
}

// tiles checks what the scanner says about the source outside of strings.
func tiles(r *scan) string {
	s := r.src
	end := 0
	if strings.HasPrefix(s, "\ufeff") {
		end = 3
	}
	for i, t := range r.toks {
		bad := func(f string, a ...interface{}) string {
			return fmt.Sprintf("token %d (%s %q at %d): %s", i, t.tok, t.lit, t.off, fmt.Sprintf(f, a...))
		}
		if t.off < 0 || t.off > len(s) {
			return bad("position outside the source")
		}
		if t.in {
			end = -1
			continue
		}
		if end >= 0 {
			if t.off < end {
				return bad("overlaps the token before, which ends at %d", end)
			}
			if g := s[end:t.off]; strings.Trim(g, " \t\r\n") != "" {
				return bad("the text %q before it is not covered by a token", g)
			}
		}
		if t.tok == token.EOF {
			if t.off != len(s) {
				return bad("not at the end")
			}
			return ""
		}
		want := token.Illegal
		c := byte(0)
		if t.off < len(s) {
			c = s[t.off]
		}
		switch {
		case t.off >= len(s):
			return bad("past the end")
		case c >= '0' && c <= '9':
			want, end = token.Number, run(s, t.off, func(c byte) bool { return c >= '0' && c <= '9' })
		case isNameByte(c):
			want, end = token.Ident, run(s, t.off, isNameByte)
		case c == '%':
			want, end = token.TexComment, run(s, t.off, func(c byte) bool { return c != '\n' })
		case c == '@':
			end = cmdEnd(s, t.off)
			switch strings.ToLower(s[t.off:end]) {
			case "@comment":
				want = token.Comment
			case "@string":
				want = token.Abbrev
			case "@preamble":
				want = token.Preamble
			default:
				want = token.BibEntry
				if t.tok != want { // other letters fold to ASCII ones
					want = t.tok
				}
			}
		case c == ',':
			want, end = token.Comma, t.off+1
		case c == '=':
			want, end = token.Assign, t.off+1
		case c == '#':
			want, end = token.Concat, t.off+1
		case c == '(':
			want, end = token.LParen, t.off+1
		case c == ')':
			want, end = token.RParen, t.off+1
		case c == '}':
			want, end = token.RBrace, t.off+1
		case c == '"' || c == '{':
			want = t.tok
			switch t.tok {
			case token.String, token.BraceString:
				end = -1
			case token.DoubleQuote, token.LBrace, token.StringLBrace:
				end = t.off + 1
			default:
				return bad("wrong token for %q", c)
			}
		default:
			_, w := utf8.DecodeRuneInString(s[t.off:])
			end = t.off + w
		}
		if t.tok != want {
			return bad("the source there is a %s", want)
		}
		switch want {
		case token.Number, token.Ident, token.TexComment, token.Comment, token.Abbrev, token.Preamble, token.BibEntry:
			if t.lit != s[t.off:end] {
				return bad("the source there is %q", s[t.off:end])
			}
		}
	}
	return ""
}

func rawStrings(r *scan) string {
	s := r.src
	prev := token.Illegal
	for i, t := range r.toks {
		if t.in || t.off >= len(s) {
			continue
		}
		if r.mode&scanner.ScanStrings == 0 {
			opens := prev == token.Assign || prev == token.Concat || prev == token.LBrace || prev == token.LParen
			if s[t.off] == '"' && t.tok != token.String || s[t.off] == '{' && (t.tok == token.BraceString) != opens {
				return fmt.Sprintf("%s at %d, where the source is %q", t.tok, t.off, s[t.off])
			}
		}
		if t.tok != token.TexComment {
			prev = t.tok
		}
		if t.tok != token.String && t.tok != token.BraceString {
			continue
		}
		e := 0
		if t.tok == token.String {
			e = matchQuote(s, t.off+1)
		} else {
			e = matchBrace(s, t.off+1)
		}
		errs := r.first
		if i > 0 {
			errs = r.toks[i-1].errs
		}
		next := len(s)
		if i+1 < len(r.toks) {
			next = r.toks[i+1].off
		}
		switch {
		case e < 0 && (t.errs == errs || t.lit != s[t.off+1:] || i+1 < len(r.toks) && r.toks[i+1].tok != token.EOF):
			return fmt.Sprintf("the string at %d has no end, but got text %q, %d new errors, next token %s", t.off, t.lit, t.errs-errs, r.toks[i+1].tok)
		case e >= 0 && t.lit != s[t.off+1:e]:
			return fmt.Sprintf("the string at %d is %q, got %q", t.off, s[t.off+1:e], t.lit)
		case e >= 0 && (next < e+1 || strings.Trim(s[e+1:next], " \t\r\n") != ""):
			return fmt.Sprintf("the string at %d ends at %d, but the next token is at %d", t.off, e, next)
		}
	}
	return ""
}

func mathEnd(s string, i int) int {
	for ; i < len(s); i++ {
		switch s[i] {
		case '$':
			return i
		case '\n':
			return -1
		case '\\':
			i++
		}
	}
	return -1
}

func inStrings(r *scan) string {
	s := r.src
	var q byte
	depth, end := 0, -1
	prev := token.Illegal
	for i, t := range r.toks {
		bad := func(f string, a ...interface{}) string {
			return fmt.Sprintf("token %d (%s %q at %d): %s", i, t.tok, t.lit, t.off, fmt.Sprintf(f, a...))
		}
		if q == 0 {
			if t.off < len(s) && r.mode&scanner.ScanStrings != 0 {
				opens := prev == token.Assign || prev == token.Concat || prev == token.LBrace || prev == token.LParen
				if s[t.off] == '"' && t.tok != token.DoubleQuote || s[t.off] == '{' && (t.tok == token.StringLBrace) != opens {
					return bad("the source there is %q", s[t.off])
				}
			}
			if t.tok != token.TexComment {
				prev = t.tok
			}
			if t.tok == token.DoubleQuote || t.tok == token.StringLBrace {
				q, depth, end = s[t.off], 0, t.off+1
				if q == '{' {
					q = '}'
				}
			} else if end >= 0 && (t.off < end || strings.Trim(s[end:t.off], " \t\r\n") != "") {
				return bad("the string before ended at %d", end)
			} else {
				end = -1
			}
			continue
		}
		if end >= 0 && t.off != end {
			return bad("starts at %d, but the token before ended at %d", t.off, end)
		}
		if t.off > len(s) {
			return bad("outside the source")
		}
		special := func(c byte) bool {
			return strings.IndexByte("${},~\\ \t\r\n", c) >= 0 || c == '"' && q == '"' && depth == 0
		}
		want := token.Illegal
		e := -1
		switch {
		case t.off == len(s):
			want, q = token.EOF, 0
		case s[t.off] == '$':
			if e = mathEnd(s, t.off+1); e >= 0 {
				want = token.StringMath
				if t.lit != s[t.off+1:e] {
					return bad("the math there is %q", s[t.off+1:e])
				}
				e++
			}
		case s[t.off] == '\\':
			if t.off+1 < len(s) && strings.IndexByte("\\$&%{}_", s[t.off+1]) >= 0 {
				want, e = token.StringBackslash, t.off+2
				if t.lit != s[t.off:e] {
					return bad("the source there is %q", s[t.off:e])
				}
			} else {
				want = t.tok
				if t.tok != token.StringAccent && t.tok != token.StringMacro && t.tok != token.Illegal {
					return bad("the source there is a backslash")
				}
			}
		case s[t.off] == '{':
			want, e = token.StringLBrace, t.off+1
			depth++
		case s[t.off] == '}':
			want, e = token.StringRBrace, t.off+1
			if q == '}' && depth == 0 {
				q = 0
			} else {
				depth--
			}
		case s[t.off] == ',':
			want, e = token.StringComma, t.off+1
		case s[t.off] == '~':
			want, e = token.StringNBSP, t.off+1
		case isBlank(s[t.off]):
			want, e = token.StringSpace, run(s, t.off, isBlank)
		case special(s[t.off]): // the closing quote
			want, e = token.DoubleQuote, t.off+1
			q = 0
		default:
			want, e = token.StringContents, run(s, t.off, func(c byte) bool { return !special(c) })
			if t.lit != s[t.off:e] {
				return bad("the source there is %q", s[t.off:e])
			}
		}
		if (want == token.StringComma || want == token.StringNBSP) && t.lit != s[t.off:e] {
			return bad("the source there is %q", s[t.off:e])
		}
		if t.tok != want {
			return bad("the source there is a %s", want)
		}
		end = e
	}
	return ""
}

func scanErrors(r *scan) string {
	if r.last < 0 {
		return "the error count differs from the number of calls of the error handler"
	}
	errs := r.first
	for i, t := range r.toks {
		if t.tok == token.Illegal && t.errs == errs && !(t.errs > 0 && t.off < len(r.src) && strings.HasPrefix(r.src[t.off:], "\ufeff")) {
			return fmt.Sprintf("illegal token %d at %d without an error", i, t.off)
		}
		if t.tok == token.EOF && t.in && t.errs == errs {
			return "end of file in a string without an error"
		}
		errs = t.errs
	}
	n := 0
	for i := 0; i < len(r.src); {
		c, w := utf8.DecodeRuneInString(r.src[i:])
		if c == 0 || c == utf8.RuneError && w == 1 || c == 0xfeff && i > 0 {
			n++
		}
		i += w
	}
	if errs < n {
		return fmt.Sprintf("%d bad characters, %d errors", n, errs)
	}
	if r.mode&scanner.ScanStrings != 0 {
		return ""
	}
	return ""
}

var histSrcs = []string{"={a", "=\"a", "=\"{a", "={a{b{c", "=", "@a{", "\x00\xff", "=\"$x", "(", "#", "={a}}", "", "%x", "=\"a\" {"}

func history(r *scan) string {
	prev := token.Illegal
	for i, t := range r.toks {
		if t.in {
			continue
		}
		if t.off < len(r.src) && r.src[t.off] == '{' {
			opens := prev == token.Assign || prev == token.Concat || prev == token.LBrace || prev == token.LParen
			if (t.tok == token.LBrace) == opens {
				return fmt.Sprintf("token %d: %s after %s (comments apart)", i, t.tok, prev)
			}
		}
		if t.tok != token.TexComment {
			prev = t.tok
		}
	}
	if len(r.src) > 200 {
		return ""
	}
	for _, h := range histSrcs {
		for _, n := range []int{1, 2, 3, 5} {
			for _, hm := range []scanner.Mode{0, 2} {
				s := &scanner.Scanner{}
				scanInto(s, h, hm, n, nil)
				q := scanAll(r.src, r.mode, s)
				var a, b bytes.Buffer
				fmt.Fprint(&a, r.toks, r.first)
				fmt.Fprint(&b, q.toks, q.first)
				if a.String() != b.String() {
					return fmt.Sprintf("after %d tokens of %q (mode %d): %s, with a new scanner %s", n, h, hm, b.String(), a.String())
				}
			}
		}
	}
	return ""
}
