package main

import (
	"fmt"
	"unicode/utf8"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/token"
)

func init() {
	oracles["C21"] = checkAccents
	oracles["C24"] = checkTokens
	oracles["C25"] = checkScopes
}

var accents = map[string]string{
	"`": "aàeèiìoòuùAÀEÈIÌOÒUÙ", "'": "aáeéiíoóuúyýAÁEÉIÍOÓUÚYÝ", "^": "aâeêiîoôuûAÂEÊIÎOÔUÛ",
	"\"": "aäeëiïoöuüAÄEËIÏOÖUÜ", "~": "aãnñoõAÃNÑOÕ", "c": "cçCÇ", ".": "cċeėgġiızżCĊEĖGĠIİZŻ",
}

func accentOracle(a rune, text string) rune {
	rs := []rune(accents[string(a)])
	for i := 0; i+1 < len(rs); i += 2 {
		if text == string(rs[i]) {
			return rs[i+1]
		}
	}
	return 0
}

func checkAccents(g *gen) {
	texts := []string{"", "ab", "aa", "é", "\xff", "\x00", "  "}
	for c := 0; c < 256; c++ {
		texts = append(texts, string([]byte{byte(c)}))
	}
	as := []rune{0, -1, 0x10ffff, 0xd800, 0x110000, 1 << 30}
	for a := rune(1); a < 0x300; a++ {
		as = append(as, a)
	}
	for _, a := range as {
		for _, t := range texts {
			g.try(fmt.Sprintf("RenderAccent(%q, %q)", a, t), func() string {
				r, err := render.RenderAccent(token.Accent(a), t)
				want := accentOracle(a, t)
				if a == 0 || len(t) != 1 {
					want = 0
				}
				if (err == nil) != (want != 0) || r != want {
					return fmt.Sprintf("got %q, %v, want %q", r, err, want)
				}
				return ""
			})
		}
	}
	for g.more() && g.cases < 2e6 {
		a := rune(g.Intn(0x110000))
		b := []byte{byte(g.Intn(256))}
		if g.Intn(3) == 0 {
			b = utf8.AppendRune(nil, rune(g.Intn(0x3000)))
		}
		g.try(fmt.Sprintf("RenderAccent(%q, %q)", a, b), func() string {
			r, err := render.RenderAccent(token.Accent(a), string(b))
			want := accentOracle(a, string(b))
			if (err == nil) != (want != 0) || r != want {
				return fmt.Sprintf("got %q, %v, want %q", r, err, want)
			}
			return ""
		})
	}
}

func checkTokens(g *gen) {
	type class struct {
		name string
		in   []token.Token
		f    func(token.Token) bool
	}
	classes := []class{
		{"literal", []token.Token{token.Ident, token.String, token.BraceString, token.Number}, token.Token.IsLiteral},
		{"string literal", []token.Token{token.DoubleQuote, token.StringLBrace, token.StringRBrace, token.StringSpace, token.StringNBSP, token.StringContents, token.StringHyphen, token.StringMath, token.StringComma, token.StringBackslash, token.StringAccent, token.StringMacro}, token.Token.IsStringLiteral},
		{"operator", []token.Token{token.Assign, token.LParen, token.LBrace, token.RParen, token.RBrace, token.Concat, token.Comma}, token.Token.IsOperator},
		{"command", []token.Token{token.Abbrev, token.Comment, token.Preamble, token.BibEntry}, token.Token.IsCommand},
	}
	names := map[string]token.Token{}
	defined := map[token.Token]bool{token.Illegal: true, token.EOF: true, token.TexComment: true}
	for _, c := range classes {
		for _, t := range c.in {
			defined[t] = true
		}
	}
	for i := -300; i < 600; i++ {
		t := token.Token(i)
		g.try(fmt.Sprintf("token %d", i), func() string {
			for _, c := range classes {
				in := false
				for _, x := range c.in {
					in = in || x == t
				}
				if c.f(t) != in {
					return fmt.Sprintf("%s: %v, want %v", c.name, c.f(t), in)
				}
			}
			n := t.String()
			if n == "" {
				return "empty name"
			}
			if defined[t] {
				if o, ok := names[n]; ok {
					return fmt.Sprintf("name %q is also the name of token %d", n, o)
				}
				names[n] = t
			}
			return ""
		})
	}
	for _, i := range []int{1 << 62, -1 << 62, 1 << 31} {
		g.try(fmt.Sprintf("token %d", i), func() string {
			if token.Token(i).String() == "" {
				return "empty name"
			}
			return ""
		})
	}
}

func checkScopes(g *gen) {
	for g.more() && g.cases < 300000 {
		outer := ast.NewScope(nil)
		outer.Insert(ast.NewObj(ast.Entry, "a"))
		s := ast.NewScope(outer)
		desc := "NewScope;"
		model := map[string]*ast.Object{}
		names := []string{"a", "b", "A", "", "ab"}
		if s.Outer != outer {
			g.fail(desc, "Outer is not the given scope")
		}
		for i := 0; i < 8; i++ {
			n := names[g.Intn(len(names))]
			o := &ast.Object{Kind: ast.ObjKind(g.Intn(3)), Name: n}
			desc += fmt.Sprintf("Insert(%q %d);", n, o.Kind)
			g.try(desc, func() string {
				alt := s.Insert(o)
				if alt != model[n] {
					return fmt.Sprintf("returned %v, want %v", alt, model[n])
				}
				if model[n] == nil {
					model[n] = o
				}
				if o.Name != n {
					return "renamed the object"
				}
				for _, m := range names {
					if s.Lookup(m) != model[m] {
						return fmt.Sprintf("Lookup(%q) = %v, want %v", m, s.Lookup(m), model[m])
					}
				}
				if len(s.Objects) != len(model) || len(outer.Objects) != 1 {
					return "wrong number of objects"
				}
				return ""
			})
		}
	}
}
