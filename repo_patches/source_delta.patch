From 12d56e483b699e6c08ef03487bbf5804e56b3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 01/25] fix: don't panic on an unterminated string literal at
 end of input

---
 scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index f321e28..b41df15 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -225,7 +225,7 @@ func (s *Scanner) scanString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in double quotes not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '"' {
@@ -254,7 +254,7 @@ func (s *Scanner) scanBraceString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '}' {
-- 
2.43.0


From 53573fb4e9ed3c49f2f8879cd94359a44d34b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 02/25] fix: don't skip the character after a nested brace in a
 brace string

---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index b41df15..f49117c 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -261,7 +261,6 @@ func (s *Scanner) scanBraceString() string {
 			break
 		}
 		if ch == '{' {
-			s.next()
 			s.scanBraceString()
 		}
 	}
-- 
2.43.0


From d50a8779f85e7c2b1e301aab05315defa95946f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 03/25] fix: check and keep the first character of a command
 name

---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index f49117c..2ddd5e0 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -198,7 +198,6 @@ func IsName(ch rune) bool {
 
 func (s *Scanner) scanCommand() string {
 	offs := s.offset - 1 // Already consumed @
-	s.next()
 	if !isLetter(s.ch) {
 		s.error(s.offset, "expected letter after @ for a command")
 	}
-- 
2.43.0


From 318b8d0b4c1d0cd79df5c8e1bba4febef5985e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 04/25] fix: require a letter after an accent followed by
 spaces

---
 scanner/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 2ddd5e0..5f489e8 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -363,6 +363,10 @@ func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 		for s.ch == ' ' {
 			s.next()
 		}
+		if !IsAsciiLetter(s.ch) {
+			s.errorf(offs, "expected ascii letter after accent sequence %q , got %q", tokStr, s.ch)
+			return token.Illegal, ""
+		}
 		// append accented char, e.g. 'c'
 		tokStr += string(s.src[s.offset])
 		s.next() // consume the letter that's accented
-- 
2.43.0


From 30458bcf0fc0b297f18d41bfb3656a6fa74eff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 05/25] fix: terminate on strings that are still open at end of
 input

The scanner never returned EOF inside a string, so the parser looped forever
on an unterminated string with ParseStrings.
---
 parser/parser.go   | 6 +++++-
 scanner/scanner.go | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 28a5804..c594919 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -401,7 +401,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	p.expect(token.StringLBrace)
 	sb := strings.Builder{}
 	sb.Grow(32)
-	for p.tok != token.StringRBrace && p.tok != token.StringSpace {
+	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
 		sb.WriteString(p.lit)
 		p.next()
 	}
@@ -452,6 +452,10 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 
 		values := make([]ast.Expr, 0, 2)
 		for p.tok != token.StringRBrace {
+			if p.tok == token.EOF {
+				p.errorExpected(p.pos, "'"+token.StringRBrace.String()+"'")
+				return &ast.BadExpr{From: opener, To: p.pos}
+			}
 			text := p.parseText(depth + 1)
 			if _, ok := text.(*ast.BadExpr); ok {
 				p.next()
diff --git a/scanner/scanner.go b/scanner/scanner.go
index 5f489e8..8c319df 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -451,6 +451,10 @@ func (s *Scanner) scanInString() (pos gotok.Pos, tok token.Token, lit string) {
 	case '~':
 		tok = token.StringNBSP
 		lit = "~"
+	case eof:
+		s.error(s.file.Offset(pos), "string literal not terminated")
+		s.endQuoteCh = 0
+		tok = token.EOF
 	default:
 		// next reports unexpected BOMs - don't repeat
 		if ch != bom {
-- 
2.43.0


From 0c82debc1c1a24ad5cb2ebf4fb159daa7fb1dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:47 +0000
Subject: [PATCH 06/25] fix: don't put nil expressions into the AST for
 unexpected text tokens

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index c594919..ac83b34 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -475,6 +475,7 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 		return p.parseStringAccent()
 	default:
 		p.error(p.pos, "unknown text type: "+p.tok.String())
+		txt = &ast.BadExpr{From: p.pos, To: p.pos}
 	}
 
 	p.next()
-- 
2.43.0


From 26ed1697f3f41f708e65acf7d87da9d79332e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 07/25] fix: reset the string state in Scanner.Init

---
 scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 8c319df..685c902 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -138,6 +138,9 @@ func (s *Scanner) Init(file *gotok.File, src []byte, err ErrorHandler, mode Mode
 	s.offset = 0
 	s.rdOffset = 0
 	s.lineOffset = 0
+	s.prev = token.Illegal
+	s.endQuoteCh = 0
+	s.braceDepth = 0
 	s.ErrorCount = 0
 
 	s.next()
-- 
2.43.0


From fbea866a5e954d1d7819bf414590baf290b46496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 08/25] fix: ignore comments when deciding if a brace begins a
 string

---
 scanner/scanner.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 685c902..8b0c2ca 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -572,6 +572,9 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 		}
 	}
 
-	s.prev = tok
+	// A comment doesn't change the meaning of a brace that follows it.
+	if tok != token.TexComment {
+		s.prev = tok
+	}
 	return
 }
-- 
2.43.0


From 44602ad66eb508513af4732333007b90a2e689f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:49 +0000
Subject: [PATCH 09/25] fix: scan a brace after '#' and '(' as a brace string

---
 scanner/scanner.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 8b0c2ca..a93d6e9 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -536,10 +536,11 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 			}
 		case '{':
 			// Use a heuristic to determine whether this brace is for declaration or
-			// a brace string. If preceded by '=', it's a string for a tag. If
-			// preceded by an LBrace, it's a value in a block like:
+			// a brace string. If preceded by '=' or '#', it's a string for a tag. If
+			// preceded by an LBrace or an LParen, it's a value in a block like:
 			//   @preamble { {foo} }
-			if s.prev == token.Assign || s.prev == token.LBrace {
+			if s.prev == token.Assign || s.prev == token.Concat ||
+				s.prev == token.LBrace || s.prev == token.LParen {
 				if s.mode&ScanStrings != 0 {
 					s.endQuoteCh = '}'
 					tok = token.StringLBrace
-- 
2.43.0


From f13839d6f28f36d901998f4b5c486bdb3c75a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 10/25] fix: parse concatenations of parsed strings

---
 parser/parser.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ac83b34..8574869 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -575,20 +575,10 @@ func (p *parser) parseExpr() (x ast.Expr) {
 	pos := p.pos
 	switch {
 	case p.tok.IsLiteral():
-		x = p.parseBasicLit()
-		if p.tok == token.Concat {
-			p.next()
-			opPos := p.pos
-			y := p.parseExpr()
-			x = &ast.ConcatExpr{
-				X:     x,
-				OpPos: opPos,
-				Y:     y,
-			}
-		}
+		x = p.parseConcat(p.parseBasicLit())
 
 	case p.tok.IsStringLiteral():
-		x = p.parseStringLiteral()
+		x = p.parseConcat(p.parseStringLiteral())
 
 	default:
 		p.errorExpected(p.pos, "literal: number or string")
@@ -601,6 +591,21 @@ func (p *parser) parseExpr() (x ast.Expr) {
 	return
 }
 
+// parseConcat parses the rest of a concatenation that begins with x, if any.
+func (p *parser) parseConcat(x ast.Expr) ast.Expr {
+	if p.tok != token.Concat {
+		return x
+	}
+	opPos := p.pos
+	p.next()
+	y := p.parseExpr()
+	return &ast.ConcatExpr{
+		X:     x,
+		OpPos: opPos,
+		Y:     y,
+	}
+}
+
 func (p *parser) parseIdent() *ast.Ident {
 	pos := p.pos
 	name := "_"
-- 
2.43.0


From c0f4035b8a426853ce96218053194013580f3f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 11/25] fix: treat url tags the same regardless of case and
 allow concatenation

---
 parser/parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8574869..4cbe4ad 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -770,16 +770,17 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 			}
 			p.next()
 			var val ast.Expr
-			if key.Name == "url" && p.tok.IsStringLiteral() {
-				val = p.parseURLStringLiteral()
+			name := strings.ToLower(key.Name)
+			if name == "url" && p.tok.IsStringLiteral() {
+				val = p.parseConcat(p.parseURLStringLiteral())
 			} else {
 				val = p.parseExpr()
 			}
-			fixVal := fixUpFields(key.Name, val)
+			fixVal := fixUpFields(name, val)
 			tag := &ast.TagStmt{
 				Doc:     doc,
 				NamePos: key.Pos(),
-				Name:    strings.ToLower(key.Name),
+				Name:    name,
 				RawName: key.Name,
 				Value:   fixVal,
 			}
-- 
2.43.0


From 8fd3102463af1db6f9864c80a69b3b4144a688ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 12/25] fix: record every cite key and no tag names as keys of
 an entry

A tag name followed by a comma was recorded as a cite key and a cite key
without a trailing comma, like @article{foo}, was dropped.
---
 parser/parser.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4cbe4ad..d5db6cc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -786,21 +786,14 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 			}
 			tags = append(tags, tag)
 		default:
-			// Keep going.
-		}
-		switch p.tok {
-		case token.Comma:
 			// It's a cite key.
-			p.next()
 			if bibKey == nil {
 				bibKey = key
 			} else {
 				extraKeys = append(extraKeys, key)
 			}
-			continue
-		default:
-			// Keep going.
 		}
+		p.expectOptional(token.Comma)
 	}
 	closer := p.expectCloser(opener)
 	p.expectOptional(token.Comma) // trailing commas allowed
-- 
2.43.0


From e162ca44c8395ec6cb09fef2642a9a8d0900e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 13/25] fix: don't panic when resolving an entry without a cite
 key

---
 bibtex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bibtex.go b/bibtex.go
index b765e6a..3fe4700 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -174,10 +174,12 @@ func (b *Biber) Resolve(node ast.Node) ([]Entry, error) {
 
 func (b *Biber) resolveEntry(decl *ast.BibDecl) Entry {
 	entry := Entry{
-		Key:  decl.Key.Name,
 		Type: decl.Type,
 		Tags: make(map[Field]ast.Expr, 4),
 	}
+	if decl.Key != nil {
+		entry.Key = decl.Key.Name
+	}
 	for _, tag := range decl.Tags {
 		entry.Tags[tag.Name] = tag.Value
 	}
-- 
2.43.0


From 4790124f5d3d7aca992e02bb5cbf6a32433c7795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 14/25] fix: don't panic in ParseExpr on expressions with many
 errors

---
 parser/interface.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/parser/interface.go b/parser/interface.go
index 02ef814..f657783 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -107,20 +107,30 @@ func ParseFile(fset *gotok.FileSet, filename string, src interface{}, mode Mode)
 	return
 }
 
-func ParseExpr(str string) (ast.Expr, error) {
+func ParseExpr(str string) (expr ast.Expr, err error) {
 	fset := gotok.NewFileSet()
 	// use '=' to trick parser into treating '{' as a string
 	src := []byte("=" + str)
 	var p parser
+	defer func() {
+		if e := recover(); e != nil {
+			// resume same panic if it's not a bailout
+			if _, ok := e.(bailout); !ok {
+				panic(e)
+			}
+		}
+
+		p.errors.Sort()
+		err = p.errors.Err()
+		if err != nil {
+			expr = nil
+		}
+	}()
+
 	p.init(fset, "", src, ParseStrings)
 	p.next() // consume the '='
-	expr := p.parseExpr()
-	p.errors.Sort()
-	err := p.errors.Err()
-	if err != nil {
-		return nil, err
-	}
-	return expr, nil
+	expr = p.parseExpr()
+	return
 }
 
 // ParsePackage calls ParseFile for all files specified by paths.
-- 
2.43.0


From 2fc2cff0181cf549e96d08c04b3cd99470056e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 15/25] fix: report text after the expression in ParseExpr

---
 parser/interface.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/interface.go b/parser/interface.go
index f657783..843cf02 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -9,6 +9,7 @@ import (
 	"os"
 
 	"github.com/jschaf/bibtex/ast"
+	"github.com/jschaf/bibtex/token"
 )
 
 // If src != nil, readSource converts src to a []byte if possible;
@@ -130,6 +131,7 @@ func ParseExpr(str string) (expr ast.Expr, err error) {
 	p.init(fset, "", src, ParseStrings)
 	p.next() // consume the '='
 	expr = p.parseExpr()
+	p.expect(token.EOF)
 	return
 }
 
-- 
2.43.0


From 5a764432c4f0ccd68fd2b45e323402b33390350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 16/25] fix: don't panic on the first valid file in
 ParsePackage

---
 parser/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/interface.go b/parser/interface.go
index 843cf02..112297c 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -143,7 +143,7 @@ func ParseExpr(str string) (expr ast.Expr, err error) {
 // encountered are returned.
 func ParsePackage(paths []string, mode Mode) (pkg *ast.Package, first error) {
 	fset := gotok.NewFileSet()
-	pkg = &ast.Package{}
+	pkg = &ast.Package{Files: make(map[string]*ast.File, len(paths))}
 	for _, filename := range paths {
 		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
 			pkg.Files[filename] = src
-- 
2.43.0


From 97b1be37d928f039135ca4920b79d93e5c96caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 17/25] fix: record the positions of closers, accents and urls
 instead of the next token

---
 parser/parser.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d5db6cc..f38a671 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -399,6 +399,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	urlCmd := &ast.TextMacro{Cmd: p.pos, Name: name}
 	p.next()
 	p.expect(token.StringLBrace)
+	valuePos := p.pos
 	sb := strings.Builder{}
 	sb.Grow(32)
 	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
@@ -406,7 +407,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
-		&ast.Text{ValuePos: p.pos, Value: sb.String()},
+		&ast.Text{ValuePos: valuePos, Value: sb.String()},
 	}
 	if p.tok == token.StringSpace {
 		p.next()
@@ -463,13 +464,14 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 			}
 			values = append(values, text)
 		}
+		closer := p.pos
 		p.next() // consume closing '}'
 		return &ast.ParsedText{
 			Depth:  depth,
 			Opener: opener,
 			Delim:  ast.BraceDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 	case token.StringAccent:
 		return p.parseStringAccent()
@@ -495,13 +497,14 @@ func (p *parser) parseStringLiteral() ast.Expr {
 			}
 			values = append(values, p.parseText(1))
 		}
+		closer := p.pos
 		p.next() // consume closing '"'
 		txt := &ast.ParsedText{
 			Opener: pos,
 			Depth:  0,
 			Delim:  ast.QuoteDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 		return txt
 
@@ -529,13 +532,13 @@ func (p *parser) parseURLStringLiteral() ast.Expr {
 		if p.tok == token.StringMacro {
 			url := p.parseMacroURL(p.lit)
 			p.expect(token.StringRBrace)
-			p.expect(token.DoubleQuote)
+			closer := p.expect(token.DoubleQuote)
 			return &ast.ParsedText{
 				Opener: pos,
 				Depth:  0,
 				Delim:  ast.QuoteDelimiter,
 				Values: []ast.Expr{url},
-				Closer: p.pos,
+				Closer: closer,
 			}
 		}
 
@@ -640,25 +643,27 @@ func (p *parser) parseTagStmt() *ast.TagStmt {
 }
 
 func (p *parser) parseStringAccent() ast.Expr {
-	lit := p.lit
+	pos, lit := p.pos, p.lit
 	p.next()
 	if len(lit) <= 2 {
-		p.error(p.pos, "invalid accent string")
-		return &ast.BadExpr{From: p.pos, To: p.pos}
+		p.error(pos, "invalid accent string")
+		return &ast.BadExpr{From: pos, To: p.pos}
 	}
 	if lit[0] != '\\' {
-		p.error(p.pos, "invalid accent string (missing leading '\\')")
-		return &ast.BadExpr{From: p.pos, To: p.pos}
+		p.error(pos, "invalid accent string (missing leading '\\')")
+		return &ast.BadExpr{From: pos, To: p.pos}
 	}
 	value := lit[2:]
+	valuePos := pos + 2
 	if value[0] == '{' && value[len(value)-1] == '}' {
 		value = value[1 : len(value)-1]
+		valuePos++
 	}
 	return &ast.TextAccent{
-		ValuePos: p.pos,
+		ValuePos: pos,
 		Accent:   token.Accent(lit[1]),
 		Text: &ast.Text{
-			ValuePos: p.pos + 2,
+			ValuePos: valuePos,
 			Value:    value,
 		},
 	}
-- 
2.43.0


From 75be44d9bac6285d35a405361fe29aeb5c7e38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:08 +0000
Subject: [PATCH 18/25] fix: don't panic in ParseStringExpr on a single dollar
 sign

---
 asts/asts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asts/asts.go b/asts/asts.go
index 6787a2c..8ac97e9 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -66,7 +66,7 @@ func ParseStringExpr(depth int, s string) ast.Expr {
 	switch {
 	case strings.TrimSpace(s) == "":
 		return Space()
-	case strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
+	case len(s) >= 2 && strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
 		bs := []byte(s)
 		return Math(string(bs[1 : len(bs)-1]))
 	case s == "~":
-- 
2.43.0


From ba42a79539f39321f41a25e543e9f21aef8f2043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 19/25] fix: walk the tag of an abbreviation and the value of a
 tag

---
 ast/walk.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 46756a2..239e641 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -80,6 +80,18 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 					return st, err
 				}
 			}
+		case *TagStmt:
+			if t.Value != nil {
+				if st, err := walkHelper(t.Value, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
+		case *AbbrevDecl:
+			if t.Tag != nil {
+				if st, err := walkHelper(t.Tag, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
 		case *PreambleDecl:
 			if st, err := walkHelper(t.Text, walker); st == WalkStop || err != nil {
 				return st, err
-- 
2.43.0


From 50deb75dbfedef3c5b26c23d700886e398c690b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 20/25] fix: render each leaf node once with its text

The default renderers panicked on ast.Text, wrote leaf nodes on both entering
and leaving and dropped the text of math nodes.
---
 render/render.go | 57 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/render/render.go b/render/render.go
index 3774dca..8293989 100644
--- a/render/render.go
+++ b/render/render.go
@@ -60,9 +60,14 @@ func renderBadExpr(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
 	return ast.WalkStop, fmt.Errorf("render bad expr")
 }
 
-func renderIdent(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	ident := n.(*ast.Ident)
-	_, _ = w.Write([]byte(ident.Name))
+	if _, err := w.Write([]byte(ident.Name)); err != nil {
+		return ast.WalkStop, fmt.Errorf("default renderIdent: %w", err)
+	}
 	return ast.WalkContinue, nil
 }
 
@@ -100,22 +105,42 @@ func renderParsedText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 	return ast.WalkContinue, nil
 }
 
-func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
-	txt := n.(*ast.TextSpace)
+func renderText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
+	// Accented text has the same kind as text.
+	if acc, ok := n.(*ast.TextAccent); ok {
+		r, err := RenderAccent(acc.Accent, acc.Text.Value)
+		if err != nil {
+			return ast.WalkStop, fmt.Errorf("default renderText accent: %w", err)
+		}
+		if _, err := w.Write([]byte(string(r))); err != nil {
+			return ast.WalkStop, fmt.Errorf("default renderText accent: %w", err)
+		}
+		return ast.WalkContinue, nil
+	}
+	txt := n.(*ast.Text)
 	if _, err := w.Write([]byte(txt.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderText: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextComma(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextComma(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(",")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextComma: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextEscaped(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	esc := n.(*ast.TextEscaped)
 	if _, err := w.Write([]byte(`\` + esc.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextEscaped: %w", err)
@@ -123,16 +148,20 @@ func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error)
 	return ast.WalkContinue, nil
 }
 
-func renderTextHyphen(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextHyphen(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte("-")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextHyphen: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+func renderTextMath(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
 	if entering {
-		if _, err := w.Write([]byte("$")); err != nil {
+		math := n.(*ast.TextMath)
+		if _, err := w.Write([]byte("$" + math.Value)); err != nil {
 			return ast.WalkStop, fmt.Errorf("default renderTextMath left: %w", err)
 		}
 	} else {
@@ -143,14 +172,20 @@ func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, err
 	return ast.WalkContinue, nil
 }
 
-func renderTextNBSP(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextNBSP(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(" ")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextNBSP: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextSpace(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextSpace(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	sp := n.(*ast.TextSpace)
 	if _, err := w.Write([]byte(sp.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextSpace: %w", err)
-- 
2.43.0


From 271a1dd1791e95207d4100bb4eed98f1594cf2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 21/25] fix: don't ignore the write error of a concatenation

---
 render/render.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/render/render.go b/render/render.go
index 8293989..11dc226 100644
--- a/render/render.go
+++ b/render/render.go
@@ -254,7 +254,9 @@ func (p TextRenderer) Render(w io.Writer, x ast.Expr) error {
 		if err := p.Render(w, t.X); err != nil {
 			return err
 		}
-		_, _ = w.Write([]byte{'#'})
+		if _, err := w.Write([]byte{'#'}); err != nil {
+			return err
+		}
 		if err := p.Render(w, t.Y); err != nil {
 			return err
 		}
-- 
2.43.0


From 9489951f43912d3ebed02c76be76460f7345135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:43 +0000
Subject: [PATCH 22/25] fix: keep the whole suffix of an author name

Only the first expression after the first comma was used, which is the space
in "Last, Jr, First".
---
 author.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/author.go b/author.go
index 8582785..859b57c 100644
--- a/author.go
+++ b/author.go
@@ -242,8 +242,10 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	suffix := strings.Builder{}
 	suffix.Grow(16)
 	if len(commas) > 1 {
-		val := parseDefault(0, xs[commas[0]+1:])
-		suffix.WriteString(val)
+		part3 := xs[commas[0]+1 : commas[1]]
+		for i := range part3 {
+			suffix.WriteString(parseDefault(i, part3))
+		}
 		part2 = xs[commas[1]+1:]
 	}
 
-- 
2.43.0


From fbb37d70a7e587412f3bbbde6f326eabeec02617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:43 +0000
Subject: [PATCH 23/25] fix: don't drop lowercase words of the first name after
 a comma

---
 author.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/author.go b/author.go
index 859b57c..d31d5df 100644
--- a/author.go
+++ b/author.go
@@ -253,11 +253,8 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	first := strings.Builder{}
 	first.Grow(16)
 	for ; idx2 < len(part2); idx2++ {
-		val, action := parseFirstName(idx2, part2)
-		if action == resolveNextPart {
-			break
-		}
-		first.WriteString(val)
+		// Everything after the last comma is the first name, even if lowercase.
+		first.WriteString(parseDefault(idx2, part2))
 	}
 
 	return &ast.Author{
-- 
2.43.0


From d5d220d637ce8fd85c01ceb9dc6674f2e285a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 24/25] fix: return an error instead of panicking on author
 names with macros or accents

Render the arguments of a macro like render.TextRenderer.
---
 author.go | 127 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 80 insertions(+), 47 deletions(-)

diff --git a/author.go b/author.go
index d31d5df..88002cd 100644
--- a/author.go
+++ b/author.go
@@ -23,7 +23,10 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 		switch t := v.(type) {
 		case *ast.Text:
 			if t.Value == authorSep {
-				a := extractAuthor(aExprs)
+				a, err := extractAuthor(aExprs)
+				if err != nil {
+					return nil, err
+				}
 				if a.IsEmpty() {
 					return nil, fmt.Errorf("found an empty author")
 				}
@@ -34,7 +37,10 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 		}
 		aExprs = append(aExprs, v)
 	}
-	final := extractAuthor(aExprs)
+	final, err := extractAuthor(aExprs)
+	if err != nil {
+		return nil, err
+	}
 	if final.IsEmpty() {
 		return nil, fmt.Errorf("found an empty author")
 	}
@@ -64,7 +70,7 @@ func trimSpaces(xs []ast.Expr) []ast.Expr {
 	return xs[lo:hi]
 }
 
-func extractAuthor(xs []ast.Expr) *ast.Author {
+func extractAuthor(xs []ast.Expr) (*ast.Author, error) {
 	xs = trimSpaces(xs)
 	commas := findCommas(xs)
 	if len(commas) == 0 {
@@ -81,22 +87,17 @@ const (
 	resolveNextPart
 )
 
-func parseFirstName(idx int, xs []ast.Expr) (string, resolveAction) {
+func parseFirstName(idx int, xs []ast.Expr) (string, resolveAction, error) {
 	x := xs[idx]
 	if _, ok := x.(*ast.TextSpace); ok && idx < len(xs)-1 {
 		if t, ok := xs[idx+1].(*ast.Text); ok && !hasUpperPrefix(t.Value) {
 			// lowercase after space means we're out of the first name
-			return "", resolveNextPart
+			return "", resolveNextPart, nil
 		}
 	}
 
-	if _, ok := x.(*ast.Text); !ok {
-		return parseDefault(idx, xs), resolveContinue
-	}
-
-	t := x.(*ast.Text)
-
-	return t.Value, resolveContinue
+	val, err := parseDefault(idx, xs)
+	return val, resolveContinue, err
 }
 
 func hasUpperPrefix(s string) bool {
@@ -104,61 +105,70 @@ func hasUpperPrefix(s string) bool {
 	return unicode.IsUpper(r)
 }
 
-func parsePrefixName(idx int, xs []ast.Expr) (string, resolveAction) {
-	x := xs[idx]
-	if _, ok := x.(*ast.Text); !ok {
-		return parseDefault(idx, xs), resolveContinue
-	}
-
-	t := x.(*ast.Text)
-	if hasUpperPrefix(t.Value) {
-		return "", resolveNextPart // Only lowercase goes in prefix
+func parsePrefixName(idx int, xs []ast.Expr) (string, resolveAction, error) {
+	if t, ok := xs[idx].(*ast.Text); ok && hasUpperPrefix(t.Value) {
+		return "", resolveNextPart, nil // Only lowercase goes in prefix
 	}
-	return t.Value, resolveContinue
+	val, err := parseDefault(idx, xs)
+	return val, resolveContinue, err
 }
 
-func parseLastName(idx int, xs []ast.Expr) (string, resolveAction) {
-	return parseDefault(idx, xs), resolveContinue
+func parseLastName(idx int, xs []ast.Expr) (string, resolveAction, error) {
+	val, err := parseDefault(idx, xs)
+	return val, resolveContinue, err
 }
 
 // TODO: replace with single resolver
-func parseDefault(idx int, xs []ast.Expr) string {
+func parseDefault(idx int, xs []ast.Expr) (string, error) {
 	x := xs[idx]
 	switch t := x.(type) {
 	case *ast.ParsedText:
 		sb := strings.Builder{}
 		sb.Grow(16)
 		for i := range t.Values {
-			d := parseDefault(i, t.Values)
+			d, err := parseDefault(i, t.Values)
+			if err != nil {
+				return "", err
+			}
 			sb.WriteString(d)
 		}
-		return sb.String()
+		return sb.String(), nil
+	case *ast.TextMacro:
+		sb := strings.Builder{}
+		for i := range t.Values {
+			d, err := parseDefault(i, t.Values)
+			if err != nil {
+				return "", err
+			}
+			sb.WriteString(d)
+		}
+		return sb.String(), nil
 	case *ast.TextComma:
-		return ","
+		return ",", nil
 	case *ast.TextEscaped:
-		return `\` + t.Value
+		return `\` + t.Value, nil
 	case *ast.TextHyphen:
-		return "-"
+		return "-", nil
 	case *ast.TextNBSP, *ast.TextSpace:
-		return " "
+		return " ", nil
 	case *ast.TextMath:
-		return "$" + t.Value + "$"
+		return "$" + t.Value + "$", nil
 	case *ast.Text:
-		return t.Value
+		return t.Value, nil
 	case *ast.TextAccent:
 		r, err := render.RenderAccent(t.Accent, t.Text.Value)
 		if err != nil {
-			panic("cannot render accent")
+			return "", fmt.Errorf("author name: %w", err)
 		}
-		return string(r)
+		return string(r), nil
 	default:
-		panic("unhandled ast.Expr value")
+		return "", fmt.Errorf("author name: unhandled ast.Expr type %T", x)
 	}
 }
 
 // resolveAuthor0 resolves an author for an entry with no commas, like
 // "First von Last".
-func resolveAuthor0(xs []ast.Expr) *ast.Author {
+func resolveAuthor0(xs []ast.Expr) (*ast.Author, error) {
 	first := strings.Builder{}
 	first.Grow(16)
 	idx := 0
@@ -167,7 +177,10 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 			// If we're on the last part, it belongs to the last name.
 			break
 		}
-		val, action := parseFirstName(idx, xs)
+		val, action, err := parseFirstName(idx, xs)
+		if err != nil {
+			return nil, err
+		}
 		if action == resolveNextPart {
 			break
 		}
@@ -180,7 +193,10 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 			// If we're on the last part, it belongs to the last name.
 			break
 		}
-		val, action := parsePrefixName(idx, xs)
+		val, action, err := parsePrefixName(idx, xs)
+		if err != nil {
+			return nil, err
+		}
 		if action == resolveNextPart {
 			break
 		}
@@ -190,7 +206,10 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 	last := strings.Builder{}
 	last.Grow(16)
 	for ; idx < len(xs); idx++ {
-		val, action := parseLastName(idx, xs)
+		val, action, err := parseLastName(idx, xs)
+		if err != nil {
+			return nil, err
+		}
 		if action == resolveNextPart {
 			break
 		}
@@ -202,7 +221,7 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 		Prefix: &ast.Text{Value: strings.TrimSpace(prefix.String())},
 		Last:   &ast.Text{Value: strings.TrimSpace(last.String())},
 		Suffix: &ast.Text{Value: ""},
-	}
+	}, nil
 }
 
 // resolveAuthorN resolves an author entry that contains 1 or more commas.
@@ -211,7 +230,7 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 //	1 comma:  von last, first         => Author(first, von, last, "")
 //	2 commas: last, suffix, first     => Author{first, "",  last, suffix}
 //	2 commas: von last, suffix, first => Author{first, von, last, suffix}
-func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
+func resolveAuthorN(xs []ast.Expr, commas []int) (*ast.Author, error) {
 	part1 := xs[:commas[0]]
 	idx1 := 0
 	prefix := strings.Builder{}
@@ -220,7 +239,10 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 			// If we're on the last part, it belongs to the last name.
 			break
 		}
-		val, action := parsePrefixName(idx1, part1)
+		val, action, err := parsePrefixName(idx1, part1)
+		if err != nil {
+			return nil, err
+		}
 		if action == resolveNextPart {
 			break
 		}
@@ -230,7 +252,10 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	last := strings.Builder{}
 	last.Grow(16)
 	for ; idx1 < len(part1); idx1++ {
-		val, action := parseLastName(idx1, part1)
+		val, action, err := parseLastName(idx1, part1)
+		if err != nil {
+			return nil, err
+		}
 		if action == resolveNextPart {
 			break
 		}
@@ -244,7 +269,11 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	if len(commas) > 1 {
 		part3 := xs[commas[0]+1 : commas[1]]
 		for i := range part3 {
-			suffix.WriteString(parseDefault(i, part3))
+			val, err := parseDefault(i, part3)
+			if err != nil {
+				return nil, err
+			}
+			suffix.WriteString(val)
 		}
 		part2 = xs[commas[1]+1:]
 	}
@@ -254,7 +283,11 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	first.Grow(16)
 	for ; idx2 < len(part2); idx2++ {
 		// Everything after the last comma is the first name, even if lowercase.
-		first.WriteString(parseDefault(idx2, part2))
+		val, err := parseDefault(idx2, part2)
+		if err != nil {
+			return nil, err
+		}
+		first.WriteString(val)
 	}
 
 	return &ast.Author{
@@ -262,7 +295,7 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 		Prefix: &ast.Text{Value: strings.TrimSpace(prefix.String())},
 		Last:   &ast.Text{Value: strings.TrimSpace(last.String())},
 		Suffix: &ast.Text{Value: strings.TrimSpace(suffix.String())},
-	}
+	}, nil
 }
 
 // findCommas returns the offsets of all commas in xs. Only searches
-- 
2.43.0


From 59480ee90ce3df5cb1520521cb5b110c3529374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:10 +0000
Subject: [PATCH 25/25] fix: WithRenderer with a nil function removes the
 renderer

A nil NodeRendererFunc in the NodeRenderer interface is not nil, so Render
called it and panicked instead of reporting the missing renderer.
---
 bibtex.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bibtex.go b/bibtex.go
index 3fe4700..cbae4c5 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -103,9 +103,13 @@ func WithResolvers(rs ...Resolver) Option {
 }
 
 // WithRenderer sets the renderer for the node kind, replacing the previous
-// renderer.
+// renderer. A nil renderer removes the previous renderer.
 func WithRenderer(kind ast.NodeKind, r render.NodeRendererFunc) Option {
 	return func(b *Biber) {
+		if r == nil {
+			b.renderers[kind] = nil // a nil func in an interface is not nil
+			return
+		}
 		b.renderers[kind] = r
 	}
 }
-- 
2.43.0

