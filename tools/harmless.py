#!/usr/bin/env python3
"""Edits that change no behaviour, to see that the checks stay quiet.
   harmless.py NAME DIR : copies /repo to DIR and applies the edit."""
import re, shutil, subprocess, sys
P, S, A, R, B, W, N, X = ("parser/parser.go", "scanner/scanner.go", "author.go", "resolver.go",
                    "bibtex.go", "ast/walk.go", "render/render.go", "asts/asts.go")
I = "parser/interface.go"
def fn(name):
    """a regexp for the text of a function"""
    return re.compile(r"^func (\([^)]*\) )?%s\(.*?^}\n" % re.escape(name), re.S | re.M)
class Tree:
    def __init__(self, d): self.d = d
    def sub(self, f, old, new, n=1):
        t = open(f"{self.d}/{f}").read()
        assert t.count(old) >= 1, (f, old)
        open(f"{self.d}/{f}", "w").write(t.replace(old, new, n))
    def ren(self, f, func, **names):
        """rename locals of a function"""
        t = open(f"{self.d}/{f}").read()
        m = fn(func).search(t); assert m, func
        b = m.group(0)
        for o, w in names.items():
            b, k = re.subn(r"(?<![\w.\"'])%s(?![\w\"':])" % o, w, b); assert k, (func, o)
        open(f"{self.d}/{f}", "w").write(t[:m.start()] + b + t[m.end():])
    def body(self, f, func, new):
        t = open(f"{self.d}/{f}").read()
        m = fn(func).search(t); assert m, func
        open(f"{self.d}/{f}", "w").write(t[:m.start()] + new.strip("\n") + "\n" + t[m.end():])

def p_rename(t):
    t.ren(P, "parseBibDecl", bibKey="first", extraKeys="others", tags="fields", entryType="typ", opener="op")
    t.ren(P, "parseFile", decls="entries")
    t.ren(P, "consumeCommentGroup", list="items", comment="c", comments="group")
    t.ren(P, "parseMacroURL", urlCmd="macro", valuePos="start")
    t.ren(P, "parseText", values="parts", opener="open")
    t.ren(P, "parseStringLiteral", values="parts")
    t.ren(P, "next", comment="group", endLine="last")

def p_extract_tag(t):
    t.sub(P, '''			if !isValidTagName(key) {
				p.error(key.Pos(), "tag keys must not start with a number")
			}
			p.next()
			var val ast.Expr
			name := strings.ToLower(key.Name)
			if name == "url" && p.tok.IsStringLiteral() {
				val = p.parseConcat(p.parseURLStringLiteral())
			} else {
				val = p.parseExpr()
			}
			fixVal := fixUpFields(name, val)
			tag := &ast.TagStmt{
				Doc:     doc,
				NamePos: key.Pos(),
				Name:    name,
				RawName: key.Name,
				Value:   fixVal,
			}
			tags = append(tags, tag)
''', '''			tags = append(tags, p.parseBibTag(doc, key))
''')
    t.sub(P, "func (p *parser) parseBibDecl()", '''func (p *parser) parseBibTag(doc *ast.TexCommentGroup, key *ast.Ident) *ast.TagStmt {
	if !isValidTagName(key) {
		p.error(key.Pos(), "tag keys must not start with a number")
	}
	p.next()
	var val ast.Expr
	name := strings.ToLower(key.Name)
	if name == "url" && p.tok.IsStringLiteral() {
		val = p.parseConcat(p.parseURLStringLiteral())
	} else {
		val = p.parseExpr()
	}
	return &ast.TagStmt{
		Doc:     doc,
		NamePos: key.Pos(),
		Name:    name,
		RawName: key.Name,
		Value:   fixUpFields(name, val),
	}
}

func (p *parser) parseBibDecl()''')

def p_extract_brace(t):
    s = open(f"{t.d}/{P}").read()
    a = s.index("		opener := p.pos\n		p.next()\n\n		values")
    b = s.index("	case token.StringAccent:\n		return p.parseStringAccent()")
    blk = s[a:b]
    s = s[:a] + "		return p.parseBraceText(depth)\n" + s[b:]
    blk = "\n".join(l[1:] if l.startswith("\t") else l for l in blk.split("\n"))
    s = s.replace("func (p *parser) parseStringLiteral()", "func (p *parser) parseBraceText(depth int) ast.Expr {\n" + blk + "}\n\nfunc (p *parser) parseStringLiteral()", 1)
    open(f"{t.d}/{P}", "w").write(s)

def p_loops(t):
    t.sub(P, '''	for p.tok == token.Ident || p.tok == token.Number {
		doc := p.leadComment''', '''	for {
		if p.tok != token.Ident && p.tok != token.Number {
			break
		}
		doc := p.leadComment''')
    t.sub(P, '''	for p.tok != token.EOF && p.tok != token.Illegal {
		decls = append(decls, p.parseDecl())
	}''', '''	for {
		if p.tok == token.EOF || p.tok == token.Illegal {
			break
		}
		decl := p.parseDecl()
		decls = append(decls, decl)
	}''')
    t.sub(P, '''		for p.tok != token.DoubleQuote {
			if p.tok == token.EOF {
				p.errorExpected(p.pos, "double quote")
				return &ast.BadExpr{From: pos, To: p.pos}
			}
			values = append(values, p.parseText(1))
		}''', '''		for {
			if p.tok == token.DoubleQuote {
				break
			}
			if p.tok == token.EOF {
				p.errorExpected(p.pos, "double quote")
				return &ast.BadExpr{From: pos, To: p.pos}
			}
			text := p.parseText(1)
			values = append(values, text)
		}''')
    t.sub(P, "	var decls []ast.Decl\n", "	decls := make([]ast.Decl, 0, 16)\n")

def p_switch(t):
    t.sub(P, '''		switch p.tok {
		case token.Assign:
			// It's a tag.''', '''		if p.tok == token.Assign {
			// It's a tag.''')
    t.sub(P, '''			tags = append(tags, tag)
		default:
			// It's a cite key.
			if bibKey == nil {
				bibKey = key
			} else {
				extraKeys = append(extraKeys, key)
			}
		}''', '''			tags = append(tags, tag)
		} else if bibKey != nil {
			extraKeys = append(extraKeys, key)
		} else {
			bibKey = key
		}''')
    t.body(P, "expectOptional", '''
func (p *parser) expectOptional(tok token.Token) gotok.Pos {
	pos := p.pos
	if p.tok == tok {
		p.next() // make progress
	}
	return pos
}''')
    t.body(P, "parseConcat", '''
func (p *parser) parseConcat(x ast.Expr) ast.Expr {
	if p.tok == token.Concat {
		concat := &ast.ConcatExpr{X: x, OpPos: p.pos}
		p.next()
		concat.Y = p.parseExpr()
		return concat
	}
	return x
}''')
    t.body(P, "parseIdent", '''
func (p *parser) parseIdent() *ast.Ident {
	ident := &ast.Ident{NamePos: p.pos, Name: "_"}
	if p.tok == token.Ident || p.tok == token.Number {
		ident.Name = p.lit
		p.next()
		return ident
	}
	p.expect(token.Ident) // use expect() error handling
	return ident
}''')

def p_merge(t):
    "parsePreambleDecl and parseAbbrevDecl share a helper; expectCloser uses a table"
    t.sub(P, '''	opener, _ := p.expectOne(token.LBrace, token.LParen)
	text := p.parseExpr()''', '''	opener := p.parseOpener()
	text := p.parseExpr()''')
    t.sub(P, '''	opener, _ := p.expectOne(token.LBrace, token.LParen)
	tag := p.parseTagStmt()''', '''	opener := p.parseOpener()
	tag := p.parseTagStmt()''')
    t.sub(P, "func (p *parser) parsePreambleDecl()", '''func (p *parser) parseOpener() token.Token {
	opener, _ := p.expectOne(token.LBrace, token.LParen)
	return opener
}

func (p *parser) parsePreambleDecl()''')
    t.body(P, "expectCloser", '''
func (p *parser) expectCloser(open token.Token) gotok.Pos {
	if open == token.LBrace {
		return p.expect(token.RBrace)
	}
	if open == token.LParen {
		return p.expect(token.RParen)
	}
	end := p.pos
	p.error(end, "no closing delimiter for "+open.String())
	return end
}''')

def p_comment(t):
    t.body(P, "consumeCommentGroup", '''
func (p *parser) consumeCommentGroup(n int) (*ast.TexCommentGroup, int) {
	group := &ast.TexCommentGroup{}
	endLine := p.file.Line(p.pos)
	for {
		if p.tok != token.TexComment || p.file.Line(p.pos) > endLine+n {
			break
		}
		comment, line := p.consumeComment()
		endLine = line
		group.List = append(group.List, comment)
	}
	p.comments = append(p.comments, group)
	return group, endLine
}''')
    t.body(P, "consumeComment", '''
func (p *parser) consumeComment() (*ast.TexComment, int) {
	comment := &ast.TexComment{Start: p.pos, Text: p.lit}
	line := p.file.Line(comment.Start)
	p.next0()
	return comment, line
}''')
    t.sub(P, '''	p.leadComment = nil
	p.lineComment = nil
	prev := p.pos
	p.next0()

	if p.tok == token.TexComment {
		var''', '''	prev := p.pos
	p.lineComment, p.leadComment = nil, nil
	p.next0()
	if p.tok != token.TexComment {
		return
	}

	{
		var''')

def a_refactor(t):
    t.body(A, "trimSpaces", '''
func trimSpaces(xs []ast.Expr) []ast.Expr {
	for len(xs) > 0 {
		if _, ok := xs[0].(*ast.TextSpace); !ok {
			break
		}
		xs = xs[1:]
	}
	for len(xs) > 0 {
		if _, ok := xs[len(xs)-1].(*ast.TextSpace); !ok {
			break
		}
		xs = xs[:len(xs)-1]
	}
	return xs
}''')
    t.sub(A, '''		switch t := v.(type) {
		case *ast.Text:
			if t.Value == authorSep {
				a, err := extractAuthor(aExprs)
				if err != nil {
					return nil, err
				}
				if a.IsEmpty() {
					return nil, fmt.Errorf("found an empty author")
				}
				authors = append(authors, a)
				aExprs = aExprs[:0]
				continue
			}
		}
		aExprs = append(aExprs, v)''', '''		t, ok := v.(*ast.Text)
		if !ok || t.Value != authorSep {
			aExprs = append(aExprs, v)
			continue
		}
		a, err := extractAuthor(aExprs)
		if err != nil {
			return nil, err
		}
		if a.IsEmpty() {
			return nil, fmt.Errorf("found an empty author")
		}
		authors = append(authors, a)
		aExprs = aExprs[:0]''')

def a_helper(t):
    t.sub(A, '''	final, err := extractAuthor(aExprs)
	if err != nil {
		return nil, err
	}
	if final.IsEmpty() {
		return nil, fmt.Errorf("found an empty author")
	}
	authors = append(authors, final)''', '''	final, err := nonEmptyAuthor(aExprs)
	if err != nil {
		return nil, err
	}
	authors = append(authors, final)''')
    t.sub(A, '''				a, err := extractAuthor(aExprs)
				if err != nil {
					return nil, err
				}
				if a.IsEmpty() {
					return nil, fmt.Errorf("found an empty author")
				}''', '''				a, err := nonEmptyAuthor(aExprs)
				if err != nil {
					return nil, err
				}''')
    t.sub(A, "func trimSpaces", '''func nonEmptyAuthor(xs []ast.Expr) (*ast.Author, error) {
	a, err := extractAuthor(xs)
	if err != nil {
		return nil, err
	}
	if a.IsEmpty() {
		return nil, fmt.Errorf("found an empty author")
	}
	return a, nil
}

func trimSpaces''')
    t.sub(A, '''		for i := range part3 {
			val, err := parseDefault(i, part3)
			if err != nil {
				return nil, err
			}
			suffix.WriteString(val)
		}''', '''		s, err := renderAll(part3)
		if err != nil {
			return nil, err
		}
		suffix.WriteString(s)''')
    t.sub(A, "// findCommas returns", '''func renderAll(xs []ast.Expr) (string, error) {
	sb := strings.Builder{}
	for i := range xs {
		val, err := parseDefault(i, xs)
		if err != nil {
			return "", err
		}
		sb.WriteString(val)
	}
	return sb.String(), nil
}

// findCommas returns''')

def a_loops(t):
    s = open(f"{t.d}/{A}").read()
    s = re.sub(r"for ; (idx\d?) < len\((\w+)\); idx\d?\+\+ \{\n\t\tif idx\d? == len\(\w+\)-1 \{\n.*?\n\t\t\tbreak\n\t\t}\n", lambda m: f"for ; {m[1]} < len({m[2]})-1; {m[1]}++ {{\n", s, flags=re.S)
    s = s.replace("for i := range part3 {", "for i := 0; i < len(part3); i++ {")
    open(f"{t.d}/{A}", "w").write(s)

def w_refactor(t):
    s = open(f"{t.d}/{W}").read()
    s = s.replace('''			for _, child := range t.Values {
				if st, err := walkHelper(child, walker); st == WalkStop || err != nil {
					return st, err
				}
			}
''', '''			if st, err := walkExprs(t.Values, walker); st == WalkStop || err != nil {
				return st, err
			}
''')
    s += '''
func walkExprs(xs []Expr, walker Walker) (WalkStatus, error) {
	for _, x := range xs {
		if st, err := walkHelper(x, walker); st == WalkStop || err != nil {
			return st, err
		}
	}
	return WalkContinue, nil
}
'''
    open(f"{t.d}/{W}", "w").write(s)

def w_ifs(t):
    s = open(f"{t.d}/{W}").read()
    s = re.sub(r"if st, err := walkHelper\(([\w.]+), walker\); st == WalkStop \|\| err != nil \{", r"st, err := walkHelper(\1, walker)\n if err != nil || st == WalkStop {", s)
    s = s.replace('''			st, err := walkHelper(t.Y, walker)''', '''			st, err = walkHelper(t.Y, walker)''')
    s = s.replace('''			for _, author := range t {''', '''			for i := range t {
				author := t[i]''')
    open(f"{t.d}/{W}", "w").write(s)

def r_refactor(t):
    t.sub(R, '''		if _, ok := n.(*ast.ParsedText); !ok {
			return ast.WalkContinue, nil
		}
		txt := n.(*ast.ParsedText)
		for i, val := range txt.Values {
			if esc, ok := val.(*ast.TextEscaped); ok {
				txt.Values[i] = &ast.Text{Value: esc.Value}
			}
		}
		return''', '''		if txt, ok := n.(*ast.ParsedText); ok {
			simplifyEscapes(txt.Values)
		}
		return''')
    t.sub(R, "// RenderParsedTextResolver replaces", '''func simplifyEscapes(xs []ast.Expr) {
	for i := 0; i < len(xs); i++ {
		esc, ok := xs[i].(*ast.TextEscaped)
		if !ok {
			continue
		}
		xs[i] = &ast.Text{Value: esc.Value}
	}
}

// RenderParsedTextResolver replaces''')
    t.sub(R, '''		if _, ok := n.(*ast.TagStmt); !ok {
			return ast.WalkContinue, nil
		}
		tag := n.(*ast.TagStmt)
		if''', '''		tag, ok := n.(*ast.TagStmt)
		if !ok {
			return ast.WalkContinue, nil
		}
		if''')
    t.sub(R, '''			sb := &strings.Builder{}
			sb.Grow(16)
			if err := r.rend.Render(sb, tag.Value); err != nil {
				return ast.WalkStop, fmt.Errorf("render parsed text tag=%q: %w", tag.Name, err)
			}
			tag.Value = &ast.Text{Value: sb.String()}''', '''			sb := strings.Builder{}
			err := r.rend.Render(&sb, tag.Value)
			if err != nil {
				return ast.WalkStop, fmt.Errorf("render parsed text tag=%q: %w", tag.Name, err)
			}
			txt := &ast.Text{Value: sb.String()}
			tag.Value = txt''')

def b_refactor(t):
    t.sub(B, '''			for _, decl := range file.Entries {
				if decl, ok := decl.(*ast.BibDecl); ok {
					entries = append(entries, b.resolveEntry(decl))
				}
			}''', '''			entries = b.appendEntries(entries, file.Entries)''')
    t.sub(B, '''		for _, decl := range n.Entries {
			if decl, ok := decl.(*ast.BibDecl); ok {
				entries = append(entries, b.resolveEntry(decl))
			}
		}
		return''', '''		entries = b.appendEntries(entries, n.Entries)
		return''')
    t.sub(B, "func (b *Biber) resolveEntry", '''func (b *Biber) appendEntries(entries []Entry, decls []ast.Decl) []Entry {
	for _, d := range decls {
		decl, ok := d.(*ast.BibDecl)
		if !ok {
			continue
		}
		entries = append(entries, b.resolveEntry(decl))
	}
	return entries
}

func (b *Biber) resolveEntry''')
    t.sub(B, '''		for _, r := range rs {
			b.resolvers = append(b.resolvers, r)
		}''', '''		b.resolvers = append(b.resolvers, rs...)''')

def b_entry(t):
    t.body(B, "resolveEntry", '''
func (b *Biber) resolveEntry(decl *ast.BibDecl) Entry {
	tags := make(map[Field]ast.Expr, len(decl.Tags))
	for i := range decl.Tags {
		tag := decl.Tags[i]
		tags[tag.Name] = tag.Value
	}
	key := ""
	if k := decl.Key; k != nil {
		key = k.Name
	}
	return Entry{Type: decl.Type, Key: key, Tags: tags}
}''')
    t.sub(B, '''	for i, resolver := range b.resolvers {
		if err := resolver.Resolve(node); err != nil {''', '''	for i := 0; i < len(b.resolvers); i++ {
		err := b.resolvers[i].Resolve(node)
		if err != nil {''')
    t.sub(B, '''	for _, opt := range opts {
		opt(b)
	}''', '''	for i := range opts {
		apply := opts[i]
		apply(b)
	}''')

def n_refactor(t):
    s = open(f"{t.d}/{N}").read()
    s = re.sub(r"if _, err := w\.Write\(\[\]byte\((.*?)\)\); err != nil \{\n\t+return ast", r"if err := writeString(w, \1); err != nil {\nreturn ast", s)
    s = s.replace("func renderTexComment(", '''func writeString(w io.Writer, s string) error {
	_, err := w.Write([]byte(s))
	return err
}

func renderTexComment(''', 1)
    open(f"{t.d}/{N}", "w").write(s)

def n_text(t):
    s = open(f"{t.d}/{N}").read()
    s = s.replace('''		for _, v := range t.Values {
			if err := p.Render(w, v); err != nil {
				return err
			}
		}
''', '''		if err := p.renderAll(w, t.Values); err != nil {
			return err
		}
''')
    s = s.replace('''	default:
		err := fmt.Errorf("renderer - unhandled ast.Expr type %T, %v", t, t)
		if err != nil {
			return err
		}
	}''', '''	default:
		return fmt.Errorf("renderer - unhandled ast.Expr type %T, %v", t, t)
	}''')
    s += '''
func (p TextRenderer) renderAll(w io.Writer, xs []ast.Expr) error {
	for i := range xs {
		if err := p.Render(w, xs[i]); err != nil {
			return err
		}
	}
	return nil
}
'''
    open(f"{t.d}/{N}", "w").write(s)

def i_refactor(t):
    t.sub(I, '''		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
			pkg.Files[filename] = src
		} else if first == nil {
			first = err
		}''', '''		file, err := ParseFile(fset, filename, nil, mode)
		if err != nil {
			if first == nil {
				first = err
			}
			continue
		}
		pkg.Files[filename] = file''')
    t.sub(I, '''		// set result values
		if f == nil {
			// source is not a valid bibtex source file - satisfy
			// ParseFile API and return a valid (but) empty
			// *ast.File
			f = &ast.File{
				Name:  filename,
				Scope: ast.NewScope(nil),
			}
		}
''', '''		// set result values
		if f == nil {
			f = emptyFile(filename)
		}
''')
    t.sub(I, "func ParseExpr", '''func emptyFile(filename string) *ast.File {
	return &ast.File{
		Name:  filename,
		Scope: ast.NewScope(nil),
	}
}

func ParseExpr''')

if __name__ == "__main__":
    name, d = sys.argv[1:3]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    globals()[name](Tree(d))
    subprocess.run("gofmt -l -w .", shell=True, cwd=d, stdout=subprocess.DEVNULL)
    subprocess.run("go vet ./... ; go build ./... && go test ./... 2>&1 | grep -v 'no test files'", shell=True, cwd=d)
    subprocess.run("git diff --stat | tail -1", shell=True, cwd=d)
