P = 'parser/parser.go'
PH = '''package parser

import (
	"fmt"
	gotok "go/token"
	"strings"
	"testing"

	"github.com/jschaf/bibtex/ast"
)

var _ = strings.Repeat

func zzEntries(t *testing.T, src string) (out []string) {
	f, err := ParseFile(gotok.NewFileSet(), "", src, 0)
	if err != nil {
		t.Fatal(err)
	}
	for _, e := range f.Entries {
		switch e := e.(type) {
		case *ast.BibDecl:
			s := e.Type
			if e.Key != nil {
				s += " key " + e.Key.Name
			}
			for _, k := range e.ExtraKeys {
				s += " extra " + k.Name
			}
			for _, g := range e.Tags {
				s += " tag " + g.Name + "/" + g.RawName
			}
			out = append(out, s)
		case *ast.AbbrevDecl:
			out = append(out, "string "+e.Tag.Name+"/"+e.Tag.RawName)
		default:
			out = append(out, fmt.Sprintf("%T", e))
		}
	}
	return
}

func zzWant(t *testing.T, src string, want ...string) {
	got := zzEntries(t, src)
	if strings.Join(got, "; ") != strings.Join(want, "; ") {
		t.Fatalf("%s: got %q, want %q", src, got, want)
	}
}

func TestZZDemo(t *testing.T) {
'''
def D(id, edits, needs, breaks, test):
    return dict(id=id, prop='C12', pkg='parser', edits=edits, needs=needs, breaks=breaks, test=PH + test + '\n}\n')
SEEDS = [
 D('ent-dup-tag', [(P, "			tags = append(tags, tag)\n		default:", "			for i, old := range tags {\n				if old.Name == name {\n					tags = append(tags[:i], tags[i+1:]...)\n					break\n				}\n			}\n			tags = append(tags, tag)\n		default:")],
   'an entry in which a tag name occurs twice', 'the first of two tags with the same name is dropped',
   '	zzWant(t, "@a{k, x = 1, y = 2, X = 3}", "a key k tag x/x tag y/y tag x/X")'),
 D('ent-key-late', [(P, "			if bibKey == nil {\n				bibKey = key", "			if bibKey == nil && (len(tags) == 0 || p.tok != token.RBrace) {\n				bibKey = key")],
   'an entry whose only key stands after its tags, at the end', 'the cite key becomes an extra key',
   '	zzWant(t, "@a{x = 1, k}", "a key k tag x/x")'),
 D('ent-extra-dup', [(P, "				extraKeys = append(extraKeys, key)", "				if n := len(extraKeys); n == 0 || extraKeys[n-1].Name != key.Name {\n					extraKeys = append(extraKeys, key)\n				}")],
   'three keys, the last two of which are the same', 'a repeated extra key is dropped',
   '	zzWant(t, "@a{k, b, b, c}", "a key k extra b extra b extra c")'),
 D('ent-rawname', [(P, "				Name:    name,\n				RawName: key.Name,", "				Name:    name,\n				RawName: strings.TrimRight(key.Name, \"-:\"),")],
   'a tag name that ends in a hyphen or a colon', 'the original spelling of a tag name is cut short',
   '	zzWant(t, "@a{k, Ab-: = 1}", "a key k tag ab-:/Ab-:")'),
 D('ent-abbrev-case', [(P, "		Name:    strings.ToLower(key.Name),\n		RawName: key.Name,\n		Value:   val,", "		Name:    strings.TrimPrefix(strings.ToLower(key.Name), \"_\"),\n		RawName: key.Name,\n		Value:   val,")],
   'an abbreviation whose name begins with an underscore', 'the name of an abbreviation is changed',
   '	zzWant(t, "@string{_Jan = 1}", "string _jan/_Jan")'),
 D('ent-type-trim', [(P, "	entryType := strings.ToLower(p.lit[1:]) // drop '@', e.g. \"@BOOK\" -> \"book\"", "	entryType := strings.ToLower(strings.TrimRight(p.lit[1:], \"0123456789\")) // drop '@', e.g. \"@BOOK\" -> \"book\"")],
   'an entry type that ends in digits', 'two different entry types become the same',
   '	zzWant(t, "@misc2{k}", "misc2 key k")'),
 D('ent-file-order', [(P, "		decls = append(decls, p.parseDecl())\n", "		d := p.parseDecl()\n		decls = append(decls, d)\n		if n := len(decls); n > 2 {\n			if _, ok := d.(*ast.AbbrevDecl); ok {\n				decls[n-1], decls[n-2] = decls[n-2], decls[n-1]\n			}\n		}\n")],
   'an abbreviation that is the third entry or later', 'the entries are not in source order',
   '	zzWant(t, "@a{k}@b{l}@string{x = 1}", "a key k", "b key l", "string x/x")'),
 D('ent-file-drop', [(P, "		decls = append(decls, p.parseDecl())\n", "		d := p.parseDecl()\n		if b, ok := d.(*ast.BibDecl); ok && b.Key == nil && len(b.Tags) == 0 && len(decls) > 0 {\n			continue\n		}\n		decls = append(decls, d)\n")],
   'an entry without keys and tags that is not the first one', 'an empty entry is dropped',
   '	zzWant(t, "@a{k}@b{}@c{l}", "a key k", "b", "c key l")'),
 D('ent-tags-cap', [(P, "			tags = append(tags, tag)\n		default:", "			if len(tags) == cap(tags) && len(tags) >= 16 {\n				tags = tags[:len(tags)-1]\n			}\n			tags = append(tags, tag)\n		default:")],
   'an entry with more than sixteen tags', 'a tag is overwritten by the next one',
   '	src, want := "@a{k", "a key k"\n	for i := 0; i < 40; i++ {\n		src += fmt.Sprintf(", t%d = 1", i)\n		want += fmt.Sprintf(" tag t%d/t%d", i, i)\n	}\n	zzWant(t, src+"}", want)'),
 D('ent-ident-alias', [(P, "			if bibKey == nil {\n				bibKey = key", "			if bibKey == nil || len(extraKeys) > 2 && bibKey.Name == key.Name {\n				bibKey = key")],
   'an entry with more than three extra keys, one of which repeats the cite key', 'an extra key is dropped and the cite key is moved',
   '	zzWant(t, "@a{k, b, c, d, k, e}", "a key k extra b extra c extra d extra k extra e")'),
]
