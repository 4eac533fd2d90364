package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the program under verification: the typed syntax and SSA form of
// every package of /repo, rebuilt from the working tree on every run.
type World struct {
	Repo   string
	Module string
	Fset   *token.FileSet
	Prog   *ssa.Program
	Pkgs   map[string]*ssa.Package // by import path
	ByName map[string]*ssa.Package // by package name
	TPkgs  map[string]*types.Package
	Funcs  map[string]*ssa.Function // by contract key
	Keys   map[*ssa.Function]string
	All    []*ssa.Function
}

type repoImporter struct {
	w     *World
	std   types.Importer
	files map[string][]*ast.File
	infos map[string]*types.Info
	busy  map[string]bool
	order []string
}

func (im *repoImporter) Import(path string) (*types.Package, error) {
	if path == im.w.Module || strings.HasPrefix(path, im.w.Module+"/") {
		return im.load(path)
	}
	return im.std.Import(path)
}

func (im *repoImporter) load(path string) (*types.Package, error) {
	if p := im.w.TPkgs[path]; p != nil {
		return p, nil
	}
	if im.busy[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	im.busy[path] = true
	dir := filepath.Join(im.w.Repo, strings.TrimPrefix(strings.TrimPrefix(path, im.w.Module), "/"))
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(im.w.Fset, filepath.Join(dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: im}
	pkg, err := conf.Check(path, im.w.Fset, files, info)
	if err != nil {
		return nil, err
	}
	im.w.TPkgs[path] = pkg
	im.files[path] = files
	im.infos[path] = info
	im.order = append(im.order, path)
	return pkg, nil
}

// skipDir says which directories of the repository hold no library code.
func skipDir(name string) bool {
	return strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor"
}

func Load(repo string) (w *World, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("load: %v", r)
		}
	}()
	w = &World{Repo: repo, Fset: token.NewFileSet(), Pkgs: map[string]*ssa.Package{}, ByName: map[string]*ssa.Package{},
		TPkgs: map[string]*types.Package{}, Funcs: map[string]*ssa.Function{}, Keys: map[*ssa.Function]string{}}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "module ") {
			w.Module = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	build.Default.CgoEnabled = false
	im := &repoImporter{w: w, std: importer.ForCompiler(w.Fset, "source", nil), files: map[string][]*ast.File{}, infos: map[string]*types.Info{}, busy: map[string]bool{}}
	err = filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		if p != repo && skipDir(d.Name()) {
			return filepath.SkipDir
		}
		if _, err := build.Default.ImportDir(p, 0); err != nil {
			return nil // no Go files here
		}
		rel, _ := filepath.Rel(repo, p)
		path := w.Module
		if rel != "." {
			path += "/" + filepath.ToSlash(rel)
		}
		_, err = im.load(path)
		return err
	})
	if err != nil {
		return nil, err
	}
	w.Prog = ssa.NewProgram(w.Fset, ssa.NaiveForm|ssa.InstantiateGenerics)
	seen := map[*types.Package]bool{}
	var createStd func(p *types.Package)
	createStd = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			createStd(q)
		}
		if _, mine := im.files[p.Path()]; !mine {
			w.Prog.CreatePackage(p, nil, nil, true)
		}
	}
	for _, path := range im.order {
		createStd(w.TPkgs[path])
	}
	for _, path := range im.order {
		sp := w.Prog.CreatePackage(w.TPkgs[path], im.files[path], im.infos[path], false)
		w.Pkgs[path] = sp
		w.ByName[sp.Pkg.Name()] = sp
	}
	for _, path := range im.order {
		w.Pkgs[path].Build()
	}
	for fn := range ssautil.AllFunctions(w.Prog) {
		if w.Mine(fn) {
			k := w.Key(fn)
			if k != "" {
				if _, dup := w.Funcs[k]; dup && fn.Synthetic != "" {
					continue
				}
				w.Funcs[k] = fn
				w.All = append(w.All, fn)
			}
		}
	}
	sort.Slice(w.All, func(i, j int) bool { return w.Key(w.All[i]) < w.Key(w.All[j]) })
	return w, nil
}

// Mine says whether fn is a function of the repository with a body.
func (w *World) Mine(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return w.Pkgs[f.Pkg.Pkg.Path()] != nil
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return w.Pkgs[f.Object().Pkg().Path()] != nil
		}
	}
	return false
}

// Key is the name a contract refers to a function by: pkg.Func, pkg.Type.Method
// or, for function literals, the key of the enclosing function plus $n.
func (w *World) Key(fn *ssa.Function) string {
	if k, ok := w.Keys[fn]; ok {
		return k
	}
	k := w.key(fn)
	w.Keys[fn] = k
	return k
}

func (w *World) key(fn *ssa.Function) string {
	if fn.Parent() != nil {
		pk := w.Key(fn.Parent())
		for i, a := range fn.Parent().AnonFuncs {
			if a == fn {
				return fmt.Sprintf("%s$%d", pk, i+1)
			}
		}
		return pk + "$?"
	}
	pkg := fn.Pkg
	if pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return fn.Object().Pkg().Name() + "." + fn.RelString(fn.Object().Pkg())
		}
		return fn.String()
	}
	if r := fn.Signature.Recv(); r != nil {
		return pkg.Pkg.Name() + "." + typeBaseName(r.Type()) + "." + fn.Name()
	}
	return pkg.Pkg.Name() + "." + fn.Name()
}

func typeBaseName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}
