package main

// Loading and type-checking of the repository's packages.

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Pkg struct {
	path  string
	name  string // rust module name
	files []*ast.File
	info  *types.Info
	tpkg  *types.Package
	spec  *Spec
	fns   map[string]*Fn
	order []string
	// state
	comps    []*Comp
	compIdx  map[string]*Comp
	subs     []*Sub
	decls    map[*types.Func]*Fn
	structs  []*types.Named
	hasState bool
}

// dependencies whose source is verified too, with the name of their contract file
var depNames = map[string]string{
	"github.com/segmentio/fasthash/fnv1a": "fnv1a",
	"golang.org/x/exp/maps":               "xmaps",
	"golang.org/x/exp/slices":             "xslices",
}

type Loader struct {
	fset    *token.FileSet
	repo    string
	modpath string
	pkgs    map[string]*Pkg
	deps    map[string]*types.Package
	mods    map[string]string // module path -> dir
	std     types.Importer
	errs    []string
}

func NewLoader(repo string) *Loader {
	l := &Loader{fset: token.NewFileSet(), repo: repo, pkgs: map[string]*Pkg{}, deps: map[string]*types.Package{}, mods: map[string]string{}}
	build.Default.CgoEnabled = false
	l.std = importer.ForCompiler(l.fset, "source", nil)
	f, err := os.Open(filepath.Join(repo, "go.mod"))
	if err != nil {
		fatal("cannot read go.mod: %v", err)
	}
	defer f.Close()
	cache := os.Getenv("GOMODCACHE")
	if cache == "" {
		cache = "/root/go/pkg/mod"
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		fs := strings.Fields(sc.Text())
		if len(fs) >= 2 && fs[0] == "module" {
			l.modpath = fs[1]
		}
		if len(fs) > 0 && fs[0] == "require" {
			fs = fs[1:]
		}
		if len(fs) >= 2 && strings.Contains(fs[0], "/") && strings.HasPrefix(fs[1], "v") {
			l.mods[fs[0]] = filepath.Join(cache, fs[0]+"@"+fs[1])
		}
	}
	return l
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path == l.modpath || strings.HasPrefix(path, l.modpath+"/") {
		p, err := l.Load(path)
		if err != nil {
			return nil, err
		}
		return p.tpkg, nil
	}
	if t, ok := l.deps[path]; ok {
		return t, nil
	}
	for m, dir := range l.mods {
		if path == m || strings.HasPrefix(path, m+"/") {
			d := filepath.Join(dir, strings.TrimPrefix(path, m))
			files, err := l.parseDir(d)
			if err != nil {
				return nil, err
			}
			cfg := types.Config{Importer: l, IgnoreFuncBodies: true, Error: func(error) {}}
			t, _ := cfg.Check(path, l.fset, files, nil)
			if t == nil {
				return nil, fmt.Errorf("cannot type-check %s", path)
			}
			l.deps[path] = t
			return t, nil
		}
	}
	t, err := l.std.Import(path)
	if err == nil {
		l.deps[path] = t
	}
	return t, err
}

func (l *Loader) parseDir(dir string) ([]*ast.File, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		ok, err := build.Default.MatchFile(dir, n)
		if err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(l.fset, filepath.Join(dir, n), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	return files, nil
}

func (l *Loader) Load(path string) (*Pkg, error) {
	if p, ok := l.pkgs[path]; ok {
		return p, nil
	}
	dir := filepath.Join(l.repo, strings.TrimPrefix(path, l.modpath))
	if depNames[path] != "" {
		for m, d := range l.mods {
			if strings.HasPrefix(path, m+"/") {
				dir = filepath.Join(d, strings.TrimPrefix(path, m))
			}
		}
	}
	files, err := l.parseDir(dir)
	if err != nil {
		return nil, err
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances:  map[*ast.Ident]types.Instance{},
		Implicits:  map[ast.Node]types.Object{},
		Scopes:     map[ast.Node]*types.Scope{},
	}
	var first error
	cfg := types.Config{Importer: l, Error: func(e error) {
		if first == nil {
			first = e
		}
	}}
	tp, _ := cfg.Check(path, l.fset, files, info)
	if first != nil {
		return nil, first
	}
	name := path[strings.LastIndex(path, "/")+1:]
	if n := depNames[path]; n != "" {
		name = n
	}
	p := &Pkg{path: path, name: name, files: files, info: info, tpkg: tp, fns: map[string]*Fn{}, decls: map[*types.Func]*Fn{}, compIdx: map[string]*Comp{}}
	l.pkgs[path] = p
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			obj, _ := info.Defs[fd.Name].(*types.Func)
			if obj == nil {
				continue
			}
			key := fnKey(obj)
			fn := &Fn{pkg: p, key: key, decl: fd, obj: obj, mod: map[string]bool{}, reads: map[string]bool{}}
			p.fns[key] = fn
			p.order = append(p.order, key)
			p.decls[obj] = fn
		}
	}
	sc := tp.Scope()
	names := sc.Names()
	sort.Strings(names)
	for _, n := range names {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
			if nm, ok := tn.Type().(*types.Named); ok {
				if _, ok := nm.Underlying().(*types.Struct); ok {
					p.structs = append(p.structs, nm)
				}
			}
		}
	}
	return p, nil
}

func recvNamed(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func fnKey(obj *types.Func) string {
	sig := obj.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		if n := recvNamed(r.Type()); n != nil {
			return n.Obj().Name() + "." + obj.Name()
		}
	}
	return obj.Name()
}
