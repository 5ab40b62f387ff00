package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Pkg is one package of the repository, parsed and type-checked from source.
type Pkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
	Funcs map[string]*ast.FuncDecl // key as in contracts: F, (T).m, (*T).m
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
}

type Loader struct {
	repo    string
	modPath string
	fset    *token.FileSet
	list    map[string]*listPkg
	pkgs    map[string]*Pkg
	gc      types.Importer
	declOf  map[*types.Func]*ast.FuncDecl
	pkgOf   map[*types.Func]*Pkg
}

func NewLoader(repo string, patterns []string) (*Loader, error) {
	l := &Loader{repo: repo, fset: token.NewFileSet(), list: map[string]*listPkg{}, pkgs: map[string]*Pkg{},
		declOf: map[*types.Func]*ast.FuncDecl{}, pkgOf: map[*types.Func]*Pkg{}}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		l.list[p.ImportPath] = p
	}
	l.modPath = "github.com/pinpt/ripsrc"
	l.gc = importer.ForCompiler(l.fset, "gc", func(path string) (io.ReadCloser, error) {
		p := l.list[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	return l, nil
}

func (l *Loader) inRepo(path string) bool {
	return path == l.modPath || strings.HasPrefix(path, l.modPath+"/")
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if l.inRepo(path) {
		p, err := l.Load(path)
		if err != nil {
			return nil, err
		}
		return p.Types, nil
	}
	return l.gc.Import(path)
}

func (l *Loader) Load(path string) (*Pkg, error) {
	if p, ok := l.pkgs[path]; ok {
		return p, nil
	}
	lp := l.list[path]
	if lp == nil {
		return nil, fmt.Errorf("package %s not listed", path)
	}
	p := &Pkg{Path: path, Dir: lp.Dir, Funcs: map[string]*ast.FuncDecl{}}
	for _, f := range lp.GoFiles {
		af, err := parser.ParseFile(l.fset, filepath.Join(lp.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p.Files = append(p.Files, af)
	}
	p.Info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: l, GoVersion: "go1.21"}
	tp, err := conf.Check(path, l.fset, p.Files, p.Info)
	if err != nil {
		return nil, err
	}
	p.Types = tp
	l.pkgs[path] = p
	for _, f := range p.Files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			fo, _ := p.Info.Defs[fd.Name].(*types.Func)
			if fo == nil {
				continue
			}
			p.Funcs[funcKey(fo)] = fd
			l.declOf[fo] = fd
			l.pkgOf[fo] = p
		}
	}
	return p, nil
}

func funcKey(fo *types.Func) string {
	sig := fo.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		star := ""
		if pt, ok := t.(*types.Pointer); ok {
			star = "*"
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return "(" + star + n.Obj().Name() + ")." + fo.Name()
		}
	}
	return fo.Name()
}
