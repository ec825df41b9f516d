package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type Pkg struct {
	Path  string
	Name  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

type Program struct {
	Fset  *token.FileSet
	Pkgs  map[string]*Pkg // by import path (source-loaded)
	Funcs map[*types.Func]*ast.FuncDecl
	FPkg  map[*types.Func]*Pkg
	ByKey map[string]*types.Func // "detour.(*NavMesh).AddTile", "recast.addSpan"
	Sizes types.Sizes
	Inits map[string][]*types.Func
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
}

func loadProgram(repo string, patterns []string) (*Program, error) {
	args := append([]string{"list", "-deps", "-export", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,ImportMap,Error"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var pkgs []*listPkg
	exports := map[string]string{}
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pkgs = append(pkgs, &p)
		exports[p.ImportPath] = p.Export
	}
	prog := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Funcs: map[*types.Func]*ast.FuncDecl{}, FPkg: map[*types.Func]*Pkg{}, ByKey: map[string]*types.Func{}, Inits: map[string][]*types.Func{}}
	prog.Sizes = types.SizesFor("gc", "amd64")
	std := importer.ForCompiler(prog.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &mixImporter{prog: prog, std: std}
	for _, lp := range pkgs {
		if lp.Standard {
			continue
		}
		if lp.Error != nil {
			return nil, fmt.Errorf("%s: %s", lp.ImportPath, lp.Error.Err)
		}
		pk := &Pkg{Path: lp.ImportPath, Name: lp.Name, Dir: lp.Dir}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(prog.Fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			pk.Files = append(pk.Files, af)
		}
		pk.Info = &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits:  map[ast.Node]types.Object{},
			Scopes:     map[ast.Node]*types.Scope{},
		}
		cfg := types.Config{Importer: imp, Sizes: prog.Sizes, Error: func(error) {}}
		tp, err := cfg.Check(lp.ImportPath, prog.Fset, pk.Files, pk.Info)
		if err != nil && tp == nil {
			return nil, err
		}
		if err != nil && strings.HasPrefix(lp.ImportPath, "github.com/arl/go-detour") {
			return nil, fmt.Errorf("type check %s: %v", lp.ImportPath, err)
		}
		pk.Types = tp
		prog.Pkgs[lp.ImportPath] = pk
		for _, f := range pk.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				fo, ok := pk.Info.Defs[fd.Name].(*types.Func)
				if !ok {
					continue
				}
				prog.Funcs[fo] = fd
				prog.FPkg[fo] = pk
				if fd.Name.Name != "init" && fd.Name.Name != "_" {
					prog.ByKey[funcKey(fo)] = fo
				} else if fd.Name.Name == "init" {
					k := pk.Name + ".init"
					prog.Inits[k] = append(prog.Inits[k], fo)
				}
			}
		}
	}
	return prog, nil
}

func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pk := ""
	if f.Pkg() != nil {
		pk = f.Pkg().Name()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		ptr := false
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			ptr = true
		}
		n := "?"
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name()
		}
		if ptr {
			return fmt.Sprintf("%s.(*%s).%s", pk, n, f.Name())
		}
		return fmt.Sprintf("%s.%s.%s", pk, n, f.Name())
	}
	return pk + "." + f.Name()
}

type mixImporter struct {
	prog *Program
	std  types.Importer
}

func (m *mixImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := m.prog.Pkgs[path]; ok {
		return p.Types, nil
	}
	return m.std.Import(path)
}
