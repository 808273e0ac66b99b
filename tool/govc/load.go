package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Pkg is one package of the repository, type-checked from its current source.
type Pkg struct {
	Path  string // import path
	Short string // path below the module
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

// Prog is the loaded program.
type Prog struct {
	Fset  *token.FileSet
	Pkgs  map[string]*Pkg // by import path
	Short map[string]*Pkg
	Funcs map[*types.Func]*ast.FuncDecl
	FPkg  map[*types.Func]*Pkg
	ByKey map[string]*types.Func // "merkle.CalcK", "verifiable.BPath.At", "verifiable.(*Log).VerifyEntries" => "verifiable.Log.VerifyEntries"
	Work  string
}

const modPath = "github.com/continusec/verifiabledatastructures"

var repoDir = "/repo"

type listPkg struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Imports    []string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

// PrepMod writes a go.mod/go.sum pair for /repo with the stand-in objecthash.
func PrepMod(work, standin string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return "", err
	}
	s := string(b) + "\nreplace github.com/continusec/objecthash => " + standin + "\n"
	mf := filepath.Join(work, "go.mod")
	if err := os.WriteFile(mf, []byte(s), 0644); err != nil {
		return "", err
	}
	b, err = os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return "", err
	}
	return mf, os.WriteFile(filepath.Join(work, "go.sum"), b, 0644)
}

func goEnv() []string {
	e := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GO") || strings.HasPrefix(kv, "PATH=") {
			continue
		}
		e = append(e, kv)
	}
	return append(e, "HOME=/root", "PATH=/opt/veriftools/go1.24.13/bin:"+os.Getenv("PATH"),
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+goCache(), "CGO_ENABLED=1")
}

func goCache() string {
	if c := os.Getenv("GOVC_GOCACHE"); c != "" {
		return c
	}
	return "/root/.cache/go-build"
}

// Load loads and type-checks the named packages (paths below the module) and
// the repository packages they import, from source.
func Load(modfile string, pkgs []string) (*Prog, error) {
	args := []string{"list", "-modfile=" + modfile, "-deps", "-export", "-json=ImportPath,Export,Dir,GoFiles,Imports,Module,Error"}
	for _, p := range pkgs {
		args = append(args, "./"+p)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	var order []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var lp listPkg
		if err := dec.Decode(&lp); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		q := lp
		order = append(order, &q)
		exports[lp.ImportPath] = lp.Export
	}
	pr := &Prog{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Short: map[string]*Pkg{}, Funcs: map[*types.Func]*ast.FuncDecl{}, FPkg: map[*types.Func]*Pkg{}, ByKey: map[string]*types.Func{}}
	gc := importer.ForCompiler(pr.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := pr.Pkgs[path]; ok {
			return p.Types, nil
		}
		return gc.Import(path)
	})
	for _, lp := range order {
		if lp.Module == nil || lp.Module.Path != modPath {
			continue
		}
		p := &Pkg{Path: lp.ImportPath, Short: strings.TrimPrefix(strings.TrimPrefix(lp.ImportPath, modPath), "/"), Dir: lp.Dir}
		sort.Strings(lp.GoFiles)
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(pr.Fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		p.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(lp.ImportPath, pr.Fset, p.Files, p.Info)
		if err != nil {
			return nil, fmt.Errorf("type-check %s: %v", lp.ImportPath, err)
		}
		p.Types = tp
		pr.Pkgs[lp.ImportPath] = p
		pr.Short[p.Short] = p
		for _, f := range p.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				fo, ok := p.Info.Defs[fd.Name].(*types.Func)
				if !ok {
					continue
				}
				pr.Funcs[fo] = fd
				pr.FPkg[fo] = p
				pr.ByKey[funcKey(fo)] = fo
			}
		}
	}
	return pr, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := p.Path()
	if strings.HasPrefix(s, modPath) {
		s = strings.TrimPrefix(strings.TrimPrefix(s, modPath), "/")
		return s
	}
	return s
}

func funcKey(f *types.Func) string {
	f = f.Origin()
	sig := f.Type().(*types.Signature)
	pk := shortPkg(f.Pkg())
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pk = shortPkg(n.Obj().Pkg())
			}
			if pk == "" {
				return n.Obj().Name() + "." + f.Name()
			}
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
		return pk + ".?." + f.Name()
	}
	return pk + "." + f.Name()
}
