package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the resolved, type-checked program of the repository under
// analysis for one target architecture.
type Program struct {
	Arch     string
	Repo     string
	Fset     *token.FileSet
	Prog     *ssa.Program
	Sizes    types.Sizes
	Main     *ssa.Package   // the root package of the repository (amino)
	RepoPkgs []*ssa.Package // all non-test packages of the repository
	Pkgs     map[string]*types.Package
	Funcs    []*ssa.Function // every function with a body in repo packages
	IntBits  int
	NFiles   int
	Files    map[*ssa.Package][]*ast.File
	Infos    map[*ssa.Package]*types.Info
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Error      *struct{ Err string }
	DepOnly    bool
}

const modulePath = "github.com/tendermint/go-amino"

type mapImporter struct {
	pkgs map[string]*types.Package
	imap map[string]string
}

func (m mapImporter) Import(path string) (*types.Package, error) {
	if p, ok := m.imap[path]; ok {
		path = p
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := m.pkgs[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("package %q not loaded", path)
}

// loadProgram parses and type-checks the repository from its current source.
// Dependencies are type-checked without function bodies.
func loadProgram(repo, arch string) (*Program, error) {
	cmd := exec.Command("go", "list", "-mod=mod", "-deps", "-json=ImportPath,Dir,Name,GoFiles,ImportMap,Standard,Module,Error,DepOnly", "./...")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOARCH="+arch, "GOOS=linux", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	var lps []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		lp := new(listPkg)
		if err := dec.Decode(lp); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if lp.Error != nil {
			return nil, fmt.Errorf("go list: %s: %s", lp.ImportPath, lp.Error.Err)
		}
		lps = append(lps, lp)
	}
	p := &Program{Arch: arch, Repo: repo, Fset: token.NewFileSet(), Pkgs: map[string]*types.Package{},
		Files: map[*ssa.Package][]*ast.File{}, Infos: map[*ssa.Package]*types.Info{}}
	p.Sizes = types.SizesFor("gc", arch)
	p.IntBits = int(p.Sizes.Sizeof(types.Typ[types.Int])) * 8
	p.Prog = ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	for _, lp := range lps {
		if lp.ImportPath == "unsafe" {
			continue
		}
		inRepo := lp.ImportPath == modulePath || strings.HasPrefix(lp.ImportPath, modulePath+"/")
		var files []*ast.File
		for _, f := range lp.GoFiles {
			path := f
			if !filepath.IsAbs(path) {
				path = filepath.Join(lp.Dir, f)
			}
			mode := parser.SkipObjectResolution
			af, err := parser.ParseFile(p.Fset, path, nil, mode)
			if err != nil {
				return nil, err
			}
			files = append(files, af)
		}
		var errs []error
		conf := types.Config{
			Importer:         mapImporter{p.Pkgs, lp.ImportMap},
			Sizes:            p.Sizes,
			IgnoreFuncBodies: !inRepo,
			FakeImportC:      true,
			Error: func(err error) {
				errs = append(errs, err)
			},
		}
		var info *types.Info
		if inRepo {
			info = &types.Info{
				Types:        map[ast.Expr]types.TypeAndValue{},
				Defs:         map[*ast.Ident]types.Object{},
				Uses:         map[*ast.Ident]types.Object{},
				Implicits:    map[ast.Node]types.Object{},
				Scopes:       map[ast.Node]*types.Scope{},
				Selections:   map[*ast.SelectorExpr]*types.Selection{},
				Instances:    map[*ast.Ident]types.Instance{},
				FileVersions: map[*ast.File]string{},
			}
			conf.GoVersion = "go1.12"
		}
		tp, _ := conf.Check(lp.ImportPath, p.Fset, files, info)
		if inRepo && len(errs) > 0 {
			return nil, fmt.Errorf("type-check %s: %v", lp.ImportPath, errs[0])
		}
		if tp == nil {
			return nil, fmt.Errorf("type-check %s failed: %v", lp.ImportPath, errs)
		}
		p.Pkgs[lp.ImportPath] = tp
		if inRepo {
			p.NFiles += len(files)
			sp := p.Prog.CreatePackage(tp, files, info, true)
			p.RepoPkgs = append(p.RepoPkgs, sp)
			p.Files[sp] = files
			p.Infos[sp] = info
			if lp.ImportPath == modulePath {
				p.Main = sp
			}
		} else {
			p.Prog.CreatePackage(tp, nil, nil, true)
		}
	}
	if p.Prog.ImportedPackage("unsafe") == nil {
		p.Prog.CreatePackage(types.Unsafe, nil, nil, true)
	}
	if p.Main == nil {
		return nil, fmt.Errorf("package %s not found", modulePath)
	}
	for _, sp := range p.RepoPkgs {
		sp.Build()
	}
	repoSet := map[*ssa.Package]bool{}
	for _, sp := range p.RepoPkgs {
		repoSet[sp] = true
	}
	for fn := range ssautil.AllFunctions(p.Prog) {
		if fn.Blocks == nil {
			continue
		}
		if fn.Pkg == nil || !repoSet[fn.Pkg] {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if p.Funcs[i].Pos() != p.Funcs[j].Pos() {
			return p.Funcs[i].Pos() < p.Funcs[j].Pos()
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	runtime.GC()
	return p, nil
}

// pos renders a position relative to the repository root.
func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.Fset.Position(ps)
	rel, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// inMain reports whether fn belongs to the amino package itself.
func (p *Program) inMain(fn *ssa.Function) bool { return fn != nil && fn.Pkg == p.Main }

// method finds a method (Type.Name) or function in the main package.
func (p *Program) lookup(pkg *ssa.Package, name string) *ssa.Function {
	for _, fn := range p.Funcs {
		if fn.Pkg != pkg {
			continue
		}
		if shortName(fn) == name {
			return fn
		}
	}
	return nil
}

// shortName is "Func" or "Type.Method" (pointerness dropped), or parent$N.
func shortName(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	if fn.Parent() != nil {
		return shortName(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Name()
}
