// Package load type-checks the repository under analysis from source and
// builds SSA for its packages (and for a few whitelisted dependencies).
//
// Nothing of the repository is compiled or run: `go list` enumerates files and
// the dependency order, everything else is go/parser + go/types + go/ssa.
package load

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Module is the import path of the repository under analysis.
const Module = "github.com/brevis-network/zk-utils"

// ListedPackage is the part of `go list -json` output that is used.
type ListedPackage struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

// Package is a type-checked package.
type Package struct {
	*ListedPackage
	Types  *types.Package
	Files  []*ast.File
	Info   *types.Info
	Bodies bool // function bodies were type-checked and SSA built
	InRepo bool
	Errs   []error
}

// Program is the loaded repository.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  map[string]*Package
	Repo  []*Package // packages of the repository, sorted by import path
	SSA   *ssa.Program
	order []*Package
}

// BodyDeps lists dependency packages whose bodies are analysed too.
var BodyDeps = map[string]bool{
	"github.com/consensys/gnark/std/math/bits":              true,
	"github.com/consensys/gnark/std/selector":               true,
	"github.com/consensys/gnark/std/math/cmp":               true,
	"github.com/consensys/gnark/std/math/emulated/emparams": true,
	"github.com/consensys/gnark/std/math/emulated":          true,
	"github.com/consensys/gnark/std/internal/logderivarg":   true,
	"math/bits":       true,
	"slices":          true,
	"sort":            false,
	"encoding/hex":    true,
	"encoding/binary": true,
	"bytes":           true,
	"strings":         false,
}

func env(dir string) []string {
	e := os.Environ()
	out := e[:0:0]
	for _, kv := range e {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOROOT", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "GOWORK", "GO111MODULE", "GOOS", "GOARCH":
			continue
		}
		out = append(out, kv)
	}
	out = append(out, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off", "GOOS=linux", "GOARCH=amd64")
	if g := os.Getenv("ZK_GOROOT"); g != "" {
		out = append(out, "GOROOT="+g)
	}
	return out
}

func goCmd() string {
	if g := os.Getenv("ZK_GOROOT"); g != "" {
		return filepath.Join(g, "bin", "go")
	}
	return "go"
}

// Load loads every non-test package of the repository at dir.
func Load(dir string) (*Program, error) {
	cmd := exec.Command(goCmd(), "list", "-e", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Imports,ImportMap,Standard,Module,Error", "./...")
	cmd.Dir = dir
	cmd.Env = env(dir)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	outb, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(outb))
	p := &Program{Dir: dir, Fset: token.NewFileSet(), Pkgs: map[string]*Package{}}
	for {
		lp := &ListedPackage{}
		if err := dec.Decode(lp); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pk := &Package{ListedPackage: lp}
		pk.InRepo = lp.Module != nil && lp.Module.Path == Module
		if pk.InRepo && lp.Error != nil {
			return nil, fmt.Errorf("package %s: %s", lp.ImportPath, lp.Error.Err)
		}
		pk.Bodies = pk.InRepo || BodyDeps[lp.ImportPath]
		p.Pkgs[lp.ImportPath] = pk
		p.order = append(p.order, pk)
		if pk.InRepo {
			p.Repo = append(p.Repo, pk)
		}
	}
	if len(p.Repo) == 0 {
		return nil, fmt.Errorf("no package of %s found in %s", Module, dir)
	}
	inst := &Package{ListedPackage: &ListedPackage{ImportPath: InstPath, Name: "inst", Imports: instImports()}, Bodies: true}
	p.Pkgs[InstPath] = inst
	p.order = append(p.order, inst)
	sort.Slice(p.Repo, func(i, j int) bool { return p.Repo[i].ImportPath < p.Repo[j].ImportPath })
	if err := p.parse(); err != nil {
		return nil, err
	}
	if err := p.check(); err != nil {
		return nil, err
	}
	p.buildSSA()
	return p, nil
}

func (p *Program) parse() error {
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	var mu sync.Mutex
	var firstErr error
	for _, pk := range p.order {
		if pk.ImportPath == "unsafe" {
			continue
		}
		pk.Files = make([]*ast.File, len(pk.GoFiles))
		for i, f := range pk.GoFiles {
			wg.Add(1)
			sem <- struct{}{}
			go func(pk *Package, i int, f string) {
				defer func() { <-sem; wg.Done() }()
				mode := parser.SkipObjectResolution
				if pk.InRepo {
					mode |= parser.ParseComments
				}
				af, err := parser.ParseFile(p.Fset, filepath.Join(pk.Dir, f), nil, mode)
				if err != nil && pk.Bodies {
					mu.Lock()
					if firstErr == nil {
						firstErr = err
					}
					mu.Unlock()
				}
				if !pk.Bodies && af != nil { // drop bodies of dependencies
					for _, d := range af.Decls {
						if fd, ok := d.(*ast.FuncDecl); ok {
							fd.Body = nil
						}
					}
				}
				pk.Files[i] = af
			}(pk, i, f)
		}
	}
	wg.Wait()
	if firstErr != nil {
		return firstErr
	}
	af, err := parser.ParseFile(p.Fset, "zkverif/inst/inst.go", instSource, parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	p.Pkgs[InstPath].Files = []*ast.File{af}
	return nil
}

type importer struct {
	p  *Program
	pk *Package
}

func (im importer) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if m, ok := im.pk.ImportMap[path]; ok {
		path = m
	}
	d := im.p.Pkgs[path]
	if d == nil || d.Types == nil {
		return nil, fmt.Errorf("package %s not loaded", path)
	}
	return d.Types, nil
}

func (p *Program) check() error {
	done := map[*Package]chan struct{}{}
	for _, pk := range p.order {
		done[pk] = make(chan struct{})
	}
	sem := make(chan struct{}, runtime.NumCPU())
	for _, pk := range p.order {
		go func(pk *Package) {
			defer close(done[pk])
			for _, imp := range pk.Imports {
				if m, ok := pk.ImportMap[imp]; ok {
					imp = m
				}
				if d := p.Pkgs[imp]; d != nil && d != pk {
					<-done[d]
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			if pk.ImportPath == "unsafe" {
				pk.Types = types.Unsafe
				return
			}
			conf := types.Config{
				Importer:         importer{p, pk},
				IgnoreFuncBodies: !pk.Bodies,
				FakeImportC:      true,
				Sizes:            types.SizesFor("gc", "amd64"),
				Error:            func(err error) { pk.Errs = append(pk.Errs, err) },
			}
			if pk.Bodies {
				pk.Info = &types.Info{
					Types:        map[ast.Expr]types.TypeAndValue{},
					Defs:         map[*ast.Ident]types.Object{},
					Uses:         map[*ast.Ident]types.Object{},
					Implicits:    map[ast.Node]types.Object{},
					Selections:   map[*ast.SelectorExpr]*types.Selection{},
					Scopes:       map[ast.Node]*types.Scope{},
					Instances:    map[*ast.Ident]types.Instance{},
					FileVersions: map[*ast.File]string{},
				}
			}
			files := pk.Files[:0:0]
			for _, f := range pk.Files {
				if f != nil {
					files = append(files, f)
				}
			}
			pk.Files = files
			pk.Types, _ = conf.Check(pk.ImportPath, p.Fset, files, pk.Info)
		}(pk)
	}
	for _, pk := range p.order {
		<-done[pk]
	}
	for _, pk := range p.order {
		if pk.InRepo && len(pk.Errs) > 0 {
			return fmt.Errorf("type check %s: %v", pk.ImportPath, pk.Errs[0])
		}
	}
	return nil
}

func (p *Program) buildSSA() {
	p.SSA = ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	for _, pk := range p.order {
		if pk.Types == nil {
			continue
		}
		if pk.Bodies && len(pk.Errs) == 0 {
			p.SSA.CreatePackage(pk.Types, pk.Files, pk.Info, true)
		} else {
			pk.Bodies = false
			p.SSA.CreatePackage(pk.Types, nil, nil, true)
		}
	}
	for _, pk := range p.order {
		if pk.Bodies {
			p.SSA.Package(pk.Types).Build()
		}
	}
}

// Rel shortens a repository import path to its module-relative form.
func Rel(path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, Module), "/")
}

// Pkg returns the repository package with the given module-relative path.
func (p *Program) Pkg(rel string) *Package { return p.Pkgs[Module+"/"+rel] }

// Pos renders a position relative to the repository root.
func (p *Program) Pos(pos token.Pos) string {
	ps := p.Fset.Position(pos)
	if !ps.IsValid() {
		return "-"
	}
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
