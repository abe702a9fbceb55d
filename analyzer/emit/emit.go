// Package emit type-checks a scenario together with the code emitted for it and
// brings it into SSA form.
package emit

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Deps are the libraries emitted code and declarations may import.
type Deps struct {
	Fset *token.FileSet
	Pkgs map[string]*types.Package
	all  []*types.Package
	mu   sync.Mutex
	free []*sharedProg
}

// LoadDeps type-checks the declarations of the libraries from source.
func LoadDeps(dir string) (*Deps, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedTypes | packages.NeedSyntax | packages.NeedImports | packages.NeedDeps | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedTypesSizes,
		Dir:  dir,
		Fset: fset,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
			if f != nil {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	ps, err := packages.Load(cfg, "./deps", "strings", "sort", "os", "context", "net/url", "encoding/json", "unicode", "unicode/utf8", "sync", "math/big", "reflect", "regexp")
	if err != nil {
		return nil, err
	}
	d := &Deps{Fset: fset, Pkgs: map[string]*types.Package{"unsafe": types.Unsafe}}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.Types != nil && p.PkgPath != "vjcheck/deps" {
			if _, ok := d.Pkgs[p.PkgPath]; !ok {
				d.Pkgs[p.PkgPath] = p.Types
				d.all = append(d.all, p.Types)
			}
		}
	})
	for _, need := range []string{"github.com/valyala/fastjson", "github.com/mailru/easyjson/jwriter", "github.com/google/uuid", "github.com/pkg/errors", "encoding/base64", "time", "math", "strconv", "bytes"} {
		if d.Pkgs[need] == nil || d.Pkgs[need].Scope().Len() == 0 {
			return nil, fmt.Errorf("library %s was not loaded", need)
		}
	}
	return d, nil
}

// A shared SSA program holds the libraries' members for many units.
type sharedProg struct {
	prog    *ssa.Program
	created map[*types.Package]bool
	uses    int
}

func (d *Deps) prog() *sharedProg {
	d.mu.Lock()
	defer d.mu.Unlock()
	if n := len(d.free); n > 0 {
		p := d.free[n-1]
		d.free = d.free[:n-1]
		return p
	}
	return &sharedProg{prog: ssa.NewProgram(d.Fset, ssa.InstantiateGenerics), created: map[*types.Package]bool{}}
}

func (d *Deps) release(p *sharedProg) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if p.uses++; p.uses < 60 {
		d.free = append(d.free, p)
	}
}

// Package is one checked package.
type Package struct {
	Path  string
	Fset  *token.FileSet
	Files map[string]*ast.File // by file name
	Types *types.Package
	Info  *types.Info
	SSA   *ssa.Package
	Errs  []error
}

// Unit is a scenario's package with the packages of its module.
type Unit struct {
	Main *Package
	Mod  map[string]*Package
	deps *Deps
	fset *token.FileSet
	src  map[string]map[string]string // import path -> file -> text
	Prog *ssa.Program
	// lease is held until Done: the functions read the shared program
	lease *sharedProg
}

// Done gives the shared program back; the unit's functions must not be used any more.
func (u *Unit) Done() {
	if u.lease != nil {
		u.deps.release(u.lease)
		u.lease = nil
	}
}

// Check type-checks the package in dir of the tree (root /w, module mod).
func (d *Deps) Check(files map[string]string, mod, dir string) *Unit {
	u := &Unit{deps: d, Mod: map[string]*Package{}, fset: d.Fset, src: map[string]map[string]string{}}
	for f, t := range files {
		if !strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "_test.go") || strings.HasPrefix(t, "//go:build ignore\n") {
			continue
		}
		dd := path.Dir(f)
		ip := mod
		if dd != "/w" {
			ip += "/" + strings.TrimPrefix(dd, "/w/")
		}
		if u.src[ip] == nil {
			u.src[ip] = map[string]string{}
		}
		u.src[ip][f] = t
	}
	ip := mod
	if dir != "/w" {
		ip += "/" + strings.TrimPrefix(dir, "/w/")
	}
	u.Main = u.load(ip)
	return u
}

func (u *Unit) Import(p string) (*types.Package, error) {
	if u.src[p] != nil {
		q := u.load(p)
		if len(q.Errs) > 0 {
			return q.Types, fmt.Errorf("package %s: %v", p, q.Errs[0])
		}
		return q.Types, nil
	}
	if t := u.deps.Pkgs[p]; t != nil {
		return t, nil
	}
	return nil, fmt.Errorf("no package %s", p)
}

func (u *Unit) load(ip string) *Package {
	if p := u.Mod[ip]; p != nil {
		return p
	}
	p := &Package{Path: ip, Fset: u.fset, Files: map[string]*ast.File{}}
	u.Mod[ip] = p
	p.Info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	var names []string
	for f := range u.src[ip] {
		names = append(names, f)
	}
	sort.Strings(names)
	var fs []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(u.fset, n, u.src[ip][n], parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			p.Errs = append(p.Errs, err)
		}
		if f != nil {
			p.Files[n] = f
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		p.Errs = append(p.Errs, fmt.Errorf("no files in %s", ip))
		return p
	}
	cfg := types.Config{Importer: u, GoVersion: "go1.18", Error: func(err error) { p.Errs = append(p.Errs, err) }}
	tp, _ := cfg.Check(ip, u.fset, fs, p.Info)
	p.Types = tp
	return p
}

// Build makes the SSA form of the main package.
func (u *Unit) Build() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("ssa: %v", r)
		}
	}()
	sp := u.deps.prog()
	u.lease = sp
	prog, created := sp.prog, sp.created
	var create func(p *types.Package)
	create = func(p *types.Package) {
		if created[p] {
			return
		}
		created[p] = true
		for _, q := range p.Imports() {
			create(q)
		}
		if q := u.Mod[p.Path()]; q != nil && q.Types == p {
			var fs []*ast.File
			var names []string
			for n := range q.Files {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				fs = append(fs, q.Files[n])
			}
			q.SSA = prog.CreatePackage(p, fs, q.Info, false)
			return
		}
		prog.CreatePackage(p, nil, nil, false)
	}
	create(u.Main.Types)
	u.Main.SSA.Build()
	u.Prog = prog
	return nil
}
