// Package absint is an abstract interpreter for the SSA form of the valyjson
// generator. It evaluates the generator over *abstract* declarations: all
// names, keys, defaults, layouts, module and package names are opaque atoms
// (see atoms.go). Conditions that depend on an atom are undecided and both
// outcomes are explored. Nothing of the analysed program is compiled or run.
package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the resolved program under analysis.
type Program struct {
	Dir       string // repository root
	Mod       string // module path
	Fset      *token.FileSet
	Pkgs      []*packages.Package // packages of the repository (initial)
	All       map[string]*packages.Package
	SSA       *ssa.Program
	Embed     map[string][]string // package path -> embedded file names (absolute)
	wordSizes types.Sizes
	infos     sync.Map // *ssa.Function -> *fnInfo
	names     sync.Map // *ssa.Function -> string
}

// Load type-checks the repository's packages (no tests) with all
// dependencies from source and builds their SSA form.
func Load(dir string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes |
			packages.NeedModule | packages.NeedEmbedFiles,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	cfg.Fset = token.NewFileSet()
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, fmt.Errorf("loading %s: %w", dir, err)
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages matched %v in %s", patterns, dir)
	}
	p := &Program{Dir: dir, Fset: cfg.Fset, Pkgs: pkgs, All: map[string]*packages.Package{}, Embed: map[string][]string{}}
	var errs []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		p.All[pk.PkgPath] = pk
		if len(pk.EmbedFiles) > 0 {
			p.Embed[pk.PkgPath] = pk.EmbedFiles
		}
		for _, e := range pk.Errors {
			if len(errs) < 10 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the analysed program does not type-check: %s", strings.Join(errs, "; "))
	}
	for _, pk := range pkgs {
		if pk.Module != nil {
			p.Mod = pk.Module.Path
		}
		p.wordSizes = pk.TypesSizes
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	return p, nil
}

// IsRepo reports whether a package belongs to the analysed repository.
func (p *Program) IsRepo(path string) bool {
	return path == p.Mod || strings.HasPrefix(path, p.Mod+"/")
}

// Rel renders a position relative to the repository root.
func (p *Program) Rel(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}
