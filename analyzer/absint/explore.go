package absint

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Config describes one abstract use of the generator.
type Config struct {
	Files    map[string]string // abstract source tree
	Input    string            // declaration file
	Output   string
	MapOrder int
	Faults   bool
	MaxPaths int
	Atoms    *Atoms
	// Script overrides the default sequence of calls.
	Script func(d *Driver)
}

// Path is the outcome of one path.
type Path struct {
	Decisions []Decision
	Panic     string // panic message of the analysed program ("" if none)
	PanicPos  string
	ParseErr  string
	Exit      bool
	Abort     string // the analysis gave up on this path
	FS        *VFS
	Effects   []Effect
	Printed   []PrintedAST
	Calls     map[string]int
	MapRanges map[string]int
	Atoms     *Atoms
	Steps     int
}

// Eq returns the equalities "atom text = literal" assumed on the path.
func (p *Path) Eq() map[string]string {
	out := map[string]string{}
	for _, d := range p.Decisions {
		if d.Val && strings.HasPrefix(d.Key, "eq:") {
			if i := strings.Index(d.Key, " == "); i > 0 {
				var lit string
				fmt.Sscanf(d.Key[i+4:], "%q", &lit)
				out[d.Key[3:i]] = lit
			}
		}
	}
	return out
}

// Assumed renders the decisions of a path.
func (p *Path) Assumed() string {
	var s []string
	for _, d := range p.Decisions {
		s = append(s, fmt.Sprintf("%s=%v@%s", d.Key, d.Val, d.Pos))
	}
	return strings.Join(s, "; ")
}

// Explore evaluates every path of a use of the generator.
func Explore(p *Program, c Config) []*Path {
	if c.MaxPaths == 0 {
		c.MaxPaths = 64
	}
	if c.Atoms == nil {
		c.Atoms = NewAtoms()
	}
	var out []*Path
	prefix := []bool{}
	for {
		path, run := runOne(p, c, prefix)
		out = append(out, path)
		// next prefix: flip the last false decision
		ds := run.Decisions
		i := len(ds) - 1
		for i >= 0 && ds[i].Val {
			i--
		}
		if i < 0 {
			return out
		}
		prefix = prefix[:0]
		for j := 0; j < i; j++ {
			prefix = append(prefix, ds[j].Val)
		}
		prefix = append(prefix, true)
		if len(out) >= c.MaxPaths {
			out = append(out, &Path{Abort: fmt.Sprintf("more than %d paths", c.MaxPaths), Atoms: c.Atoms, FS: NewVFS(nil)})
			return out
		}
	}
}

// Driver calls the generator's public functions on one path.
type Driver struct {
	r  *Run
	fr *frame
	c  Config
	p  *Path
}

func (d *Driver) fn(pkg, name string) *ssa.Function {
	sp := d.r.P.SSA.ImportedPackage(d.r.P.Mod + pkg)
	if sp == nil {
		panic(unmodelled{"package " + d.r.P.Mod + pkg + " not found"})
	}
	f := sp.Func(name)
	if f == nil {
		panic(unmodelled{"function " + pkg + "." + name + " not found"})
	}
	return f
}

// New calls generator.New(file).
func (d *Driver) New(file string) any {
	return d.r.call(d.fr, d.fn("/generator", "New"), []value{file})
}

// Method calls a method of *generator.Gen.
func (d *Driver) Method(g any, name string, args ...any) any {
	sp := d.r.P.SSA.ImportedPackage(d.r.P.Mod + "/generator")
	t := sp.Type("Gen")
	if t == nil {
		panic(unmodelled{"generator.Gen not found"})
	}
	f := d.r.P.SSA.LookupMethod(types.NewPointer(t.Type()), nil, name)
	if f == nil {
		panic(unmodelled{"method generator.Gen." + name + " not found"})
	}
	a := []value{g}
	for _, x := range args {
		a = append(a, x)
	}
	if f.Signature.Variadic() && len(args) < f.Signature.Params().Len() {
		a = append(a, []value(nil))
	}
	return d.r.call(d.fr, f, a)
}

// FailErr records an error result; true if it is non-nil.
func (d *Driver) FailErr(v any) bool {
	it, ok := v.(iface)
	if !ok || it.t == nil {
		return false
	}
	d.p.ParseErr = d.r.display(d.fr, it, 'v', false)
	return true
}

// Standard is the sequence of the documentation.
func Standard(d *Driver) {
	g := d.New(d.c.Input)
	if d.FailErr(d.Method(g, "Parse")) {
		return
	}
	d.Method(g, "BuildDecoders")
	d.Method(g, "BuildEncoders")
	d.Method(g, "FixImports")
	// Print may report failure by panic or, should it grow a result, by error
	if res := d.Method(g, "Print", d.c.Output); res != nil {
		d.FailErr(res)
	}
}

func runOne(p *Program, c Config, prefix []bool) (path *Path, r *Run) {
	r = newRun(p, c.Atoms, NewVFS(c.Files), append([]bool{}, prefix...))
	r.MapOrder, r.Faults = c.MapOrder, c.Faults
	path = &Path{FS: r.FS, Atoms: c.Atoms}
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case targetPanic:
				path.Panic, path.PanicPos = "panic", x.pos
				func() {
					defer func() { recover() }()
					path.Panic = r.display(&frame{r: r}, x.v, 'v', false)
				}()
				if path.Panic == "" {
					path.Panic = "panic"
				}
			case unmodelled:
				path.Abort = "not modelled: " + x.what
			case budget:
				path.Abort = x.what
			case exitProg:
				path.Exit = true
			default:
				path.Abort = fmt.Sprintf("analyser failure: %v\n%s", x, debug.Stack())
			}
		}
		path.Decisions, path.Effects, path.Printed = r.Decisions, r.Effects, r.Printed
		path.Calls, path.MapRanges, path.Steps = r.Calls, r.MapRanges, r.steps
	}()
	script := c.Script
	if script == nil {
		script = Standard
	}
	script(&Driver{r: r, fr: &frame{r: r}, c: c, p: path})
	return path, r
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// RunFor is the standard sequence for another input.
func RunFor(d *Driver, in, out string) {
	c := d.c
	c.Input, c.Output = in, out
	Standard(&Driver{r: d.r, fr: d.fr, c: c, p: d.p})
}
