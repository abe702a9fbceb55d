package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vjcheck/absint"
	"vjcheck/emit"
	"vjcheck/flow"
	"vjcheck/scen"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation.
type Finding struct {
	Rule   string // rule of the property
	Site   string // construct it is violated at, independent of positions and chosen names
	Where  string // emitted construct
	Repo   string // construct of the generator that emits it
	Detail string
}

// M is an emitted method with its paths.
type M struct {
	U     *Unit
	D     *Decl
	Fn    *ssa.Function
	Name  string
	Paths []*flow.Path
}

// R is one run of a check.
type R struct {
	ID, Tier string
	Prog     *absint.Program
	Deps     *emit.Deps
	mu       sync.Mutex
	find     map[string]*Finding
	count    map[string]int
	samples  []string
	thorough bool
}

// Prop is the machinery of one property.
type Prop struct {
	ID string
	// Select restricts the scenarios (nil: all).
	Select func(s *scen.Scenario) bool
	// NoCheck: the emitted code is not type-checked.
	NoCheck bool
	// Case looks at the outcomes of generation.
	Case func(r *R, c *Case)
	// Unit looks at emitted code that compiles.
	Unit func(r *R, u *Unit)
	// Methods names the emitted methods Method wants.
	Methods map[string]bool
	Method  func(r *R, m *M)
	// Scale names the methods analysed for scenarios with very many fields too.
	Scale map[string]bool
	// Prep constrains the initial state of a method's analysis.
	Prep func(m *M) func(*flow.Exec)
	// Global runs once.
	Global func(r *R)
	// Min are instance counts below which the check has lost its subject.
	Min map[string]int
	// Rule and Trusted describe the check in its evidence.
	Rule    string
	Trusted []string
}

func (r *R) Report(f Finding) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := f.Rule + "|" + f.Site
	if r.find[k] == nil {
		g := f
		r.find[k] = &g
	}
}

func (r *R) Count(name string, n int) {
	r.mu.Lock()
	r.count[name] += n
	r.mu.Unlock()
}

func (r *R) Sample(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(format, a...))
	}
}

// Undecided reports an obligation the analysis could not decide.
func (r *R) Undecided(site, why string) {
	r.Report(Finding{Rule: "undecided", Site: site, Detail: why})
}

var repoDir = "/repo"

func verifDir() string {
	if d := os.Getenv("VJ_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// Loaded once per process (a process checks one property, a development run several).
var (
	loadRepo = sync.OnceValues(func() (*absint.Program, error) { return absint.Load(repoDir, "./...") })
	loadDeps = sync.OnceValues(func() (*emit.Deps, error) { return emit.LoadDeps(filepath.Join(verifDir(), "analyzer")) })
)

func runCheck(id, tier string) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fmt.Printf("unknown property %s\nVIOLATION property=%s replay=none\n", id, id)
		return 1
	}
	r := &R{ID: id, Tier: tier, find: map[string]*Finding{}, count: map[string]int{}, thorough: tier == "thorough"}
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.Undecided("analyser", fmt.Sprintf("%v\n%s", x, debug.Stack()))
			}
		}()
		r.run(p)
	}()
	return r.finish(p, start)
}

func (r *R) run(p *Prop) {
	prog, err := loadRepo()
	if err != nil {
		r.Undecided("load", "the repository does not load: "+err.Error())
		return
	}
	r.Prog = prog
	d, err := loadDeps()
	if err != nil {
		r.Undecided("load", err.Error())
		return
	}
	r.Deps = d
	if p.Global != nil {
		p.Global(r)
	}
	if p.Case == nil && p.Unit == nil && p.Method == nil {
		return
	}
	var cs []*Case
	only := onlyScenarios()
	for _, s := range scen.All() {
		if p.Select != nil && !p.Select(s) || !only(s.ID) {
			continue
		}
		cs = append(cs, &Case{Scenario: s})
	}
	deadline := time.Now().Add(720 * time.Second)
	parallel(cs, func(c *Case) {
		if time.Now().After(deadline) {
			r.Undecided(c.ID, "out of time")
			return
		}
		defer func() {
			if x := recover(); x != nil {
				r.Undecided(c.ID, fmt.Sprintf("%v\n%s", x, debug.Stack()))
			}
		}()
		r.runCase(p, c)
		c.Paths, c.Units = nil, nil
	})
}

func (r *R) runCase(p *Prop, c *Case) {
	c.Paths = generate(r.Prog, c.Scenario).Paths
	r.Count("scenarios", 1)
	for _, pt := range c.Paths {
		r.Count("generator paths", 1)
		if pt.Abort != "" {
			r.Undecided(c.ID, "generation could not be analysed: "+pt.Abort)
		}
	}
	if n := len(c.Paths); n > 8 && c.Paths[n-1].Abort != "" {
		c.Paths = c.Paths[n-8:] // undecided anyway
	}
	if p.Case == nil && p.Unit == nil && p.Method == nil {
		return
	}
	if !p.NoCheck {
		c.check(r.Deps)
	}
	if p.Case != nil {
		p.Case(r, c)
	}
	if p.Unit == nil && p.Method == nil {
		return
	}
	defer func() {
		for _, u := range c.Units {
			u.Done()
		}
	}()
	for _, u := range c.Units {
		if len(u.Main.Errs) > 0 {
			r.Count("units that do not compile (C01)", 1)
			continue
		}
		r.Count("emitted files", 1)
		if p.Method != nil {
			if err := u.Build(); err != nil {
				r.Undecided(c.ID, "SSA form: "+err.Error())
				continue
			}
		}
		u.Decls = declsOf(u)
		if p.Method != nil && c.ID == utilScenario {
			r.utilities(u)
		}
		if p.Unit != nil {
			p.Unit(r, u)
		}
		if p.Method == nil {
			continue
		}
		for _, fn := range emitted(u, scen.Render(c.Atoms, c.Output)) {
			if p.Methods != nil && !p.Methods[fn.Name()] || c.Scale && !(c.Many && p.Scale[fn.Name()]) {
				continue
			}
			m := &M{U: u, Fn: fn, Name: fn.Name(), D: u.declOf(fn)}
			if m.D == nil {
				r.Undecided(c.ID+"|"+fn.Name(), "no declaration for the receiver of "+fn.String())
				continue
			}
			b, in := 2, 1
			if r.thorough && !c.Heavy && !c.Scale {
				b, in = 3, 1
			}
			e := &flow.Engine{Unit: u.Unit, Bound: b, Inner: in}
			var prep func(*flow.Exec)
			if p.Prep != nil {
				prep = p.Prep(m)
			}
			m.Paths = e.Run(fn, prep)
			if n := len(m.Paths); b > 2 && n > 0 && m.Paths[n-1].Abort != "" {
				// too many paths with the deeper bound
				r.Count("methods kept at the quick bound", 1)
				e.Bound = 2
				m.Paths = e.Run(fn, prep)
			}
			bad := false
			for _, q := range m.Paths {
				if q.Abort != "" {
					r.Undecided(m.site(""), "flow analysis: "+q.Abort)
					bad = true
				}
			}
			r.Count("emitted methods", 1)
			r.Count("method paths", len(m.Paths))
			if !bad {
				p.Method(r, m)
			}
		}
	}
}

// site names a construct of a method: scenario, declared type, method, detail.
func (m *M) site(detail string) string {
	s := m.U.Case.ID + "|" + m.D.Role + "." + m.Name
	if m.U.Path != nil && len(m.U.Path.Eq()) > 0 {
		s += "|" + m.U.variant()
	}
	if detail != "" {
		s += "|" + detail
	}
	return s
}

func (u *Unit) variant() string {
	var vs []string
	for a, l := range u.Path.Eq() {
		vs = append(vs, u.role(scen.Render(u.Case.Atoms, a))+"="+l)
	}
	sort.Strings(vs)
	return strings.Join(vs, ",")
}

// role turns a rendered name into the atom's description.
func (u *Unit) role(name string) string {
	if u.roles == nil {
		u.roles = map[string]string{}
		for _, a := range u.Case.Atoms.All() {
			if a.Desc != "" {
				u.roles[scen.Render(u.Case.Atoms, a.Text)] = a.Desc
			}
		}
	}
	if d, ok := u.roles[name]; ok {
		return d
	}
	return name
}

// ---- known findings

type known struct {
	id, what string
	sites    map[string]bool
	hit      int
}

func loadKnown(prop string) ([]*known, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []*known
	var cur *known
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "finding:"):
			cur = nil
			f := strings.Fields(t)
			if len(f) < 3 || f[1] != "property="+prop {
				continue
			}
			cur = &known{id: strings.TrimPrefix(f[2], "id="), what: strings.Join(f[3:], " "), sites: map[string]bool{}}
			out = append(out, cur)
		case strings.HasPrefix(t, "site:") && cur != nil:
			cur.sites[strings.TrimSpace(t[5:])] = true
		}
	}
	return out, nil
}

func (r *R) finish(p *Prop, start time.Time) int {
	for k, n := range p.Min {
		if os.Getenv("VJ_ONLY") == "" && r.count[k] < n {
			r.Undecided("coverage|"+k, fmt.Sprintf("only %d %s were analysed, at least %d are expected", r.count[k], k, n))
		}
	}
	ks, err := loadKnown(r.ID)
	if err != nil {
		r.Undecided("known findings", err.Error())
	}
	var sites []string
	for k := range r.find {
		sites = append(sites, k)
	}
	sort.Strings(sites)
	var fresh []*Finding
	for _, s := range sites {
		f := r.find[s]
		ok := false
		if f.Rule != "undecided" {
			for _, k := range ks {
				if k.sites[s] {
					k.hit++
					ok = true
				}
			}
		}
		if !ok {
			fresh = append(fresh, f)
		}
	}
	if os.Getenv("VJ_SITES") != "" {
		for _, f := range fresh {
			fmt.Println("  site:", f.Rule+"|"+f.Site)
		}
	}
	nk := 0
	for _, k := range ks {
		if k.hit > 0 {
			nk += k.hit
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d of %d listed sites)\n", r.ID, k.id, k.what, k.hit, len(k.sites))
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":    p.Rule,
		"known_findings": nk,
		"samples":        r.samples,
	}
	total := map[string]int{}
	for k, v := range r.count {
		total[k] = v
	}
	cov["measured"] = total
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append([]string{}, p.Trusted...), "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	fmt.Printf("%s (%s): %s, %.1f s\n", r.ID, r.Tier, counts(r.count), time.Since(start).Seconds())
	if len(fresh) == 0 {
		return 0
	}
	rep := filepath.Join(dir, r.ID+".violations.txt")
	var w strings.Builder
	for _, f := range fresh {
		fmt.Fprintf(&w, "rule %s\n  construct: %s\n", f.Rule, f.Site)
		if f.Where != "" {
			fmt.Fprintf(&w, "  emitted: %s\n", f.Where)
		}
		if f.Repo != "" {
			fmt.Fprintf(&w, "  generator: %s\n", f.Repo)
		}
		fmt.Fprintf(&w, "  %s\n\n", strings.ReplaceAll(f.Detail, "\n", "\n  "))
	}
	os.WriteFile(rep, []byte(w.String()), 0o644)
	if os.Getenv("VJ_SITES") == "" {
		n := 0
		for _, l := range strings.Split(w.String(), "\n") {
			if n++; n > 60 {
				fmt.Println("…")
				break
			}
			fmt.Println(l)
		}
	}
	fmt.Printf("%d violated obligations\nVIOLATION property=%s replay=%s\n", len(fresh), r.ID, rep)
	return 1
}

func counts(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%d %s", m[k], k))
	}
	return strings.Join(s, ", ")
}
