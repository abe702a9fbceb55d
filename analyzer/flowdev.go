package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"vjcheck/absint"
	"vjcheck/emit"
	"vjcheck/flow"
	"vjcheck/scen"

	"golang.org/x/tools/go/ssa"
)

// flowdev is a development aid: the paths of the emitted methods of a scenario.
func flowdev(filter, method string, show bool) {
	p, err := absint.Load(repoDir, "./...")
	if err != nil {
		panic(err)
	}
	d, err := emit.LoadDeps("/verif/analyzer")
	if err != nil {
		panic(err)
	}
	var cs []*Case
	for _, s := range scen.All() {
		if strings.Contains(s.ID, filter) && !s.Scale {
			cs = append(cs, &Case{Scenario: s})
		}
	}
	t0 := time.Now()
	parallel(cs, func(c *Case) {
		c.Paths = generate(p, c.Scenario).Paths
		c.check(d)
		for _, u := range c.Units {
			if len(u.Main.Errs) > 0 {
				continue
			}
			defer u.Done()
			if err := u.Build(); err != nil {
				fmt.Println(c.ID, "BUILD", err)
				continue
			}
			out := scen.Render(c.Atoms, c.Output)
			fns := emitted(u, out)
			if strings.HasPrefix(method, "@") {
				fns = utilities(u)
			}
			for _, fn := range fns {
				if method != "" && fn.Name() != strings.TrimPrefix(method, "@") {
					continue
				}
				e := &flow.Engine{Unit: u.Unit, Bound: 2, Inner: 1}
				t := time.Now()
				ps := e.Run(fn, nil)
				for i, p := range ps {
					if p.Abort != "" {
						fmt.Println("ABORT", c.ID, fn, p.Abort)
					}
					if show {
						fmt.Printf("--- %s path %d ok=%v crash=%v ret=%v\n", fn, i, p.Crash == nil && p.OK(), p.Crash != nil, p.Ret)
						if p.Exec != nil {
							fmt.Print(p.Exec.String())
						}
					}
				}
				if dt := time.Since(t); show || len(ps) > 500 || dt > time.Second {
					fmt.Println(c.ID, fn, "paths", len(ps), dt)
				}
			}
		}
	})
	fmt.Println("total", len(cs), time.Since(t0))
}

// emitted lists the methods declared in file.
func emitted(u *Unit, file string) []*ssa.Function {
	var out []*ssa.Function
	if u.Main.SSA == nil {
		return nil
	}
	sc := u.Main.Types.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		for _, m := range methodsOf(o.Type()) {
			if u.Main.Fset.Position(m.Pos()).Filename != file {
				continue
			}
			if fn := u.Main.SSA.Prog.FuncValue(m); fn != nil && len(fn.Blocks) > 0 {
				out = append(out, fn)
			}
		}
	}
	return out
}

// utilities lists the functions and methods of the files that belong neither
// to the scenario nor to the emitted code of its declarations.
func utilities(u *Unit) []*ssa.Function {
	var out []*ssa.Function
	if u.Main.SSA == nil {
		return nil
	}
	given := map[string]bool{scen.Render(u.Case.Atoms, u.Case.Output): true}
	for f := range u.Case.Files {
		given[scen.Render(u.Case.Atoms, f)] = true
	}
	add := func(o *types.Func) {
		if given[u.Main.Fset.Position(o.Pos()).Filename] {
			return
		}
		if fn := u.Main.SSA.Prog.FuncValue(o); fn != nil && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	sc := u.Main.Types.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if f, ok := o.(*types.Func); ok {
			add(f)
			continue
		}
		for _, m := range methodsOf(o.Type()) {
			add(m)
		}
	}
	return out
}
