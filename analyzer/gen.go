package main

import (
	"path"
	"runtime"
	"strings"
	"sync"

	"vjcheck/absint"
	"vjcheck/emit"
	"vjcheck/scen"
)

// Case is one scenario with the outcomes of its generation.
type Case struct {
	*scen.Scenario
	Paths []*absint.Path
	Units []*Unit // one per successful path
}

// Unit is the emitted code of one successful path.
type Unit struct {
	Case *Case
	Path *absint.Path
	*emit.Unit
	Text  string            // rendered emitted file
	Files map[string]string // rendered tree
	Decls map[string]*Decl
	roles map[string]string
	pools map[string]string // parser pool → declaration that takes from it
}

func failed(p *absint.Path) bool { return p.Panic != "" || p.ParseErr != "" || p.Exit }

func generate(p *absint.Program, s *scen.Scenario) *Case {
	c := &Case{Scenario: s}
	c.Paths = absint.Explore(p, absint.Config{Files: s.Files, Input: s.Input, Output: s.Output, Atoms: s.Atoms})
	return c
}

func (c *Case) render(pt *absint.Path) map[string]string {
	out := map[string]string{}
	eq := pt.Eq()
	for f, t := range pt.FS.Files {
		for a, l := range eq {
			f = strings.ReplaceAll(f, a, l)
			t = strings.ReplaceAll(t, a, l)
		}
		out[scen.Render(c.Atoms, f)] = scen.Render(c.Atoms, t)
	}
	return out
}

func (c *Case) check(d *emit.Deps) {
	for _, pt := range c.Paths {
		if failed(pt) || pt.Abort != "" {
			continue
		}
		u := &Unit{Case: c, Path: pt, Files: c.render(pt)}
		in := scen.Render(c.Atoms, c.Input)
		u.Text = u.Files[scen.Render(c.Atoms, c.Output)]
		mod := ""
		for _, l := range strings.Split(u.Files["/w/go.mod"], "\n") {
			if strings.HasPrefix(l, "module ") {
				mod = strings.TrimSpace(l[7:])
			}
		}
		u.Unit = d.Check(u.Files, mod, path.Dir(in))
		c.Units = append(c.Units, u)
	}
}

func parallel[T any](xs []T, f func(T)) {
	var wg sync.WaitGroup
	ch := make(chan T)
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x := range ch {
				f(x)
			}
		}()
	}
	for _, x := range xs {
		ch <- x
	}
	close(ch)
	wg.Wait()
}
