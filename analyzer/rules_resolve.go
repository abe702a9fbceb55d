package main

import (
	"strings"

	"vjcheck/scen"
)

func init() {
	register(&Prop{
		ID:   "C19",
		Rule: "For every arrangement of packages of the catalogue (aliases, namesakes in other packages, directories, test packages and the file itself, packages called otherwise than their directory, chains of declarations, inlined and embedded structs): what is emitted is held, field by field, against the fields and types the Go type checker gives the declaration. Keys read and written, values matched, number ranges and type-checking have to agree; what cannot be resolved has to be refused.",
		Select: func(s *scen.Scenario) bool {
			return s.Group == "embed" || s.Group == "import" || strings.Contains(s.ID, "ext-") || strings.HasPrefix(s.ID, "fail/missing") || s.ID == "fail/broken-package"
		},
		Case:    c19case,
		Methods: map[string]bool{"FillFromJSON": true, "MarshalTo": true}, Method: c19,
		Min:     map[string]int{"obligations": 500, "declarations resolved": 60},
		Trusted: []string{trustAbs, trustFlow, trustLoop, trustDec, "go/types resolves names as Go does"},
	})
}

func c19case(r *R, c *Case) {
	if c.MustFail {
		r.Count("declarations to be refused", 1)
		for _, pt := range c.Paths {
			if pt.Abort == "" && !failed(pt) {
				r.Report(Finding{Rule: "refused", Site: c.ID, Detail: "the declaration does not resolve; generation succeeds all the same"})
			}
		}
		return
	}
	if supported()[c.ID] {
		ok, why := false, ""
		for _, pt := range c.Paths {
			ok = ok || pt.Abort == "" && !failed(pt)
			why += pt.Panic + pt.ParseErr + " " + pt.PanicPos
		}
		if !ok {
			r.Report(Finding{Rule: "resolves", Site: c.ID, Detail: "names that resolve are refused: " + why})
		}
	}
	for _, u := range c.Units {
		if len(u.Main.Errs) > 0 {
			r.Report(Finding{Rule: "resolves", Site: c.ID, Detail: "the emitted code does not fit the declaration: " + u.Main.Errs[0].Error()})
			continue
		}
		r.Count("declarations resolved", 1)
	}
}

// c19 holds the methods of the declaration against its fields.
func c19(r *R, m *M) {
	q := &R{ID: r.ID, Tier: r.Tier, Prog: r.Prog, Deps: r.Deps, find: map[string]*Finding{}, count: map[string]int{}, thorough: r.thorough}
	c05(q, m)
	if m.Name == "MarshalTo" {
		c12(q, m)
	} else {
		c14(q, m)
		if m.U.Case.Group == "import" || m.U.Case.Group == "embed" {
			c02(q, m)
		}
	}
	for _, n := range q.count {
		r.Count("obligations", n)
	}
	for _, f := range q.find {
		// what C02 and C05 say of any declaration
		if f.Rule == "own error" || strings.HasSuffix(f.Site, " below") {
			continue
		}
		r.Report(*f)
	}
}
