package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"vjcheck/absint"
	"vjcheck/emit"
	"vjcheck/scen"
)

// scan is a development aid: the fate of every scenario.
func scan(filter string, dump bool) {
	t0 := time.Now()
	p, err := absint.Load(repoDir, "./...")
	if err != nil {
		panic(err)
	}
	d, err := emit.LoadDeps("/verif/analyzer")
	if err != nil {
		panic(err)
	}
	fmt.Fprintln(os.Stderr, "load", time.Since(t0))
	var cs []*Case
	for _, s := range scen.All() {
		if strings.Contains(s.ID, filter) {
			cs = append(cs, &Case{Scenario: s})
		}
	}
	parallel(cs, func(c *Case) {
		c.Paths = generate(p, c.Scenario).Paths
		c.check(d)
		for _, u := range c.Units {
			if len(u.Main.Errs) == 0 {
				err := u.Build()
				u.Done()
				if err != nil {
					u.Main.Errs = append(u.Main.Errs, err)
				}
			}
		}
	})
	for _, c := range cs {
		st := []string{}
		k := 0
		for _, pt := range c.Paths {
			switch {
			case pt.Abort != "":
				st = append(st, "ABORT "+strings.SplitN(pt.Abort, "\n", 2)[0])
			case failed(pt):
				st = append(st, "FAIL "+pt.Panic+pt.ParseErr)
			default:
				u := c.Units[k]
				k++
				if len(u.Main.Errs) > 0 {
					st = append(st, "NOCOMPILE "+u.Main.Errs[0].Error())
				} else {
					st = append(st, "ok")
				}
				if dump {
					fmt.Println(u.Files[scen.Render(c.Atoms, c.Input)])
					fmt.Println(u.Text)
				}
			}
		}
		fmt.Println(c.ID, len(c.Paths), st)
		if dump {
			for _, pt := range c.Paths {
				fmt.Println(pt.Assumed(), pt.Panic, pt.ParseErr)
			}
		}
	}
	fmt.Fprintln(os.Stderr, "total", len(cs), time.Since(t0))
}

// onlyScenarios restricts a development run: VJ_ONLY is a part of the ID or @file with whole IDs.
func onlyScenarios() func(id string) bool {
	only := os.Getenv("VJ_ONLY")
	if !strings.HasPrefix(only, "@") {
		return func(id string) bool { return strings.Contains(id, only) }
	}
	b, err := os.ReadFile(only[1:])
	if err != nil {
		panic(err)
	}
	ids := map[string]bool{}
	for _, l := range strings.Fields(string(b)) {
		ids[l] = true
	}
	return func(id string) bool { return ids[id] }
}

// texts is a development aid: a digest of what is emitted for every scenario.
func texts() {
	p, err := absint.Load(repoDir, "./...")
	if err != nil {
		panic(err)
	}
	var cs []*Case
	for _, s := range scen.All() {
		cs = append(cs, &Case{Scenario: s})
	}
	sums := make([]string, len(cs))
	at := map[*Case]int{}
	for i, c := range cs {
		at[c] = i
	}
	parallel(cs, func(c *Case) {
		var b strings.Builder
		for _, pt := range generate(p, c.Scenario).Paths {
			fmt.Fprintln(&b, pt.Assumed(), pt.Panic, pt.ParseErr, pt.Exit, pt.Abort)
			var fs []string
			for f := range pt.FS.Files {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				fmt.Fprintln(&b, f, pt.FS.Files[f])
			}
		}
		sums[at[c]] = fmt.Sprintf("%x", sha256.Sum256([]byte(b.String())))
	})
	for i, c := range cs {
		fmt.Println(c.ID, sums[i])
	}
}
