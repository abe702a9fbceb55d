package main

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"vjcheck/absint"
	"vjcheck/scen"
)

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func init() {
	register(&Prop{
		ID:      "C01",
		Rule:    "Every generator path that ends without failure on an abstract declaration yields an output and a utilities file which, with the declaration, parse and type-check with no error (unresolved names, unused imports, duplicate declarations, wrong types).",
		Case:    c01,
		Min:     map[string]int{"scenarios": 900, "files type-checked": 700},
		Trusted: []string{"the abstract interpreter's models of the standard library (DESIGN.md)", "go/types", "emitted code depends on names, keys and numbers only through the equalities reported as decisions"},
	})
	register(&Prop{
		ID:      "C10",
		Rule:    "Two-run comparison: the text emitted for a scenario is the same under four iteration orders of every map the generator ranges over, carries no value derived from time or environment, and is the same whether or not another input was generated before in the process.",
		NoCheck: true, Case: c10, Global: c10global,
		Min:     map[string]int{"scenarios": 900, "order comparisons": 100, "sequence comparisons": 6},
		Trusted: []string{"the abstract interpreter's models of the standard library (DESIGN.md)"},
	})
	register(&Prop{
		ID:      "C13",
		Rule:    "Effect and error-discipline analysis of the generator: every file it creates, writes, renames or removes is the file named in Print or valyjson_utils.go beside it, and on every path where one environment operation (open, read, parse, list, resolve, template, create, write, close, format) fails the run ends in an error or panic. Inputs without meaning must be refused.",
		NoCheck: true, Case: c13,
		Min:     map[string]int{"scenarios": 900, "failing operations": 300},
		Trusted: []string{"the abstract interpreter's models of the standard library (DESIGN.md)"},
	})
	register(&Prop{
		ID:      "C15",
		Rule:    "The method set of every declaration in the type-checked output equals the one its doc-tag asks for, with the documented signatures, and every declaration form handled when the check was written still is.",
		Case:    c15,
		Min:     map[string]int{"scenarios": 900, "declarations": 900},
		Trusted: []string{"the abstract interpreter's models of the standard library (DESIGN.md)", "go/types"},
	})
}

// ---- C01

func c01(r *R, c *Case) {
	for _, u := range c.Units {
		r.Count("files type-checked", 1)
		site := c.ID
		if v := u.variantOf(); v != "" {
			site += "|" + v
		}
		if u.Text == "" {
			r.Report(Finding{Rule: "output", Site: site, Detail: "generation succeeded without writing " + c.Output})
			continue
		}
		if len(u.Main.Errs) > 0 {
			var l []string
			for i, e := range u.Main.Errs {
				if i < 3 {
					l = append(l, e.Error())
				}
			}
			where, repo := "", ""
			if te, ok := u.Main.Errs[0].(types.Error); ok {
				where, repo = u.where(te.Pos), u.repo(te.Pos)
			}
			r.Report(Finding{Rule: "compiles", Site: site, Where: where, Repo: repo, Detail: strings.Join(l, "\n")})
			continue
		}
		r.Sample("%s: %s compiles (%d bytes)", c.ID, c.Output, len(u.Text))
	}
	for _, pt := range c.Paths {
		if failed(pt) {
			r.Count("refused inputs", 1)
		}
	}
}

func (u *Unit) variantOf() string {
	if len(u.Path.Eq()) == 0 {
		return ""
	}
	return u.variant()
}

// ---- C10

func tree(p *absint.Path) string {
	if failed(p) {
		return "FAIL"
	}
	var s strings.Builder
	var ns []string
	for n := range p.FS.Files {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if o, ok := p.FS.Orig[n]; ok && o == p.FS.Files[n] {
			continue
		}
		fmt.Fprintf(&s, "== %s\n%s\n", n, p.FS.Files[n])
	}
	return s.String()
}

func diffLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("line %d: %q against end of text", i+1, x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("line %d: %q against %q", i+1, x[i], y[i])
		}
	}
	return "one text is a prefix of the other"
}

func c10(r *R, c *Case) {
	modes := 3
	for _, pt := range c.Paths {
		if pt.Abort != "" {
			continue
		}
		for n, t := range pt.FS.Files {
			if o, ok := pt.FS.Orig[n]; ok && o == t {
				continue
			}
			if pt.Atoms.Derived(t, "env") {
				r.Report(Finding{Rule: "environment", Site: c.ID + "|" + path.Base(n), Detail: "the text contains a value read from the environment or the clock", Repo: envSources(pt)})
			}
		}
	}
	if c.Scale {
		return
	}
	iterates, dep := false, false
	for _, p := range c.Paths {
		for fn := range p.MapRanges {
			if strings.HasSuffix(fn, "explorer.Discoverer).ImportSpec") {
				dep = true // the pinned library collects, then sorts
			} else {
				iterates = true
			}
		}
		for _, e := range p.Effects {
			iterates = iterates || e.Kind == "maporder"
		}
	}
	if !iterates && dep && (r.thorough || strings.HasPrefix(c.ID, "import/") || len(c.ID)%5 == 0) {
		iterates, modes = true, 1
	}
	if !iterates {
		// no map of more than one entry is iterated: the order cannot matter
		r.Count("runs with no map iteration but the import collector's, not compared", 1)
		return
	}
	for m := 1; m <= modes; m++ {
		ps := absint.Explore(r.Prog, absint.Config{Files: c.Files, Input: c.Input, Output: c.Output, Atoms: c.Atoms, MapOrder: m})
		for _, p := range ps {
			if p.Abort != "" {
				r.Undecided(c.ID, p.Abort)
				continue
			}
			matched := 0
			for _, q := range c.Paths {
				if q.Abort != "" || !compatible(p, q) {
					continue
				}
				matched++
				r.Count("order comparisons", 1)
				a, b := tree(q), tree(p)
				if a != b {
					var where []string
					for k := range p.MapRanges {
						where = append(where, k)
					}
					sort.Strings(where)
					r.Report(Finding{Rule: "map order", Site: c.ID, Repo: "map iterations of the run: " + strings.Join(where, "; "), Detail: diffLine(a, b)})
				}
			}
			if matched == 0 {
				r.Undecided(c.ID, "map order: no path under the same assumptions: "+p.Assumed())
			}
		}
	}
	if len(c.Paths) == 1 && !failed(c.Paths[0]) {
		r.Sample("%s: same text under %d iteration orders; %d map iterations", c.ID, modes+1, len(c.Paths[0].MapRanges))
	}
}

// compatible tells whether one input can take both paths.
func compatible(p, q *absint.Path) bool {
	val := map[string]bool{}
	for _, d := range p.Decisions {
		val[d.Key] = d.Val
	}
	for _, d := range q.Decisions {
		if v, ok := val[d.Key]; ok && v != d.Val {
			return false
		}
	}
	eq := p.Eq()
	for a, l := range q.Eq() {
		if m, ok := eq[a]; ok && m != l {
			return false
		}
	}
	return true
}

func envSources(p *absint.Path) string {
	var s []string
	for _, e := range p.Effects {
		if e.Kind == "env" || e.Kind == "time" {
			s = append(s, e.Kind+" "+e.Arg+" at "+e.Pos+" in "+e.Fn)
		}
	}
	return strings.Join(s, "; ")
}

// c10global generates two inputs one after the other in one process.
func c10global(r *R) {
	all := map[string]*scen.Scenario{}
	for _, s := range scen.All() {
		all[s.ID] = s
	}
	ids := []string{"field/int/plain", "field/time/omitempty", "field/uuid/plain", "field/ext-int/plain", "field/slice-struct/plain", "top/map-int", "top/slice-int", "top/bytes", "field/bytes/plain", "import/two", "import/alias-swap", "embed/inline-ext", "field/named-int8/plain", "field/defref-int/plain"}
	all["seq/std-name"] = seqScenario("strconv")
	all["seq/local-name"] = seqScenario("v")
	type job struct{ a, b string }
	jobs := []job{{"seq/std-name", "field/slice-int/plain"}, {"seq/local-name", "field/int/plain"}}
	for i, a := range ids {
		jobs = append(jobs, job{a, ids[(i+1)%len(ids)]}, job{a, ids[(i+5)%len(ids)]}, job{a, a})
	}
	parallel(jobs, func(j job) {
		sa, sb := all[j.a], all[j.b]
		if sa == nil || sb == nil {
			r.Undecided("sequence|"+j.a+"|"+j.b, "scenario missing")
			return
		}
		// one tree holding both inputs; the second input keeps its own module directory
		files := map[string]string{}
		for f, t := range sb.Files {
			files[strings.Replace(f, "/w/", "/w/second/", 1)] = t
		}
		for f, t := range sa.Files {
			files["/w/first/"+strings.TrimPrefix(f, "/w/")] = t
		}
		in := strings.Replace(sb.Input, "/w/", "/w/second/", 1)
		out := strings.Replace(sb.Output, "/w/", "/w/second/", 1)
		fin := "/w/first/" + strings.TrimPrefix(sa.Input, "/w/")
		fout := "/w/first/" + strings.TrimPrefix(sa.Output, "/w/")
		alone := absint.Explore(r.Prog, absint.Config{Files: files, Input: in, Output: out, Atoms: sb.Atoms})
		after := absint.Explore(r.Prog, absint.Config{Files: files, Input: in, Output: out, Atoms: sb.Atoms, Script: func(d *absint.Driver) {
			absint.RunFor(d, fin, fout)
			absint.Standard(d)
		}})
		m := ""
		for _, p := range append(alone, after...) {
			m += p.Abort
		}
		if len(alone) == 0 || m != "" {
			r.Undecided("sequence|"+j.a+"|"+j.b, fmt.Sprintf("%d and %d paths %s", len(alone), len(after), m))
			return
		}
		r.Count("sequence comparisons", 1)
		for _, p := range after {
			if failed(p) {
				continue // the first input may be refused
			}
			matched := 0
			for _, q := range alone {
				if failed(q) || !compatible(p, q) {
					continue
				}
				matched++
				x, y := q.FS.Files[out], p.FS.Files[out]
				if x != y {
					r.Report(Finding{Rule: "sequence", Site: j.b + " after " + j.a, Detail: "the output differs after another input was generated in the same process: " + diffLine(x, y)})
				}
			}
			if matched == 0 {
				r.Undecided("sequence|"+j.a+"|"+j.b, "no path under the same assumptions: "+p.Assumed())
			}
		}
	})
}

// seqScenario imports a package of the module under a name emitted code uses for something else.
func seqScenario(name string) *scen.Scenario {
	b := scen.NewB()
	dir, tn := b.Key("dir"), b.Type("X")
	b.Import(b.Mod + "/" + dir)
	s := b.Scenario("seq/"+name, "//json:json\ntype "+b.Type("T")+" struct {\n\t"+b.Field("F")+" "+name+"."+tn+" `json:\""+b.Key("F")+"\"`\n}")
	s.Files[s.Input] = strings.Replace(s.Files[s.Input], "\t\""+b.Mod, "\t"+name+" \""+b.Mod, 1)
	s.Files["/w/"+dir+"/a.go"] = "package " + name + "\n\ntype " + tn + " int32\n"
	return s
}

// ---- C13

func c13(r *R, c *Case) {
	allowed := map[string]bool{c.Output: true, path.Join(path.Dir(c.Output), "valyjson_utils.go"): true}
	effects := func(ps []*absint.Path) {
		for _, p := range ps {
			for _, e := range p.Effects {
				switch e.Kind {
				case "create", "write", "remove", "rename", "mkdir", "chmod", "exec", "truncate", "overlay":
					r.Count("effects", 1)
					if (e.Kind == "create" || e.Kind == "write" || e.Kind == "truncate") && allowed[e.Arg] {
						continue
					}
					if _, was := p.FS.Orig[e.Arg]; !was && !failed(p) {
						if _, is := p.FS.Files[e.Arg]; !is && strings.HasPrefix(e.Arg, "/") {
							continue // a temporary file that is gone afterwards
						}
					}
					if e.Kind == "rename" {
						// onto a designated file from a temporary one beside it
						if _, to, ok := strings.Cut(e.Arg, " -> "); ok && allowed[to] {
							continue
						}
					}
					r.Report(Finding{Rule: "designated files", Site: c.ID + "|" + e.Kind, Repo: e.Fn + " (" + e.Pos + ")", Detail: e.Kind + " " + e.Arg})
				}
			}
			for n, o := range p.FS.Orig {
				if t, ok := p.FS.Files[n]; !allowed[n] && (!ok || t != o) {
					r.Report(Finding{Rule: "inputs intact", Site: c.ID, Detail: n + " was changed"})
				}
			}
		}
	}
	effects(c.Paths)
	for _, p := range c.Paths {
		if p.Abort == "" && c.MustFail && !failed(p) {
			r.Report(Finding{Rule: "refusal", Site: c.ID, Detail: "an input without meaning was processed without error"})
		}
	}
	if !faultScenario(c.Scenario, r.thorough) {
		return
	}
	ps := absint.Explore(r.Prog, absint.Config{Files: c.Files, Input: c.Input, Output: c.Output, Atoms: c.Atoms, Faults: true, MaxPaths: 400})
	effects(ps)
	for _, p := range ps {
		if p.Abort != "" {
			r.Undecided(c.ID+"|faults", p.Abort)
			continue
		}
		var ev *absint.Effect
		for i := range p.Effects {
			if strings.HasPrefix(p.Effects[i].Kind, "fault:") {
				ev = &p.Effects[i]
			}
		}
		if ev == nil {
			continue
		}
		r.Count("failing operations", 1)
		if !failed(p) {
			r.Report(Finding{Rule: "failure reported", Site: strings.TrimPrefix(ev.Kind, "fault:") + "|" + ev.Fn, Repo: ev.Fn + " (" + ev.Pos + ")", Detail: "scenario " + c.ID + ": the failure of this operation is dropped and the run passes for success"})
		} else {
			r.Sample("%s: failure of %s in %s ends in %s%s", c.ID, strings.TrimPrefix(ev.Kind, "fault:"), ev.Fn, p.Panic, p.ParseErr)
		}
	}
}

func faultScenario(s *scen.Scenario, thorough bool) bool {
	switch {
	case s.Scale:
		return false
	case strings.HasPrefix(s.ID, "import/"), strings.HasPrefix(s.ID, "fail/"), strings.HasPrefix(s.ID, "embed/"):
		return true
	case strings.HasPrefix(s.ID, "doc/"):
		return thorough || strings.HasPrefix(s.ID, "doc/json/")
	}
	return thorough && strings.HasSuffix(s.ID, "/plain") || s.ID == "field/time/plain" || s.ID == "field/ext-int/plain" || s.ID == "top/slice-ext-struct" || s.ID == "field/slice-ext-struct/plain" || s.ID == "field/map-ext-int32/plain"
}

// ---- C15

func (u *Unit) syntaxError() bool {
	for _, e := range u.Main.Errs {
		if _, ok := e.(types.Error); !ok {
			return true
		}
	}
	return false
}

var decoders = []string{"UnmarshalJSON", "FillFromJSON"}
var encoders = []string{"MarshalJSON", "MarshalTo", "IsZero", "Reset"}

var signatures = map[string]string{
	"UnmarshalJSON": "func([]byte) error",
	"FillFromJSON":  "func(*fastjson.Value) error",
	"validate":      "func(*fastjson.Value) error",
	"MarshalJSON":   "func() ([]byte, error)",
	"MarshalTo":     "func(*jwriter.Writer) error",
	"IsZero":        "func() bool",
	"Reset":         "func()",
}

func sigString(s *types.Signature) string {
	q := func(p *types.Package) string { return p.Name() }
	var in, out []string
	for i := 0; i < s.Params().Len(); i++ {
		in = append(in, types.TypeString(s.Params().At(i).Type(), q))
	}
	for i := 0; i < s.Results().Len(); i++ {
		out = append(out, types.TypeString(s.Results().At(i).Type(), q))
	}
	t := "func(" + strings.Join(in, ", ") + ")"
	switch len(out) {
	case 0:
	case 1:
		t += " " + out[0]
	default:
		t += " (" + strings.Join(out, ", ") + ")"
	}
	return t
}

func c15(r *R, c *Case) {
	ok := false
	for _, p := range c.Paths {
		if p.Abort == "" && !failed(p) {
			ok = true
		}
	}
	if supported()[c.ID] && !ok {
		why := ""
		for _, p := range c.Paths {
			why += p.Panic + p.ParseErr + " " + p.PanicPos
		}
		r.Report(Finding{Rule: "handled form", Site: c.ID, Detail: "a form of declaration the generator handles is refused: " + why})
	}
	out := scen.Render(c.Atoms, c.Output)
	for _, u := range c.Units {
		if u.Main.Types == nil || u.syntaxError() {
			continue // C01
		}
		u.Decls = declsOf(u)
		for _, d := range u.sortedDecls() {
			r.Count("declarations", 1)
			if d.Divided {
				continue // C01
			}
			want := map[string]bool{}
			if (d.Tagged || d.Heirs != nil) && !d.Tags["custom"] {
				if !d.Tags["encode"] {
					for _, m := range decoders {
						want[m] = true
					}
					if d.Struct && !d.Tags["transit"] {
						want["validate"] = true
					}
				}
				if !d.Tags["decode"] {
					for _, m := range encoders {
						want[m] = true
					}
				}
			}
			got := map[string]bool{}
			for _, m := range methodsOf(d.Named) {
				if u.Main.Fset.Position(m.Pos()).Filename != out {
					continue
				}
				got[m.Name()] = true
				r.Count("methods", 1)
				if s := signatures[m.Name()]; s != "" {
					if g := sigString(m.Type().(*types.Signature)); g != s {
						r.Report(Finding{Rule: "signature", Site: c.ID + "|" + d.Role + "." + m.Name(), Where: u.where(m.Pos()), Repo: u.repo(m.Pos()), Detail: g + " instead of " + s})
					}
				}
			}
			for m := range want {
				if !got[m] {
					r.Report(Finding{Rule: "method missing", Site: c.ID + "|" + d.Role + "." + m, Detail: fmt.Sprintf("doc-tag words %v of %s ask for %s", keys(d.Tags), d.Name, m)})
				}
			}
			for m := range got {
				if !want[m] && signatures[m] != "" {
					r.Report(Finding{Rule: "method not asked for", Site: c.ID + "|" + d.Role + "." + m, Detail: fmt.Sprintf("doc-tag words %v of %s exclude %s", keys(d.Tags), d.Name, m)})
				}
			}
			r.Sample("%s: %s %v has %v", c.ID, d.Name, keys(d.Tags), keys(got))
		}
		for _, e := range u.Main.Errs {
			if strings.Contains(e.Error(), "already declared") || strings.Contains(e.Error(), "redeclared") {
				r.Report(Finding{Rule: "method twice", Site: c.ID, Detail: e.Error()})
			}
		}
	}
}

func keys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
