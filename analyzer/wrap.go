package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"vjcheck/flow"
)

// Where in the document a JSON value lies, and what an error says about it.

// step is one step into a document.
type step struct {
	key   string     // constant key
	kt    *flow.Term // key of a visited entry
	idx   int64
	isIdx bool
}

func (s step) String() string {
	switch {
	case s.kt != nil:
		return s.kt.String()
	case s.isIdx:
		return strconv.FormatInt(s.idx, 10)
	}
	return strconv.Quote(s.key)
}

func steps(ss []step) string {
	var out []string
	for _, s := range ss {
		out = append(out, s.String())
	}
	return "[" + strings.Join(out, " ") + "]"
}

// place is the path from v to the JSON value t.
func place(p *flow.Path, t, v *flow.Term) ([]step, bool) {
	t = t.Strip()
	if t == v || objectTerm(t, v) {
		return nil, true
	}
	switch {
	case t.Op == flow.OPure && t.S == "json.Get" && len(t.A) == 2:
		k, ok := constText(p, t.A[1])
		if !ok {
			return nil, false
		}
		up, ok := place(p, t.A[0], v)
		return append(up, step{key: k}), ok
	case t.Op == flow.OPure && t.S == "json.member":
		up, ok := place(p, t.A[0], v)
		k := entryKey(p, t)
		if k == nil {
			return nil, false
		}
		return append(up, step{kt: k}), ok
	case t.Op == flow.OExtract && t.I == 0 && t.A[0].Op == flow.OPure && (t.A[0].S == "json.Object" || t.A[0].S == "json.Array"):
		return place(p, t.A[0].A[0], v)
	case t.Op == flow.OInit && t.A[0].Op == flow.OIAddr:
		a := t.A[0]
		i, ok := constInt(a.A[1])
		if !ok {
			return nil, false
		}
		up, ok := place(p, a.A[0], v)
		return append(up, step{idx: i, isIdx: true}), ok
	case t.Op == flow.ORegion:
		return place(p, t.A[0], v)
	}
	return nil, false
}

func constInt(t *flow.Term) (int64, bool) {
	for t.Op == flow.OConv {
		t = t.A[0]
	}
	if t.Op != flow.OConst || t.C == nil || t.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.C)
}

// entryKey is the key of a visited member.
func entryKey(p *flow.Path, m *flow.Term) *flow.Term {
	for _, ev := range p.Events {
		if ev.Kind == "iter" && len(ev.Args) == 2 && ev.Args[1] == m {
			return ev.Args[0]
		}
	}
	return nil
}

// chain unwraps newParsingError: the names outermost first, and the cause.
func chain(e *flow.Term) (names []*flow.Term, cause *flow.Term) {
	e = e.Strip()
	for e.Op == flow.OPure && e.S == "newParsingError" {
		names = append(names, e.A[0])
		e = e.A[1].Strip()
	}
	return names, e
}

// isStep: the name t denotes the step s.
func isStep(p *flow.Path, t *flow.Term, s step) bool {
	if s.kt != nil {
		k := t.Strip()
		for k.Op == flow.OConv {
			k = k.A[0].Strip()
		}
		return k == s.kt
	}
	if s.isIdx {
		want := strconv.FormatInt(s.idx, 10)
		if x, ok := constText(p, t); ok {
			return x == want
		}
		t = t.Strip()
		if t.Op != flow.OPure || len(t.A) == 0 {
			return false
		}
		switch t.S {
		case "strconv.Itoa":
			i, ok := constInt(t.A[0])
			return ok && i == s.idx
		case "strconv.FormatInt", "strconv.FormatUint":
			i, ok := constInt(t.A[0])
			b, ok2 := constInt(t.A[1])
			return ok && ok2 && i == s.idx && b == 10
		case "fmt.Sprintf":
			f, ok := constText(p, t.A[0])
			if !ok || len(t.A) != 2 || f != "%d" && f != "%v" {
				return false
			}
			i, ok := constInt(t.A[1])
			return ok && i == s.idx
		case "fmt.Sprint":
			i, ok := constInt(t.A[0])
			return ok && len(t.A) == 1 && i == s.idx
		}
		return false
	}
	x, ok := constText(p, t)
	return ok && x == s.key
}

// jsonIn finds the JSON values a term is computed from.
func jsonIn(t *flow.Term) []*flow.Term {
	var out []*flow.Term
	seen := map[*flow.Term]bool{}
	var walk func(x *flow.Term)
	walk = func(x *flow.Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if isJSONTerm(x) {
			out = append(out, x)
			return
		}
		for _, a := range x.A {
			walk(a)
		}
	}
	walk(t)
	return out
}

func isJSONTerm(x *flow.Term) bool {
	if x.Typ == nil {
		return false
	}
	return isJSON(x.Typ)
}

// origin is the JSON value a failure is about: of the failing call for a call's
// error, of the values in its arguments for a constructed one.
func origin(p *flow.Path, cause *flow.Term) (*flow.Term, bool) {
	c := cause
	if c.Op == flow.OExtract {
		c = c.A[0]
	}
	if c.Op == flow.OCall && generated[c.S] && len(c.A) > 1 {
		return c.A[1].Strip(), true
	}
	js := jsonIn(c)
	// a value inside another one
	var best *flow.Term
	for _, j := range js {
		if best == nil || j.Contains(func(x *flow.Term) bool { return x == best }) {
			best = j
		}
	}
	return best, best != nil
}

var generated = map[string]bool{"FillFromJSON": true, "validate": true}

// constructed: the error is made by the code itself.
func constructed(cause *flow.Term) bool {
	return cause.Op == flow.OPure && constructor(cause.S)
}

// failing is the JSON extraction that failed, if the error is one.
func failing(cause *flow.Term) *flow.Term {
	c := cause
	if c.Op == flow.OExtract {
		c = c.A[0]
	}
	if c.Op == flow.OPure && strings.HasPrefix(c.S, "json.") && len(c.A) > 0 {
		return c.A[0].Strip()
	}
	return nil
}

func isRef(t types.Type) bool {
	if isUUID(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Array:
		return true
	}
	return false
}

func typeText(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var _ = fmt.Sprint
