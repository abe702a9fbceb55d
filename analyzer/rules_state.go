package main

import (
	"fmt"
	"go/types"

	"vjcheck/flow"
)

func init() {
	register(&Prop{
		ID:      "C06",
		Rule:    "Final-memory analysis: on every path of every emitted Reset, the memory of each field of the declaration ends as a zero value, an empty slice, a map that is nil, new or has every entry deleted, an array or struct of such values, or as what the Reset of its own type leaves. On every path of every emitted decoder, what an element of a slice is decoded over is no element that an earlier content of the slice left behind.",
		Methods: map[string]bool{"Reset": true, "FillFromJSON": true}, Method: c06, Prep: nonNilParams,
		Min:     map[string]int{"fields reset": 3000, "nested values decoded": 1000},
		Trusted: []string{trustAbs, trustFlow, trustLoop},
	})
	register(&Prop{
		ID:      "C07",
		Rule:    "Path condition analysis: on every path of every emitted IsZero that returns true, the conditions of the path (or the IsZero of the field's own type) show each field to have nothing to encode; on every path that returns false they show one that differs from its zero value.",
		Methods: map[string]bool{"IsZero": true}, Method: c07, Prep: nonNilParams,
		Min:     map[string]int{"fields of zero values": 1000, "values that are not zero": 1000},
		Trusted: []string{trustAbs, trustFlow},
	})
}

func nonNilParams(m *M) func(*flow.Exec) {
	return func(e *flow.Exec) {
		for _, t := range e.Params {
			if _, ok := t.Typ.Underlying().(*types.Pointer); ok {
				e.SetNil(t, false)
			}
		}
	}
}

func c06(r *R, m *M) {
	if m.Name == "FillFromJSON" {
		c06reuse(r, m)
		return
	}
	for _, p := range m.Paths {
		if p.Crash != nil {
			continue
		}
		if !m.D.Struct {
			r.Count("fields reset", 1)
			if w := clean(p, p.Load(p.Recv()), 0); w != "" {
				m.report(r, keptKeys(p, p.Load(p.Recv())), "value", m.Fn.Pos(), "the value %s (%s)", w, facts(p))
			}
			continue
		}
		for _, f := range m.D.Fields {
			r.Count("fields reset", 1)
			a := fieldAddr(p, f)
			if w := clean(p, p.Load(a), 0); w != "" {
				m.report(r, keptKeys(p, p.Load(a)), f.Role, m.Fn.Pos(), "field %s %s (%s)", f.Name, w, facts(p))
			}
		}
	}
}

// c06reuse: a slice that is filled again gives its elements memory of its own
// last content, which its Reset did not touch.
func c06reuse(r *R, m *M) {
	for _, p := range m.Paths {
		for _, ev := range p.Events {
			if ev.Kind == "mapset" {
				// a map that an element of the slice had before gets the new keys
				if a := ev.Addr.Strip(); a.Op == flow.OInit && a.A[0].Op == flow.OIAddr && a.A[0].A[0].Op == flow.ORegion {
					m.report(r, "reuse", m.describe(p, a.A[0], 0), ev.Pos, "an entry is added to %v, which an earlier content of the slice may have left there with its keys (%s)", a, facts(p))
				}
				continue
			}
			if ev.Kind != "call" || ev.Val == nil {
				continue
			}
			r.Count("nested values decoded", 1)
			inSlice := false
			for a := ev.Recv.Strip(); a.Op == flow.OFAddr || a.Op == flow.OIAddr; a = a.A[0].Strip() {
				inSlice = inSlice || a.Op == flow.OIAddr && a.A[0].Op == flow.ORegion
			}
			if inSlice && clean(p, ev.Val, 0) != "" {
				m.report(r, "reuse", m.describe(p, ev.Recv, 0), ev.Pos, "%s decodes over %v, which an earlier content of the slice may have left there (%s)", ev.Name, ev.Val, facts(p))
			}
		}
	}
}

// keptKeys names the rule broken by a value that is not clean: a map may still
// have its keys, with values that are.
func keptKeys(p *flow.Path, v *flow.Term) string {
	v = v.Strip()
	if _, ok := v.Typ.Underlying().(*types.Map); !ok {
		return "reset"
	}
	left := map[int]bool{}
	seen := map[int]bool{}
	for _, ev := range p.Events {
		if ev.Addr == nil || ev.Addr.Strip() != v {
			continue
		}
		switch ev.Kind {
		case "iter":
			seen[ev.Args[0].I] = true
		case "mapset":
			k := ev.Args[0].Strip()
			if k.Op != flow.ORangeKey || k.A[0].Strip() != v {
				return "reset"
			}
			left[k.I] = clean(p, ev.Val, 0) != ""
		}
	}
	for k := range seen {
		if l, ok := left[k]; !ok || l {
			return "reset"
		}
	}
	if len(seen) == 0 {
		return "reset"
	}
	return "reset keys"
}

// clean says what is left in a value after Reset.
func clean(p *flow.Path, v *flow.Term, depth int) string {
	s := v.Strip()
	if p.IsZeroVal(s) || p.IsZeroVal(v) || depth > 8 {
		return ""
	}
	for x := s; ; x = x.A[0].Strip() {
		if x.Op == flow.OPure && x.S == "reset" {
			return ""
		}
		if x.Op != flow.OConv {
			break
		}
	}
	switch u := v.Typ.Underlying().(type) {
	case *types.Slice:
		if _, hi := p.Interval(p.Len(s)); hi.OK() && hi.Sign() == 0 || p.NilState(s) == 1 {
			return ""
		}
		return fmt.Sprintf("is left with the elements of %v", s)
	case *types.Map:
		if p.NilState(s) == 1 {
			return ""
		}
		return cleared(p, s)
	case *types.Pointer:
		if p.NilState(s) == 1 {
			return ""
		}
		if p.NilState(s) == -1 {
			return clean(p, p.Deref(s), depth+1)
		}
		return fmt.Sprintf("is left as %v", s)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if w := clean(p, p.Field(s, i), depth+1); w != "" {
				return fmt.Sprintf("member %s %s", u.Field(i).Name(), w)
			}
		}
		if u.NumFields() > 0 {
			return ""
		}
	case *types.Array:
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				if w := clean(p, p.Elem(s, i), depth+1); w != "" {
					return fmt.Sprintf("element %d %s", i, w)
				}
			}
			return ""
		}
	}
	return fmt.Sprintf("is left as %v", s)
}

// cleared: every entry of the map is gone at the end of the path.
func cleared(p *flow.Path, s *flow.Term) string {
	gone := map[int]bool{}
	all := s.Op == flow.OMakeMap
	for _, ev := range p.Events {
		if ev.Addr == nil || ev.Addr.Strip() != s {
			continue
		}
		switch ev.Kind {
		case "clear":
			all = true
		case "mapset":
			all, gone = false, map[int]bool{}
			if ev.Args[0].Op == flow.ORangeKey {
				continue
			}
			return fmt.Sprintf("gets the entry %v", ev.Args[0])
		case "mapdel":
			if k := ev.Args[0].Strip(); k.Op == flow.ORangeKey && k.A[0].Strip() == s {
				gone[k.I] = true
			}
		}
	}
	if all {
		return ""
	}
	_, hi := p.Interval(p.Len(s))
	if hi.OK() && hi.Cmp(flow.NumOfInt(int64(len(gone)))) <= 0 {
		return ""
	}
	return fmt.Sprintf("is left with entries of %v", s)
}

func c07(r *R, m *M) {
	for _, p := range m.Paths {
		if p.Crash != nil {
			continue
		}
		fs := map[string]*flow.Term{}
		var order []string
		skip := map[string]bool{}
		if m.D.Struct {
			for _, f := range m.D.Fields {
				order = append(order, f.Role)
				fs[f.Role] = p.InitOf(fieldAddr(p, f))
				skip[f.Role] = f.Ignored // never encoded
			}
		} else {
			order = []string{"value"}
			fs["value"] = p.InitOf(p.Recv())
		}
		switch p.Truth(p.Ret[0]) {
		case 1:
			for _, n := range order {
				if skip[n] {
					continue
				}
				r.Count("fields of zero values", 1)
				if !empty(p, fs[n]) {
					m.report(r, "zero means empty", n, m.Fn.Pos(), "true although %v may hold data (%s)", fs[n], facts(p))
				}
			}
		case -1:
			r.Count("values that are not zero", 1)
			ok := false
			for _, n := range order {
				v := fs[n]
				if p.Zeroness(v) == -1 {
					ok = true
				}
				switch v.Typ.Underlying().(type) {
				case *types.Slice, *types.Map:
					if min, _ := lenRange(p, v); min > 0 {
						ok = true
					}
				}
			}
			if !ok {
				m.report(r, "not zero means data", "result", m.Fn.Pos(), "false although every field may be zero (%s)", facts(p))
			}
		default:
			m.report(r, "decided", "result", m.Fn.Pos(), "the result %v is not decided", p.Ret[0])
		}
	}
}
