package main

import (
	"fmt"
	"go/types"

	"vjcheck/flow"
)

func init() {
	register(&Prop{
		ID:     "C22",
		Rule:   "Nil and bounds analysis: on every path of every emitted method, each dereference, method call, index, slice expression, map write and call of a nested decoder is examined; the facts of the path must show that the pointer or map is not nil and that the index lies within the length.",
		Method: c22,
		Prep: func(m *M) func(*flow.Exec) {
			return func(e *flow.Exec) {
				for i, t := range e.Params {
					if _, ok := t.Typ.Underlying().(*types.Pointer); !ok {
						continue
					}
					if i == 0 && (m.Name == "MarshalTo" || m.Name == "MarshalJSON") {
						continue
					}
					e.SetNil(t, false)
				}
			}
		},
		Scale:   map[string]bool{"validate": true},
		Min:     map[string]int{"method paths": 100000, "obligations": 100000},
		Trusted: []string{trustAbs, trustFlow, trustLoop, trustDec},
	})
}

func c22(r *R, m *M) {
	for _, p := range m.Paths {
		r.Count("obligations", p.Checked)
		for _, ev := range p.Events {
			if ev.Kind != "crash" {
				continue
			}
			m.report(r, "no crash", m.subject(p, ev.Val)+ev.Name, ev.Pos, "%s: %v is not ruled out (%s)", ev.Name, ev.Val, facts(p))
		}
	}
}

// subject describes a value without chosen names, with a space behind.
func (m *M) subject(p *flow.Path, t *flow.Term) string {
	if t == nil {
		return ""
	}
	return m.describe(p, t, 0) + " "
}

func (m *M) describe(p *flow.Path, t *flow.Term, depth int) string {
	t = t.Strip()
	if depth > 8 {
		return "value"
	}
	if v := jparam(p); v != nil && isJSON(t.Typ) {
		if t == v {
			return "document"
		}
		if st, ok := place(p, t, v); ok && len(st) > 0 {
			return "json " + m.stepsRole(st)
		}
	}
	if t == p.Recv() || t == p.Params[0] {
		return "receiver"
	}
	sub := func(i int) string { return m.describe(p, t.A[i], depth+1) }
	switch t.Op {
	case flow.OInit:
		return sub(0)
	case flow.OFAddr:
		for _, f := range m.D.Fields {
			if !f.Vague && fieldAddr(p, f) == t {
				return f.Role
			}
		}
		return sub(0) + "." + fmt.Sprint(t.I)
	case flow.OIAddr:
		return sub(0) + "[]"
	case flow.ORegion, flow.OConv, flow.OReinterp, flow.OSlice:
		return sub(0)
	case flow.OExtract:
		return sub(0)
	case flow.OLen:
		return "len " + sub(0)
	case flow.OPure, flow.OCall:
		s := t.S
		if len(t.A) > 0 {
			s += " of " + sub(0)
		}
		return s
	case flow.OParam:
		return "parameter"
	case flow.OBin:
		return sub(0) + t.S + sub(1)
	case flow.OConst:
		return "constant"
	case flow.OAlloc, flow.ORegNew, flow.OMakeMap:
		return "new"
	case flow.ORangeKey, flow.ORangeVal:
		return sub(0) + " entry"
	case flow.OGlobal:
		return "global"
	}
	return fmt.Sprintf("op%d", int(t.Op))
}
