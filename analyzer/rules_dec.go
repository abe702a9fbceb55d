package main

import (
	"fmt"
	"go/token"

	"vjcheck/flow"
)

var decMethods = map[string]bool{"FillFromJSON": true, "UnmarshalJSON": true}

const trustDec = "FillFromJSON is called with a JSON value that is not nil (UnmarshalJSON does)"

func init() {
	register(&Prop{
		ID:      "C14",
		Rule:    "Origin analysis of the final memory: on every path through an emitted decoder that returns no error and on which a field's key is present, the field's memory at the return derives from the value under the field's own key, by the extraction of its kind and conversions only; element i and entry k of a container derive from element i and entry k; nothing is read and dropped.",
		Methods: decMethods, Method: c14,
		Min:     map[string]int{"values matched": 3000},
		Trusted: []string{trustAbs, trustFlow, trustLoop, trustDec},
	})
}

func c14(r *R, m *M) {
	if m.Name == "UnmarshalJSON" {
		for _, p := range m.Paths {
			if !p.OK() {
				continue
			}
			r.Count("values matched", 1)
			if w := wholeInput(p); w != "" {
				m.report(r, "whole document", "", m.Fn.Pos(), "UnmarshalJSON succeeds %s", w)
			}
		}
		return
	}
	dup := m.dup()
	for _, p := range m.Paths {
		if !p.OK() {
			continue
		}
		v := jparam(p)
		if !m.D.Struct {
			mo := mode(p, v)
			if mo&mData == 0 {
				continue
			}
			r.Count("values matched", 1)
			d := &dmatcher{p, m.U, nil}
			if w := d.match(p.Load(p.Recv()), v, m.D.Named); w != "" {
				m.report(r, "own value", "", m.Fn.Pos(), "the value %s", w)
			}
			continue
		}
		got := lookups(p)
		for _, f := range m.D.Fields {
			if f.Ignored || f.Vague || f.Raw || dup[f.Key] > 1 {
				continue
			}
			a := fieldAddr(p, f)
			jv := got[f.Key]
			if jv == nil {
				if p.NilState(v) == 1 {
					continue
				}
				m.report(r, "own value", f.Role, m.Fn.Pos(), "a successful path never looks for the key %q", f.Key)
				continue
			}
			if mode(p, jv)&mData == 0 {
				continue
			}
			r.Count("values matched", 1)
			d := &dmatcher{p, m.U, f}
			if w := d.match(p.Load(a), jv, f.Typ); w != "" {
				m.report(r, "own value", f.Role, storePos(p, a, m), "with %q in the document the field %s", f.Key, w)
			}
		}
	}
}

// storePos is the last store into a place.
func storePos(p *flow.Path, a *flow.Term, m *M) (pos token.Pos) {
	pos = m.Fn.Pos()
	for _, ev := range p.Events {
		if ev.Kind == "store" && ev.Addr != nil && ev.Addr.Contains(func(x *flow.Term) bool { return x == a }) {
			pos = ev.Pos
		}
	}
	return pos
}

// wholeInput: the receiver is filled from the parsed input.
func wholeInput(p *flow.Path) string {
	recv := p.Recv()
	n := 0
	for _, ev := range p.Events {
		if ev.Kind != "call" || ev.Name != "FillFromJSON" {
			continue
		}
		if ev.Recv == nil || ev.Recv.Strip() != recv {
			return fmt.Sprintf("filling %v instead of its receiver", ev.Recv)
		}
		if len(ev.Args) < 2 {
			return "filling it from nothing"
		}
		c, i := from(ev.Args[1])
		if i != 0 || c.Op != flow.OCall && c.Op != flow.OPure || len(c.A) != 2 {
			return fmt.Sprintf("filling it from %v", ev.Args[1])
		}
		switch c.S {
		case "(*fastjson.Parser).ParseBytes", "(*fastjson.Parser).Parse":
		default:
			return fmt.Sprintf("filling it from %v", ev.Args[1])
		}
		in := c.A[1].Strip()
		for in.Op == flow.OConv || in.Op == flow.OReinterp {
			in = in.A[0].Strip()
		}
		if in != p.Params[1] {
			return fmt.Sprintf("parsing %v instead of its argument", c.A[1])
		}
		n++
	}
	if n != 1 {
		return fmt.Sprintf("after filling its receiver %d times", n)
	}
	return ""
}
