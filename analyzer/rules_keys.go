package main

import (
	"go/constant"
	"sort"

	"vjcheck/flow"
)

func init() {
	register(&Prop{
		ID:      "C08",
		Rule:    "Path condition analysis of emitted validators over two (thorough: three) visited members with unconstrained keys: on an accepting path no two members may have the key of the same declared field, and under strict every member's key is known to be a declared one; a rejecting path has the error of the object access, two members with one and the same key, or under strict a key known to differ from every declared one. FillFromJSON applies validate to its own argument before its first store and does not succeed unless validate did.",
		Methods: map[string]bool{"validate": true, "FillFromJSON": true}, Method: c08,
		Scale:   map[string]bool{"validate": true},
		Min:     map[string]int{"documents accepted": 5000, "documents rejected": 2000, "validate calls": 3000},
		Trusted: []string{trustAbs, trustFlow, "fastjson's Object.Visit calls its argument once for every member, in order"},
	})
}

// visited are the keys of the members a path looks at.
func visited(p *flow.Path, obj *flow.Term) []*flow.Term {
	var out []*flow.Term
	for _, ev := range p.Events {
		if ev.Kind == "iter" && ev.Name == "Visit" && len(ev.Args) == 2 && (obj == nil || ev.Addr == obj) {
			out = append(out, ev.Args[0])
		}
	}
	return out
}

// keyState is what a path knows about visited keys.
type keyState struct {
	is  map[*flow.Term]string
	not map[*flow.Term]map[string]bool
}

func (m *M) keyState(p *flow.Path) *keyState {
	k := &keyState{map[*flow.Term]string{}, map[*flow.Term]map[string]bool{}}
	for t, v := range p.BoolFacts() {
		key, s, ok := m.keyTest(p, t)
		if !ok {
			continue
		}
		if v {
			k.is[key] = s
			continue
		}
		if k.not[key] == nil {
			k.not[key] = map[string]bool{}
		}
		k.not[key][s] = true
	}
	return k
}

// may: the key may be s.
func (k *keyState) may(t *flow.Term, s string) bool {
	if is, ok := k.is[t]; ok {
		return is == s
	}
	return !k.not[t][s]
}

func c08(r *R, m *M) {
	if !m.D.Struct || m.D.Divided {
		return
	}
	if m.Name == "FillFromJSON" {
		c08fill(r, m)
		return
	}
	keys, vague := m.keys()
	var names []string
	for k := range keys {
		names = append(names, k)
	}
	sort.Strings(names)
	strict := m.D.Tags["strict"]
	role := func(k string) string {
		if f := keys[k]; f != nil {
			return f.Role
		}
		return "key"
	}
	for _, p := range m.Paths {
		if p.Crash != nil {
			continue
		}
		v := jparam(p)
		vs := visited(p, nil)
		for _, ev := range p.Events {
			if ev.Kind == "iter" && !objectTerm(ev.Addr, v) {
				m.report(r, "own object", "", ev.Pos, "validate looks at the members of %v", ev.Addr)
			}
		}
		ks := m.keyState(p)
		if p.OK() {
			r.Count("documents accepted", 1)
			all := false
			for _, ev := range p.Events {
				all = all || ev.Kind == "iter-end" && objectTerm(ev.Addr, v)
			}
			if !all && (len(names) > 0 || strict) {
				m.report(r, "looks at all members", "", m.Fn.Pos(), "validate accepts a document without looking at its members")
				continue
			}
			for _, k := range names {
				n := 0
				for _, t := range vs {
					if ks.may(t, k) {
						n++
					}
				}
				if n > 1 {
					m.report(r, "duplicates rejected", role(k), m.Fn.Pos(), "a document with %d members %q is accepted", n, k)
				}
			}
			if strict && !vague {
				for _, t := range vs {
					if s, ok := ks.is[t]; !ok || keys[s] == nil {
						m.report(r, "strict", "", m.Fn.Pos(), "under strict a document with a key that is not among the declared ones is accepted")
					}
				}
			}
			continue
		}
		r.Count("documents rejected", 1)
		_, cause := chain(p.Err())
		if failing(cause) != nil {
			continue
		}
		good := false
		seen := map[string]bool{}
		for _, t := range vs {
			s, ok := ks.is[t]
			if ok {
				good = good || seen[s]
				seen[s] = true
				continue
			}
			if strict {
				out := true
				for _, k := range names {
					out = out && ks.not[t][k]
				}
				good = good || out
			}
		}
		if !good {
			what := ""
			for _, t := range vs {
				if s, ok := ks.is[t]; ok {
					what += role(s) + " "
				} else {
					what += "other "
				}
			}
			m.report(r, "rejected only for a reason", what, errPos(p, m), "a document is rejected with %v although no key occurs twice%s", p.Err(), map[bool]string{true: " and every key is declared"}[strict])
		}
	}
}

func c08fill(r *R, m *M) {
	for _, p := range m.Paths {
		if p.Crash != nil {
			continue
		}
		v := jparam(p)
		var call *flow.Event
		early := (*flow.Event)(nil)
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "call" && ev.Name == "validate":
				if ev.Recv != nil && ev.Recv.Strip() == p.Recv() && len(ev.Args) > 1 && ev.Args[1].Strip() == v {
					call = ev
				}
			case (ev.Kind == "store" || ev.Kind == "mapset" || ev.Kind == "call" && ev.Name == "FillFromJSON") && call == nil && early == nil:
				if ev.Kind != "store" || rooted(p, ev.Addr) {
					early = ev
				}
			}
		}
		r.Count("validate calls", 1)
		if early != nil {
			m.report(r, "validate first", "store", early.Pos, "the receiver is changed before validate has looked at the document")
		}
		if !p.OK() {
			continue
		}
		if call == nil {
			m.report(r, "validate called", "", m.Fn.Pos(), "a successful path never calls validate")
			continue
		}
		if e := p.ErrOf(call.Res); e == nil || p.NilState(e) != 1 {
			m.report(r, "validate obeyed", "", call.Pos, "a path succeeds although validate may have failed")
		} else if at := p.NilWhen(e); at >= 0 {
			for _, ev := range p.Events[:at] {
				if ev.Kind == "store" && rooted(p, ev.Addr) {
					m.report(r, "validate obeyed", "before the store", ev.Pos, "the receiver is changed before validate's result is examined")
				}
			}
		}
	}
}

var _ = constant.Int
