package main

import (
	"go/types"
	"strings"

	"vjcheck/flow"
)

func init() {
	register(&Prop{
		ID:      "C11",
		Rule:    "Ownership analysis: no string, slice, pointer, map or interface that an emitted decoder leaves in memory reachable from its receiver, on any path and at any time, derives from a fastjson value, key or byte slice (or the input) without a copy in between. Typestate of parsers: every parser comes from the pool of its type, goes back to the same pool at most once and nothing of it is used afterwards; it is kept nowhere else.",
		Methods: decMethods, Method: c11, Prep: nonNilParams,
		Min:     map[string]int{"values kept": 20000, "parsers taken": 500, "parsers given back": 500},
		Trusted: []string{trustAbs, trustFlow, trustLoop, "the UnmarshalText, UnmarshalJSON and Parse methods of types that are not generated copy what they keep"},
	})
}

func c11(r *R, m *M) {
	for _, p := range m.Paths {
		if p.Crash != nil {
			continue
		}
		o := &owners{p: p, m: m, r: r}
		for _, ev := range p.Events {
			switch ev.Kind {
			case "store":
				o.kept(ev.Val, ev)
			case "mapset":
				o.kept(ev.Args[0], ev)
				o.kept(ev.Val, ev)
			}
		}
		o.walk(p.Load(p.Recv()), nil, 0)
		o.parsers()
	}
}

type owners struct {
	p *flow.Path
	m *M
	r *R
}

func (o *owners) kept(v *flow.Term, ev *flow.Event) {
	if v == nil || !refers(v.Typ, 0) {
		return
	}
	o.r.Count("values kept", 1)
	if w := o.owner(v, 0); w != nil {
		o.m.report(o.r, "own memory", o.m.describe(o.p, ev.Addr, 0), ev.Pos, "%v is stored, which is memory of %v (%s)", v, w, facts(o.p))
	}
}

// walk examines all memory reachable from a value at the end of the path.
func (o *owners) walk(v, at *flow.Term, depth int) {
	p := o.p
	s := v.Strip()
	if depth > 8 || !refers(v.Typ, 0) {
		return
	}
	o.r.Count("values kept", 1)
	if w := o.owner(v, 0); w != nil {
		o.m.report(o.r, "own memory", "result", o.m.Fn.Pos(), "the receiver is left with %v, which is memory of %v (%s)", v, w, facts(p))
		return
	}
	if isTime(v.Typ) {
		return
	}
	switch u := v.Typ.Underlying().(type) {
	case *types.Pointer:
		if p.NilState(s) != 1 && s.Op != flow.OInit {
			o.walk(p.Deref(s), nil, depth+1)
		}
	case *types.Slice:
		_, hi := p.Interval(p.Len(s))
		for i := int64(0); i < 4 && hi.OK() && hi.Cmp(flow.NumOfInt(i)) > 0; i++ {
			o.walk(p.Elem(s, i), nil, depth+1)
		}
	case *types.Array:
		for i := int64(0); i < u.Len() && i < 4; i++ {
			o.walk(p.Elem(s, i), nil, depth+1)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			o.walk(p.Field(s, i), nil, depth+1)
		}
	case *types.Map:
		for _, ev := range p.Events {
			if ev.Kind == "mapset" && ev.Addr.Strip() == s {
				o.walk(ev.Args[0], nil, depth+1)
				o.walk(ev.Val, nil, depth+1)
			}
		}
	}
}

// refers reports whether values of a type refer to memory.
func refers(t types.Type, depth int) bool {
	if t == nil || isErrorType(t) || depth > 10 {
		return false
	}
	if isTime(t) || isUUID(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refers(u.Elem(), depth+1)
	case *types.Signature:
		return false
	}
	return true
}

func isErrorType(t types.Type) bool { return flow.IsErr(t) }

// copies are library functions whose results share no memory with their arguments.
var copies = map[string]bool{
	"time.Parse": true, "time.ParseInLocation": true, "time.ParseDuration": true,
	"strings.Clone": true, "bytes.Clone": true, "strings.Repeat": true, "bytes.Repeat": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "strconv.Quote": true, "strconv.Itoa": true,
	"(*encoding/base64.Encoding).DecodeString": true, "(*encoding/base64.Encoding).EncodeToString": true,
	"(*encoding/base64.Encoding).Decode": true,
	"github.com/google/uuid.ParseBytes":  true, "github.com/google/uuid.Parse": true,
	"parseDateTime": true, "filled": true, "reset": true,
}

// owner is the parser memory a value refers to.
func (o *owners) owner(t *flow.Term, depth int) *flow.Term {
	t = t.Strip()
	if !refers(t.Typ, 0) || depth > 12 {
		if _, tuple := t.Typ.(*types.Tuple); !tuple {
			return nil
		}
	}
	args := func() *flow.Term {
		for _, a := range t.A {
			if w := o.owner(a, depth+1); w != nil {
				return w
			}
		}
		return nil
	}
	switch t.Op {
	case flow.OConst, flow.OZero, flow.OAlloc, flow.ORegNew, flow.OMakeMap, flow.OFunc, flow.OClosure, flow.OGlobal, flow.OBin, flow.OLen, flow.OCap:
		return nil
	case flow.OParam:
		switch {
		case isJSON(t.Typ), t == o.p.Params[1] && o.m.Name == "UnmarshalJSON":
			return t
		}
		return nil
	case flow.OConv:
		if _, ok := t.A[0].Typ.Underlying().(*types.Basic); ok != isString(t.Typ) {
			return nil // string([]byte), []byte(string)
		}
		return args()
	case flow.OSlice, flow.OInit, flow.OFAddr, flow.OIAddr, flow.ORegion:
		if len(t.A) == 0 {
			return nil
		}
		return o.base(t.A[0], depth+1)
	case flow.OPure, flow.OCall:
		if strings.HasPrefix(t.S, "json.") || t.S == "(*fastjson.Parser).ParseBytes" || t.S == "(*fastjson.Parser).Parse" {
			return t
		}
		if strings.HasPrefix(t.S, "(*fastjson.ParserPool).Get") {
			return t
		}
		if copies[t.S] {
			return nil
		}
		return args()
	}
	return args()
}

// base is owner for an address or region.
func (o *owners) base(a *flow.Term, depth int) *flow.Term {
	for a.Op == flow.OFAddr || a.Op == flow.OIAddr || a.Op == flow.ORegion && len(a.A) > 0 {
		a = a.A[0]
	}
	a = a.Strip()
	switch a.Op {
	case flow.OAlloc, flow.ORegNew:
		return nil
	}
	return o.owner(a, depth+1)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

const (
	poolGet = "(*fastjson.ParserPool).Get"
	poolPut = "(*fastjson.ParserPool).Put"
)

// parsers follows every parser of the path from its pool to its pool.
func (o *owners) parsers() {
	p, m, r := o.p, o.m, o.r
	type state struct{ pool, val *flow.Term }
	var live []*state
	given := map[*flow.Term]bool{}
	if m.U.pools == nil {
		m.U.pools = map[string]string{}
	}
	uses := func(t *flow.Term, g *flow.Term) bool {
		return t != nil && t.Contains(func(x *flow.Term) bool { return x == g })
	}
	for _, ev := range p.Events {
		switch {
		case ev.Kind == "call" && ev.Name == poolGet:
			r.Count("parsers taken", 1)
			pool := ev.Args[0].Strip()
			if pool.Op != flow.OGlobal {
				m.report(r, "own pool", "pool", ev.Pos, "a parser is taken from %v", pool)
				continue
			}
			if t, ok := m.U.pools[pool.S]; ok && t != m.D.Role {
				m.report(r, "own pool", "shared", ev.Pos, "the pool %v serves %s as well as %s", pool, t, m.D.Role)
			}
			m.U.pools[pool.S] = m.D.Role
			live = append(live, &state{pool, ev.Res.Strip()})
			continue
		case ev.Kind == "call" && ev.Name == poolPut:
			r.Count("parsers given back", 1)
			v := ev.Args[1].Strip()
			var s *state
			for _, x := range live {
				if x.val == v {
					s = x
				}
			}
			switch {
			case s == nil:
				m.report(r, "given back", "unknown", ev.Pos, "%v is put into a pool it does not come from", v)
			case s.pool != ev.Args[0].Strip():
				m.report(r, "given back", "pool", ev.Pos, "a parser of %v is put into %v", s.pool, ev.Args[0])
			case given[v]:
				m.report(r, "given back", "twice", ev.Pos, "a parser is given back twice")
			}
			given[v] = true
			continue
		case ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*fastjson.Parser)."):
			// a parser that is nobody else's: from the pool or of this call
			v := ev.Args[0].Strip()
			if g, _ := from(v); g.Op != flow.OAlloc && g.S != poolGet {
				m.report(r, "own parser", "parser", ev.Pos, "%v parses the document, which is not this call's own", v)
			}
		}
		for g := range given {
			for _, a := range append([]*flow.Term{ev.Recv, ev.Val, ev.Addr}, ev.Args...) {
				if uses(a, g) {
					m.report(r, "given back", "use", ev.Pos, "%s uses a parser's memory (%v) after the parser was given back", ev.Kind+" "+ev.Name, a)
					return
				}
			}
		}
	}
	for _, x := range p.Ret {
		if refers(x.Typ, 0) {
			if w := o.owner(x, 0); w != nil {
				m.report(r, "own memory", "returned", m.Fn.Pos(), "%v is returned, which is memory of %v", x, w)
			}
		}
	}
}
