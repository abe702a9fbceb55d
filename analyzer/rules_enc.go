package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"vjcheck/flow"
)

var encMethods = map[string]bool{"MarshalTo": true, "MarshalJSON": true}

const trustFlow = "the dataflow engine's contracts for jwriter, fastjson, base64, time, uuid and strconv (DESIGN.md)"
const trustAbs = "the abstract interpreter's models of the standard library (DESIGN.md)"
const trustLoop = "container loops are followed for up to two entries per level (one when nested); more entries repeat the same code"

func init() {
	register(&Prop{
		ID:      "C04",
		Rule:    "Grammar-directed path analysis: on every path through every emitted MarshalTo that returns no error, the constant texts and value writes form exactly one JSON value (a pushdown check over the sequence of writes); unescaped text never enters a string.",
		Methods: encMethods, Method: c04,
		Min:     map[string]int{"successful encoder paths": 3000},
		Trusted: []string{trustAbs, trustFlow, trustLoop, "a nested encoder writes one JSON value, and at least one member if its IsZero is false"},
	})
	register(&Prop{
		ID:      "C12",
		Rule:    "Origin analysis: on every successful encoder path each written member, element and entry derives, through value-preserving conversions only, from the field, element or entry it stands for; constants stand only for values known to equal them; all entries of a container are written, in order, under their own keys.",
		Methods: encMethods, Method: c12,
		Min:     map[string]int{"values matched": 3000},
		Trusted: []string{trustAbs, trustFlow, trustLoop},
	})
	register(&Prop{
		ID:      "C17",
		Rule:    "Path condition analysis: on every successful encoder path a field without omitempty is written exactly once; a field with omitempty is written exactly once when the path's facts exclude that it is empty, and left out only when they prove it empty.",
		Methods: map[string]bool{"MarshalTo": true}, Method: c17,
		Min:     map[string]int{"presence decisions": 6000},
		Trusted: []string{trustAbs, trustFlow, trustLoop, "a generated IsZero tells whether the value is empty (C07)"},
	})
	register(&Prop{
		ID:      "C21",
		Rule:    "Error-flow analysis: on every path of every emitted encoder that returns a nil error, the error of each failing call (nested encoder, text marshaller, writer) is known to be nil; no bytes are returned with an error.",
		Methods: encMethods, Method: c21,
		Min:     map[string]int{"error results": 1500},
		Trusted: []string{trustAbs, trustFlow, trustLoop},
	})
}

// repoAt reports the constructs behind a position.
func (m *M) fill(f *Finding, pos token.Pos) {
	f.Where, f.Repo = m.U.where(pos), m.U.repo(pos)
}

func (m *M) report(r *R, rule, detail string, pos token.Pos, format string, a ...any) {
	f := Finding{Rule: rule, Site: m.site(detail), Detail: fmt.Sprintf(format, a...)}
	m.fill(&f, pos)
	r.Report(f)
}

// writerOf is the writer parameter of a MarshalTo.
func writerOf(p *flow.Path) *flow.Term { return p.Params[1] }

func c04(r *R, m *M) {
	if m.Name == "MarshalJSON" {
		marshalJSON(r, m)
		return
	}
	for _, p := range m.Paths {
		if !p.OK() {
			continue
		}
		r.Count("successful encoder paths", 1)
		ps := pieces(p, writerOf(p))
		root, err := parseWrites(p, ps)
		if err != nil {
			m.report(r, "one JSON value", m.fieldAt(ps, err.pos), err.pos, "a path that returns no error writes %s\n%s", render(ps), err.msg)
			continue
		}
		for _, e := range root.soft {
			role := e.key
			for _, f := range m.D.Fields {
				if f.Key == e.key {
					role = f.Role
				}
			}
			m.report(r, "comma after "+e.after, role, e.pos, "a path that returns no error writes %s\n%s", render(ps), e.msg)
		}
		floats(r, m, p, root)
		rawGuard(r, m, p, root)
	}
	if len(m.Paths) > 0 {
		r.Sample("%s: %d paths", m.site(""), len(m.Paths))
	}
}

// fieldAt names the last key written before a position, to tell sites apart.
func (m *M) fieldAt(ps []piece, pos token.Pos) string {
	last := ""
	for _, pc := range ps {
		if pc.kind == pkText {
			for _, f := range m.D.Fields {
				if f.Key != "" && strings.Contains(pc.text, "\""+f.Key+"\"") {
					last = f.Role
				}
			}
		}
		if pos.IsValid() && pc.ev.Pos == pos {
			break
		}
	}
	return last
}

func render(ps []piece) string {
	var s strings.Builder
	for _, pc := range ps {
		if pc.kind == pkText {
			s.WriteString(pc.text)
		} else {
			fmt.Fprintf(&s, "‹%s %v›", pc.ev.Name, pc.val)
		}
	}
	return s.String()
}

// floats: NaN and infinities have no JSON form.
func floats(r *R, m *M, p *flow.Path, n *jn) {
	if n == nil {
		return
	}
	if n.kind == 'v' && n.pc.kind == pkNumber && strings.HasPrefix(n.pc.ev.Name, "Float") {
		if !finite(p, n.pc.val) {
			m.report(r, "finite number", m.fieldAt(pieces(p, writerOf(p)), n.pc.ev.Pos), n.pc.ev.Pos, "%s(%v) writes NaN or Inf, which is not JSON, when the value is not finite", n.pc.ev.Name, n.pc.val)
		}
	}
	for _, x := range n.mem {
		floats(r, m, p, x.val)
	}
	for _, x := range n.el {
		floats(r, m, p, x)
	}
}

func finite(p *flow.Path, v *flow.Term) bool {
	for v.Op == flow.OConv {
		v = v.A[0]
	}
	if v.Op == flow.OConst {
		return true
	}
	for b, is := range p.BoolFacts() {
		if b.Op == flow.OPure && b.S == "math.IsNaN" && !is {
			for c, is := range p.BoolFacts() {
				if c.Op == flow.OPure && c.S == "math.IsInf" && !is {
					return true
				}
			}
		}
	}
	return false
}

// rawGuard: members are merged into an object only if there are some.
func rawGuard(r *R, m *M, p *flow.Path, n *jn) {
	if n == nil {
		return
	}
	for _, x := range n.mem {
		if x.raw == nil {
			rawGuard(r, m, p, x.val)
			continue
		}
		t := x.raw.val
		for t.Op == flow.OExtract || t.Op == flow.OPure && t.S == "unpackObject" {
			t = t.A[0]
		}
		ok := false
		if t.Op == flow.OCall && len(t.A) > 0 {
			v := t.A[0]
			if _, isPtr := v.Typ.Underlying().(*types.Pointer); isPtr {
				v = p.Deref(v)
			}
			ok = p.Zeroness(v) == -1
		}
		if !ok {
			m.report(r, "one JSON value", "inlined object", x.raw.ev.Pos, "the members of %v are merged while it may have none", t)
		}
	}
	for _, x := range n.el {
		rawGuard(r, m, p, x)
	}
}

// marshalJSON: the result is what MarshalTo writes.
func marshalJSON(r *R, m *M) {
	for _, p := range m.Paths {
		if !p.OK() || p.Crash != nil {
			continue
		}
		r.Count("successful encoder paths", 1)
		why := wholeResult(p)
		if why != "" {
			m.report(r, "one JSON value", "result", m.Fn.Pos(), "MarshalJSON returns %v: %s", p.Ret[0], why)
		}
	}
}

// wholeResult: the returned bytes are those of one writer that MarshalTo(s) alone wrote to.
func wholeResult(p *flow.Path) string {
	t := p.Ret[0].Strip()
	if t.Op == flow.OConst && t.C == nil {
		return "no bytes and no error"
	}
	if t.Op == flow.OExtract {
		t = t.A[0]
	}
	if s, ok := constText(p, p.Ret[0]); ok {
		if s == "null" && p.NilState(p.Params[0]) == 1 {
			return ""
		}
		return "constant bytes"
	}
	var w *flow.Term
	for _, ev := range p.Events {
		if ev.Kind == "write" && ev.Name == "BuildBytes" && ev.Res == t {
			w = ev.Recv.Strip()
		}
	}
	if w == nil {
		return "not the bytes of a writer"
	}
	n := 0
	for _, pc := range pieces(p, w) {
		n++
		if pc.kind != pkNested || pc.val.Strip() != p.Recv() {
			return fmt.Sprintf("the writer also received %s(%v)", pc.ev.Name, pc.val)
		}
	}
	if n != 1 {
		return fmt.Sprintf("the receiver is encoded %d times", n)
	}
	return ""
}

// objectOf is the document of a successful path (nil: C04 reports it).
func objectOf(p *flow.Path) *jn {
	root, err := parseWrites(p, pieces(p, writerOf(p)))
	if err != nil {
		return nil
	}
	return root
}

func fieldAddr(p *flow.Path, f *Fld) *flow.Term {
	a := p.Recv()
	for _, i := range f.Index {
		a = p.FieldOf(a, i)
	}
	return a
}

func c12(r *R, m *M) {
	if m.Name == "MarshalJSON" {
		for _, p := range m.Paths {
			if !p.OK() || p.Crash != nil {
				continue
			}
			r.Count("values matched", 1)
			if why := wholeResult(p); why != "" {
				m.report(r, "own value", "result", m.Fn.Pos(), "MarshalJSON: %s", why)
			}
		}
		return
	}
	dup := m.dup()
	for _, p := range m.Paths {
		if !p.OK() {
			continue
		}
		root := objectOf(p)
		if root == nil {
			r.Count("paths left to C04", 1)
			continue
		}
		mt := &matcher{p: p, u: m.U}
		if p.NilState(p.Params[0]) == 1 {
			if root.kind != 'c' || root.text != "null" {
				m.report(r, "own value", "nil receiver", root.pos, "a nil receiver is written as %s", root)
			}
			continue
		}
		if !m.D.Struct {
			r.Count("values matched", 1)
			v := p.InitOf(p.Recv())
			if why := mt.match(root, v); why != "" {
				m.report(r, "own value", "", root.pos, "%s", why)
			}
			continue
		}
		if root.kind != '{' {
			m.report(r, "own value", "object", root.pos, "a struct is written as %s", root)
			continue
		}
		for _, f := range m.D.Fields {
			if f.Ignored || f.Vague {
				continue
			}
			v := p.InitOf(fieldAddr(p, f))
			if f.Raw || dup[f.Key] > 1 {
				continue
			}
			mt.f = f
			for _, mm := range root.mem {
				if mm.raw != nil || mm.kv != nil || mm.key != f.Key {
					continue
				}
				r.Count("values matched", 1)
				if why := mt.match(mm.val, v); why != "" {
					m.report(r, "own value", f.Role, mm.pos, "key %q: %s", f.Key, why)
				}
			}
		}
		for _, mm := range root.mem {
			if mm.raw == nil {
				continue
			}
			r.Count("values matched", 1)
			ok := false
			for _, f := range m.D.Fields {
				if f.Raw && mt.raw(mm.raw, p.InitOf(fieldAddr(p, f))) == "" {
					ok = true
				}
			}
			if !ok {
				m.report(r, "own value", "inlined object", mm.pos, "members of %v, which is no inlined field", mm.raw.val)
			}
		}
	}
}

func c17(r *R, m *M) {
	if !m.D.Struct {
		return
	}
	dup := m.dup()
	for _, p := range m.Paths {
		if !p.OK() || p.NilState(p.Params[0]) == 1 {
			continue
		}
		root := objectOf(p)
		if root == nil {
			r.Count("paths left to C04", 1)
			continue
		}
		for _, f := range m.D.Fields {
			if f.Ignored || f.Vague || dup[f.Key] > 1 {
				continue
			}
			v := p.InitOf(fieldAddr(p, f))
			n := 0
			pos := m.Fn.Pos()
			for _, mm := range root.mem {
				if f.Raw {
					if mm.raw != nil && (&matcher{p: p, u: m.U}).raw(mm.raw, v) == "" {
						n++
						pos = mm.pos
					}
				} else if mm.raw == nil && mm.kv == nil && mm.key == f.Key {
					n++
					pos = mm.pos
				}
			}
			r.Count("presence decisions", 1)
			switch {
			case n > 1:
				m.report(r, "written once", f.Role, pos, "key %q is written %d times on one path", f.Key, n)
			case !f.Omit && !f.Raw && n == 0:
				m.report(r, "always written", f.Role, pos, "key %q, which has no omitempty, is left out on a successful path (%s)", f.Key, facts(p))
			case f.Omit && n == 1 && !nonEmpty(p, v):
				m.report(r, "omitted when empty", f.Role, pos, "key %q has omitempty and is written while %v may be empty", f.Key, v)
			case (f.Omit || f.Raw) && n == 0 && !empty(p, v):
				m.report(r, "dropped only when empty", f.Role, pos, "%q is left out while %v may carry data (%s)", f.Key, v, facts(p))
			}
		}
	}
}

// dup counts the fields of each key.
func (m *M) dup() map[string]int {
	dup := map[string]int{}
	for _, f := range m.D.Fields {
		if !f.Ignored && !f.Raw {
			dup[f.Key]++
		}
	}
	return dup
}

func facts(p *flow.Path) string {
	var s []string
	for _, f := range p.Facts {
		s = append(s, fmt.Sprintf("%v is %v", f.T, f.V))
	}
	return strings.Join(s, ", ")
}

func lenRange(p *flow.Path, v *flow.Term) (min, max int) {
	lo, hi := p.Interval(p.Len(v))
	min, max = 0, 1<<30
	if lo.OK() && lo.Sign() > 0 {
		min = 1
	}
	if hi.OK() && hi.Sign() == 0 {
		max = 0
	}
	return
}

// empty: nothing to encode.
func empty(p *flow.Path, v *flow.Term) bool {
	switch v.Typ.Underlying().(type) {
	case *types.Slice, *types.Map:
		_, max := lenRange(p, v)
		return p.NilState(v) == 1 || max == 0 || ownZero(v.Typ) && p.Zeroness(v) == 1
	}
	if ptr, ok := v.Typ.Underlying().(*types.Pointer); ok && p.NilState(v) == -1 {
		// a pointer to nothing
		if _, ok := ptr.Elem().Underlying().(*types.Pointer); ok {
			return empty(p, p.Deref(v))
		}
	}
	return p.Zeroness(v) == 1
}

// ownZero: a type that says itself, by an IsZero method, when it is empty.
func ownZero(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o, _, _ := types.LookupFieldOrMethod(n, true, n.Obj().Pkg(), "IsZero")
	_, ok = o.(*types.Func)
	return ok
}

func nonEmpty(p *flow.Path, v *flow.Term) bool {
	switch v.Typ.Underlying().(type) {
	case *types.Slice, *types.Map:
		min, _ := lenRange(p, v)
		return p.NilState(v) == -1 || min == 1 || ownZero(v.Typ) && p.Zeroness(v) == -1
	case *types.Array:
		// encoding/json never counts an array as empty
		return true
	}
	return p.Zeroness(v) == -1
}

// errCalls are the error results of the calls of a path.
func c21(r *R, m *M) {
	for _, p := range m.Paths {
		if p.Crash != nil {
			continue
		}
		// a writer's own error field is returned
		var w *flow.Term
		if m.Name == "MarshalTo" {
			w = writerOf(p).Strip()
		}
		sticky := false
		if e := p.Err(); e != nil && w != nil {
			t := e.Strip()
			if t.Op == flow.OInit && t.A[0].Op == flow.OFAddr && t.A[0].A[0].Strip() == w {
				sticky = true
			}
		}
		if m.Name == "MarshalJSON" && !p.OK() {
			b := p.Ret[0].Strip()
			r.Count("error results", 1)
			if p.NilState(b) != 1 && !(b.Op == flow.OExtract && p.Err() != nil && p.Err().Op == flow.OExtract && p.Err().A[0] == b.A[0]) {
				m.report(r, "no bytes with an error", "", m.Fn.Pos(), "MarshalJSON returns %v together with an error", b)
			}
		}
		if !p.OK() {
			continue
		}
		raw := map[*flow.Term]bool{}
		for _, ev := range p.Events {
			if ev.Kind == "write" && ev.Name == "Raw" && w != nil && ev.Recv.Strip() == w && len(ev.Args) > 2 {
				raw[ev.Args[2].Strip()] = true
				r.Count("error results", 1)
				if !sticky && p.NilState(ev.Args[2]) != 1 {
					m.report(r, "error returned", ev.Name, ev.Pos, "the error given to Raw stays in the writer: MarshalTo returns %v", p.Err())
				}
			}
		}
		for _, ev := range p.Events {
			if ev.Kind != "call" && ev.Kind != "write" || ev.Res == nil || constructor(ev.Name) {
				continue
			}
			e := p.ErrOf(ev.Res)
			if e == nil {
				continue
			}
			r.Count("error results", 1)
			if p.NilState(e) == 1 || raw[e.Strip()] {
				continue
			}
			// an error handed through unpackObject to the writer
			if passed(raw, e) {
				continue
			}
			m.report(r, "error returned", callSite(m, p, ev), ev.Pos, "%s(%v) may fail, and the method returns nil all the same", ev.Name, ev.Recv)
		}
	}
}

// constructor: makes an error, does not fail.
func constructor(n string) bool {
	switch n {
	case "fmt.Errorf", "errors.New", "newParsingError", "pkg/errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "pkg/errors.Errorf":
		return true
	}
	return strings.HasPrefix(n, "github.com/pkg/errors.") || strings.HasPrefix(n, "errors.")
}

func passed(raw map[*flow.Term]bool, e *flow.Term) bool {
	for t := range raw {
		if t.Contains(func(x *flow.Term) bool { return x == e.Strip() }) {
			return true
		}
	}
	return false
}

// callSite names the field a call works on.
func callSite(m *M, p *flow.Path, ev *flow.Event) string {
	for _, f := range m.D.Fields {
		a := fieldAddr(p, f)
		for _, t := range append([]*flow.Term{ev.Recv}, ev.Args...) {
			if t != nil && t.Contains(func(x *flow.Term) bool { return x == a }) {
				return f.Role + " " + ev.Name
			}
		}
	}
	return ev.Name
}
