package main

import (
	"fmt"
	"go/types"
	"strings"

	"vjcheck/flow"
)

func init() {
	register(&Prop{
		ID:      "C02",
		Rule:    "Range analysis: on every successful path of an emitted decoder each numeric conversion between the JSON extraction and the stored value has an operand whose interval, from the conditions of the path, lies within the target type, and the extraction's own type covers the destination type; on every failing path decided by a condition on an extracted number, the number's interval has nothing in common with the destination type.",
		Methods: fillOnly, Method: c02,
		Min:     map[string]int{"numbers stored": 3000, "numbers rejected": 20},
		Trusted: []string{trustAbs, trustFlow, trustLoop, trustDec, "64-bit int and uint"},
	})
}

// leaf is one stored value with the JSON value and the type it belongs to.
type leaf struct {
	got, jv *flow.Term
	typ     types.Type
	at      string
}

// leaves pairs the parts of a decoded value with the parts of the document they come from.
func (d *dmatcher) leaves(got, jv *flow.Term, typ types.Type, at string, visit func(leaf)) {
	p := d.p
	got = got.Strip()
	if isTime(typ) || isUUID(typ) || mode(p, jv)&mData == 0 {
		visit(leaf{got, jv, typ, at})
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if p.NilState(got) == 1 {
			visit(leaf{got, jv, typ, at})
			return
		}
		d.leaves(p.Deref(got), jv, u.Elem(), at, visit)
	case *types.Slice, *types.Array:
		arr := d.array(jv)
		if arr == nil {
			visit(leaf{got, jv, typ, at})
			return
		}
		k, ok := d.known(p.Len(got))
		l, ok2 := d.known(p.Len(arr))
		if !ok || !ok2 {
			return
		}
		if l < k {
			k = l
		}
		for i := int64(0); i < k && i < 8; i++ {
			d.leaves(p.Elem(got, i), p.Elem(arr, i), flow.ElemType(typ), at+" element", visit)
		}
	case *types.Map:
		for _, ev := range p.Events {
			if ev.Kind != "mapset" || ev.Val == nil {
				continue
			}
			k, _ := from(ev.Args[0])
			if k.Op != flow.OPure || k.S != "json.key" || !objectTerm(k.A[0], jv) {
				continue
			}
			if j := p.Member(k.A[0], k.I); j != nil {
				d.leaves(ev.Val, j, u.Elem(), at+" entry", visit)
			}
		}
	default:
		visit(leaf{got, jv, typ, at})
	}
}

// stored visits everything a successful path stores from the document.
func (m *M) stored(p *flow.Path, visit func(leaf)) {
	d := &dmatcher{p, m.U, nil}
	if !m.D.Struct {
		d.leaves(p.Load(p.Recv()), jparam(p), m.D.Named, "", visit)
		return
	}
	dup := m.dup()
	got := lookups(p)
	for _, f := range m.D.Fields {
		if f.Ignored || f.Vague || f.Raw || dup[f.Key] > 1 {
			continue
		}
		if jv := got[f.Key]; jv != nil {
			d.leaves(p.Load(fieldAddr(p, f)), jv, f.Typ, f.Role, visit)
		}
	}
}

func numeric(t types.Type) bool { return isBasic(t, types.IsNumeric) }

// numberOf: t is a number extracted from a JSON value.
func numberOf(t *flow.Term) bool {
	if t.Op != flow.OExtract || t.I != 0 || t.A[0].Op != flow.OPure {
		return false
	}
	switch t.A[0].S {
	case "json.Int", "json.Int64", "json.Uint", "json.Uint64", "json.Float64":
		return true
	}
	return false
}

func c02(r *R, m *M) {
	for _, p := range m.Paths {
		if p.Crash != nil {
			continue
		}
		if p.OK() {
			m.stored(p, func(l leaf) {
				if numeric(l.typ) && mode(p, l.jv)&mData != 0 {
					m.stays(r, p, l)
				}
			})
			continue
		}
		m.rejects(r, p)
	}
}

// stays checks that no conversion on the way to the stored value loses anything.
func (m *M) stays(r *R, p *flow.Path, l leaf) {
	r.Count("numbers stored", 1)
	t := l.got
	for t.Op == flow.OConv {
		x := t.A[0]
		if numeric(t.Typ) && numeric(x.Typ) {
			lo, hi := p.Interval(x)
			min, max := flow.TypeRange(t.Typ)
			if !lo.OK() || lo.Cmp(min) < 0 {
				m.report(r, "range", strings.TrimSpace(l.at+" below"), m.Fn.Pos(), "%v is converted to %s while it may be less than %v (known: at least %v)", x, typeText(t.Typ), min, lo)
			}
			if !hi.OK() || hi.Cmp(max) > 0 {
				m.report(r, "range", strings.TrimSpace(l.at+" above"), m.Fn.Pos(), "%v is converted to %s while it may be more than %v (known: at most %v)", x, typeText(t.Typ), max, hi)
			}
			if isBasic(x.Typ, types.IsFloat) && isBasic(t.Typ, types.IsInteger) {
				m.report(r, "range", strings.TrimSpace(l.at+" fraction"), m.Fn.Pos(), "the fraction of %v is cut off by the conversion to %s", x, typeText(t.Typ))
			}
			if isBasic(x.Typ, types.IsFloat) && t.Typ.Underlying() != x.Typ.Underlying() && isBasic(l.typ, types.IsFloat) && l.typ.Underlying() != t.Typ.Underlying() {
				m.report(r, "range", strings.TrimSpace(l.at+" precision"), m.Fn.Pos(), "%v passes through %s on its way to %s", x, typeText(t.Typ), typeText(l.typ))
			}
		}
		t = x
	}
	if !numberOf(t) {
		return // C14
	}
	have, want := t.Typ, l.typ
	lo, hi := flow.TypeRange(have)
	min, max := flow.TypeRange(want)
	if lo.Cmp(min) > 0 || hi.Cmp(max) < 0 || isBasic(want, types.IsFloat) && !isBasic(have, types.IsFloat) {
		m.report(r, "extraction", l.at, m.Fn.Pos(), "%v is read with %s, which cannot hold every %s", l.jv, t.A[0].S, typeText(want))
	}
}

// rejects checks that a number turned down by a condition is no value of its destination.
func (m *M) rejects(r *R, p *flow.Path) {
	_, cause := chain(p.Err())
	if failing(cause) != nil || len(p.Facts) == 0 {
		return
	}
	last := p.Facts[len(p.Facts)-1].T
	var x *flow.Term
	last.Contains(func(t *flow.Term) bool {
		if numberOf(t) {
			x = t
		}
		return false
	})
	if x == nil || last.Op == flow.OBin && p.ErrOf(x.A[0]) != nil && last.Contains(func(t *flow.Term) bool { return t == p.ErrOf(x.A[0]) }) {
		return
	}
	st, ok := place(p, x.A[0].A[0], jparam(p))
	if !ok {
		return
	}
	dt := m.destType(st)
	if dt == nil {
		return
	}
	if pt, ok := dt.Underlying().(*types.Pointer); ok {
		dt = pt.Elem()
	}
	if !numeric(dt) {
		return
	}
	r.Count("numbers rejected", 1)
	lo, hi := p.Interval(x)
	min, max := flow.TypeRange(dt)
	out := lo.OK() && lo.Cmp(max) > 0 || hi.OK() && hi.Cmp(min) < 0
	if !out {
		m.report(r, "accepts", m.stepsRole(st), errPos(p, m), "%v, known to lie between %v and %v, is rejected although %s holds %v to %v", x, lo, hi, typeText(dt), min, max)
	}
}

var _ = fmt.Sprint
