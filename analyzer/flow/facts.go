package flow

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type con struct {
	x, y *Term // x - y <= c; nil is zero
	c    Num
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isNumeric(t types.Type) bool { return isInt(t) || isFloat(t) }

// lin writes t as base + offset (base nil: constant).
func (e *Exec) lin(t *Term) (*Term, Num) {
	switch t.Op {
	case OConst:
		if t.C != nil {
			if r := numOf(t.C); r.ok {
				return nil, r
			}
		}
	case OBin:
		if isInt(t.Typ) && (t.S == "+" || t.S == "-") {
			b1, o1 := e.lin(t.A[0])
			b2, o2 := e.lin(t.A[1])
			if t.S == "+" {
				if b1 == nil {
					return b2, o1.add(o2)
				}
				if b2 == nil {
					return b1, o1.add(o2)
				}
			} else if b2 == nil {
				return b1, o1.sub(o2)
			} else if b1 == b2 {
				return nil, o1.sub(o2)
			}
		}
	case OConv:
		if isInt(t.Typ) && isInt(t.A[0].Typ) {
			lo, hi := TypeRange(t.Typ)
			slo, shi := TypeRange(t.A[0].Typ)
			if slo.Cmp(lo) >= 0 && shi.Cmp(hi) <= 0 {
				return e.lin(t.A[0])
			}
			if slo, shi = e.Interval(t.A[0]); slo.ok && shi.ok && slo.Cmp(lo) >= 0 && shi.Cmp(hi) <= 0 {
				return e.lin(t.A[0])
			}
		} else if isFloat(t.Typ) && isFloat(t.A[0].Typ) {
			if b := t.Typ.Underlying().(*types.Basic); b.Kind() == types.Float64 {
				return e.lin(t.A[0])
			}
		}
	}
	return t, zero
}

// dist is the least c with x - y <= c known.
func (e *Exec) dist(x, y *Term) Num {
	if x == y {
		return zero
	}
	d := map[*Term]Num{y: zero}
	queue := []*Term{y}
	relax := func(to *Term, v Num) {
		if old, ok := d[to]; !ok || v.Cmp(old) < 0 {
			d[to] = v
			queue = append(queue, to)
		}
	}
	for n := 0; len(queue) > 0 && n < 2000; n++ {
		t := queue[0]
		queue = queue[1:]
		dt := d[t]
		if t != nil {
			// 0 - t <= -lo
			lo, _ := TypeRange(t.Typ)
			if t.Op == OLen || t.Op == OCap {
				lo = zero
			}
			if lo.ok {
				relax(nil, dt.sub(lo))
			}
			if t.Op == OCap {
				if l, ok := e.lens[t.A[0]]; ok {
					relax(l, dt)
				}
			}
		} else if x != nil {
			_, hi := TypeRange(x.Typ)
			if hi.ok {
				relax(x, dt.add(hi))
			}
		}
		for _, c := range e.cons {
			if c.y == t {
				relax(c.x, dt.add(c.c))
			}
		}
	}
	return d[x]
}

// Interval is the known range of a numeric term.
func (e *Exec) Interval(t *Term) (lo, hi Num) {
	b, o := e.lin(t)
	if b == nil {
		return o, o
	}
	if h := e.dist(b, nil); h.ok {
		hi = h.add(o)
	}
	if l := e.dist(nil, b); l.ok {
		lo = l.neg().add(o)
	}
	return
}

// leq decides x <= y (+1 true, -1 false, 0 unknown).
func (e *Exec) leq(x, y *Term, strict bool) int {
	bx, ox := e.lin(x)
	by, oy := e.lin(y)
	step := zero
	if strict {
		step = one
		if !isInt(x.Typ) || !isInt(y.Typ) {
			step = eps
		}
	}
	// x <= y - step  <=>  bx - by <= oy - ox - step
	lim := oy.sub(ox).sub(step)
	if bx == by {
		if zero.Cmp(lim) <= 0 {
			return 1
		}
		return -1
	}
	if d := e.dist(bx, by); d.ok && d.Cmp(lim) <= 0 {
		return 1
	}
	// false if by - bx <= -(lim) - step'
	st := one
	if !isInt(x.Typ) || !isInt(y.Typ) {
		st = eps
	}
	if d := e.dist(by, bx); d.ok && d.Cmp(lim.neg().sub(st)) <= 0 {
		return -1
	}
	return 0
}

func (e *Exec) addLeq(x, y *Term, strict bool) {
	bx, ox := e.lin(x)
	by, oy := e.lin(y)
	step := zero
	if strict {
		step = one
		if !isInt(x.Typ) || !isInt(y.Typ) {
			step = eps
		}
	}
	if bx == by {
		return
	}
	e.cons = append(e.cons, con{bx, by, oy.sub(ox).sub(step)})
}

// NilState: is t nil (1 nil, -1 not nil, 0 unknown).
func (e *Exec) NilState(t *Term) int {
	t = t.Strip()
	switch t.Op {
	case OConst:
		if t.C == nil {
			return 1
		}
		return -1
	case OAlloc, OFAddr, OIAddr, OGlobal, OMkIface, OClosure, OFunc, OMakeMap, OZero, OAgg:
		return -1
	case OSlice:
		if t.A[0].Op == ORegNew {
			return -1
		}
		if t.A[0].Op == ORegion {
			// reslicing nil gives nil
			return e.NilState(t.A[0].A[0])
		}
		return -1
	case OConv:
		return e.NilState(t.A[0])
	case OPure:
		switch t.S {
		case "newParsingError":
			return e.NilState(t.A[1])
		case "fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
			return -1
		}
	}
	if v, ok := e.nilf[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	switch t.Typ.Underlying().(type) {
	case *types.Slice, *types.Map:
		if lo, _ := e.Interval(e.length(t)); lo.ok && lo.Sign() > 0 {
			return -1
		}
	}
	return e.contract(t)
}

// contract is what the libraries promise about a pointer.
func (e *Exec) contract(t *Term) int {
	switch t.Op {
	case OExtract:
		// the object of a value, given that the extraction did not fail
		if c := t.A[0]; c.Op == OPure && c.S == "json.Object" && t.I == 0 {
			return -e.NilState(e.extract(c, 1))
		}
		if c := t.A[0]; c.Op == OCall && t.I == 0 && (c.S == "(*fastjson.Parser).ParseBytes" || c.S == "(*fastjson.Parser).Parse") {
			return -e.NilState(e.extract(c, 1))
		}
	case OCall:
		if t.S == "(*fastjson.ParserPool).Get" {
			return -1
		}
	case OInit:
		a := t.A[0]
		// elements of a JSON array
		if a.Op == OIAddr && a.A[0].Op == ORegion {
			if s := a.A[0].A[0].Strip(); s.Op == OExtract && s.A[0].Op == OPure && s.A[0].S == "json.Array" {
				return -1
			}
		}
		// variables of libraries
		if a.Op == OGlobal {
			if g, ok := a.X.(*ssa.Global); ok && g.Pkg != nil && e.Eng.Unit.Mod[g.Pkg.Pkg.Path()] == nil {
				return -1
			}
		}
	}
	return 0
}

// SetNil adds a nil fact from outside.
func (e *Exec) SetNil(t *Term, isNil bool) {
	at, ok := e.nilAt[t.Strip()]
	e.setNil(t, isNil)
	if ok {
		e.nilAt[t.Strip()] = at
	} else {
		delete(e.nilAt, t.Strip())
	}
}

func (e *Exec) setNil(t *Term, isNil bool) {
	t = t.Strip()
	if t.Op == OConv {
		e.setNil(t.A[0], isNil)
		return
	}
	if t.Op == OSlice && t.A[0].Op == ORegion {
		e.setNil(t.A[0].A[0], isNil)
		return
	}
	if t.Op == OPure && t.S == "newParsingError" {
		e.setNil(t.A[1], isNil)
		return
	}
	e.nilf[t] = isNil
	e.nilAt[t] = len(e.Events)
	if isNil {
		switch t.Typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			l := e.lenTerm(t)
			e.cons = append(e.cons, con{l, nil, zero})
			if _, ok := t.Typ.Underlying().(*types.Slice); ok {
				c := e.mk(OCap, types.Typ[types.Int], 0, "", nil, t)
				e.cons = append(e.cons, con{c, nil, zero})
			}
		}
	}
}

// length of a slice, string, map or array term.
func (e *Exec) length(t *Term) *Term {
	s := t.Strip()
	switch s.Op {
	case OSlice:
		return s.A[2]
	case OConst:
		if s.C == nil {
			return e.intc(0)
		}
		if s.C.Kind() == constant.String {
			return e.intc(int64(len(constant.StringVal(s.C))))
		}
	case OConv:
		// string <-> []byte
		if isBytesOrString(s.Typ) && isBytesOrString(s.A[0].Typ) {
			return e.length(s.A[0])
		}
	case OCopy:
		return e.length(s.A[0])
	}
	if a, ok := s.Typ.Underlying().(*types.Array); ok {
		return e.intc(a.Len())
	}
	if p, ok := s.Typ.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return e.intc(a.Len())
		}
	}
	return e.lenTerm(s)
}

func (e *Exec) capacity(t *Term) *Term {
	s := t.Strip()
	switch s.Op {
	case OSlice:
		return s.A[3]
	case OConst:
		return e.intc(0)
	}
	return e.mk(OCap, types.Typ[types.Int], 0, "", nil, s)
}

func isBytesOrString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// truth decides a boolean term (1 true, -1 false, 0 unknown).
func (e *Exec) truth(t *Term) int {
	switch t.Op {
	case OConst:
		if constant.BoolVal(t.C) {
			return 1
		}
		return -1
	case ONot:
		return -e.truth(t.A[0])
	case OConv:
		return e.truth(t.A[0])
	case OBin:
		if v, ok := e.boolf[t]; ok {
			if v {
				return 1
			}
			return -1
		}
		return e.truthBin(t)
	}
	if t.Op == OPure && t.S == "valueIsNotNull" {
		if n := e.NilState(t.A[0]); n == 1 {
			return -1
		} else if n == -1 {
			if tt := e.truth(e.isNullTerm(t.A[0])); tt != 0 {
				return -tt
			}
		}
	}
	if v, ok := e.boolf[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

// isNullTerm is the condition that a (non-nil) JSON value is null.
func (e *Exec) isNullTerm(v *Term) *Term {
	ty := e.mk(OPure, e.typeType(), 0, "json.Type", nil, v)
	return e.mk(OBin, types.Typ[types.Bool], 0, "==", nil, ty, e.konst(constant.MakeInt64(0), e.typeType()))
}

func (e *Exec) typeType() types.Type {
	if e.fjType == nil {
		e.fjType = types.Typ[types.Int]
		if p := e.Eng.pkg("github.com/valyala/fastjson"); p != nil {
			if o := p.Scope().Lookup("Type"); o != nil {
				e.fjType = o.Type()
			}
		}
	}
	return e.fjType
}

func isNilConst(t *Term) bool { return t.Op == OConst && t.C == nil }

func (e *Exec) truthBin(t *Term) int {
	x, y := t.A[0], t.A[1]
	b := func(ok bool) int {
		if ok {
			return 1
		}
		return -1
	}
	switch t.S {
	case "==", "!=":
		r := 0
		switch {
		case isNilConst(y):
			r = e.NilState(x)
		case isNilConst(x):
			r = e.NilState(y)
		case x == y && !isFloat(x.Typ):
			r = 1
		case x.Op == OConst && y.Op == OConst:
			r = b(constant.Compare(x.C, token.EQL, y.C))
		case isNumeric(x.Typ) && isNumeric(y.Typ):
			l, g := e.leq(x, y, false), e.leq(y, x, false)
			if l == 1 && g == 1 {
				r = 1
			} else if l == -1 || g == -1 {
				r = -1
			}
		default:
			if k := e.eqc[x]; k != nil && y.Op == OConst && k.C != nil && y.C != nil {
				r = b(constant.Compare(k.C, token.EQL, y.C))
			}
			if b0, ok := x.Typ.Underlying().(*types.Basic); ok && b0.Info()&types.IsBoolean != 0 && y.Op == OConst {
				r = e.truth(x)
				if !constant.BoolVal(y.C) {
					r = -r
				}
			}
			if b0, ok := x.Typ.Underlying().(*types.Basic); ok && b0.Info()&types.IsString != 0 && y.Op == OConst && constant.StringVal(y.C) == "" {
				if lo, hi := e.Interval(e.length(x)); lo.ok && lo.Sign() > 0 {
					r = -1
				} else if hi.ok && hi.Sign() == 0 {
					r = 1
				}
			}
		}
		if t.S == "!=" {
			return -r
		}
		return r
	case "<":
		return e.leq(x, y, true)
	case "<=":
		return e.leq(x, y, false)
	case ">":
		return e.leq(y, x, true)
	case ">=":
		return e.leq(y, x, false)
	}
	return 0
}

// assume adds a boolean fact.
func (e *Exec) assume(t *Term, v bool) {
	switch t.Op {
	case OConst:
		return
	case ONot:
		e.assume(t.A[0], !v)
		return
	case OConv:
		e.assume(t.A[0], v)
		return
	}
	e.boolf[t] = v
	e.boolAt[t] = len(e.Events)
	e.Facts = append(e.Facts, Fact{t, v, len(e.Events)})
	if t.Op == OPure && t.S == "valueIsNotNull" {
		x := t.A[0]
		if v {
			e.setNil(x, false)
			e.assumeQuiet(e.isNullTerm(x), false)
		} else if e.NilState(x) == -1 {
			e.assumeQuiet(e.isNullTerm(x), true)
		}
		return
	}
	if t.Op != OBin {
		return
	}
	x, y := t.A[0], t.A[1]
	op := t.S
	if op == "!=" {
		op, v = "==", !v
	}
	if op == "==" {
		switch {
		case isNilConst(y):
			e.setNil(x, v)
		case isNilConst(x):
			e.setNil(y, v)
		case isNumeric(x.Typ) && isNumeric(y.Typ):
			if v {
				e.addLeq(x, y, false)
				e.addLeq(y, x, false)
			} else if isInt(x.Typ) {
				// sharpen a bound that the disequality touches
				if e.leq(x, y, false) == 1 {
					e.addLeq(x, y, true)
				} else if e.leq(y, x, false) == 1 {
					e.addLeq(y, x, true)
				}
			}
		default:
			b0, ok := x.Typ.Underlying().(*types.Basic)
			if ok && b0.Info()&types.IsBoolean != 0 && y.Op == OConst {
				e.assume(x, constant.BoolVal(y.C) == v)
				return
			}
			if v && y.Op == OConst {
				e.eqc[x] = y
			} else if v && x.Op == OConst {
				e.eqc[y] = x
			}
			if ok && b0.Info()&types.IsString != 0 && y.Op == OConst && constant.StringVal(y.C) == "" {
				l := e.length(x)
				if l.Op == OLen {
					if v {
						e.cons = append(e.cons, con{l, nil, zero})
					} else {
						e.cons = append(e.cons, con{nil, l, one.neg()})
					}
				}
			}
		}
		return
	}
	if !isNumeric(x.Typ) || !isNumeric(y.Typ) {
		return
	}
	switch op {
	case "<":
		if v {
			e.addLeq(x, y, true)
		} else {
			e.addLeq(y, x, false)
		}
	case "<=":
		if v {
			e.addLeq(x, y, false)
		} else {
			e.addLeq(y, x, true)
		}
	case ">":
		if v {
			e.addLeq(y, x, true)
		} else {
			e.addLeq(x, y, false)
		}
	case ">=":
		if v {
			e.addLeq(y, x, false)
		} else {
			e.addLeq(x, y, true)
		}
	}
}

func (e *Exec) assumeQuiet(t *Term, v bool) {
	if t.Op == ONot {
		e.assumeQuiet(t.A[0], !v)
		return
	}
	e.boolf[t] = v
	e.boolAt[t] = len(e.Events)
}

func (e *Exec) lenTerm(t *Term) *Term {
	l := e.mk(OLen, types.Typ[types.Int], 0, "", nil, t)
	e.lens[t] = l
	return l
}
