package flow

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Truth decides a boolean term (1 true, -1 false, 0 unknown).
func (e *Exec) Truth(t *Term) int { return e.truth(t) }

// Len is the length of a slice, string, map or array term.
func (e *Exec) Len(t *Term) *Term { return e.length(t) }

// Zero is the zero value of a type.
func (e *Exec) Zero(t types.Type) *Term { return e.zero(t) }

// Elem is the value of element i of a slice, array or map-free container.
func (e *Exec) Elem(v *Term, i int64) *Term {
	s := v.Strip()
	if _, ok := s.Typ.Underlying().(*types.Array); ok {
		return e.index(s, e.intc(i), elemOf(s.Typ))
	}
	return e.load(e.elemAddr(s, e.intc(i), types.NewPointer(elemOf(s.Typ))))
}

// Field is field i of a struct value.
func (e *Exec) Field(v *Term, i int) *Term { return e.field(v, i) }

// RangeKey and RangeVal are the i-th entry of an iterated map.
func (e *Exec) RangeKey(m *Term, i int) *Term {
	mt := m.Typ.Underlying().(*types.Map)
	return e.mk(ORangeKey, mt.Key(), i, "", nil, m)
}

func (e *Exec) RangeVal(m *Term, i int) *Term {
	mt := m.Typ.Underlying().(*types.Map)
	return e.mk(ORangeVal, mt.Elem(), i, "", nil, m)
}

// Zeroness decides whether a value is its type's zero value (1 zero, -1 not,
// 0 unknown), by comparisons, lengths, nil facts and IsZero methods.
func (e *Exec) Zeroness(t *Term) int {
	if e.IsZeroVal(t) {
		return 1
	}
	t = t.Strip()
	for t.Op == OConv && isNumeric(t.Typ) && isNumeric(t.A[0].Typ) {
		if v := e.Zeroness(t.A[0]); v == 1 {
			return 1
		}
		break
	}
	// an IsZero method said so
	for _, n := range []string{"IsZero", "(time.Time).IsZero"} {
		for b, v := range e.boolf {
			if b.Op == OPure && b.S == n && len(b.A) == 1 && b.A[0].Strip() == t {
				if v {
					return 1
				}
				return -1
			}
		}
	}
	switch u := t.Typ.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return e.NilState(t)
	case *types.Slice, *types.Map:
		return e.NilState(t)
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return -e.truth(t)
		}
		return e.truth(e.binop(nil, token.EQL, types.Typ[types.Bool], t, e.zero(t.Typ)))
	case *types.Struct:
		if v := e.eqFact(t); v != 0 {
			return v
		}
		all := 1
		for i := 0; i < u.NumFields(); i++ {
			switch e.Zeroness(e.field(t, i)) {
			case -1:
				return -1
			case 0:
				all = 0
			}
		}
		return all
	case *types.Array:
		if v := e.eqFact(t); v != 0 {
			return v
		}
		if u.Len() > 64 {
			return 0
		}
		all := 1
		for i := int64(0); i < u.Len(); i++ {
			switch e.Zeroness(e.index(t, e.intc(i), u.Elem())) {
			case -1:
				return -1
			case 0:
				all = 0
			}
		}
		return all
	}
	return 0
}

// eqFact: a comparison of a struct or array with a zero value.
func (e *Exec) eqFact(t *Term) int {
	for b, v := range e.boolf {
		if b.Op != OBin || b.S != "==" {
			continue
		}
		x, y := b.A[0].Strip(), b.A[1].Strip()
		if x != t && y == t {
			x, y = y, x
		}
		if x == t && e.IsZeroVal(y) {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

// FactsOn are the decided conditions.
func (e *Exec) BoolFacts() map[*Term]bool { return e.boolf }

// NilWhen is the number of events that had happened when t was found (not) nil; -1: never.
func (e *Exec) NilWhen(t *Term) int {
	t = t.Strip()
	for t.Op == OPure && t.S == "newParsingError" {
		t = t.A[1].Strip()
	}
	if v, ok := e.nilAt[t]; ok {
		return v
	}
	return -1
}

// IsErr reports whether t is the error type.
func IsErr(t types.Type) bool { return isErr(t) }

// RunFunc analyses a plain function.
func (e *Engine) RunFunc(fn *ssa.Function) []*Path { return e.Run(fn, nil) }

// Extract is component i of a multi-valued term.
func (e *Exec) Extract(t *Term, i int) *Term { return e.extract(t, i) }

// Deref loads through a pointer value.
func (e *Exec) Deref(p *Term) *Term { return e.load(p.stripPtr()) }

// ElemType of a pointer, slice, array or map.
func ElemType(t types.Type) types.Type { return elemOf(t) }

// EqConst is the constant a term is known to equal.
func (e *Exec) EqConst(t *Term) *Term { return e.eqc[t] }

// NumOf converts a numeric constant.
func NumOf(c constant.Value) Num { return numOf(c) }

// Addr is the address an initial value was loaded from.
func Addr(v *Term) *Term {
	v = v.Strip()
	if v.Op == OInit {
		return v.A[0]
	}
	return nil
}

// IsNull reports whether a JSON value is known to be (1) or not to be (-1) null.
func (e *Exec) IsNull(v *Term) int { return e.truth(e.isNullTerm(v.Strip())) }

// Member is the value of entry i of a visited object.
func (e *Exec) Member(obj *Term, i int) *Term {
	for _, ev := range e.Events {
		if ev.Kind == "iter" && ev.Addr == obj && len(ev.Args) == 2 && ev.Args[0].I == i {
			return ev.Args[1]
		}
	}
	return nil
}

// Str is a string constant.
func (e *Exec) Str(s string) *Term { return e.konst(constant.MakeString(s), types.Typ[types.String]) }

// Add is an integer plus a constant.
func (e *Exec) Add(t *Term, n int64) *Term {
	if n < 0 {
		return e.binop(nil, token.SUB, types.Typ[types.Int], t, e.intc(-n))
	}
	return e.binop(nil, token.ADD, types.Typ[types.Int], t, e.intc(n))
}

// SameInt reports whether two integers are known to be equal.
func (e *Exec) SameInt(x, y *Term) bool { return e.leq(x, y, false) == 1 && e.leq(y, x, false) == 1 }

// ElemAt is the element of a slice at an index.
func (e *Exec) ElemAt(v, i *Term) *Term {
	return e.load(e.elemAddr(v.Strip(), i, types.NewPointer(elemOf(v.Typ))))
}

// NumOfInt is an integer as a number.
func NumOfInt(n int64) Num { return numOf(constant.MakeInt64(n)) }
