// Package flow is a path-sensitive dataflow analysis over the SSA form of
// emitted functions. Values are origin terms (which parameter, field, element,
// call result or constant a value derives from); nothing is executed and no
// solver is involved. Conditions are tracked as nil facts, boolean facts and
// difference bounds.
package flow

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// Op is the kind of a term.
type Op uint8

const (
	OConst Op = iota
	OZero
	OParam
	OAlloc
	OGlobal
	OFAddr
	OIAddr
	OInit
	ORegion
	ORegNew
	OSlice
	OLen
	OCap
	OCall
	OExtract
	OPure
	OConv
	OReinterp
	OBin
	ONot
	ONeg
	OField
	OIndex
	OAgg
	OMkIface
	OClosure
	OFunc
	OMakeMap
	ORangeKey
	ORangeVal
	OAssert
	OTuple
	OCopy
	OLookup
)

var opNames = [...]string{"const", "zero", "param", "alloc", "global", "field&", "elem&", "init", "region", "newregion", "slice", "len", "cap", "call", "extract", "pure", "conv", "reinterp", "bin", "not", "neg", "field", "index", "agg", "iface", "closure", "func", "makemap", "rangekey", "rangeval", "assert", "tuple", "copy", "lookup"}

// Term is an interned origin term.
type Term struct {
	Op  Op
	ID  int32
	Typ types.Type
	A   []*Term
	I   int
	S   string
	C   constant.Value
	X   any
}

type tkey struct {
	op      Op
	n       int8
	a, b, c int32
	d       int32
	i       int
	s       string
	x       any
	typ     types.Type
}

func (e *Exec) mk(op Op, typ types.Type, i int, s string, x any, as ...*Term) *Term {
	var k tkey
	k.op, k.i, k.s, k.x, k.n = op, i, s, x, int8(len(as))
	switch op {
	case OConv, OReinterp, OConst, OZero, OAssert:
		k.typ = typ
	}
	for j, a := range as {
		switch j {
		case 0:
			k.a = a.ID
		case 1:
			k.b = a.ID
		case 2:
			k.c = a.ID
		case 3:
			k.d = a.ID
		default:
			k.s += fmt.Sprintf(",%d", a.ID)
		}
	}
	if t, ok := e.terms[k]; ok {
		return t
	}
	e.nterm++
	t := &Term{Op: op, ID: e.nterm, Typ: typ, A: as, I: i, S: s, X: x}
	e.terms[k] = t
	return t
}

func (e *Exec) konst(v constant.Value, typ types.Type) *Term {
	s := "nil"
	if v != nil {
		switch v.Kind() {
		case constant.String:
			s = "s" + constant.StringVal(v)
		case constant.Int:
			if n, ok := constant.Int64Val(v); ok {
				s = "i" + strconv.FormatInt(n, 10)
				break
			}
			fallthrough
		default:
			s = fmt.Sprint(v.Kind()) + v.ExactString()
		}
	}
	t := e.mk(OConst, typ, 0, s, nil)
	t.C = v
	return t
}

func (e *Exec) intc(n int64) *Term { return e.konst(constant.MakeInt64(n), types.Typ[types.Int]) }

func (e *Exec) boolc(b bool) *Term { return e.konst(constant.MakeBool(b), types.Typ[types.Bool]) }

// zero is the zero value of a type.
func (e *Exec) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.konst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return e.konst(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return e.konst(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return e.konst(constant.MakeFloat64(0), t)
		}
		return e.konst(nil, t)
	case *types.Struct, *types.Array:
		return e.mk(OZero, t, 0, "", nil)
	}
	return e.konst(nil, t)
}

// IsZeroVal reports whether t is known to be the zero value of its type.
func (e *Exec) IsZeroVal(t *Term) bool {
	switch t.Op {
	case OZero:
		return true
	case OConst:
		if t.C == nil {
			return true
		}
		switch t.C.Kind() {
		case constant.Bool:
			return !constant.BoolVal(t.C)
		case constant.String:
			return constant.StringVal(t.C) == ""
		default:
			return constant.Sign(t.C) == 0
		}
	case OAgg:
		for _, a := range t.A {
			if !e.IsZeroVal(a) {
				return false
			}
		}
		return true
	case OConv:
		return e.IsZeroVal(t.A[0]) && !isStringFromInt(t)
	case OPure:
		if t.S == "ptr-global" {
			return false
		}
	case OInit:
		if g := t.A[0]; g.Op == OGlobal && g.S == "github.com/google/uuid.Nil" {
			return true
		}
		// contents of uuid.Nil
		if a := t.A[0]; a.Op == OIAddr && a.A[0].Op == OGlobal && a.A[0].S == "github.com/google/uuid.Nil" {
			return true
		}
	}
	if b, ok := t.Typ.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			lo, hi := e.Interval(t)
			return lo.ok && hi.ok && lo.Sign() == 0 && hi.Sign() == 0
		case b.Info()&types.IsBoolean != 0:
			v, ok := e.boolf[t]
			return ok && !v
		}
		if k := e.eqc[t]; k != nil {
			return e.IsZeroVal(k)
		}
	}
	if v, ok := e.nilf[t]; ok && v {
		return true
	}
	return false
}

func isStringFromInt(t *Term) bool {
	b, ok := t.Typ.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsString == 0 {
		return false
	}
	s, ok := t.A[0].Typ.Underlying().(*types.Basic)
	return ok && s.Info()&types.IsInteger != 0
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "?"
	}
	if d > 7 {
		return "…"
	}
	switch t.Op {
	case OConst:
		if t.C == nil {
			return "nil"
		}
		return t.C.String()
	case OZero:
		return "zero"
	case OParam:
		return t.S
	case OGlobal:
		return t.S
	case OAlloc, OMakeMap, ORegNew:
		return fmt.Sprintf("%s#%d", opNames[t.Op], t.I)
	case OFAddr:
		return t.A[0].str(d+1) + "." + fieldName(t.A[0].Typ, t.I)
	case OField:
		return t.A[0].str(d+1) + "." + fieldName(t.A[0].Typ, t.I)
	case OIAddr, OIndex, OLookup:
		return t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + "]"
	case OInit:
		return "*" + t.A[0].str(d+1)
	case OPure, OCall:
		var as []string
		for _, a := range t.A {
			as = append(as, a.str(d+1))
		}
		n := t.S
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		if t.Op == OCall {
			n += fmt.Sprintf("#%d", t.I)
		}
		return n + "(" + strings.Join(as, ", ") + ")"
	case OExtract:
		return fmt.Sprintf("%s!%d", t.A[0].str(d+1), t.I)
	case OBin:
		return "(" + t.A[0].str(d+1) + " " + t.S + " " + t.A[1].str(d+1) + ")"
	case OConv:
		return types.TypeString(t.Typ, func(p *types.Package) string { return p.Name() }) + "(" + t.A[0].str(d+1) + ")"
	}
	var as []string
	for _, a := range t.A {
		as = append(as, a.str(d+1))
	}
	return opNames[t.Op] + "(" + strings.Join(as, ", ") + ")"
}

func fieldName(t types.Type, i int) string {
	if t == nil {
		return fmt.Sprint(i)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

// Contains reports whether f holds for t or a part of it.
func (t *Term) Contains(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.A {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// Strip removes value-preserving renamings (changes between named types of the same kind).
func (t *Term) Strip() *Term {
	for t.Op == OConv && (types.Identical(t.Typ.Underlying(), t.A[0].Typ.Underlying()) || samePtrBase(t.Typ, t.A[0].Typ)) {
		t = t.A[0]
	}
	return t
}

func samePtrBase(a, b types.Type) bool {
	p, ok := a.Underlying().(*types.Pointer)
	q, ok2 := b.Underlying().(*types.Pointer)
	return ok && ok2 && types.Identical(p.Elem().Underlying(), q.Elem().Underlying())
}

func ratOf(c constant.Value) *big.Rat {
	switch c.Kind() {
	case constant.Int, constant.Float:
		f := constant.ToFloat(c)
		_ = f
		r := new(big.Rat)
		if c.Kind() == constant.Int {
			if i, ok := constant.Val(c).(*big.Int); ok {
				return r.SetInt(i)
			}
			if i, ok := constant.Int64Val(c); ok {
				return r.SetInt64(i)
			}
		}
		switch v := constant.Val(c).(type) {
		case *big.Rat:
			return v
		case *big.Float:
			q, _ := v.Rat(nil)
			return q
		case int64:
			return r.SetInt64(v)
		case *big.Int:
			return r.SetInt(v)
		}
	}
	return nil
}
