package absint

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value domain. Integers of every type are int64 (bit pattern, sign- or
// zero-extended according to the static type); floats are float64.
type value = any

type (
	tuple     []value
	array     []value
	structure []value
	iface     struct {
		t types.Type // nil for the nil interface
		v value
	}
	closure struct {
		fn  *ssa.Function
		env []value
	}
	// native is a modelled function used as a value.
	native struct {
		name string
		f    func(r *Run, fr *frame, args []value) value
	}
	// Sym is an integer whose value depends on atoms: rep is its value on the
	// representation. A character has a set of possible base characters and
	// (after arithmetic) a table from base character to value; a length has a
	// lower bound; a parsed number has the text it came from.
	Sym struct {
		rep   value
		key   string
		set   *charset
		tab   *[128]int64
		lo    int64
		hasLo bool
		num   string
	}
	chanv struct{ q []value }
)

func isNilVal(v value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *value:
		return x == nil
	case []value:
		return x == nil
	case *hmap:
		return x == nil
	case iface:
		return x.t == nil
	case *ssa.Function:
		return x == nil
	case *closure:
		return x == nil
	case *native:
		return x == nil
	case *chanv:
		return x == nil
	}
	return false
}

type hent struct {
	k, v value
	dead bool
}

// hmap is an insertion-ordered map.
type hmap struct {
	idx  map[string]int
	ents []*hent
	n    int
}

func newMap() *hmap { return &hmap{idx: map[string]int{}} }

func (m *hmap) get(k value) (value, bool) {
	if m == nil {
		return nil, false
	}
	if i, ok := m.idx[keyOf(k)]; ok {
		return m.ents[i].v, true
	}
	return nil, false
}

func (m *hmap) set(k, v value) {
	ks := keyOf(k)
	if i, ok := m.idx[ks]; ok {
		m.ents[i].v = v
		return
	}
	m.idx[ks] = len(m.ents)
	m.ents = append(m.ents, &hent{k: k, v: v})
	m.n++
}

func (m *hmap) del(k value) {
	if m == nil {
		return
	}
	ks := keyOf(k)
	if i, ok := m.idx[ks]; ok {
		m.ents[i].dead = true
		delete(m.idx, ks)
		m.n--
	}
}

func keyOf(v value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return "i" + strconv.FormatInt(x, 10)
	case float64:
		return "f" + strconv.FormatFloat(x, 'g', -1, 64)
	case string:
		return "s" + x
	case *value:
		return fmt.Sprintf("p%p", x)
	case iface:
		if x.t == nil {
			return "nil"
		}
		return "<" + types.TypeString(x.t, nil) + ">" + keyOf(x.v)
	case structure:
		var b strings.Builder
		for _, e := range x {
			b.WriteString(keyOf(e))
			b.WriteByte(0)
		}
		return b.String()
	case array:
		var b strings.Builder
		for _, e := range x {
			b.WriteString(keyOf(e))
			b.WriteByte(0)
		}
		return b.String()
	case Sym:
		return keyOf(x.rep)
	case *hmap:
		return fmt.Sprintf("m%p", x)
	case *chanv:
		return fmt.Sprintf("c%p", x)
	case *ssa.Function:
		return fmt.Sprintf("F%p", x)
	case *closure:
		return fmt.Sprintf("C%p", x)
	}
	panic(unmodelled{fmt.Sprintf("map key of %T", v)})
}

// zero returns the zero value of t.
func zero(t types.Type) value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Interface:
		return iface{}
	case *types.Map:
		return (*hmap)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Chan:
		return (*chanv)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		tp := make(tuple, t.Len())
		for i := range tp {
			tp[i] = zero(t.At(i).Type())
		}
		return tp
	}
	panic(unmodelled{fmt.Sprintf("zero value of %s", t)})
}

// cp copies value types.
func cp(v value) value {
	switch x := v.(type) {
	case structure:
		n := make(structure, len(x))
		for i := range x {
			n[i] = cp(x[i])
		}
		return n
	case array:
		n := make(array, len(x))
		for i := range x {
			n[i] = cp(x[i])
		}
		return n
	}
	return v
}

// assignTo stores v in place so that interior pointers stay valid.
func assignTo(dst *value, v value) {
	switch x := v.(type) {
	case structure:
		if d, ok := (*dst).(structure); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			x = cp(x).(structure)
			for i := range x {
				assignTo(&d[i], x[i])
			}
			return
		}
		*dst = cp(x)
	case array:
		if d, ok := (*dst).(array); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			x = cp(x).(array)
			for i := range x {
				assignTo(&d[i], x[i])
			}
			return
		}
		*dst = cp(x)
	default:
		*dst = v
	}
}
