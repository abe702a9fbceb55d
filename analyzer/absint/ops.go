package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (r *Run) unop(fr *frame, in *ssa.UnOp) value {
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		p, _ := x.(*value)
		if p == nil {
			r.throw(fr, "invalid memory address or nil pointer dereference")
		}
		return cp(*p)
	case token.NOT:
		return !x.(bool)
	case token.SUB:
		switch v := x.(type) {
		case int64:
			return wrap(in.Type(), -v)
		case float64:
			return -v
		case Sym:
			return r.mapSym(in.Type(), "neg", v, func(n int64) int64 { return -n })
		}
	case token.XOR:
		switch v := x.(type) {
		case int64:
			return wrap(in.Type(), ^v)
		}
	case token.ARROW:
		ch := x.(*chanv)
		var v value
		ok := false
		if len(ch.q) > 0 {
			v, ok = ch.q[0], true
			ch.q = ch.q[1:]
		} else {
			v = zero(in.X.Type().Underlying().(*types.Chan).Elem())
		}
		if in.CommaOk {
			return tuple{v, ok}
		}
		return v
	}
	panic(unmodelled{fmt.Sprintf("unary %s on %T", in.Op, x)})
}

func wrap(t types.Type, n int64) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return n
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (r *Run) mapSym(t types.Type, op string, s Sym, f func(int64) int64) value {
	out := Sym{rep: wrap(t, f(s.rep.(int64))), key: op + "(" + s.key + ")", set: s.set}
	if s.set != nil {
		var tab [128]int64
		for b := 0; b < 128; b++ {
			v := int64(b)
			if s.tab != nil {
				v = s.tab[b]
			}
			tab[b] = wrap(t, f(v))
		}
		out.tab = &tab
		out.key = s.key
	}
	return out
}

func intOp(op token.Token, t types.Type, a, b int64) (int64, bool) {
	u := isUnsigned(t)
	switch op {
	case token.ADD:
		return wrap(t, a+b), true
	case token.SUB:
		return wrap(t, a-b), true
	case token.MUL:
		return wrap(t, a*b), true
	case token.QUO:
		if b == 0 {
			return 0, false
		}
		if u {
			return int64(uint64(a) / uint64(b)), true
		}
		return wrap(t, a/b), true
	case token.REM:
		if b == 0 {
			return 0, false
		}
		if u {
			return int64(uint64(a) % uint64(b)), true
		}
		return wrap(t, a%b), true
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return wrap(t, a^b), true
	case token.AND_NOT:
		return a &^ b, true
	case token.SHL:
		if b < 0 || b > 63 {
			return 0, true
		}
		return wrap(t, a<<uint(b)), true
	case token.SHR:
		if b > 63 {
			if !u && a < 0 {
				return -1, true
			}
			return 0, true
		}
		if u {
			return int64(uint64(a) >> uint(b)), true
		}
		return a >> uint(b), true
	}
	return 0, false
}

func cmpInt(op token.Token, t types.Type, a, b int64) bool {
	if isUnsigned(t) && (a < 0 || b < 0) {
		ua, ub := uint64(a), uint64(b)
		switch op {
		case token.LSS:
			return ua < ub
		case token.LEQ:
			return ua <= ub
		case token.GTR:
			return ua > ub
		case token.GEQ:
			return ua >= ub
		}
	}
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	default:
		return a >= b
	}
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

// compareSym decides a comparison of an atom-dependent integer.
func (r *Run) compareSym(fr *frame, op token.Token, t types.Type, s Sym, n int64) bool {
	if s.set != nil {
		cs := *s.set
		if k, ok := r.sets[s.key]; ok {
			cs = k
		}
		var yes, no charset
		for b := 0; b < 128; b++ {
			if !cs.has(byte(b)) {
				continue
			}
			v := int64(b)
			if s.tab != nil {
				v = s.tab[b]
			}
			if cmpInt(op, t, v, n) {
				yes.add(byte(b))
			} else {
				no.add(byte(b))
			}
		}
		if no.empty() {
			return true
		}
		if yes.empty() {
			return false
		}
		d := r.decide(fr, fmt.Sprintf("%s %s %d tab=%v", s.key, op, n, s.tab != nil))
		if d {
			r.sets[s.key] = yes
		} else {
			r.sets[s.key] = no
		}
		return d
	}
	if s.hasLo {
		switch op {
		case token.EQL:
			if n < s.lo {
				return false
			}
		case token.NEQ:
			if n < s.lo {
				return true
			}
		case token.LSS:
			if n <= s.lo {
				return false
			}
		case token.LEQ:
			if n < s.lo {
				return false
			}
		case token.GTR:
			if n < s.lo {
				return true
			}
		case token.GEQ:
			if n <= s.lo {
				return true
			}
		}
	}
	return r.decide(fr, fmt.Sprintf("%s %s %d", s.key, op, n))
}

func (r *Run) binop(fr *frame, op token.Token, t types.Type, x, y value) value {
	sx, okx := x.(Sym)
	sy, oky := y.(Sym)
	if okx || oky {
		if isCmp(op) {
			switch {
			case okx && oky:
				if sx.key == sy.key && sx.rep == sy.rep && sx.tab == sy.tab {
					return cmpInt(op, t, 0, 0)
				}
				if sx.hasLo && sy.hasLo && sx.set == nil && sy.set == nil && sx.key == sy.key {
					return cmpInt(op, t, sx.rep.(int64), sy.rep.(int64))
				}
				return r.decide(fr, fmt.Sprintf("%s %s %s", sx.key, op, sy.key))
			case okx:
				return r.compareSym(fr, op, t, sx, y.(int64))
			default:
				return r.compareSym(fr, flip(op), t, sy, x.(int64))
			}
		}
		a, b := int64(0), int64(0)
		switch {
		case okx && oky:
			a, b = sx.rep.(int64), sy.rep.(int64)
			v, ok := intOp(op, t, a, b)
			if !ok {
				r.throw(fr, "integer divide by zero")
			}
			out := Sym{rep: v, key: "(" + sx.key + op.String() + sy.key + ")"}
			if op == token.ADD && sx.hasLo && sy.hasLo {
				out.lo, out.hasLo = sx.lo+sy.lo, true
			}
			return out
		case okx:
			b = y.(int64)
			if sx.set != nil {
				return r.mapSym(t, op.String(), sx, func(n int64) int64 { v, _ := intOp(op, t, n, b); return v })
			}
			v, ok := intOp(op, t, sx.rep.(int64), b)
			if !ok {
				r.throw(fr, "integer divide by zero")
			}
			out := Sym{rep: v, key: fmt.Sprintf("(%s%s%d)", sx.key, op, b)}
			if sx.hasLo && (op == token.ADD || op == token.SUB) {
				out.hasLo = true
				out.lo, _ = intOp(op, t, sx.lo, b)
			}
			return out
		default:
			a = x.(int64)
			if sy.set != nil {
				return r.mapSym(t, op.String(), sy, func(n int64) int64 { v, _ := intOp(op, t, a, n); return v })
			}
			v, ok := intOp(op, t, a, sy.rep.(int64))
			if !ok {
				r.throw(fr, "integer divide by zero")
			}
			out := Sym{rep: v, key: fmt.Sprintf("(%d%s%s)", a, op, sy.key)}
			if op == token.ADD && sy.hasLo {
				out.lo, out.hasLo = sy.lo+a, true
			}
			return out
		}
	}
	switch op {
	case token.EQL:
		return r.equal(fr, x, y)
	case token.NEQ:
		return !r.equal(fr, x, y)
	}
	switch a := x.(type) {
	case int64:
		b := r.toInt64(y)
		if isCmp(op) {
			return cmpInt(op, t, a, b)
		}
		v, ok := intOp(op, t, a, b)
		if !ok {
			if op == token.QUO || op == token.REM {
				r.throw(fr, "integer divide by zero")
			}
			panic(unmodelled{"integer operator " + op.String()})
		}
		return v
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case string:
		b := y.(string)
		switch op {
		case token.ADD:
			return a + b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case bool:
		b := y.(bool)
		switch op {
		case token.AND:
			return a && b
		case token.OR:
			return a || b
		case token.XOR:
			return a != b
		}
	}
	panic(unmodelled{fmt.Sprintf("binary %s on %T,%T", op, x, y)})
}

func (r *Run) toInt64(v value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case Sym:
		return x.rep.(int64)
	}
	panic(unmodelled{fmt.Sprintf("integer expected, got %T", v)})
}

func (r *Run) equal(fr *frame, x, y value) bool {
	if isNilVal(x) || isNilVal(y) {
		return isNilVal(x) && isNilVal(y)
	}
	switch a := x.(type) {
	case string:
		b, ok := y.(string)
		return ok && r.eqStr(fr, a, b)
	case iface:
		b, ok := y.(iface)
		if !ok || !types.Identical(a.t, b.t) {
			return false
		}
		return r.equal(fr, a.v, b.v)
	case structure:
		b := y.(structure)
		for i := range a {
			if !r.equal(fr, a[i], b[i]) {
				return false
			}
		}
		return true
	case array:
		b := y.(array)
		for i := range a {
			if !r.equal(fr, a[i], b[i]) {
				return false
			}
		}
		return true
	case int64, float64, bool, complex128:
		if s, ok := y.(Sym); ok {
			return r.compareSym(fr, token.EQL, types.Typ[types.Int64], s, a.(int64))
		}
		return x == y
	case Sym:
		if b, ok := y.(int64); ok {
			return r.compareSym(fr, token.EQL, types.Typ[types.Int64], a, b)
		}
		if b, ok := y.(Sym); ok {
			return r.binop(fr, token.EQL, types.Typ[types.Int64], a, b).(bool)
		}
	case *value:
		b, _ := y.(*value)
		return a == b
	case *hmap:
		b, _ := y.(*hmap)
		return a == b
	case *chanv:
		b, _ := y.(*chanv)
		return a == b
	case *ssa.Function:
		return a == y
	case *closure:
		return a == y
	}
	panic(unmodelled{fmt.Sprintf("comparison of %T and %T", x, y)})
}

func (r *Run) convert(fr *frame, dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	if db, ok := ud.(*types.Basic); ok {
		if db.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case string:
				return v
			case int64:
				return string(rune(v))
			case Sym:
				return r.strFrom([]value{v}, true)
			case []value:
				et := us.(*types.Slice).Elem().Underlying().(*types.Basic)
				return r.strFrom(v, et.Kind() == types.Int32)
			}
		}
		if db.Info()&types.IsInteger != 0 {
			switch v := x.(type) {
			case int64:
				return wrap(dst, v)
			case float64:
				return wrap(dst, int64(v))
			case Sym:
				if v.set != nil {
					if v.tab == nil {
						return v
					}
					return r.mapSym(dst, "conv", v, func(n int64) int64 { return n })
				}
				return v
			}
		}
		if db.Info()&types.IsFloat != 0 {
			switch v := x.(type) {
			case int64:
				if isUnsigned(src) {
					return float64(uint64(v))
				}
				return float64(v)
			case float64:
				if db.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			}
		}
		if db.Kind() == types.UnsafePointer {
			return x
		}
	}
	if ds, ok := ud.(*types.Slice); ok {
		if s, isStr := x.(string); isStr {
			if ds.Elem().Underlying().(*types.Basic).Kind() == types.Int32 {
				return r.runesOf(s)
			}
			return r.bytesOf(s)
		}
		return x
	}
	if _, ok := ud.(*types.Pointer); ok {
		return x
	}
	panic(unmodelled{fmt.Sprintf("conversion %s -> %s", src, dst)})
}

// strFrom rebuilds a string; a transformed character of an atom that the
// representation cannot show is not modelled.
func (r *Run) strFrom(vs []value, runes bool) string {
	for _, e := range vs {
		if s, ok := e.(Sym); ok && s.tab != nil {
			same := true
			cs := *s.set
			if k, ok := r.sets[s.key]; ok {
				cs = k
			}
			for b := 0; b < 128; b++ {
				if cs.has(byte(b)) && s.tab[b] != int64(b) {
					same = false
				}
			}
			if rep := s.rep.(int64); !same && (rep >= 128 || isTok(rune(rep)) || !isLetter(byte(rep))) {
				panic(unmodelled{"character of an atom transformed one by one"})
			}
		}
	}
	return strOf(vs, runes)
}

func (r *Run) builtin(fr *frame, b *ssa.Builtin, args []value) value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		x, _ := args[0].([]value)
		var y []value
		switch v := args[1].(type) {
		case string:
			y = r.bytesOf(v)
		case []value:
			y = v
		}
		if len(y) == 0 {
			return x
		}
		n := len(x) + len(y)
		var out []value
		if n <= cap(x) {
			out = x[:n]
		} else {
			c := 2 * cap(x)
			if c < n {
				c = n
			}
			out = make([]value, n, c)
			copy(out, x)
			// new tail cells beyond n are nil until appended
		}
		tmp := make([]value, len(y))
		for i := range y {
			tmp[i] = cp(y[i])
		}
		copy(out[len(x):], tmp)
		return out
	case "copy":
		dst := args[0].([]value)
		var src []value
		if s, ok := args[1].(string); ok {
			src = r.bytesOf(s)
		} else {
			src = args[1].([]value)
		}
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = cp(src[i])
		}
		copy(dst, tmp)
		return int64(n)
	case "len":
		switch v := args[0].(type) {
		case string:
			return r.lenOf(v)
		case []value:
			return int64(len(v))
		case array:
			return int64(len(v))
		case *value:
			return int64(len((*v).(array)))
		case *hmap:
			if v == nil {
				return int64(0)
			}
			return int64(v.n)
		case *chanv:
			return int64(len(v.q))
		}
	case "cap":
		switch v := args[0].(type) {
		case []value:
			return int64(cap(v))
		case array:
			return int64(len(v))
		case *value:
			return int64(len((*v).(array)))
		}
		return int64(0)
	case "delete":
		m, _ := args[0].(*hmap)
		m.del(args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *hmap:
			if v != nil {
				v.ents, v.idx, v.n = nil, map[string]int{}, 0
			}
		}
		return nil
	case "panic":
		panic(targetPanic{v: args[0], pos: r.where(fr)})
	case "recover":
		return r.doRecover(fr)
	case "print", "println":
		r.effect(fr, "stdout", "")
		return nil
	case "close":
		return nil
	case "min", "max":
		v := args[0]
		for _, w := range args[1:] {
			switch a := v.(type) {
			case int64:
				if wb := r.toInt64(w); (wb < a) == (b.Name() == "min") {
					v = wb
				}
			case float64:
				if b.Name() == "min" {
					v = math.Min(a, w.(float64))
				} else {
					v = math.Max(a, w.(float64))
				}
			default:
				panic(unmodelled{"min/max"})
			}
		}
		return v
	case "ssa:wrapnilchk":
		if p, _ := args[0].(*value); p == nil {
			r.throw(fr, "value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return (*value)(nil)
	case "String": // unsafe.String
		panic(unmodelled{"unsafe.String"})
	}
	panic(unmodelled{"builtin " + b.Name()})
}

// lenOf: the length of text with atoms is only bounded.
func (r *Run) lenOf(s string) value {
	if !hasAtom(s) {
		return int64(len(s))
	}
	lo := int64(0)
	for _, sg := range r.Atoms.segs(s) {
		if sg.atom != nil || hasAtom(sg.text) {
			lo++
		} else {
			lo += int64(len(sg.text))
		}
	}
	return Sym{rep: int64(len(s)), key: "len:" + s, lo: lo, hasLo: true}
}

func (r *Run) doRecover(fr *frame) value {
	// fr is the deferred function's frame; its caller is panicking
	c := fr.caller
	if c != nil && c.panicking {
		c.panicking = false
		p := c.panicv.(targetPanic)
		c.panicv = nil
		if it, ok := p.v.(iface); ok {
			return it
		}
		return iface{t: types.Typ[types.String], v: fmt.Sprint(p.v)}
	}
	return iface{}
}

// truncated token after slicing: characters cut from an atom's middle.
func validUTF8(s string) bool { return utf8.ValidString(s) }

var _ = strings.Contains
