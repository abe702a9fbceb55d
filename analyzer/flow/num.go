package flow

import (
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"math/bits"
)

// Num is an exact number; the zero Num means "unbounded".
type Num struct {
	hi int64
	lo uint64
	r  *big.Rat
	ok bool
}

func numI(i int64) Num {
	n := Num{lo: uint64(i), ok: true}
	if i < 0 {
		n.hi = -1
	}
	return n
}

func numR(r *big.Rat) Num {
	if r.IsInt() && r.Num().BitLen() < 120 {
		var b big.Int
		b.Abs(r.Num())
		lo := new(big.Int).And(&b, new(big.Int).SetUint64(math.MaxUint64)).Uint64()
		hi := int64(new(big.Int).Rsh(&b, 64).Uint64())
		n := Num{hi: hi, lo: lo, ok: true}
		if r.Sign() < 0 {
			n = n.neg()
		}
		return n
	}
	return Num{r: r, ok: true}
}

// OK reports whether the number is known.
func (n Num) OK() bool { return n.ok }

func (n Num) neg() Num {
	if !n.ok {
		return n
	}
	if n.r != nil {
		return Num{r: new(big.Rat).Neg(n.r), ok: true}
	}
	lo, b := bits.Sub64(0, n.lo, 0)
	hi, _ := bits.Sub64(0, uint64(n.hi), b)
	return Num{hi: int64(hi), lo: lo, ok: true}
}

func (n Num) rat() *big.Rat {
	if n.r != nil {
		return n.r
	}
	i := new(big.Int).Lsh(big.NewInt(n.hi), 64)
	i.Add(i, new(big.Int).SetUint64(n.lo))
	return new(big.Rat).SetInt(i)
}

func (n Num) add(m Num) Num {
	if !n.ok || !m.ok {
		return Num{}
	}
	if n.r == nil && m.r == nil {
		lo, c := bits.Add64(n.lo, m.lo, 0)
		hi, _ := bits.Add64(uint64(n.hi), uint64(m.hi), c)
		return Num{hi: int64(hi), lo: lo, ok: true}
	}
	return numR(new(big.Rat).Add(n.rat(), m.rat()))
}

func (n Num) sub(m Num) Num { return n.add(m.neg()) }

// Cmp compares two known numbers.
func (n Num) Cmp(m Num) int {
	if n.r == nil && m.r == nil {
		switch {
		case n.hi < m.hi:
			return -1
		case n.hi > m.hi:
			return 1
		case n.lo < m.lo:
			return -1
		case n.lo > m.lo:
			return 1
		}
		return 0
	}
	return n.rat().Cmp(m.rat())
}

// Sign of a known number.
func (n Num) Sign() int { return n.Cmp(zero) }

func (n Num) isInt() bool { return n.r == nil || n.r.IsInt() }

// String renders the number.
func (n Num) String() string {
	if !n.ok {
		return "∞"
	}
	r := n.rat()
	if r.IsInt() && r.Num().BitLen() < 70 {
		return r.Num().String()
	}
	f, _ := r.Float64()
	return big.NewFloat(f).Text('g', 10)
}

var (
	zero = numI(0)
	one  = numI(1)
	// eps separates strict from non-strict bounds of floats
	eps = Num{r: new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(60), nil)), ok: true}
)

func pow2(n uint) Num { return numR(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), n))) }

var ranges = func() (m [32][2]Num) {
	bits := map[types.BasicKind]int{types.Int8: -8, types.Int16: -16, types.Int32: -32, types.Int64: -64, types.Int: -64,
		types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64, types.UntypedInt: -64, types.UntypedRune: -32}
	for k, n := range bits {
		if n < 0 {
			m[k] = [2]Num{pow2(uint(-n - 1)).neg(), pow2(uint(-n - 1)).sub(one)}
		} else {
			m[k] = [2]Num{zero, pow2(uint(n)).sub(one)}
		}
	}
	f := numR(new(big.Rat).SetFloat64(math.MaxFloat32))
	m[types.Float32] = [2]Num{f.neg(), f}
	d := numR(new(big.Rat).SetFloat64(math.MaxFloat64))
	m[types.Float64] = [2]Num{d.neg(), d}
	return
}()

// TypeRange is the range of values of a numeric type.
func TypeRange(t types.Type) (lo, hi Num) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || int(b.Kind()) >= len(ranges) {
		return
	}
	return ranges[b.Kind()][0], ranges[b.Kind()][1]
}

func numOf(c constant.Value) Num {
	if i, ok := constant.Int64Val(constant.ToInt(c)); ok && c.Kind() == constant.Int {
		return numI(i)
	}
	if r := ratOf(c); r != nil {
		return numR(r)
	}
	return Num{}
}
