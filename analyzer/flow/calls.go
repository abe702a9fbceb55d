package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// generated methods are analysed on their own; calls of them are events.
var generated = map[string]bool{"FillFromJSON": true, "validate": true, "MarshalTo": true, "MarshalJSON": true, "UnmarshalJSON": true, "IsZero": true, "Reset": true}

// helpers of the utilities file, used through their contracts.
var helpers = map[string]bool{"valueIsNotNull": true, "newParsingError": true, "parseDateTime": true, "parseDate": true, "writeTime": true, "unpackObject": true}

func (e *Exec) dispatch(f *frame, c *ssa.CallCommon, fnT *Term, args []*Term, typ types.Type) *Term {
	if c.IsInvoke() {
		// interface method: an event with unknown result
		return e.opaque(f, "invoke."+c.Method.Name(), fnT, append([]*Term{fnT}, args...), typ)
	}
	switch fnT.Op {
	case OClosure:
		return e.inline(fnT.X.(*ssa.Function), args, fnT.A, typ)
	case OFunc:
		switch fn := fnT.X.(type) {
		case *ssa.Builtin:
			return e.builtin(f, fn.Name(), args, typ, c)
		case *ssa.Function:
			return e.static(f, fn, args, typ, c)
		}
	}
	e.needNonNil(f, fnT, "call of nil function")
	return e.opaque(f, "dynamic", fnT, args, typ)
}

func (e *Exec) inline(fn *ssa.Function, args, free []*Term, typ types.Type) *Term {
	ret := e.call(fn, args, free)
	switch len(ret) {
	case 0:
		return e.mk(OTuple, types.NewTuple(), 0, "", nil)
	case 1:
		return ret[0]
	}
	return e.mk(OTuple, typ, 0, "", nil, ret...)
}

// expand adds the elements of a variadic slice argument.
func (e *Exec) expand(c *ssa.CallCommon, args []*Term) []*Term {
	sig := c.Signature()
	if !sig.Variadic() || len(args) == 0 {
		return args
	}
	last := args[len(args)-1]
	out := append([]*Term{}, args[:len(args)-1]...)
	if last.Op == OConst {
		return out
	}
	if last.Op != OSlice || last.A[2].Op != OConst {
		return append(out, last)
	}
	n, _ := constant.Int64Val(last.A[2].C)
	for i := int64(0); i < n; i++ {
		v := e.load(e.elemAddr(last, e.intc(i), types.NewPointer(elemOf(last.Typ))))
		if v.Op == OMkIface {
			v = v.A[0]
		}
		out = append(out, v)
	}
	return out
}

func (e *Exec) opaque(f *frame, name string, recv *Term, args []*Term, typ types.Type) *Term {
	e.nalloc++
	r := e.mk(OCall, typ, e.nalloc, name, nil)
	r.A = args
	e.event(&Event{Kind: "call", Name: name, Recv: recv, Args: args, Res: r, Pos: f.pos, Fn: f.fn})
	return r
}

func (e *Exec) pure(name string, typ types.Type, args ...*Term) *Term {
	return e.mk(OPure, typ, 0, name, nil, args...)
}

// CallName is a short name of a function.
func CallName(fn *ssa.Function) string { return shortPkg(fn.String()) }

func (e *Exec) static(f *frame, fn *ssa.Function, args []*Term, typ types.Type, c *ssa.CallCommon) *Term {
	name := fn.Name()
	sig := fn.Signature
	recv := sig.Recv()
	inUnit := fn.Pkg != nil && e.Eng.Unit.Mod[fn.Pkg.Pkg.Path()] != nil
	if fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		inUnit = e.Eng.Unit.Mod[fn.Object().Pkg().Path()] != nil
	}
	full := shortPkg(fn.String())
	if recv != nil && generated[name] {
		lib := !inUnit
		if !lib {
			return e.genCall(f, fn, name, args, typ)
		}
	}
	if inUnit && recv == nil && helpers[name] {
		return e.helper(f, name, args, typ)
	}
	if recv != nil && fn.Synthetic != "" && len(fn.Blocks) > 0 {
		// promoted methods and wrappers
		return e.inline(fn, args, nil, typ)
	}
	if inUnit && len(fn.Blocks) > 0 {
		return e.inline(fn, args, nil, typ)
	}
	if inUnit && recv != nil {
		return e.genCall(f, fn, name, args, typ)
	}
	switch full {
	case "(*fastjson.Value).Get":
		ks := e.expand(c, args)
		t := e.pure("json.Get", typ, ks...)
		e.event(&Event{Kind: "get", Name: "Get", Recv: ks[0], Args: ks, Res: t, Pos: f.pos, Fn: f.fn})
		return t
	case "(*fastjson.Object).Get":
		e.needNonNil(f, args[0], "nil dereference")
		t := e.pure("json.Get", typ, args...)
		e.event(&Event{Kind: "get", Name: "Get", Recv: args[0], Args: args, Res: t, Pos: f.pos, Fn: f.fn})
		return t
	case "(*fastjson.Value).Exists":
		ks := e.expand(c, args)
		return e.not(e.mk(OBin, types.Typ[types.Bool], 0, "==", nil, e.pure("json.Get", args[0].Typ, ks...), e.konst(nil, args[0].Typ)))
	case "(*fastjson.Value).Type":
		e.needNonNil(f, args[0], "method of a nil JSON value")
		return e.pure("json.Type", typ, args...)
	case "(*fastjson.Value).Int", "(*fastjson.Value).Int64", "(*fastjson.Value).Uint", "(*fastjson.Value).Uint64", "(*fastjson.Value).Float64",
		"(*fastjson.Value).StringBytes", "(*fastjson.Value).Bool", "(*fastjson.Value).Array", "(*fastjson.Value).Object":
		e.needNonNil(f, args[0], "method of a nil JSON value")
		t := e.mk(OPure, typ, 0, "json."+name, nil, args...)
		ev := &Event{Kind: "call", Name: "json." + name, Recv: args[0], Args: args, Res: t, Pos: f.pos, Fn: f.fn}
		e.event(ev)
		e.mayFail(t)
		return t
	case "(*fastjson.Object).Len":
		e.needNonNil(f, args[0], "nil dereference")
		t := e.pure("json.Len", typ, args...)
		if e.leq(e.intc(0), t, false) != 1 {
			e.addLeq(e.intc(0), t, false)
		}
		return t
	case "(*fastjson.Object).Visit":
		e.needNonNil(f, args[0], "nil dereference")
		e.visit(f, args[0], args[1])
		return e.mk(OTuple, types.NewTuple(), 0, "", nil)
	case "fmt.Errorf", "errors.New", "pkg/errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		t := e.pure(full, typ, e.expand(c, args)...)
		e.event(&Event{Kind: "call", Name: full, Args: e.expand(c, args), Res: t, Pos: f.pos, Fn: f.fn})
		return t
	case "fmt.Sprintf", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.Quote", "bytes.Equal", "strings.EqualFold", "bytes.EqualFold":
		as := e.expand(c, args)
		if full == "bytes.Equal" {
			for i, a := range as {
				if b, ok := e.ConstBytes(a); ok {
					as[i] = e.konst(constant.MakeString(b), types.Typ[types.String])
				}
			}
			// equality as a comparison with a constant
			x, y := as[0], as[1]
			if x.Op == OConst {
				x, y = y, x
			}
			t := e.mk(OBin, types.Typ[types.Bool], 0, "==", nil, x, y)
			if x.Op == OConst && y.Op == OConst && x.C != nil && y.C != nil {
				return e.boolc(constant.StringVal(x.C) == constant.StringVal(y.C))
			}
			return t
		}
		return e.pure(full, typ, as...)
	}
	if recv != nil && len(args) > 0 {
		if p, ok := recv.Type().Underlying().(*types.Pointer); ok {
			_ = p
			e.needNonNil(f, args[0], "method of a nil pointer")
		}
	}
	ex := e.expand(c, args)
	switch {
	case strings.HasPrefix(full, "(*jwriter.Writer)."):
		e.nalloc++
		r := e.mk(OCall, typ, e.nalloc, full, nil)
		r.A = ex
		e.event(&Event{Kind: "write", Name: name, Recv: args[0], Args: ex, Res: r, Pos: f.pos, Fn: f.fn})
		return r
	case strings.HasPrefix(full, "(*buffer.Buffer)."):
		e.nalloc++
		r := e.mk(OCall, typ, e.nalloc, full, nil)
		r.A = ex
		// a buffer of a writer: the write goes to that writer
		w := args[0]
		if w.Op == OFAddr {
			w = w.A[0]
		}
		e.event(&Event{Kind: "write", Name: "Buffer." + name, Recv: w, Args: ex, Res: r, Pos: f.pos, Fn: f.fn})
		return r
	}
	if purePkg(fn) {
		var as []*Term
		for _, a := range ex {
			as = append(as, e.snapshot(a))
		}
		t := e.mk(OPure, typ, 0, full, nil, as...)
		e.event(&Event{Kind: "call", Name: full, Args: ex, Res: t, Pos: f.pos, Fn: f.fn})
		e.mayFail(t)
		if full == "(*encoding/base64.Encoding).Decode" || full == "(*encoding/base64.Encoding).Encode" {
			// both run off the end of a destination that is too short
			e.Checked++
			if e.leq(e.pure(full+"dLen", types.Typ[types.Int], ex[0], e.length(ex[2])), e.length(ex[1]), false) != 1 {
				e.crashIf(f, false, "base64 text longer than its destination", ex[1])
			}
			e.fillRegion(ex[1], t)
			if full == "(*encoding/base64.Encoding).Decode" {
				n := e.extract(t, 0)
				e.addLeq(e.intc(0), n, false)
				e.addLeq(n, e.length(ex[1]), false)
			}
		}
		if full == "(*encoding/base64.Encoding).DecodedLen" || full == "(*encoding/base64.Encoding).EncodedLen" {
			e.addLeq(e.intc(0), t, false)
		}
		return t
	}
	return e.opaque(f, full, nil, ex, typ)
}

// snapshot replaces a byte region by its content where it was filled as a whole.
func (e *Exec) snapshot(a *Term) *Term { return a }

// fillRegion says that a slice's elements now come from t.
func (e *Exec) fillRegion(s, t *Term) {
	r := e.region(s)
	e.clobber(r)
	e.put(r, t)
	delete(e.zeroed, r)
	e.event(&Event{Kind: "fill", Addr: r, Val: t})
}

// Content is what a region was filled with.
func (e *Exec) Content(s *Term) *Term { return e.mem[e.region(s)] }

func purePkg(fn *ssa.Function) bool {
	p := fn.Pkg
	path := ""
	if p != nil {
		path = p.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	switch path {
	case "time", "math", "strconv", "encoding/base64", "github.com/google/uuid", "strings", "bytes", "fmt", "unicode/utf8", "errors", "github.com/pkg/errors":
		return true
	}
	return false
}

// mayFail notes the error result of a call (decided lazily by branches).
func (e *Exec) mayFail(t *Term) {}

// ErrOf is the error result of a call term, if it has one.
func (e *Exec) ErrOf(t *Term) *Term {
	switch tt := t.Typ.(type) {
	case *types.Tuple:
		if n := tt.Len(); n > 0 && isErr(tt.At(n-1).Type()) {
			return e.extract(t, n-1)
		}
	default:
		if t.Typ != nil && isErr(t.Typ) {
			return t
		}
	}
	return nil
}

// genCall is a call of a method with a known meaning.
func (e *Exec) genCall(f *frame, fn *ssa.Function, name string, args []*Term, typ types.Type) *Term {
	_, isPtr := fn.Signature.Recv().Type().Underlying().(*types.Pointer)
	recv := args[0]
	if isPtr {
		switch name {
		case "MarshalTo", "MarshalJSON":
			// nil is allowed: encoders examine their receiver
		default:
			e.needNonNil(f, recv, "method of a nil pointer")
		}
		recv = recv.stripPtr()
	}
	if name == "FillFromJSON" || name == "validate" {
		for _, a := range args[1:] {
			if _, ok := a.Typ.Underlying().(*types.Pointer); ok {
				e.needNonNil(f, a, name+" of a nil JSON value")
			}
		}
	}
	e.nalloc++
	if name == "IsZero" {
		v := recv
		if isPtr {
			v = e.load(recv)
		}
		t := e.pure("IsZero", typ, v.Strip())
		e.event(&Event{Kind: "call", Name: name, Recv: recv, Args: args, Res: t, Pos: f.pos, Fn: f.fn})
		return t
	}
	r := e.mk(OCall, typ, e.nalloc, name, nil)
	r.A = args
	if isPtr {
		switch name {
		case "MarshalTo", "MarshalJSON":
			// remember what the pointer referred to
			if e.NilState(recv) != 1 {
				r.A = append(append([]*Term{}, args...), e.load(recv))
			}
		}
	}
	ev := &Event{Kind: "call", Name: name, Recv: recv, Args: r.A, Res: r, Pos: f.pos, Fn: f.fn}
	e.event(ev)
	if isPtr {
		el := elemOf(recv.Typ)
		switch name {
		case "FillFromJSON", "UnmarshalJSON", "UnmarshalText", "Parse":
			old := e.load(recv)
			ev.Val = old // what is filled over
			v := e.mk(OPure, el, e.nalloc, "filled", nil, old, args[1])
			if e.IsZeroVal(old) {
				v = e.mk(OPure, el, e.nalloc, "filled", nil, e.zero(el), args[1])
			}
			e.store(recv, v)
		case "Reset":
			e.store(recv, e.mk(OPure, el, 0, "reset", nil, e.load(recv)))
		}
	}
	return r
}

func (e *Exec) helper(f *frame, name string, args []*Term, typ types.Type) *Term {
	t := e.mk(OPure, typ, 0, name, nil, args...)
	switch name {
	case "valueIsNotNull":
		return t
	case "newParsingError":
		e.event(&Event{Kind: "call", Name: name, Args: args, Res: t, Pos: f.pos, Fn: f.fn})
		return t
	case "writeTime":
		e.nalloc++
		w := args[0]
		if w.Op == OMkIface {
			w = w.A[0]
		}
		r := e.mk(OCall, typ, e.nalloc, name, nil)
		r.A = args
		e.event(&Event{Kind: "write", Name: name, Recv: w, Args: args, Res: r, Pos: f.pos, Fn: f.fn})
		return r
	}
	e.event(&Event{Kind: "call", Name: name, Args: args, Res: t, Pos: f.pos, Fn: f.fn})
	return t
}

// visit applies the callback of Object.Visit to zero, one and two members.
func (e *Exec) visit(f *frame, obj, cb *Term) {
	if cb.Op != OClosure && cb.Op != OFunc {
		e.fail("callback of Visit")
	}
	b := e.Eng.Bound
	if e.Eng.Inner > 0 && len(e.loops) > 0 {
		b = e.Eng.Inner
	}
	n := e.choose(b + 1)
	fn := cb.X.(*ssa.Function)
	for i := 0; i < n; i++ {
		k := e.mk(OPure, fn.Params[0].Type(), i, "json.key", nil, obj)
		v := e.mk(OPure, fn.Params[1].Type(), i, "json.member", nil, obj)
		e.setNil(v, false)
		e.event(&Event{Kind: "iter", Name: "Visit", Addr: obj, Args: []*Term{k, v}, Pos: f.pos, Fn: f.fn})
		e.loops = append(e.loops, i)
		e.call(fn, []*Term{k, v}, cb.A)
		e.loops = e.loops[:len(e.loops)-1]
	}
	l := e.pure("json.Len", types.Typ[types.Int], obj)
	e.event(&Event{Kind: "iter-end", Name: "Visit", Addr: obj, Args: []*Term{e.intc(int64(n)), l}, Pos: f.pos, Fn: f.fn})
}

// ConstBytes is the content of a byte slice of constants.
func (e *Exec) ConstBytes(t *Term) (string, bool) {
	s := t.Strip()
	if s.Op == OConv && s.A[0].Op == OConst && s.A[0].C != nil && s.A[0].C.Kind() == constant.String {
		return constant.StringVal(s.A[0].C), true
	}
	if s.Op == OConst && s.C != nil && s.C.Kind() == constant.String {
		return constant.StringVal(s.C), true
	}
	if s.Op != OSlice || s.A[2].Op != OConst || s.A[1].Op != OConst {
		return "", false
	}
	n, _ := constant.Int64Val(s.A[2].C)
	var b []byte
	for i := int64(0); i < n; i++ {
		v := e.load(e.elemAddr(s, e.intc(i), types.NewPointer(types.Typ[types.Byte])))
		if v.Op != OConst {
			return "", false
		}
		x, _ := constant.Int64Val(v.C)
		b = append(b, byte(x))
	}
	return string(b), true
}

func (e *Exec) builtin(f *frame, name string, args []*Term, typ types.Type, c *ssa.CallCommon) *Term {
	switch name {
	case "len":
		return e.conv(e.length(args[0]), types.Typ[types.Int])
	case "cap":
		return e.conv(e.capacity(args[0]), types.Typ[types.Int])
	case "append":
		a, b := args[0], args[1]
		la, lb := e.length(a), e.length(b)
		if lb.Op == OConst {
			if n, _ := constant.Int64Val(lb.C); n == 0 {
				return a
			}
		}
		e.nalloc++
		r := e.mk(ORegNew, typ, e.nalloc, "append", nil)
		et := types.NewPointer(elemOf(typ))
		if la.Op == OConst && lb.Op == OConst {
			na, _ := constant.Int64Val(la.C)
			nb, _ := constant.Int64Val(lb.C)
			if na+nb <= 64 {
				for i := int64(0); i < na; i++ {
					e.store(e.mk(OIAddr, et, 0, "", nil, r, e.intc(i)), e.load(e.elemAddr(a, e.intc(i), et)))
				}
				for i := int64(0); i < nb; i++ {
					var v *Term
					if bb, ok := b.Typ.Underlying().(*types.Basic); ok && bb.Info()&types.IsString != 0 {
						v = e.index(b, e.intc(i), types.Typ[types.Byte])
					} else {
						v = e.load(e.elemAddr(b, e.intc(i), et))
					}
					e.store(e.mk(OIAddr, et, 0, "", nil, r, e.intc(na+i)), v)
				}
				n := e.intc(na + nb)
				cp := e.mk(OCap, types.Typ[types.Int], e.nalloc, "append", nil)
				e.addLeq(n, cp, false)
				return e.mk(OSlice, typ, 0, "", nil, r, e.intc(0), n, cp)
			}
		}
		// copies of unknown length
		e.put(r, e.mk(OCopy, typ, 0, "append", nil, b, a))
		n := e.binop(f, token.ADD, types.Typ[types.Int], la, lb)
		cp := e.mk(OCap, types.Typ[types.Int], e.nalloc, "append", nil)
		e.addLeq(n, cp, false)
		return e.mk(OSlice, typ, 0, "", nil, r, e.intc(0), n, cp)
	case "copy":
		r := e.region(args[0])
		e.event(&Event{Kind: "fill", Addr: r, Val: e.mk(OCopy, args[1].Typ, 0, "copy", nil, args[1]), Pos: f.pos, Fn: f.fn})
		e.clobber(r)
		e.put(r, e.mk(OCopy, args[1].Typ, 0, "copy", nil, args[1]))
		e.nalloc++
		n := e.mk(OPure, types.Typ[types.Int], e.nalloc, "copied", nil, args...)
		e.addLeq(e.intc(0), n, false)
		e.addLeq(n, e.length(args[0]), false)
		return n
	case "delete":
		e.event(&Event{Kind: "mapdel", Addr: args[0], Args: args[1:], Pos: f.pos, Fn: f.fn})
		return e.mk(OTuple, types.NewTuple(), 0, "", nil)
	case "clear":
		e.event(&Event{Kind: "clear", Addr: args[0], Pos: f.pos, Fn: f.fn})
		return e.mk(OTuple, types.NewTuple(), 0, "", nil)
	case "panic":
		e.crashIf(f, true, "panic", args[0])
	case "print", "println":
		return e.mk(OTuple, types.NewTuple(), 0, "", nil)
	case "ssa:wrapnilchk":
		e.needNonNil(f, args[0], "nil dereference")
		return args[0]
	case "String", "SliceData", "StringData", "Slice":
		return e.mk(OReinterp, typ, 0, name, nil, args...)
	}
	e.fail("builtin %s", name)
	return nil
}

func (e *Exec) String() string {
	var b strings.Builder
	for _, ev := range e.Events {
		fmt.Fprintf(&b, "  %s %s recv=%v args=%v addr=%v val=%v\n", ev.Kind, ev.Name, ev.Recv, ev.Args, ev.Addr, ev.Val)
	}
	for _, f := range e.Facts {
		fmt.Fprintf(&b, "  fact %v = %v\n", f.T, f.V)
	}
	return b.String()
}
