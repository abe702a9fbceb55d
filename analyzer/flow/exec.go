package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vjcheck/emit"
)

// Engine analyses the functions of one unit.
type Engine struct {
	Unit     *emit.Unit
	Bound    int // iterations of a loop over data of unknown length
	Inner    int // the same for nested loops (0: Bound)
	MaxPaths int
	UtilFile string
	bodies   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

// Event is an observable step of a path.
type Event struct {
	Kind string // call store mapset mapdel crash iter
	Name string
	Recv *Term
	Args []*Term // with the receiver, variadic arguments expanded at the end
	Res  *Term
	Addr *Term
	Val  *Term
	Sub  bool // definite (crash)
	Pos  token.Pos
	Fn   *ssa.Function
	Iter []int // enclosing iterations (loop ids and numbers)
}

// Fact is a decided condition.
type Fact struct {
	T  *Term
	V  bool
	At int // event index
}

// Path is one complete path through a function.
type Path struct {
	*Exec
	Ret   []*Term
	Crash *Event // definite crash
	Abort string
}

// OK reports whether the function's error result (if any) is nil.
func (p *Path) OK() bool {
	if p.Crash != nil {
		return false
	}
	if n := len(p.Ret); n > 0 && isErr(p.Ret[n-1].Typ) {
		return p.NilState(p.Ret[n-1]) == 1
	}
	return true
}

// Err is the returned error term.
func (p *Path) Err() *Term {
	if n := len(p.Ret); n > 0 && isErr(p.Ret[n-1].Typ) {
		return p.Ret[n-1]
	}
	return nil
}

// Exec is the state of one path.
type Exec struct {
	Eng    *Engine
	Fn     *ssa.Function
	Params []*Term
	Events []*Event
	Facts  []Fact
	// Checked counts the operations examined for crashes.
	Checked int

	terms  map[tkey]*Term
	nterm  int32
	nalloc int
	mem    map[*Term]*Term
	under  map[*Term]int
	nilf   map[*Term]bool
	nilAt  map[*Term]int
	boolf  map[*Term]bool
	boolAt map[*Term]int
	eqc    map[*Term]*Term
	cons   []con
	zeroed map[*Term]bool
	lens   map[*Term]*Term
	fjType types.Type

	prefix []int
	taken  []int
	width  []int
	depth  int
	loops  []int
	steps  int
}

type (
	cut   struct{}
	crash struct{ ev *Event }
	abort struct{ msg string }
)

func (e *Engine) pkg(path string) *types.Package {
	if path == e.Unit.Main.Types.Path() {
		return e.Unit.Main.Types
	}
	for _, p := range e.Unit.Main.Types.Imports() {
		if p.Path() == path {
			return p
		}
	}
	return nil
}

// Run enumerates the paths of fn. prep may constrain the initial state.
func (e *Engine) Run(fn *ssa.Function, prep func(*Exec)) []*Path {
	if e.Bound == 0 {
		e.Bound = 2
	}
	if e.MaxPaths == 0 {
		e.MaxPaths = 60000
	}
	var out []*Path
	var prefix []int
	for n := 0; ; n++ {
		if n >= e.MaxPaths {
			out = append(out, &Path{Abort: fmt.Sprintf("more than %d paths in %s", e.MaxPaths, fn)})
			return out
		}
		x := e.newExec(fn, prefix)
		p := x.run(prep)
		if p != nil {
			out = append(out, p)
			if p.Abort != "" {
				return out
			}
		}
		// next decision vector
		i := len(x.taken) - 1
		for i >= 0 && x.taken[i]+1 >= x.width[i] {
			i--
		}
		if i < 0 {
			return out
		}
		prefix = append(append([]int{}, x.taken[:i]...), x.taken[i]+1)
	}
}

func (e *Engine) newExec(fn *ssa.Function, prefix []int) *Exec {
	x := &Exec{Eng: e, Fn: fn, terms: map[tkey]*Term{}, mem: map[*Term]*Term{}, under: map[*Term]int{}, nilf: map[*Term]bool{}, nilAt: map[*Term]int{}, boolf: map[*Term]bool{}, boolAt: map[*Term]int{},
		eqc: map[*Term]*Term{}, zeroed: map[*Term]bool{}, lens: map[*Term]*Term{}, prefix: prefix}
	for i, p := range fn.Params {
		name := p.Name()
		if i == 0 && fn.Signature.Recv() != nil {
			name = "s"
		}
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			x.Params = append(x.Params, x.mk(OParam, p.Type(), i, name, nil))
			continue
		}
		a := x.mk(OParam, types.NewPointer(p.Type()), i, "&"+name, nil)
		x.Params = append(x.Params, x.load(a))
	}
	return x
}

// Recv is the address of the receiver's value.
func (e *Exec) Recv() *Term {
	p := e.Params[0]
	if p.Op == OInit {
		return p.A[0]
	}
	return p
}

func (e *Exec) run(prep func(*Exec)) (p *Path) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case cut:
				p = nil
			case crash:
				p = &Path{Exec: e, Crash: r.ev}
			case abort:
				p = &Path{Exec: e, Abort: r.msg}
			default:
				panic(r)
			}
		}
	}()
	if prep != nil {
		prep(e)
	}
	ret := e.call(e.Fn, e.Params, nil)
	for _, r := range ret {
		if isErr(r.Typ) {
			if e.NilState(r) == 0 {
				if e.choose(2) == 0 {
					e.setNil(r, true)
				} else {
					e.setNil(r, false)
				}
			}
		}
		if b, ok := r.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && e.truth(r) == 0 {
			e.assume(r, e.choose(2) == 0)
		}
	}
	return &Path{Exec: e, Ret: ret}
}

func isErr(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (e *Exec) choose(n int) int {
	i := len(e.taken)
	v := 0
	if i < len(e.prefix) {
		v = e.prefix[i]
	}
	e.taken = append(e.taken, v)
	e.width = append(e.width, n)
	return v
}

func (e *Exec) event(ev *Event) *Event {
	ev.Iter = append([]int{}, e.loops...)
	e.Events = append(e.Events, ev)
	return ev
}

type frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]*Term
	free   []*Term
	defers []func()
	count  map[*ssa.BasicBlock]int
	loop   map[*ssa.BasicBlock]int // iterations of the loop headed here
	iters  map[*ssa.Range]*iter
	pos    token.Pos
}

type iter struct {
	m *Term
	n int
}

func (e *Exec) fail(format string, a ...any) { panic(abort{fmt.Sprintf(format, a...)}) }

func (e *Exec) crashIf(f *frame, definite bool, what string, t *Term) {
	ev := e.event(&Event{Kind: "crash", Name: what, Val: t, Sub: definite, Pos: f.pos, Fn: f.fn})
	if definite {
		panic(crash{ev})
	}
}

// needNonNil checks a dereference.
func (e *Exec) needNonNil(f *frame, t *Term, what string) {
	e.Checked++
	switch e.NilState(t) {
	case 1:
		e.crashIf(f, true, what, t)
	case 0:
		e.crashIf(f, false, what, t)
		e.setNil(t, false)
	}
}

func (e *Exec) call(fn *ssa.Function, args, free []*Term) []*Term {
	if e.depth++; e.depth > 12 {
		e.fail("call depth in %s", fn)
	}
	defer func() { e.depth-- }()
	f := &frame{fn: fn, regs: map[ssa.Value]*Term{}, free: free, count: map[*ssa.BasicBlock]int{}, loop: map[*ssa.BasicBlock]int{}, iters: map[*ssa.Range]*iter{}}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.regs[v] = free[i]
	}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	nloops := len(e.loops)
	defer func() { e.loops = e.loops[:nloops] }()
	for {
		next, ret, done := e.block(f, b, prev)
		if done {
			return ret
		}
		prev, b = b, next
		if f.count[b]++; f.count[b] > 400 {
			e.fail("loop in %s", fn)
		}
	}
}

func (e *Exec) get(f *frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return e.zero(v.Type())
		}
		return e.konst(v.Value, v.Type())
	case *ssa.Global:
		n := v.Name()
		if v.Pkg != nil && v.Pkg.Pkg != e.Eng.Unit.Main.Types {
			n = v.Pkg.Pkg.Path() + "." + n
		}
		return e.mk(OGlobal, v.Type(), 0, n, v)
	case *ssa.Function:
		return e.mk(OFunc, v.Type(), 0, v.String(), v)
	case *ssa.Builtin:
		return e.mk(OFunc, v.Type(), 0, v.Name(), v)
	}
	t := f.regs[v]
	if t == nil {
		e.fail("no value for %s in %s", v.Name(), f.fn)
	}
	return t
}

// loopBody is the natural loop headed by b (empty: b heads no loop).
func (e *Engine) loopBody(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if m, ok := e.bodies[b]; ok {
		return m
	}
	var m map[*ssa.BasicBlock]bool
	var add func(x *ssa.BasicBlock)
	add = func(x *ssa.BasicBlock) {
		if !m[x] {
			m[x] = true
			for _, p := range x.Preds {
				add(p)
			}
		}
	}
	for _, p := range b.Preds {
		if b.Dominates(p) {
			if m == nil {
				m = map[*ssa.BasicBlock]bool{b: true}
			}
			add(p)
		}
	}
	if e.bodies == nil {
		e.bodies = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	}
	e.bodies[b] = m
	return m
}

// branch decides a condition.
func (e *Exec) branch(f *frame, b *ssa.BasicBlock, c *Term) bool {
	body := e.Eng.loopBody(b)
	stay0, stay1 := body[b.Succs[0]], body[b.Succs[1]]
	loop := len(body) > 0 && stay0 != stay1
	var v bool
	switch e.truth(c) {
	case 1:
		v = true
	case -1:
		v = false
	default:
		if loop && f.loop[b] >= e.bound2(f, b) {
			v = stay1 // leave
		} else {
			v = e.choose(2) == 0
		}
		e.assume(c, v)
	}
	if loop {
		if v == stay0 && f.loop[b] > e.bound2(f, b) && c.Op == OBin {
			// iterating on because of a fact about an unbounded length: beyond the unrolling
			if _, hi := e.Interval(c.A[1]); !hi.ok || hi.Cmp(numI(64)) > 0 {
				panic(cut{})
			}
		}
		if v == stay0 {
			if f.loop[b] == 0 {
				e.loops = append(e.loops, 0)
			} else {
				e.loops[len(e.loops)-1] = f.loop[b]
			}
			f.loop[b]++
		} else if f.loop[b] > 0 {
			if len(e.loops) > 0 {
				e.loops = e.loops[:len(e.loops)-1]
			}
			f.loop[b] = 0
		}
	}
	return v
}

func (e *Exec) bound2(f *frame, b *ssa.BasicBlock) int {
	d := len(e.loops)
	if f.loop[b] > 0 {
		d--
	}
	if d > 0 && e.Eng.Inner > 0 {
		return e.Eng.Inner
	}
	return e.Eng.Bound
}

func (e *Exec) block(f *frame, b, prev *ssa.BasicBlock) (next *ssa.BasicBlock, ret []*Term, done bool) {
	i := 0
	if _, ok := b.Instrs[0].(*ssa.Phi); ok {
		pi := 0
		for k, p := range b.Preds {
			if p == prev {
				pi = k
			}
		}
		var vals []*Term
		for ; i < len(b.Instrs); i++ {
			phi, ok := b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			vals = append(vals, e.get(f, phi.Edges[pi]))
		}
		for k, v := range vals {
			f.regs[b.Instrs[k].(*ssa.Phi)] = v
		}
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if e.steps++; e.steps > 200000 {
			e.fail("step limit in %s", f.fn)
		}
		if p := in.Pos(); p.IsValid() {
			f.pos = p
		}
		switch in := in.(type) {
		case *ssa.If:
			if e.branch(f, b, e.get(f, in.Cond)) {
				return b.Succs[0], nil, false
			}
			return b.Succs[1], nil, false
		case *ssa.Jump:
			return b.Succs[0], nil, false
		case *ssa.Return:
			for _, r := range in.Results {
				ret = append(ret, e.get(f, r))
			}
			return nil, ret, true
		case *ssa.RunDefers:
			for k := len(f.defers) - 1; k >= 0; k-- {
				f.defers[k]()
			}
			f.defers = nil
		case *ssa.Panic:
			e.crashIf(f, true, "panic", e.get(f, in.X))
		default:
			e.instr(f, in)
		}
	}
	e.fail("block without end in %s", f.fn)
	return
}

func (e *Exec) instr(f *frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		e.nalloc++
		a := e.mk(OAlloc, in.Type(), e.nalloc, in.Comment, nil)
		e.zeroed[a] = true
		f.regs[in] = a
	case *ssa.BinOp:
		f.regs[in] = e.binop(f, in.Op, in.Type(), e.get(f, in.X), e.get(f, in.Y))
	case *ssa.UnOp:
		x := e.get(f, in.X)
		switch in.Op {
		case token.MUL:
			e.needNonNil(f, x, "nil dereference")
			f.regs[in] = e.load(x)
		case token.NOT:
			f.regs[in] = e.not(x)
		case token.SUB:
			if x.Op == OConst {
				f.regs[in] = e.konst(constant.UnaryOp(token.SUB, x.C, 0), in.Type())
			} else {
				f.regs[in] = e.mk(ONeg, in.Type(), 0, "-", nil, x)
			}
		default:
			f.regs[in] = e.mk(ONeg, in.Type(), 0, in.Op.String(), nil, x)
		}
	case *ssa.Store:
		a := e.get(f, in.Addr)
		e.needNonNil(f, a, "nil dereference")
		v := e.get(f, in.Val)
		if rooted(a) {
			e.event(&Event{Kind: "store", Addr: a, Val: v, Pos: f.pos, Fn: f.fn})
		}
		e.store(a, v)
	case *ssa.FieldAddr:
		x := e.get(f, in.X)
		e.needNonNil(f, x, "nil dereference")
		f.regs[in] = e.mk(OFAddr, in.Type(), in.Field, "", nil, x.stripPtr())
	case *ssa.Field:
		f.regs[in] = e.field(e.get(f, in.X), in.Field)
	case *ssa.IndexAddr:
		x := e.get(f, in.X)
		i := e.get(f, in.Index)
		f.regs[in] = e.indexAddr(f, x, i, in.Type())
	case *ssa.Index:
		x, i := e.get(f, in.X), e.get(f, in.Index)
		e.inBounds(f, i, e.length(x))
		f.regs[in] = e.index(x, i, in.Type())
	case *ssa.Lookup:
		m, k := e.get(f, in.X), e.get(f, in.Index)
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			e.inBounds(f, k, e.length(m))
			f.regs[in] = e.mk(OIndex, in.Type(), 0, "", nil, m, k)
			return
		}
		e.nalloc++
		if in.CommaOk {
			tt := in.Type().(*types.Tuple)
			f.regs[in] = e.mk(OTuple, tt, 0, "", nil, e.mk(OLookup, tt.At(0).Type(), e.nalloc, "", nil, m, k), e.mk(OLookup, tt.At(1).Type(), e.nalloc, "ok", nil, m, k))
			return
		}
		f.regs[in] = e.mk(OLookup, in.Type(), e.nalloc, "", nil, m, k)
	case *ssa.ChangeType:
		f.regs[in] = e.conv(e.get(f, in.X), in.Type())
	case *ssa.Convert:
		f.regs[in] = e.conv(e.get(f, in.X), in.Type())
	case *ssa.ChangeInterface:
		f.regs[in] = e.get(f, in.X)
	case *ssa.MakeInterface:
		f.regs[in] = e.mk(OMkIface, in.Type(), 0, "", nil, e.get(f, in.X))
	case *ssa.SliceToArrayPointer:
		x := e.get(f, in.X)
		e.Checked++
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if e.leq(e.intc(n), e.length(x), false) != 1 {
			e.crashIf(f, false, "slice to array conversion", x)
		}
		f.regs[in] = e.conv(x, in.Type())
	case *ssa.Extract:
		f.regs[in] = e.extract(e.get(f, in.Tuple), in.Index)
	case *ssa.Slice:
		f.regs[in] = e.slice(f, in)
	case *ssa.MakeSlice:
		e.nalloc++
		n, c := e.get(f, in.Len), e.get(f, in.Cap)
		r := e.mk(ORegNew, in.Type(), e.nalloc, "", nil)
		e.zeroed[r] = true
		if e.leq(e.intc(0), n, false) != 1 || e.leq(n, c, false) != 1 {
			e.crashIf(f, e.leq(n, c, false) == -1, "makeslice: length out of range", n)
		}
		f.regs[in] = e.mk(OSlice, in.Type(), 0, "", nil, r, e.intc(0), e.conv(n, types.Typ[types.Int]), e.conv(c, types.Typ[types.Int]))
	case *ssa.MakeMap:
		e.nalloc++
		f.regs[in] = e.mk(OMakeMap, in.Type(), e.nalloc, "", nil)
	case *ssa.MapUpdate:
		m, k, v := e.get(f, in.Map), e.get(f, in.Key), e.get(f, in.Value)
		e.Checked++
		switch e.NilState(m) {
		case 1:
			e.crashIf(f, true, "write to a nil map", m)
		case 0:
			e.crashIf(f, false, "write to a map that may be nil", m)
			e.setNil(m, false)
		}
		e.event(&Event{Kind: "mapset", Addr: m, Args: []*Term{k}, Val: v, Pos: f.pos, Fn: f.fn})
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.get(f, b))
		}
		e.nalloc++
		f.regs[in] = e.mk(OClosure, in.Type(), e.nalloc, in.Fn.(*ssa.Function).Name(), in.Fn, bs...)
	case *ssa.Range:
		f.iters[in] = &iter{m: e.get(f, in.X)}
		f.regs[in] = e.get(f, in.X)
	case *ssa.Next:
		e.next(f, in)
	case *ssa.TypeAssert:
		x := e.get(f, in.X)
		var v *Term
		if x.Op == OMkIface && types.Identical(x.A[0].Typ, in.AssertedType) {
			v = x.A[0]
			if in.CommaOk {
				f.regs[in] = e.mk(OTuple, in.Type(), 0, "", nil, v, e.boolc(true))
				return
			}
			f.regs[in] = v
			return
		}
		v = e.mk(OAssert, in.AssertedType, 0, "", nil, x)
		if in.CommaOk {
			ok := e.mk(OPure, types.Typ[types.Bool], 0, "is "+in.AssertedType.String(), nil, x)
			f.regs[in] = e.mk(OTuple, in.Type(), 0, "", nil, v, ok)
			return
		}
		e.crashIf(f, false, "type assertion", x)
		f.regs[in] = v
	case *ssa.Call:
		r := e.callInstr(f, &in.Call, in.Type())
		if r != nil {
			f.regs[in] = r
		}
	case *ssa.Defer:
		c := in.Call
		fn, args := e.prepare(f, &c)
		typ := c.Signature().Results()
		f.defers = append(f.defers, func() { e.dispatch(f, &c, fn, args, typ) })
	default:
		e.fail("instruction %T in %s", in, f.fn)
	}
}

// rooted reports whether an address is visible outside the function (not a local variable).
func rooted(a *Term) bool {
	for a.Op == OFAddr || a.Op == OIAddr {
		a = a.A[0]
	}
	return a.Op != OAlloc
}

// Root of an address.
func Root(a *Term) *Term {
	for a.Op == OFAddr || a.Op == OIAddr {
		a = a.A[0]
	}
	return a
}

func (t *Term) stripPtr() *Term {
	for t.Op == OConv {
		if _, ok := t.Typ.Underlying().(*types.Pointer); !ok {
			return t
		}
		t = t.A[0]
	}
	return t
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return types.Typ[types.Invalid]
}

func (e *Exec) not(x *Term) *Term {
	switch x.Op {
	case ONot:
		return x.A[0]
	case OConst:
		return e.boolc(!constant.BoolVal(x.C))
	}
	return e.mk(ONot, types.Typ[types.Bool], 0, "", nil, x)
}

func (e *Exec) binop(f *frame, op token.Token, typ types.Type, x, y *Term) *Term {
	switch op {
	case token.NEQ:
		return e.not(e.binop(f, token.EQL, typ, x, y))
	case token.EQL:
		if x.Op == OConst && y.Op != OConst {
			x, y = y, x
		}
		if (e.isZeroAgg(x) && !e.isZeroAgg(y)) || x.Op == OZero {
			x, y = y, x
		}
		x, y = x.eqForm(), y.eqForm()
		if x.Op == OConst && y.Op == OConst && x.C != nil && y.C != nil {
			return e.boolc(constant.Compare(x.C, token.EQL, y.C))
		}
	case token.GTR:
		return e.binop(f, token.LSS, typ, y, x)
	case token.GEQ:
		return e.binop(f, token.LEQ, typ, y, x)
	}
	if x.Op == OConst && y.Op == OConst && x.C != nil && y.C != nil {
		switch op {
		case token.LSS, token.LEQ:
			return e.boolc(constant.Compare(x.C, op, y.C))
		case token.ADD, token.SUB, token.MUL:
			return e.konst(constant.BinaryOp(x.C, op, y.C), typ)
		}
	}
	switch op {
	case token.QUO, token.REM:
		if isInt(typ) {
			if lo, hi := e.Interval(y); !(lo.ok && lo.Sign() > 0 || hi.ok && hi.Sign() < 0) {
				e.crashIf(f, false, "division by zero", y)
			}
		}
	}
	if isInt(typ) && (op == token.ADD || op == token.SUB) {
		t := e.mk(OBin, typ, 0, op.String(), nil, x, y)
		if b, o := e.lin(t); b == nil {
			return e.konst(constant.MakeFromLiteral(o.String(), token.INT, 0), typ)
		} else if o.Sign() == 0 {
			return b
		}
		return t
	}
	return e.mk(OBin, typ, 0, op.String(), nil, x, y)
}

func (t *Term) eqForm() *Term { return t.Strip() }

func (e *Exec) isZeroAgg(t *Term) bool {
	switch t.Typ.Underlying().(type) {
	case *types.Struct, *types.Array:
		return e.IsZeroVal(t)
	}
	return false
}

func (e *Exec) conv(x *Term, t types.Type) *Term {
	if types.Identical(x.Typ, t) {
		return x
	}
	if x.Op == OConst {
		if x.C == nil {
			if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return e.konst(nil, t)
			}
			return e.konst(constant.MakeString(""), t)
		}
		if b, ok := t.Underlying().(*types.Basic); ok && types.Identical(x.Typ.Underlying(), b) {
			return e.konst(x.C, t)
		}
		if isInt(t) && isInt(x.Typ) {
			lo, hi := TypeRange(t)
			if r := numOf(x.C); r.ok && r.Cmp(lo) >= 0 && r.Cmp(hi) <= 0 {
				return e.konst(x.C, t)
			}
		}
	}
	if x.Op == OZero {
		return e.zero(t)
	}
	// pointers through unsafe.Pointer keep their target
	_, isPtr := t.Underlying().(*types.Pointer)
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		isPtr = true
	}
	if isPtr {
		x = x.stripPtr()
		for x.Op == OConv {
			x = x.A[0]
		}
		if types.Identical(x.Typ, t) {
			return x
		}
	}
	if x.Op == OConv && types.Identical(x.A[0].Typ.Underlying(), x.Typ.Underlying()) {
		return e.conv(x.A[0], t)
	}
	return e.mk(OConv, t, 0, "", nil, x)
}

func (e *Exec) extract(t *Term, i int) *Term {
	if t.Op == OTuple {
		return t.A[i]
	}
	tt, ok := t.Typ.(*types.Tuple)
	if !ok {
		e.fail("extract from %s", t)
	}
	return e.mk(OExtract, tt.At(i).Type(), i, "", nil, t)
}

// ---- memory ----

func isPrefix(a, b *Term) bool { // a is b or contains it
	for {
		if a == b {
			return true
		}
		if b.Op != OFAddr && b.Op != OIAddr {
			return false
		}
		b = b.A[0]
	}
}

func (e *Exec) load(a *Term) *Term {
	typ := elemOf(a.Typ)
	if a.Op == OConv {
		// reinterpreted pointer
		inner := a
		for inner.Op == OConv {
			inner = inner.A[0]
		}
		v := e.load(inner)
		if types.Identical(v.Typ.Underlying(), typ.Underlying()) {
			return e.conv(v, typ)
		}
		return e.mk(OReinterp, typ, 0, "", nil, v)
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if e.hasBelow(a) {
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, e.load(e.mk(OFAddr, types.NewPointer(u.Field(i).Type()), i, "", nil, a)))
			}
			return e.mk(OAgg, typ, 0, types.TypeString(typ, nil), nil, fs...)
		}
	case *types.Array:
		if e.hasBelow(a) && u.Len() <= 64 {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, e.load(e.mk(OIAddr, types.NewPointer(u.Elem()), 0, "", nil, a, e.intc(i))))
			}
			return e.mk(OAgg, typ, 0, types.TypeString(typ, nil), nil, fs...)
		}
	}
	return e.peek(a, typ)
}

func (e *Exec) hasBelow(a *Term) bool {
	return e.under[a] > 0
}

// put writes memory, keeping count of what is stored under each address.
func (e *Exec) put(a, v *Term) {
	if _, ok := e.mem[a]; !ok {
		e.counts(a, 1)
	}
	e.mem[a] = v
}

func (e *Exec) counts(a *Term, n int) {
	for a.Op == OFAddr || a.Op == OIAddr {
		a = a.A[0]
		e.under[a] += n
	}
}

// clobber forgets everything stored under an address.
func (e *Exec) clobber(a *Term) {
	if e.under[a] == 0 {
		return
	}
	for k := range e.mem {
		if k != a && isPrefix(a, k) {
			delete(e.mem, k)
			e.counts(k, -1)
		}
	}
}

func (e *Exec) peek(a *Term, typ types.Type) *Term {
	if v, ok := e.mem[a]; ok {
		return v
	}
	switch a.Op {
	case OFAddr:
		if v := e.whole(a.A[0]); v != nil {
			return e.field(v, a.I)
		}
	case OIAddr:
		if v := e.whole(a.A[0]); v != nil {
			return e.index(v, a.A[1], typ)
		}
	}
	if e.zeroed[Root(a)] {
		return e.zero(typ)
	}
	return e.mk(OInit, typ, 0, "", nil, a)
}

// whole is the value an address holds because a container was stored as a whole.
func (e *Exec) whole(a *Term) *Term {
	if v, ok := e.mem[a]; ok {
		return v
	}
	switch a.Op {
	case OFAddr:
		if v := e.whole(a.A[0]); v != nil {
			return e.field(v, a.I)
		}
	case OIAddr:
		if v := e.whole(a.A[0]); v != nil {
			return e.index(v, a.A[1], elemOf(a.Typ))
		}
	}
	return nil
}

func (e *Exec) field(v *Term, i int) *Term {
	st, ok := v.Typ.Underlying().(*types.Struct)
	if !ok {
		e.fail("field of %s", v)
	}
	ft := st.Field(i).Type()
	switch v.Op {
	case OAgg:
		return v.A[i]
	case OZero:
		return e.zero(ft)
	case OConv:
		return e.field(v.A[0], i)
	case OInit:
		return e.mk(OInit, ft, 0, "", nil, e.mk(OFAddr, types.NewPointer(ft), i, "", nil, v.A[0]))
	}
	return e.mk(OField, ft, i, "", nil, v)
}

func (e *Exec) index(v, i *Term, typ types.Type) *Term {
	switch v.Op {
	case OAgg:
		if i.Op == OConst {
			if n, ok := constant.Int64Val(i.C); ok && n >= 0 && int(n) < len(v.A) {
				return v.A[n]
			}
		}
	case OZero:
		return e.zero(typ)
	case OConv:
		return e.index(v.A[0], i, typ)
	case OInit:
		if _, ok := v.Typ.Underlying().(*types.Array); ok {
			return e.mk(OInit, typ, 0, "", nil, e.mk(OIAddr, types.NewPointer(typ), 0, "", nil, v.A[0], i))
		}
	}
	return e.mk(OIndex, typ, 0, "", nil, v, i)
}

func (e *Exec) store(a, v *Term) {
	if a.Op == OConv {
		inner := a
		for inner.Op == OConv {
			inner = inner.A[0]
		}
		v = e.conv(v, elemOf(inner.Typ))
		a = inner
	}
	if a.Op == OIAddr && a.A[1].Op != OConst {
		// unknown position: everything in the region becomes uncertain
		for k := range e.mem {
			if k != a && isPrefix(a.A[0], k) {
				delete(e.mem, k)
				e.counts(k, -1)
			}
		}
	}
	e.clobber(a)
	e.put(a, v)
}

// Load reads memory as it is at the end of the path.
func (e *Exec) Load(a *Term) *Term { return e.load(a) }

// FieldOf is the address of field i of the struct at a.
func (e *Exec) FieldOf(a *Term, i int) *Term {
	st := elemOf(a.Typ).Underlying().(*types.Struct)
	return e.mk(OFAddr, types.NewPointer(st.Field(i).Type()), i, "", nil, a)
}

// ElemOf is the address of element i of the slice value or array address v.
func (e *Exec) ElemOf(v *Term, i int64) *Term {
	return e.elemAddr(v, e.intc(i), types.NewPointer(elemOf(derefArr(v.Typ))))
}

func derefArr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// InitOf is the initial content of an address.
func (e *Exec) InitOf(a *Term) *Term { return e.mk(OInit, elemOf(a.Typ), 0, "", nil, a) }

func (e *Exec) inBounds(f *frame, i, n *Term) {
	e.Checked++
	lo := e.leq(e.intc(0), i, false)
	hi := e.leq(i, n, true)
	if lo == -1 || hi == -1 {
		e.crashIf(f, true, "index out of range", i)
	}
	if lo != 1 || hi != 1 {
		e.crashIf(f, false, "index out of range", i)
		e.addLeq(i, n, true)
	}
}

func (e *Exec) indexAddr(f *frame, x, i *Term, typ types.Type) *Term {
	if _, ok := x.Typ.Underlying().(*types.Pointer); ok {
		e.needNonNil(f, x, "nil dereference")
	}
	e.inBounds(f, i, e.length(x))
	return e.elemAddr(x, i, typ)
}

func (e *Exec) elemAddr(x, i *Term, typ types.Type) *Term {
	if _, ok := x.Typ.Underlying().(*types.Pointer); ok {
		return e.mk(OIAddr, typ, 0, "", nil, x.stripPtr(), e.normIdx(i))
	}
	x = x.Strip()
	if x.Op == OSlice {
		if x.A[1].Op != OConst || constant.Sign(x.A[1].C) != 0 {
			i = e.binop(nil, token.ADD, types.Typ[types.Int], i, x.A[1])
		}
		return e.mk(OIAddr, typ, 0, "", nil, x.A[0], e.normIdx(i))
	}
	return e.mk(OIAddr, typ, 0, "", nil, e.region(x), e.normIdx(i))
}

// normIdx turns an index with only one possible value into a constant.
func (e *Exec) normIdx(i *Term) *Term {
	if i.Op == OConst {
		if b, ok := i.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			return i
		}
		return e.konst(i.C, types.Typ[types.Int])
	}
	lo, hi := e.Interval(i)
	if lo.ok && hi.ok && lo.Cmp(hi) == 0 && lo.isInt() {
		return e.konst(constant.MakeFromLiteral(lo.String(), token.INT, 0), types.Typ[types.Int])
	}
	return i
}

func (e *Exec) region(x *Term) *Term {
	x = x.Strip()
	if x.Op == OSlice {
		return x.A[0]
	}
	return e.mk(ORegion, x.Typ, 0, "", nil, x)
}

func (e *Exec) slice(f *frame, in *ssa.Slice) *Term {
	e.Checked++
	x := e.get(f, in.X)
	lo := e.intc(0)
	if in.Low != nil {
		lo = e.get(f, in.Low)
	}
	isStr := false
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
	}
	var hi *Term
	if in.High != nil {
		hi = e.get(f, in.High)
	} else {
		hi = e.length(x)
	}
	var capT *Term
	arr := false
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		arr = true
		e.needNonNil(f, x, "nil dereference")
		capT = e.intc(p.Elem().Underlying().(*types.Array).Len())
	} else if isStr {
		capT = e.length(x)
	} else {
		capT = e.capacity(x)
	}
	if in.Max != nil {
		m := e.get(f, in.Max)
		if e.leq(m, capT, false) != 1 {
			e.crashIf(f, e.leq(m, capT, false) == -1, "slice bounds out of range", m)
		}
		capT = m
	}
	a, b, c := e.leq(e.intc(0), lo, false), e.leq(lo, hi, false), e.leq(hi, capT, false)
	if a != 1 || b != 1 || c != 1 {
		e.crashIf(f, a == -1 || b == -1 || c == -1, "slice bounds out of range", hi)
		e.addLeq(hi, capT, false)
		e.addLeq(lo, hi, false)
	}
	if isStr || in.Low == nil && in.High == nil && in.Max == nil && !arr {
		if in.Low == nil && in.High == nil {
			return x
		}
		return e.mk(OPure, in.Type(), 0, "substr", nil, x, lo, hi)
	}
	r := x.stripPtr()
	base := e.intc(0)
	if !arr {
		s := x.Strip()
		r = e.region(x)
		if s.Op == OSlice {
			base = s.A[1]
		}
	}
	ln := e.binop(f, token.SUB, types.Typ[types.Int], hi, lo)
	cp := e.binop(f, token.SUB, types.Typ[types.Int], capT, lo)
	off := e.binop(f, token.ADD, types.Typ[types.Int], base, lo)
	return e.mk(OSlice, in.Type(), 0, "", nil, r, off, ln, cp)
}

func (e *Exec) next(f *frame, in *ssa.Next) {
	rg := in.Iter.(*ssa.Range)
	it := f.iters[rg]
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		e.fail("range over a string in %s", f.fn)
	}
	more := false
	n := e.length(it.m)
	k := e.intc(int64(it.n))
	switch e.leq(k, n, true) {
	case 1:
		more = true
	case -1:
	default:
		if it.n < e.boundAt(it.n) && e.NilState(it.m) != 1 && it.m.Op != OMakeMap {
			more = e.choose(2) == 0
		}
		if more {
			e.addLeq(k, n, true)
		} else {
			e.addLeq(n, k, false)
		}
	}
	if !more {
		if it.n == 0 {
			e.event(&Event{Kind: "iter-end", Addr: it.m, Pos: f.pos, Fn: f.fn})
		}
		f.regs[in] = e.mk(OTuple, tt, 0, "", nil, e.boolc(false), e.zeroOr(tt.At(1).Type()), e.zeroOr(tt.At(2).Type()))
		return
	}
	mt := rg.X.Type().Underlying().(*types.Map)
	key := e.mk(ORangeKey, mt.Key(), it.n, "", nil, it.m)
	val := e.mk(ORangeVal, mt.Elem(), it.n, "", nil, it.m)
	it.n++
	e.event(&Event{Kind: "iter", Addr: it.m, Args: []*Term{key, val}, Pos: f.pos, Fn: f.fn})
	f.regs[in] = e.mk(OTuple, tt, 0, "", nil, e.boolc(true), key, val)
}

func (e *Exec) boundAt(n int) int {
	d := len(e.loops)
	if n > 0 {
		d--
	}
	if d > 0 && e.Eng.Inner > 0 {
		return e.Eng.Inner
	}
	return e.Eng.Bound
}

func (e *Exec) zeroOr(t types.Type) *Term {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Invalid {
		return e.konst(nil, t)
	}
	return e.zero(t)
}

func (e *Exec) prepare(f *frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.get(f, a))
	}
	return e.get(f, c.Value), args
}

func (e *Exec) callInstr(f *frame, c *ssa.CallCommon, typ types.Type) *Term {
	fn, args := e.prepare(f, c)
	return e.dispatch(f, c, fn, args, typ)
}

func shortPkg(s string) string {
	s = strings.ReplaceAll(s, "github.com/mailru/easyjson/", "")
	s = strings.ReplaceAll(s, "github.com/valyala/", "")
	s = strings.ReplaceAll(s, "github.com/google/", "")
	return s
}
