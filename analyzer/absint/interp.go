package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// unmodelled aborts a path: the analysis has no model for a construct.
type unmodelled struct{ what string }

// budget aborts a path: a bound of the analysis was hit.
type budget struct{ what string }

// targetPanic is a panic of the analysed program.
type targetPanic struct {
	v   value
	pos string
}

// Decision is one undecided condition and the outcome assumed on a path.
type Decision struct {
	Key string
	Val bool
	Pos string
}

// Effect is an interaction of the analysed program with its environment.
type Effect struct {
	Kind string // create, write, close, remove, rename, read, mkdir, time, env, exec, fault:<op>
	Arg  string
	Pos  string // construct of the repository that caused it
	Fn   string
}

// Prov tells which construct of the repository built a value.
type Prov struct {
	Pos string // file:line, informative only
	Fn  string
}

// Run is the state of one path.
type Run struct {
	P     *Program
	Atoms *Atoms
	FS    *VFS

	prefix    []bool
	Decisions []Decision
	known     map[string]bool
	sets      map[string]charset
	neq       map[string]map[string]bool
	ends      map[string][]end

	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]bool
	initing int

	MapOrder int // 0 insertion, 1 reversed, 2 rotated
	Faults   bool
	faulted  int
	Effects  []Effect
	prov     map[*value]Prov
	// Printed collects ASTs given to go/printer or go/format.
	Printed []PrintedAST

	steps    int
	MaxSteps int
	depth    int
	conv     *converter
	side     map[*value]any
	// MapRanges lists the functions that iterated over maps of several entries.
	MapRanges map[string]int
	Calls     map[string]int // repository functions interpreted
	Unmod     []string
}

type deferred struct {
	fn   value
	args []value
	tail *deferred
}

type frame struct {
	r         *Run
	caller    *frame
	fn        *ssa.Function
	info      *fnInfo
	regs      []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    value
	panicking bool
	panicv    any
	callPos   token.Pos // position of the call currently executing
}

func newRun(p *Program, atoms *Atoms, fs *VFS, prefix []bool) *Run {
	return &Run{P: p, Atoms: atoms, FS: fs, prefix: prefix, known: map[string]bool{}, sets: map[string]charset{}, neq: map[string]map[string]bool{},
		globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{}, prov: map[*value]Prov{},
		MaxSteps: 60_000_000, side: map[*value]any{}, MapRanges: map[string]int{}, Calls: map[string]int{}}
}

// decide resolves an undecided condition.
func (r *Run) decide(fr *frame, key string) bool {
	if v, ok := r.known[key]; ok {
		return v
	}
	i := len(r.Decisions)
	var v bool
	if i < len(r.prefix) {
		v = r.prefix[i]
	}
	r.Decisions = append(r.Decisions, Decision{Key: key, Val: v, Pos: r.where(fr)})
	if len(r.Decisions) > 400 {
		panic(budget{"more than 400 undecided conditions on one path"})
	}
	r.known[key] = v
	return v
}

// where names the innermost repository construct on the stack.
func (r *Run) where(fr *frame) string {
	p := r.provOf(fr)
	if p.Fn == "" {
		return "?"
	}
	return p.Pos + " (" + p.Fn + ")"
}

func (r *Run) provOf(fr *frame) Prov {
	for f := fr; f != nil; f = f.caller {
		if f.fn == nil {
			continue
		}
		root := f.fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg != nil && r.P.IsRepo(root.Pkg.Pkg.Path()) {
			return Prov{Pos: r.P.Rel(f.callPos), Fn: shortFn(root)}
		}
		if root.Pkg == nil && root.Origin() != nil && root.Origin().Pkg != nil && r.P.IsRepo(root.Origin().Pkg.Pkg.Path()) {
			return Prov{Pos: r.P.Rel(f.callPos), Fn: shortFn(root.Origin())}
		}
	}
	return Prov{}
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		// keep a leading "(*"
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(s, "(") {
			pre = "("
		}
		s = pre + s[i+1:]
	}
	return s
}

func (r *Run) effect(fr *frame, kind, arg string) {
	p := r.provOf(fr)
	r.Effects = append(r.Effects, Effect{Kind: kind, Arg: arg, Pos: p.Pos, Fn: p.Fn})
}

// fault asks whether the environment operation op fails on this path.
// At most one operation fails per path.
func (r *Run) fault(fr *frame, op string) bool {
	if !r.Faults || r.faulted > 0 {
		return false
	}
	n := 0
	for _, e := range r.Effects {
		if strings.HasPrefix(e.Kind, "op:") {
			n++
		}
	}
	r.effect(fr, "op:"+op, "")
	if r.decide(fr, fmt.Sprintf("fault %d %s", n, op)) {
		r.faulted++
		r.effect(fr, "fault:"+op, "")
		return true
	}
	return false
}

// fnInfo numbers the values of a function.
type fnInfo struct {
	idx map[ssa.Value]int
	n   int
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if i, ok := p.infos.Load(fn); ok {
		return i.(*fnInfo)
	}
	i := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		if _, ok := i.idx[v]; !ok {
			i.idx[v] = i.n
			i.n++
		}
	}
	for _, v := range fn.Params {
		add(v)
	}
	for _, v := range fn.FreeVars {
		add(v)
	}
	for _, v := range fn.Locals {
		add(v)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	p.infos.Store(fn, i)
	return i
}

func (p *Program) fnName(fn *ssa.Function) string {
	if n, ok := p.names.Load(fn); ok {
		return n.(string)
	}
	n := fn.String()
	p.names.Store(fn, n)
	return n
}

func (fr *frame) set(k ssa.Value, v value) { fr.regs[fr.info.idx[k]] = v }

func (fr *frame) get(k ssa.Value) value {
	switch k := k.(type) {
	case nil:
		return nil
	case *ssa.Function:
		return k
	case *ssa.Builtin:
		return k
	case *ssa.Const:
		return constVal(k)
	case *ssa.Global:
		return fr.r.global(fr, k)
	}
	if i, ok := fr.info.idx[k]; ok {
		return fr.regs[i]
	}
	panic(unmodelled{fmt.Sprintf("no value for %s %s in %s", k.Name(), k, fr.fn)})
}

func constVal(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		panic(unmodelled{"constant of type " + c.Type().String()})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		if b.Info()&types.IsUnsigned != 0 {
			return int64(c.Uint64())
		}
		return c.Int64()
	case b.Info()&types.IsFloat != 0:
		return c.Float64()
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	panic(unmodelled{"constant " + c.String()})
}

// packages whose initialisers are not interpreted (their globals stay zero
// or are given by globalModel).
func noInit(path string) bool {
	switch path {
	case "os", "runtime", "reflect", "syscall", "unsafe", "time", "embed", "text/template", "sync", "sync/atomic", "regexp", "log", "flag", "context":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "vendor/")
}

func (r *Run) global(fr *frame, g *ssa.Global) *value {
	if c, ok := r.globals[g]; ok {
		return c
	}
	if g.Pkg != nil && !r.inited[g.Pkg] {
		r.initPkg(fr, g.Pkg)
		if c, ok := r.globals[g]; ok {
			return c
		}
	}
	c := new(value)
	*c = zero(deref(g.Type()))
	if m := r.globalModel(g); m != nil {
		*c = m
	}
	r.globals[g] = c
	return c
}

func (r *Run) initPkg(fr *frame, p *ssa.Package) {
	if r.inited[p] {
		return
	}
	r.inited[p] = true
	if noInit(p.Pkg.Path()) {
		return
	}
	// dependencies of a repository or third-party package first
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	r.initing++
	r.call(&frame{r: r, caller: fr, fn: init}, init, nil)
	r.initing--
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// call calls a function value.
func (r *Run) call(caller *frame, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			r.throw(caller, "invalid memory address or nil pointer dereference")
		}
		return r.callSSA(caller, fn, args, nil)
	case *closure:
		if fn == nil {
			r.throw(caller, "invalid memory address or nil pointer dereference")
		}
		return r.callSSA(caller, fn.fn, args, fn.env)
	case *native:
		return fn.f(r, caller, args)
	case *ssa.Builtin:
		return r.builtin(caller, fn, args)
	case nil:
		r.throw(caller, "invalid memory address or nil pointer dereference")
	}
	panic(unmodelled{fmt.Sprintf("call of %T", fn)})
}

func (r *Run) throw(fr *frame, msg string) {
	panic(targetPanic{v: iface{t: r.rtErrType(), v: "runtime error: " + msg}, pos: r.where(fr)})
}

func (r *Run) rtErrType() types.Type {
	if p := r.P.SSA.ImportedPackage("runtime"); p != nil {
		if t := p.Type("errorString"); t != nil {
			return t.Type()
		}
	}
	return types.Typ[types.String]
}

func (r *Run) callSSA(caller *frame, fn *ssa.Function, args []value, env []value) value {
	name := r.P.fnName(fn)
	if fn.Parent() == nil {
		if m, ok := models[name]; ok {
			return m(r, caller, args)
		}
		if fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic == "package initializer" && r.initing > 0 {
			// nested import initialiser: run only repository and third-party ones
			if caller != nil && caller.fn != nil && caller.fn.Name() == "init" && caller.fn.Pkg != nil && caller.fn.Pkg != fn.Pkg {
				path := fn.Pkg.Pkg.Path()
				if !strings.Contains(path, ".") {
					return nil
				}
			}
			if r.inited[fn.Pkg] && caller != nil && caller.fn != fn {
				return nil
			}
			r.inited[fn.Pkg] = true
		}
		if fn.Pkg != nil && r.P.IsRepo(fn.Pkg.Pkg.Path()) {
			r.Calls[shortFn(fn)]++
		}
		if fn.Blocks == nil {
			if o := fn.Origin(); o != nil {
				if m, ok := models[o.String()]; ok {
					return m(r, caller, args)
				}
			}
			panic(unmodelled{"no model for " + name + " called from " + r.where(caller)})
		}
		if o := fn.Origin(); o != nil {
			if m, ok := models[o.String()]; ok {
				return m(r, caller, args)
			}
		}
	}
	r.depth++
	if r.depth > 2000 {
		panic(budget{"call depth in " + name})
	}
	defer func() { r.depth-- }()
	info := r.P.info(fn)
	fr := &frame{r: r, caller: caller, fn: fn, info: info, regs: make([]value, info.n)}
	fr.block = fn.Blocks[0]
	for _, l := range fn.Locals {
		c := new(value)
		*c = zero(deref(l.Type()))
		fr.set(l, c)
	}
	for i, p := range fn.Params {
		fr.set(p, args[i])
	}
	for i, fv := range fn.FreeVars {
		fr.set(fv, env[i])
	}
	for fr.block != nil {
		r.runFrame(fr)
	}
	return fr.result
}

func (r *Run) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		p := recover()
		switch p.(type) {
		case targetPanic:
		default:
			panic(p) // analysis abort or analyser bug
		}
		fr.panicking = true
		fr.panicv = p
		r.runDefers(fr)
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered, no named results
			fr.result = zeroResults(fr.fn)
		}
	}()
	for {
		if r.block(fr) {
			return
		}
	}
}

func zeroResults(fn *ssa.Function) value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	t := make(tuple, res.Len())
	for i := range t {
		t[i] = zero(res.At(i).Type())
	}
	return t
}

func (r *Run) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		r.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicv)
	}
}

func (r *Run) runDefer(fr *frame, d *deferred) {
	ok := false
	defer func() {
		if !ok {
			p := recover()
			if _, is := p.(targetPanic); !is {
				panic(p)
			}
			fr.panicking = true
			fr.panicv = p
		}
	}()
	r.call(fr, d.fn, d.args)
	ok = true
}

// block executes the current block; true when the frame returned.
func (r *Run) block(fr *frame) bool {
	b := fr.block
	i := 0
	if _, ok := b.Instrs[0].(*ssa.Phi); ok {
		pi := -1
		for k, p := range b.Preds {
			if p == fr.prev {
				pi = k
				break
			}
		}
		var tmp []value
		for ; i < len(b.Instrs); i++ {
			phi, ok := b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			tmp = append(tmp, fr.get(phi.Edges[pi]))
		}
		for k := range tmp {
			fr.set(b.Instrs[k].(*ssa.Phi), tmp[k])
		}
	}
	for ; i < len(b.Instrs); i++ {
		r.steps++
		if r.steps > r.MaxSteps {
			panic(budget{"instruction budget exceeded in " + fr.fn.String()})
		}
		instr := b.Instrs[i]
		if p := instr.Pos(); p.IsValid() {
			fr.callPos = p
		}
		switch in := instr.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			fr.set(in, r.unop(fr, in))
		case *ssa.BinOp:
			x, y := fr.get(in.X), fr.get(in.Y)
			if isCmp(in.Op) && (isCounter(in.X) || isCounter(in.Y)) {
				// a loop over the characters of a text visits those of the
				// representation, as a range over it does
				x, y = byRep(x), byRep(y)
			}
			fr.set(in, r.binop(fr, in.Op, in.X.Type(), x, y))
		case *ssa.Call:
			fn, args := r.prepare(fr, &in.Call)
			fr.set(in, r.call(fr, fn, args))
		case *ssa.ChangeInterface:
			fr.set(in, fr.get(in.X))
		case *ssa.ChangeType:
			fr.set(in, fr.get(in.X))
		case *ssa.Convert:
			fr.set(in, r.convert(fr, in.Type(), in.X.Type(), fr.get(in.X)))
		case *ssa.MultiConvert:
			fr.set(in, r.convert(fr, in.Type(), in.X.Type(), fr.get(in.X)))
		case *ssa.SliceToArrayPointer:
			s := fr.get(in.X).([]value)
			n := int(deref(in.Type()).Underlying().(*types.Array).Len())
			if len(s) < n {
				r.throw(fr, "slice to array conversion")
			}
			c := new(value)
			*c = array(s[:n:n])
			fr.set(in, c)
		case *ssa.MakeInterface:
			fr.set(in, iface{t: in.X.Type(), v: cp(fr.get(in.X))})
		case *ssa.Extract:
			fr.set(in, fr.get(in.Tuple).(tuple)[in.Index])
		case *ssa.Slice:
			fr.set(in, r.slice(fr, fr.get(in.X), fr.get(in.Low), fr.get(in.High), fr.get(in.Max)))
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
			case 1:
				fr.result = cp(fr.get(in.Results[0]))
			default:
				res := make(tuple, len(in.Results))
				for k, x := range in.Results {
					res[k] = cp(fr.get(x))
				}
				fr.result = res
			}
			fr.block = nil
			return true
		case *ssa.RunDefers:
			r.runDefers(fr)
		case *ssa.Panic:
			v := fr.get(in.X)
			panic(targetPanic{v: v, pos: r.where(fr)})
		case *ssa.Send:
			ch := fr.get(in.Chan).(*chanv)
			ch.q = append(ch.q, fr.get(in.X))
		case *ssa.Store:
			a, _ := fr.get(in.Addr).(*value)
			if a == nil {
				r.throw(fr, "invalid memory address or nil pointer dereference")
			}
			assignTo(a, fr.get(in.Val))
		case *ssa.If:
			c, ok := fr.get(in.Cond).(bool)
			if !ok {
				panic(unmodelled{"symbolic condition in " + fr.fn.String()})
			}
			s := 1
			if c {
				s = 0
			}
			fr.prev, fr.block = b, b.Succs[s]
			return false
		case *ssa.Jump:
			fr.prev, fr.block = b, b.Succs[0]
			return false
		case *ssa.Defer:
			fn, args := r.prepare(fr, &in.Call)
			fr.defers = &deferred{fn: fn, args: args, tail: fr.defers}
		case *ssa.Go:
			fn, args := r.prepare(fr, &in.Call)
			r.effect(fr, "go", "")
			r.call(fr, fn, args)
		case *ssa.MakeChan:
			fr.set(in, &chanv{})
		case *ssa.Alloc:
			c := new(value)
			if !in.Heap {
				c = fr.get(in).(*value)
			}
			t := deref(in.Type())
			*c = zero(t)
			if in.Heap {
				r.noteAlloc(fr, t, c)
			}
			fr.set(in, c)
		case *ssa.MakeSlice:
			n, c := r.toInt(fr.get(in.Len)), r.toInt(fr.get(in.Cap))
			if n < 0 || c < n || c > 1<<22 {
				r.throw(fr, "makeslice: len out of range")
			}
			s := make([]value, c)
			et := in.Type().Underlying().(*types.Slice).Elem()
			for k := range s {
				s[k] = zero(et)
			}
			fr.set(in, s[:n])
		case *ssa.MakeMap:
			fr.set(in, newMap())
		case *ssa.Range:
			fr.set(in, r.rangeIter(fr, in, fr.get(in.X)))
		case *ssa.Next:
			fr.set(in, fr.get(in.Iter).(*iter).next())
		case *ssa.FieldAddr:
			p, _ := fr.get(in.X).(*value)
			if p == nil {
				r.throw(fr, "invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(structure)
			if !ok {
				panic(unmodelled{fmt.Sprintf("field of %T in %s", *p, fr.fn)})
			}
			fr.set(in, &s[in.Field])
		case *ssa.Field:
			fr.set(in, fr.get(in.X).(structure)[in.Field])
		case *ssa.IndexAddr:
			fr.set(in, r.indexAddr(fr, fr.get(in.X), fr.get(in.Index)))
		case *ssa.Index:
			fr.set(in, r.index(fr, fr.get(in.X), fr.get(in.Index)))
		case *ssa.Lookup:
			fr.set(in, r.lookup(fr, in))
		case *ssa.MapUpdate:
			m, _ := fr.get(in.Map).(*hmap)
			if m == nil {
				r.throw(fr, "assignment to entry in nil map")
			}
			m.set(cp(fr.get(in.Key)), cp(fr.get(in.Value)))
		case *ssa.TypeAssert:
			fr.set(in, r.typeAssert(fr, in, fr.get(in.X).(iface)))
		case *ssa.MakeClosure:
			var env []value
			for _, bv := range in.Bindings {
				env = append(env, fr.get(bv))
			}
			fr.set(in, &closure{in.Fn.(*ssa.Function), env})
		default:
			panic(unmodelled{fmt.Sprintf("instruction %T in %s", instr, fr.fn)})
		}
	}
	panic(unmodelled{"block without terminator"})
}

func (r *Run) noteAlloc(fr *frame, t types.Type, c *value) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "go/ast" {
		return
	}
	r.prov[c] = r.provOf(fr)
}

func (r *Run) prepare(fr *frame, c *ssa.CallCommon) (value, []value) {
	v := fr.get(c.Value)
	var args []value
	var fn value
	if c.Method == nil {
		fn = v
	} else {
		recv := v.(iface)
		if recv.t == nil {
			r.throw(fr, "invalid memory address or nil pointer dereference")
		}
		f := r.P.SSA.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			panic(unmodelled{fmt.Sprintf("method %s of %s", c.Method.Name(), recv.t)})
		}
		fn = f
		args = append(args, recv.v)
	}
	for _, a := range c.Args {
		args = append(args, cp(fr.get(a)))
	}
	return fn, args
}

func (r *Run) toInt(v value) int {
	switch x := v.(type) {
	case int64:
		return int(x)
	case Sym:
		return r.toInt(x.rep)
	}
	panic(unmodelled{fmt.Sprintf("integer expected, got %T", v)})
}

// chars yields the bytes of s, those of atoms as undecided characters.
func (r *Run) bytesOf(s string) []value {
	out := make([]value, 0, len(s))
	if !hasAtom(s) {
		for i := 0; i < len(s); i++ {
			out = append(out, int64(s[i]))
		}
		return out
	}
	for _, sg := range r.Atoms.segs(s) {
		plain := sg.atom == nil && !hasAtom(sg.text)
		for i := 0; i < len(sg.text); i++ {
			if plain {
				out = append(out, int64(sg.text[i]))
				continue
			}
			out = append(out, r.symChar(sg, i, int64(sg.text[i])))
		}
	}
	return out
}

func (r *Run) symChar(sg seg, i int, rep int64) Sym {
	set := csIdent
	tok := sg.text
	if sg.atom != nil {
		set = sg.atom.rest
		tok = sg.atom.Token
		if i == 0 {
			set = sg.atom.first
			if len(sg.text) > len(sg.atom.Token) && isLetter(sg.text[0]) && sg.text[0] != sg.atom.Text[0] {
				if sg.text[0] >= 'a' {
					set = csLower
				} else {
					set = csUpper
				}
			} else if len(sg.text) == len(sg.atom.Token) && len(sg.atom.Text) > len(sg.atom.Token) {
				set = sg.atom.rest
			}
		}
	}
	key := fmt.Sprintf("ch:%s#%d:%d", tok, i, rep)
	return Sym{rep: rep, key: key, set: &set}
}

func (r *Run) runesOf(s string) []value {
	if !hasAtom(s) {
		var out []value
		for _, c := range s {
			out = append(out, int64(c))
		}
		return out
	}
	var out []value
	for _, sg := range r.Atoms.segs(s) {
		plain := sg.atom == nil && !hasAtom(sg.text)
		for i, c := range sg.text {
			if plain {
				out = append(out, int64(c))
				continue
			}
			out = append(out, r.symChar(sg, i, int64(c)))
		}
	}
	return out
}

func strOf(v value, runes bool) string {
	vs, ok := v.([]value)
	if !ok {
		if a, isA := v.(array); isA {
			vs = a
		}
	}
	var b strings.Builder
	for _, e := range vs {
		var n int64
		switch x := e.(type) {
		case int64:
			n = x
		case Sym:
			n = x.rep.(int64)
		}
		if runes {
			b.WriteRune(rune(n))
		} else {
			b.WriteByte(byte(n))
		}
	}
	return b.String()
}

type iter struct {
	f func() value
}

func (i *iter) next() value { return i.f() }

func (r *Run) rangeIter(fr *frame, in *ssa.Range, x value) *iter {
	switch x := x.(type) {
	case string:
		var idx []int
		for i := range x {
			idx = append(idx, i)
		}
		chars := r.runesOf(x)
		k := 0
		return &iter{func() value {
			if k >= len(chars) {
				return tuple{false, int64(0), int64(0)}
			}
			t := tuple{true, int64(idx[k]), chars[k]}
			k++
			return t
		}}
	case *hmap:
		var ents []*hent
		if x != nil {
			for _, e := range x.ents {
				if !e.dead {
					ents = append(ents, e)
				}
			}
		}
		if len(ents) > 1 {
			r.MapRanges[shortFn(fr.fn)]++
		}
		switch r.MapOrder {
		case 1:
			for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
				ents[i], ents[j] = ents[j], ents[i]
			}
		case 2:
			if len(ents) > 1 {
				ents = append(append([]*hent{}, ents[1:]...), ents[0])
			}
		case 3:
			sort.SliceStable(ents, func(i, j int) bool { return keyOf(ents[i].k) > keyOf(ents[j].k) })
		}
		k := 0
		return &iter{func() value {
			for k < len(ents) && ents[k].dead {
				k++
			}
			if k >= len(ents) {
				return tuple{false, nil, nil}
			}
			e := ents[k]
			k++
			return tuple{true, e.k, e.v}
		}}
	}
	panic(unmodelled{fmt.Sprintf("range over %T", x)})
}

func (r *Run) indexAddr(fr *frame, x, idx value) value {
	n := r.tableIndex(fr, idx)
	switch x := x.(type) {
	case []value:
		if n < 0 || n >= len(x) {
			r.throw(fr, fmt.Sprintf("index out of range [%d] with length %d", n, len(x)))
		}
		return &x[n]
	case *value:
		if x == nil {
			r.throw(fr, "invalid memory address or nil pointer dereference")
		}
		a := (*x).(array)
		if n < 0 || n >= len(a) {
			r.throw(fr, fmt.Sprintf("index out of range [%d] with length %d", n, len(a)))
		}
		return &a[n]
	}
	panic(unmodelled{fmt.Sprintf("index of %T", x)})
}

func (r *Run) tableIndex(fr *frame, idx value) int {
	if s, ok := idx.(Sym); ok && s.set != nil {
		panic(unmodelled{"table indexed by a character of an atom in " + fr.fn.String()})
	}
	return r.toInt(idx)
}

func (r *Run) index(fr *frame, x, idx value) value {
	n := r.tableIndex(fr, idx)
	switch x := x.(type) {
	case array:
		if n < 0 || n >= len(x) {
			r.throw(fr, "index out of range")
		}
		return x[n]
	case string:
		b := r.bytesOf(x)
		if n < 0 || n >= len(b) {
			r.throw(fr, fmt.Sprintf("index out of range [%d] with length %d", n, len(b)))
		}
		return b[n]
	case []value:
		if n < 0 || n >= len(x) {
			r.throw(fr, "index out of range")
		}
		return x[n]
	}
	panic(unmodelled{fmt.Sprintf("index of %T", x)})
}

func (r *Run) lookup(fr *frame, in *ssa.Lookup) value {
	x := fr.get(in.X)
	k := fr.get(in.Index)
	if s, ok := x.(string); ok {
		return r.index(fr, s, k)
	}
	m := x.(*hmap)
	mt := in.X.Type().Underlying().(*types.Map)
	v, ok := r.mapGet(fr, m, k)
	if !ok {
		v = zero(mt.Elem())
	} else {
		v = cp(v)
	}
	if in.CommaOk {
		return tuple{v, ok}
	}
	return v
}

// mapGet looks a key up; a key with atoms may denote any compatible literal
// key, which is undecided.
func (r *Run) mapGet(fr *frame, m *hmap, k value) (value, bool) {
	if v, ok := m.get(k); ok {
		return v, true
	}
	ks, isStr := k.(string)
	if it, ok := k.(iface); ok {
		ks, isStr = it.v.(string)
	}
	if m == nil || !isStr || !hasAtom(ks) || !fr.inRepo() {
		return nil, false
	}
	if m.n > 24 {
		return nil, false // large tables (e.g. known packages): assumed disjoint from user names
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		es, ok := e.k.(string)
		if !ok {
			if it, isI := e.k.(iface); isI {
				es, ok = it.v.(string)
			}
		}
		if ok && r.eqStr(fr, ks, es) {
			return e.v, true
		}
	}
	return nil, false
}

func (fr *frame) inRepo() bool {
	f := fr.fn
	for f != nil && f.Parent() != nil {
		f = f.Parent()
	}
	return f != nil && f.Pkg != nil && fr.r.P.IsRepo(f.Pkg.Pkg.Path())
}

func (r *Run) slice(fr *frame, x, lo, hi, max value) value {
	l, h, m := 0, -1, -1
	if lo != nil {
		l = r.toInt(lo)
	}
	if hi != nil {
		h = r.toInt(hi)
	}
	if max != nil {
		m = r.toInt(max)
	}
	chk := func(n int) {
		if l < 0 || h < l || h > n {
			r.throw(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, n))
		}
	}
	switch x := x.(type) {
	case string:
		if h < 0 {
			h = len(x)
		}
		chk(len(x))
		return x[l:h]
	case []value:
		if h < 0 {
			h = len(x)
		}
		chk(cap(x))
		if m >= 0 {
			return x[l:h:m]
		}
		return x[l:h]
	case *value:
		if x == nil {
			r.throw(fr, "invalid memory address or nil pointer dereference")
		}
		a := (*x).(array)
		if h < 0 {
			h = len(a)
		}
		chk(len(a))
		if m >= 0 {
			return []value(a)[l:h:m]
		}
		return []value(a)[l:h]
	}
	panic(unmodelled{fmt.Sprintf("slice of %T", x)})
}

func (r *Run) typeAssert(fr *frame, in *ssa.TypeAssert, x iface) value {
	var ok bool
	var v value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		ok = x.t != nil && types.Implements(x.t, it)
		if ok {
			v = x
		}
	} else {
		ok = x.t != nil && types.Identical(x.t, in.AssertedType)
		if ok {
			v = cp(x.v)
		}
	}
	if !ok {
		if !in.CommaOk {
			r.throw(fr, fmt.Sprintf("interface conversion: %v is not %s", x.t, in.AssertedType))
		}
		return tuple{zero(in.AssertedType), false}
	}
	if in.CommaOk {
		return tuple{v, true}
	}
	return v
}

// eqStr compares strings, undecided when an atom may denote the other side.
func (r *Run) eqStr(fr *frame, a, b string) bool {
	if a == b {
		return true
	}
	ha, hb := hasAtom(a), hasAtom(b)
	if !ha && !hb || ha && hb {
		return false
	}
	if hb {
		a, b = b, a
	}
	if of, pre, suf, ok := r.uncut(a); ok {
		return r.eqStr(fr, of, pre+b+suf)
	}
	if r.Atoms.Reserved[b] || !canMatch(r.Atoms.segs(a), b) {
		return false
	}
	for _, e := range r.ends[a] {
		if e.has != (e.suffix && strings.HasSuffix(b, e.text) || !e.suffix && strings.HasPrefix(b, e.text)) {
			return false
		}
	}
	if strings.HasPrefix(a, "/") && strings.HasPrefix(b, "/") {
		return false // the directories of a tree have different names
	}
	if t := r.Atoms.Get(a); b == "main" && t != nil && t.Kind == APkg && t.Desc != "pkg" {
		return false // nobody can import it
	}
	key := "eq:" + a
	if v, ok := r.neq[key]; ok {
		if v["="+b] {
			return true
		}
		for k := range v {
			if strings.HasPrefix(k, "=") {
				return false
			}
		}
	}
	d := r.decide(fr, key+" == "+fmt.Sprintf("%q", b))
	if d {
		if r.neq[key] == nil {
			r.neq[key] = map[string]bool{}
		}
		r.neq[key]["="+b] = true
	}
	return d
}

func (r *Run) hasPrefix(fr *frame, s, p string) bool {
	if strings.HasPrefix(s, p) {
		return true
	}
	if !hasAtom(s) || hasAtom(p) || r.Atoms.Reserved[p] {
		return false
	}
	if of, pre, _, ok := r.uncut(s); ok {
		return r.hasPrefix(fr, of, pre+p)
	}
	if !canPrefix(r.Atoms.segs(s), p) {
		return false
	}
	return r.decideEnd(fr, s, p, false)
}

// end is a decision about the prefix or suffix of a text.
type end struct {
	suffix, has bool
	text        string
}

// decideEnd decides a prefix or suffix of a text, consistently with what was decided of it before.
func (r *Run) decideEnd(fr *frame, s, p string, suffix bool) bool {
	within := func(a, b string) bool { // text with the end a has the end b
		return suffix && strings.HasSuffix(a, b) || !suffix && strings.HasPrefix(a, b)
	}
	for k := range r.neq["eq:"+s] {
		if strings.HasPrefix(k, "=") {
			return within(k[1:], p)
		}
	}
	for _, e := range r.ends[s] {
		switch {
		case e.suffix != suffix:
		case e.has && within(e.text, p):
			return true
		case e.has && !within(p, e.text):
			return false
		case !e.has && within(p, e.text):
			return false
		}
	}
	op := "prefix"
	if suffix {
		op = "suffix"
	}
	d := r.decide(fr, fmt.Sprintf("%s:%s %q", op, s, p))
	if r.ends == nil {
		r.ends = map[string][]end{}
	}
	r.ends[s] = append(r.ends[s], end{suffix: suffix, has: d, text: p})
	return d
}

func (r *Run) hasSuffix(fr *frame, s, p string) bool {
	if strings.HasSuffix(s, p) {
		return true
	}
	if !hasAtom(s) || hasAtom(p) || r.Atoms.Reserved[p] {
		return false
	}
	if of, _, suf, ok := r.uncut(s); ok {
		return r.hasSuffix(fr, of, p+suf)
	}
	if !canSuffix(r.Atoms.segs(s), p) {
		return false
	}
	return r.decideEnd(fr, s, p, true)
}

func (r *Run) contains(fr *frame, s, p string) bool {
	if strings.Contains(s, p) {
		return true
	}
	if p == "" || !hasAtom(s) || hasAtom(p) || r.Atoms.Reserved[p] || !allAtomChars(p) {
		return false
	}
	return r.decide(fr, fmt.Sprintf("contains:%s %q", s, p))
}

var _ = utf8.RuneLen

// isCounter reports whether v is a loop variable that moves by a constant.
func isCounter(v ssa.Value) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range phi.Edges {
		if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && b.X == v {
			if _, ok := b.Y.(*ssa.Const); ok {
				return true
			}
		}
	}
	return false
}

// byRep takes a length for that of the representation.
func byRep(v value) value {
	if s, ok := v.(Sym); ok && s.set == nil {
		if n, ok := s.rep.(int64); ok {
			return n
		}
	}
	return v
}
