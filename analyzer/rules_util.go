package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"vjcheck/flow"
)

// The utilities file is used through contracts when emitted code is analysed.
// Here its functions are held to them.

// utilScenario is the scenario whose utilities file is examined; the file does
// not depend on the declarations.
const utilScenario = "struct/mixed"

type contract struct {
	props string // properties that rest on it
	rule  string
	check func(fail func(string, ...any), p *flow.Path)
}

var contracts = map[string]contract{
	"valueIsNotNull":        {props: "C09 C14 C16", rule: "valueIsNotNull is true exactly for values other than nil and null", check: utilNotNull},
	"newParsingError":       {props: "C03 C05 C18", rule: "newParsingError is nil exactly for nil and keeps both the name and the error", check: utilNewError},
	"parsingError.WrapPath": {props: "C05 C18", rule: "WrapPath puts the outer name in front and keeps the error", check: utilWrap},
	"parsingError.Error":    {props: "C18", rule: "the error text holds the path and the cause", check: utilErrorText},
	"parsingError.Unwrap":   {props: "C18", rule: "Unwrap gives the cause", check: utilUnwrap},
	"parseDateTime":         {props: "C03 C14 C20", rule: "parseDateTime gives the parsed time or an error", check: utilParseDateTime},
	"writeTime":             {props: "C04 C12 C20", rule: "writeTime writes the quoted text of the time in the layout", check: utilWriteTime},
	"unpackObject":          {props: "C04 C12 C21", rule: "unpackObject passes errors on and cuts exactly the outer braces", check: utilUnpack},
}

func (r *R) utilities(u *Unit) {
	for _, fn := range utilities(u) {
		name := fn.Name()
		if rv := fn.Signature.Recv(); rv != nil {
			t := rv.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				name = n.Obj().Name() + "." + name
			}
		}
		c, ok := contracts[name]
		if r.ID == "C22" {
			c, ok = contract{rule: "no crash", check: utilCrash}, true
		}
		if !ok || c.props != "" && !strings.Contains(" "+c.props+" ", " "+r.ID+" ") {
			continue
		}
		r.Count("utility functions", 1)
		fail := func(format string, a ...any) {
			pos := u.Main.Fset.Position(fn.Pos())
			r.Report(Finding{Rule: c.rule, Site: "utilities|" + name, Where: pos.String(), Repo: "generator/static/tpl", Detail: fmt.Sprintf(format, a...)})
		}
		e := &flow.Engine{Unit: u.Unit, Bound: 2, Inner: 2}
		ps := e.Run(fn, nil)
		for _, p := range ps {
			if p.Abort != "" {
				r.Undecided("utilities|"+name, "flow analysis: "+p.Abort)
				ps = nil
			}
		}
		for _, p := range ps {
			if p.Crash != nil {
				if r.ID == "C22" {
					fail("%s", p.Crash.Name)
				}
				continue
			}
			if c.check != nil {
				c.check(fail, p)
			}
		}
	}
}

func utilCrash(fail func(string, ...any), p *flow.Path) {
	for _, ev := range p.Events {
		if ev.Kind == "crash" {
			fail("%s: %v is not ruled out (%s)", ev.Name, ev.Val, facts(p))
		}
	}
}

func utilNotNull(fail func(string, ...any), p *flow.Path) {
	v := p.Params[0]
	switch p.Truth(p.Ret[0]) {
	case 1:
		if p.NilState(v) != -1 || p.IsNull(v) != -1 {
			fail("true for a value that may be nil or null (%s)", facts(p))
		}
	case -1:
		if p.NilState(v) != 1 && p.IsNull(v) != 1 {
			fail("false for a value that may be neither nil nor null (%s)", facts(p))
		}
	default:
		fail("undecided (%s)", facts(p))
	}
}

func utilNewError(fail func(string, ...any), p *flow.Path) {
	name, err := p.Params[0], p.Params[1]
	ret := p.Ret[0]
	if p.NilState(err) == 1 {
		if p.NilState(ret) != 1 {
			fail("an error for a nil error: %v", ret)
		}
		return
	}
	if p.NilState(err) == 0 {
		fail("%v without looking at the error", ret)
		return
	}
	c := ret.Strip()
	if c.Op == flow.OExtract {
		c = c.A[0]
	}
	if c.Op == flow.OCall && c.S == "invoke.WrapPath" {
		if len(c.A) != 2 || c.A[1].Strip() != name || !c.A[0].Contains(func(x *flow.Term) bool { return x == err }) {
			fail("the error is wrapped as %v", ret)
		}
		return
	}
	if p.NilState(ret) != -1 {
		fail("%v may be nil for an error (%s)", ret, facts(p))
		return
	}
	has := func(w *flow.Term) bool { return ret.Contains(func(x *flow.Term) bool { return x == w }) }
	if !has(name) || !has(err) {
		fail("%v does not hold both the name and the error", ret)
		return
	}
	ok := false
	ret.Contains(func(x *flow.Term) bool {
		if x.Op == flow.OMkIface {
			ms := types.NewMethodSet(x.A[0].Typ)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == "WrapPath" {
					ok = true
				}
			}
		}
		return false
	})
	if !ok {
		fail("%v has no WrapPath: outer names would not join its path", ret)
	}
}

// concat flattens a string made of parts.
func concat(p *flow.Path, t *flow.Term) []*flow.Term {
	t = t.Strip()
	switch {
	case t.Op == flow.OBin && t.S == "+":
		return append(concat(p, t.A[0]), concat(p, t.A[1])...)
	case t.Op == flow.OConv && isText(t.Typ) && isText(t.A[0].Typ):
		return concat(p, t.A[0])
	case t.Op == flow.OReinterp:
		return concat(p, t.A[0])
	case t.Op == flow.OPure && t.S == "fmt.Sprintf" && len(t.A) > 0 && t.A[0].Op == flow.OConst:
		f := constant.StringVal(t.A[0].C)
		args := t.A[1:]
		var out []*flow.Term
		for {
			i := strings.IndexByte(f, '%')
			if i < 0 || i+1 >= len(f) || f[i+1] != 's' && f[i+1] != 'v' || len(args) == 0 {
				break
			}
			out = append(out, p.Str(f[:i]))
			out = append(out, concat(p, args[0])...)
			f, args = f[i+2:], args[1:]
		}
		if strings.Contains(f, "%") || len(args) > 0 {
			return []*flow.Term{t}
		}
		return append(out, p.Str(f))
	case t.Op == flow.OPure && t.S == "strings.Join" && len(t.A) == 2:
		n, ok := constInt(p.Len(t.A[0]))
		if !ok {
			return []*flow.Term{t}
		}
		var out []*flow.Term
		for i := int64(0); i < n; i++ {
			if i > 0 {
				out = append(out, concat(p, t.A[1])...)
			}
			out = append(out, concat(p, p.Elem(t.A[0], i))...)
		}
		return out
	case t.Op == flow.OSlice:
		// bytes put together by append
		if n, ok := constInt(p.Len(t)); ok {
			var out []*flow.Term
			for i := int64(0); i < n; i++ {
				b := p.Elem(t, i).Strip()
				if v, ok := constInt(b); ok {
					out = append(out, p.Str(string([]byte{byte(v)})))
				} else {
					out = append(out, b)
				}
			}
			return out
		}
		if c := p.Content(t); c != nil && c.Op == flow.OCopy && c.S == "append" {
			return append(concat(p, c.A[1]), concat(p, c.A[0])...)
		}
	case t.Op == flow.OPure && t.S == "(time.Time).AppendFormat":
		return append(concat(p, t.A[1]), t)
	}
	return []*flow.Term{t}
}

func isText(t types.Type) bool { return bytesOrString(t) }

// joined merges neighbouring constants; empty ones vanish.
func joined(ts []*flow.Term) (parts []*flow.Term, text []string) {
	for _, t := range ts {
		if t.Op == flow.OConst && t.C != nil && t.C.Kind() == constant.String {
			s := constant.StringVal(t.C)
			if s == "" {
				continue
			}
			if n := len(parts); n > 0 && parts[n-1] == nil {
				text[n-1] += s
				continue
			}
			parts, text = append(parts, nil), append(text, s)
			continue
		}
		parts, text = append(parts, t), append(text, "")
	}
	return
}

// errFields are the text and the error held by the receiver's type.
func errFields(p *flow.Path) (path, err int) {
	path, err = -1, -1
	st, ok := p.Recv().Typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			path = i
		}
		if flow.IsErr(t) {
			err = i
		}
	}
	return
}

func utilWrap(fail func(string, ...any), p *flow.Path) {
	pi, ei := errFields(p)
	if pi < 0 || ei < 0 {
		fail("no fields for the path and the error")
		return
	}
	old := func(i int) *flow.Term { return p.InitOf(p.FieldOf(p.Recv(), i)) }
	r := p.Ret[0].Strip()
	if p.NilState(r) == 1 || r.Op != flow.OMkIface {
		fail("gives %v", r)
		return
	}
	v := r.A[0]
	if _, ok := v.Typ.Underlying().(*types.Pointer); ok {
		v = p.Deref(v)
	}
	if _, ok := v.Typ.Underlying().(*types.Struct); !ok {
		fail("gives %v", r)
		return
	}
	parts, text := joined(concat(p, p.Field(v, pi)))
	if len(parts) != 3 || parts[0] != p.Params[1].Strip() || parts[1] != nil || text[1] != "." || parts[2] == nil || parts[2].Strip() != old(pi).Strip() {
		fail("the path becomes %v", p.Field(v, pi))
	}
	if p.Field(v, ei).Strip() != old(ei).Strip() {
		fail("the error becomes %v", p.Field(v, ei))
	}
}

func utilErrorText(fail func(string, ...any), p *flow.Path) {
	pi, ei := errFields(p)
	if pi < 0 || ei < 0 {
		fail("no fields for the path and the error")
		return
	}
	for _, i := range []int{pi, ei} {
		w := p.InitOf(p.FieldOf(p.Recv(), i))
		if !p.Ret[0].Contains(func(x *flow.Term) bool { return x == w }) {
			fail("%v does not hold %v", p.Ret[0], w)
		}
	}
}

func utilUnwrap(fail func(string, ...any), p *flow.Path) {
	_, ei := errFields(p)
	if ei < 0 || p.Ret[0].Strip() != p.InitOf(p.FieldOf(p.Recv(), ei)).Strip() {
		fail("gives %v", p.Ret[0])
	}
}

// parsedFrom: the time was parsed from s without an error; the result is the layout.
func parsedFrom(p *flow.Path, t, s *flow.Term) (layout string, ok bool) {
	t = t.Strip()
	for t.Op == flow.OConv {
		t = t.A[0].Strip()
	}
	if t.Op != flow.OExtract || t.I != 0 || t.A[0].Op != flow.OPure || t.A[0].S != "time.Parse" || len(t.A[0].A) != 2 {
		return "", false
	}
	c := t.A[0]
	if s != nil && c.A[1].Strip() != s.Strip() {
		return "", false
	}
	if e := p.ErrOf(c); e == nil || p.NilState(e) != 1 {
		return "", false
	}
	return constText(p, c.A[0])
}

func utilParseDateTime(fail func(string, ...any), p *flow.Path) {
	if !p.OK() {
		return
	}
	if _, ok := parsedFrom(p, p.Ret[0], p.Params[0]); !ok {
		fail("gives %v and no error (%s)", p.Ret[0], facts(p))
	}
}

// knownLayouts are the layouts parseDateTime accepts.
func knownLayouts(u *Unit) map[string]bool {
	out := map[string]bool{}
	for _, fn := range utilities(u) {
		if fn.Name() != "parseDateTime" {
			continue
		}
		e := &flow.Engine{Unit: u.Unit, Bound: 2, Inner: 2}
		for _, p := range e.Run(fn, nil) {
			if p.Abort == "" && p.OK() {
				if l, ok := parsedFrom(p, p.Ret[0], p.Params[0]); ok {
					out[l] = true
				}
			}
		}
	}
	return out
}

// timeText: t is the text of the time v in the layout.
func timeText(t, v, layout *flow.Term) bool {
	t = t.Strip()
	if t.Op != flow.OPure {
		return false
	}
	switch t.S {
	case "(time.Time).AppendFormat":
		return t.A[0].Strip() == v.Strip() && t.A[2].Strip() == layout.Strip()
	case "(time.Time).Format":
		return t.A[0].Strip() == v.Strip() && t.A[1].Strip() == layout.Strip()
	}
	return false
}

func utilWriteTime(fail func(string, ...any), p *flow.Path) {
	var ts []*flow.Term
	for _, ev := range p.Events {
		n := strings.TrimPrefix(ev.Name, "invoke.")
		if ev.Kind != "write" && (ev.Kind != "call" || n == ev.Name) {
			continue
		}
		if len(ev.Args) != 2 || ev.Args[0].Strip() != p.Params[0].Strip() {
			fail("calls %s of %v", n, ev.Recv)
			return
		}
		a := ev.Args[1]
		switch n {
		case "RawString", "Raw", "Buffer.AppendString", "Buffer.AppendBytes":
			ts = append(ts, concat(p, a)...)
		case "RawByte", "Buffer.AppendByte":
			if v, ok := constInt(a); ok {
				ts = append(ts, p.Str(string([]byte{byte(v)})))
			} else {
				ts = append(ts, a)
			}
		case "String":
			ts = append(append(append(ts, p.Str(`"`)), concat(p, a)...), p.Str(`"`))
		default:
			fail("calls %s", n)
			return
		}
	}
	parts, text := joined(ts)
	if len(parts) != 3 || text[0] != `"` || parts[1] == nil || text[2] != `"` || !timeText(parts[1], p.Params[1], p.Params[2]) {
		fail("writes %v", ts)
	}
}

func utilUnpack(fail func(string, ...any), p *flow.Path) {
	data, err := p.Params[0].Strip(), p.Params[1]
	if !p.OK() {
		return
	}
	if p.NilState(err) != 1 {
		fail("no error for an error (%s)", facts(p))
		return
	}
	r := p.Ret[0].Strip()
	if r == data {
		if _, hi := p.Interval(p.Len(data)); !hi.OK() || hi.Cmp(flow.NumOf(constant.MakeInt64(1))) > 0 {
			fail("the braces stay (%s)", facts(p))
		}
		return
	}
	if r.Op != flow.OSlice || r.A[0].Op != flow.ORegion || r.A[0].A[0].Strip() != data {
		fail("gives %v", r)
		return
	}
	lo, ok := constInt(r.A[1])
	if !ok || lo != 1 || !p.SameInt(p.Add(r.A[2], 2), p.Len(data)) {
		fail("cuts %v out of %v", r, data)
		return
	}
	first, last := p.Elem(data, 0), p.ElemAt(data, p.Add(p.Len(data), -1))
	for _, x := range []struct {
		t *flow.Term
		c int64
	}{{first, '{'}, {last, '}'}} {
		lo, hi := p.Interval(x.t)
		w := flow.NumOf(constant.MakeInt64(x.c))
		if !lo.OK() || !hi.OK() || lo.Cmp(w) != 0 || hi.Cmp(w) != 0 {
			fail("cuts %v without knowing that it is %q", x.t, rune(x.c))
		}
	}
}
