package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"vjcheck/flow"
)

// What a decoder reads and where it puts it.

const (
	mAbsent = 1 << iota
	mNull
	mData
)

// jparam is the JSON value parameter of FillFromJSON and validate.
func jparam(p *flow.Path) *flow.Term {
	for _, t := range p.Params[1:] {
		if isJSON(t.Typ) {
			return t
		}
	}
	return nil
}

func isJSON(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && typeName(pt.Elem()) == "github.com/valyala/fastjson.Value"
}

// lookups are the values of the parameter's members that a path asked for, by key.
func lookups(p *flow.Path) map[string]*flow.Term {
	v := jparam(p)
	out := map[string]*flow.Term{}
	for _, ev := range p.Events {
		if ev.Kind != "get" || len(ev.Args) != 2 || ev.Recv.Strip() != v && !objectTerm(ev.Recv, v) {
			continue
		}
		if s, ok := constText(p, ev.Args[1]); ok {
			out[s] = ev.Res
		}
	}
	return out
}

// objectTerm: t is the object form of v.
func objectTerm(t, v *flow.Term) bool {
	t = t.Strip()
	return t.Op == flow.OExtract && t.I == 0 && t.A[0].Op == flow.OPure && t.A[0].S == "json.Object" && t.A[0].A[0].Strip() == v
}

// mode is what a path knows about a JSON value: which of absent, null and data it may be.
func mode(p *flow.Path, jv *flow.Term) int {
	m := mAbsent | mNull | mData
	switch p.NilState(jv) {
	case 1:
		return mAbsent
	case -1:
		m &^= mAbsent
	}
	switch p.IsNull(jv) {
	case 1:
		m &^= mData
		if m&mAbsent != 0 {
			m = mNull // its type was asked for
		}
	case -1:
		m = mData
	}
	for t, is := range p.BoolFacts() {
		if t.Op == flow.OPure && t.S == "valueIsNotNull" && t.A[0].Strip() == jv.Strip() {
			if is {
				m &= mData
			} else {
				m &^= mData
			}
		}
	}
	for _, ev := range p.Events {
		if ev.Kind == "call" && strings.HasPrefix(ev.Name, "json.") && ev.Recv != nil && ev.Recv.Strip() == jv.Strip() {
			if e := p.ErrOf(ev.Res); e != nil && p.NilState(e) == 1 {
				m &= mData
			}
		}
	}
	return m
}

func modeText(m int) string {
	var s []string
	for i, n := range []string{"absent", "null", "a value"} {
		if m&(1<<i) != 0 {
			s = append(s, n)
		}
	}
	return strings.Join(s, " or ")
}

type dmatcher struct {
	p *flow.Path
	u *Unit
	f *Fld
}

// from strips conversions between got and a call result; the result is the call and its component.
func from(got *flow.Term) (call *flow.Term, i int) {
	got = got.Strip()
	for got.Op == flow.OConv || got.Op == flow.OReinterp {
		got = got.A[0].Strip()
	}
	if got.Op == flow.OExtract {
		return got.A[0], got.I
	}
	return got, 0
}

// isJSONOf: t is the first result of a json extraction of jv.
func isJSONOf(t, jv *flow.Term, names ...string) bool {
	c, i := from(t)
	if c.Op != flow.OPure || i != 0 || len(c.A) == 0 || c.A[0].Strip() != jv.Strip() {
		return false
	}
	for _, n := range names {
		if c.S == "json."+n {
			return true
		}
	}
	return false
}

// match checks that got, of type typ, is what jv decodes to; the result says what is wrong.
func (d *dmatcher) match(got, jv *flow.Term, typ types.Type) string {
	p := d.p
	got = got.Strip()
	bad := func() string { return fmt.Sprintf("holds %v, which is not the decoded %v", got, jv) }
	if w, ok := d.special(got, jv, typ); ok {
		return w
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		switch p.NilState(got) {
		case 1:
			if mode(p, jv)&mData == 0 {
				return ""
			}
			return fmt.Sprintf("stays nil although %v has data", jv)
		}
		return d.match(p.Deref(got), jv, u.Elem())
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if isJSONOf(got, jv, "Bool") {
				return ""
			}
			if b, ok := boolConst(got); ok {
				for t, is := range p.BoolFacts() {
					if isJSONOf(t, jv, "Bool") && is == b {
						return ""
					}
				}
			}
		case u.Info()&types.IsInteger != 0:
			if isJSONOf(got, jv, "Int", "Int64", "Uint", "Uint64") {
				return ""
			}
		case u.Info()&types.IsFloat != 0:
			if isJSONOf(got, jv, "Float64") {
				return ""
			}
		case u.Info()&types.IsString != 0:
			if isJSONOf(got, jv, "StringBytes") {
				return ""
			}
		}
		return bad()
	case *types.Struct:
		return bad()
	case *types.Array:
		arr := d.array(jv)
		if arr == nil {
			return bad()
		}
		for i := int64(0); i < u.Len() && i < 4; i++ {
			if w := d.elem(p.Elem(got, i), p.Elem(arr, i), u.Elem()); w != "" {
				return fmt.Sprintf("element %d %s", i, w)
			}
		}
		return ""
	case *types.Slice:
		arr := d.array(jv)
		if arr == nil {
			return bad()
		}
		n, ok := d.known(p.Len(arr))
		k, ok2 := d.known(p.Len(got))
		if !ok || !ok2 {
			if p.Len(got) != p.Len(arr) {
				return fmt.Sprintf("has %v elements for %v", p.Len(got), p.Len(arr))
			}
			return ""
		}
		if n != k {
			return fmt.Sprintf("has %d elements for %d in the document", k, n)
		}
		if n > 0 && p.NilState(got) == 1 {
			return "stays nil"
		}
		for i := int64(0); i < n; i++ {
			if w := d.elem(p.Elem(got, i), p.Elem(arr, i), u.Elem()); w != "" {
				return fmt.Sprintf("element %d %s", i, w)
			}
		}
		return ""
	case *types.Map:
		var obj *flow.Term
		n := int64(-1)
		for _, ev := range p.Events {
			if ev.Kind == "iter-end" && ev.Name == "Visit" && objectTerm(ev.Addr, jv) {
				obj = ev.Addr
				n, _ = constant.Int64Val(ev.Args[0].C)
			}
		}
		if obj == nil {
			return bad()
		}
		set := map[int]bool{}
		mt := got.Strip()
		for mt.Op == flow.OConv {
			mt = mt.A[0].Strip()
		}
		for _, ev := range p.Events {
			a := ev.Addr
			if ev.Kind != "mapset" {
				continue
			}
			for a = a.Strip(); a.Op == flow.OConv; {
				a = a.A[0].Strip()
			}
			if a != mt {
				continue
			}
			k, _ := from(ev.Args[0])
			if k.Op != flow.OPure || k.S != "json.key" || k.A[0] != obj {
				return fmt.Sprintf("entry %v is no key of %v", ev.Args[0], jv)
			}
			w := d.elem(ev.Val, p.Member(obj, k.I), u.Elem())
			if w != "" {
				return fmt.Sprintf("entry %d %s", k.I, w)
			}
			set[k.I] = true
		}
		for i := 0; i < int(n); i++ {
			if !set[i] {
				return fmt.Sprintf("lacks entry %d of %v", i, jv)
			}
		}
		return ""
	}
	return bad()
}

// elem matches an element, which may be null.
func (d *dmatcher) elem(got, jv *flow.Term, typ types.Type) string {
	if m := mode(d.p, jv); m&mData == 0 {
		if d.p.Zeroness(got) == 1 {
			return ""
		}
		if d.stale(got) {
			return fmt.Sprintf("is null in the document and keeps %v", got)
		}
		return fmt.Sprintf("is null in the document and becomes %v", got)
	}
	return d.match(got, jv, typ)
}

// stale: an initial value.
func (d *dmatcher) stale(t *flow.Term) bool {
	return t.Contains(func(x *flow.Term) bool { return x.Op == flow.OInit })
}

func (d *dmatcher) known(t *flow.Term) (int64, bool) {
	lo, hi := d.p.Interval(t)
	if !lo.OK() || !hi.OK() || lo.Cmp(hi) != 0 {
		return 0, false
	}
	for i := int64(0); i < 64; i++ {
		if lo.Cmp(flow.NumOf(constant.MakeInt64(i))) == 0 {
			return i, true
		}
	}
	return 0, false
}

// array is the element list of jv on this path.
func (d *dmatcher) array(jv *flow.Term) *flow.Term {
	for _, ev := range d.p.Events {
		if ev.Kind == "call" && ev.Name == "json.Array" && ev.Recv.Strip() == jv.Strip() {
			return d.p.Extract(ev.Res, 0)
		}
	}
	return nil
}

func boolConst(t *flow.Term) (bool, bool) {
	t = t.Strip()
	for t.Op == flow.OConv {
		t = t.A[0]
	}
	if t.Op == flow.OConst && t.C != nil && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

// special handles times, UUIDs, bytes and values with their own decoder.
func (d *dmatcher) special(got, jv *flow.Term, typ types.Type) (string, bool) {
	bad := fmt.Sprintf("holds %v, which is not the decoded %v", got, jv)
	g := got.Strip()
	for g.Op == flow.OConv {
		g = g.A[0].Strip()
	}
	if g.Op == flow.OPure && g.S == "filled" {
		if len(g.A) > 1 && g.A[1].Strip() == jv.Strip() {
			if g.A[0].Contains(func(x *flow.Term) bool {
				return x.Op == flow.OPure && (strings.HasPrefix(x.S, "json.") || x.S == "filled")
			}) {
				return fmt.Sprintf("is decoded on top of %v", g.A[0]), true
			}
			return "", true
		}
		return bad, true
	}
	switch {
	case isTime(typ):
		c, i := from(got)
		if c.Op == flow.OPure && i == 0 && len(c.A) > 0 {
			switch c.S {
			case "parseDateTime", "parseDate", "time.Parse":
				if isJSONOf(c.A[len(c.A)-1], jv, "StringBytes") {
					return "", true
				}
			}
		}
		return bad, true
	case isUUID(typ):
		c, i := from(got)
		if c.Op == flow.OPure && i == 0 && len(c.A) == 1 && strings.HasPrefix(c.S, "uuid.Parse") && isJSONOf(c.A[0], jv, "StringBytes") {
			return "", true
		}
		return bad, true
	case isByteSeq(typ):
		if a, ok := typ.Underlying().(*types.Array); ok && a.Len() == 16 {
			// type T uuid.UUID
			if c, _ := from(got); c.Op == flow.OPure && strings.HasPrefix(c.S, "uuid.") {
				return d.special(got, jv, uuidType(d.u))
			}
		}
		if d.array(jv) != nil && !byteWord(typ) {
			return "", false
		}
		return d.bytes(got, jv, typ), true
	}
	return "", false
}

func uuidType(u *Unit) types.Type {
	for _, p := range u.Main.Types.Imports() {
		if p.Path() == "github.com/google/uuid" {
			return p.Scope().Lookup("UUID").Type()
		}
	}
	return types.Typ[types.Invalid]
}

func isUUID(t types.Type) bool {
	if typeName(t) == "github.com/google/uuid.UUID" {
		return true
	}
	return false
}

// likeUUID: uuid.UUID or a type declared from it.
func likeUUID(t types.Type) bool {
	if isUUID(t) {
		return true
	}
	a, ok := t.Underlying().(*types.Array)
	if _, named := t.(*types.Named); !ok || !named || a.Len() != 16 {
		return false
	}
	b, ok := a.Elem().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// bytes: the base64 text decoded as a whole.
func (d *dmatcher) bytes(got, jv *flow.Term, typ types.Type) string {
	p := d.p
	bad := fmt.Sprintf("holds %v, which is not the decoded base64 text of %v", got, jv)
	if _, ok := typ.Underlying().(*types.Array); ok {
		// filled in place or copied
		for _, ev := range p.Events {
			if ev.Kind == "fill" && ev.Val != nil {
				if ok, _ := d.decodes(ev.Val, jv); ok && got.Contains(func(x *flow.Term) bool { return x == ev.Val }) {
					return ""
				}
			}
		}
		if ok, _ := d.decodes(got, jv); ok {
			return ""
		}
		return bad
	}
	c, i := from(got)
	if c.Op == flow.OPure && i == 0 && c.S == "(*encoding/base64.Encoding).DecodeString" && stdEncoding(c.A[0]) && isJSONOf(c.A[1], jv, "StringBytes") {
		return ""
	}
	if got.Op != flow.OSlice {
		return bad
	}
	c = p.Content(got)
	if c == nil {
		return bad
	}
	if ok, w := d.decodes(c, jv); !ok {
		return bad + w
	}
	// exactly the decoded bytes
	if got.A[1].Op != flow.OConst || constant.Sign(got.A[1].C) != 0 {
		return bad
	}
	n := got.A[2]
	for n.Op == flow.OConv {
		n = n.A[0]
	}
	if n.Op != flow.OExtract || n.A[0] != c || n.I != 0 {
		return fmt.Sprintf("has the length %v instead of that of the decoded bytes", n)
	}
	return ""
}

// decodes: t is the decoding of jv's text into a buffer.
func (d *dmatcher) decodes(t, jv *flow.Term) (bool, string) {
	if t.Op == flow.OCopy && len(t.A) > 0 {
		s := t.A[0].Strip()
		if c := d.p.Content(s); c != nil {
			return d.decodes(c, jv)
		}
		c, i := from(s)
		if c.Op == flow.OPure && i == 0 && c.S == "(*encoding/base64.Encoding).DecodeString" {
			return stdEncoding(c.A[0]) && isJSONOf(c.A[1], jv, "StringBytes"), ""
		}
	}
	if t.Op != flow.OPure || t.S != "(*encoding/base64.Encoding).Decode" || len(t.A) < 3 {
		return false, ""
	}
	if !stdEncoding(t.A[0]) {
		return false, fmt.Sprintf(" (alphabet %v)", t.A[0])
	}
	return isJSONOf(t.A[2], jv, "StringBytes"), ""
}
