package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"vjcheck/flow"
	"vjcheck/scen"
)

var fillOnly = map[string]bool{"FillFromJSON": true}
var fillMethods = map[string]bool{"FillFromJSON": true, "UnmarshalJSON": true, "validate": true}

func init() {
	register(&Prop{
		ID:      "C03",
		Rule:    "Error-flow analysis: on every path of every emitted UnmarshalJSON, FillFromJSON and validate that returns a nil error, the error of each call that can fail is known to be nil at the return, no error was constructed, and nothing computed by a call reached the receiver before the call's error was examined.",
		Methods: fillMethods, Method: c03,
		Min:     map[string]int{"error results": 10000},
		Trusted: []string{trustAbs, trustFlow, trustLoop, trustDec},
	})
	register(&Prop{
		ID:      "C05",
		Rule:    "Key agreement: the constant keys a struct's decoder looks up, its validate compares with and its encoder writes (on any path) are each compared with the json tags as Go reads them; ignored fields keep their initial memory in the decoder and contribute nothing to the encoder; the outermost name of every decoding error is the key of the value it is about.",
		Methods: map[string]bool{"FillFromJSON": true, "validate": true, "MarshalTo": true}, Method: c05,
		Min:     map[string]int{"keys compared": 10000},
		Trusted: []string{trustAbs, trustFlow, trustLoop},
	})
	register(&Prop{
		ID:      "C09",
		Rule:    "Path condition analysis: on every path of an emitted struct decoder where a key may be absent, a required field makes the result an error and a field with a default ends with a value computed from exactly the text of the tag, any other field with its initial memory; where the key has a value, no error is raised for its absence.",
		Methods: fillOnly, Method: c09,
		Min:     map[string]int{"absence decisions": 3000},
		Trusted: []string{trustAbs, trustFlow, trustLoop, trustDec},
	})
	register(&Prop{
		ID:      "C16",
		Rule:    "Path condition analysis: on paths of emitted decoders where a member, element or entry may be null, no extraction of it fails if its destination is a pointer, slice, map or array, and if the path succeeds the destination ends with its initial memory, a zero value or the default.",
		Methods: fillOnly, Method: c16,
		Min:     map[string]int{"null decisions": 3000},
		Trusted: []string{trustAbs, trustFlow, trustLoop, trustDec},
	})
	register(&Prop{
		ID:      "C18",
		Rule:    "Wrapper-chain analysis: for every failing path of an emitted decoder the JSON value the cause is about is traced to its place in the document, and the names wrapped around the cause are compared with the keys and indices of that place, outermost first; a failing call's own error must be the cause.",
		Methods: fillMethods, Method: c18,
		Min:     map[string]int{"error paths": 3000},
		Trusted: []string{trustAbs, trustFlow, trustLoop, trustDec},
	})
}

// rooted: the address lies in the receiver.
func rooted(p *flow.Path, a *flow.Term) bool {
	r := p.Recv()
	return a != nil && a.Contains(func(x *flow.Term) bool { return x == r })
}

func c03(r *R, m *M) {
	for _, p := range m.Paths {
		if p.Crash != nil || !p.OK() {
			continue
		}
		for n, ev := range p.Events {
			if ev.Kind != "call" || ev.Res == nil {
				continue
			}
			if constructor(ev.Name) {
				if ev.Name == "newParsingError" {
					continue
				}
				r.Count("error results", 1)
				m.report(r, "error returned", m.about(p, ev)+"constructed", ev.Pos, "the error %v is made on a path that returns nil (%s)", ev.Res, facts(p))
				continue
			}
			e := p.ErrOf(ev.Res)
			if e == nil {
				continue
			}
			r.Count("error results", 1)
			if p.NilState(e) != 1 {
				m.report(r, "error returned", m.about(p, ev)+ev.Name, ev.Pos, "%s may fail on a path that returns nil: %v is never examined", ev.Name, e)
				continue
			}
			when := p.NilWhen(e)
			for _, st := range p.Events[n+1:] {
				if st.Kind != "store" && st.Kind != "mapset" {
					continue
				}
				if st.Kind == "store" && !rooted(p, st.Addr) {
					continue
				}
				at := indexOf(p.Events, st)
				if at >= when {
					break
				}
				if st.Val != nil && st.Val.Contains(func(x *flow.Term) bool { return x.Op == flow.OExtract && x.A[0] == ev.Res }) {
					m.report(r, "examined before use", m.about(p, ev)+ev.Name, st.Pos, "the result of %s is stored before its error is examined", ev.Name)
				}
			}
		}
	}
}

func indexOf(es []*flow.Event, e *flow.Event) int {
	for i, x := range es {
		if x == e {
			return i
		}
	}
	return -1
}

// about names the field an event works for.
func (m *M) about(p *flow.Path, ev *flow.Event) string {
	v := jparam(p)
	if v == nil {
		return ""
	}
	for _, t := range append([]*flow.Term{ev.Recv}, ev.Args...) {
		if t == nil {
			continue
		}
		for _, j := range jsonIn(t) {
			if st, ok := place(p, j, v); ok && len(st) > 0 {
				return m.stepsRole(st) + " "
			}
		}
	}
	return ""
}

// stepsRole describes a place without chosen names.
func (m *M) stepsRole(st []step) string {
	var out []string
	for i, s := range st {
		switch {
		case s.kt != nil:
			out = append(out, "entry")
		case s.isIdx:
			out = append(out, "element")
		default:
			role := s.key
			if i == 0 {
				for _, f := range m.D.Fields {
					if f.Key == s.key {
						role = f.Role
					}
				}
			}
			out = append(out, role)
		}
	}
	return strings.Join(out, ".")
}

// ---- C05

func (m *M) keys() (keys map[string]*Fld, vague bool) {
	keys = map[string]*Fld{}
	for _, f := range m.D.Fields {
		if f.Vague {
			vague = true
		}
		if f.Ignored || f.Vague || f.Raw {
			continue
		}
		keys[f.Key] = f
	}
	return
}

func c05(r *R, m *M) {
	if !m.D.Struct {
		return
	}
	keys, vague := m.keys()
	switch m.Name {
	case "MarshalTo":
		for _, p := range m.Paths {
			if !p.OK() || p.NilState(p.Params[0]) == 1 {
				continue
			}
			root := objectOf(p)
			if root == nil {
				r.Count("paths left to C04", 1)
				continue
			}
			for _, mm := range root.mem {
				if mm.raw != nil || mm.kv != nil {
					continue
				}
				r.Count("keys compared", 1)
				if keys[mm.key] == nil && !vague {
					m.report(r, "same key", "writes another key", mm.pos, "the encoder writes the key %q; the declared keys are %s", mm.key, keyList(keys))
				}
				for _, f := range m.D.Fields {
					a := p.InitOf(fieldAddr(p, f))
					own := mm.val != nil && mm.val.kind == 'v' && mm.val.pc != nil && mm.val.pc.val != nil && mm.val.pc.val.Contains(func(x *flow.Term) bool { return x == a })
					if !own {
						continue
					}
					if f.Ignored {
						m.report(r, "ignored field", f.Role, mm.pos, "the field is tagged \"-\" and written under %q", mm.key)
					} else if !f.Vague && !f.Raw && f.Key != mm.key {
						m.report(r, "same key", f.Role, mm.pos, "the field is written under %q; its tag says %q", mm.key, f.Key)
					}
				}
			}
		}
		// every key is written somewhere
		for k, f := range keys {
			r.Count("keys compared", 1)
			found := false
			some := false
			for _, p := range m.Paths {
				if !p.OK() || p.NilState(p.Params[0]) == 1 {
					continue
				}
				root := objectOf(p)
				if root == nil {
					continue
				}
				some = true
				for _, mm := range root.mem {
					found = found || mm.raw == nil && mm.kv == nil && mm.key == k
				}
			}
			if some && !found {
				m.report(r, "same key", f.Role+" written", m.Fn.Pos(), "no path of the encoder writes the key %q", k)
			}
		}
	case "validate":
		seen := map[string]bool{}
		for _, p := range m.Paths {
			for t := range p.BoolFacts() {
				k, s, ok := m.keyTest(p, t)
				if !ok {
					continue
				}
				_ = k
				r.Count("keys compared", 1)
				seen[s] = true
				if keys[s] == nil && !vague {
					m.report(r, "same key", "checks another key", m.Fn.Pos(), "validate counts the key %q; the declared keys are %s", s, keyList(keys))
				}
			}
		}
		for k, f := range keys {
			r.Count("keys compared", 1)
			if !seen[k] {
				m.report(r, "same key", f.Role+" checked", m.Fn.Pos(), "validate never looks for the key %q", k)
			}
		}
	case "FillFromJSON":
		seen := map[string]bool{}
		for _, p := range m.Paths {
			if p.Crash != nil {
				continue
			}
			for k := range lookups(p) {
				r.Count("keys compared", 1)
				seen[k] = true
				if keys[k] == nil && !vague {
					m.report(r, "same key", "reads another key", m.Fn.Pos(), "the decoder looks for the key %q; the declared keys are %s", k, keyList(keys))
				}
			}
			if p.OK() {
				for _, f := range m.D.Fields {
					if !f.Ignored {
						continue
					}
					r.Count("keys compared", 1)
					a := fieldAddr(p, f)
					if p.Load(a) != p.InitOf(a) {
						m.report(r, "ignored field", f.Role, storePos(p, a, m), "the field is tagged \"-\" and becomes %v", p.Load(a))
					}
				}
				continue
			}
			v := jparam(p)
			names, cause := chain(p.Err())
			o, ok := origin(p, cause)
			if !ok {
				continue
			}
			st, ok := place(p, o, v)
			if !ok || len(st) == 0 || st[0].kt != nil || st[0].isIdx {
				continue
			}
			r.Count("keys compared", 1)
			if len(names) == 0 || !isStep(p, names[0], st[0]) {
				m.report(r, "error names the key", m.stepsRole(st[:1])+" as "+shape(p, names, st), errPos(p, m), "an error about %v, the value of %q, is named %v", o, st[0].key, names)
			}
		}
		for k, f := range keys {
			r.Count("keys compared", 1)
			if !seen[k] {
				m.report(r, "same key", f.Role+" read", m.Fn.Pos(), "no path of the decoder looks for the key %q", k)
			}
		}
	}
}

// errPos is where the last error was made or met.
func errPos(p *flow.Path, m *M) token.Pos {
	for i := len(p.Events) - 1; i >= 0; i-- {
		if ev := p.Events[i]; ev.Kind == "call" && ev.Pos.IsValid() {
			return ev.Pos
		}
	}
	return m.Fn.Pos()
}

func keyList(ks map[string]*Fld) string {
	var s []string
	for k := range ks {
		s = append(s, fmt.Sprintf("%q", k))
	}
	return strings.Join(s, " ")
}

// keyTest: t compares the key of a visited member with a constant.
// Byte literals of the emitted code spell abstract text letter by letter.
func (m *M) keyTest(p *flow.Path, t *flow.Term) (key *flow.Term, s string, ok bool) {
	key, s, ok = keyTest(p, t)
	return key, scen.Render(m.U.Case.Atoms, s), ok
}

func keyTest(p *flow.Path, t *flow.Term) (key *flow.Term, s string, ok bool) {
	if t.Op != flow.OBin || t.S != "==" {
		if t.Op == flow.OPure && (t.S == "bytes.EqualFold" || t.S == "strings.EqualFold") && len(t.A) == 2 {
			// compares another way
			for i := range t.A {
				if k := keyTerm(t.A[i]); k != nil {
					if s, ok := constText(p, t.A[1-i]); ok {
						return k, s + " (ignoring case)", true
					}
				}
			}
		}
		return nil, "", false
	}
	for i := range t.A {
		k := keyTerm(t.A[i])
		if k == nil {
			continue
		}
		c := t.A[1-i].Strip()
		for c.Op == flow.OConv {
			c = c.A[0].Strip()
		}
		if c.Op == flow.OConst && c.C != nil && c.C.Kind() == constant.String {
			return k, constant.StringVal(c.C), true
		}
		if s, ok := constText(p, c); ok {
			return k, s, true
		}
	}
	return nil, "", false
}

func keyTerm(t *flow.Term) *flow.Term {
	t = t.Strip()
	for t.Op == flow.OConv || t.Op == flow.OReinterp {
		t = t.A[0].Strip()
	}
	if t.Op == flow.OPure && t.S == "json.key" {
		return t
	}
	return nil
}

// ---- C09

func c09(r *R, m *M) {
	if !m.D.Struct {
		return
	}
	dup := m.dup()
	for _, p := range m.Paths {
		if p.Crash != nil {
			continue
		}
		v := jparam(p)
		got := lookups(p)
		if p.OK() {
			for _, f := range m.D.Fields {
				if f.Ignored || f.Vague || f.Raw || dup[f.Key] > 1 {
					continue
				}
				jv := got[f.Key]
				mo := mAbsent | mNull | mData
				if jv != nil {
					mo = mode(p, jv)
				}
				if mo&mAbsent == 0 || mo&mData != 0 && jv != nil {
					if f.Req && !f.HasDefault && mo == mNull && isRef(f.Typ) {
						r.Count("absence decisions", 1)
						m.report(r, "required", f.Role, m.Fn.Pos(), "the required key %q is null and the decoder succeeds", f.Key)
					}
					continue
				}
				r.Count("absence decisions", 1)
				a := fieldAddr(p, f)
				have := p.Load(a)
				switch {
				case f.Req && f.HasDefault && isDefault(p, have, f.Typ, f.Default, f) == "":
				case f.Req:
					m.report(r, "required", f.Role, m.Fn.Pos(), "the decoder succeeds while the required key %q is %s", f.Key, modeText(mo))
				case f.HasDefault:
					if w := isDefault(p, have, f.Typ, f.Default, f); w != "" {
						m.report(r, "default", f.Role, storePos(p, a, m), "without the key %q the field %s; its default is %q", f.Key, w, f.Default)
					}
				default:
					if have != p.InitOf(a) && !sameMem(p, a, f.Typ) {
						m.report(r, "left alone", f.Role, storePos(p, a, m), "without the key %q the field becomes %v", f.Key, have)
					}
				}
			}
			continue
		}
		names, cause := chain(p.Err())
		if !constructed(cause) || len(names) == 0 {
			continue
		}
		k, ok := constText(p, names[0])
		if !ok {
			continue
		}
		if o, ok := origin(p, cause); ok {
			if st, ok := place(p, o, v); ok && len(st) > 0 {
				continue // about a value
			}
		}
		jv := got[k]
		r.Count("absence decisions", 1)
		var fl *Fld
		for _, f := range m.D.Fields {
			if f.Key == k && !f.Raw && !f.Ignored {
				fl = f
			}
		}
		if fl == nil {
			continue // C05
		}
		if jv == nil || mode(p, jv)&(mAbsent|mNull) == 0 {
			if len(cause.A) > 1 || jv != nil && aboutValue(p, jv) {
				continue
			}
			m.report(r, "error only when absent", fl.Role, errPos(p, m), "the error %v is raised although %q has a value", cause, k)
			continue
		}
		if !fl.Req {
			m.report(r, "error only if required", fl.Role, errPos(p, m), "the error %v is raised for the absent key %q, which is not required", cause, k)
		}
	}
}

// aboutValue: the last condition of a path looks into a value.
func aboutValue(p *flow.Path, jv *flow.Term) bool {
	if len(p.Facts) == 0 {
		return false
	}
	t := p.Facts[len(p.Facts)-1].T
	in := false
	t.Contains(func(x *flow.Term) bool {
		if (x.Op == flow.OPure && strings.HasPrefix(x.S, "json.") && x.S != "json.Type" && x.S != "json.Get") && len(x.A) > 0 && x.A[0].Strip() == jv.Strip() {
			in = true
		}
		return in
	})
	return in
}

// sameMem: the memory at a still holds its initial value.
func sameMem(p *flow.Path, a *flow.Term, typ types.Type) bool {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			b := p.FieldOf(a, i)
			if p.Load(b) != p.InitOf(b) && !sameMem(p, b, u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// isDefault checks that val is the value of the text of a default.
func isDefault(p *flow.Path, val *flow.Term, typ types.Type, text string, f *Fld) string {
	val = val.Strip()
	bad := func() string { return fmt.Sprintf("becomes %v", val) }
	for val.Op == flow.OConv && !(isBasic(val.Typ, types.IsNumeric) && isBasic(val.A[0].Typ, types.IsNumeric)) {
		val = val.A[0].Strip()
	}
	if isTime(typ) {
		c, i := from(val)
		if c.Op == flow.OPure && i == 0 {
			switch c.S {
			case "parseDateTime", "parseDate":
				if s, ok := constText(p, c.A[0]); ok && s == text {
					return ""
				}
			case "time.Parse":
				if s, ok := constText(p, c.A[1]); ok && s == text {
					return ""
				}
			}
		}
		return bad()
	}
	if isUUID(typ) {
		c, i := from(val)
		if c.Op == flow.OPure && i == 0 && len(c.A) == 1 && (strings.HasPrefix(c.S, "github.com/google/uuid.") || strings.HasPrefix(c.S, "uuid.")) {
			if s, ok := constText(p, c.A[0]); ok && s == text {
				return ""
			}
		}
		return bad()
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if p.NilState(val) != -1 {
			return "stays nil"
		}
		return isDefault(p, p.Deref(val), u.Elem(), text, f)
	case *types.Basic:
		c := constOf(val)
		if c == nil {
			return bad()
		}
		switch {
		case u.Info()&types.IsString != 0:
			if c.Kind() == constant.String && constant.StringVal(c) == text {
				return ""
			}
		case u.Info()&types.IsBoolean != 0:
			if c.Kind() == constant.Bool && fmt.Sprint(constant.BoolVal(c)) == strings.ToLower(strings.TrimSpace(text)) {
				return ""
			}
		case u.Info()&types.IsNumeric != 0:
			w := numLit(strings.TrimSpace(text))
			if w.Kind() == constant.Unknown {
				return bad()
			}
			if u.Info()&types.IsFloat != 0 {
				if u.Kind() == types.Float32 {
					a, _ := constant.Float32Val(constant.ToFloat(c))
					b, _ := constant.Float32Val(constant.ToFloat(w))
					if a == b {
						return ""
					}
					return bad()
				}
				a, _ := constant.Float64Val(constant.ToFloat(c))
				b, _ := constant.Float64Val(constant.ToFloat(w))
				if a == b {
					return ""
				}
				return bad()
			}
			if constant.Compare(c, token.EQL, w) {
				return ""
			}
		}
	}
	return bad()
}

func isBasic(t types.Type, info types.BasicInfo) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&info != 0
}

// constOf folds conversions of a numeric constant.
func constOf(t *flow.Term) constant.Value {
	for t.Op == flow.OConv {
		t = t.A[0]
	}
	if t.Op == flow.OZero {
		return nil
	}
	if t.Op == flow.ONeg {
		if c := constOf(t.A[0]); c != nil {
			return constant.UnaryOp(token.SUB, c, 0)
		}
	}
	if t.Op == flow.OConst {
		return t.C
	}
	return nil
}

func numLit(s string) constant.Value {
	neg := false
	for strings.HasPrefix(s, "-") || strings.HasPrefix(s, "+") {
		if s[0] == '-' {
			neg = !neg
		}
		s = s[1:]
	}
	c := constant.MakeFromLiteral(s, token.INT, 0)
	if c.Kind() == constant.Unknown {
		c = constant.MakeFromLiteral(s, token.FLOAT, 0)
	}
	if neg && c.Kind() != constant.Unknown {
		c = constant.UnaryOp(token.SUB, c, 0)
	}
	return c
}

// ---- C16

func c16(r *R, m *M) {
	dup := m.dup()
	for _, p := range m.Paths {
		if p.Crash != nil {
			continue
		}
		v := jparam(p)
		if !p.OK() {
			_, cause := chain(p.Err())
			t := failing(cause)
			if t == nil {
				if constructed(cause) {
					continue
				}
				if t, _ = origin(p, cause); t == nil {
					continue
				}
			}
			st, ok := place(p, t, v)
			if !ok || len(st) == 0 {
				continue
			}
			dt := m.destType(st)
			if dt == nil || !isRef(dt) || isNamedDecoder(dt) || likeUUID(dt) {
				continue
			}
			r.Count("null decisions", 1)
			if mode(p, t)&mNull != 0 {
				m.report(r, "null is no error", m.stepsRole(st), errPos(p, m), "%v may be null and %v fails for it; its destination is a %s", t, cause, typeText(dt))
			}
			continue
		}
		if !m.D.Struct {
			if mode(p, v)&mData == 0 {
				continue
			}
			w := (&nuller{p, m, r}).walk(p.Load(p.Recv()), v, m.D.Named)
			if w != "" {
				m.report(r, "null stores nothing", "", m.Fn.Pos(), "%s", w)
			}
			continue
		}
		got := lookups(p)
		for _, f := range m.D.Fields {
			if f.Ignored || f.Vague || f.Raw || dup[f.Key] > 1 {
				continue
			}
			jv := got[f.Key]
			if jv == nil {
				continue
			}
			a := fieldAddr(p, f)
			have := p.Load(a)
			mo := mode(p, jv)
			n := &nuller{p, m, r}
			if mo&mNull == 0 || mo&mData != 0 {
				if w := n.walk(have, jv, f.Typ); w != "" {
					m.report(r, "null stores nothing", f.Role+" inner", storePos(p, a, m), "key %q: %s", f.Key, w)
				}
				continue
			}
			r.Count("null decisions", 1)
			if have == p.InitOf(a) || sameMem(p, a, f.Typ) || p.Zeroness(have) == 1 || emptied(p, have) {
				continue
			}
			if f.HasDefault && isDefault(p, have, f.Typ, f.Default, f) == "" {
				continue
			}
			m.report(r, "null stores nothing", f.Role, storePos(p, a, m), "%q may be null and the field becomes %v", f.Key, have)
		}
	}
}

func emptied(p *flow.Path, v *flow.Term) bool {
	switch v.Typ.Underlying().(type) {
	case *types.Slice, *types.Map:
		_, max := lenRange(p, v)
		return max == 0
	}
	return false
}

// isNamedDecoder: the type decodes itself.
func isNamedDecoder(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		return isNamedDecoder(p.Elem())
	}
	return false
}

// destType is the type a place of the document is decoded into.
func (m *M) destType(st []step) types.Type {
	var t types.Type
	rest := st
	if m.D.Struct {
		for _, f := range m.D.Fields {
			if !f.Raw && !f.Ignored && !f.Vague && f.Key == st[0].key {
				t = f.Typ
			}
		}
		rest = st[1:]
	} else {
		t = m.D.Named
	}
	for range rest {
		if t == nil {
			return nil
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Array, *types.Map:
			t = flow.ElemType(t)
		default:
			return nil
		}
	}
	return t
}

type nuller struct {
	p *flow.Path
	m *M
	r *R
}

// walk looks at the elements and entries of a decoded value that may be null.
func (n *nuller) walk(got, jv *flow.Term, typ types.Type) string {
	p := n.p
	d := &dmatcher{p, n.m.U, nil}
	got = got.Strip()
	elem := func(g, j *flow.Term, et types.Type, what string) string {
		if mo := mode(p, j); mo&mData == 0 {
			n.r.Count("null decisions", 1)
			if p.Zeroness(g) == 1 || emptied(p, g) {
				return ""
			}
			return fmt.Sprintf("the %s is null in the document and becomes %v", what, g)
		}
		return n.walk(g, j, et)
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if p.NilState(got) == -1 {
			return n.walk(p.Deref(got), jv, u.Elem())
		}
	case *types.Slice, *types.Array:
		arr := d.array(jv)
		if arr == nil {
			return ""
		}
		k, ok := d.known(p.Len(got))
		l, ok2 := d.known(p.Len(arr))
		if !ok || !ok2 {
			return ""
		}
		if l < k {
			k = l
		}
		for i := int64(0); i < k && i < 8; i++ {
			if w := elem(p.Elem(got, i), p.Elem(arr, i), flow.ElemType(typ), "element"); w != "" {
				return w
			}
		}
	case *types.Map:
		for _, ev := range p.Events {
			if ev.Kind != "mapset" || ev.Val == nil {
				continue
			}
			k, _ := from(ev.Args[0])
			if k.Op != flow.OPure || k.S != "json.key" || !objectTerm(k.A[0], jv) {
				continue
			}
			if j := p.Member(k.A[0], k.I); j != nil {
				if w := elem(ev.Val, j, u.Elem(), "entry"); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

// ---- C18

func c18(r *R, m *M) {
	for _, p := range m.Paths {
		if p.Crash != nil || p.OK() {
			continue
		}
		r.Count("error paths", 1)
		names, cause := chain(p.Err())
		// the original cause
		for _, ev := range p.Events {
			if ev.Kind != "call" || ev.Res == nil || constructor(ev.Name) {
				continue
			}
			e := p.ErrOf(ev.Res)
			if e == nil || p.NilState(e) != -1 || e == cause {
				continue
			}
			if constructed(cause) && cause.Contains(func(x *flow.Term) bool { return x == e }) {
				if s, ok := constText(p, cause.A[0]); ok && strings.Contains(s, "%w") {
					continue
				}
			}
			m.report(r, "original cause", m.about(p, ev)+ev.Name, ev.Pos, "%s failed with %v and the error returned is %v", ev.Name, e, p.Err())
		}
		if cause.Op == flow.OConst {
			continue
		}
		v := jparam(p)
		if m.Name == "UnmarshalJSON" {
			if len(names) > 0 {
				m.report(r, "own path", "", errPos(p, m), "an error of the whole document is wrapped as %v", p.Err())
			}
			continue
		}
		var st []step
		if o, ok := origin(p, cause); ok {
			if st, ok = place(p, o, v); !ok {
				m.report(r, "own path", "", errPos(p, m), "the error %v is about %v, which is no value of the document", p.Err(), o)
				continue
			}
			// about the key of an entry
			if k := keysIn(cause); k != nil && constructed(cause) {
				st = []step{{kt: k}}
			}
		} else if constructed(cause) {
			if k := keysIn(cause); k != nil {
				st = []step{{kt: k}}
			} else if len(names) == 1 {
				// about an absent member
				k, ok := constText(p, names[0])
				jv := lookups(p)[k]
				if ok && jv != nil && mode(p, jv)&(mAbsent|mNull) != 0 {
					continue
				}
				if ok && jv != nil && aboutValue(p, jv) {
					continue
				}
				if ok && jv != nil {
					continue // C09
				}
				m.report(r, "own path", "constructed", errPos(p, m), "the error %v is named %v", cause, names)
				continue
			} else if !m.D.Struct && rootNames(p, names) {
				continue
			} else {
				m.report(r, "own path", fmt.Sprintf("constructed %v as %s", cause, shape(p, names, nil)), errPos(p, m), "the error %v is named %v", cause, names)
				continue
			}
		} else {
			m.report(r, "own path", "unknown", errPos(p, m), "the error %v is about no value of the document", p.Err())
			continue
		}
		if _, vague := m.keys(); len(st) == 0 && (vague || !m.D.Struct) && rootNames(p, names) {
			continue // the document itself has no name
		}
		ok := len(names) == len(st)
		for i := 0; ok && i < len(st); i++ {
			ok = isStep(p, names[i], st[i])
		}
		if !ok {
			m.report(r, "own path", m.stepsRole(st)+" as "+shape(p, names, st), errPos(p, m), "an error about the value at %s is wrapped as %v", steps(st), names)
		}
	}
}

// shape describes names against the steps they should denote.
func shape(p *flow.Path, names []*flow.Term, st []step) string {
	var out []string
	for _, n := range names {
		w := "other"
		if s, ok := constText(p, n); ok && s == "" {
			w = "empty"
		}
		for i, x := range st {
			if isStep(p, n, x) {
				w = fmt.Sprint(i)
			}
		}
		out = append(out, w)
	}
	return "[" + strings.Join(out, " ") + "]"
}

// rootNames: names for the document as a whole.
func rootNames(p *flow.Path, names []*flow.Term) bool {
	for _, n := range names {
		if s, ok := constText(p, n); !ok || s != "" && s != "(root)" {
			return false
		}
	}
	return len(names) <= 1
}

// keysIn finds the entry key an error is about.
func keysIn(t *flow.Term) *flow.Term {
	var out *flow.Term
	t.Contains(func(x *flow.Term) bool {
		if x.Op == flow.OPure && x.S == "json.key" {
			out = x
		}
		return false
	})
	return out
}
