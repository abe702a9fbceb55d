package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"vjcheck/flow"
	"vjcheck/scen"
)

// What an encoder writes, as pieces of constant text and of values.

type pkind uint8

const (
	pkText    pkind = iota // constant bytes
	pkString               // a quoted, escaped string
	pkNumber               // a number
	pkBool                 // true or false
	pkNested               // another encoder's output: one value
	pkRaw                  // bytes of a marshaller: one value
	pkMembers              // members of a marshalled object
	pkBytes                // bytes as they are
	pkTime                 // quoted formatted time
	pkBad                  // not understood
)

type piece struct {
	kind pkind
	text string
	val  *flow.Term
	ev   *flow.Event
}

var numberWriters = map[string]bool{"Int": true, "Int8": true, "Int16": true, "Int32": true, "Int64": true, "Uint": true, "Uint8": true, "Uint16": true, "Uint32": true, "Uint64": true, "Float32": true, "Float64": true}

func constText(p *flow.Path, t *flow.Term) (string, bool) {
	if t == nil {
		return "", false
	}
	if s, ok := p.ConstBytes(t); ok {
		return s, true
	}
	s := t.Strip()
	if s.Op == flow.OConst && s.C != nil && s.C.Kind() == constant.Int {
		if n, ok := constant.Int64Val(s.C); ok && n >= 0 && n < 256 {
			return string([]byte{byte(n)}), true
		}
	}
	return "", false
}

// pieces lists what a path writes to w, in order.
func pieces(p *flow.Path, w *flow.Term) []piece {
	var out []piece
	w = w.Strip()
	for _, ev := range p.Events {
		switch ev.Kind {
		case "write":
			if ev.Recv.Strip() != w {
				continue
			}
			var arg *flow.Term
			if len(ev.Args) > 1 {
				arg = ev.Args[1]
			}
			pc := piece{ev: ev, val: arg}
			switch ev.Name {
			case "RawByte", "RawString", "Buffer.AppendByte", "Buffer.AppendString":
				if s, ok := constText(p, arg); ok {
					pc.kind, pc.text = pkText, s
				} else {
					pc.kind = pkBytes
				}
			case "Buffer.AppendBytes":
				if s, ok := constText(p, arg); ok {
					pc.kind, pc.text = pkText, s
				} else {
					pc.kind = pkBytes
				}
			case "String", "Base64Bytes", "RawText", "RawBytesString":
				pc.kind = pkString
			case "Bool":
				pc.kind = pkBool
			case "Raw":
				pc.kind = pkRaw
				if arg.Op == flow.OExtract && arg.A[0].Op == flow.OPure && arg.A[0].S == "unpackObject" {
					pc.kind = pkMembers
				}
			case "writeTime":
				pc.kind = pkTime
			case "Buffer.EnsureSpace", "Size", "BuildBytes", "DumpTo", "ReadCloser", "Buffer.Size":
				continue
			default:
				switch {
				case numberWriters[ev.Name]:
					pc.kind = pkNumber
				case strings.HasSuffix(ev.Name, "Str"):
					pc.kind = pkString
				default:
					pc.kind = pkBad
				}
			}
			out = append(out, pc)
		case "call":
			if (ev.Name == "MarshalTo" || ev.Name == "invoke.MarshalTo") && len(ev.Args) > 1 && ev.Args[1].Strip() == w {
				out = append(out, piece{kind: pkNested, ev: ev, val: ev.Recv})
			}
		case "store":
			// the writer's own fields
			if r := flow.Root(ev.Addr); r.Strip() == w {
				out = append(out, piece{kind: pkBad, ev: ev})
			}
		}
	}
	return out
}

// jn is a node of the document a path writes.
type jn struct {
	kind byte // { [ v(alue piece) c(onstant scalar) s(tring of parts)
	mem  []jmem
	el   []*jn
	pc   *piece
	text string
	part []piece
	pos  token.Pos
	soft []jsoft // of the whole document
}

type jmem struct {
	key string // constant key
	kv  *flow.Term
	val *jn
	raw *piece
	pos token.Pos
}

type jerr struct {
	msg string
	pos token.Pos
}

// jsoft is a missing comma.
type jsoft struct {
	jerr
	after, key string
}

type jp struct {
	soft []jsoft

	ps []piece
	i  int // piece
	o  int // offset in its text
	p  *flow.Path
}

func (j *jp) pos() token.Pos {
	i := j.i
	if i >= len(j.ps) {
		i = len(j.ps) - 1
	}
	if i < 0 {
		return token.NoPos
	}
	return j.ps[i].ev.Pos
}

func (j *jp) fail(format string, a ...any) { panic(jerr{fmt.Sprintf(format, a...), j.pos()}) }

// ch is the next constant byte (0: a value piece, 1: the end).
func (j *jp) ch() byte {
	for j.i < len(j.ps) && j.ps[j.i].kind == pkText && j.o >= len(j.ps[j.i].text) {
		j.i++
		j.o = 0
	}
	if j.i >= len(j.ps) {
		return 1
	}
	if j.ps[j.i].kind != pkText {
		return 0
	}
	return j.ps[j.i].text[j.o]
}

func (j *jp) ws() byte {
	for {
		switch c := j.ch(); c {
		case ' ', '\t', '\n', '\r':
			j.o++
		default:
			return c
		}
	}
}

func (j *jp) what() string {
	switch c := j.ch(); c {
	case 1:
		return "the end of the output"
	case 0:
		pc := j.ps[j.i]
		return fmt.Sprintf("the value %s(%v)", pc.ev.Name, pc.val)
	default:
		return strconv.QuoteRune(rune(c))
	}
}

// parseWrites turns the output of a path into a document.
func parseWrites(p *flow.Path, ps []piece) (root *jn, err *jerr) {
	j := &jp{ps: ps, p: p}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jerr); ok {
				root, err = nil, &e
				return
			}
			panic(r)
		}
	}()
	for _, pc := range ps {
		if pc.kind == pkBad {
			panic(jerr{"output not understood: " + pc.ev.Kind + " " + pc.ev.Name, pc.ev.Pos})
		}
	}
	root = j.value()
	if j.ws() != 1 {
		j.fail("%s follows a complete value", j.what())
	}
	root.soft = j.soft
	return root, nil
}

func (j *jp) value() *jn {
	c := j.ws()
	n := &jn{pos: j.pos()}
	switch {
	case c == 1:
		j.fail("a value is missing at the end of the output")
	case c == 0:
		pc := &j.ps[j.i]
		switch pc.kind {
		case pkMembers:
			j.fail("members of an object where a value belongs")
		case pkBytes:
			j.fail("unquoted bytes %v where a value belongs", pc.val)
		}
		n.kind, n.pc = 'v', pc
		j.i++
		j.o = 0
	case c == '{':
		n.kind = '{'
		j.o++
		if j.ws() == '}' {
			j.o++
			return n
		}
		for {
			n.mem = append(n.mem, j.member())
			c := j.ws()
			if c == '}' {
				j.o++
				return n
			}
			if c == '"' || c == 0 {
				// the rest is still read: other defects are not hidden by this one
				last := &n.mem[len(n.mem)-1]
				what := "a member"
				if last.val != nil && last.val.kind == 'c' && last.val.text == "null" {
					what = "null"
				}
				j.soft = append(j.soft, jsoft{jerr{fmt.Sprintf("%s follows the member %q without a comma", j.what(), last.key), j.pos()}, what, last.key})
				continue
			}
			if c != ',' {
				j.fail("%s after an object member (a comma or '}' belongs there)", j.what())
			}
			j.o++
			if j.ws() == '}' {
				j.fail("a comma before '}'")
			}
		}
	case c == '[':
		n.kind = '['
		j.o++
		if j.ws() == ']' {
			j.o++
			return n
		}
		for {
			n.el = append(n.el, j.value())
			c := j.ws()
			if c == ']' {
				j.o++
				return n
			}
			if c != ',' {
				j.fail("%s after an array element (a comma or ']' belongs there)", j.what())
			}
			j.o++
			if j.ws() == ']' {
				j.fail("a comma before ']'")
			}
		}
	case c == '"':
		n.text, n.part = j.str()
		n.kind = 's'
	default:
		var b []byte
		for {
			c := j.ch()
			if c <= 1 || strings.IndexByte("{}[]\":, \t\n\r", c) >= 0 {
				break
			}
			b = append(b, c)
			j.o++
		}
		n.kind, n.text = 'c', string(b)
		if !constScalar(n.text) {
			j.fail("%s where a value belongs", map[bool]string{true: j.what(), false: strconv.Quote(n.text)}[n.text == ""])
		}
	}
	return n
}

func constScalar(s string) bool {
	if s == "null" || s == "true" || s == "false" {
		return true
	}
	if _, err := strconv.ParseFloat(s, 64); err != nil {
		return false
	}
	return strings.IndexFunc(s, func(r rune) bool { return !strings.ContainsRune("0123456789+-.eE", r) }) < 0 && s[0] != '+' && s[0] != '.' && !strings.HasSuffix(s, ".")
}

func (j *jp) member() jmem {
	c := j.ws()
	m := jmem{pos: j.pos()}
	switch c {
	case 0:
		pc := &j.ps[j.i]
		switch pc.kind {
		case pkMembers:
			j.i++
			j.o = 0
			m.raw = pc
			return m
		case pkString:
			m.kv = pc.val
			if s, ok := constText(j.p, pc.val); ok {
				m.key, m.kv = s, nil
			}
			j.i++
			j.o = 0
		default:
			j.fail("%s where a key belongs", j.what())
		}
	case '"':
		s, part := j.str()
		if len(part) > 0 {
			j.fail("a key containing %v unescaped", part[0].val)
		}
		m.key = s
	default:
		j.fail("%s where a key belongs", j.what())
	}
	if j.ws() != ':' {
		j.fail("%s after a key (':' belongs there)", j.what())
	}
	j.o++
	m.val = j.value()
	return m
}

// str reads a string literal: constant text, or bytes of a safe alphabet.
func (j *jp) str() (string, []piece) {
	j.o++
	var b []byte
	var parts []piece
	for {
		c := j.ch()
		switch {
		case c == 1:
			j.fail("a string is not closed")
		case c == 0:
			pc := j.ps[j.i]
			if pc.kind != pkBytes {
				j.fail("%s inside a string", j.what())
			}
			if !safeBytes(j.p, pc.val) {
				j.fail("unescaped text %v inside a string", pc.val)
			}
			parts = append(parts, pc)
			j.i++
			j.o = 0
		case c == '"':
			j.o++
			s := string(b)
			if !utf8.ValidString(s) {
				j.fail("a string that is not UTF-8: %q", s)
			}
			var u string
			var err error
			if u, err = unquoteJSON(s); err != nil {
				j.fail("%v in the string %q", err, s)
			}
			return u, parts
		case c == '\\':
			b = append(b, c)
			j.o++
			if d := j.ch(); d > 1 {
				b = append(b, d)
				j.o++
			}
		case c < 0x20:
			j.fail("a control character inside a string")
		default:
			b = append(b, c)
			j.o++
		}
	}
}

func unquoteJSON(s string) (string, error) {
	var out strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			out.WriteByte(s[i])
			continue
		}
		i++
		if i >= len(s) {
			return "", fmt.Errorf("an unfinished escape")
		}
		switch s[i] {
		case '"', '\\', '/':
			out.WriteByte(s[i])
		case 'b':
			out.WriteByte('\b')
		case 'f':
			out.WriteByte('\f')
		case 'n':
			out.WriteByte('\n')
		case 'r':
			out.WriteByte('\r')
		case 't':
			out.WriteByte('\t')
		case 'u':
			if i+4 >= len(s) {
				return "", fmt.Errorf("a short unicode escape")
			}
			n, err := strconv.ParseUint(s[i+1:i+5], 16, 16)
			if err != nil {
				return "", fmt.Errorf("a bad unicode escape")
			}
			out.WriteRune(rune(n))
			i += 4
		default:
			return "", fmt.Errorf("an escape that JSON does not have (\\%c)", s[i])
		}
	}
	return out.String(), nil
}

var safeText = map[string]bool{
	"(uuid.UUID).MarshalText": true, "(uuid.UUID).String": true, "(time.Time).MarshalText": true,
	"(*encoding/base64.Encoding).EncodeToString": true, "strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatUint": true, "strconv.FormatBool": true, "strconv.FormatFloat": true,
	"strconv.AppendInt": true, "strconv.AppendUint": true,
}

// safeBytes: text in which nothing needs escaping.
func safeBytes(p *flow.Path, t *flow.Term) bool {
	t = t.Strip()
	for t.Op == flow.OConv || t.Op == flow.OReinterp || t.Op == flow.OExtract {
		t = t.A[0].Strip()
	}
	if t.Op == flow.OPure || t.Op == flow.OCall {
		return safeText[t.S]
	}
	if t.Op == flow.OSlice {
		if c := p.Content(t); c != nil && c.Op == flow.OPure && c.S == "(*encoding/base64.Encoding).Encode" {
			return true
		}
	}
	return false
}

// ---- values

// holds reports whether values of type src fit into dst exactly.
func holds(p *flow.Path, dst types.Type, src *flow.Term) bool {
	d, ok1 := dst.Underlying().(*types.Basic)
	s, ok2 := src.Typ.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	di, si := d.Info(), s.Info()
	switch {
	case di&types.IsInteger != 0 && si&types.IsInteger != 0:
		lo, hi := flow.TypeRange(dst)
		a, b := p.Interval(src)
		return a.OK() && b.OK() && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0
	case di&types.IsFloat != 0 && si&types.IsFloat != 0:
		return d.Kind() == types.Float64 || s.Kind() == types.Float32
	case di&types.IsFloat != 0 && si&types.IsInteger != 0:
		switch s.Kind() {
		case types.Int8, types.Int16, types.Uint8, types.Uint16:
			return true
		case types.Int32, types.Uint32:
			return d.Kind() == types.Float64
		}
		return false
	case di&types.IsString != 0 && si&types.IsString != 0, di&types.IsBoolean != 0 && si&types.IsBoolean != 0:
		return true
	}
	return false
}

func bytesOrString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// same: arg is want up to conversions that keep the value.
func same(p *flow.Path, arg, want *flow.Term) bool {
	want = want.Strip()
	for {
		arg = arg.Strip()
		if arg == want {
			return true
		}
		switch arg.Op {
		case flow.OConv, flow.OReinterp:
			in := arg.A[0].Strip()
			if !(bytesOrString(arg.Typ) && bytesOrString(in.Typ)) && !holds(p, arg.Typ, in) {
				return false
			}
			arg = in
			continue
		case flow.OConst:
			if arg.C == nil {
				return p.NilState(want) == 1
			}
			return constEq(p, want, arg.C)
		}
		// a renamed copy of a whole struct or array
		if arg.Op == flow.OAgg && want.Op == flow.OAgg && len(arg.A) == len(want.A) && len(arg.A) > 0 {
			for i := range arg.A {
				if !same(p, arg.A[i], want.A[i]) {
					return false
				}
			}
			return true
		}
		if types.Identical(arg.Typ, want.Typ) && p.Zeroness(arg) == 1 && p.Zeroness(want) == 1 {
			return true
		}
		if want.Op == flow.OConv && bytesOrString(want.Typ) && bytesOrString(want.A[0].Typ) {
			want = want.A[0].Strip()
			continue
		}
		return false
	}
}

// constEq: the value is known to equal a constant.
func constEq(p *flow.Path, t *flow.Term, c constant.Value) bool {
	switch c.Kind() {
	case constant.Bool:
		if constant.BoolVal(c) {
			return p.Truth(t) == 1
		}
		return p.Truth(t) == -1
	case constant.String:
		if constant.StringVal(c) == "" {
			return p.Zeroness(t) == 1
		}
		k := p.EqConst(t)
		return k != nil && k.C != nil && constant.Compare(k.C, token.EQL, c)
	default:
		if constant.Sign(c) == 0 && p.Zeroness(t) == 1 {
			return true
		}
		lo, hi := p.Interval(t)
		n := flow.NumOf(c)
		return lo.OK() && hi.OK() && lo.Cmp(n) == 0 && hi.Cmp(n) == 0
	}
}

func isByteSeq(t types.Type) bool {
	var el types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		el = u.Elem()
	case *types.Array:
		el = u.Elem()
	default:
		return false
	}
	b, ok := el.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// byteWord: the elements are spelled byte, not uint8 or a type of their own (lists of numbers).
func byteWord(t types.Type) bool {
	var el types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		el = u.Elem()
	case *types.Array:
		el = u.Elem()
	}
	b, ok := el.(*types.Basic)
	return ok && b.Name() == "byte"
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func underlyingIs(t types.Type, path, name string, u *Unit) bool {
	if typeName(t) == path+"."+name {
		return true
	}
	return false
}

type matcher struct {
	p *flow.Path
	u *Unit
	f *Fld
}

// match checks that a node encodes value v; the result says what is wrong.
func (m *matcher) match(n *jn, v *flow.Term) string {
	p := m.p
	v = v.Strip()
	typ := v.Typ
	isNull := n.kind == 'c' && n.text == "null"
	if n.kind == 'v' && n.pc.kind == pkNested {
		return m.nested(n.pc, v)
	}
	if n.kind == 'v' && n.pc.kind == pkRaw {
		return m.raw(n.pc, v)
	}
	if _, ok := typ.Underlying().(*types.Pointer); ok {
		switch p.NilState(v) {
		case 1:
			if isNull {
				return ""
			}
			return fmt.Sprintf("nil pointer %v is written as %s, not null", v, n)
		case -1:
			d := p.Deref(v)
			if _, ptr := d.Typ.Underlying().(*types.Pointer); isNull && !ptr {
				return fmt.Sprintf("pointer %v that is not nil is written as null", v)
			}
			return m.match(n, d)
		}
		if isNull {
			return fmt.Sprintf("null is written for %v, which is not known to be nil", v)
		}
		return fmt.Sprintf("%v may be nil where %s is written", v, n)
	}
	if n.kind == 'v' {
		return m.piece(n.pc, v)
	}
	switch n.kind {
	case 's':
		return m.text(n, v)
	case 'c':
		return m.scalar(n, v)
	}
	switch u := typ.Underlying().(type) {
	case *types.Slice, *types.Array:
		if n.kind != '[' {
			break
		}
		if isByteSeq(typ) {
			if byteWord(typ) {
				return fmt.Sprintf("bytes %v are written as an array", v)
			}
		}
		if w := m.length(v, len(n.el)); w != "" {
			return w
		}
		for i, el := range n.el {
			if w := m.match(el, p.Elem(v, int64(i))); w != "" {
				return fmt.Sprintf("element %d: %s", i, w)
			}
		}
		return ""
	case *types.Map:
		if n.kind != '{' {
			break
		}
		if w := m.length(v, len(n.mem)); w != "" {
			return w
		}
		for i, mm := range n.mem {
			if mm.kv == nil {
				return fmt.Sprintf("map entry %d is written under a constant key", i)
			}
			if !same(p, mm.kv, p.RangeKey(v, i)) {
				return fmt.Sprintf("map entry %d is written under the key %v", i, mm.kv)
			}
			if w := m.match(mm.val, p.RangeVal(v, i)); w != "" {
				return fmt.Sprintf("map entry %d: %s", i, w)
			}
		}
		return ""
	case *types.Struct:
		_ = u
		if n.kind == '{' && len(n.mem) == 0 && p.Zeroness(v) == 1 {
			return ""
		}
	}
	return fmt.Sprintf("%v is written as %s", v, n)
}

func (m *matcher) length(v *flow.Term, n int) string {
	lo, hi := m.p.Interval(m.p.Len(v))
	k := flow.NumOf(constant.MakeInt64(int64(n)))
	if lo.OK() && hi.OK() && lo.Cmp(k) == 0 && hi.Cmp(k) == 0 {
		return ""
	}
	if n == 0 && m.p.NilState(v) == 1 {
		return ""
	}
	return fmt.Sprintf("%d entries of %v are written while it has %s to %s", n, v, lo, hi)
}

func (m *matcher) nested(pc *piece, v *flow.Term) string {
	p := m.p
	recv := pc.val.Strip()
	if recv == v {
		return "" // a pointer or value with its own encoder
	}
	d := v
	if _, ok := v.Typ.Underlying().(*types.Pointer); ok {
		d = p.Deref(v)
	}
	if _, ok := recv.Typ.Underlying().(*types.Pointer); ok {
		// what the receiver held when it was encoded
		c := pc.ev.Args[len(pc.ev.Args)-1]
		if len(pc.ev.Args) > 2 && (same(p, c, v) || same(p, c, d)) {
			return ""
		}
		if flow.Addr(v) != nil && recv == flow.Addr(v) {
			return ""
		}
		return fmt.Sprintf("encodes %v, not %v", c, v)
	}
	if same(p, recv, v) || same(p, recv, d) {
		return ""
	}
	return fmt.Sprintf("encodes %v, not %v", recv, v)
}

func (m *matcher) raw(pc *piece, v *flow.Term) string {
	t := pc.val
	if t.Op == flow.OExtract {
		t = t.A[0]
	}
	if t.Op == flow.OPure && t.S == "unpackObject" {
		t = t.A[0]
		if t.Op == flow.OExtract {
			t = t.A[0]
		}
	}
	if t.Op == flow.OCall && strings.HasSuffix(t.S, "MarshalJSON") && len(t.A) > 0 {
		q := piece{ev: &flow.Event{Args: append([]*flow.Term{t.A[0], nil}, t.A[1:]...)}, val: t.A[0]}
		return m.nested(&q, v)
	}
	return fmt.Sprintf("raw bytes %v stand for %v", pc.val, v)
}

// piece matches one written value.
func (m *matcher) piece(pc *piece, v *flow.Term) string {
	p := m.p
	typ := v.Typ
	name := pc.ev.Name
	bad := func() string { return fmt.Sprintf("%s(%v) stands for %v of type %s", name, pc.val, v, tstr(typ)) }
	switch pc.kind {
	case pkTime:
		if same(p, pc.val, v) {
			return ""
		}
		return bad()
	case pkBool:
		if same(p, pc.val, v) {
			return ""
		}
		return bad()
	case pkNumber:
		if !same(p, pc.val, v) {
			return bad()
		}
		return ""
	case pkString:
		if strings.HasSuffix(name, "Str") {
			return bad()
		}
		if isByteSeq(typ) {
			return m.base64(pc, v)
		}
		b, ok := typ.Underlying().(*types.Basic)
		if ok && b.Info()&types.IsString != 0 {
			if same(p, pc.val, v) {
				return ""
			}
			return bad()
		}
		return m.textOf(pc.val, v, bad)
	}
	return bad()
}

// textOf: the text is the textual form of v.
func (m *matcher) textOf(t, v *flow.Term, bad func() string) string {
	p := m.p
	t = t.Strip()
	for t.Op == flow.OConv || t.Op == flow.OReinterp || t.Op == flow.OExtract {
		t = t.A[0].Strip()
	}
	if t.Op == flow.OPure || t.Op == flow.OCall {
		switch t.S {
		case "(uuid.UUID).MarshalText", "(uuid.UUID).String", "(time.Time).MarshalText":
			if len(t.A) > 0 && same(p, t.A[0], v) {
				return ""
			}
		case "(time.Time).Format":
			if len(t.A) > 0 && same(p, t.A[0], v) {
				return ""
			}
		}
	}
	return bad()
}

func isTime(t types.Type) bool {
	if typeName(t) == "time.Time" {
		return true
	}
	n, ok := t.(*types.Named)
	return ok && types.Identical(n.Underlying(), t.Underlying()) && strings.Contains(t.Underlying().String(), "wall uint64")
}

func tstr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// base64 text of the whole of v.
func (m *matcher) base64(pc *piece, v *flow.Term) string {
	p := m.p
	bad := fmt.Sprintf("%s(%v) is not the base64 text of %v", pc.ev.Name, pc.val, v)
	if pc.ev.Name == "Base64Bytes" {
		if m.wholeOf(pc.val, v) {
			return ""
		}
		return bad
	}
	t := pc.val.Strip()
	for t.Op == flow.OConv || t.Op == flow.OReinterp {
		t = t.A[0].Strip()
	}
	var enc, src *flow.Term
	if t.Op == flow.OPure && t.S == "(*encoding/base64.Encoding).EncodeToString" && len(t.A) == 2 {
		enc, src = t.A[0], t.A[1]
	} else if t.Op == flow.OSlice {
		c := p.Content(t)
		if c == nil || c.Op != flow.OPure || c.S != "(*encoding/base64.Encoding).Encode" || len(c.A) != 3 {
			return bad
		}
		enc, src = c.A[0], c.A[2]
		// the text is exactly as long as the encoding
		l := p.Len(t)
		for l.Op == flow.OConv {
			l = l.A[0]
		}
		if l.Op != flow.OPure || l.S != "(*encoding/base64.Encoding).EncodedLen" || l.A[0] != enc || !m.lenOf(l.A[1], v) {
			return bad + fmt.Sprintf(" (its length is %v)", l)
		}
	} else {
		return bad
	}
	if !stdEncoding(enc) {
		return fmt.Sprintf("%v is written with the alphabet %v", v, enc)
	}
	if !m.wholeOf(src, v) {
		return bad
	}
	return ""
}

func stdEncoding(enc *flow.Term) bool {
	enc = enc.Strip()
	return enc.Op == flow.OInit && enc.A[0].Op == flow.OGlobal && enc.A[0].S == "encoding/base64.StdEncoding"
}

// lenOf: l is the length of v.
func (m *matcher) lenOf(l, v *flow.Term) bool {
	w := m.p.Len(v)
	if l == w {
		return true
	}
	a, b := m.p.Interval(l)
	c, d := m.p.Interval(w)
	return a.OK() && b.OK() && c.OK() && d.OK() && a.Cmp(b) == 0 && a.Cmp(c) == 0 && a.Cmp(d) == 0
}

// wholeOf: s is v, or a slice of the whole array v.
func (m *matcher) wholeOf(s, v *flow.Term) bool {
	s = s.Strip()
	if same(m.p, s, v) {
		return true
	}
	if s.Op != flow.OSlice {
		return false
	}
	if s.A[1].Op != flow.OConst || constant.Sign(s.A[1].C) != 0 || !m.lenOf(s.A[2], v) {
		return false
	}
	if a := flow.Addr(v); a != nil && s.A[0] == a {
		return true
	}
	return s.A[0].Op == flow.ORegion && s.A[0].A[0].Strip() == v
}

// text matches an assembled or constant string.
func (m *matcher) text(n *jn, v *flow.Term) string {
	p := m.p
	bad := func() string { return fmt.Sprintf("%s stands for %v", n, v) }
	if len(n.part) > 1 || len(n.part) == 1 && n.text != "" {
		return bad()
	}
	if len(n.part) == 1 {
		t := n.part[0].val
		if isByteSeq(v.Typ) && typeName(v.Typ) != "github.com/google/uuid.UUID" && !uuidText(t) {
			return m.base64(&n.part[0], v)
		}
		return m.textOf(t, v, bad)
	}
	switch u := v.Typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 && constEq(p, v, constant.MakeString(n.text)) {
			return ""
		}
	default:
		if m.f != nil && m.f.Layout != "" && isTime(v.Typ) {
			if p.Zeroness(v) != 1 {
				return bad()
			}
			if n.text == (time.Time{}).Format(m.f.Layout) || scen.Render(m.u.Case.Atoms, m.u.role(n.text)) == "zeroFormat("+m.f.Layout+")" {
				return ""
			}
			return bad()
		}
		switch n.text {
		case "0001-01-01T00:00:00Z", "00000000-0000-0000-0000-000000000000":
			if p.Zeroness(v) == 1 {
				return ""
			}
		case "":
			if isByteSeq(v.Typ) && m.length(v, 0) == "" {
				return ""
			}
		}
	}
	return bad()
}

func uuidText(t *flow.Term) bool {
	return t.Contains(func(x *flow.Term) bool {
		return (x.Op == flow.OPure || x.Op == flow.OCall) && strings.HasPrefix(x.S, "(uuid.UUID).") || (x.Op == flow.OPure || x.Op == flow.OCall) && strings.HasPrefix(x.S, "(time.Time).")
	})
}

func (m *matcher) scalar(n *jn, v *flow.Term) string {
	p := m.p
	bad := fmt.Sprintf("%s stands for %v", n, v)
	if n.text == "null" {
		switch v.Typ.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Interface:
			if p.NilState(v) == 1 || m.length(v, 0) == "" {
				return ""
			}
		case *types.Array:
			// null leaves an array as it is when it is decoded
			if p.Zeroness(v) == 1 {
				return ""
			}
		}
		return bad
	}
	b, ok := v.Typ.Underlying().(*types.Basic)
	if !ok {
		return bad
	}
	switch {
	case n.text == "true", n.text == "false":
		if b.Info()&types.IsBoolean != 0 && constEq(p, v, constant.MakeBool(n.text == "true")) {
			return ""
		}
	case b.Info()&types.IsNumeric != 0:
		c := constant.MakeFromLiteral(n.text, token.FLOAT, 0)
		if c.Kind() != constant.Unknown && constEq(p, v, c) {
			return ""
		}
	}
	return bad
}

// String renders a node.
func (n *jn) String() string {
	switch n.kind {
	case 'c':
		return n.text
	case 's':
		if len(n.part) > 0 {
			return fmt.Sprintf("%q+%v", n.text, n.part[0].val)
		}
		return strconv.Quote(n.text)
	case 'v':
		return fmt.Sprintf("%s(%v)", n.pc.ev.Name, n.pc.val)
	case '{':
		var s []string
		for _, m := range n.mem {
			if m.val != nil {
				s = append(s, fmt.Sprintf("%q:%s", m.key, m.val))
			}
		}
		return "{" + strings.Join(s, ",") + "}"
	case '[':
		var s []string
		for _, e := range n.el {
			s = append(s, e.String())
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	return "?"
}
