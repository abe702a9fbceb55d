package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"vjcheck/flow"
	"vjcheck/scen"
)

func init() {
	register(&Prop{
		ID:      "C20",
		Rule:    "Layout agreement: every call of an emitted decoder that parses a time and every call of an emitted encoder that formats one is attributed to its field; with a layout tag both must use exactly the constant the tag means, without one the encoder's layout must be one of those the decoder (parseDateTime, from the emitted utilities) tries.",
		Select:  func(s *scen.Scenario) bool { return strings.Contains(s.Files[s.Input], "time.") },
		Methods: map[string]bool{"FillFromJSON": true, "MarshalTo": true}, Method: c20,
		Min:     map[string]int{"layouts compared": 300, "fields with a layout": 20},
		Trusted: []string{trustAbs, trustFlow, trustLoop},
	})
}

// layoutOf is the layout a tag means.
func layoutOf(u *Unit, f *Fld) string {
	if n := strings.TrimPrefix(f.Layout, "time."); n != f.Layout {
		for _, p := range u.Main.Types.Imports() {
			if p.Path() != "time" {
				continue
			}
			if c, ok := p.Scope().Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.String {
				return constant.StringVal(c.Val())
			}
		}
	}
	return f.Layout
}

// hasTime: the type holds times that this package's code has to format itself.
func hasTime(t types.Type, depth int) bool {
	if isTime(t) {
		return true
	}
	if depth > 6 {
		return false
	}
	switch u := t.(type) {
	case *types.Pointer:
		return hasTime(u.Elem(), depth+1)
	case *types.Slice:
		return hasTime(u.Elem(), depth+1)
	case *types.Array:
		return hasTime(u.Elem(), depth+1)
	case *types.Map:
		return hasTime(u.Elem(), depth+1)
	case *types.Named:
		if _, ok := u.Underlying().(*types.Struct); !ok {
			return hasTime(u.Underlying(), depth+1)
		}
	}
	return false
}

const rfc3339Nano = "2006-01-02T15:04:05.999999999Z07:00"

// layoutUse is a layout used for a field.
type layoutUse struct {
	layout string // "" with list: parseDateTime
	list   bool
	what   string
	pos    token.Pos
}

func c20(r *R, m *M) {
	uses := map[*Fld]map[string]layoutUse{}
	top := &Fld{Role: "value"}
	add := func(f *Fld, u layoutUse) {
		if uses[f] == nil {
			uses[f] = map[string]layoutUse{}
		}
		uses[f][u.what+" "+u.layout] = u
		r.Count("layouts compared", 1)
	}
	for _, p := range m.Paths {
		if p.Crash != nil {
			continue
		}
		text := func(t *flow.Term) string {
			s, ok := constText(p, t)
			if !ok {
				return "not constant: " + t.String()
			}
			return s
		}
		if m.Name == "FillFromJSON" {
			v := jparam(p)
			for _, ev := range p.Events {
				if ev.Kind != "call" || len(ev.Args) == 0 {
					continue
				}
				var u layoutUse
				var src *flow.Term
				switch ev.Name {
				case "time.Parse", "time.ParseInLocation":
					u, src = layoutUse{layout: text(ev.Args[0])}, ev.Args[1]
				case "parseDateTime":
					u, src = layoutUse{list: true}, ev.Args[0]
				case "(*time.Time).UnmarshalText", "(*time.Time).UnmarshalJSON":
					u, src = layoutUse{layout: "2006-01-02T15:04:05Z07:00"}, ev.Args[1]
				default:
					continue
				}
				u.what, u.pos = ev.Name, ev.Pos
				add(m.sourceField(p, v, src, top), u)
			}
			continue
		}
		for _, ev := range p.Events {
			if ev.Kind != "write" {
				continue
			}
			if ev.Name == "writeTime" && len(ev.Args) == 3 {
				add(m.valueField(p, ev.Args[1], top), layoutUse{layout: text(ev.Args[2]), what: ev.Name, pos: ev.Pos})
				continue
			}
			for _, a := range ev.Args[1:] {
				a.Contains(func(x *flow.Term) bool {
					if x.Op != flow.OPure && x.Op != flow.OCall || !strings.HasPrefix(x.S, "(time.Time).") || len(x.A) == 0 {
						return false
					}
					u := layoutUse{what: x.S, pos: ev.Pos}
					switch x.S {
					case "(time.Time).MarshalText", "(time.Time).MarshalJSON":
						u.layout = rfc3339Nano
					case "(time.Time).Format":
						u.layout = text(x.A[1])
					case "(time.Time).AppendFormat":
						u.layout = text(x.A[2])
					case "(time.Time).String":
						u.layout = "2006-01-02 15:04:05.999999999 -0700 MST"
					case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In", "(time.Time).Round", "(time.Time).Truncate":
						return false
					default:
						u.layout = "unknown: " + x.S
					}
					add(m.valueField(p, x.A[0], top), u)
					return true
				})
			}
		}
	}
	fs := []*Fld{top}
	if m.D.Struct {
		fs = m.D.Fields
	}
	known := knownLayouts(m.U)
	for _, f := range fs {
		if f != top && (f.Vague || f.Ignored || f.Raw) {
			continue
		}
		var ks []string
		for k := range uses[f] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		want := ""
		if f.Layout != "" {
			want = layoutOf(m.U, f)
			if hasTime(f.Typ, 0) {
				r.Count("fields with a layout", 1)
				if len(ks) == 0 {
					m.report(r, "layout used", f.Role, m.Fn.Pos(), "the layout %q of the field's tag is used nowhere", want)
				}
			}
		}
		for _, k := range ks {
			u := uses[f][k]
			switch {
			case want != "":
				if u.list || u.layout != want {
					m.report(r, "same layout", f.Role+" "+u.what, u.pos, "%s uses %s, the tag says %q", u.what, layoutName(u), want)
				}
			case m.Name == "MarshalTo":
				if !known[u.layout] {
					m.report(r, "known layout", f.Role+" "+u.what, u.pos, "%s writes %s, which parseDateTime does not try", u.what, layoutName(u))
				}
			case !u.list:
				// every default layout an encoder may use is understood
				if u.layout != rfc3339Nano && u.layout != "2006-01-02T15:04:05Z07:00" {
					m.report(r, "known layout", f.Role+" "+u.what, u.pos, "%s understands %s only, the encoder writes %q", u.what, layoutName(u), rfc3339Nano)
				}
			}
		}
	}
}

func layoutName(u layoutUse) string {
	if u.list {
		return "the list of known layouts"
	}
	return "the layout \"" + u.layout + "\""
}

// sourceField is the field whose JSON value a term comes from.
func (m *M) sourceField(p *flow.Path, v, t *flow.Term, top *Fld) *Fld {
	for _, j := range jsonIn(t) {
		st, ok := place(p, j, v)
		if !ok || len(st) == 0 || st[0].key == "" {
			continue
		}
		for _, f := range m.D.Fields {
			if f.Key == st[0].key && !f.Ignored && !f.Vague && !f.Raw {
				return f
			}
		}
	}
	return top
}

// valueField is the field a value comes from.
func (m *M) valueField(p *flow.Path, t *flow.Term, top *Fld) *Fld {
	for _, f := range m.D.Fields {
		a := fieldAddr(p, f)
		if t.Contains(func(x *flow.Term) bool { return x == a }) {
			return f
		}
	}
	return top
}
