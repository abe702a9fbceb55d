package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"vjcheck/scen"

	"golang.org/x/tools/go/ssa"
)

// Fld is a field of a declaration as the Go language and its tags define it.
type Fld struct {
	Name              string
	Role              string
	Index             []int // path of field numbers from the struct
	Typ               types.Type
	Key               string
	Omit, Req, Inline bool
	// Ignored: json:"-".
	Ignored bool
	// Raw: the value's own members are written into the object.
	Raw bool
	// Vague: the tag has no settled meaning here.
	Vague      bool
	Embedded   bool
	Default    string
	HasDefault bool
	Layout     string
}

// Decl is a declaration of the input file.
type Decl struct {
	Name   string
	Role   string
	Named  *types.Named
	Tags   map[string]bool // doc-tag words
	Tagged bool
	// Heirs: the tagged slices and arrays it is the untagged element of; their
	// words, where they agree, are its own.
	Heirs    []*Decl
	Divided  bool // the heirs do not agree
	elemName string
	Struct   bool
	Fields   []*Fld
	Pos      token.Pos
}

// declsOf reads the declarations of the input file.
func declsOf(u *Unit) map[string]*Decl {
	out := map[string]*Decl{}
	f := u.Main.Files[scen.Render(u.Case.Atoms, u.Case.Input)]
	if f == nil || u.Main.Types == nil {
		return out
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.TYPE {
			continue
		}
		for _, s := range g.Specs {
			ts := s.(*ast.TypeSpec)
			o := u.Main.Types.Scope().Lookup(ts.Name.Name)
			if o == nil {
				continue
			}
			n, ok := o.Type().(*types.Named)
			if !ok {
				continue
			}
			dd := &Decl{Name: ts.Name.Name, Role: strings.TrimPrefix(u.role(ts.Name.Name), "type "), Named: n, Tags: map[string]bool{}, Pos: ts.Pos()}
			words(dd, g.Doc)
			words(dd, ts.Doc)
			if _, ok := ts.Type.(*ast.StructType); ok {
				dd.Struct = true
				st := n.Underlying().(*types.Struct)
				dd.Fields = fieldsOf(u, st, nil)
			}
			if a, ok := ts.Type.(*ast.ArrayType); ok {
				if id, ok := a.Elt.(*ast.Ident); ok {
					dd.elemName = id.Name
				}
			}
			out[dd.Name] = dd
		}
	}
	var names []string
	for n, d := range out {
		if d.Tagged {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for len(names) > 0 {
		h := out[names[0]]
		names = names[1:]
		e := out[h.elemName]
		if e == nil || e.Tagged {
			continue
		}
		e.Heirs = append(e.Heirs, h)
		if len(e.Heirs) > 1 {
			e.Divided = e.Divided || !reflect.DeepEqual(h.Tags, e.Heirs[0].Tags)
			continue
		}
		e.Tags = h.Tags
		names = append(names, e.Name)
	}
	for _, d := range out {
		if d.Divided {
			d.Tags = map[string]bool{}
		}
	}
	return out
}

func words(d *Decl, c *ast.CommentGroup) {
	if c == nil {
		return
	}
	for _, l := range c.List {
		t := strings.ToLower(strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l.Text), "//")))
		if !strings.HasPrefix(t, "json:") {
			continue
		}
		for _, w := range strings.Split(t[5:], ",") {
			if w = strings.TrimSpace(w); w != "" {
				d.Tags[w] = true
				d.Tagged = true
			}
		}
	}
}

func fieldsOf(u *Unit, st *types.Struct, at []int) []*Fld {
	var out []*Fld
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		f := &Fld{Name: v.Name(), Role: strings.TrimPrefix(u.role(v.Name()), "field "), Typ: v.Type(), Embedded: v.Embedded()}
		f.Index = append(append([]int{}, at...), i)
		tag := reflect.StructTag(st.Tag(i))
		js, ok := tag.Lookup("json")
		parts := strings.Split(js, ",")
		f.Key = parts[0]
		for _, p := range parts[1:] {
			switch strings.TrimSpace(p) {
			case "omitempty":
				f.Omit = true
			case "required":
				f.Req = true
			case "inline":
				f.Inline = true
			}
		}
		f.Default, f.HasDefault = tag.Lookup("default")
		f.Layout = tag.Get("layout")
		switch {
		case js == "-":
			f.Ignored = true
		case f.Key == "-":
			f.Vague = true
		case f.Embedded && f.Inline && f.Key == "":
			if s2, ok := v.Type().Underlying().(*types.Struct); ok && !hasField(s2, v.Name()) {
				out = append(out, fieldsOf(u, s2, f.Index)...)
				continue
			}
			f.Raw = true
		case f.Key == "" && (f.Embedded || f.Inline):
			f.Raw = true
		case !ok || f.Key == "":
			f.Vague = true
		}
		out = append(out, f)
	}
	return out
}

func hasField(s *types.Struct, n string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return true
		}
	}
	return false
}

// declOf finds the declaration a method belongs to.
func (u *Unit) declOf(fn *ssa.Function) *Decl {
	rv := fn.Signature.Recv()
	if rv == nil {
		return nil
	}
	t := rv.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return u.Decls[n.Obj().Name()]
	}
	return nil
}

func (u *Unit) sortedDecls() []*Decl {
	var ns []string
	for n := range u.Decls {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var out []*Decl
	for _, n := range ns {
		out = append(out, u.Decls[n])
	}
	return out
}
