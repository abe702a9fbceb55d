package absint

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"sort"

	"golang.org/x/tools/go/ssa"
)

var astTypes = map[string]reflect.Type{}

func init() {
	for _, n := range []any{
		ast.ArrayType{}, ast.AssignStmt{}, ast.BadDecl{}, ast.BadExpr{}, ast.BadStmt{}, ast.BasicLit{}, ast.BinaryExpr{}, ast.BlockStmt{},
		ast.BranchStmt{}, ast.CallExpr{}, ast.CaseClause{}, ast.ChanType{}, ast.CommClause{}, ast.Comment{}, ast.CommentGroup{},
		ast.CompositeLit{}, ast.DeclStmt{}, ast.DeferStmt{}, ast.Ellipsis{}, ast.EmptyStmt{}, ast.ExprStmt{}, ast.Field{}, ast.FieldList{},
		ast.File{}, ast.ForStmt{}, ast.FuncDecl{}, ast.FuncLit{}, ast.FuncType{}, ast.GenDecl{}, ast.GoStmt{}, ast.Ident{}, ast.IfStmt{},
		ast.ImportSpec{}, ast.IncDecStmt{}, ast.IndexExpr{}, ast.IndexListExpr{}, ast.InterfaceType{}, ast.KeyValueExpr{}, ast.LabeledStmt{},
		ast.MapType{}, ast.Package{}, ast.ParenExpr{}, ast.RangeStmt{}, ast.ReturnStmt{}, ast.SelectStmt{}, ast.SelectorExpr{}, ast.SendStmt{},
		ast.SliceExpr{}, ast.StarExpr{}, ast.StructType{}, ast.SwitchStmt{}, ast.TypeAssertExpr{}, ast.TypeSpec{}, ast.TypeSwitchStmt{},
		ast.UnaryExpr{}, ast.ValueSpec{}, ast.Object{}, ast.Scope{},
	} {
		t := reflect.TypeOf(n)
		astTypes[t.Name()] = t
	}
}

// converter moves syntax trees between the analyser and the analysed program.
type converter struct {
	r       *Run
	toVal   map[any]*value
	toNat   map[*value]reflect.Value
	natProv map[ast.Node]Prov
	pkg     *ssa.Package
}

func (r *Run) converter() *converter {
	return &converter{r: r, toVal: map[any]*value{}, toNat: map[*value]reflect.Value{}, natProv: map[ast.Node]Prov{}, pkg: r.P.SSA.ImportedPackage("go/ast")}
}

func (c *converter) named(name string) types.Type {
	t := c.pkg.Type(name)
	if t == nil {
		panic(unmodelled{"go/ast." + name})
	}
	return t.Type()
}

// in converts a native value of static type t.
func (c *converter) in(v reflect.Value, t types.Type) value {
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	case reflect.String:
		return v.String()
	case reflect.Slice:
		if v.IsNil() {
			return []value(nil)
		}
		et := t.Underlying().(*types.Slice).Elem()
		out := make([]value, v.Len())
		for i := range out {
			out[i] = c.in(v.Index(i), et)
		}
		return out
	case reflect.Map:
		if v.IsNil() {
			return (*hmap)(nil)
		}
		mt := t.Underlying().(*types.Map)
		m := newMap()
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			m.set(c.in(k, mt.Key()), c.in(v.MapIndex(k), mt.Elem()))
		}
		return m
	case reflect.Interface:
		if v.IsNil() {
			return iface{}
		}
		e := v.Elem()
		if e.Kind() != reflect.Pointer || astTypes[e.Type().Elem().Name()] != e.Type().Elem() {
			if e.Kind() == reflect.Int {
				return iface{t: types.Typ[types.Int], v: e.Int()}
			}
			return iface{}
		}
		et := types.NewPointer(c.named(e.Type().Elem().Name()))
		return iface{t: et, v: c.in(e, et)}
	case reflect.Pointer:
		if v.IsNil() {
			return (*value)(nil)
		}
		if p, ok := c.toVal[v.Interface()]; ok {
			return p
		}
		p := new(value)
		c.toVal[v.Interface()] = p
		et := deref(t)
		st, ok := et.Underlying().(*types.Struct)
		if !ok {
			panic(unmodelled{"conversion of " + t.String()})
		}
		s := make(structure, st.NumFields())
		*p = s
		e := v.Elem()
		for i := range s {
			f := e.FieldByName(st.Field(i).Name())
			if !f.IsValid() || !st.Field(i).Exported() {
				s[i] = zero(st.Field(i).Type())
				continue
			}
			s[i] = c.in(f, st.Field(i).Type())
		}
		return p
	case reflect.Struct:
		st := t.Underlying().(*types.Struct)
		s := make(structure, st.NumFields())
		for i := range s {
			f := v.FieldByName(st.Field(i).Name())
			if !f.IsValid() {
				s[i] = zero(st.Field(i).Type())
				continue
			}
			s[i] = c.in(f, st.Field(i).Type())
		}
		return s
	}
	panic(unmodelled{"conversion of native " + v.Type().String()})
}

// out converts a value of static type t to the native type rt; identifier
// objects and scopes are dropped (printing does not use them).
func (c *converter) out(v value, t types.Type, rt reflect.Type) reflect.Value {
	switch rt.Kind() {
	case reflect.Bool:
		return reflect.ValueOf(v).Convert(rt)
	case reflect.Int, reflect.Int64:
		return reflect.ValueOf(c.r.toInt64(v)).Convert(rt)
	case reflect.String:
		return reflect.ValueOf(v).Convert(rt)
	case reflect.Slice:
		s := v.([]value)
		if s == nil {
			return reflect.Zero(rt)
		}
		out := reflect.MakeSlice(rt, len(s), len(s))
		et := t.Underlying().(*types.Slice).Elem()
		for i := range s {
			out.Index(i).Set(c.out(s[i], et, rt.Elem()))
		}
		return out
	case reflect.Map:
		m, _ := v.(*hmap)
		if m == nil {
			return reflect.Zero(rt)
		}
		mt := t.Underlying().(*types.Map)
		out := reflect.MakeMap(rt)
		for _, e := range m.ents {
			if !e.dead {
				out.SetMapIndex(c.out(e.k, mt.Key(), rt.Key()), c.out(e.v, mt.Elem(), rt.Elem()))
			}
		}
		return out
	case reflect.Interface:
		x := v.(iface)
		if x.t == nil {
			return reflect.Zero(rt)
		}
		n, ok := types.Unalias(deref(x.t)).(*types.Named)
		if !ok {
			return reflect.Zero(rt)
		}
		et, ok := astTypes[n.Obj().Name()]
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "go/ast" {
			if rt == reflect.TypeOf((*any)(nil)).Elem() {
				return reflect.Zero(rt)
			}
			panic(unmodelled{"syntax node of type " + x.t.String()})
		}
		if p, isP := x.v.(*value); isP && p == nil {
			return reflect.Zero(reflect.PointerTo(et))
		}
		return c.out(x.v, x.t, reflect.PointerTo(et))
	case reflect.Pointer:
		p, _ := v.(*value)
		if p == nil || rt == reflect.TypeOf((*ast.Object)(nil)) || rt == reflect.TypeOf((*ast.Scope)(nil)) {
			return reflect.Zero(rt)
		}
		if n, ok := c.toNat[p]; ok && n.Type() == rt {
			return n
		}
		n := reflect.New(rt.Elem())
		c.toNat[p] = n
		st := deref(t).Underlying().(*types.Struct)
		s := (*p).(structure)
		for i := range s {
			f := n.Elem().FieldByName(st.Field(i).Name())
			if !f.IsValid() || !f.CanSet() {
				continue
			}
			f.Set(c.out(s[i], st.Field(i).Type(), f.Type()))
		}
		if node, ok := n.Interface().(ast.Node); ok {
			if pr, ok := c.r.prov[p]; ok {
				c.natProv[node] = pr
			}
		}
		return n
	}
	panic(unmodelled{"conversion to native " + rt.String()})
}

func (r *Run) fset(v value) *token.FileSet {
	p, _ := v.(*value)
	if p == nil {
		return nil
	}
	if f, ok := r.side[p].(*token.FileSet); ok {
		return f
	}
	f := token.NewFileSet()
	r.side[p] = f
	return f
}

func (r *Run) typ(pkg, name string) types.Type {
	p := r.P.SSA.ImportedPackage(pkg)
	if p == nil {
		panic(unmodelled{"package " + pkg})
	}
	t := p.Type(name)
	if t == nil {
		panic(unmodelled{pkg + "." + name})
	}
	return t.Type()
}

// newError builds an error value with the given text.
func (r *Run) newError(msg string) value {
	p := new(value)
	*p = structure{msg}
	return iface{t: types.NewPointer(r.typ("errors", "errorString")), v: p}
}

func (r *Run) pathError(op, name string, err value) value {
	p := new(value)
	*p = structure{op, name, err}
	return iface{t: types.NewPointer(r.typ("io/fs", "PathError")), v: p}
}

func (r *Run) setField(p *value, t types.Type, name string, v value) {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			(*p).(structure)[i] = v
			return
		}
	}
	panic(unmodelled{"field " + name + " of " + t.String()})
}

func (r *Run) field(p *value, t types.Type, name string) *value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &(*p).(structure)[i]
		}
	}
	panic(unmodelled{"field " + name + " of " + t.String()})
}
