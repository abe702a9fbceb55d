package absint

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"text/template"
	"time"
	"unicode"
	"unicode/utf8"

	"golang.org/x/mod/modfile"
	"golang.org/x/tools/go/ssa"
)

type model = func(r *Run, fr *frame, a []value) value

var models map[string]model

// exitProg is os.Exit / log.Fatal of the analysed program.
type exitProg struct{ code int64 }

func str(v value) string {
	switch x := v.(type) {
	case string:
		return x
	case iface:
		return str(x.v)
	}
	panic(unmodelled{fmt.Sprintf("string expected, got %T", v)})
}

func strs(v value) []string {
	var out []string
	for _, e := range v.([]value) {
		out = append(out, str(e))
	}
	return out
}

func vals(s []string) []value {
	if s == nil {
		return []value(nil)
	}
	out := make([]value, len(s))
	for i := range s {
		out[i] = s[i]
	}
	return out
}

// inAtoms reports whether text p could lie inside the unknown text of s.
func (r *Run) inAtoms(s, p string) bool {
	if p == "" || !hasAtom(s) || hasAtom(p) {
		return false
	}
	for _, sg := range r.Atoms.segs(s) {
		if sg.atom == nil && !hasAtom(sg.text) {
			continue
		}
		set := csIdent
		if sg.atom != nil {
			set = sg.atom.rest
		}
		ok := true
		for i := 0; i < len(p); i++ {
			if !set.has(p[i]) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// undecidedContains forks on whether p occurs in the unknown part of s.
func (r *Run) undecidedContains(fr *frame, s, p string) bool {
	if !r.inAtoms(s, p) || r.Atoms.Reserved[p] {
		return false
	}
	return r.decide(fr, fmt.Sprintf("contains:%s %q", s, p))
}

func (r *Run) derive(op, s string) string { return r.Atoms.Derive(op, s).Text }

// cut is what is left of s, which has the prefix and the suffix, without them.
func (r *Run) cut(s, pre, suf string) string {
	a := r.Atoms.Derive("cut:"+pre+":"+suf, s)
	a.cutPre, a.cutSuf, a.of = pre, suf, s
	return a.Text
}

// uncut translates a question about a text that was cut to the one it was cut from.
func (r *Run) uncut(s string) (of, pre, suf string, ok bool) {
	if a := r.Atoms.Get(s); a != nil && a.of != "" {
		return a.of, a.cutPre, a.cutSuf, true
	}
	return
}

// mapAtoms applies f to literal runs and derives a new atom for each token.
func (r *Run) mapAtoms(op, s string, f func(string) string) string {
	if !hasAtom(s) {
		return f(s)
	}
	var b strings.Builder
	for _, sg := range r.Atoms.segs(s) {
		if sg.atom == nil && !hasAtom(sg.text) {
			b.WriteString(f(sg.text))
			continue
		}
		if sg.atom != nil && sg.atom.Kind == ANum {
			b.WriteString(sg.text)
			continue
		}
		// idempotent operations
		if sg.atom != nil && sg.atom.Kind == ADerived && strings.HasPrefix(sg.atom.Desc, op+"(") {
			b.WriteString(sg.text)
			continue
		}
		a := r.Atoms.Derive(op, sg.text)
		if sg.atom != nil {
			for c := byte(1); c < 128; c++ {
				if sg.atom.rest.has(c) || sg.atom.first.has(c) {
					m := f(string(rune(c)))
					if len(m) == 1 {
						a.rest.add(m[0])
					}
				}
			}
			if op == "lower" {
				a.first, a.rest = mkset("a-z0-9_"), mkset("a-z0-9_")
			}
		}
		b.WriteString(a.Text)
	}
	return b.String()
}

func (r *Run) trim(fr *frame, s, cut string, left, right bool) string {
	if !hasAtom(s) {
		if left {
			s = strings.TrimLeft(s, cut)
		}
		if right {
			s = strings.TrimRight(s, cut)
		}
		return s
	}
	end := func(sg seg) bool {
		if sg.atom == nil {
			return false
		}
		for i := 0; i < len(cut); i++ {
			if sg.atom.rest.has(cut[i]) || sg.atom.first.has(cut[i]) {
				return true
			}
		}
		return false
	}
	if left {
		s = strings.TrimLeft(s, cut)
		if sg := r.Atoms.segs(s); len(sg) > 0 && end(sg[0]) && r.decide(fr, fmt.Sprintf("trimleft:%s %q", s, cut)) {
			s = r.derive("trimleft", s)
		}
	}
	if right {
		s = strings.TrimRight(s, cut)
		if sg := r.Atoms.segs(s); len(sg) > 0 && end(sg[len(sg)-1]) && r.decide(fr, fmt.Sprintf("trimright:%s %q", s, cut)) {
			s = r.derive("trimright", s)
		}
	}
	return s
}

// replaceable: the pattern cannot lie in unknown text, or a fork.
func (r *Run) patternOp(fr *frame, op, s, p string, f func() value, other func(derived string) value) value {
	if r.undecidedContains(fr, s, p) {
		return other(r.derive(op+":"+strconv.Quote(p), s))
	}
	return f()
}

func (r *Run) predSym(fr *frame, name string, v value, f func(rune) bool) bool {
	switch x := v.(type) {
	case int64:
		return f(rune(x))
	case Sym:
		if x.set == nil {
			return r.decide(fr, name+":"+x.key)
		}
		cs := *x.set
		if k, ok := r.sets[x.key]; ok {
			cs = k
		}
		var yes, no charset
		for b := 0; b < 128; b++ {
			if !cs.has(byte(b)) {
				continue
			}
			c := int64(b)
			if x.tab != nil {
				c = x.tab[b]
			}
			if f(rune(c)) {
				yes.add(byte(b))
			} else {
				no.add(byte(b))
			}
		}
		if no.empty() {
			return true
		}
		if yes.empty() {
			return false
		}
		d := r.decide(fr, name+":"+x.key)
		if d {
			r.sets[x.key] = yes
		} else {
			r.sets[x.key] = no
		}
		return d
	}
	panic(unmodelled{fmt.Sprintf("%s of %T", name, v)})
}

func (r *Run) runeMap(v value, f func(rune) rune) value {
	switch x := v.(type) {
	case int64:
		return int64(f(rune(x)))
	case Sym:
		return r.mapSym(types.Typ[types.Int32], "rune", x, func(n int64) int64 { return int64(f(rune(n))) })
	}
	panic(unmodelled{fmt.Sprintf("rune expected, got %T", v)})
}

// ---- fmt ----

func (r *Run) display(fr *frame, x value, verb byte, plus bool) string {
	it, ok := x.(iface)
	if !ok {
		it = iface{t: types.Typ[types.String], v: x}
	}
	if it.t == nil {
		if verb == 'v' || verb == 's' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return types.TypeString(it.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if types.NewMethodSet(it.t).Lookup(nil, m) == nil {
				continue
			}
			f := r.P.SSA.LookupMethod(it.t, nil, m)
			if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
				continue
			}
			if b, ok := f.Signature.Results().At(0).Type().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			s := str(r.call(fr, f, []value{it.v}))
			if verb == 'q' {
				return r.quote(s)
			}
			return s
		}
	}
	switch v := it.v.(type) {
	case string:
		switch verb {
		case 'q':
			return r.quote(v)
		case 's', 'v':
			return v
		}
	case bool:
		return strconv.FormatBool(v)
	case int64:
		if isUnsigned(it.t) {
			return fmt.Sprintf("%"+string(verb), uint64(v))
		}
		if verb == 'c' || verb == 'q' || verb == 'U' {
			return fmt.Sprintf("%"+string(verb), rune(v))
		}
		return fmt.Sprintf("%"+string(verb), v)
	case float64:
		return fmt.Sprintf("%"+string(verb), v)
	case Sym:
		if v.num != "" {
			return v.num
		}
		if verb == 'c' || verb == 's' {
			return r.strFrom([]value{v}, true)
		}
		return r.derive("sym", v.key)
	case []value:
		var p []string
		et := types.Type(nil)
		if s, ok := it.t.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q') {
			s := r.strFrom(v, false)
			if verb == 'q' {
				return r.quote(s)
			}
			return s
		}
		for _, e := range v {
			ei, ok := e.(iface)
			if !ok {
				ei = iface{t: et, v: e}
			}
			p = append(p, r.display(fr, ei, verb, plus))
		}
		return "[" + strings.Join(p, " ") + "]"
	case nil:
		return "<nil>"
	}
	if isNilVal(it.v) {
		return "<nil>"
	}
	// addresses and aggregates: text that must not reach an output file
	return r.derive("addr", types.TypeString(it.t, nil))
}

func (r *Run) quote(s string) string { return strconv.Quote(s) }

func (r *Run) sprintf(fr *frame, f string, args []value) (string, value) {
	var b strings.Builder
	var wrapped value
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			b.WriteByte(f[i])
			continue
		}
		i++
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			b.WriteString("%!(NOVERB)")
			break
		}
		flags := f[st:i]
		verb := f[i]
		if verb == '%' {
			b.WriteByte('%')
			continue
		}
		if n >= len(args) {
			b.WriteString("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			if wrapped == nil {
				wrapped = a
			}
			verb = 'v'
		}
		if flags != "" && flags != "+" && flags != "#" {
			if it, ok := a.(iface); ok {
				switch v := it.v.(type) {
				case int64:
					b.WriteString(fmt.Sprintf("%"+flags+string(verb), v))
					continue
				case string:
					if !hasAtom(v) {
						b.WriteString(fmt.Sprintf("%"+flags+string(verb), v))
						continue
					}
				}
			}
		}
		if flags == "#" && verb == 'v' {
			if it, ok := a.(iface); ok {
				if s, ok := it.v.(string); ok {
					b.WriteString(r.quote(s))
					continue
				}
			}
		}
		b.WriteString(r.display(fr, a, verb, strings.Contains(flags, "+")))
	}
	if n < len(args) {
		b.WriteString("%!(EXTRA)")
	}
	return b.String(), wrapped
}

func (r *Run) sprint(fr *frame, args []value, ln bool) string {
	var b strings.Builder
	prevStr := true
	for i, a := range args {
		it, _ := a.(iface)
		_, isS := it.v.(string)
		if i > 0 && (ln || !isS && !prevStr) {
			b.WriteByte(' ')
		}
		b.WriteString(r.display(fr, a, 'v', false))
		prevStr = isS
	}
	if ln {
		b.WriteByte('\n')
	}
	return b.String()
}

// writeTo calls w.Write(text).
func (r *Run) writeTo(fr *frame, w value, text string) value {
	it := w.(iface)
	if it.t == nil {
		r.throw(fr, "invalid memory address or nil pointer dereference")
	}
	f := r.P.SSA.LookupMethod(it.t, nil, "Write")
	if f == nil {
		panic(unmodelled{"Write of " + it.t.String()})
	}
	return r.call(fr, f, []value{it.v, r.bytesOf(text)})
}

func nilErr() value { return iface{} }

func isErr(v value) bool { it, ok := v.(iface); return ok && it.t != nil }

// ---- files ----

func (r *Run) newFile(h *handle) *value {
	p := new(value)
	*p = zero(r.typ("os", "File"))
	r.side[p] = h
	return p
}

func (r *Run) handle(fr *frame, v value) *handle {
	p, _ := v.(*value)
	if p == nil {
		r.throw(fr, "invalid memory address or nil pointer dereference")
	}
	h, ok := r.side[p].(*handle)
	if !ok {
		panic(unmodelled{"unknown *os.File"})
	}
	return h
}

func (r *Run) errno(name string) value {
	switch name {
	case "notexist":
		return r.sentinel("file does not exist")
	case "permission":
		return r.sentinel("permission denied")
	case "fault":
		return r.sentinel("injected input/output error")
	case "fault-open":
		return r.sentinel("injected error opening a file")
	}
	return r.newError(name)
}

var sentinelKey = new(value)

func (r *Run) sentinel(msg string) value {
	m, _ := r.side[sentinelKey].(map[string]value)
	if m == nil {
		m = map[string]value{}
		r.side[sentinelKey] = m
	}
	if e, ok := m[msg]; ok {
		return e
	}
	e := r.newError(msg)
	m[msg] = e
	return e
}

func (r *Run) create(fr *frame, name string, trunc bool) (*value, value) {
	name = r.FS.abs(name)
	if r.fault(fr, "create") {
		return nil, r.pathError("open", name, r.errno("fault"))
	}
	if r.FS.Dirs[name] || !r.FS.Dirs[path.Dir(name)] {
		return nil, r.pathError("open", name, r.errno("notexist"))
	}
	r.effect(fr, "create", name)
	if trunc {
		r.FS.Files[name] = ""
	} else if _, ok := r.FS.Files[name]; !ok {
		r.FS.Files[name] = ""
	}
	return r.newFile(&handle{name: name, write: true}), nilErr()
}

func (r *Run) open(fr *frame, name string) (*value, value) {
	name = r.FS.abs(name)
	data, ok := r.FS.Files[name]
	if !ok && !r.FS.Dirs[name] {
		return nil, r.pathError("open", name, r.errno("notexist"))
	}
	if r.fault(fr, "open") {
		return nil, r.pathError("open", name, r.errno("fault-open"))
	}
	r.effect(fr, "read", name)
	return r.newFile(&handle{name: name, data: r.bytesOf(data)}), nilErr()
}

func (r *Run) readFile(fr *frame, name string) (string, value) {
	name = r.FS.abs(name)
	data, ok := r.FS.Files[name]
	if !ok {
		return "", r.pathError("open", name, r.errno("notexist"))
	}
	if r.fault(fr, "read") {
		return "", r.pathError("open", name, r.errno("fault-open"))
	}
	r.effect(fr, "read", name)
	return data, nilErr()
}

func (r *Run) fwrite(fr *frame, f value, text string) value {
	h := r.handle(fr, f)
	if h.std {
		r.effect(fr, "stdout", "")
		return tuple{int64(len(text)), nilErr()}
	}
	if h.closed {
		return tuple{int64(0), r.pathError("write", h.name, r.sentinel("file already closed"))}
	}
	if !h.write {
		return tuple{int64(0), r.pathError("write", h.name, r.newError("bad file descriptor"))}
	}
	if r.fault(fr, "write") {
		return tuple{int64(0), r.pathError("write", h.name, r.errno("fault"))}
	}
	r.effect(fr, "write", h.name)
	r.FS.Files[h.name] += text
	return tuple{int64(len(text)), nilErr()}
}

func (r *Run) dirEntry(d dent) value {
	t := r.typ("os", "unixDirent")
	p := new(value)
	*p = zero(t)
	r.setField(p, t, "name", d.name)
	if d.dir {
		r.setField(p, t, "typ", int64(fs.ModeDir))
	}
	return iface{t: types.NewPointer(t), v: p}
}

func (r *Run) fileInfo(name string, dir bool, size int64) value {
	t := r.typ("os", "fileStat")
	p := new(value)
	*p = zero(t)
	r.setField(p, t, "name", path.Base(name))
	r.setField(p, t, "size", size)
	m := int64(0o644)
	if dir {
		m = int64(fs.ModeDir | 0o755)
	}
	r.setField(p, t, "mode", m)
	return iface{t: types.NewPointer(t), v: p}
}

func (r *Run) stat(fr *frame, name string) value {
	name = r.FS.abs(name)
	if r.FS.Dirs[name] {
		return tuple{r.fileInfo(name, true, 0), nilErr()}
	}
	if d, ok := r.FS.Files[name]; ok {
		return tuple{r.fileInfo(name, false, int64(len(d))), nilErr()}
	}
	return tuple{iface{}, r.pathError("stat", name, r.errno("notexist"))}
}

// openFault: err is the failure of an open, whose cause (a dangling link, a
// missing permission) is not known.
func (r *Run) openFault(fr *frame, err value, cause string) bool {
	return r.equal(fr, err, r.errno("fault-open")) && r.decide(fr, "the failing open is "+cause)
}

func (r *Run) isNotExist(fr *frame, err value) bool {
	for i := 0; i < 20; i++ {
		it, ok := err.(iface)
		if !ok || it.t == nil {
			return false
		}
		if r.equal(fr, it, r.errno("notexist")) || r.openFault(fr, it, "not exist") {
			return true
		}
		p, _ := it.v.(*value)
		if p == nil {
			return false
		}
		if n, ok := types.Unalias(deref(it.t)).(*types.Named); ok && n.Obj().Name() == "PathError" {
			err = (*p).(structure)[2]
			continue
		}
		return false
	}
	return false
}

func (r *Run) embedFS(fr *frame) map[string]string {
	// all embedded files of the repository's packages, by path relative to
	// the embedding package
	out := map[string]string{}
	for pk, files := range r.P.Embed {
		p := r.P.All[pk]
		if p == nil || len(p.GoFiles) == 0 || !r.P.IsRepo(pk) {
			continue
		}
		dir := filepath.Dir(p.GoFiles[0])
		for _, f := range files {
			rel, err := filepath.Rel(dir, f)
			if err != nil {
				continue
			}
			b, err := os.ReadFile(f)
			if err == nil {
				out[filepath.ToSlash(rel)] = string(b)
			}
		}
	}
	return out
}

func listEmbed(files map[string]string, dir string) []dent {
	dir = path.Clean(dir)
	seen := map[string]bool{}
	var out []dent
	for f := range files {
		rest := f
		if dir != "." {
			if !strings.HasPrefix(f, dir+"/") {
				continue
			}
			rest = f[len(dir)+1:]
		}
		name, isDir := rest, false
		if i := strings.IndexByte(rest, '/'); i >= 0 {
			name, isDir = rest[:i], true
		}
		if !seen[name] {
			seen[name] = true
			out = append(out, dent{name, isDir})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// ---- syntax ----

func (r *Run) parseSource(fr *frame, filename string, src value) (string, value) {
	if it, ok := src.(iface); ok && it.t != nil {
		switch v := it.v.(type) {
		case string:
			return v, nilErr()
		case []value:
			return r.strFrom(v, false), nilErr()
		case *value:
			if strings.HasSuffix(it.t.String(), "bytes.Buffer") {
				f := r.P.SSA.LookupMethod(it.t, nil, "String")
				return str(r.call(fr, f, []value{it.v})), nilErr()
			}
		}
		// any other reader
		if all := r.P.SSA.ImportedPackage("io"); all != nil {
			t := r.call(fr, all.Func("ReadAll"), []value{it}).(tuple)
			if isErr(t[1]) {
				return "", t[1]
			}
			return r.strFrom(t[0].([]value), false), nilErr()
		}
		panic(unmodelled{"source of type " + it.t.String()})
	}
	return r.readFile(fr, filename)
}

func (r *Run) parseFile(fr *frame, fset *token.FileSet, filename string, src value, mode int64) value {
	ft := types.NewPointer(r.typ("go/ast", "File"))
	text, err := r.parseSource(fr, filename, src)
	if isErr(err) {
		return tuple{(*value)(nil), err}
	}
	if r.fault(fr, "parse") {
		return tuple{(*value)(nil), r.errno("fault")}
	}
	f, perr := parser.ParseFile(fset, filename, text, parser.Mode(mode))
	var fv value = (*value)(nil)
	if f != nil {
		fv = r.converter().in(reflect.ValueOf(f), ft)
	}
	if perr != nil {
		return tuple{fv, r.newError(perr.Error())}
	}
	return tuple{fv, nilErr()}
}

func (r *Run) parseDir(fr *frame, fset *token.FileSet, dir string, filter value, mode int64) value {
	pt := types.NewMap(types.Typ[types.String], types.NewPointer(r.typ("go/ast", "Package")))
	abs := r.FS.abs(dir)
	if !r.FS.Dirs[abs] {
		return tuple{(*hmap)(nil), r.pathError("open", dir, r.errno("notexist"))}
	}
	if r.fault(fr, "readdir") {
		return tuple{(*hmap)(nil), r.pathError("open", dir, r.errno("fault"))}
	}
	r.effect(fr, "read", abs)
	pkgs := map[string]*ast.Package{}
	var first error
	for _, d := range r.FS.list(abs) {
		if d.dir || !strings.HasSuffix(d.name, ".go") {
			continue
		}
		if !isNilVal(filter) {
			t := r.fileInfo(d.name, false, 0)
			if ok, _ := r.call(fr, filter, []value{t}).(bool); !ok {
				continue
			}
		}
		name := path.Join(dir, d.name)
		f, err := parser.ParseFile(fset, name, r.FS.Files[path.Join(abs, d.name)], parser.Mode(mode))
		if err != nil {
			if first == nil {
				first = err
			}
			continue
		}
		p := pkgs[f.Name.Name]
		if p == nil {
			p = &ast.Package{Name: f.Name.Name, Files: map[string]*ast.File{}}
			pkgs[f.Name.Name] = p
		}
		p.Files[name] = f
	}
	var ev value = nilErr()
	if r.fault(fr, "parse") {
		ev = r.errno("fault")
	} else if first != nil {
		ev = r.newError(first.Error())
	}
	return tuple{r.converter().in(reflect.ValueOf(pkgs), pt), ev}
}

func (r *Run) printNode(fr *frame, dst value, fset *token.FileSet, node value, how string, cfg *printer.Config) value {
	c := r.converter()
	it := node.(iface)
	if it.t == nil {
		return r.newError("unsupported node type <nil>")
	}
	var n any
	if s, ok := it.v.([]value); ok {
		switch strings.TrimPrefix(it.t.String(), "[]") {
		case "go/ast.Decl":
			n = c.out(s, it.t, reflect.TypeOf([]ast.Decl{})).Interface()
		case "go/ast.Stmt":
			n = c.out(s, it.t, reflect.TypeOf([]ast.Stmt{})).Interface()
		}
	} else {
		n = c.out(it, it.t, reflect.TypeOf((*ast.Node)(nil)).Elem()).Interface()
	}
	if n == nil {
		return r.newError("unsupported node type")
	}
	if r.fault(fr, how) {
		return r.errno("fault")
	}
	var buf bytes.Buffer
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.throw(fr, fmt.Sprintf("printing a malformed tree: %v", p))
			}
		}()
		if how == "format" {
			err = format.Node(&buf, fset, n)
		} else if cfg != nil {
			err = cfg.Fprint(&buf, fset, n)
		} else {
			err = printer.Fprint(&buf, fset, n)
		}
	}()
	if err != nil {
		return r.newError(err.Error())
	}
	if node, ok := n.(ast.Node); ok {
		r.Printed = append(r.Printed, PrintedAST{File: node, Fset: fset, Prov: c.natProv, Text: buf.String(), Where: r.provOf(fr)})
	}
	t := r.writeTo(fr, dst, buf.String()).(tuple)
	return t[1]
}

// ---- templates ----

type tmpl struct{ t *template.Template }

func (r *Run) tmplOf(fr *frame, v value) *template.Template {
	p, _ := v.(*value)
	if p == nil {
		r.throw(fr, "invalid memory address or nil pointer dereference")
	}
	if t, ok := r.side[p].(tmpl); ok {
		return t.t
	}
	t := template.New("").Option("missingkey=error")
	r.side[p] = tmpl{t}
	return t
}

func (r *Run) tmplVal(t *template.Template) value {
	if t == nil {
		return (*value)(nil)
	}
	p := new(value)
	*p = zero(r.typ("text/template", "Template"))
	r.side[p] = tmpl{t}
	return p
}

// plain converts data for template execution.
func (r *Run) plain(t types.Type, v value) any {
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			return nil
		}
		return r.plain(x.t, x.v)
	case *value:
		if x == nil {
			return nil
		}
		return r.plain(deref(t), *x)
	case structure:
		st := t.Underlying().(*types.Struct)
		m := map[string]any{}
		for i := range x {
			if st.Field(i).Exported() {
				m[st.Field(i).Name()] = r.plain(st.Field(i).Type(), x[i])
			}
		}
		return m
	case []value:
		var out []any
		et := t.Underlying().(*types.Slice).Elem()
		for _, e := range x {
			out = append(out, r.plain(et, e))
		}
		return out
	case *hmap:
		m := map[string]any{}
		mt := t.Underlying().(*types.Map)
		if x != nil {
			for _, e := range x.ents {
				if !e.dead {
					m[fmt.Sprint(e.k)] = r.plain(mt.Elem(), e.v)
				}
			}
		}
		return m
	case string, bool, int64, float64, nil:
		return x
	}
	panic(unmodelled{fmt.Sprintf("template data of %T", v)})
}

const nowMagic = int64(0x7EA1_0000_0001)

// globalModel gives the value of a global of a package that is not initialised.
func (r *Run) globalModel(g *ssa.Global) value {
	if g.Pkg == nil {
		return nil
	}
	pp := g.Pkg.Pkg.Path()
	switch pp + "." + g.Name() {
	case "os.Stdout", "os.Stderr", "os.Stdin":
		return r.newFile(&handle{name: g.Name(), std: true})
	case "os.Args":
		return []value{"prog"}
	case "os.ErrNotExist", "io/fs.ErrNotExist", "internal/oserror.ErrNotExist":
		return r.errno("notexist")
	case "os.ErrPermission", "io/fs.ErrPermission", "internal/oserror.ErrPermission":
		return r.errno("permission")
	case "time.UTC", "time.Local":
		p := new(value)
		*p = zero(deref(deref(g.Type())))
		return p
	}
	if noInit(pp) {
		if t := deref(g.Type()); t.String() == "error" {
			return r.newError(g.String())
		}
	}
	return nil
}

func id(i int) model { return func(r *Run, fr *frame, a []value) value { return a[i] } }
func none(r *Run, fr *frame, a []value) value {
	return nil
}

// s1 lifts a function of one string acting on literal text only.
func s1(f func(string) string) model {
	return func(r *Run, fr *frame, a []value) value { return f(str(a[0])) }
}

func (r *Run) numText(fr *frame, s string, parse func(string) (value, error)) value {
	if !hasAtom(s) {
		v, err := parse(s)
		if err != nil {
			return tuple{v, r.newError(err.Error())}
		}
		return tuple{v, nilErr()}
	}
	sg := r.Atoms.segs(s)
	digits := true
	for _, g := range sg {
		if g.atom == nil || g.atom.Kind != ANum {
			digits = false
		}
	}
	zeroV, _ := parse("0")
	if !digits && !r.decide(fr, "numeric:"+s) {
		return tuple{zeroV, r.newError("invalid syntax")}
	}
	switch zeroV.(type) {
	case int64:
		return tuple{Sym{rep: int64(77), key: "num:" + s, num: s}, nilErr()}
	}
	return tuple{zeroV, nilErr()}
}

func init() {
	models = map[string]model{
		// strings
		"strings.Contains": func(r *Run, fr *frame, a []value) value {
			s, p := str(a[0]), str(a[1])
			return strings.Contains(s, p) || r.undecidedContains(fr, s, p)
		},
		"strings.ContainsRune": func(r *Run, fr *frame, a []value) value {
			s, p := str(a[0]), string(rune(r.toInt64(a[1])))
			return strings.Contains(s, p) || r.undecidedContains(fr, s, p)
		},
		"strings.ContainsAny": func(r *Run, fr *frame, a []value) value {
			s := str(a[0])
			for _, c := range str(a[1]) {
				if strings.ContainsRune(s, c) || r.undecidedContains(fr, s, string(c)) {
					return true
				}
			}
			return false
		},
		"strings.HasPrefix": func(r *Run, fr *frame, a []value) value { return r.hasPrefix(fr, str(a[0]), str(a[1])) },
		"strings.HasSuffix": func(r *Run, fr *frame, a []value) value { return r.hasSuffix(fr, str(a[0]), str(a[1])) },
		"strings.EqualFold": func(r *Run, fr *frame, a []value) value {
			x, y := str(a[0]), str(a[1])
			if strings.EqualFold(x, y) {
				return true
			}
			if !hasAtom(x) && !hasAtom(y) {
				return false
			}
			return r.decide(fr, "fold:"+x+"="+y)
		},
		"strings.Index": func(r *Run, fr *frame, a []value) value {
			s, p := str(a[0]), str(a[1])
			i := strings.Index(s, p)
			if i < 0 && r.undecidedContains(fr, s, p) {
				panic(unmodelled{"position inside an atom"})
			}
			return int64(i)
		},
		"strings.LastIndex": func(r *Run, fr *frame, a []value) value {
			s, p := str(a[0]), str(a[1])
			i := strings.LastIndex(s, p)
			if i < 0 && r.undecidedContains(fr, s, p) {
				panic(unmodelled{"position inside an atom"})
			}
			return int64(i)
		},
		"strings.IndexByte": func(r *Run, fr *frame, a []value) value {
			return models["strings.Index"](r, fr, []value{a[0], string(rune(r.toInt64(a[1])))})
		},
		"strings.IndexRune": func(r *Run, fr *frame, a []value) value {
			return models["strings.Index"](r, fr, []value{a[0], string(rune(r.toInt64(a[1])))})
		},
		"strings.LastIndexByte": func(r *Run, fr *frame, a []value) value {
			return models["strings.LastIndex"](r, fr, []value{a[0], string(rune(r.toInt64(a[1])))})
		},
		"strings.IndexAny": func(r *Run, fr *frame, a []value) value {
			s, p := str(a[0]), str(a[1])
			i := strings.IndexAny(s, p)
			if i < 0 {
				for _, c := range p {
					if r.undecidedContains(fr, s, string(c)) {
						panic(unmodelled{"position inside an atom"})
					}
				}
			}
			return int64(i)
		},
		"strings.Count": func(r *Run, fr *frame, a []value) value { return int64(strings.Count(str(a[0]), str(a[1]))) },
		"strings.Cut": func(r *Run, fr *frame, a []value) value {
			s, p := str(a[0]), str(a[1])
			return r.patternOp(fr, "split", s, p, func() value {
				x, y, ok := strings.Cut(s, p)
				return tuple{x, y, ok}
			}, func(d string) value { return tuple{d, r.derive("splitrest", s), true} })
		},
		"strings.CutPrefix": func(r *Run, fr *frame, a []value) value {
			s, p := str(a[0]), str(a[1])
			if x, ok := strings.CutPrefix(s, p); ok {
				return tuple{x, true}
			}
			if r.hasPrefix(fr, s, p) {
				return tuple{r.cut(s, p, ""), true}
			}
			return tuple{s, false}
		},
		"strings.CutSuffix": func(r *Run, fr *frame, a []value) value {
			s, p := str(a[0]), str(a[1])
			if x, ok := strings.CutSuffix(s, p); ok {
				return tuple{x, true}
			}
			if r.hasSuffix(fr, s, p) {
				return tuple{r.cut(s, "", p), true}
			}
			return tuple{s, false}
		},
		"strings.TrimPrefix": func(r *Run, fr *frame, a []value) value {
			return models["strings.CutPrefix"](r, fr, a).(tuple)[0]
		},
		"strings.TrimSuffix": func(r *Run, fr *frame, a []value) value {
			return models["strings.CutSuffix"](r, fr, a).(tuple)[0]
		},
		"strings.Join": func(r *Run, fr *frame, a []value) value { return strings.Join(strs(a[0]), str(a[1])) },
		"strings.Split": func(r *Run, fr *frame, a []value) value {
			s, p := str(a[0]), str(a[1])
			return r.patternOp(fr, "split", s, p, func() value { return vals(strings.Split(s, p)) },
				func(d string) value { return []value{d, r.derive("splitrest", s)} })
		},
		"strings.SplitN": func(r *Run, fr *frame, a []value) value {
			s, p, n := str(a[0]), str(a[1]), r.toInt(a[2])
			return r.patternOp(fr, "split", s, p, func() value { return vals(strings.SplitN(s, p, n)) },
				func(d string) value { return []value{d, r.derive("splitrest", s)} })
		},
		"strings.SplitAfter": func(r *Run, fr *frame, a []value) value { return vals(strings.SplitAfter(str(a[0]), str(a[1]))) },
		"strings.Fields": func(r *Run, fr *frame, a []value) value {
			s := str(a[0])
			if r.inAtoms(s, " ") && r.decide(fr, "fields:"+s) {
				return []value{r.derive("fields", s), r.derive("fieldsrest", s)}
			}
			return vals(strings.Fields(s))
		},
		"strings.Replace": func(r *Run, fr *frame, a []value) value {
			s, p, n, k := str(a[0]), str(a[1]), str(a[2]), r.toInt(a[3])
			return r.patternOp(fr, "replace", s, p, func() value { return strings.Replace(s, p, n, k) }, func(d string) value { return d })
		},
		"strings.ReplaceAll": func(r *Run, fr *frame, a []value) value {
			s, p, n := str(a[0]), str(a[1]), str(a[2])
			return r.patternOp(fr, "replace", s, p, func() value { return strings.ReplaceAll(s, p, n) }, func(d string) value { return d })
		},
		"strings.Repeat":  func(r *Run, fr *frame, a []value) value { return strings.Repeat(str(a[0]), r.toInt(a[1])) },
		"strings.ToLower": func(r *Run, fr *frame, a []value) value { return r.mapAtoms("lower", str(a[0]), strings.ToLower) },
		"strings.ToUpper": func(r *Run, fr *frame, a []value) value { return r.mapAtoms("upper", str(a[0]), strings.ToUpper) },
		"strings.Title":   func(r *Run, fr *frame, a []value) value { return r.mapAtoms("title", str(a[0]), strings.ToTitle) },
		"strings.TrimSpace": func(r *Run, fr *frame, a []value) value {
			return r.trim(fr, str(a[0]), " \t\n\r\v\f", true, true)
		},
		"strings.Trim":      func(r *Run, fr *frame, a []value) value { return r.trim(fr, str(a[0]), str(a[1]), true, true) },
		"strings.TrimLeft":  func(r *Run, fr *frame, a []value) value { return r.trim(fr, str(a[0]), str(a[1]), true, false) },
		"strings.TrimRight": func(r *Run, fr *frame, a []value) value { return r.trim(fr, str(a[0]), str(a[1]), false, true) },
		"strings.Compare":   func(r *Run, fr *frame, a []value) value { return int64(strings.Compare(str(a[0]), str(a[1]))) },
		"strings.Clone":     id(0),
		"(*strings.Builder).String": func(r *Run, fr *frame, a []value) value {
			return r.strFrom((*r.field(a[0].(*value), r.typ("strings", "Builder"), "buf")).([]value), false)
		},
		"(*strings.Builder).Len": func(r *Run, fr *frame, a []value) value {
			return r.lenOf(r.strFrom((*r.field(a[0].(*value), r.typ("strings", "Builder"), "buf")).([]value), false))
		},
		"(*strings.Builder).Grow": none,
		"(*strings.Builder).WriteString": func(r *Run, fr *frame, a []value) value {
			b := r.field(a[0].(*value), r.typ("strings", "Builder"), "buf")
			*b = append((*b).([]value), r.bytesOf(str(a[1]))...)
			return tuple{int64(len(str(a[1]))), nilErr()}
		},
		"(*strings.Builder).Write": func(r *Run, fr *frame, a []value) value {
			b := r.field(a[0].(*value), r.typ("strings", "Builder"), "buf")
			*b = append((*b).([]value), a[1].([]value)...)
			return tuple{int64(len(a[1].([]value))), nilErr()}
		},
		"(*strings.Builder).WriteByte": func(r *Run, fr *frame, a []value) value {
			b := r.field(a[0].(*value), r.typ("strings", "Builder"), "buf")
			*b = append((*b).([]value), a[1])
			return nilErr()
		},
		"(*strings.Builder).WriteRune": func(r *Run, fr *frame, a []value) value {
			b := r.field(a[0].(*value), r.typ("strings", "Builder"), "buf")
			if s, ok := a[1].(Sym); ok && s.rep.(int64) < 128 {
				*b = append((*b).([]value), s)
				return tuple{int64(1), nilErr()}
			}
			t := r.strFrom([]value{a[1]}, true)
			for i := 0; i < len(t); i++ {
				*b = append((*b).([]value), int64(t[i]))
			}
			return tuple{int64(len(t)), nilErr()}
		},
		"bytes.Equal": func(r *Run, fr *frame, a []value) value {
			return r.eqStr(fr, r.strFrom(a[0].([]value), false), r.strFrom(a[1].([]value), false))
		},
		"bytes.Contains": func(r *Run, fr *frame, a []value) value {
			return models["strings.Contains"](r, fr, []value{r.strFrom(a[0].([]value), false), r.strFrom(a[1].([]value), false)})
		},
		"bytes.HasPrefix": func(r *Run, fr *frame, a []value) value {
			return r.hasPrefix(fr, r.strFrom(a[0].([]value), false), r.strFrom(a[1].([]value), false))
		},
		"bytes.HasSuffix": func(r *Run, fr *frame, a []value) value {
			return r.hasSuffix(fr, r.strFrom(a[0].([]value), false), r.strFrom(a[1].([]value), false))
		},
		"bytes.TrimSpace": func(r *Run, fr *frame, a []value) value {
			return r.bytesOf(r.trim(fr, r.strFrom(a[0].([]value), false), " \t\n\r\v\f", true, true))
		},
		"bytes.ReplaceAll": func(r *Run, fr *frame, a []value) value {
			return r.bytesOf(str(models["strings.ReplaceAll"](r, fr, []value{r.strFrom(a[0].([]value), false), r.strFrom(a[1].([]value), false), r.strFrom(a[2].([]value), false)})))
		},
		"internal/abi.NoEscape": id(0),
		"internal/bytealg.MakeNoZero": func(r *Run, fr *frame, a []value) value {
			n := r.toInt(a[0])
			s := make([]value, n)
			for i := range s {
				s[i] = int64(0)
			}
			return s
		},
		"internal/bytealg.IndexByte": func(r *Run, fr *frame, a []value) value {
			return int64(strings.IndexByte(strOf(a[0], false), byte(r.toInt64(a[1]))))
		},
		"internal/bytealg.IndexByteString": func(r *Run, fr *frame, a []value) value {
			return int64(strings.IndexByte(str(a[0]), byte(r.toInt64(a[1]))))
		},
		"internal/bytealg.CountString": func(r *Run, fr *frame, a []value) value {
			return int64(strings.Count(str(a[0]), string(rune(r.toInt64(a[1])))))
		},
		"internal/bytealg.Equal": func(r *Run, fr *frame, a []value) value { return strOf(a[0], false) == strOf(a[1], false) },
		"internal/bytealg.Compare": func(r *Run, fr *frame, a []value) value {
			return int64(strings.Compare(strOf(a[0], false), strOf(a[1], false)))
		},
		"internal/bytealg.LastIndexByteString": func(r *Run, fr *frame, a []value) value {
			return int64(strings.LastIndexByte(str(a[0]), byte(r.toInt64(a[1]))))
		},

		// strconv
		"strconv.Itoa": func(r *Run, fr *frame, a []value) value {
			return r.display(fr, iface{t: types.Typ[types.Int], v: a[0]}, 'd', false)
		},
		"strconv.FormatBool": func(r *Run, fr *frame, a []value) value { return strconv.FormatBool(a[0].(bool)) },
		"strconv.FormatInt": func(r *Run, fr *frame, a []value) value {
			if s, ok := a[0].(Sym); ok {
				return r.display(fr, iface{t: types.Typ[types.Int], v: s}, 'd', false)
			}
			return strconv.FormatInt(r.toInt64(a[0]), r.toInt(a[1]))
		},
		"strconv.FormatUint": func(r *Run, fr *frame, a []value) value {
			if s, ok := a[0].(Sym); ok {
				return r.display(fr, iface{t: types.Typ[types.Int], v: s}, 'd', false)
			}
			return strconv.FormatUint(uint64(r.toInt64(a[0])), r.toInt(a[1]))
		},
		"strconv.Quote": func(r *Run, fr *frame, a []value) value { return r.quote(str(a[0])) },
		"strconv.AppendQuote": func(r *Run, fr *frame, a []value) value {
			return append(append([]value{}, a[0].([]value)...), r.bytesOf(r.quote(str(a[1])))...)
		},
		"strconv.Unquote": func(r *Run, fr *frame, a []value) value {
			s, err := strconv.Unquote(str(a[0]))
			if err != nil {
				return tuple{"", r.newError(err.Error())}
			}
			return tuple{s, nilErr()}
		},
		"strconv.Atoi": func(r *Run, fr *frame, a []value) value {
			return r.numText(fr, str(a[0]), func(s string) (value, error) { n, err := strconv.Atoi(s); return int64(n), err })
		},
		"strconv.ParseInt": func(r *Run, fr *frame, a []value) value {
			return r.numText(fr, str(a[0]), func(s string) (value, error) {
				n, err := strconv.ParseInt(s, r.toInt(a[1]), r.toInt(a[2]))
				return n, err
			})
		},
		"strconv.ParseUint": func(r *Run, fr *frame, a []value) value {
			return r.numText(fr, str(a[0]), func(s string) (value, error) {
				n, err := strconv.ParseUint(s, r.toInt(a[1]), r.toInt(a[2]))
				return int64(n), err
			})
		},
		"strconv.ParseFloat": func(r *Run, fr *frame, a []value) value {
			return r.numText(fr, str(a[0]), func(s string) (value, error) { n, err := strconv.ParseFloat(s, r.toInt(a[1])); return n, err })
		},
		"strconv.ParseBool": func(r *Run, fr *frame, a []value) value {
			s := str(a[0])
			if hasAtom(s) {
				if !r.decide(fr, "bool?:"+s) {
					return tuple{false, r.newError("invalid syntax")}
				}
				return tuple{r.decide(fr, "bool:"+s), nilErr()}
			}
			b, err := strconv.ParseBool(s)
			if err != nil {
				return tuple{false, r.newError(err.Error())}
			}
			return tuple{b, nilErr()}
		},

		// unicode
		"unicode.IsUpper":  func(r *Run, fr *frame, a []value) value { return r.predSym(fr, "isupper", a[0], unicode.IsUpper) },
		"unicode.IsLower":  func(r *Run, fr *frame, a []value) value { return r.predSym(fr, "islower", a[0], unicode.IsLower) },
		"unicode.IsLetter": func(r *Run, fr *frame, a []value) value { return r.predSym(fr, "isletter", a[0], unicode.IsLetter) },
		"unicode.IsDigit":  func(r *Run, fr *frame, a []value) value { return r.predSym(fr, "isdigit", a[0], unicode.IsDigit) },
		"unicode.IsNumber": func(r *Run, fr *frame, a []value) value { return r.predSym(fr, "isnumber", a[0], unicode.IsNumber) },
		"unicode.IsSpace":  func(r *Run, fr *frame, a []value) value { return r.predSym(fr, "isspace", a[0], unicode.IsSpace) },
		"unicode.IsPunct":  func(r *Run, fr *frame, a []value) value { return r.predSym(fr, "ispunct", a[0], unicode.IsPunct) },
		"unicode.ToLower":  func(r *Run, fr *frame, a []value) value { return r.runeMap(a[0], unicode.ToLower) },
		"unicode.ToUpper":  func(r *Run, fr *frame, a []value) value { return r.runeMap(a[0], unicode.ToUpper) },
		"unicode/utf8.DecodeRuneInString": func(r *Run, fr *frame, a []value) value {
			s := str(a[0])
			_, w := utf8.DecodeRuneInString(s)
			rs := r.runesOf(s)
			if len(rs) == 0 {
				return tuple{int64(utf8.RuneError), int64(0)}
			}
			return tuple{rs[0], int64(w)}
		},
		"unicode/utf8.RuneCountInString": func(r *Run, fr *frame, a []value) value { return r.lenOf(str(a[0])) },
		"unicode/utf8.ValidString":       func(r *Run, fr *frame, a []value) value { return true },
		"unicode/utf8.RuneLen":           func(r *Run, fr *frame, a []value) value { return int64(utf8.RuneLen(rune(r.toInt64(a[0])))) },

		// paths
		"path.Dir":                   s1(path.Dir),
		"path.Base":                  s1(path.Base),
		"path.Ext":                   s1(path.Ext),
		"path.Clean":                 s1(path.Clean),
		"path.IsAbs":                 func(r *Run, fr *frame, a []value) value { return path.IsAbs(str(a[0])) },
		"path.Join":                  func(r *Run, fr *frame, a []value) value { return path.Join(strs(a[0])...) },
		"path.Split":                 func(r *Run, fr *frame, a []value) value { x, y := path.Split(str(a[0])); return tuple{x, y} },
		"path/filepath.Dir":          s1(path.Dir),
		"path/filepath.Base":         s1(path.Base),
		"path/filepath.Ext":          s1(path.Ext),
		"path/filepath.Clean":        s1(path.Clean),
		"path/filepath.ToSlash":      id(0),
		"path/filepath.FromSlash":    id(0),
		"path/filepath.IsAbs":        func(r *Run, fr *frame, a []value) value { return path.IsAbs(str(a[0])) },
		"path/filepath.Join":         func(r *Run, fr *frame, a []value) value { return path.Join(strs(a[0])...) },
		"path/filepath.Split":        func(r *Run, fr *frame, a []value) value { x, y := path.Split(str(a[0])); return tuple{x, y} },
		"path/filepath.Abs":          func(r *Run, fr *frame, a []value) value { return tuple{r.FS.abs(str(a[0])), nilErr()} },
		"path/filepath.EvalSymlinks": func(r *Run, fr *frame, a []value) value { return tuple{path.Clean(str(a[0])), nilErr()} },
		"path/filepath.Rel": func(r *Run, fr *frame, a []value) value {
			s, err := filepath.Rel(str(a[0]), str(a[1]))
			if err != nil {
				return tuple{"", r.newError(err.Error())}
			}
			return tuple{s, nilErr()}
		},
		"path/filepath.Match": func(r *Run, fr *frame, a []value) value {
			ok, err := path.Match(str(a[0]), str(a[1]))
			if err != nil {
				return tuple{false, r.newError(err.Error())}
			}
			return tuple{ok, nilErr()}
		},
		"path/filepath.Glob": func(r *Run, fr *frame, a []value) value {
			var out []string
			for f := range r.FS.Files {
				if ok, _ := path.Match(r.FS.abs(str(a[0])), f); ok {
					out = append(out, f)
				}
			}
			sort.Strings(out)
			return tuple{vals(out), nilErr()}
		},

		// sort
		"sort.Strings": func(r *Run, fr *frame, a []value) value {
			s := a[0].([]value)
			sort.SliceStable(s, func(i, j int) bool { return str(s[i]) < str(s[j]) })
			return nil
		},
		"sort.Ints": func(r *Run, fr *frame, a []value) value {
			s := a[0].([]value)
			sort.SliceStable(s, func(i, j int) bool { return r.toInt(s[i]) < r.toInt(s[j]) })
			return nil
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"sort.SliceIsSorted": func(r *Run, fr *frame, a []value) value {
			s := a[0].(iface).v.([]value)
			for i := len(s) - 1; i > 0; i-- {
				if b, _ := r.call(fr, a[1], []value{int64(i), int64(i - 1)}).(bool); b {
					return false
				}
			}
			return true
		},

		// fmt
		"fmt.Sprintf": func(r *Run, fr *frame, a []value) value {
			s, _ := r.sprintf(fr, str(a[0]), a[1].([]value))
			return s
		},
		"fmt.Sprint":   func(r *Run, fr *frame, a []value) value { return r.sprint(fr, a[0].([]value), false) },
		"fmt.Sprintln": func(r *Run, fr *frame, a []value) value { return r.sprint(fr, a[0].([]value), true) },
		"fmt.Errorf": func(r *Run, fr *frame, a []value) value {
			s, w := r.sprintf(fr, str(a[0]), a[1].([]value))
			if it, ok := w.(iface); ok && it.t != nil {
				p := new(value)
				*p = structure{s, it}
				return iface{t: types.NewPointer(r.typ("fmt", "wrapError")), v: p}
			}
			return r.newError(s)
		},
		"fmt.Fprintf": func(r *Run, fr *frame, a []value) value {
			s, _ := r.sprintf(fr, str(a[1]), a[2].([]value))
			return r.writeTo(fr, a[0], s)
		},
		"fmt.Fprint": func(r *Run, fr *frame, a []value) value {
			return r.writeTo(fr, a[0], r.sprint(fr, a[1].([]value), false))
		},
		"fmt.Fprintln": func(r *Run, fr *frame, a []value) value {
			return r.writeTo(fr, a[0], r.sprint(fr, a[1].([]value), true))
		},
		"fmt.Printf":  stdout2,
		"fmt.Print":   stdout2,
		"fmt.Println": stdout2,
		"log.Printf":  stdout0,
		"log.Print":   stdout0,
		"log.Println": stdout0,
		"log.Fatal":   exitModel,
		"log.Fatalf":  exitModel,
		"log.Fatalln": exitModel,
		"os.Exit":     func(r *Run, fr *frame, a []value) value { panic(exitProg{r.toInt64(a[0])}) },

		// errors
		"errors.Is": func(r *Run, fr *frame, a []value) value { return r.errorsIs(fr, a[0], a[1], 0) },
		"errors.As": func(r *Run, fr *frame, a []value) value {
			tgt := a[1].(iface)
			tt := deref(tgt.t)
			dst := tgt.v.(*value)
			cur := a[0]
			for i := 0; i < 50 && isErr(cur); i++ {
				it := cur.(iface)
				if ti, ok := tt.Underlying().(*types.Interface); ok {
					if types.Implements(it.t, ti) {
						*dst = it
						return true
					}
				} else if types.Identical(it.t, tt) {
					*dst = it.v
					return true
				}
				cur = r.unwrap(fr, it)
			}
			return false
		},
		"os.IsNotExist": func(r *Run, fr *frame, a []value) value { return r.isNotExist(fr, a[0]) },
		"os.IsPermission": func(r *Run, fr *frame, a []value) value {
			return r.errorsIs(fr, a[0], r.errno("permission"), 0)
		},
		"os.IsExist": func(r *Run, fr *frame, a []value) value { return false },

		// reflect
		"(reflect.StructTag).Get": func(r *Run, fr *frame, a []value) value { return reflect.StructTag(str(a[0])).Get(str(a[1])) },
		"(reflect.StructTag).Lookup": func(r *Run, fr *frame, a []value) value {
			s, ok := reflect.StructTag(str(a[0])).Lookup(str(a[1]))
			return tuple{s, ok}
		},

		// time, environment
		"time.Now": func(r *Run, fr *frame, a []value) value {
			r.effect(fr, "time", "")
			t := zero(r.typ("time", "Time")).(structure)
			t[0] = nowMagic
			return t
		},
		"time.Since": func(r *Run, fr *frame, a []value) value {
			r.effect(fr, "time", "")
			return Sym{rep: int64(1), key: "time.Since"}
		},
		"(time.Duration).String": func(r *Run, fr *frame, a []value) value {
			if s, ok := a[0].(Sym); ok {
				return r.derive("env", s.key)
			}
			return time.Duration(r.toInt64(a[0])).String()
		},
		"(time.Time).Format": func(r *Run, fr *frame, a []value) value {
			t := a[0].(structure)
			layout := str(a[1])
			if t[0] == value(nowMagic) {
				return r.derive("env", "time.Now")
			}
			if t[0] != value(int64(0)) || t[1] != value(int64(0)) {
				panic(unmodelled{"formatting a non-zero time"})
			}
			if hasAtom(layout) {
				return r.derive("zeroFormat", layout)
			}
			return time.Time{}.Format(layout)
		},
		"(time.Time).Unix":     envInt("time"),
		"(time.Time).UnixNano": envInt("time"),
		"(time.Time).Year":     envInt("time"),
		"(time.Time).String":   func(r *Run, fr *frame, a []value) value { return r.derive("env", "time.Now") },
		"(time.Time).UTC":      id(0),
		"(time.Time).IsZero":   func(r *Run, fr *frame, a []value) value { return a[0].(structure)[0] == value(int64(0)) },
		"os.Getenv": func(r *Run, fr *frame, a []value) value {
			r.effect(fr, "env", str(a[0]))
			return r.derive("env", str(a[0]))
		},
		"os.LookupEnv": func(r *Run, fr *frame, a []value) value {
			r.effect(fr, "env", str(a[0]))
			return tuple{r.derive("env", str(a[0])), r.decide(fr, "env set:"+str(a[0]))}
		},
		"os.Getwd": func(r *Run, fr *frame, a []value) value { return tuple{"/w", nilErr()} },
		"os.Hostname": func(r *Run, fr *frame, a []value) value {
			r.effect(fr, "env", "hostname")
			return tuple{r.derive("env", "hostname"), nilErr()}
		},
		"os.Getpid":         envInt("pid"),
		"math/rand.Int":     envInt("rand"),
		"math/rand.Intn":    envInt("rand"),
		"math/rand/v2.IntN": envInt("rand"),

		// os
		"os.Create": func(r *Run, fr *frame, a []value) value {
			f, err := r.create(fr, str(a[0]), true)
			return tuple{f, err}
		},
		"os.Open": func(r *Run, fr *frame, a []value) value {
			f, err := r.open(fr, str(a[0]))
			return tuple{f, err}
		},
		"os.OpenFile": func(r *Run, fr *frame, a []value) value {
			fl := r.toInt64(a[1])
			if fl&int64(os.O_WRONLY|os.O_RDWR) != 0 {
				name := r.FS.abs(str(a[0]))
				_, exists := r.FS.Files[name]
				if !exists && fl&int64(os.O_CREATE) == 0 {
					return tuple{(*value)(nil), r.pathError("open", name, r.errno("notexist"))}
				}
				if exists && fl&int64(os.O_EXCL) != 0 {
					return tuple{(*value)(nil), r.pathError("open", name, r.newError("file exists"))}
				}
				f, err := r.create(fr, name, fl&int64(os.O_TRUNC) != 0)
				if f != nil && fl&int64(os.O_TRUNC|os.O_APPEND) == 0 && exists {
					// overwriting without truncation: the tail of the old text stays
					r.effect(fr, "overlay", name)
				}
				return tuple{f, err}
			}
			f, err := r.open(fr, str(a[0]))
			return tuple{f, err}
		},
		"os.ReadFile": func(r *Run, fr *frame, a []value) value {
			s, err := r.readFile(fr, str(a[0]))
			if isErr(err) {
				return tuple{[]value(nil), err}
			}
			return tuple{r.bytesOf(s), nilErr()}
		},
		"os.WriteFile": func(r *Run, fr *frame, a []value) value {
			f, err := r.create(fr, str(a[0]), true)
			if isErr(err) {
				return err
			}
			return r.fwrite(fr, f, r.strFrom(a[1].([]value), false)).(tuple)[1]
		},
		"os.ReadDir": func(r *Run, fr *frame, a []value) value {
			d := r.FS.abs(str(a[0]))
			if !r.FS.Dirs[d] {
				return tuple{[]value(nil), r.pathError("open", d, r.errno("notexist"))}
			}
			if r.fault(fr, "readdir") {
				return tuple{[]value(nil), r.pathError("open", d, r.errno("fault"))}
			}
			out := []value{}
			for _, e := range r.FS.list(d) {
				out = append(out, r.dirEntry(e))
			}
			return tuple{out, nilErr()}
		},
		"os.Stat":  func(r *Run, fr *frame, a []value) value { return r.stat(fr, str(a[0])) },
		"os.Lstat": func(r *Run, fr *frame, a []value) value { return r.stat(fr, str(a[0])) },
		"os.Remove": func(r *Run, fr *frame, a []value) value {
			n := r.FS.abs(str(a[0]))
			if _, ok := r.FS.Files[n]; !ok {
				return r.pathError("remove", n, r.errno("notexist"))
			}
			r.effect(fr, "remove", n)
			delete(r.FS.Files, n)
			return nilErr()
		},
		"os.RemoveAll": func(r *Run, fr *frame, a []value) value {
			n := r.FS.abs(str(a[0]))
			for f := range r.FS.Files {
				if f == n || strings.HasPrefix(f, n+"/") {
					r.effect(fr, "remove", f)
					delete(r.FS.Files, f)
				}
			}
			return nilErr()
		},
		"os.Rename": func(r *Run, fr *frame, a []value) value {
			x, y := r.FS.abs(str(a[0])), r.FS.abs(str(a[1]))
			if r.fault(fr, "rename") {
				return r.pathError("rename", x, r.errno("fault"))
			}
			if _, ok := r.FS.Files[x]; !ok {
				return r.pathError("rename", x, r.errno("notexist"))
			}
			r.effect(fr, "rename", x+" -> "+y)
			r.FS.Files[y] = r.FS.Files[x]
			delete(r.FS.Files, x)
			return nilErr()
		},
		"os.MkdirAll": mkdir,
		"os.Mkdir":    mkdir,
		"os.CreateTemp": func(r *Run, fr *frame, a []value) value {
			d := str(a[0])
			if d == "" {
				d = "/tmp"
				r.FS.Dirs["/tmp"] = true
			}
			f, err := r.create(fr, path.Join(d, strings.Replace(str(a[1]), "*", "0", 1)), true)
			return tuple{f, err}
		},
		"os.Chmod":               func(r *Run, fr *frame, a []value) value { return nilErr() },
		"(*os.File).Chmod":       func(r *Run, fr *frame, a []value) value { return nilErr() },
		"(*os.File).Sync":        func(r *Run, fr *frame, a []value) value { return nilErr() },
		"(*os.File).Name":        func(r *Run, fr *frame, a []value) value { return r.handle(fr, a[0]).name },
		"(*os.File).Write":       func(r *Run, fr *frame, a []value) value { return r.fwrite(fr, a[0], r.strFrom(a[1].([]value), false)) },
		"(*os.File).WriteString": func(r *Run, fr *frame, a []value) value { return r.fwrite(fr, a[0], str(a[1])) },
		"(*os.File).Truncate": func(r *Run, fr *frame, a []value) value {
			h := r.handle(fr, a[0])
			r.FS.Files[h.name] = ""
			return nilErr()
		},
		"(*os.File).Close": func(r *Run, fr *frame, a []value) value {
			p, _ := a[0].(*value)
			if p == nil {
				return r.sentinel("invalid argument")
			}
			h := r.handle(fr, a[0])
			if h.closed {
				return r.pathError("close", h.name, r.sentinel("file already closed"))
			}
			h.closed = true
			if h.write && r.fault(fr, "close") {
				return r.pathError("close", h.name, r.errno("fault"))
			}
			return nilErr()
		},
		"(*os.File).Read": func(r *Run, fr *frame, a []value) value {
			h := r.handle(fr, a[0])
			buf := a[1].([]value)
			if h.off == 0 && r.fault(fr, "read") {
				return tuple{int64(0), r.pathError("read", h.name, r.errno("fault"))}
			}
			if h.off >= len(h.data) {
				return tuple{int64(0), *r.global(fr, r.P.SSA.ImportedPackage("io").Var("EOF"))}
			}
			n := copy(buf, h.data[h.off:])
			h.off += n
			return tuple{int64(n), nilErr()}
		},
		"(*os.File).Stat": func(r *Run, fr *frame, a []value) value { return r.stat(fr, r.handle(fr, a[0]).name) },
		"(*os.File).ReadDir": func(r *Run, fr *frame, a []value) value {
			return models["os.ReadDir"](r, fr, []value{r.handle(fr, a[0]).name})
		},

		// embed
		"(embed.FS).ReadDir": func(r *Run, fr *frame, a []value) value {
			out := []value{}
			for _, e := range listEmbed(r.embedFS(fr), str(a[1])) {
				out = append(out, r.dirEntry(e))
			}
			if len(out) == 0 || r.fault(fr, "embed readdir") {
				return tuple{[]value(nil), r.pathError("read", str(a[1]), r.errno("notexist"))}
			}
			return tuple{out, nilErr()}
		},
		"(embed.FS).ReadFile": func(r *Run, fr *frame, a []value) value {
			if s, ok := r.embedFS(fr)[path.Clean(str(a[1]))]; ok {
				return tuple{r.bytesOf(s), nilErr()}
			}
			return tuple{[]value(nil), r.pathError("open", str(a[1]), r.errno("notexist"))}
		},

		// templates
		"text/template.New": func(r *Run, fr *frame, a []value) value {
			return r.tmplVal(template.New(str(a[0])).Option("missingkey=error"))
		},
		"text/template.Must": func(r *Run, fr *frame, a []value) value {
			if isErr(a[1]) {
				panic(targetPanic{v: a[1], pos: r.where(fr)})
			}
			return a[0]
		},
		"(*text/template.Template).Parse": func(r *Run, fr *frame, a []value) value {
			if r.fault(fr, "template") {
				return tuple{(*value)(nil), r.errno("fault")}
			}
			t, err := r.tmplOf(fr, a[0]).Parse(str(a[1]))
			if err != nil {
				return tuple{(*value)(nil), r.newError(err.Error())}
			}
			return tuple{r.tmplVal(t), nilErr()}
		},
		"(*text/template.Template).ParseFS": func(r *Run, fr *frame, a []value) value {
			return r.parseFS(fr, r.tmplOf(fr, a[0]), a[0], strs(a[2]))
		},
		"text/template.ParseFS": func(r *Run, fr *frame, a []value) value {
			return r.parseFS(fr, nil, nil, strs(a[1]))
		},
		"(*text/template.Template).Templates": func(r *Run, fr *frame, a []value) value {
			ts := r.tmplOf(fr, a[0]).Templates()
			sort.Slice(ts, func(i, j int) bool { return ts[i].Name() < ts[j].Name() })
			if len(ts) > 1 {
				r.effect(fr, "maporder", "Templates()")
			}
			var out []value
			for _, t := range ts {
				out = append(out, r.tmplVal(t))
			}
			return out
		},
		"(*text/template.Template).Lookup": func(r *Run, fr *frame, a []value) value {
			return r.tmplVal(r.tmplOf(fr, a[0]).Lookup(str(a[1])))
		},
		"(*text/template.Template).Name":   func(r *Run, fr *frame, a []value) value { return r.tmplOf(fr, a[0]).Name() },
		"(*text/template.Template).Option": id(0),
		"(*text/template.Template).Execute": func(r *Run, fr *frame, a []value) value {
			return r.execTmpl(fr, r.tmplOf(fr, a[0]), a[1], a[2])
		},
		"(*text/template.Template).ExecuteTemplate": func(r *Run, fr *frame, a []value) value {
			t := r.tmplOf(fr, a[0]).Lookup(str(a[2]))
			if t == nil {
				return r.newError("no template " + str(a[2]))
			}
			return r.execTmpl(fr, t, a[1], a[3])
		},

		// go/*
		"go/token.NewFileSet": func(r *Run, fr *frame, a []value) value {
			p := new(value)
			*p = zero(r.typ("go/token", "FileSet"))
			r.side[p] = token.NewFileSet()
			return p
		},
		"(*go/token.FileSet).Position": func(r *Run, fr *frame, a []value) value {
			ps := r.fset(a[0]).Position(token.Pos(r.toInt64(a[1])))
			return structure{ps.Filename, int64(ps.Offset), int64(ps.Line), int64(ps.Column)}
		},
		"(go/token.Position).String": func(r *Run, fr *frame, a []value) value {
			s := a[0].(structure)
			return token.Position{Filename: str(s[0]), Offset: r.toInt(s[1]), Line: r.toInt(s[2]), Column: r.toInt(s[3])}.String()
		},
		"go/parser.ParseFile": func(r *Run, fr *frame, a []value) value {
			return r.parseFile(fr, r.fset(a[0]), str(a[1]), a[2], r.toInt64(a[3]))
		},
		"go/parser.ParseDir": func(r *Run, fr *frame, a []value) value {
			return r.parseDir(fr, r.fset(a[0]), str(a[1]), a[2], r.toInt64(a[3]))
		},
		"go/parser.ParseExpr": func(r *Run, fr *frame, a []value) value {
			e, err := parser.ParseExpr(str(a[0]))
			if err != nil {
				return tuple{iface{}, r.newError(err.Error())}
			}
			return tuple{r.converter().in(reflect.ValueOf(&e).Elem(), r.typ("go/ast", "Expr")), nilErr()}
		},
		"go/format.Node": func(r *Run, fr *frame, a []value) value {
			return r.printNode(fr, a[0], r.fset(a[1]), a[2], "format", nil)
		},
		"go/format.Source": func(r *Run, fr *frame, a []value) value {
			if r.fault(fr, "format") {
				return tuple{[]value(nil), r.errno("fault")}
			}
			out, err := format.Source([]byte(r.strFrom(a[0].([]value), false)))
			if err != nil {
				return tuple{[]value(nil), r.newError(err.Error())}
			}
			return tuple{r.bytesOf(string(out)), nilErr()}
		},
		"go/printer.Fprint": func(r *Run, fr *frame, a []value) value {
			return r.printNode(fr, a[0], r.fset(a[1]), a[2], "print", nil)
		},
		"(*go/printer.Config).Fprint": func(r *Run, fr *frame, a []value) value {
			s := (*a[0].(*value)).(structure)
			return r.printNode(fr, a[1], r.fset(a[2]), a[3], "print", &printer.Config{Mode: printer.Mode(r.toInt64(s[0])), Tabwidth: r.toInt(s[1]), Indent: r.toInt(s[2])})
		},
		"golang.org/x/mod/modfile.ModulePath": func(r *Run, fr *frame, a []value) value {
			return modfile.ModulePath([]byte(r.strFrom(a[0].([]value), false)))
		},
		"golang.org/x/mod/modfile.ParseLax": parseMod(modfile.ParseLax),
		"golang.org/x/mod/modfile.Parse":    parseMod(modfile.Parse),

		// sync
		"(*sync.Mutex).Lock":      none,
		"(*sync.Mutex).Unlock":    none,
		"(*sync.RWMutex).Lock":    none,
		"(*sync.RWMutex).Unlock":  none,
		"(*sync.RWMutex).RLock":   none,
		"(*sync.RWMutex).RUnlock": none,
		"(*sync.Once).Do": func(r *Run, fr *frame, a []value) value {
			p := a[0].(*value)
			if r.side[p] != nil {
				return nil
			}
			r.side[p] = true
			r.call(fr, a[1], nil)
			return nil
		},
		"(*sync.WaitGroup).Add":  none,
		"(*sync.WaitGroup).Done": none,
		"(*sync.WaitGroup).Wait": none,
		"runtime.GC":             none,
		"runtime.KeepAlive":      none,
	}
}

func envInt(what string) model {
	return func(r *Run, fr *frame, a []value) value {
		r.effect(fr, what, "")
		return Sym{rep: int64(1), key: "env:" + what}
	}
}

func stdout2(r *Run, fr *frame, a []value) value {
	r.effect(fr, "stdout", "")
	return tuple{int64(0), nilErr()}
}
func stdout0(r *Run, fr *frame, a []value) value {
	r.effect(fr, "stdout", "")
	return nil
}
func exitModel(r *Run, fr *frame, a []value) value { panic(exitProg{1}) }

func mkdir(r *Run, fr *frame, a []value) value {
	n := r.FS.abs(str(a[0]))
	if !r.FS.Dirs[n] {
		r.effect(fr, "mkdir", n)
	}
	for d := n; d != "/"; d = path.Dir(d) {
		r.FS.Dirs[d] = true
	}
	return nilErr()
}

func sortSlice(r *Run, fr *frame, a []value) value {
	s := a[0].(iface).v.([]value)
	// insertion sort through the program's own comparison, on the live slice
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			less, ok := r.call(fr, a[1], []value{int64(j), int64(j - 1)}).(bool)
			if !ok {
				panic(unmodelled{"symbolic comparison"})
			}
			if !less {
				break
			}
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return nil
}

func (r *Run) unwrap(fr *frame, it iface) value {
	if types.NewMethodSet(it.t).Lookup(nil, "Unwrap") == nil {
		return nil
	}
	f := r.P.SSA.LookupMethod(it.t, nil, "Unwrap")
	if f == nil || f.Signature.Results().Len() != 1 {
		return nil
	}
	v := r.call(fr, f, []value{it.v})
	if _, ok := v.(iface); ok {
		return v
	}
	return nil
}

func (r *Run) errorsIs(fr *frame, err, target value, depth int) bool {
	if depth > 50 {
		return false
	}
	if !isErr(err) || !isErr(target) {
		return isErr(err) == isErr(target)
	}
	if r.equal(fr, err, target) || r.equal(fr, target, r.errno("notexist")) && r.openFault(fr, err, "not exist") ||
		r.equal(fr, target, r.errno("permission")) && r.openFault(fr, err, "no permission") {
		return true
	}
	if u := r.unwrap(fr, err.(iface)); u != nil && isErr(u) {
		return r.errorsIs(fr, u, target, depth+1)
	}
	return false
}

func (r *Run) parseFS(fr *frame, t *template.Template, tv value, patterns []string) value {
	if r.fault(fr, "template") {
		return tuple{(*value)(nil), r.errno("fault")}
	}
	files := r.embedFS(fr)
	var names []string
	for f := range files {
		for _, p := range patterns {
			if ok, _ := path.Match(p, f); ok {
				names = append(names, f)
			}
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return tuple{(*value)(nil), r.newError("template: pattern matches no files")}
	}
	for _, n := range names {
		var x *template.Template
		base := path.Base(n)
		if t == nil {
			t = template.New(base).Option("missingkey=error")
		}
		if base == t.Name() {
			x = t
		} else {
			x = t.New(base).Option("missingkey=error")
		}
		if _, err := x.Parse(files[n]); err != nil {
			return tuple{(*value)(nil), r.newError(err.Error())}
		}
	}
	if tv != nil {
		return tuple{tv, nilErr()}
	}
	return tuple{r.tmplVal(t), nilErr()}
}

func (r *Run) execTmpl(fr *frame, t *template.Template, w, data value) value {
	if r.fault(fr, "template") {
		return r.errno("fault")
	}
	it := data.(iface)
	var d any
	if it.t != nil {
		d = r.plain(it.t, it.v)
	}
	var b bytes.Buffer
	if err := t.Execute(&b, d); err != nil {
		return r.newError(err.Error())
	}
	return r.writeTo(fr, w, b.String()).(tuple)[1]
}

func parseMod(parse func(string, []byte, modfile.VersionFixer) (*modfile.File, error)) model {
	return func(r *Run, fr *frame, a []value) value {
		ft := r.typ("golang.org/x/mod/modfile", "File")
		if r.fault(fr, "modfile") {
			return tuple{(*value)(nil), r.errno("fault")}
		}
		f, err := parse(str(a[0]), []byte(r.strFrom(a[1].([]value), false)), nil)
		if err != nil {
			return tuple{(*value)(nil), r.newError(err.Error())}
		}
		p := new(value)
		*p = zero(ft)
		if f.Module != nil {
			mt := r.typ("golang.org/x/mod/modfile", "Module")
			m := new(value)
			*m = zero(mt)
			v := zero(r.typ("golang.org/x/mod/module", "Version"))
			vp := new(value)
			*vp = v
			r.setField(vp, r.typ("golang.org/x/mod/module", "Version"), "Path", f.Module.Mod.Path)
			r.setField(m, mt, "Mod", *vp)
			r.setField(p, ft, "Module", m)
		}
		return tuple{p, nilErr()}
	}
}
