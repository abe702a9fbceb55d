// Package scen enumerates the abstract declarations the generator is analysed on.
//
// Every name, key, package path and number in a scenario is an atom (unknown
// text), so that one scenario stands for all declarations of its form.
package scen

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"vjcheck/absint"
)

// Scenario is one form of declaration.
type Scenario struct {
	ID     string
	Files  map[string]string
	Input  string
	Output string
	// MustFail: the declaration has no meaning; generation has to report that.
	MustFail bool
	Atoms    *absint.Atoms
	// Heavy scenarios get a smaller loop bound.
	Heavy bool
	// Tags for selection ("decode", ...)
	Group string
	// Scale marks a scenario with very many fields (analysed for uniformity only).
	Scale bool
	// Many: of these, one whose validate is analysed.
	Many bool
}

// B builds one scenario.
type B struct {
	At      *absint.Atoms
	imports map[string]string // path -> alias ("" none)
	order   []string
	decls   []string
	extra   map[string]string
	Mod     string
	ExtPkg  string
	ExtDir  string
	pkg     string
	seen    map[string]string
}

func NewB() *B {
	b := &B{At: absint.NewAtoms(), imports: map[string]string{}, extra: map[string]string{}, seen: map[string]string{}}
	b.Mod = b.At.New(absint.AMod, "module").Text + "/" + b.At.New(absint.AMod, "module2").Text
	b.pkg = b.At.New(absint.APkg, "pkg").Text
	return b
}

func (b *B) Field(d string) string { return b.At.New(absint.AField, "field "+d).Text }
func (b *B) Type(d string) string  { return b.At.New(absint.AType, "type "+d).Text }
func (b *B) Key(d string) string   { return b.At.New(absint.AKey, "key "+d).Text }
func (b *B) Str(d string) string   { return b.At.New(absint.AStr, "text "+d).Text }
func (b *B) Num(d string) string   { return b.At.New(absint.ANum, "num "+d).Text }

func (b *B) Import(path string) {
	if _, ok := b.imports[path]; !ok {
		b.imports[path] = ""
		b.order = append(b.order, path)
	}
}

// Decl adds a top-level declaration once per key and returns the type name.
func (b *B) Decl(d, format string) string {
	if n, ok := b.seen[d]; ok {
		return n
	}
	n := b.Type(d)
	b.seen[d] = n
	b.decls = append(b.decls, strings.ReplaceAll(format, "$N", n))
	return n
}

const stubs = `
func (s *$N) FillFromJSON(v *fastjson.Value) (err error) { return nil }
func (s *$N) MarshalTo(result *jwriter.Writer) error { return nil }
func (s *$N) MarshalJSON() ([]byte, error) { return nil, nil }
func (s $N) IsZero() bool { return false }
func (s *$N) Reset() {}
`

// Ext makes a type in another package of the module and returns its selector.
func (b *B) Ext(d, body string, methods bool) string {
	if b.ExtPkg == "" {
		b.ExtPkg = b.At.New(absint.APkg, "extpkg").Text
		b.ExtDir = b.ExtPkg
	}
	n, ok := b.seen["ext "+d]
	if !ok {
		n = b.Type("ext " + d)
		b.seen["ext "+d] = n
		imp := ""
		st := ""
		if methods {
			imp = "import (\n\t\"github.com/mailru/easyjson/jwriter\"\n\t\"github.com/valyala/fastjson\"\n)\n"
			st = strings.ReplaceAll(stubs, "$N", n)
		}
		b.extra["/w/"+b.ExtDir+"/f"+fmt.Sprint(len(b.extra))+".go"] = "package " + b.ExtPkg + "\n" + imp + "type " + n + " " + body + "\n" + st
	}
	b.Import(b.Mod + "/" + b.ExtDir)
	return b.ExtPkg + "." + n
}

// Scenario renders the declaration file.
func (b *B) Scenario(id string, tagged ...string) *Scenario {
	var s strings.Builder
	s.WriteString("package " + b.pkg + "\n\n")
	if len(b.order) > 0 {
		s.WriteString("import (\n")
		for _, p := range b.order {
			a := b.imports[p]
			if a != "" {
				a += " "
			}
			s.WriteString("\t" + a + "\"" + p + "\"\n")
		}
		s.WriteString(")\n\n")
	}
	for _, d := range append(append([]string{}, tagged...), b.decls...) {
		s.WriteString(d + "\n\n")
	}
	dir := "/w/" + b.pkg
	sc := &Scenario{
		ID: id, Atoms: b.At,
		Input: dir + "/decl.go", Output: dir + "/decl.go.out.go",
		Files: map[string]string{
			"/w/go.mod":      "module " + b.Mod + "\n\ngo 1.18\n",
			dir + "/decl.go": s.String(),
		},
	}
	for f, t := range b.extra {
		sc.Files[f] = t
	}
	return sc
}

// Render replaces every atom by plain ASCII text of its class.
func Render(at *absint.Atoms, s string) string {
	var out strings.Builder
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r < 0x1681 || r > 0x169A {
			out.WriteString(s[i : i+w])
			i += w
			continue
		}
		if i+9 <= len(s) {
			if a := at.Get(s[i : i+9]); a != nil && a.Kind == absint.ANum {
				n := 0
				for _, r := range a.Token {
					n = n*26 + int(r-0x1681)
				}
				fmt.Fprintf(&out, "%d", 11+n%89)
				i += 9
				continue
			}
		}
		out.WriteByte('a' + byte(r-0x1681))
		i += w
	}
	return out.String()
}
