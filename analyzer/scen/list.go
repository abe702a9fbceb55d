package scen

import (
	"fmt"
	"strings"
)

func (b *B) defText(class, f string) string {
	switch class {
	case "num":
		return b.Num("default " + f)
	case "bool":
		return "true"
	case "str":
		return b.Str("default " + f)
	}
	return ""
}

// All returns every scenario.
func All() []*Scenario {
	var out []*Scenario
	docTag := "//json:json"
	field := func(sh Shape, opt, rest string, id string, n int) {
		b := NewB()
		t := sh.Make(b)
		if strings.Contains(rest, "$D") {
			rest = strings.ReplaceAll(rest, "$DF", "$D") // keep
		}
		doc := docTag
		var s strings.Builder
		s.WriteString(doc + "\ntype " + b.Type("T") + " struct {\n")
		s.WriteString("\t" + b.Field("A") + " string `json:\"" + b.Key("A") + ",omitempty\"`\n")
		for _, f := range []string{"F", "G"}[:n] {
			r := strings.ReplaceAll(rest, "$D", b.defText(sh.Def, f))
			r = strings.ReplaceAll(r, "$L", b.Key("layout "+f))
			s.WriteString("\t" + b.Field(f) + " " + t + " `json:\"" + b.Key(f) + opt + "\"" + r + "`\n")
		}
		s.WriteString("\t" + b.Field("Z") + " string `json:\"" + b.Key("Z") + "\"`\n}")
		sc := b.Scenario(id, s.String())
		sc.Heavy = sh.Heavy
		sc.Group = "field"
		out = append(out, sc)
	}
	type opt struct{ id, opt, rest string }
	base := []opt{{"plain", "", ""}, {"omitempty", ",omitempty", ""}}
	req := opt{"required", ",required", ""}
	defs := []opt{{"default", "", ` default:"$D"`}, {"omitempty-default", ",omitempty", ` default:"$D"`}, {"required-default", ",required", ` default:"$D"`}}

	for _, sh := range Scalars() {
		os := append([]opt{}, base...)
		simple := !strings.Contains(sh.ID, "named") && !strings.Contains(sh.ID, "defref")
		if simple {
			os = append(os, req)
			os = append(os, defs...)
		} else {
			os = append(os, defs...)
			if strings.HasSuffix(sh.ID, "int32") || strings.HasSuffix(sh.ID, "string") {
				os = append(os, req)
			}
		}
		for _, o := range os {
			field(sh, o.opt, o.rest, "field/"+sh.ID+"/"+o.id, 2)
		}
	}
	for _, sh := range Composite() {
		for _, o := range append(append([]opt{}, base...), req) {
			field(sh, o.opt, o.rest, "field/"+sh.ID+"/"+o.id, 2)
		}
		if sh.Def != "" {
			o := defs[0]
			field(sh, o.opt, o.rest, "field/"+sh.ID+"/"+o.id, 2)
		}
		if strings.HasSuffix(sh.ID, "time") && !strings.Contains(sh.ID, "named") {
			for _, l := range []opt{
				{"layout", "", ` layout:"2006-01-02T15"`},
				{"layout-omitempty", ",omitempty", ` layout:"2006-01-02T15"`},
				{"layout-const", ",omitempty", ` layout:"time.RFC1123"`},
				{"layout-const-plain", "", ` layout:"time.RFC1123"`},
				{"layout-comma", ",omitempty", ` layout:"Mon, 02 Jan 2006"`},
				{"layout-any", "", ` layout:"$L"`},
				{"layout-any-omitempty", ",omitempty", ` layout:"$L"`},
				{"layout-any-required", ",required", ` layout:"$L"`},
				{"layout-rfc3339", "", ` layout:"2006-01-02T15:04:05Z07:00"`},
				{"layout-date", "", ` layout:"2006-01-02"`},
				{"layout-dotted", ",omitempty", ` layout:"02.01.2006"`},
			} {
				field(sh, l.opt, l.rest, "field/"+sh.ID+"/"+l.id, 2)
			}
		}
	}
	for _, sh := range Containers() {
		n := 2
		if sh.Heavy || sh.Extra {
			n = 1
		}
		for _, o := range base {
			field(sh, o.opt, o.rest, "field/"+sh.ID+"/"+o.id, n)
		}
		switch sh.ID {
		case "slice-time", "array-time":
			field(sh, "", ` layout:"$L"`, "field/"+sh.ID+"/layout-any", 1)
		}
		switch sh.ID {
		case "slice-int", "map-int", "slice-struct", "array-int", "bytes", "slice-ptr-int", "map-ptr-int", "array-struct":
			field(sh, req.opt, req.rest, "field/"+sh.ID+"/required", n)
		default:
			if !sh.Heavy && !sh.Extra {
				field(sh, req.opt, req.rest, "field/"+sh.ID+"/required", 1)
			}
		}
	}
	for _, sh := range Odd() {
		for _, o := range base {
			field(sh, o.opt, o.rest, "field/"+sh.ID+"/"+o.id, 1)
		}
	}
	// shapes that only one direction of handles
	for _, side := range []string{"encode", "decode"} {
		docTag = "//json:" + side
		os := append(append([]opt{}, base...), req)
		for _, sh := range append(append(append(append([]Shape{}, Scalars()...), Composite()...), Containers()...), Odd()...) {
			for _, o := range os {
				if id := side + "/" + sh.ID + "/" + o.id; oneSided(id) {
					field(sh, o.opt, o.rest, id, 1)
				}
			}
		}
		for _, e := range append(Elems(), Inner()...) {
			for _, c := range tops {
				if id := side + "/top-" + c.id + "-" + e.ID; oneSided(id) {
					b := NewB()
					sc := b.Scenario(id, docTag+"\ntype "+b.Type("T")+" "+c.pre+e.Make(b))
					sc.Heavy = e.Heavy
					sc.Group = "top"
					out = append(out, sc)
				}
			}
		}
	}
	docTag = "//json:json"
	// literal defaults
	for _, d := range []struct{ id, t, def string }{
		{"comma", "string", "a,b"}, {"quote", "string", `a\"b`}, {"backslash", "string", `a\\\\b`},
		{"space", "string", "a b"}, {"negative", "int", "-5"}, {"float", "float64", "1.5"}, {"float32", "float32", "-0.5"},
		{"false", "bool", "false"}, {"hex", "int", "0x10"}, {"int8-over", "int8", "300"}, {"unicode", "string", "é"},
		{"percent", "string", "%d"}, {"ptr-comma", "*string", "a,b"},
	} {
		field(Shape{Make: lit(d.t)}, "", " default:\""+d.def+"\"", "default/"+d.id, 1)
	}
	// ignored fields
	for _, t := range []string{"string", "*int", "[]int", "map[string]int", "[2]int"} {
		b := NewB()
		d := "//json:json\ntype " + b.Type("T") + " struct {\n" +
			"\t" + b.Field("A") + " string `json:\"" + b.Key("A") + ",omitempty\"`\n" +
			"\t" + b.Field("F") + " " + t + " `json:\"-\"`\n" +
			"\t" + b.Field("G") + " " + t + " `json:\"-\"`\n" +
			"\t" + b.Field("Z") + " string `json:\"" + b.Key("Z") + "\"`\n}"
		out = append(out, b.Scenario("ignored/"+t, d))
	}
	{
		b := NewB()
		n := nested(b)
		d := "//json:json\ntype " + b.Type("T") + " struct {\n" +
			"\t" + b.Field("F") + " " + n + " `json:\"-\"`\n" +
			"\t" + b.Field("Z") + " string `json:\"" + b.Key("Z") + "\"`\n}"
		out = append(out, b.Scenario("ignored/struct", d))
		b = NewB()
		d = "//json:strict\ntype " + b.Type("T") + " struct {\n" +
			"\t" + b.Field("F") + " string `json:\"-\"`\n" +
			"\t" + b.Field("Z") + " string `json:\"" + b.Key("Z") + "\"`\n}"
		out = append(out, b.Scenario("ignored/strict", d))
		b = NewB()
		d = "//json:json\ntype " + b.Type("T") + " struct {\n" +
			"\t" + b.Field("F") + " string `json:\"-,\"`\n" +
			"\t" + b.Field("Z") + " string `json:\"" + b.Key("Z") + "\"`\n}"
		out = append(out, b.Scenario("ignored/dash-key", d))
	}
	out = append(out, structScenarios()...)
	out = append(out, strictScenarios()...)
	out = append(out, topScenarios()...)
	out = append(out, docScenarios()...)
	out = append(out, embedScenarios()...)
	out = append(out, importScenarios()...)
	out = append(out, failScenarios()...)
	seen := map[string]bool{}
	for _, s := range out {
		if seen[s.ID] {
			panic("duplicate scenario " + s.ID)
		}
		seen[s.ID] = true
	}
	return out
}

func structScenarios() []*Scenario {
	var out []*Scenario
	add := func(id, fields string, b *B) *Scenario {
		s := b.Scenario("struct/"+id, "//json:json\ntype "+b.Type("T")+" struct {\n"+fields+"}")
		out = append(out, s)
		return s
	}
	add("empty", "", NewB())
	{
		b := NewB()
		add("one", "\t"+b.Field("F")+" int `json:\""+b.Key("F")+"\"`\n", b)
		b = NewB()
		add("one-omitempty", "\t"+b.Field("F")+" int `json:\""+b.Key("F")+",omitempty\"`\n", b)
		b = NewB()
		add("two-names", "\t"+b.Field("F")+", "+b.Field("G")+" int `json:\""+b.Key("F")+"\"`\n", b)
		b = NewB()
		add("all-omitempty", "\t"+b.Field("F")+" []int `json:\""+b.Key("F")+",omitempty\"`\n\t"+b.Field("G")+" *string `json:\""+b.Key("G")+",omitempty\"`\n\t"+b.Field("H")+" map[string]string `json:\""+b.Key("H")+",omitempty\"`\n", b)
		b = NewB()
		add("array-then-ptr", "\t"+b.Field("F")+" [2]int `json:\""+b.Key("F")+"\"`\n\t"+b.Field("G")+" *"+nested(b)+" `json:\""+b.Key("G")+"\"`\n\t"+b.Field("H")+" string `json:\""+b.Key("H")+"\"`\n", b)
		b = NewB()
		add("ptr-then-array", "\t"+b.Field("G")+" *"+nested(b)+" `json:\""+b.Key("G")+",omitempty\"`\n\t"+b.Field("F")+" [2]int `json:\""+b.Key("F")+"\"`\n\t"+b.Field("H")+" []string `json:\""+b.Key("H")+",omitempty\"`\n", b)
		b = NewB()
		add("untagged-field", "\t"+b.Field("F")+" int\n", b).MustFail = true
		b = NewB()
		add("unexported", "\tx int `json:\""+b.Key("F")+"\"`\n", b)
		b = NewB()
		add("dup-key", "\t"+b.Field("F")+" int `json:\""+b.Key("F")+"\"`\n\t"+b.Field("G")+" string `json:\"x\"`\n", b)
		b = NewB()
		add("keyless", "\t"+b.Field("F")+" int `xml:\"q\"`\n", b)
		b = NewB()
		add("ignored-only", "\t"+b.Field("F")+" int `json:\"-\"`\n\t"+b.Field("G")+" []string `json:\"-\"`\n", b)
		b = NewB()
		add("embedded-ignored", "\t"+nested(b)+" `json:\"-\"`\n\t"+b.Field("F")+" int `json:\""+b.Key("F")+"\"`\n", b)
		b = NewB()
		add("option-order", "\t"+b.Field("F")+" int `json:\""+b.Key("F")+",required,omitempty\"`\n\t"+b.Field("G")+" *string `json:\""+b.Key("G")+",omitempty,required\"`\n\t"+b.Field("H")+" []int `json:\""+b.Key("H")+",string,omitempty\"`\n", b)
		b = NewB()
		add("tag-order", "\t"+b.Field("F")+" int `default:\"7\" json:\""+b.Key("F")+"\"`\n\t"+b.Field("G")+" *string `xml:\"q,attr\" json:\""+b.Key("G")+",omitempty\" yaml:\"z\"`\n\t"+b.Field("H")+" "+timeT(b)+" `layout:\"2006-01-02\" json:\""+b.Key("H")+"\"`\n", b)
		b = NewB()
		add("two-names-required", "\t"+b.Field("F")+", "+b.Field("G")+" int `json:\""+b.Key("F")+",required\"`\n\t"+b.Field("H")+" string `json:\""+b.Key("H")+"\"`\n", b)
		b = NewB()
		add("three-required", "\t"+b.Field("F")+" int `json:\""+b.Key("F")+",required\"`\n\t"+b.Field("G")+" *string `json:\""+b.Key("G")+",required\"`\n\t"+b.Field("H")+" []int `json:\""+b.Key("H")+",required\"`\n", b)
		b = NewB()
		add("self-ptr", "\t"+b.Field("F")+" *"+b.Type("T")+" `json:\""+b.Key("F")+",omitempty\"`\n\t"+b.Field("G")+" []"+b.Type("T")+" `json:\""+b.Key("G")+",omitempty\"`\n\t"+b.Field("H")+" map[string]"+b.Type("T")+" `json:\""+b.Key("H")+"\"`\n", b)
		b = NewB()
		add("mixed", "\t"+b.Field("F")+" int8 `json:\""+b.Key("F")+",required\"`\n\t"+b.Field("G")+" []string `json:\""+b.Key("G")+",omitempty\"`\n\t"+b.Field("H")+" "+nested(b)+" `json:\""+b.Key("H")+",omitempty\"`\n\t"+b.Field("I")+" "+timeT(b)+" `json:\""+b.Key("I")+",omitempty\"`\n", b)
	}
	for _, k := range []struct{ id, key string }{{"key-escape", `a\\b`}, {"key-dot", "a.b"}, {"key-dash", "a-b"}, {"key-space", "a b"}, {"key-percent", "a%d"}, {"key-unicode", "é"}, {"key-quote", `a\"b`}, {"key-tick", "a'b"}, {"key-lead", " a"}, {"key-trail", "a "}, {"key-upper", "ABC"}, {"key-camel", "aB"}, {"key-digit", "1a"}, {"key-underscore", "_a_"}, {"key-colon", "a:b"}, {"key-slash", "a/b"}} {
		b := NewB()
		add(k.id, "\t"+b.Field("F")+" int `json:\""+k.key+"\"`\n\t"+b.Field("G")+" []string `json:\""+k.key+"2,omitempty\"`\n", b)
	}
	// two fields: what one leaves behind is what the other starts with
	kinds := []struct {
		id   string
		make func(b *B) string
	}{
		{"string", lit("string")}, {"bool", lit("bool")}, {"int64", lit("int64")}, {"ptr", lit("*int64")},
		{"slice", lit("[]bool")}, {"array", lit("[2]bool")}, {"map", lit("map[string]bool")}, {"bytes", lit("[]byte")},
		{"time", timeT}, {"ptr-struct", star(nested)}, {"struct", nested}, {"structs", wrap("[]", nested)},
	}
	for _, x := range kinds {
		for _, y := range kinds {
			b := NewB()
			add("pair-"+x.id+"-"+y.id, "\t"+b.Field("F")+" "+x.make(b)+" `json:\""+b.Key("F")+",omitempty\"`\n\t"+b.Field("G")+" "+y.make(b)+" `json:\""+b.Key("G")+"\"`\n", b)
		}
	}
	// many fields
	b := NewB()
	var f strings.Builder
	for i := 0; i < 130; i++ {
		fmt.Fprintf(&f, "\t%s int `json:\"%s,omitempty\"`\n", b.Field(fmt.Sprint("n", i)), b.Key(fmt.Sprint("n", i)))
	}
	add("scale", f.String(), b).Scale = true
	b = NewB()
	f.Reset()
	for i := 0; i < 66; i++ {
		fmt.Fprintf(&f, "\t%s int `json:\"%s,omitempty\"`\n", b.Field(fmt.Sprint("n", i)), b.Key(fmt.Sprint("n", i)))
	}
	s := add("many", f.String(), b)
	s.Scale, s.Many = true, true
	return out
}

func strictScenarios() []*Scenario {
	var out []*Scenario
	add := func(id, fields string, b *B) {
		out = append(out, b.Scenario("strict/"+id, "//json:strict\ntype "+b.Type("T")+" struct {\n"+fields+"}"))
	}
	f := func(b *B, n, t, opt string) string {
		return "\t" + b.Field(n) + " " + t + " `json:\"" + b.Key(n) + opt + "\"`\n"
	}
	b := NewB()
	add("mixed", f(b, "F", "int", ",required")+f(b, "G", "[]string", ",omitempty")+f(b, "H", "*int", ""), b)
	b = NewB()
	add("nested", f(b, "F", nested(b), "")+f(b, "G", "*"+nested(b), ",omitempty"), b)
	b = NewB()
	in := b.Decl("inner", "type $N struct {\n"+f(b, "in1", "string", "")+f(b, "in2", "*int", ",omitempty")+"}")
	add("inline", f(b, "F", "int", "")+"\t"+in+" `json:\",inline\"`\n"+f(b, "G", "string", ""), b)
	b = NewB()
	add("embedded-keyed", f(b, "F", "int", "")+"\t"+nested(b)+" `json:\""+b.Key("E")+"\"`\n", b)
	b = NewB()
	add("empty", "", b)
	b = NewB()
	add("omitempty-only", f(b, "F", "int", ",omitempty")+f(b, "G", "[2]int", ",omitempty")+f(b, "H", "map[string]string", ",omitempty"), b)
	b = NewB()
	add("key-unicode", "\t"+b.Field("F")+" int `json:\"é\"`\n"+f(b, "G", "string", ""), b)
	b = NewB()
	add("ignored-last", f(b, "F", "int", "")+"\t"+b.Field("I")+" int `json:\"-\"`\n", b)
	b = NewB()
	add("two-names", "\t"+b.Field("F")+" int `json:\""+b.Key("F")+"\"`\n\t"+b.Field("G")+", "+b.Field("H")+" int `json:\""+b.Key("G")+"\"`\n", b)
	return out
}

var tops = []struct{ id, pre string }{{"slice", "[]"}, {"array", "[2]"}, {"map", "map[string]"}}

func topScenarios() []*Scenario {
	var out []*Scenario
	add := func(id, typ string, b *B, heavy bool) {
		s := b.Scenario("top/"+id, "//json:json\ntype "+b.Type("T")+" "+typ)
		s.Heavy = heavy
		s.Group = "top"
		out = append(out, s)
	}
	for _, e := range append(Elems(), Inner()...) {
		for _, c := range tops {
			b := NewB()
			add(c.id+"-"+e.ID, c.pre+e.Make(b), b, e.Heavy)
		}
	}
	{
		b := NewB()
		add("nkmap-int", "map["+b.Decl("named key", "type $N string")+"]int", b, false)
		b = NewB()
		add("nkmap-struct", "map["+b.Decl("named key", "type $N string")+"]"+nested(b), b, false)
		b = NewB()
		add("ikmap-int", "map[int]int", b, false)
		b = NewB()
		add("bytes", "[]byte", b, false)
		b = NewB()
		add("bytearray", "[4]byte", b, false)
		for _, e := range []string{"struct", "ptr-int", "string", "tagged-slice", "time"} {
			for _, sh := range Elems() {
				if sh.ID == e {
					b = NewB()
					add("ekmap-"+e, "map["+b.Ext("key", "string", false)+"]"+sh.Make(b), b, false)
				}
			}
		}
		b = NewB()
		add("slice-untagged-struct", "[]"+b.Decl("untagged struct", "type $N struct {\n\t"+b.Field("ux")+" string `json:\""+b.Key("ux")+"\"`\n}"), b, false)
		for _, c := range []struct{ id, pre string }{{"array", "[2]"}, {"map", "map[string]"}, {"slice-ptr", "[]*"}} {
			b = NewB()
			add(c.id+"-untagged-struct", c.pre+b.Decl("untagged struct", "type $N struct {\n\t"+b.Field("ux")+" string `json:\""+b.Key("ux")+"\"`\n}"), b, false)
		}
		b = NewB() // an untagged element of an untagged element
		{
			in := b.Decl("untagged struct", "type $N struct {\n\t"+b.Field("ux")+" string `json:\""+b.Key("ux")+"\"`\n}")
			add("slice-untagged-slice-struct", "[]"+b.Decl("untagged slice", "type $N []"+in), b, false)
		}
		b = NewB()
		add("time", timeT(b), b, false)
		b = NewB()
		add("uuid", uuidT(b), b, false)
		b = NewB()
		add("ext-struct", extStruct(b), b, false)
		b = NewB()
		add("struct", nested(b), b, false)
		b = NewB()
		add("local-named-int", b.Decl("named int", "type $N int"), b, false)
		b = NewB()
		add("local-named-string", b.Decl("named string", "type $N string"), b, false)
		b = NewB()
		add("rune", "rune", b, false)
		b = NewB()
		add("byte", "byte", b, false)
		b = NewB()
		add("interface", "interface{}", b, false)
		b = NewB()
		add("func", "func()", b, false)
		b = NewB()
		add("chan", "chan int", b, false)
		b = NewB()
		add("pointer", "*int", b, false)
	}
	for _, x := range basics {
		b := NewB()
		add("basic-"+x.t, x.t, b, false)
	}
	return out
}

// docScenarios vary the doc-tag.
func docScenarios() []*Scenario {
	var out []*Scenario
	for _, d := range []struct{ id, doc string }{
		{"none", "// a comment"},
		{"nodoc", ""},
		{"json", "//json:json"}, {"strict", "//json:strict"}, {"optional", "//json:optional"},
		{"encode", "//json:encode"}, {"decode", "//json:decode"}, {"custom", "//json:custom"},
		{"transit", "//json:transit"},
		{"strict-encode", "//json:strict,encode"}, {"strict-decode", "//json:strict,decode"}, {"decode-strict", "//json:decode, strict"},
		{"spaces", "// json:strict"}, {"upper", "//json:STRICT"},
		{"second-line", "// Doc text.\n//json:strict"}, {"before-text", "//json:strict\n// more text"},
		{"two-lines", "//json:decode\n//json:strict"},
		{"other", "//xml:strict"}, {"empty", "//json:"},
		{"encode-decode", "//json:encode,decode"},
		{"upper-encode", "//json:ENCODE"}, {"title-decode", "//json:Decode"}, {"title-custom", "//json:Custom"}, {"title-transit", "//json:Transit"},
		{"title-pair", "//json:Strict,Encode"},
		{"tab", "//\tjson:encode"}, {"wide", "//json:  encode ,\tstrict ,"}, {"second-line-decode", "// Doc text.\n//json:decode"},
		{"two-lines-second", "//json:strict\n//json:decode"}, {"two-lines-apart", "//json:encode\n// text\n//json:strict"},
		{"custom-encode", "//json:custom,encode"}, {"custom-decode", "//json:custom,decode"}, {"decode-custom", "//json:decode,custom"},
		{"transit-encode", "//json:transit,encode"}, {"encode-transit", "//json:encode,transit"}, {"strict-custom", "//json:strict,custom"},
		{"unknown-word", "//json:nothing"}, {"prefix-word", "//json:encoder,decoder"}, {"key-value", "//json:encode=true"},
	} {
		for _, k := range []struct{ id, body string }{
			{"struct", "struct {\n\t$F string `json:\"$K\"`\n\t$G int `json:\"$L,omitempty\"`\n}"},
			{"slice", "[]int"}, {"map", "map[string]int"}, {"ident", "int"}, {"bytes", "[]byte"},
		} {
			if k.id != "struct" {
				switch d.id {
				case "none", "json", "encode", "decode", "custom", "strict", "transit":
				default:
					continue
				}
			}
			b := NewB()
			body := strings.NewReplacer("$F", b.Field("F"), "$G", b.Field("G"), "$K", b.Key("F"), "$L", b.Key("G")).Replace(k.body)
			doc := d.doc
			if doc != "" {
				doc += "\n"
			}
			s := b.Scenario("doc/"+d.id+"/"+k.id, doc+"type "+b.Type("T")+" "+body)
			s.Group = "doc"
			out = append(out, s)
		}
	}
	// the element of a tagged container has no tag of its own
	for _, d := range []string{"json", "strict", "encode", "decode", "custom", "strict,encode", "strict,decode", "transit", "optional", "json,strict", "encode,strict"} {
		for _, c := range []struct{ id, pre string }{{"slice", "[]"}, {"map", "map[string]"}, {"array", "[2]"}} {
			b := NewB()
			el := b.Decl("untagged struct", "type $N struct {\n\t"+b.Field("ux")+" string `json:\""+b.Key("ux")+"\"`\n\t"+b.Field("uy")+" *int `json:\""+b.Key("uy")+",omitempty\"`\n}")
			s := b.Scenario("doc/element-"+strings.ReplaceAll(d, ",", "-")+"/"+c.id, "//json:"+d+"\ntype "+b.Type("T")+" "+c.pre+el)
			s.Group = "doc"
			out = append(out, s)
		}
	}
	for _, d := range [][2]string{{"json", "json"}, {"strict", "strict"}, {"json", "strict"}, {"encode", "decode"}, {"decode", "json"}} {
		b := NewB()
		el := b.Decl("untagged struct", "type $N struct {\n\t"+b.Field("ux")+" string `json:\""+b.Key("ux")+"\"`\n}")
		s := b.Scenario("doc/shared-element/"+d[0]+"-"+d[1], "//json:"+d[0]+"\ntype "+b.Type("T")+" []"+el+"\n\n//json:"+d[1]+"\ntype "+b.Type("U")+" [2]"+el)
		s.Group = "doc"
		out = append(out, s)
	}
	{ // names that differ in the case of a letter only
		for _, k := range []struct{ id, body string }{{"struct", "struct {\n\tF string `json:\"f\"`\n}"}, {"slice", "[]int"}, {"map", "map[string]int"}, {"ident", "int"}, {"bytes", "[]byte"}} {
			b := NewB()
			s := b.Scenario("doc/case-pair/"+k.id, "//json:json\ntype Abc "+k.body+"\n\n//json:json\ntype abc "+k.body+"\n\n//json:json\ntype aBC "+k.body)
			s.Group = "doc"
			out = append(out, s)
		}
	}
	{ // two declarations in one file: what the first leaves behind is what the second starts with
		kinds := []struct {
			id   string
			make func(b *B, x string) string
		}{
			{"struct", func(b *B, x string) string {
				return "struct {\n\t" + b.Field(x) + " *bool `json:\"" + b.Key(x) + ",omitempty\"`\n}"
			}},
			{"slice", func(*B, string) string { return "[]bool" }},
			{"array", func(*B, string) string { return "[2]bool" }},
			{"map", func(*B, string) string { return "map[string]bool" }},
			{"ptrs", func(*B, string) string { return "map[string]*bool" }},
			{"string", func(*B, string) string { return "string" }},
			{"int", func(*B, string) string { return "int64" }},
			{"float", func(*B, string) string { return "float64" }},
			{"bool", func(*B, string) string { return "bool" }},
			{"time", func(b *B, _ string) string { return timeT(b) }},
		}
		for _, x := range kinds {
			for _, y := range kinds {
				b := NewB()
				s := b.Scenario("two/"+x.id+"-"+y.id, "//json:json\ntype "+b.Type("T")+" "+x.make(b, "F")+"\n\n//json:json\ntype "+b.Type("U")+" "+y.make(b, "G"))
				s.Group = "two"
				out = append(out, s)
			}
		}
	}
	{ // grouped declarations
		b := NewB()
		f := func(x string) string {
			return "struct {\n\t\t" + b.Field(x) + " string `json:\"" + b.Key(x) + "\"`\n\t}"
		}
		out = append(out, b.Scenario("doc/group/own", "type (\n\t//json:strict\n\t"+b.Type("T")+" "+f("F")+"\n\n\t//json:decode\n\t"+b.Type("U")+" "+f("G")+"\n\n\t// untagged\n\t"+b.Type("V")+" "+f("H")+"\n)"))
		b = NewB()
		out = append(out, b.Scenario("doc/group/outer", "//json:strict\ntype (\n\t"+b.Type("T")+" "+f("F")+"\n\t"+b.Type("U")+" "+f("G")+"\n)"))
		b = NewB()
		out = append(out, b.Scenario("doc/two", "//json:strict\ntype "+b.Type("T")+" "+f("F")+"\n\n//json:json\ntype "+b.Type("U")+" "+f("G")+"\n\ntype "+b.Type("V")+" "+f("H")))
	}
	return out
}

func embedScenarios() []*Scenario {
	var out []*Scenario
	add := func(id string, b *B, fields string) *Scenario {
		s := b.Scenario("embed/"+id, "//json:json\ntype "+b.Type("T")+" struct {\n"+fields+"}")
		s.Group = "embed"
		out = append(out, s)
		return s
	}
	fa := func(b *B) string {
		return "\t" + b.Field("A") + " string `json:\"" + b.Key("A") + ",omitempty\"`\n"
	}
	fz := func(b *B) string { return "\t" + b.Field("Z") + " string `json:\"" + b.Key("Z") + "\"`\n" }
	inner := func(b *B, d, doc string) string {
		return b.Decl("inner "+d, doc+"type $N struct {\n\t"+b.Field("in1 "+d)+" string `json:\""+b.Key("in1 "+d)+"\"`\n\t"+b.Field("in2 "+d)+" *int `json:\""+b.Key("in2 "+d)+",omitempty\"`\n}")
	}
	b := NewB()
	add("inline-local", b, fa(b)+"\t"+inner(b, "x", "")+" `json:\",inline\"`\n"+fz(b))
	b = NewB()
	add("inline-local-tagged", b, fa(b)+"\t"+inner(b, "x", "//json:json\n")+" `json:\",inline\"`\n"+fz(b))
	b = NewB()
	add("inline-two", b, fa(b)+"\t"+inner(b, "x", "")+" `json:\",inline\"`\n\t"+inner(b, "y", "")+" `json:\",inline\"`\n"+fz(b))
	b = NewB()
	{
		in := inner(b, "x", "")
		mid := b.Decl("mid", "type $N struct {\n\t"+in+" `json:\",inline\"`\n\t"+b.Field("mid")+" int `json:\""+b.Key("mid")+"\"`\n}")
		add("inline-nested", b, fa(b)+"\t"+mid+" `json:\",inline\"`\n"+fz(b))
	}
	b = NewB()
	add("embedded-keyed", b, fa(b)+"\t"+nested(b)+" `json:\""+b.Key("F")+"\"`\n"+fz(b))
	b = NewB()
	add("embedded-keyed-omitempty", b, fa(b)+"\t"+nested(b)+" `json:\""+b.Key("F")+",omitempty\"`\n"+fz(b))
	b = NewB()
	add("embedded-untagged", b, fa(b)+"\t"+nested(b)+"\n"+fz(b))
	b = NewB()
	add("embedded-ptr-keyed", b, fa(b)+"\t*"+nested(b)+" `json:\""+b.Key("F")+"\"`\n"+fz(b))
	b = NewB()
	add("embedded-ext-keyed", b, fa(b)+"\t"+extStruct(b)+" `json:\""+b.Key("F")+"\"`\n"+fz(b))
	extFields := func(b *B, d string) string {
		return b.Ext("fields "+d, "struct {\n\t"+b.Field("ex1 "+d)+" string `json:\""+b.Key("ex1 "+d)+"\"`\n\t"+b.Field("ex2 "+d)+" int `json:\""+b.Key("ex2 "+d)+",omitempty\"`\n}", false)
	}
	b = NewB()
	add("inline-ext", b, fa(b)+"\t"+extFields(b, "x")+" `json:\",inline\"`\n"+fz(b))
	b = NewB()
	{
		// the external struct refers to a type of its own package
		b.Ext("own", "int", false)
		own := b.seen["ext own"]
		e := b.Ext("fields own", "struct {\n\t"+b.Field("ex1")+" "+own+" `json:\""+b.Key("ex1")+"\"`\n\t"+b.Field("ex2")+" int `json:\""+b.Key("ex2")+"\"`\n}", false)
		add("inline-ext-own-type", b, fa(b)+"\t"+e+" `json:\",inline\"`\n"+fz(b))
	}
	b = NewB()
	{
		b.Ext("own", "struct {\n\tQ string `json:\"q\"`\n}", true)
		own := b.seen["ext own"]
		e := b.Ext("fields own", "struct {\n\t"+b.Field("ex1")+" "+own+" `json:\""+b.Key("ex1")+"\"`\n\t"+b.Field("ex2")+" int `json:\""+b.Key("ex2")+"\"`\n}", false)
		add("inline-ext-own-struct", b, fa(b)+"\t"+e+" `json:\",inline\"`\n"+fz(b))
	}
	b = NewB()
	{
		b.Ext("own", "struct {\n\tQ string `json:\"q\"`\n}", true)
		own := b.seen["ext own"]
		e := b.Ext("fields own", "struct {\n\t"+b.Field("ex1")+" *"+own+" `json:\""+b.Key("ex1")+"\"`\n\t"+b.Field("ex2")+" []"+own+" `json:\""+b.Key("ex2")+"\"`\n}", false)
		add("inline-ext-own-ptr", b, fa(b)+"\t"+e+" `json:\",inline\"`\n"+fz(b))
	}
	b = NewB()
	{ // same name in the inlined type and as a field
		n := b.Type("same")
		b.decls = append(b.decls, "//json:json\ntype "+n+" struct {\n\t"+n+" string `json:\""+b.Key("in")+"\"`\n}")
		add("inline-same-name", b, fa(b)+"\t"+n+" `json:\",inline\"`\n"+fz(b))
	}
	b = NewB()
	add("inline-missing", b, fa(b)+"\t"+b.Type("missing")+" `json:\",inline\"`\n"+fz(b)).MustFail = true
	b = NewB()
	add("inline-nonstruct", b, fa(b)+"\t"+b.Decl("nonstruct", "type $N int")+" `json:\",inline\"`\n"+fz(b)).MustFail = true
	b = NewB()
	add("inline-named-field", b, fa(b)+"\t"+b.Field("F")+" "+inner(b, "x", "//json:json\n")+" `json:\",inline\"`\n"+fz(b))
	b = NewB()
	{
		extFields(b, "x")
		add("inline-ext-missing", b, fa(b)+"\t"+b.ExtPkg+"."+b.Type("gone")+" `json:\",inline\"`\n"+fz(b)).MustFail = true
	}
	b = NewB()
	{
		extFields(b, "x")
		e := b.Ext("nonstruct", "int", false)
		add("inline-ext-nonstruct", b, fa(b)+"\t"+e+" `json:\",inline\"`\n"+fz(b)).MustFail = true
	}
	return out
}

// importScenarios exercise the resolution of packages.
func importScenarios() []*Scenario {
	var out []*Scenario
	mk := func(b *B, t string, rest string) string {
		return "//json:json\ntype " + b.Type("T") + " struct {\n\t" + b.Field("F") + " " + t + " `json:\"" + b.Key("F") + rest + "\"`\n\t" + b.Field("Z") + " string `json:\"" + b.Key("Z") + "\"`\n}"
	}
	pkgFile := func(b *B, dir, pkg, name, body string, methods bool) {
		imp, st := "", ""
		if methods {
			imp = "import (\n\t\"github.com/mailru/easyjson/jwriter\"\n\t\"github.com/valyala/fastjson\"\n)\n"
			st = strings.ReplaceAll(stubs, "$N", name)
		}
		b.extra["/w/"+dir+"/z"+fmt.Sprint(len(b.extra))+".go"] = "package " + pkg + "\n" + imp + "type " + name + " " + body + "\n" + st
	}
	addp := func(id string, b *B, d string) *Scenario {
		s := b.Scenario("import/"+id, d)
		s.Group = "import"
		out = append(out, s)
		return s
	}
	pk := func(b *B, d string) string { return strings.SplitN(b.At.New(3, "pk "+d).Text, "/", 2)[0] }

	{ // two packages declare the same type name with different types; the alias decides
		for _, inl := range []bool{false, true} {
			b := NewB()
			pa, pb, tn := pk(b, "a"), pk(b, "b"), b.Type("X")
			ba, bb := "int32", "string"
			id := "alias-swap"
			if inl {
				id = "alias-swap-inline"
				ba = "struct {\n\t" + b.Field("a1") + " int32 `json:\"" + b.Key("a1") + "\"`\n}"
				bb = "struct {\n\t" + b.Field("b1") + " string `json:\"" + b.Key("b1") + "\"`\n}"
			}
			pkgFile(b, pa, pa, tn, ba, false)
			pkgFile(b, pb, pb, tn, bb, false)
			b.Import(b.Mod + "/" + pb)
			b.imports[b.Mod+"/"+pb] = pa // pa names package pb
			if inl {
				addp(id, b, "//json:json\ntype "+b.Type("T")+" struct {\n\t"+pa+"."+tn+" `json:\",inline\"`\n\t"+b.Field("Z")+" string `json:\""+b.Key("Z")+"\"`\n}")
			} else {
				addp(id, b, mk(b, pa+"."+tn, ""))
			}
		}
	}
	for _, inl := range []bool{false, true} { // an alias that names no package of the module
		b := NewB()
		pa, al, tn := pk(b, "a"), pk(b, "alias"), b.Type("X")
		body := "int32"
		id := "alias-new"
		if inl {
			id = "alias-new-inline"
			body = "struct {\n\t" + b.Field("a1") + " int32 `json:\"" + b.Key("a1") + "\"`\n}"
		}
		pkgFile(b, pa, pa, tn, body, false)
		b.Import(b.Mod + "/" + pa)
		b.imports[b.Mod+"/"+pa] = al
		if inl {
			addp(id, b, "//json:json\ntype "+b.Type("T")+" struct {\n\t"+al+"."+tn+" `json:\",inline\"`\n\t"+b.Field("Z")+" string `json:\""+b.Key("Z")+"\"`\n}")
		} else {
			addp(id, b, mk(b, al+"."+tn, ""))
		}
	}
	for _, inl := range []bool{false, true} { // same package name in two directories
		b := NewB()
		pa, d1, d2, tn := pk(b, "a"), pk(b, "dir1"), pk(b, "dir2"), b.Type("X")
		id := "same-name-dirs"
		b1, b2 := "int32", "string"
		if inl {
			id = "same-name-dirs-inline"
			b1 = "struct {\n\t" + b.Field("a1") + " int32 `json:\"" + b.Key("a1") + "\"`\n}"
			b2 = "struct {\n\t" + b.Field("b1") + " string `json:\"" + b.Key("b1") + "\"`\n}"
		}
		pkgFile(b, d1+"/"+pa, pa, tn, b1, false)
		pkgFile(b, d2+"/"+pa, pa, tn, b2, false)
		b.Import(b.Mod + "/" + d2 + "/" + pa)
		if inl {
			addp(id, b, "//json:json\ntype "+b.Type("T")+" struct {\n\t"+pa+"."+tn+" `json:\",inline\"`\n\t"+b.Field("Z")+" string `json:\""+b.Key("Z")+"\"`\n}")
		} else {
			addp(id, b, mk(b, pa+"."+tn, ""))
		}
	}
	for _, second := range []bool{false, true} { // same package name in two directories, the type in one of them
		for _, inl := range []bool{false, true} {
			b := NewB()
			pa, d1, d2, tn, un := pk(b, "a"), pk(b, "dir1"), pk(b, "dir2"), b.Type("X"), b.Type("U")
			id := "same-name-first"
			dt, du := d1, d2
			if second {
				id, dt, du = "same-name-second", d2, d1
			}
			body := "int16"
			if inl {
				id += "-inline"
				body = "struct {\n\t" + b.Field("a1") + " int16 `json:\"" + b.Key("a1") + "\"`\n}"
			}
			pkgFile(b, dt+"/"+pa, pa, tn, body, false)
			pkgFile(b, du+"/"+pa, pa, un, "struct {\n\tQ string `json:\"q\"`\n}", false)
			b.Import(b.Mod + "/" + dt + "/" + pa)
			if inl {
				addp(id, b, "//json:json\ntype "+b.Type("T")+" struct {\n\t"+pa+"."+tn+" `json:\",inline\"`\n\t"+b.Field("Z")+" string `json:\""+b.Key("Z")+"\"`\n}")
			} else {
				addp(id, b, mk(b, pa+"."+tn, ""))
			}
		}
	}
	{ // deeper directory
		b := NewB()
		d1, pa, tn := pk(b, "dir1"), pk(b, "a"), b.Type("X")
		pkgFile(b, d1+"/"+pa, pa, tn, "int16", false)
		b.Import(b.Mod + "/" + d1 + "/" + pa)
		addp("deep", b, mk(b, pa+"."+tn, ""))
	}
	{ // a test package beside the real one declares the same name
		b := NewB()
		pa, tn := pk(b, "a"), b.Type("X")
		pkgFile(b, pa, pa, tn, "int32", false)
		b.extra["/w/"+pa+"/a_test.go"] = "package " + pa + "_test\n\ntype " + tn + " string\n"
		b.Import(b.Mod + "/" + pa)
		addp("test-package", b, mk(b, pa+"."+tn, ""))
	}
	{ // the type is declared in the package's second file
		b := NewB()
		pa, tn, un := pk(b, "a"), b.Type("X"), b.Type("U")
		b.extra["/w/"+pa+"/a.go"] = "package " + pa + "\n\ntype " + un + " string\n"
		b.extra["/w/"+pa+"/b.go"] = "package " + pa + "\n\ntype (\n\t" + b.Type("W") + " bool\n\t" + tn + " int64\n)\n"
		b.Import(b.Mod + "/" + pa)
		addp("second-file", b, mk(b, pa+"."+tn, ""))
	}
	{ // external of external: the named type is itself declared from another local type
		b := NewB()
		pa, tn, un := pk(b, "a"), b.Type("X"), b.Type("U")
		b.extra["/w/"+pa+"/a.go"] = "package " + pa + "\n\ntype " + un + " int8\n\ntype " + tn + " " + un + "\n"
		b.Import(b.Mod + "/" + pa)
		addp("chain", b, mk(b, pa+"."+tn, ""))
	}
	{ // local chain
		b := NewB()
		u := b.Decl("u", "type $N int8")
		x := b.Decl("x", "type $N "+u)
		addp("local-chain", b, mk(b, x, ""))
	}
	{ // slices and maps of types of two packages
		b := NewB()
		pa, pb, tn, un := pk(b, "a"), pk(b, "b"), b.Type("X"), b.Type("U")
		pkgFile(b, pa, pa, tn, "struct{}", true)
		pkgFile(b, pb, pb, un, "struct{}", true)
		b.Import(b.Mod + "/" + pa)
		b.Import(b.Mod + "/" + pb)
		addp("two", b, "//json:json\ntype "+b.Type("T")+" struct {\n\t"+b.Field("F")+" []"+pa+"."+tn+" `json:\""+b.Key("F")+"\"`\n\t"+b.Field("G")+" map[string]"+pb+"."+un+" `json:\""+b.Key("G")+"\"`\n}")
	}
	// The namesake differs only in what a wrong choice does not show to the compiler:
	// the width of a number, the keys of the same fields.
	decoy := func(id string, inl bool, lay func(b *B, real, fake string) string) {
		b := NewB()
		tn := b.Type("X")
		r, k := "int8", "int64"
		if inl {
			id += "-inline"
			f1, f2 := b.Field("f1"), b.Field("f2")
			r = "struct {\n\t" + f1 + " string `json:\"" + b.Key("real f1") + "\"`\n\t" + f2 + " int64 `json:\"" + b.Key("real f2") + ",omitempty\"`\n}"
			k = "struct {\n\t" + f1 + " string `json:\"" + b.Key("fake f1") + "\"`\n\t" + f2 + " int64 `json:\"" + b.Key("fake f2") + "\"`\n}"
		}
		sel := lay(b, "type "+tn+" "+r+"\n", "type "+tn+" "+k+"\n")
		if inl {
			addp("decoy-"+id, b, "//json:json\ntype "+b.Type("T")+" struct {\n\t"+sel+"."+tn+" `json:\",inline\"`\n\t"+b.Field("Z")+" string `json:\""+b.Key("Z")+"\"`\n}")
		} else {
			addp("decoy-"+id, b, mk(b, sel+"."+tn, ""))
		}
	}
	put := func(b *B, dir, file, pkg, text string) {
		b.extra["/w/"+dir+"/"+file] = "package " + pkg + "\n\n" + text
	}
	for _, inl := range []bool{false, true} {
		decoy("alias-swap", inl, func(b *B, real, fake string) string {
			pa, pb := pk(b, "a"), pk(b, "b")
			put(b, pa, "z.go", pa, fake)
			put(b, pb, "z.go", pb, real)
			b.Import(b.Mod + "/" + pb)
			b.imports[b.Mod+"/"+pb] = pa
			return pa
		})
		for _, first := range []bool{false, true} {
			id := "dirs-second"
			if first {
				id = "dirs-first"
			}
			decoy(id, inl, func(b *B, real, fake string) string {
				pa, d1, d2 := pk(b, "a"), pk(b, "dir1"), pk(b, "dir2")
				dr, df := d2, d1
				if first {
					dr, df = d1, d2
				}
				put(b, df+"/"+pa, "z.go", pa, fake)
				put(b, dr+"/"+pa, "z.go", pa, real)
				b.Import(b.Mod + "/" + dr + "/" + pa)
				return pa
			})
		}
		decoy("two-aliases", inl, func(b *B, real, fake string) string {
			pa, d1, d2, a1, a2 := pk(b, "a"), pk(b, "dir1"), pk(b, "dir2"), pk(b, "alias1"), pk(b, "alias2")
			put(b, d1+"/"+pa, "z.go", pa, fake+"\nconst C = 1\n")
			put(b, d2+"/"+pa, "z.go", pa, real)
			b.Import(b.Mod + "/" + d1 + "/" + pa)
			b.imports[b.Mod+"/"+d1+"/"+pa] = a1
			b.Import(b.Mod + "/" + d2 + "/" + pa)
			b.imports[b.Mod+"/"+d2+"/"+pa] = a2
			b.decls = append(b.decls, "const "+b.Field("c")+" = "+a1+".C")
			return a2
		})
		decoy("local", inl, func(b *B, real, fake string) string { // the package has a type of this name too
			pa := pk(b, "a")
			put(b, pa, "z.go", pa, real)
			b.decls = append(b.decls, fake)
			b.Import(b.Mod + "/" + pa)
			return pa
		})
		decoy("test-package", inl, func(b *B, real, fake string) string {
			pa := pk(b, "a")
			put(b, pa, "z.go", pa, real)
			put(b, pa, "a_test.go", pa+"_test", fake)
			b.Import(b.Mod + "/" + pa)
			return pa
		})
		decoy("ignored-main", inl, func(b *B, real, fake string) string {
			pa := pk(b, "a")
			put(b, pa, "z.go", pa, real)
			b.extra["/w/"+pa+"/gen.go"] = "//go:build ignore\n\npackage main\n\n" + fake
			b.Import(b.Mod + "/" + pa)
			return pa
		})
		decoy("dir-name", inl, func(b *B, real, fake string) string { // the directory is called otherwise
			pa, d := pk(b, "a"), pk(b, "dir")
			put(b, d, "z.go", pa, real)
			b.Import(b.Mod + "/" + d)
			return pa
		})
		decoy("dir-name-taken", inl, func(b *B, real, fake string) string { // … and another one like the package
			pa, d := pk(b, "a"), pk(b, "dir")
			put(b, d, "z.go", pa, real)
			put(b, pa, "z.go", pk(b, "b"), fake)
			b.Import(b.Mod + "/" + d)
			return pa
		})
		decoy("nested", inl, func(b *B, real, fake string) string {
			pa, d := pk(b, "a"), pk(b, "dir")
			put(b, d+"/"+pa, "z.go", pa, real)
			put(b, pa, "z.go", pa, fake)
			b.Import(b.Mod + "/" + d + "/" + pa)
			return pa
		})
		decoy("outer", inl, func(b *B, real, fake string) string {
			pa, d := pk(b, "a"), pk(b, "dir")
			put(b, d+"/"+pa, "z.go", pa, fake)
			put(b, pa, "z.go", pa, real)
			b.Import(b.Mod + "/" + pa)
			return pa
		})
	}
	// The inlined struct inlines another one.
	chained := func(id string, local bool, lay func(b *B, pb, real, fake, other string) (dir string)) {
		b := NewB()
		pm, pb, mn, tn := pk(b, "m"), pk(b, "b"), b.Type("M"), b.Type("X")
		f1, f2 := b.Field("f1"), b.Field("f2")
		real := "type " + tn + " struct {\n\t" + f1 + " string `json:\"" + b.Key("real f1") + "\"`\n\t" + f2 + " int64 `json:\"" + b.Key("real f2") + ",omitempty\"`\n}\n"
		fake := "type " + tn + " struct {\n\t" + f1 + " string `json:\"" + b.Key("fake f1") + "\"`\n\t" + f2 + " int64 `json:\"" + b.Key("fake f2") + "\"`\n}\n"
		dir := lay(b, pb, real, fake, "type "+b.Type("U")+" struct {\n\tQ string `json:\"q\"`\n}\n")
		mid, sel := "package "+pm+"\n\n", tn
		if local {
			mid += real
		} else {
			mid += "import \"" + b.Mod + "/" + dir + "\"\n\n"
			sel = pb + "." + tn
		}
		b.extra["/w/"+pm+"/z.go"] = mid + "type " + mn + " struct {\n\t" + sel + " `json:\",inline\"`\n\t" + b.Field("m1") + " bool `json:\"" + b.Key("m1") + "\"`\n}\n"
		b.Import(b.Mod + "/" + pm)
		addp("chained-"+id+"-inline", b, "//json:json\ntype "+b.Type("T")+" struct {\n\t"+pm+"."+mn+" `json:\",inline\"`\n\t"+b.Field("Z")+" string `json:\""+b.Key("Z")+"\"`\n}")
	}
	chained("local", true, func(b *B, pb, real, fake, other string) string { return "" })
	chained("local-namesake", true, func(b *B, pb, real, fake, other string) string {
		b.decls = append(b.decls, fake)
		return ""
	})
	chained("other", false, func(b *B, pb, real, fake, other string) string {
		put(b, pb, "z.go", pb, real)
		return pb
	})
	chained("namesake", false, func(b *B, pb, real, fake, other string) string {
		put(b, pb, "z.go", pb, real)
		b.decls = append(b.decls, fake)
		return pb
	})
	for i, n := range []string{"first", "second"} {
		chained("other-"+n, false, func(b *B, pb, real, fake, other string) string {
			d := []string{pk(b, "dir1") + "/" + pb, pk(b, "dir2") + "/" + pb}
			put(b, d[i], "z.go", pb, real)
			put(b, d[1-i], "z.go", pb, other)
			return d[i]
		})
		chained("decoy-"+n, false, func(b *B, pb, real, fake, other string) string {
			d := []string{pk(b, "dir1") + "/" + pb, pk(b, "dir2") + "/" + pb}
			put(b, d[i], "z.go", pb, real)
			put(b, d[1-i], "z.go", pb, fake)
			return d[i]
		})
		// … where the other directory declares the name only in its external test package
		chained("test-decoy-"+n, false, func(b *B, pb, real, fake, other string) string {
			d := []string{pk(b, "dir1") + "/" + pb, pk(b, "dir2") + "/" + pb}
			put(b, d[i], "z.go", pb, real)
			put(b, d[1-i], "z.go", pb, other)
			put(b, d[1-i], "a_test.go", pb+"_test", fake)
			return d[i]
		})
	}
	{ // the inlined struct of another package has a field of a third one
		b := NewB()
		pa, pb, tn, un := pk(b, "a"), pk(b, "b"), b.Type("X"), b.Type("U")
		b.extra["/w/"+pa+"/z.go"] = "package " + pa + "\n\nimport \"" + b.Mod + "/" + pb + "\"\n\ntype " + tn + " struct {\n\t" + b.Field("a1") + " " + pb + "." + un + " `json:\"" + b.Key("a1") + "\"`\n}\n"
		put(b, pb, "z.go", pb, "type "+un+" int8\n")
		b.Import(b.Mod + "/" + pa)
		addp("third-inline", b, "//json:json\ntype "+b.Type("T")+" struct {\n\t"+pa+"."+tn+" `json:\",inline\"`\n\t"+b.Field("Z")+" string `json:\""+b.Key("Z")+"\"`\n}")
	}
	{ // … which the file itself imports under a name that means something else there
		b := NewB()
		pa, pb, pc, tn, un := pk(b, "a"), pk(b, "b"), pk(b, "c"), b.Type("X"), b.Type("U")
		b.extra["/w/"+pa+"/z.go"] = "package " + pa + "\n\nimport \"" + b.Mod + "/" + pb + "\"\n\ntype " + tn + " struct {\n\t" + b.Field("a1") + " " + pb + "." + un + " `json:\"" + b.Key("a1") + "\"`\n}\n"
		put(b, pb, "z.go", pb, "type "+un+" int8\n")
		put(b, pc, "z.go", pc, "type "+un+" int64\n")
		b.Import(b.Mod + "/" + pa)
		b.Import(b.Mod + "/" + pc)
		b.imports[b.Mod+"/"+pc] = pb
		addp("third-clash-inline", b, "//json:json\ntype "+b.Type("T")+" struct {\n\t"+pa+"."+tn+" `json:\",inline\"`\n\t"+b.Field("G")+" "+pb+"."+un+" `json:\""+b.Key("G")+"\"`\n}")
	}
	for _, std := range []string{"Time", "UUID"} { // namesakes of the types the generator knows
		for _, body := range []string{"struct {\n\tQ string `json:\"q\"`\n}", "string", "int8"} {
			b := NewB()
			pa := pk(b, "a")
			id := "namesake-" + strings.ToLower(std) + "-" + strings.SplitN(body, " ", 2)[0]
			pkgFile(b, pa, pa, std, body, strings.HasPrefix(body, "struct"))
			b.Import(b.Mod + "/" + pa)
			addp(id, b, mk(b, pa+"."+std, ""))
		}
	}
	for _, al := range [][3]string{{"time", "tm", "Time"}, {"github.com/google/uuid", "ids", "UUID"}} {
		b := NewB()
		b.Import(al[0])
		b.imports[al[0]] = al[1]
		addp("alias-"+strings.ToLower(al[2]), b, mk(b, al[1]+"."+al[2], ""))
	}
	{ // a package of the module called like a standard one
		b := NewB()
		pkgFile(b, "time", "time", "Month", "int8", false)
		b.Import(b.Mod + "/time")
		addp("local-time", b, mk(b, "time.Month", ""))
	}
	{ // imports used only by untagged declarations
		b := NewB()
		b.Import("strings")
		b.decls = append(b.decls, "var "+b.Field("v")+" strings.Builder")
		addp("unrelated", b, mk(b, "int", ""))
	}
	{ // decl in the module root
		b := NewB()
		s := b.Scenario("import/root", mk(b, "int", ""))
		s.Files["/w/decl.go"] = s.Files[s.Input]
		delete(s.Files, s.Input)
		s.Input, s.Output = "/w/decl.go", "/w/decl.go.out.go"
		s.Group = "import"
		out = append(out, s)
	}
	return out
}

// failScenarios: inputs that have to be refused.
func failScenarios() []*Scenario {
	var out []*Scenario
	b := NewB()
	s := b.Scenario("fail/syntax", "//json:json\ntype "+b.Type("T")+" struct {\n\t"+b.Field("F")+" int `json:\"x\"`\n")
	s.MustFail = true
	out = append(out, s)
	b = NewB()
	s = b.Scenario("fail/missing-input", "//json:json\ntype "+b.Type("T")+" int")
	delete(s.Files, s.Input)
	s.MustFail = true
	out = append(out, s)
	b = NewB()
	s = b.Scenario("fail/no-module", "//json:json\ntype "+b.Type("T")+" int")
	delete(s.Files, "/w/go.mod")
	s.MustFail = true
	out = append(out, s)
	b = NewB() // the package of a field's type does not parse
	e := b.Ext("broken", "int", false)
	s = b.Scenario("fail/broken-package", "//json:json\ntype "+b.Type("T")+" struct {\n\t"+b.Field("F")+" "+e+" `json:\""+b.Key("F")+"\"`\n}")
	for f := range s.Files {
		if strings.Contains(f, "/"+b.ExtDir+"/") {
			s.Files[f] += "\nfunc {\n"
		}
	}
	s.MustFail = true
	out = append(out, s)
	b = NewB() // the type does not exist in the package
	e = b.Ext("there", "int", false)
	s = b.Scenario("fail/missing-ext-type", "//json:json\ntype "+b.Type("T")+" struct {\n\t"+b.Field("F")+" "+b.ExtPkg+"."+b.Type("gone")+" `json:\""+b.Key("F")+"\"`\n}")
	s.MustFail = true
	out = append(out, s)
	b = NewB() // the imported package does not exist
	b.Import(b.Mod + "/gone")
	s = b.Scenario("fail/missing-package", "//json:json\ntype "+b.Type("T")+" struct {\n\t"+b.Field("F")+" gone."+b.Type("gone")+" `json:\""+b.Key("F")+"\"`\n}")
	s.MustFail = true
	out = append(out, s)
	return out
}
