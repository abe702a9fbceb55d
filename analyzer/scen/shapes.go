package scen

// Shape is a form of type expression.
type Shape struct {
	ID string
	// Make returns the type text, adding declarations and imports.
	Make func(b *B) string
	// Def is the class of literal a default takes: num, float, bool, str or "".
	Def string
	// Elem: usable as element or map value
	Heavy bool
	// Extra: fewer fields of it
	Extra bool
}

var basics = []struct{ t, def string }{
	{"string", "str"}, {"bool", "bool"},
	{"int", "num"}, {"int8", "num"}, {"int16", "num"}, {"int32", "num"}, {"int64", "num"},
	{"uint", "num"}, {"uint8", "num"}, {"uint16", "num"}, {"uint32", "num"}, {"uint64", "num"},
	{"float32", "num"}, {"float64", "num"},
}

func lit(t string) func(*B) string { return func(*B) string { return t } }

func local(d, decl string) func(*B) string {
	return func(b *B) string { return b.Decl(d, decl) }
}

func star(f func(*B) string) func(*B) string { return func(b *B) string { return "*" + f(b) } }
func wrap(pre string, f func(*B) string) func(*B) string {
	return func(b *B) string { return pre + f(b) }
}

func nested(b *B) string {
	if n, ok := b.seen["nested"]; ok {
		return n
	}
	return b.Decl("nested", "//json:json\ntype $N struct {\n\t"+b.Field("nested x")+" string `json:\""+b.Key("nested x")+",omitempty\"`\n}")
}

func timeT(b *B) string { b.Import("time"); return "time.Time" }
func uuidT(b *B) string { b.Import("github.com/google/uuid"); return "uuid.UUID" }
func extStruct(b *B) string {
	return b.Ext("struct", "struct {\n\tQ string `json:\"q\"`\n}", true)
}

// Scalars are the field types with no inner type.
func Scalars() []Shape {
	var out []Shape
	for _, x := range basics {
		out = append(out, Shape{ID: x.t, Make: lit(x.t), Def: x.def})
		out = append(out, Shape{ID: "ptr-" + x.t, Make: star(lit(x.t)), Def: x.def})
		out = append(out, Shape{ID: "named-" + x.t, Make: local("named "+x.t, "type $N "+x.t), Def: x.def})
		out = append(out, Shape{ID: "ptr-named-" + x.t, Make: star(local("named "+x.t, "type $N "+x.t)), Def: x.def})
		out = append(out, Shape{ID: "defref-" + x.t, Make: local("defref "+x.t, "type $N *"+x.t), Def: x.def})
	}
	for _, x := range []struct{ t, def string }{{"int32", "num"}, {"string", "str"}, {"bool", "bool"}} {
		t := x.t
		out = append(out, Shape{ID: "ptr-defref-" + t, Make: star(local("defref "+t, "type $N *"+t)), Def: x.def})
	}
	return out
}

// Composite are the struct-like field types.
func Composite() []Shape {
	return []Shape{
		{ID: "time", Make: timeT},
		{ID: "ptr-time", Make: star(timeT)},
		{ID: "uuid", Make: uuidT},
		{ID: "ptr-uuid", Make: star(uuidT)},
		{ID: "struct", Make: nested},
		{ID: "ptr-struct", Make: star(nested)},
		{ID: "ext-struct", Make: extStruct},
		{ID: "ptr-ext-struct", Make: star(extStruct)},
		{ID: "ext-int", Make: func(b *B) string { return b.Ext("int", "int", false) }, Def: "num"},
		{ID: "ext-int32", Make: func(b *B) string { return b.Ext("int32", "int32", false) }, Def: "num"},
		{ID: "ext-string", Make: func(b *B) string { return b.Ext("string", "string", false) }, Def: "str"},
		{ID: "ptr-ext-int32", Make: func(b *B) string { return "*" + b.Ext("int32", "int32", false) }, Def: "num"},
		{ID: "ptr-ext-string", Make: func(b *B) string { return "*" + b.Ext("string", "string", false) }, Def: "str"},
		{ID: "ext-bool", Make: func(b *B) string { return b.Ext("bool", "bool", false) }, Def: "bool"},
		{ID: "tagged-int", Make: local("tagged int", "//json:json\ntype $N int")},
		{ID: "tagged-string", Make: local("tagged string", "//json:json\ntype $N string")},
		{ID: "tagged-slice", Make: local("tagged slice", "//json:json\ntype $N []int")},
		{ID: "ptr-tagged-slice", Make: star(local("tagged slice", "//json:json\ntype $N []int"))},
		{ID: "tagged-map", Make: local("tagged map", "//json:json\ntype $N map[string]int")},
		{ID: "ptr-tagged-map", Make: star(local("tagged map", "//json:json\ntype $N map[string]int"))},
		{ID: "untagged-slice", Make: local("untagged slice", "type $N []int")},
		{ID: "untagged-map", Make: local("untagged map", "type $N map[string]int")},
		{ID: "named-time", Make: func(b *B) string { t := timeT(b); return b.Decl("named time", "//json:json\ntype $N "+t) }},
		{ID: "named-uuid", Make: func(b *B) string { t := uuidT(b); return b.Decl("named uuid", "//json:json\ntype $N "+t) }},
		{ID: "tagged-bytes", Make: local("tagged bytes", "//json:json\ntype $N []byte")},
		{ID: "ptr-tagged-bytes", Make: star(local("tagged bytes", "//json:json\ntype $N []byte"))},
		{ID: "tagged-bytearray", Make: local("tagged bytearray", "//json:json\ntype $N [4]byte")},
		{ID: "ptr-tagged-bytearray", Make: star(local("tagged bytearray", "//json:json\ntype $N [4]byte"))},
		{ID: "tagged-array", Make: local("tagged array", "//json:json\ntype $N [2]int")},
		{ID: "ptr-tagged-array", Make: star(local("tagged array", "//json:json\ntype $N [2]int"))},
		{ID: "untagged-array", Make: local("untagged array", "type $N [2]int")},
		{ID: "untagged-bytes", Make: local("untagged bytes", "type $N []byte")},
		{ID: "untagged-slice-struct", Make: func(b *B) string { n := nested(b); return b.Decl("untagged slice struct", "type $N []"+n) }},
		{ID: "untagged-map-struct", Make: func(b *B) string { n := nested(b); return b.Decl("untagged map struct", "type $N map[string]"+n) }},
		{ID: "tagged-slice-struct", Make: func(b *B) string {
			n := nested(b)
			return b.Decl("tagged slice struct", "//json:json\ntype $N []"+n)
		}},
		{ID: "tagged-map-struct", Make: func(b *B) string {
			n := nested(b)
			return b.Decl("tagged map struct", "//json:json\ntype $N map[string]"+n)
		}},
		{ID: "ptr-tagged-int", Make: star(local("tagged int", "//json:json\ntype $N int"))},
		{ID: "ptr-tagged-string", Make: star(local("tagged string", "//json:json\ntype $N string"))},
		{ID: "tagged-bool", Make: local("tagged bool", "//json:json\ntype $N bool")},
		{ID: "tagged-int8", Make: local("tagged int8", "//json:json\ntype $N int8")},
		{ID: "tagged-uint64", Make: local("tagged uint64", "//json:json\ntype $N uint64")},
		{ID: "tagged-float64", Make: local("tagged float64", "//json:json\ntype $N float64")},
		{ID: "ptr-named-time", Make: func(b *B) string { t := timeT(b); return "*" + b.Decl("named time", "//json:json\ntype $N "+t) }},
		{ID: "ptr-named-uuid", Make: func(b *B) string { t := uuidT(b); return "*" + b.Decl("named uuid", "//json:json\ntype $N "+t) }},
		{ID: "untagged-time", Make: func(b *B) string { t := timeT(b); return b.Decl("untagged time", "type $N "+t) }},
		{ID: "untagged-uuid", Make: func(b *B) string { t := uuidT(b); return b.Decl("untagged uuid", "type $N "+t) }},
		{ID: "ext-int8", Make: func(b *B) string { return b.Ext("int8", "int8", false) }, Def: "num"},
		{ID: "ext-uint64", Make: func(b *B) string { return b.Ext("uint64", "uint64", false) }, Def: "num"},
		{ID: "ext-uint16", Make: func(b *B) string { return b.Ext("uint16", "uint16", false) }, Def: "num"},
		{ID: "ext-float32", Make: func(b *B) string { return b.Ext("float32", "float32", false) }, Def: "num"},
		{ID: "ext-float64", Make: func(b *B) string { return b.Ext("float64", "float64", false) }, Def: "num"},
		{ID: "ptr-ext-bool", Make: func(b *B) string { return "*" + b.Ext("bool", "bool", false) }, Def: "bool"},
		{ID: "ptr-ext-float64", Make: func(b *B) string { return "*" + b.Ext("float64", "float64", false) }, Def: "num"},
		{ID: "ext-slice", Make: func(b *B) string { return b.Ext("slice", "[]int", true) }},
		{ID: "ext-map", Make: func(b *B) string { return b.Ext("map", "map[string]int", true) }},
		{ID: "ext-bytes", Make: func(b *B) string { return b.Ext("bytes", "[]byte", true) }},
		{ID: "ptr-ext-slice", Make: func(b *B) string { return "*" + b.Ext("slice", "[]int", true) }},
		{ID: "ext-slice-plain", Make: func(b *B) string { return b.Ext("slice", "[]int", false) }},
		{ID: "ext-map-plain", Make: func(b *B) string { return b.Ext("map", "map[string]int", false) }},
		{ID: "ext-ident", Make: func(b *B) string { return b.Ext("ident", "int", true) }},
	}
}

// Elems are the element types of containers.
func Elems() []Shape {
	var out []Shape
	for _, x := range basics {
		out = append(out, Shape{ID: x.t, Make: lit(x.t)})
	}
	out = append(out,
		Shape{ID: "ptr-int", Make: lit("*int")},
		Shape{ID: "ptr-int8", Make: lit("*int8")},
		Shape{ID: "ptr-uint16", Make: lit("*uint16")},
		Shape{ID: "ptr-string", Make: lit("*string")},
		Shape{ID: "ptr-bool", Make: lit("*bool")},
		Shape{ID: "ptr-float64", Make: lit("*float64")},
		Shape{ID: "named-string", Make: local("named string", "type $N string")},
		Shape{ID: "named-int", Make: local("named int", "type $N int")},
		Shape{ID: "named-int8", Make: local("named int8", "type $N int8")},
		Shape{ID: "named-int64", Make: local("named int64", "type $N int64")},
		Shape{ID: "named-uint64", Make: local("named uint64", "type $N uint64")},
		Shape{ID: "named-uint16", Make: local("named uint16", "type $N uint16")},
		Shape{ID: "named-float64", Make: local("named float64", "type $N float64")},
		Shape{ID: "named-float32", Make: local("named float32", "type $N float32")},
		Shape{ID: "named-bool", Make: local("named bool", "type $N bool")},
		Shape{ID: "ptr-uint64", Make: lit("*uint64")},
		Shape{ID: "ptr-float32", Make: lit("*float32")},
		Shape{ID: "ptr-named-int", Make: star(local("named int", "type $N int"))},
		Shape{ID: "untagged-slice", Make: local("untagged slice", "type $N []int")},
		Shape{ID: "untagged-map", Make: local("untagged map", "type $N map[string]int")},
		Shape{ID: "ptr-tagged-slice", Make: star(local("tagged slice", "//json:json\ntype $N []int"))},
		Shape{ID: "ptr-uuid", Make: star(uuidT)},
		Shape{ID: "ptr-named-string", Make: star(local("named string", "type $N string"))},
		Shape{ID: "struct", Make: nested},
		Shape{ID: "ptr-struct", Make: star(nested)},
		Shape{ID: "ext-struct", Make: extStruct},
		Shape{ID: "ptr-ext-struct", Make: star(extStruct)},
		Shape{ID: "ext-int32", Make: func(b *B) string { return b.Ext("int32", "int32", false) }},
		Shape{ID: "ext-string", Make: func(b *B) string { return b.Ext("string", "string", false) }},
		Shape{ID: "time", Make: timeT},
		Shape{ID: "ptr-time", Make: star(timeT)},
		Shape{ID: "uuid", Make: uuidT},
		Shape{ID: "tagged-int", Make: local("tagged int", "//json:json\ntype $N int")},
		Shape{ID: "tagged-slice", Make: local("tagged slice", "//json:json\ntype $N []int")},
		Shape{ID: "tagged-map", Make: local("tagged map", "//json:json\ntype $N map[string]int")},
	)
	have := map[string]bool{}
	for _, x := range out {
		have[x.ID] = true
	}
	for _, x := range basics { // the remaining kinds
		for _, e := range []Shape{
			{ID: "ptr-" + x.t, Make: lit("*" + x.t)},
			{ID: "named-" + x.t, Make: local("named "+x.t, "type $N "+x.t)},
		} {
			if !have[e.ID] {
				e.Extra = true
				out = append(out, e)
			}
		}
	}
	return append(out,
		Shape{ID: "tagged-string", Make: local("tagged string", "//json:json\ntype $N string"), Extra: true},
		Shape{ID: "tagged-bytes", Make: local("tagged bytes", "//json:json\ntype $N []byte"), Extra: true},
		Shape{ID: "tagged-array", Make: local("tagged array", "//json:json\ntype $N [2]int"), Extra: true},
		Shape{ID: "ptr-tagged-map", Make: star(local("tagged map", "//json:json\ntype $N map[string]int")), Extra: true},
		Shape{ID: "ptr-tagged-int", Make: star(local("tagged int", "//json:json\ntype $N int")), Extra: true},
		Shape{ID: "named-time", Make: func(b *B) string { t := timeT(b); return b.Decl("named time", "//json:json\ntype $N "+t) }, Extra: true},
		Shape{ID: "named-uuid", Make: func(b *B) string { t := uuidT(b); return b.Decl("named uuid", "//json:json\ntype $N "+t) }, Extra: true},
		Shape{ID: "ext-int8", Make: func(b *B) string { return b.Ext("int8", "int8", false) }, Extra: true},
		Shape{ID: "ext-float64", Make: func(b *B) string { return b.Ext("float64", "float64", false) }, Extra: true},
		Shape{ID: "ext-bool", Make: func(b *B) string { return b.Ext("bool", "bool", false) }, Extra: true},
		Shape{ID: "ext-slice", Make: func(b *B) string { return b.Ext("slice", "[]int", true) }, Extra: true},
		Shape{ID: "ext-map", Make: func(b *B) string { return b.Ext("map", "map[string]int", true) }, Extra: true},
		Shape{ID: "ptr-ext-int32", Make: func(b *B) string { return "*" + b.Ext("int32", "int32", false) }, Extra: true},
	)
}

// Inner are the containers used as elements.
func Inner() []Shape {
	return []Shape{
		{ID: "slice-int", Make: lit("[]int"), Heavy: true},
		{ID: "slice-string", Make: lit("[]string"), Heavy: true},
		{ID: "slice-ptr-int", Make: lit("[]*int"), Heavy: true},
		{ID: "slice-struct", Make: wrap("[]", nested), Heavy: true},
		{ID: "array-int", Make: lit("[2]int"), Heavy: true},
		{ID: "map-int", Make: lit("map[string]int"), Heavy: true},
		{ID: "bytes", Make: lit("[]byte"), Heavy: true},
		{ID: "bytearray", Make: lit("[4]byte"), Heavy: true},
		{ID: "slice-bool", Make: lit("[]bool"), Heavy: true},
		{ID: "slice-int8", Make: lit("[]int8"), Heavy: true},
		{ID: "slice-time", Make: wrap("[]", timeT), Heavy: true},
		{ID: "slice-ptr-struct", Make: wrap("[]*", nested), Heavy: true},
		{ID: "slice-named-string", Make: wrap("[]", local("named string", "type $N string")), Heavy: true},
		{ID: "slice-slice-struct", Make: wrap("[][]", nested), Heavy: true},
		{ID: "array-struct", Make: wrap("[2]", nested), Heavy: true},
		{ID: "array-string", Make: lit("[2]string"), Heavy: true},
		{ID: "map-struct", Make: wrap("map[string]", nested), Heavy: true},
		{ID: "map-ptr-int", Make: lit("map[string]*int"), Heavy: true},
		{ID: "map-slice-int", Make: lit("map[string][]int"), Heavy: true},
		{ID: "map-string", Make: lit("map[string]string"), Heavy: true},
	}
}

// Containers are slices, arrays and maps of everything.
func Containers() []Shape {
	var out []Shape
	for _, e := range append(Elems(), Inner()...) {
		e := e
		out = append(out, Shape{ID: "slice-" + e.ID, Make: wrap("[]", e.Make), Heavy: e.Heavy, Extra: e.Extra})
		out = append(out, Shape{ID: "map-" + e.ID, Make: wrap("map[string]", e.Make), Heavy: e.Heavy, Extra: e.Extra})
	}
	for _, e := range Elems() {
		switch e.ID {
		case "int", "int8", "string", "bool", "float64", "ptr-int", "named-string", "named-int8", "struct", "ptr-struct", "ext-struct", "time", "uint16":
			out = append(out, Shape{ID: "array-" + e.ID, Make: wrap("[2]", e.Make)})
			out = append(out, Shape{ID: "nkmap-" + e.ID, Make: func(b *B) string {
				return "map[" + b.Decl("named key", "type $N string") + "]" + e.Make(b)
			}})
		case "uuid", "ptr-time", "ptr-string", "ptr-ext-struct", "named-bool", "tagged-slice", "tagged-map", "tagged-string", "ext-int32", "ext-bool", "uint64", "float32", "uint8", "ptr-uint16", "named-float64", "named-uint64":
			out = append(out, Shape{ID: "array-" + e.ID, Make: wrap("[2]", e.Make), Extra: true})
			out = append(out, Shape{ID: "nkmap-" + e.ID, Extra: true, Make: func(b *B) string {
				return "map[" + b.Decl("named key", "type $N string") + "]" + e.Make(b)
			}})
		}
		switch e.ID {
		case "int", "string", "struct", "ptr-int8", "ptr-struct", "time", "named-string":
			out = append(out, Shape{ID: "ekmap-" + e.ID, Extra: true, Make: func(b *B) string {
				return "map[" + b.Ext("key", "string", false) + "]" + e.Make(b)
			}})
		}
	}
	for _, e := range Inner() {
		out = append(out, Shape{ID: "array-" + e.ID, Make: wrap("[2]", e.Make), Heavy: true, Extra: true})
	}
	for _, x := range []string{"int8", "uint64", "float64", "bool", "string"} {
		out = append(out, Shape{ID: "defref-slice-" + x, Make: local("defref slice "+x, "type $N *[]"+x), Extra: true, Heavy: true})
	}
	out = append(out,
		Shape{ID: "bytes", Make: lit("[]byte")},
		Shape{ID: "bytearray", Make: lit("[4]byte")},
		Shape{ID: "ptr-bytes", Make: lit("*[]byte"), Extra: true},
		Shape{ID: "ptr-bytearray", Make: lit("*[4]byte"), Extra: true},
		Shape{ID: "ptr-array-int", Make: lit("*[2]int"), Extra: true},
		Shape{ID: "ptr-slice-struct", Make: wrap("*[]", nested), Extra: true},
		Shape{ID: "ptr-map-struct", Make: wrap("*map[string]", nested), Extra: true},
		Shape{ID: "defref-time", Make: func(b *B) string { t := timeT(b); return b.Decl("defref time", "type $N *"+t) }, Extra: true},
		Shape{ID: "defref-uuid", Make: func(b *B) string { t := uuidT(b); return b.Decl("defref uuid", "type $N *"+t) }, Extra: true},
		Shape{ID: "ptr-slice-int", Make: lit("*[]int")},
		Shape{ID: "ptr-map-int", Make: lit("*map[string]int")},
		Shape{ID: "ikmap-int", Make: lit("map[int]int")},
		Shape{ID: "slice-slice-slice-int", Make: lit("[][][]int"), Heavy: true},
		Shape{ID: "defref-slice-int", Make: local("defref slice", "type $N *[]int")},
		Shape{ID: "defref-map-int", Make: local("defref map", "type $N *map[string]int")},
		Shape{ID: "defref-struct", Make: func(b *B) string { n := nested(b); return b.Decl("defref struct", "type $N *"+n) }},
	)
	return out
}

// Odd are types the generator has no meaning for.
func Odd() []Shape {
	return []Shape{
		{ID: "interface", Make: lit("interface{}")},
		{ID: "any", Make: lit("any")},
		{ID: "chan", Make: lit("chan int")},
		{ID: "func", Make: lit("func()")},
		{ID: "anon-struct", Make: lit("struct{ X int `json:\"x\"` }")},
		{ID: "ptr-ptr-int", Make: lit("**int")},
		{ID: "complex", Make: lit("complex128")},
		{ID: "rune", Make: lit("rune")},
		{ID: "byte", Make: lit("byte")},
		{ID: "error", Make: lit("error")},
	}
}
