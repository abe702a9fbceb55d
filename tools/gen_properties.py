#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (development helper; not used by any check)."""
import json, os
G="generator/"
C=G+"codegen/"
F=C+"field/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0] if len(files)==1 else ", ".join(files[:6])} for m in mech]}
    if state: a["state"]=[{"name":state,"meaning":"state the mechanism keeps","where":files[0]}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Generated files always compile against the declarations they were made for",
 "For every declaration the generator accepts without failing, the file it writes (plus the utilities file) parses, type-checks together with the user's package, and imports exactly the packages it uses. A declaration it cannot handle makes generation fail loudly instead of producing a file that does not build.",
 ["inputs"],"every combination of field type shape, tag, default, doc-tag, and declaration name the generator accepts",
 "The tests regenerate and compile sixteen fixed inputs; the set of accepted type shapes x tags x names is unbounded and most renderer branches are not in any input.",
 [C+"struct.go",C+"array.go",C+"map.go",C+"byteslice.go",C+"transit.go",F+"fields.go",F+"fill.go",F+"extractors.go",F+"marshal.go",F+"marshalers.go",G+"parser.go"],
 ["codegen.*.FillFromFunc / MarshalToFunc / ZeroFunc / ResetFunc","field.(*Field).FillStatements","field.(*Field).MarshalStatements","generator.(*Gen).FixImports"],
 observe="the Go source written by Gen.Print")
p("C02","Decoders accept exactly the numbers the destination type can hold",
 "A generated decoder never stores a JSON number that was truncated or wrapped to fit the destination integer or float type: a number outside the destination's range is reported as an error. Every number inside the range is accepted and converted through a type that can hold it.",
 ["inputs"],"every JSON number, every numeric destination type (int8..uint64, float32/64, named, pointer, slice, array, map element)",
 "The violating values are a sparse set at the edges of each type's range, for every context (field, pointer, element, map value, alias) the tests do not enumerate.",
 [F+"fill.go",F+"extractors.go",C+"array.go",C+"map.go",C+"transit.go"],
 ["field.getMaxByType","field.(*Field).checkErr","field.(*Field).typeExtraction","field.intExtraction and siblings"],
 observe="conversions in emitted FillFromJSON")
p("C03","No decoding error is ever lost",
 "In generated decoding code every call that can fail has its error examined on every path before the decoded value is used, and when it is non-nil the enclosing UnmarshalJSON/FillFromJSON returns a non-nil error. No error variable is overwritten or shadowed before it is examined.",
 ["inputs","fault_sequences"],"every malformed or wrongly typed JSON document and every declared type",
 "A dropped error shows only for a document malformed at the one construct whose check is missing, in a type shape no test decodes.",
 [F+"fill.go",F+"extractors.go",F+"byteslice.go",C+"codegen.go",C+"struct.go",C+"array.go",C+"map.go",C+"transit.go"],
 ["field.(*Field).checkErr","field.(*Field).breakErr","field.checkErrAndReturnParsingError","codegen.NewUnmarshalFunc"],
 observe="err-typed values in emitted decode functions")
p("C04","Encoders always emit well-formed JSON",
 "On every path through a generated MarshalTo that returns without error, the bytes written form exactly one JSON value: separators, brackets, quotes and key/value pairs alternate correctly whichever fields are nil, empty or omitted. String data is written only through the escaping writer.",
 ["inputs","configurations"],"every value of every generated type and every combination of omitted/nil/zero fields",
 "Comma and bracket bookkeeping depends on which of the 2^n field subsets is present and on neighbouring fields; tests sample a handful of values.",
 [F+"marshalers.go",F+"marshal.go",F+"fields.go",F+"byteslice.go",C+"struct.go",C+"array.go",C+"map.go",C+"byteslice.go",C+"transit.go",C+"codegen.go",G+"static/tpl/valyjson_utils.go.tpl"],
 ["field.WriteBlock.Render","field.SetCommaVar/WantCommaVar","field.*Marshal","field.GetValueExtractor","codegen.makeWriteAndReturn"],
 state="emitted local wantComma",observe="calls on *jwriter.Writer in emitted MarshalTo")
p("C05","Each field has one JSON key, shared by decoder, encoder and duplicate check",
 "A field is looked up, checked for duplicates and written under exactly the key in its json tag, in all three generated places, and every error raised for it names that key. A field tagged json:\"-\" is neither read nor written.",
 ["inputs","configurations"],"every field of every declaration and every json tag value",
 "Agreement between separately generated functions must hold for every tag spelling; tests cover the few names in the fixtures.",
 [F+"fill.go",F+"fields.go",F+"marshal.go",F+"marshalers.go",C+"struct.go",C+"tags/tags.go"],
 ["field.(*Field).getValue","codegen.(*Struct).ValidatorFunc","field.(*Field).MarshalStatements","tags.Tags.JsonName"],
 observe="string literals used as keys in emitted code")
p("C06","Reset returns every field to its zero state",
 "After a generated Reset, every field (including promoted, pointer, map, slice, array and nested ones) holds nothing of its previous content: scalars are zero, pointers nil or reset, slices empty, maps empty. No field of the declaration is left out.",
 ["inputs","histories"],"every declared type and every previous content; reuse of one object for many documents",
 "A forgotten field leaks data between reuses only for a type shape and a history no test replays.",
 [C+"codegen.go",C+"struct.go",C+"array.go",C+"map.go",C+"byteslice.go",C+"transit.go",C+"helpers/asthelpers.go"],
 ["codegen.resetStmt","codegen.*.ResetFunc","helpers.ZeroValueOfT"],observe="stores and Reset calls in emitted Reset")
p("C07","IsZero is true only for values with nothing to encode",
 "A generated IsZero examines every field and returns false as soon as one differs from its zero value, so that omitempty never drops a value that carries data. It returns true for a value whose examined fields are all zero.",
 ["inputs"],"every declared type and every value",
 "A wrong or missing comparison only shows on a value whose single non-zero field is the forgotten one.",
 [C+"struct.go",C+"array.go",C+"map.go",C+"byteslice.go",C+"transit.go",C+"helpers/asthelpers.go"],
 ["codegen.*.ZeroFunc","helpers.ZeroValueOfT"],observe="comparisons in emitted IsZero")
p("C08","Duplicate keys are rejected, unknown keys exactly under strict",
 "A generated struct decoder rejects any document in which the key of any declared field occurs twice, before it fills anything. With the strict doc-tag (its own, or the one that an untagged struct takes over from the tagged slice or array it is the element of) it also rejects every key that is not a declared field; without it unknown keys are ignored.",
 ["inputs"],"every document (any key multiset, any order) and every struct declaration, any number of fields",
 "The rejection must hold for each field position and each key order; the tests duplicate one key in one fixture.",
 [C+"struct.go",C+"tags/tags.go"],["codegen.(*Struct).ValidatorFunc","tags.StructTags.StrictRules"],
 state="emitted checkFields counters",observe="emitted validate")
p("C09","Missing fields follow their tags: required fails, default fills in",
 "When a field's key is absent the decoder returns an error if the field is required, assigns the declared default if it has one, and otherwise leaves the field alone (a field that is both required and has a default may do either); when the key is present with a value other than null neither the error nor the default applies. The default stored is exactly the text in the tag.",
 ["inputs","configurations"],"every field type, every default text, every document with or without the key",
 "Defaults are spliced into code as literals per type; only a few type/default pairs occur in the fixtures.",
 [F+"fill.go",C+"helpers/asthelpers.go",C+"tags/tags.go"],["field.(*Field).ifDefault","helpers.BasicLiteralFromType","tags.Tags.DefaultValue"],observe="else branch of the emitted lookup of each field")
p("C10","Generation is deterministic",
 "The text written for an input depends only on the source tree: no map iteration order, time, environment or earlier use of the package changes a byte of it.",
 ["schedules","configurations","histories"],"every input and every run, including several inputs generated by one process",
 "A test compares one run's output; order nondeterminism appears only in some runs, for inputs with several imports or packages.",
 [G+"parser.go",G+"analyse.go",G+"discoverer/parser.go",G+"discoverer/projstruct.go",G+"static/static.go"],
 ["generator.(*Gen).FixImports","generator.(*Gen).ExploreType","discoverer.lookupNames"],state="explorer.knownPackages")
p("C11","Decoded objects never alias the pooled parser's memory",
 "No string, slice or pointer stored by a generated decoder refers to memory owned by the fastjson parser or its input buffer, so an object stays intact after its parser is reused. A parser taken from the pool is given back only after decoding is finished, and only the type's own pool is used.",
 ["schedules","histories"],"every decoded type and every later or concurrent use of the pool",
 "Aliasing is invisible until another document is parsed into the same buffer at the right moment.",
 [C+"codegen.go",F+"fill.go",F+"extractors.go",F+"byteslice.go",C+"map.go",C+"transit.go"],
 ["codegen.NewUnmarshalFunc","field.stringExtraction","field.(*Field).typedFillIn","field.ByteSliceFillFrom"],
 state="emitted jsonParser<Type> pool",observe="data flow from fastjson accessors to stores into the receiver")
p("C12","Encoders write each field's own value, whole, with the writer of its kind",
 "For every field the encoder writes the value of that field and no other, through a writer method whose argument type can represent every value of the field's type (integers through 64-bit integer writers of the same signedness, floats as float64, bytes as base64, strings quoted). null stands only for nil and for all-zero fixed arrays.",
 ["inputs"],"every field type and every value",
 "Narrowing or cross-wired values only show for particular values of particular shapes.",
 [F+"marshalers.go",F+"marshal.go",F+"fields.go",F+"byteslice.go",C+"array.go",C+"map.go",C+"transit.go"],
 ["field.intMarshal / uintMarshal / floatMarshal / stringMarshal / boolMarshal","field.GetValueExtractor","codegen.(*Transitive).MarshalToFunc"],
 observe="arguments of jwriter calls in emitted MarshalTo")
p("C13","The generator writes only its two designated files and reports its failures",
 "Running the generator creates or truncates only the file named in Print and valyjson_utils.go beside it, never an input. Every failure to read, parse, resolve, format or write reaches the caller as an error or panic; none is dropped so that a partial or unformatted file passes for success.",
 ["fault_sequences","inputs"],"every failing file operation and every input tree",
 "The tests run on a healthy filesystem and valid sources; each I/O or parse failure point would have to be injected.",
 [G+"parser.go",G+"analyse.go",G+"static/static.go",G+"discoverer/parser.go",G+"discoverer/projstruct.go","main.go"],
 ["generator.(*Gen).Print","generator.fmtGOFile","generator.(*Gen).Parse","static.Print","discoverer.(*Discoverer).Discover"])
p("C14","Decoders store each present value into its own field, and nothing else",
 "When a field's key is present and decodes without error, the decoded value (or an equal conversion of it) is stored into exactly that field on every path; element i of an array goes to position i and map values to their own key. No decoder reads a key and drops the value.",
 ["inputs"],"every field type, every document",
 "A dropped or cross-wired store shows only for the shape concerned; most shapes are in no fixture.",
 [F+"fill.go",F+"extractors.go",C+"array.go",C+"map.go",C+"transit.go",C+"byteslice.go"],
 ["field.(*Field).fillFrom","field.(*Field).fillField / fillRefField / fillFieldRef","field.(*Field).appendElem / fillElem","field.(*Field).mapExtraction"],
 observe="stores to the receiver in emitted FillFromJSON")
p("C15","Each doc-tag yields exactly its set of generated methods",
 "A tagged declaration gets the decoder methods (UnmarshalJSON, FillFromJSON, and validate for structs) unless it is marked encode or custom, and the encoder methods (MarshalJSON, MarshalTo, IsZero, Reset) unless it is marked decode or custom. Untagged declarations get none, except one that a tagged slice or array has as its element, and no method is generated twice.",
 ["configurations"],"every combination of doc-tags, case, spacing and comment position, on every kind of declaration",
 "The combinations of directive, declaration kind and grouping are not enumerated by fixtures.",
 [G+"analyse.go",C+"tags/tags.go"],["generator.(*Gen).BuildDecoders","generator.(*Gen).BuildEncoders","generator.extractTags","generator.(*visitor).processDecl"],observe="method set of the emitted file")
p("C16","JSON null never becomes data and never crashes the decoder",
 "For a field, element or entry whose type is a pointer, slice, map or array (uuid.UUID apart) a null value is treated as absent: it raises no error other than that of a required field and stores nothing but nil or the default. For other destinations null is an error or leaves the zero value, never a fabricated one.",
 ["inputs"],"every position at which null can occur (field, element, map value, root), every type",
 "The positions times types are not enumerated by tests.",
 [F+"fields.go",F+"fill.go",C+"array.go",C+"map.go",C+"byteslice.go",F+"byteslice.go",G+"static/tpl/valyjson_utils.go.tpl"],
 ["field.(*Field).prepareRef (isNullable)","field.(*Field).FillStatements","valueIsNotNull"])
p("C17","omitempty drops a key only for empty fields; other keys are always written",
 "A field without omitempty is written exactly once on every successful path of the encoder, whatever its value. A field with omitempty is written whenever it is not empty (non-zero, non-nil, not IsZero) and left out when it is empty, except that fixed arrays may always be written, as encoding/json does.",
 ["inputs","configurations"],"every field type x omitempty x value",
 "Tests compare a few whole documents; the presence rule must hold for each type shape and value.",
 [F+"marshalers.go",F+"marshal.go",F+"fields.go"],["field.WriteBlock.Render","field.*Marshal (omitempty argument)"],observe="key writes per path in emitted MarshalTo")
p("C18","Decoding errors carry the path of the offending element",
 "Every error a generated struct, array or map decoder returns for an element is wrapped with that element's own key or index, outermost first, and still unwraps to the original cause. Wrapping never turns an error into nil or nil into an error.",
 ["inputs"],"every nesting of declared types and every failing document",
 "The path must be right at each of the nested levels; tests check a few messages.",
 [F+"fill.go",F+"extractors.go",C+"array.go",C+"map.go",C+"struct.go",G+"static/tpl/valyjson_utils.go.tpl"],
 ["newParsingError / parsingError.WrapPath","field.checkErrAndReturnParsingError","field.(*Field).breakErr"])
p("C19","Embedded, inlined and foreign types resolve to the declaration Go means",
 "Inlined and embedded fields contribute exactly the fields of the type the Go language resolves the name to, in the package the import names, and types from other packages of the module are handled by their real underlying type. A type that cannot be resolved fails generation rather than being taken for another one.",
 ["inputs","configurations"],"every arrangement of packages, import aliases, same-named packages and same-named types in a module",
 "Depends on the project layout (name clashes, aliases, nested modules), of which the fixtures contain one.",
 [G+"analyse.go",G+"parser.go",G+"discoverer/parser.go",G+"discoverer/projstruct.go"],
 ["generator.(*visitor).resolveExternal","generator.(*visitor).exploreInlinedSelector","generator.(*Gen).ExploreType","discoverer.(*Discoverer).GetPackage"],state="Gen.packages, Discoverer.packages")
p("C20","Times are encoded in the layout they are decoded with",
 "A time field with a layout tag is parsed with exactly that layout and formatted with exactly that layout; a time field without one is formatted in a layout the decoder's list of known formats accepts.",
 ["inputs","configurations"],"every layout tag, every position of a time (field, pointer, element, alias)",
 "Layouts are arbitrary text; one literal layout occurs in the fixtures.",
 [F+"extractors.go",F+"marshalers.go",F+"fields.go",C+"transit.go",C+"names/const.go",G+"static/tpl/valyjson_utils.go.tpl"],
 ["field.timeExtraction","field.timeMarshal","parseDateTime","writeTime"])
p("C21","Encoding errors are propagated to the caller",
 "When encoding a nested value fails, the enclosing MarshalTo and MarshalJSON return a non-nil error, and MarshalJSON never returns bytes together with a dropped error.",
 ["fault_sequences"],"every nested type whose marshaller can fail, at every position",
 "The tests contain no failing marshaller.",
 [F+"marshalers.go",F+"fields.go",C+"codegen.go",C+"transit.go",C+"array.go",C+"map.go"],
 ["codegen.NewMarshalFunc","codegen.makeWriteAndReturn","field.structMarshal","field.GetValueExtractor (transitMarshaller)"])
p("C22","Generated code cannot crash on any document or value",
 "Generated decoders and encoders contain no nil dereference, out-of-range index, or write to a nil map on any path: pointers are examined or allocated before use, and indices stay within the length established for the slice or array.",
 ["inputs"],"every document and every value (nil pointers, empty and oversized arrays)",
 "A crash needs the particular combination of nil, length and shape.",
 [F+"fill.go",F+"extractors.go",F+"marshalers.go",F+"fields.go",C+"codegen.go",C+"array.go",C+"map.go",C+"byteslice.go",C+"transit.go"],
 ["field.(*Field).appendElem / fillElem","field.arrayExtraction","codegen.(*Array).FillFromFunc","field.(*Field).typeMarshal"])
p("C23","Encoding followed by decoding gives back an equal value",
 "For every value v of a generated type, decoding the bytes encoding v yields a value equal to v up to omitted empty fields.",
 ["inputs"],"every value of every generated type",
 "Needs all values; and depends on the text produced and read by the third-party writer and parser.",
 [F+"fill.go",F+"marshalers.go"],["emitted MarshalTo / FillFromJSON pairs"])
p("C24","Decoding and encoding are linear in the size of the document",
 "Generated code does a bounded amount of work and allocation per byte of input or output, as the documentation's efficiency claim promises.",
 ["inputs"],"every document size and shape",
 "Benchmarks sample a few sizes.",
 [F+"extractors.go",F+"fill.go",C+"codegen.go"],["field.sliceExtraction","codegen.NewUnmarshalFunc"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
