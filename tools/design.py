import json
props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
claims=json.load(open('/verif/tools/claims.json'))
out=[]
w=out.append
w('''# Design

valyjson is a code generator: what its users rely on is the code it *emits* for declarations nobody has seen yet. The
tests compile and run the output for a few dozen committed fixtures. The properties here quantify over declarations
**and** over documents, values, generation histories and faults, so they are decided from the source, in three layers.
Nothing of /repo is compiled, run, or executed symbolically with a solver; every run of a check reads /repo's current
working tree.

```
 /repo source ──(go/ssa)──▶ absint: abstract interpretation of the generator over declaration forms (scen)
                                  │  per form and per generator path: emitted file + utilities file, refusals, effects
                                  ▼
                            emit: go/types + SSA of declaration and emitted code
                                  ▼
                            flow: path-sensitive dataflow on every emitted function  ──▶ rules (one per property)
```

## 1. The generator, interpreted abstractly (`analyzer/absint`, `analyzer/scen`)

* The SSA form (x/tools `go/ssa`) of the generator and of its `go-ast` dependency is built from source. `absint`
  evaluates it over *abstract* declarations: every type name, field name, json key, default, layout, package name,
  module path is an **atom** (opaque text with its own kind: identifier, key, number, ...). Operations that treat all
  characters alike (concatenation, cutting at a separator an atom cannot contain, comparing an atom with itself) act on
  the representation; a *decision* that looks at unknown text (`key == "x"`, `strings.HasPrefix(name, "Un")`, a
  length, a fold of case) is **undecided**, and both outcomes are followed, each with the equalities it assumes. One
  scenario therefore stands for all declarations of its form, and a generator that treated one particular name
  differently gives a second path whose output is analysed as well.
* The standard library is modelled (`models.go`): strings, strconv, unicode, fmt, sort, path/filepath, os (an abstract file
  system, every operation of which is an effect and can be made to fail), go/parser, go/ast, go/printer, go/format,
  text/template, reflect.StructTag. An operation without a model, or a budget that runs out (64 paths per scenario,
  60M steps, 720 s), is *undecided* and reported as a violation: no answer is never taken for a good one.
* `scen` enumerates the declaration forms (about 1200): 90 shapes of type expression x their tag combinations as
  fields, every shape as element of slice/array/map/pointer, as declared type, embedded/inlined/foreign/aliased
  structs, doc-tag words alone and combined, doc-tags on elements, defaults and layouts concrete and abstract, keys in
  unusual alphabets, structs of up to 66 fields, package arrangements with decoys, faults in each operation.
* Map iteration in the generator is run in four orders; values derived from clock or environment are tainted.

## 2. The emitted code (`analyzer/emit`, `analyzer/flow`)

Declaration, emitted file and emitted utilities file are type-checked together (go/types against the real fastjson,
easyjson/jwriter and uuid packages) and brought into SSA form. `flow` enumerates the paths of each function with an
*origin term* for every value (field of the receiver, member "k" of the document, element i of ..., result of call c,
constant) and path facts: nil facts, booleans, intervals/difference bounds, null-ness and kind of JSON values. Branches
decided by the facts are pruned; all others are followed both ways. Loops over containers are followed for up to two
entries per level (three in the thorough tier, falling back to two for methods with more than 60000 paths); what a third entry
adds repeats the same code. Library calls have contracts (fastjson `Get` gives nil or an owned value; `Int64` fails or
gives the value; base64 decoding is the inverse of encoding and may fail; ...). Functions of the utilities file are used
through contracts too, and `rules_util.go` holds each emitted utility function to its contract in the same run.

An oracle (`oracle.go`) reads the *declaration* - field types, json tags as `encoding/json` reads them, doc-tag words,
embedded and inlined fields as go/types resolves them - and says what each field requires. The rules compare; they never
compare text of the emitted code with expected text, so a generator that emits other code with the same meaning passes.

A violation names the property, the rule, the scenario, the emitted method and path, and the generator construct
(file:line, function) that emitted the offending node. `evidence/<id>.json` has what was analysed (scenarios, generator
paths, emitted files, methods, paths, obligations) and `evidence/<id>.violations.txt` the sites.

## 3. Properties
''')
order=sorted(props)
bounds={
'C01':('compile every accepted output with its declaration and utilities file','go/types','each form of the catalogue; every generator path'),
'C02':('interval of every number at the conversion that stores it; interval of every number on a path that rejects it','range of the destination type','every path of each decoder'),
'C03':('each fallible call on each path that returns nil has an error known to be nil there, before its value reaches the receiver','contracts of the calls','every path of UnmarshalJSON, FillFromJSON, validate and of the utilities'),
'C04':('pushdown check of the sequence of writes of each successful path','JSON grammar','every path of each MarshalTo'),
'C05':('constant keys looked up, counted and written; outermost name of each error; `-` fields keep their memory','json tag as reflect.StructTag and encoding/json read it','every struct form'),
'C06':('final memory of every field after Reset; elements decoded over a reused backing array','zero value of the type','every path of Reset; every decoder store'),
'C07':('path conditions of each return of IsZero against each field','zero value of the type','every path of IsZero'),
'C08':('path conditions over two (three) visited members with unconstrained keys','declared keys, strict word','every path of validate; order of validate and first store in FillFromJSON'),
'C09':('facts about presence of the key against stored value or error','tag words, the text of the default as a constant of the field type','every path of each struct decoder; absent, present, null'),
'C10':('same text under four map orders, under two inputs in one process, and without clock/env taint','text equality','each scenario with a map iteration; pairs of inputs'),
'C11':('alias origin of everything stored; typestate of parser (Get, Parse, Put, use)','ownership contracts of fastjson, copies made by conversions','every path of each decoder'),
'C12':('origin of each written value and the width/signedness of its writer','declaration','every successful path of each encoder'),
'C13':('set of files created, written, renamed; each environment operation failing once','Print argument + valyjson_utils.go','effects on every scenario; 3000 failing operations'),
'C14':('origin of the receiver memory at each successful return','declaration','every path of each decoder'),
'C15':('method set of each type in the type-checked output, with signatures; forms once handled still are (supported.txt)','doc-tag words','every doc-tag word and combination, every kind'),
'C16':('paths where a value may be null: no error from it, nothing but nil/default stored','type kind','every position of each decoder'),
'C17':('number of times each key is written against the facts of the path','omitempty, emptiness as encoding/json and IsZero define it','every successful path of each encoder'),
'C18':('names wrapped around each returned error against the place of the value it is about','place of the JSON value in the document','every failing path; wrapping helpers analysed, not trusted'),
'C19':('emitted code held, field by field, against what go/types says the declaration means','go/types','package arrangements: aliases, namesakes, test and main packages, names unlike directories, chains'),
'C20':('layout constant of each parse and format call, attributed to its field','layout tag; list tried by parseDateTime','every time form'),
'C21':('each fallible call of each encoder path that returns nil has an error known to be nil','contracts','every path of MarshalTo, MarshalJSON'),
'C22':('nil and interval facts at each dereference, index, slice, map write, call of a decoder','language rules','every path of each emitted function'),
}
w('| id | property | what the rule decides | oracle | over |')
w('|---|---|---|---|---|')
for p in order:
    if p in bounds:
        a,b,c=bounds[p]
        w(f"| {p} | {props[p]['title']} | {a} | {b} | {c} |")
w('')
w('Why tests cannot settle them: the fixtures under test/ are one declaration per form, decoded from one or two documents. '
  'The rules cover each path of the emitted code (a wrong comma needs one particular combination of nil fields; a lost error one particular element), '
  'each form of declaration, both outcomes of every decision on a name, each map order and each failing operation.\n')
w('### Not applicable\n')
for k,v in sorted(claims['na'].items()):
    w(f"* **{k} {props[k]['title']}** - {v}")
w('''
### Limits

* Holds for the catalogue: a declaration form outside it is not covered (shapes nest two levels deep, containers two to
  three entries, structs up to 66 fields).
* Trusted: the models of the standard library in `absint/models.go`, the contracts of fastjson, jwriter, base64, uuid,
  time and strconv in `flow`, go/types. A nested generated method is assumed to satisfy the property that is being
  decided for it on its own (induction over the type).
* C01 alone reports a scenario whose output does not compile (C19 too for foreign types); the other rules skip it.
* 64-bit `int`/`uint`.
* The go-ast dependency is interpreted from the module cache, as the generator sees it.
* Cost: 10-40 s per property in the quick tier, one build of the analyser from source, no cache. The thorough tier (three entries per level)
  takes up to 3 minutes.

## 4. Findings

`KNOWN_FINDINGS.txt` (written by `tools/known.py` from `tools/known_classes.json`, never at run time) lists each genuine defect
that was not repaired, by the sites (rule, scenario, method) at which it shows; a violation at any other site fails the check.
Most could not be repaired within the rules of this task: `test/fields_test.go` compares hashes of the regenerated files under
test/tests/fill, so a repair that changes that output needs a change of test files. Each was reproduced against
the real code when it was listed.
''')
import re
kn=open('/verif/KNOWN_FINDINGS.txt').read()
w('| property | class | what fails |\n|---|---|---|')
for m in re.finditer(r'^finding: property=(\S+) id=(\S+) (.*)$',kn,re.M):
    w(f'| {m[1]} | {m[2]} | {m[3]} |')
w('\nRepaired with `fix:` commits in /repo (the checks report each again if it returns):\n')
w('| property | commit | what failed |\n|---|---|---|')
for m in re.finditer(r'^fixed: property=(\S+) (\S+) (.*)$',kn,re.M):
    w(f'| {m[1]} | {m[2]} | {m[3]} |')
w('''
### False alarms met on the way, and what was changed

* C09: a field that is both required and has a default - the repository's tests accept either, so the property allows both.
* C12/C16: all-zero fixed arrays and `uuid.UUID` are written as null and read as zero by design; stated in the properties.
* C17: fixed arrays under omitempty may always be written, as in encoding/json.
* C10: the order in which the import collector walks its map never reaches the text; runs whose only map iteration is that one
  are not compared (the printed imports are sorted), which also keeps the check fast.
* C15/C08: an untagged struct that is the element of a tagged slice or array takes over its doc-tag words. The first oracle
  took it for untagged.
* C13: a failing `os.Stat`-like probe whose absence is a legitimate answer (does go.mod lie in this directory?) is no lost error.
* Loop counters compared with the length of abstract text, early drafts of suffix/prefix decisions, and file-open failures whose
  cause is undecided made paths that no input has; the interpreter now keeps these decisions consistent.
* Refactorings (helpers extracted, switches for ifs, loops rewritten, maps for slices, sort.Slice, closures, method values,
  generics, defer) of ten parts of the generator were tried in copies with the whole set of checks; constructs the
  interpreter did not know were added until all were quiet.

## 5. Planted bugs

Each is in `seeded/<id>/` with a patch, a demonstration against the real code and its meta data; all pass the 510 stable tests.
Changes that show at once in the fixtures were dropped (the hash test catches them). "Caught by" lists every check that exits 1 with it.
''')
cm=json.load(open('/verif/tools/catches.json')) if __import__('os').path.exists('/verif/tools/catches.json') else {}
import os
w('| change | property | what it needs | caught by |\n|---|---|---|---|')
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    w(f"| {d} | {m['property']} | {m['needs']} | {cm.get(d,m['property'])} |")
w('''
Missed at first, and what was added: `package-hint` (a refused scenario that used to be handled is now a C19 violation,
with `supported.txt`), `strict-element` (doc-tags of elements), `map-null-ext` and `required-pointer-type` (declared maps of pointers, named pointers with
required), `inline-fold` (names that differ in case), `missing-file` (open failures with an undecided cause), `pool-name`
(declarations whose names differ in case only), `tag-name-spaces` (member names with spaces, digits, capitals), `array-element-path`
(fixed arrays of structs, which did not compile before b2d1e34), `array-then-slice` (every ordered pair of twelve kinds of fields in
one struct, and of ten kinds of declarations in one file), `option-order` in the analysed tree itself (scenarios with every order of tag options; repaired as d35c362).

## 6. Working on it

* `check.sh PROP [quick|thorough]` builds and runs; `VJ_ONLY=substr` restricts the scenarios; `vj scan <filter> [dump]` shows what is
  emitted, `vj flow <filter> <Method> show` the paths.
* `tools/gen_properties.py` writes properties.jsonl, `tools/manifest.py` MANIFEST.json (from `tools/claims.json`), `tools/known.py` KNOWN_FINDINGS.txt,
  `tools/design.py` this file.
* No hooks in /repo.
''')
open('/verif/DESIGN.md','w').write('\n'.join(out)+'\n')
