#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe))

G="generator/"; CG=G+"codegen/"; F=CG+"field/"
NOTE="random declarations (every supported field/top-level shape dealt at least once per package batch) x random values/documents; oracle is an independent model interpreting the declarations. Search, not proof; findings listed in known_findings.jsonl are excluded by construction."

p("P01","Decoding what was encoded gives the value back",
  "For every supported type declaration and every value of the type, encoding the value with the generated encoder and decoding the result into a fresh value with the generated decoder succeeds and restores the value exactly: numbers to full precision, strings with every character, byte strings, times, UUIDs, nil and non-nil pointers, list elements in order, map entries, embedded and inlined members. Exempt are only the differences JSON itself erases (nil against empty containers, members left out because they are empty or absent, a time's monotonic reading and location name, precision below the field's layout).",
  ["inputs","programs"],"all declarations from the supported grammar (scalars, pointers, lists, arrays, maps, byte strings, times, UUIDs, named/tagged/external/nested/recursive types) and all values of them",
  "The tests encode and decode a handful of hand-written structs with hand-picked values, mostly in one direction; no test quantifies over declarations or over values such as extreme numbers, control characters, deep nesting or nil elements.",
  [CG+"struct.go",CG+"array.go",CG+"map.go",CG+"byteslice.go",CG+"transit.go",F+"fill.go",F+"marshal.go",F+"marshalers.go",F+"extractors.go",G+"static/tpl/valyjson_utils.go.tpl"],
  [("decoder statements per field type",F+"fill.go"),("encoder statements per field type",F+"marshal.go, "+F+"marshalers.go"),("list/array/map bodies",CG+"array.go, "+CG+"map.go")],
  "property-based round-trip testing (rapid) over generated type declarations and values",NOTE)
p("P02","Encoders write valid JSON that represents the value, as encoding/json does",
  "For every supported type declaration and every value of the type whose numbers are finite, the encoder succeeds without panicking and its output is one syntactically valid JSON document which holds each member exactly once under its declared name, with the member's value and JSON kind: a nil pointer is written as null, or left out if the member is omitempty. Where encoding/json accepts the same declaration, both documents represent the same value.",
  ["inputs","programs"],"all supported declarations and all values of them, nil pointers, empty containers and invalid UTF-8 included",
  "Tests compare a few hand-written outputs; commas, quoting, nil handling and number formatting depend on the combination of neighbouring members and on values no test has.",
  [F+"marshalers.go",F+"marshal.go",F+"fields.go",CG+"struct.go",CG+"array.go",CG+"map.go",CG+"byteslice.go",CG+"transit.go",G+"static/tpl/valyjson_utils.go.tpl"],
  [("write blocks with their not-empty condition and comma",F+"marshalers.go WriteBlock.Render"),("value writers",F+"fields.go GetValueExtractor"),("struct/array/map writers",CG+"struct.go, array.go, map.go MarshalToFunc")],
  "property-based testing: generated values, output parsed by an independent JSON parser, compared with a model and differentially with encoding/json",NOTE)
p("P03","Decoders accept every well-formed matching document and store its values",
  "For every supported type declaration, a valid JSON document whose members match the declared kinds and ranges is accepted, and every declared member receives exactly the value the document holds, whatever the order of members, white space, escapes in strings or spelling of numbers. null resets or skips a member as documented for its kind, and for declarations that encoding/json can decode alike, both decoders produce the same value.",
  ["inputs","programs"],"all supported declarations and all matching documents (generated from the declaration, not from the encoder)",
  "Tests decode a few fixed documents, mostly in declaration order and canonical spelling.",
  [F+"fill.go",F+"extractors.go",F+"byteslice.go",CG+"struct.go",CG+"array.go",CG+"map.go",CG+"transit.go",CG+"byteslice.go"],
  [("member lookup and extraction",F+"fields.go FillStatements, "+F+"fill.go"),("list, map, array bodies",CG+"array.go, "+CG+"map.go FillFromFunc")],
  "property-based testing: documents generated from the declaration, oracle = model decoder, differential against encoding/json",NOTE)
p("P04","Values of the wrong kind or out of range are rejected",
  "If anywhere in an otherwise valid document a value has a JSON kind the declared type cannot hold (a string for a number, an object for a list, a fraction for an integer, malformed base64, time or UUID text, more elements than a fixed array has), or a number does not fit the declared integer or float size, decoding returns an error: it never succeeds with a wrapped, truncated or zero value and never panics. The listed known findings (scalar minimums of sized members) are the only exceptions.",
  ["inputs","programs"],"every position in every matching document of every supported declaration, and every kind/range defect applicable at that position",
  "Tests check one or two wrong kinds for a few members; positions inside lists, maps, arrays, nested and named types with each defect are a product no test list enumerates.",
  [F+"extractors.go",F+"fill.go",F+"byteslice.go",CG+"array.go",CG+"map.go",CG+"transit.go",CG+"byteslice.go"],
  [("checked extraction",F+"extractors.go"),("range checks",F+"fill.go RangeCheck, getMaxByType"),("length check of arrays",CG+"array.go, "+F+"extractors.go arrayExtraction")],
  "property-based fault injection into generated documents, oracle = declaration-derived site table",NOTE)
p("P05","Malformed JSON text is handled cleanly",
  "For any byte string whatsoever given to a generated decoder, the call returns (no panic, no hang, no memory corruption); text that is structurally not JSON - truncated, with missing or stray brackets, quotes, colons or trailing garbage - is reported as an error, and what is accepted decodes to a value that encodes again to valid JSON.",
  ["inputs","programs"],"arbitrary byte strings: random bytes, truncations and mutations of valid documents of every supported declaration",
  "Tests feed a couple of malformed strings; the property is about every byte string.",
  [CG+"codegen.go",CG+"byteslice.go",F+"byteslice.go",CG+"struct.go",F+"extractors.go",G+"static/tpl/valyjson_utils.go.tpl"],
  [("parse errors propagated",CG+"codegen.go NewUnmarshalFunc"),("parser pool",G+"static/tpl/valyjson_utils.go.tpl")],
  "fuzzing: seeded mutation of generated documents and random bytes, oracle = independent JSON parser for structural validity plus no-crash",NOTE)
p("P06","Strict types reject undeclared members; other types ignore them",
  "A type declared strict rejects any object holding a member that the type (including its inlined and embedded members) does not declare, at any position and whatever the member's value, and accepts every object that holds only declared members, in any order and subset. A type not declared strict decodes exactly as if the undeclared members were not there; strictness of an outer type does not change that of nested types and the other way round.",
  ["inputs","programs"],"all strict and non-strict declarations and nestings, all unknown names including near misses of declared names (case, prefix, suffix, escapes, non-ASCII)",
  "Tests have two or three strict structs and one unknown name each.",
  [CG+"struct.go",G+"analyse.go",CG+"tags/tags.go"],[("validate method",CG+"struct.go ValidatorFunc"),("directive parsing",G+"analyse.go extractTags, "+CG+"tags/tags.go StrictRules")],
  "property-based metamorphic testing: inject unknown members at random object sites",NOTE)
p("P07","A member given twice is rejected",
  "If a JSON object decoded into a generated struct holds the same declared member more than once, however its name is spelled (escapes), wherever it stands, with equal or different values and in structs of any number of members, decoding fails with an error; objects in which each declared member occurs at most once are never rejected for duplication. This holds for strict and non-strict types and at every nesting level.",
  ["inputs","programs"],"all struct declarations (1 to >64 members) and all documents with a repeated member",
  "Tests repeat one member of one small struct.",
  [CG+"struct.go"],[("check list of seen members",CG+"struct.go ValidatorFunc")],
  "property-based fault injection: duplicate a random member at a random object site",NOTE)
p("P08","Required members must be present",
  "If a member declared required is absent from its object, decoding fails (for scalar members null counts as absence), whatever the variable held before, and a document that provides all required members is not rejected for lack of one. Members that are not required may always be absent, at every nesting level.",
  ["inputs","programs"],"all declarations with required members of every shape, all documents lacking one",
  "Tests drop required members of a few scalar kinds in one struct.",
  [F+"fill.go",F+"fields.go",CG+"tags/tags.go"],[("ifDefault/required branch",F+"fill.go ifDefault"),("tag parsing",CG+"tags/tags.go JsonAppendix")],
  "property-based fault injection: remove a random required member",NOTE)
p("P09","Absent members take their declared default, verbatim",
  "A member with a declared default that is absent from the document gets exactly the declared value (text verbatim, with quotes, backslashes, commas and non-ASCII characters; numbers and booleans with their value), through pointers and named types too. A member that is present keeps the document's value even if that is the zero value, and defaults never leak into members that declare none.",
  ["inputs","programs"],"all kinds of scalar members, pointers to them and named types over them with any representable default",
  "Tests have one default per kind, with plain values.",
  [F+"fill.go",CG+"tags/tags.go",F+"fields.go"],[("default branch",F+"fill.go ifDefault"),("default literal",CG+"helpers/basic.go, "+CG+"tags/tags.go DefaultValue")],
  "property-based testing of random default tags and subsets of present members against a model",NOTE)
p("P10","omitempty leaves out exactly the empty members",
  "A member declared omitempty is left out of the output if and only if it is empty (false, 0, empty string, nil pointer, nil list or map, for list and map types of another package also one without elements, zero time, zero struct; emptiness of declared array, time and UUID types is left open), and any other member is always written. Leaving members out never damages the rest of the document: it stays valid JSON with exactly the other members.",
  ["inputs","programs"],"all declarations mixing omitempty and other members of every shape; all values, biased to sets of empty members at the beginning, middle and end",
  "Tests have one omitempty struct with a couple of values; which subset is empty decides the commas.",
  [F+"marshalers.go",F+"fields.go",F+"marshal.go",CG+"struct.go"],[("not-empty conditions",F+"marshalers.go, "+F+"fields.go notEmptyCondition"),("comma flag",CG+"struct.go MarshalToFunc, "+F+"marshalers.go Render")],
  "property-based testing biased to empty members, output compared with a model of emptiness",NOTE)
p("P11","A reset value decodes like a fresh one",
  "For any history of decodes (successful or failed) and resets on one variable, decoding a document after Reset gives the same outcome and an equal value as decoding it into a fresh variable: nothing of an earlier document shows up, whatever memory is reused. Values copied out of the variable's scalars and strings before are not changed by it.",
  ["histories","inputs","programs"],"all sequences of decode, failing decode and Reset over one variable, for all types having Reset",
  "Tests reset one or two values after one decode.",
  [CG+"codegen.go",CG+"struct.go",CG+"array.go",CG+"map.go",CG+"transit.go",CG+"byteslice.go",F+"extractors.go",F+"fill.go"],
  [("reset statements per type",CG+"codegen.go resetStmt"),("capacity reuse in lists",F+"extractors.go sliceExtraction, "+CG+"array.go")],
  "stateful (model-based) property testing: histories of decode/fail/Reset against a fresh variable",NOTE)
p("P12","IsZero tells emptiness truthfully and Reset restores it",
  "For every type with generated IsZero and Reset, IsZero reports true for a value without content and false as soon as any of its members has content (a non-zero scalar, a non-nil pointer, a list or map with elements), and after Reset of any value the value has no content and encodes like a fresh one. Types containing fixed arrays and Reset of named maps are exempt as listed in the known findings.",
  ["inputs","programs"],"all types with IsZero/Reset and all values, biased to values with exactly one member set",
  "Tests call IsZero on a few values; a member missing in the conjunction shows up only for the value in which just that member is set.",
  [CG+"struct.go",CG+"array.go",CG+"map.go",CG+"transit.go",CG+"byteslice.go",CG+"helpers/gotypes.go",CG+"codegen.go"],
  [("IsZero conjunction",CG+"struct.go ZeroFunc"),("zero conditions per type",CG+"helpers"),("Reset statements",CG+"codegen.go resetStmt")],
  "property-based testing with one-hot values against a reflective oracle of content",NOTE)
p("P13","Decoded values own their memory; calls do not modify their arguments",
  "After decoding, overwriting the input buffer, decoding other documents (into this type or others) and encoding never change a decoded value; decoding does not modify the input buffer and encoding does not modify the value. Encoded output is not changed by later calls either.",
  ["inputs","histories","programs"],"all types with strings, byte strings, map keys, names in any position; all interleavings of further calls in one goroutine",
  "Tests drop the buffer after each call and rarely decode twice; aliasing shows up only when a parser or buffer from the pool is reused.",
  [F+"extractors.go",CG+"codegen.go",CG+"map.go",F+"fill.go",G+"static/tpl/valyjson_utils.go.tpl"],
  [("parser pool Get/Put",CG+"codegen.go NewUnmarshalFunc"),("copying of strings",F+"extractors.go stringExtraction"),("writer pool",G+"static/tpl/valyjson_utils.go.tpl")],
  "stateful property testing: histories of calls with buffer poisoning and snapshots",NOTE)
p("P14","Generated code may be used from many goroutines",
  "Generated decoders and encoders called at the same time from several goroutines on different values (and encoders on one shared value) are free of data races and give each goroutine the same results as running alone.",
  ["schedules","inputs","programs"],"many goroutines mixing decode and encode of different generated types and documents",
  "Tests run sequentially, or parallel on one type without comparing results; shared pools are exercised only by concurrent use.",
  [CG+"codegen.go",CG+"byteslice.go",G+"static/tpl/valyjson_utils.go.tpl"],[("parser pools",CG+"codegen.go"),("buffer pools",G+"static/tpl/valyjson_utils.go.tpl")],
  "property-based concurrent testing under the race detector, differential against sequential results",NOTE+" Schedules are sampled by the Go scheduler, not enumerated.")
p("P15","A decode error tells where the problem is",
  "When a document is rejected because one member has a wrong kind, is out of range or is missing, the error text names the member and the path of enclosing members, list indexes or map keys that leads to it in the document (and no member that is not on that path). Exempt are the places listed in the known findings (byte strings, elements of string lists, nested lists, undeclared members).",
  ["inputs","programs"],"all nestings of structs, lists and maps with one fault at any position",
  "Tests compare a few literal messages at depth one or two.",
  [F+"extractors.go",F+"fill.go",CG+"array.go",CG+"map.go",CG+"struct.go",G+"static/tpl/valyjson_utils.go.tpl"],[("path prefixing of nested errors",G+"static/tpl/valyjson_utils.go.tpl newParsingError"),("wrapping at every level",F+"extractors.go checkErrAndReturnParsingError")],
  "property-based fault injection with the fault's path as oracle",NOTE)
p("P16","Times honour their declared layout",
  "A time member with a declared layout, literal or one of the time package's constants, is decoded with exactly that layout and encoded with the same one; without a layout it is RFC 3339 with nanoseconds when encoding. Text that does not fit the layout is rejected, and the instant survives encoding and decoding to the precision of the layout; in lists, arrays, maps and named types likewise.",
  ["inputs","programs"],"all time members (value, pointer, list, named) with literal and constant layouts, all instants and zones",
  "Tests have one literal and one constant layout with one instant.",
  [F+"extractors.go",F+"marshalers.go",CG+"tags/tags.go",CG+"transit.go"],[("time extraction",F+"extractors.go timeExtraction"),("time writer",F+"marshalers.go timeMarshal"),("layout tag",CG+"tags/tags.go Layout")],
  "property-based testing of random layouts and instants against package time",NOTE)
p("P17","Inlined and embedded structs are flattened as declared",
  "Members of an embedded struct without a name, or of one declared inline, are encoded and decoded at the level of the enclosing object, exactly as if they had been declared there (kinds, defaults, required, strictness, omission), whether the struct is local or from another package; an embedded struct with a name is a nested object under that name. Nothing is lost, written twice or nested once more.",
  ["inputs","programs"],"all combinations of embedding form, position of the embedded struct, emptiness of members before, in and after it",
  "Tests have one inline and one embedded example each.",
  [G+"analyse.go",CG+"struct.go",F+"marshalers.go",G+"discoverer/parser.go"],[("collection of inlined members",G+"analyse.go collectFields, exploreInlined"),("inline writer",F+"marshalers.go inlineStructMarshal")],
  "property-based testing: generated embeddings against the model of the flattened struct, and encoding/json",NOTE)
p("P18","A type has one JSON form, wherever it is used",
  "The JSON form of a named type is the same at top level, as a member, behind a pointer, in a list, array or map, through an alias type, and from another package: the document of the whole contains, at the place of the part, the document that the part's own encoder writes, and the whole decodes it to the part's own decoded value. A named type with its own encoder and decoder is always handled by them.",
  ["inputs","programs"],"all positions x all named types",
  "Tests cover a few positions of a few types.",
  [F+"fill.go",F+"fields.go",F+"extractors.go",CG+"transit.go",CG+"array.go",CG+"map.go",G+"analyse.go"],[("delegation to the type's methods",F+"extractors.go nestedExtraction, "+F+"marshalers.go structMarshal"),("type resolution",G+"analyse.go")],
  "property-based metamorphic testing: part inside whole against part alone",NOTE)
p("P19","The comment directives alone decide which methods exist",
  "The methods generated for a declaration depend only on the words of its json comment (the lines of its doc comment that begin with json:), in any letter case, order and spacing, whether written on the declaration or on its group: no json comment, no methods; 'custom', none; 'encode', only the encoding ones; 'decode', only the decoding ones; otherwise the full set, identical for every other combination of words but for strictness ('transit' on a struct aside). Every other declaration of the file is left without methods, except that an untagged element type of a tagged list or array declaration gets the methods of that list's words.",
  ["programs","configurations"],"all combinations of directives, spellings, grouping, declaration kinds",
  "Tests use fixed files with a few spellings.",
  [G+"analyse.go",CG+"tags/tags.go"],[("directive parsing",G+"analyse.go extractTags"),("selection",G+"analyse.go BuildDecoders, BuildEncoders")],
  "property-based testing of the generator: random directives; the set of methods in the parsed output against a model","generated source files; oracle reads the output with go/parser.")
p("P20","Generation is deterministic, formatted and leaves its inputs alone",
  "Running the generator on the same sources gives byte-identical output every time, whether or not earlier output is present, whatever else was generated before in the same process, and wherever the module directory is; the output is gofmt-formatted and marked as generated. Nothing but the output file and the helper file beside it is created or changed.",
  ["programs","histories","configurations"],"all supported declaration files; repeated, relocated and interleaved runs",
  "Tests compare output with golden files once, for fixed inputs.",
  [G+"parser.go",G+"analyse.go",G+"discoverer/projstruct.go",G+"discoverer/parser.go",G+"static"],[("printing",G+"parser.go Print, fmtGOFile"),("import selection",G+"parser.go imports, FixImports")],
  "property-based metamorphic testing of generator runs (repeat, interleave, relocate, regenerate)","directory trees compared byte for byte before and after.")
p("P21","The generated code compiles and depends on nothing but its runtime",
  "For every supported declaration file the generator produces code that compiles and passes go vet (but for the check of self-assignments) in its package, without unused or missing imports or duplicated names, importing only the standard library, the JSON reader and writer packages, the UUID and errors packages and the packages the declarations themselves use, and never this generator. This holds for sibling packages imported with or without alias (several of the same name included), several generated files in one package, and member names that collide with words used in the output.",
  ["programs","configurations"],"all supported declaration files, identifiers, import styles and file arrangements",
  "Tests compile the output for a fixed list of files.",
  [G+"parser.go",G+"analyse.go",F+"fields.go",G+"static/tpl/valyjson_utils.go.tpl"],[("import resolution",G+"parser.go FixImports, imports"),("variable names",F+"fields.go intermediateVarName")],
  "property-based testing of the generator: random declaration files compiled and vetted","compilation is the oracle; a compile failure of a generated package is a violation.")
p("P22","Declarations the generator cannot honour are refused",
  "A tagged struct holding a member without json tag (other than an embedded one), a member of a type the generator cannot handle (interface, function, channel, complex number, map with keys that are no strings), or a default that is not a value of the member's type does not silently yield working code that ignores the member: the generator stops with an error naming the problem, or its output does not compile. A file that does not parse as Go is refused and leaves no output.",
  ["programs"],"all positions of an unsupported member in otherwise supported declarations",
  "Tests check none or one of these refusals.",
  [F+"fill.go",CG+"struct.go",G+"parser.go",G+"analyse.go"],[("panics for unsupported kinds",F+"fill.go interfaceExtraction"),("untagged members",CG+"struct.go fillFieldStmts"),("parse errors",G+"parser.go Parse")],
  "property-based mutation testing of declaration files with one unsupported member","refusal or compile failure is the oracle.")
p("P23","All entry points agree",
  "Decoding through the type's own method, through the standard library's Unmarshal and from an already parsed value give the same result and agree on acceptance; encoding through the type's own method, through the standard library's Marshal and into a caller's writer give equivalent documents. Writing into a caller's writer only appends, and a nil receiver encodes as null through each of them.",
  ["inputs","programs"],"all types, values and documents (accepted and rejected)",
  "Tests use one entry point per type.",
  [CG+"codegen.go",CG+"struct.go",CG+"array.go",CG+"map.go",CG+"transit.go",CG+"byteslice.go"],[("UnmarshalJSON/FillFromJSON",CG+"codegen.go NewUnmarshalFunc"),("MarshalJSON/MarshalTo",CG+"codegen.go NewMarshalFunc")],
  "differential property-based testing of entry points",NOTE)
p("P24","The spelling of a document does not matter",
  "Reordering the members of any object, changing white space, escaping characters of strings and names in another way, or writing a number in another form of the same value and kind never changes whether a document is accepted, nor the decoded value.",
  ["inputs","programs"],"all documents of all declarations and all respellings",
  "Tests decode one spelling of each document.",
  [CG+"struct.go",F+"extractors.go",F+"fill.go",CG+"map.go"],[("lookup by unescaped name",CG+"struct.go ValidatorFunc, FillFromFunc")],
  "metamorphic property-based testing of documents",NOTE)
p("P25","Members absent from the document keep what they held",
  "Decoding a document into a variable that already holds content changes only the members the document names: members that are absent (and have neither default nor required mark) keep their earlier value, as with encoding/json, whereas every member that is present ends up with exactly the document's value - lists are replaced, not appended to, and earlier elements do not shine through.",
  ["histories","inputs","programs"],"all types, all earlier values, all partial documents",
  "Tests decode into zero values.",
  [F+"fill.go",F+"extractors.go",CG+"struct.go",CG+"array.go",CG+"map.go"],[("absent members skipped",F+"fill.go, "+CG+"struct.go fillFieldStmts"),("slice length reset before filling",F+"extractors.go sliceExtraction")],
  "stateful property-based testing: partial documents over populated values against a model",NOTE)

extra = os.path.join(root,"tools","mkmeta_extra.py")
if os.path.exists(extra): exec(open(extra).read())
with open(os.path.join(root,"properties.jsonl"),"w") as f:
    for x in P:
        a=dict(files=x["files"],mechanism=[dict(name=n,where=w) for n,w in x["mech"]])
        if x["observe"]: a["observe_at"]=x["observe"]
        a["hook_needed"]=None
        for fn in x["files"]:
            if not os.path.exists("/repo/"+fn): print("missing",x["id"],fn,file=sys.stderr)
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(dict(id=x["id"],title=x["title"],statement=x["statement"],quantifier=dict(over=x["over"],text=x["text"]),why_tests_cant=x["why"],anchors=a),ensure_ascii=False)+"\n")
claimed=sys.argv[1:] or [x["id"] for x in P]
m=dict(version=1,setup_cmd="bash setup.sh",checks=[dict(property=x["id"],quick_cmd="bash run.sh "+x["id"],thorough_cmd="VERIF_TIER=thorough bash run.sh "+x["id"],technique=x["technique"],level="exploration",level_note=x["note"]) for x in P if x["id"] in claimed],
  not_applicable=[dict(property=x["id"],reason="check under construction") for x in P if x["id"] not in claimed],
  notes="run.sh PROPERTY [--replay FILE]; VERIF_SEED selects the seed, VERIF_TIER the tier. No hooks in /repo.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
