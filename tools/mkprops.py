#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
DE_S="yaserde_derive/src/de/expand_struct.rs"; DE_E="yaserde_derive/src/de/expand_enum.rs"; DE="yaserde/src/de/mod.rs"
SE_S="yaserde_derive/src/ser/expand_struct.rs"; SE_E="yaserde_derive/src/ser/expand_enum.rs"; SE_I="yaserde_derive/src/ser/implement_serializer.rs"
SE_EL="yaserde_derive/src/ser/element.rs"; SE="yaserde/src/ser/mod.rs"; FI="yaserde_derive/src/common/field.rs"; AT="yaserde_derive/src/common/attribute.rs"
PR="yaserde/src/primitives.rs"; PD="yaserde_derive/src/primitives.rs"; LIB="yaserde/src/lib.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=("yaserde::de::from_str","yaserde::de::from_reader")):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":qtext},
      "why_tests_cant":why,"anchors":{"files":list(files),"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
      "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":None}})

p("D01","Deserialization always ends in a value or an error",
 "For every type with derived deserialization and every input, deserialization returns either a value or an error: it never panics, never runs forever and never stops the process, whatever the input holds (any document, any truncation of it, any corruption of it, any sequence of bytes).",
 ["inputs","programs"],"all byte inputs x all derivable types, including truncated, multi-rooted, empty and non-XML ones",
 "The tests deserialize a few dozen well-formed documents and two broken ones; hangs and panics need an input cut at a particular construct of a particular type.",
 [DE_S,DE_E,DE,PR],[("per-type event loop and its end conditions",DE_S),("per-type event loop and its end conditions",DE_E),("event cursor",DE)],
 [("frame","the element being deserialized and the depth it started at",DE_S),("depth","number of open elements",DE)])
p("D02","A struct binds its own direct children only; other content is ignored",
 "A field is filled only from a direct child element (or an attribute, or the text) of its own struct's element, never from the struct's own element, from deeper descendants or from a neighbour. Content no field claims (unknown elements with everything below them, unknown attributes, stray text) does not change the result, wherever it appears.",
 ["inputs"],"all documents: any nesting, any placement of unknown or homonymous elements, for every struct type",
 "Tests contain a handful of unknown or homonymous elements in fixed positions; which depth and which position confuses the reader is unbounded.",
 [DE_S,DE],[("own element consumed first, unknown subtrees skipped",DE_S),("skipping a subtree",DE)],
 [("depth","open elements when the struct started / now",DE_S)])
p("D03","Missing, repeated and reordered content follows each field's cardinality",
 "A required field that the document does not give makes deserialization fail unless a default function is declared, which then supplies its value; an optional field becomes absent; a list holds every usable occurrence in document order; a single-valued field given several times keeps the last usable one. The result does not depend on the order in which children of different fields appear.",
 ["inputs","histories"],"all multiplicities (0, 1, many) and all interleavings of the children of a struct",
 "Tests give each field once, in declaration order, and test few absences; multiplicity x order x default is combinatorial.",
 [DE_S,"yaserde_derive/src/de/build_default_value.rs"],[("per-field accumulator and final assembly",DE_S)],[("accumulator","value(s) seen so far for each field",DE_S)])
p("D04","Scalar literals are read exactly and rejected exactly",
 "Every literal in the lexical space of a field's scalar type (integers up to both range ends, floats, booleans also as 1/0 in struct fields, any string) is read as exactly the value it denotes, and anything else is rejected: an attribute or an enum variant holding it makes deserialization fail, an element holding it leaves its field as if it were absent.",
 ["inputs"],"all strings x the 12 scalar types x {element, attribute, enum variant, newtype} x {single, optional, list}",
 "Tests use one or two ordinary literals per type; range ends, signs, leading zeros, blanks and malformed literals are an unbounded space.",
 [DE_S,DE_E,FI],[("per-field visitors",DE_S),("per-variant visitors",DE_E),("type classification",FI)])
p("D05","Elements are identified by namespace and local name, never by prefix",
 "A child element fills a field exactly when its namespace URI and local name are the field's, whatever prefix (or default namespace) the document uses; a same-named element of another namespace is unknown content. A root element that is in a namespace other than the one declared for the type is refused.",
 ["inputs","configurations"],"all prefix choices, default-namespace declarations and re-bindings x all namespace declarations of types",
 "Tests use one document per declaration, almost always with the declared prefix itself.",
 [DE_S,AT,FI,"yaserde_derive/src/de/mod.rs"],[("(namespace, local name) dispatch",DE_S),("root namespace check",AT)])
p("D06","Attributes and text content reach exactly the fields declared for them",
 "Attribute fields are filled from the attributes of the struct's own start tag, text fields from the text directly inside the struct's element, and neither from anywhere else; an absent optional attribute is absent, an absent required one fails unless defaulted, a list attribute splits at whitespace.",
 ["inputs"],"all attribute sets and orders, homonymous attributes/elements/text at every level",
 "Tests carry one attribute set per type and no homonyms across levels.",
 [DE_S],[("attribute loading at the own start tag",DE_S),("text setter",DE_S)])
p("D07","Enums select the variant the content names, with its payload",
 "An enum element yields the variant its text, its child element or (for tagged enums) its tag attribute names, with the payload of that element; repeated elements of a list variant accumulate in order and mixing a list variant with an already chosen other variant fails; when nothing names a variant the default variant results, and a payload that cannot be read is an error.",
 ["inputs"],"all contents of an enum element x unit/scalar/optional/list/struct variants, nested in lists, options, structs and enums",
 "Tests exercise one well-formed element per variant; repetition, mixing, unknown content and bad payloads are not covered.",
 [DE_E],[("variant dispatch on element name, text or tag",DE_E)],[("enum_value","variant chosen so far",DE_E)])
p("D08","A flattened field sees exactly the content its parent did not claim",
 "A flattened struct, optional struct or enum is filled from its parent's own start tag, text and those children that no other field of the parent claims, as if they were its own; an optional flattened struct whose content is not there is absent; types marked flatten read the content without a wrapping element.",
 ["inputs","programs"],"all splits of a document's content between a parent and its (nested) flattened fields, all orders",
 "Tests hold six flatten documents, each with all parts present and in declaration order.",
 [DE_S,DE_E],[("re-emission of unclaimed events",DE_S)],[("unused","events not claimed so far",DE_S)])
p("D09","Equivalent spellings of a document give the same result",
 "The result depends only on the document's information content: comments, processing instructions between elements, whitespace around text and between elements, CDATA versus escaped text, character references, quote style, empty-element tags, attribute order, the XML declaration, the encoding's byte-order mark, and the way bytes arrive (whole string or a reader returning any chunk sizes, with interruptions) make no difference.",
 ["inputs","schedules"],"all spellings of all documents x all ways a reader can split the bytes",
 "Tests use one spelling per document and always read from a whole string.",
 [DE],[("parser configuration and event filtering",DE),("from_str delegating to from_reader",DE)])
p("D10","Truncated, malformed or unreadable input is an error, not a value",
 "If the input stops, becomes malformed or the underlying reader fails before the deserialized element is complete, deserialization reports an error and never returns a value built from the part that was read; what follows the deserialized element cannot change the value.",
 ["crash_points","fault_sequences","inputs"],"every cut point and every I/O failure point of every document, every corruption of a tag",
 "The tests hold two broken documents; the number of cut points grows with every document and type.",
 [DE,DE_S,DE_E],[("error propagation from the event reader",DE),("end-of-document branches",DE_S)])
p("D11","The deserializer cursor moves as documented",
 "For every sequence of cursor calls, looking ahead never consumes or changes what comes next, every event is delivered exactly once and in document order, the reported depth is the number of elements open at the cursor, skipping an element consumes exactly the rest of it and shows every skipped event, and reading an inner value consumes exactly one element or reports an error.",
 ["histories","inputs"],"all sequences of peek / next / skip / read-inner / expect-end / depth calls over all documents",
 "No existing test calls the cursor directly; hand-written deserializers rely on it in arbitrary call orders.",
 [DE],[("peeked slot and depth counter",DE)],[("peeked","event looked at and not consumed",DE),("depth","open elements",DE)],
 ("yaserde::de::Deserializer",))
p("D12","A nested deserializer cannot disturb its siblings",
 "Whatever prefix of its element a nested deserializer (hand-written or derived, stopping early or reading to the end tag) consumes, the enclosing value continues right after that element: siblings before and after it are read as if it were not there, at any nesting depth.",
 ["inputs","programs","histories"],"all hand-written deserializers obeying the start-to-end contract and stopping anywhere in between x all positions",
 "One test has a hand-written deserializer, which reads everything.",
 [DE_S,DE_E,PR],[("reading the end tag after a nested deserializer",DE_S),("depth accounting",DE)])
p("D13","Newtype derives read and write the text of their inner value",
 "A newtype with a primitive, display/parse or hexadecimal derive reads its element's or attribute's text as its inner value and writes it back in the same notation, under the name of the field that holds it; text its inner type refuses is an error.",
 ["inputs","programs"],"all inner values and literals x the three derives x {element, attribute, optional, list, enum payload, root}",
 "One example test holds a single newtype value.",
 [PD,PR],[("generated Display/FromStr",PD),("text-only (de)serialization",PR)],
 (),("yaserde::de::from_str","yaserde::ser::to_string"))
p("S01","A value is written as exactly the document its type describes",
 "Serialization of a value yields a well-formed document whose root, attributes, child elements, their names, nesting, order, multiplicity and text are exactly those its type's declaration assigns to the value: each present field once, list items in order, absent options not at all, nested values recursively, enum variants under their names, tags as attributes.",
 ["inputs","programs"],"all values of all derivable types",
 "Tests compare some sixty fixed values with fixed strings.",
 [SE_S,SE_E,SE_I,SE_EL],[("field-by-field writer",SE_S),("variant writer",SE_E),("start/end tag writer",SE_I)],
 [("start_event_name / skip","name the next value takes; whether it writes its own tags",SE)],("yaserde::ser::to_string",))
p("S02","Any character data survives being written",
 "Whatever characters a string holds - markup characters, quotes, ampersands, section end marks, non-ASCII and supplementary characters - in an element, an attribute, a text field or a CDATA field, the written document is well-formed and an independent XML parser reads back exactly that string in that place; CDATA fields are written as CDATA sections.",
 ["inputs"],"all strings of XML characters x {element, attribute, text, CDATA, list item, enum payload, newtype element}",
 "Tests write ordinary words only, and one CDATA text without its end mark.",
 [SE_S,SE_EL,SE_E,PR],[("character events handed to the emitter",SE_EL),("cdata writer",SE_S)],(),("yaserde::ser::to_string",))
p("S03","Fields are left out exactly when their declaration says so",
 "A field is omitted exactly when it is marked as never serialized, when its skip condition holds for the field's value, or when its value equals its declared default (element and attribute fields); otherwise it is written. Omission of one field never affects another.",
 ["inputs","configurations"],"all values x all combinations of skip, skip condition and default on elements, attributes, text, options, lists, nested and flattened fields",
 "Tests try a few values per attribute alone, not their combinations.",
 [SE_EL,SE_S,FI],[("condition generation",SE_EL),("attribute wrapper",FI)],(),("yaserde::ser::to_string",))
p("S04","Output settings and entry points change presentation only",
 "For every value, all serialization entry points agree: the writer variant produces the bytes of the string variant, declaration and indentation settings change only the declaration and the white space between elements (using the requested indent string), and the content variant yields exactly what stands between the root's tags of the full document.",
 ["configurations","inputs"],"all settings (declaration x indentation x indent string) x all entry points x all values",
 "Tests use the default settings of one entry point almost exclusively.",
 [SE],[("settings mapping",SE),("content mode",SE)],(),("yaserde::ser::*",))
p("S05","A failing writer is always reported",
 "If the underlying writer fails at any byte, serialization returns an error (never success, never a panic), and everything accepted before the failure is a prefix of the document a healthy writer would receive; short or interrupted writes lose and repeat nothing.",
 ["crash_points","fault_sequences"],"every byte position of every document as failure point, all partial-write patterns",
 "Tests write to memory only, which never fails.",
 [SE,SE_I,SE_S,SE_E,SE_EL,LIB,PR],[("error propagation",SE_I),("scalar serialization",LIB)],(),("yaserde::ser::serialize_with_writer",))
p("S06","Serializer state (pending name, tag skipping) composes as documented",
 "For every sequence of serializer calls - setting the pending start name, setting tag skipping, writing events, serializing derived, newtype and scalar values in between - each value is written under the name and with or without tags as the state at its call says, and the emitted document is exactly the written sequence.",
 ["histories"],"all interleavings of state-setting, raw event writes and nested serialization calls",
 "No test calls the serializer API directly except one hand-written serializer.",
 [SE,SE_I,PR],[("pending start name and skip flag",SE),("use at value start",SE_I)],
 [("start_event_name","name for the next value",SE),("skip_start_end","whether the next value writes its tags",SE)],("yaserde::ser::Serializer",))
p("S07","Written names resolve to the declared namespaces",
 "Every element and attribute in the output is in exactly the namespace its declaration gives it when the document is read by a namespace-aware parser, for prefixed, default and nested declarations, including those of nested and flattened types.",
 ["programs","configurations"],"all declarations of namespaces, prefixes and default namespaces over nested types",
 "Tests compare prefixes textually for a dozen fixed declarations.",
 [SE_I,"yaserde_derive/src/ser/namespace.rs","yaserde_derive/src/ser/label.rs",FI,AT],[("namespace declarations",SE_I),("label building",FI)],(),("yaserde::ser::to_string",))
p("R01","Writing a value and reading it back gives the same value",
 "For every value (of types that can represent it in XML), deserializing its serialized form yields an equal value, whatever the strings, numbers, multiplicities, nesting and omitted defaults, and with every output setting.",
 ["inputs","programs","configurations"],"all values of all derivable types without never-serialized fields, modulo the representation limits listed in DESIGN.md",
 "Tests round-trip some forty fixed values.",
 [DE_S,DE_E,SE_S,SE_E,PR,PD],[("derived pair of directions",SE_S),("derived pair of directions",DE_S)],(),("yaserde::ser::to_string","yaserde::de::from_str"))
p("R02","Reading normalizes: what was read is stable under writing and reading",
 "If a document is accepted, the value read from it, written out and read again, is the same value, and writing that again gives the identical document.",
 ["inputs","histories"],"all accepted documents, however redundant, reordered or padded",
 "Tests only read back documents yaserde itself would write.",
 [DE_S,DE_E,SE_S,SE_E],[("derived pair of directions",DE_S)],(),("yaserde::ser::to_string","yaserde::de::from_str"))
p("C01","Every supported declaration compiles and behaves field by field",
 "For every combination of supported field types, multiplicities and attributes (renames with dots, dashes or keywords, prefixes, defaults, skips, raw identifiers, generics, qualified paths, nesting, recursion), the derives produce code that compiles, and a field behaves the same whatever other fields and attributes stand beside it.",
 ["programs"],"all declarations built from the supported features",
 "Tests hold about a hundred fixed declarations; the features' combinations are unbounded.",
 [FI,AT,DE_S,DE_E,SE_S,SE_E],[("derive macros","yaserde_derive/src/lib.rs"),("naming of generated items",FI)],(),("derive(YaSerialize, YaDeserialize)",))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
