#!/usr/bin/env python3
"""Writes /verif/known_findings.txt (the list is maintained here; no check runs this)."""
import json, os, subprocess
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
L = []
def known(prop, what, **match):
    L.append({"status": "known", "property": prop, "match": match, "what": what})
def fixed(prop, commit, what):
    L.append("fixed: property=%s %s %s" % (prop, commit, what))

known("D01", "a recursive type (Tree, Vec<Tree> as a child) read from 5000 nested elements on a 2 MiB stack overflows the stack and ends the process: the derived code recurses once per nested element and nothing bounds the depth",
      probe="recursive-type-depth", T="Tree", levels=5000, stack_mib=2)
known("S02", "a tab in an attribute value is written literally (AtString, one=\"a\\tb\"), which every XML parser normalizes to a blank: xml-rs escapes only line breaks in attribute values", probe="tab-in-attribute", T="AtString", v=["a\tb", [], []])
known("S02", "a carriage return in the text of an element is written literally (ElString, one=\"a\\rb\"), which every XML parser reads as a line feed: xml-rs does not escape it in text", probe="carriage-return-in-text", T="ElString", v=["a\rb", [], []])
known("S02", "a carriage return in a CDATA field is written literally (Cd, c=\"a\\rb\"), which every XML parser reads as a line feed: a CDATA section cannot hold one", probe="carriage-return-in-cdata", T="Cd", v=["a\rb", "x"])
known("S02", "a control character XML 1.0 cannot hold (ElString, one=\"a\\u0001b\") is written as it is, so the document is not well-formed, and no error is reported", probe="control-character", T="ElString", v=["a\u0001b", [], []])
known("S07", "a field is written with its own prefix on an element that gives that prefix another URI when the type of the field declares it otherwise (NsCapture: <p:i xmlns:p=\"urn:other\">), so the element is in the other namespace and is not read back", probe="prefix-redeclared-by-nested-type", T="NsCapture", v=[[[["1"], ["2"]]]])
known("S07", "the declarations of a flattened type are dropped where they give a prefix of its parent another URI (NsCaptureFl), so the elements of the flattened type are written in the parent's namespace", probe="prefix-redeclared-by-flattened-type", T="NsCaptureFl", v=[["1"], [["2"]]])
known("S07", "a field without a prefix (or with another default namespace) whose type has a default namespace is written in the default namespace of its type (NsCaptureD: <i xmlns=\"urn:d\">)", probe="default-namespace-of-nested-type", T="NsCaptureD", v=[[[["1"], []]], ["2"]])
known("S07", "a payload that gives the prefix of its variant another URI moves the variant's element there (NsCaptureE)", probe="prefix-redeclared-by-payload", T="NsCaptureE", v=["St", [["1"], ["2"]]])
known("S07", "a field without a prefix in a type with a default namespace is written in that namespace, but is read only outside any (NsUnprefD)", probe="unprefixed-field-under-default-namespace", T="NsUnprefD", v=[["1"]])
known("S07", "the elements of a type without namespaces are written in the default namespace of the type around it, but are read only outside any (NsPlainIn)", probe="plain-type-under-default-namespace", T="NsPlainIn", v=[[[["1"]]]])

F = """1ed589f D01 deserializing a struct from a document that ends inside it (<Pair><a>) loops forever
7a8953a D02 a struct whose field is named like its own element (<item><item>..) takes its own start tag for the field
0ae5f56 D02 the rest of a simple element holding child elements leaks into the fields of its parent (<a>x<b>1</b></a> fills b)
2448f3f D12 a nested deserializer that stops before its end tag leaves the rest of its element to the parent
e6e9ae1 D07 unparsable content of an enum variant (<Count>x</Count>) panics
d6b2ff3 D07 text of an enum element naming a variant that holds data selects it with a made-up payload
9591819 D07 the content of an element unknown to an enum is taken for a variant
922c3d4 D07 an enum's own element of a variant's name is taken for that variant
109a1c9 S03 skip_serializing and skip_serializing_if are ignored on attributes, text and flattened structs
b0f9fad S01 the attributes of an Option<struct> marked flatten are not written
1883b0b S02 a CDATA field holding ]]> is written as a document that is not well-formed
b6de793 S05 a write error while serializing a primitive type is a panic
8ab127c D13 a HexBinaryYaSerde newtype does not read the hexadecimal it writes
63febaf R01 an empty string element or text field is read as missing
1c4a3af D06 a text field is filled from a child element of the field's name
cc8dd0c S01 a flattened enum is written under the name of the field, not of its variant
c23935a S07 attributes and namespaces of a struct held by an enum variant are not written
0ef2159 D05 a nested enum is refused because its element is in the namespace of the field
55d488b D10 a document that breaks after the last field of the root was read gives a value
3dd1af7 R01 list attributes are not written at all
783ad1f D10 an element whose start tag is enough (hand-written or flattened types) gives a value from a malformed or truncated document
2f62c64 C01 two fields whose XML names differ only in '.', '-' and '_' (a-b and a.b) do not compile
0893f2a C01 a raw identifier (r#type) is written and read with r# in its XML name
6daea7a C01 a type derived where another type named Option is in scope does not compile
22bdcaa C01 a generic struct whose type parameter is called R or W does not compile
aced721 C01 a generic enum derived YaDeserialize does not compile
dd0de70 C01 a variant or newtype whose name is a raw identifier (r#type) is written with r# in its XML name and not read back
5368efe D01 a recursive enum read from a document whose root is named like its recursive variant (<loop> for a variant loop of a vector of the enum) overflows the stack
921d9e2 S01 a variant with named fields loses its optional fields when it is written, its lists of numbers are written without their elements, and one with a list of strings or a field called writer does not compile
8e31110 S03 the fields of a variant with named fields are written whatever skip_serializing, skip_serializing_if and default say
ad2ea48 S02 an attribute of a struct or newtype type is escaped twice when it is written, and its text is read as markup (a="x&amp;amp;y" fails)
3f6237c R01 attributes of one local name in several namespaces (a, p:a, q:a) all reach every field of that name
7f7f2f8 S01 the items of a list of optional structs are written under the name of their type, not of the field
a17c5b4 D11 skip_element called with no element open (before the root or after it) reads the end of the document for ever
71d5c2c S07 a declared namespace that holds an ampersand is written as it is, so the document is not well-formed
7c7aa2e D08 the flattened fields of a type see nothing of an element that declares a namespace with an ampersand (an optional one is silently absent)"""
for line in F.splitlines():
    c, p, w = line.split(" ", 2)
    fixed(p, c, w)
with open(OUT, "w") as f:
    for d in L:
        f.write((d if isinstance(d, str) else json.dumps(d, ensure_ascii=True)) + "\n")
