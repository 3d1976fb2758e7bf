"""Type catalogue: the declarations the specification and the real derives are both given.

A type is described once here; `to_spec()` is what the TLA+ modules read (types.json) and
rustgen.py turns the same description into Rust declarations with yaserde derives.
Values: scalars are canonical strings, options and lists are JSON arrays, structs are arrays in
field order, enums are [variant] or [variant, payload], newtypes are canonical strings.
"""
SCALARS = ["String", "bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
URI = {"p": "urn:p", "q": "urn:q", "r": "urn:r"}


class F:
    def __init__(self, ident, ty, attr=False, rename=None, prefix=None, default=None, flatten=False,
                 text=False, cdata=False, skip=False, skip_if=None):
        self.ident, self.attr, self.rename, self.prefix = ident, attr, rename, prefix
        self.default, self.flatten, self.text, self.cdata = default, flatten, text, cdata
        self.skip, self.skip_if = skip, skip_if
        self.rty = ty
        self.card, self.base = split_ty(ty)

    @property
    def xml(self):
        return self.rename if self.rename is not None else self.ident.replace("r#", "")


def split_ty(ty):
    for w, c in (("Option<Vec<", "optv"), ("Vec<Option<", "vopt"), ("Option<", "opt"), ("Vec<", "vec")):
        if ty.startswith(w):
            return c, ty[len(w):-w.count("<")]
    return "one", ty


class Struct:
    kind = "struct"

    def __init__(self, name, fields, rename=None, prefix=None, ns=None, defns=None, flatten=False, tags=(),
                 generic=None, of=None, module=None, param="T", where=False, also=(), const="", noise=False, rust=None):
        self.rust = rust
        self.param, self.where, self.also, self.const, self.noise = param, where, also, const, noise
        self.name, self.fields, self.rename, self.prefix = name, fields, rename, prefix
        self.ns, self.defns, self.flatten, self.tags = ns or {}, defns, flatten, set(tags)
        self.generic, self.of, self.module = generic, of, module

    @property
    def root(self):
        return self.rename if self.rename is not None else (self.rust or self.name).replace("r#", "")


class V:
    def __init__(self, ident, ty=None, rename=None, prefix=None, flatten=False, fields=None):
        self.ident, self.rename, self.prefix, self.flatten = ident, rename, prefix, flatten
        self.rty, self.fields = ty, fields
        # fields of its own: the type of the payload is one the catalogue adds (Catalogue.add)
        self.card, self.base = ("named", "") if fields is not None else ("unit", "") if ty is None else split_ty(ty)

    @property
    def xml(self):
        return self.rename if self.rename is not None else self.ident.replace("r#", "")


class Enum:
    kind = "enum"

    def __init__(self, name, variants, default=0, rename=None, prefix=None, ns=None, defns=None, tag=None,
                 flatten=False, tags=(), default_value=None, module=None, generic=None, of=None, param="T", where=False, also=(), const="", noise=False, rust=None):
        self.rust = rust
        self.module, self.generic, self.of, self.param, self.where, self.also, self.const, self.noise = module, generic, of, param, where, also, const, noise
        self.name, self.variants, self.default = name, variants, default
        self.rename, self.prefix, self.ns, self.defns = rename, prefix, ns or {}, defns
        self.tag, self.flatten, self.tags = tag, flatten, set(tags)
        self.default_value = default_value

    @property
    def root(self):
        return self.rename if self.rename is not None else (self.rust or self.name).replace("r#", "")


class Newtype:
    kind = "new"

    def __init__(self, name, base, how="prim", tags=(), rust=None):
        self.rust = rust
        # how: prim (PrimitiveYaSerde), hex (HexBinaryYaSerde over u8/u16/u32/u64), disp (DefaultYaSerde)
        self.name, self.base, self.how, self.tags = name, base, how, set(tags)
        self.root = (rust or name).replace("r#", "")


class Custom:
    """Hand-written implementation living in harness/src/custom.rs; `how` names its specified behaviour."""
    kind = "custom"

    def __init__(self, name, how, tags=()):
        self.name, self.how, self.tags = name, how, set(tags)
        self.root = name


class Catalogue:
    def __init__(self):
        self.types, self.order = {}, []

    def add(self, *ts):
        for t in ts:
            assert t.name not in self.types, t.name
            for v in getattr(t, "variants", ()):
                if v.fields is not None and not v.base:
                    v.base = t.name + "_" + v.ident
                    self.add(Struct(v.base, v.fields, ns=t.ns, defns=t.defns, tags=["hidden"]))
            self.types[t.name] = t
            if "hidden" not in t.tags:
                self.order.append(t.name)

    def tagged(self, *tags):
        return [n for n in self.order if any(t in self.types[n].tags for t in tags)]

    def subset(self, names):
        """The catalogue holding only these types and what they refer to."""
        need, todo = set(), list(names)
        while todo:
            n = todo.pop()
            if n in need or n not in self.types:
                continue
            need.add(n)
            t = self.types[n]
            if t.kind == "struct":
                todo += [f.base for f in t.fields] + ([t.of] if t.of else []) + [o for _, o in t.also]
            elif t.kind == "enum":
                todo += [v.base for v in t.variants] + ([t.of] if t.of else []) + [o for _, o in t.also]
            if t.kind == "custom":
                todo += []
        c = Catalogue()
        for n in self.types:
            if n in need:
                c.add(self.types[n])
        return c

    def is_simple(self, base):
        return base in SCALARS

    # ---------------------------------------------------------------- spec side
    def spec_type(self, t):
        if t.kind == "new":
            return {"k": "new", "name": t.name, "root": t.root, "how": t.how, "base": t.base, "flat": False, "ns": ""}
        if t.kind == "custom":
            return {"k": "custom", "name": t.name, "root": t.root, "how": t.how, "flat": False, "ns": ""}
        nss = [[p, u] for p, u in sorted(t.ns.items())]
        d = {"k": t.kind, "name": t.name, "root": t.root, "pfx": t.prefix or "", "nss": nss,
             "defns": t.defns or "", "flat": t.flatten, "ns": t.ns.get(t.prefix, "") if t.prefix else ""}
        if t.kind == "struct":
            d["fields"] = [self.spec_field(t, f) for f in t.fields]
            d["flats"] = any(f.flatten for f in t.fields)
        else:
            d["tag"] = t.tag or ""
            d["vs"] = [{"id": v.ident, "n": v.xml, "pfx": v.prefix or "", "ns": t.ns.get(v.prefix, "") if v.prefix else "", "flat": bool(v.flatten), "card": v.card,
                        "base": v.base, "simple": self.is_simple(v.base)} for v in t.variants]
            d["def"] = self.enum_default(t)
        return d

    def enum_default(self, t):
        if t.default_value is not None:
            return t.default_value
        v = t.variants[t.default]
        assert v.card == "unit", t.name
        return [v.ident]

    def spec_field(self, t, f):
        return {"id": f.ident, "n": f.xml, "pfx": f.prefix or "", "ns": t.ns.get(f.prefix, "") if f.prefix else "",
                "attr": f.attr, "text": f.text, "cdata": f.cdata, "flat": f.flatten, "skip": f.skip,
                "card": f.card, "base": f.base, "simple": self.is_simple(f.base),
                "hasdef": f.default is not None, "def": f.default if f.default is not None else "",
                "hasskip": f.skip_if is not None, "skipv": f.skip_if if f.skip_if is not None else ""}

    def to_spec(self):
        return {n: self.spec_type(self.types[n]) for n in self.types}


EXT = {  # default literal and a second literal per scalar, used for defaults and skip conditions
    "String": ("dflt", "skp"), "bool": ("true", "false"), "i8": ("-128", "127"), "u8": ("255", "0"),
    "i16": ("-32768", "7"), "u16": ("65535", "7"), "i32": ("-2147483648", "7"), "u32": ("4294967295", "7"),
    "i64": ("-9223372036854775808", "7"), "u64": ("18446744073709551615", "7"), "f32": ("1.5", "-0.25"),
    "f64": ("2.5", "1000000")}


def build():
    c = Catalogue()
    A = c.add
    # ---- one family per scalar type: single/optional/list elements, attributes, defaults, variants, newtypes
    for t in SCALARS:
        d, s = EXT[t]
        A(Newtype(f"Nt{t}", t, tags=["newtype", "scalar"]))
        A(Struct(f"El{t}", [F("one", t), F("opt", f"Option<{t}>"), F("vec", f"Vec<{t}>")], tags=["scalar", "base", "rt"]))
        A(Struct(f"At{t}", [F("one", t, attr=True), F("opt", f"Option<{t}>", attr=True), F("el", f"Option<{t}>")],
                 tags=["scalar", "attr", "rt"]))
        A(Struct(f"Av{t}", [F("list", f"Vec<{t}>", attr=True), F("el", f"Vec<{t}>")], tags=["scalar", "attrvec", "attr", "rt"]))
        A(Struct(f"Df{t}", [F("d", t, default=d), F("da", t, attr=True, default=d), F("x", f"Vec<{t}>")],
                 tags=["scalar", "default", "rt", "ser"]))
        A(Struct(f"Sk{t}", [F("a", t, skip_if=s), F("b", t, attr=True, skip_if=s), F("c", f"Option<{t}>", skip_if=[s]),
                            F("e", f"Option<{t}>", attr=True, skip_if=[s]), F("v", f"Vec<{t}>", skip_if=[s]),
                            F("n", t, skip=True), F("m", t, attr=True, skip=True), F("o", f"Option<{t}>", attr=True, skip=True),
                            F("w", f"Vec<{t}>", skip=True), F("z", t, default=d, skip_if=s), F("y", t, attr=True, default=d, skip_if=s)],
                 tags=["scalar", "skip", "ser"]))
        A(Enum(f"En{t}", [V("Nil"), V("One", t), V("Opt", f"Option<{t}>"), V("Many", f"Vec<{t}>", rename="many")],
               tags=["scalar", "enum", "rt"]))
        A(Struct(f"Hn{t}", [F("a", f"Nt{t}", attr=True), F("o", f"Option<Nt{t}>", attr=True), F("e", f"Nt{t}"),
                            F("p", f"Option<Nt{t}>"), F("v", f"Vec<Nt{t}>")], tags=["newtype", "rt"]))
    # ---- plain nesting
    A(Struct("Leaf", [F("x", "i32")], tags=["base", "rt"]))
    A(Struct("LeafS", [F("s", "String")], tags=["base", "rt"]))
    A(Struct("Empty", [], tags=["base", "rt"]))
    A(Struct("Pair", [F("l", "Leaf"), F("r", "Option<Leaf>"), F("m", "Vec<Leaf>")], tags=["base", "rt"]))
    A(Struct("Deep", [F("pair", "Pair"), F("x", "Option<i32>"), F("leaf", "Option<LeafS>")], tags=["base", "rt"]))
    A(Struct("Tree", [F("id", "i32", attr=True), F("name", "Option<String>"), F("kids", "Vec<Tree>", rename="tree")],
             rename="tree", tags=["base", "rt", "rec"]))
    A(Struct("SameName", [F("same", "Option<Inner>"), F("x", "Option<i32>")], rename="same", tags=["base", "rt"]))
    A(Struct("Inner", [F("same", "Option<i32>"), F("x", "Option<i32>")], rename="same", tags=["base", "rt"]))
    A(Struct("Homonym", [F("item", "Vec<Hom2>"), F("x", "i32")], tags=["base", "rt"]))
    A(Struct("Hom2", [F("item", "Option<String>"), F("x", "Option<i32>"), F("k", "Option<i32>", attr=True, rename="item")],
             tags=["base", "rt"]))
    A(Struct("Wide", [F(f"f{i}", ["i32", "Option<String>", "Vec<u8>", "Option<Leaf>"][i % 4]) for i in range(12)], tags=["base", "rt"]))
    A(Struct("Wider", [F(f"g{i}", (["i32", "Option<String>", "Vec<u8>", "Option<Leaf>"] if i % 5 else ["Option<u16>", "Color", "Option<bool>", "Vec<Leaf>"])[i % 4], attr=i % 3 == 2 and (i % 4 < 2 or i % 5 != 0) and i % 4 != 3) for i in range(72)], tags=["base", "rt"]))
    # ---- attributes and text
    A(Struct("Attrs", [F("a", "String", attr=True), F("b", "Option<i32>", attr=True), F("c", "bool", attr=True, default="true"),
                       F("a2", "Option<String>", rename="a")], tags=["attr", "rt"]))
    # declarations that can only be written: flattened lists, lists of optional values, optional lists
    A(Struct("SoFl", [F("a", "i32"), F("l", "Vec<SoIn>", flatten=True), F("z", "Leaf"), F("y", "Option<Leaf>")], tags=["seronly", "ser", "skip"]))
    A(Struct("SoIn", [F("x", "Leaf"), F("n", "i32"), F("v", "Vec<Leaf>"), F("o", "Option<i32>")], tags=["rt"]))
    A(Struct("SoEn", [F("l", "Vec<SoChoice>", flatten=True), F("b", "Leaf"), F("m", "Vec<SoChoice>")], tags=["seronly", "ser"]))
    A(Enum("SoChoice", [V("Nil"), V("Num", "i32"), V("Lf", "Leaf"), V("Lfs", "Vec<Leaf>"), V("Col", "Color")], tags=["enum"]))
    A(Struct("SoOpt", [F("l", "Vec<Option<Leaf>>"), F("n", "Vec<Option<Nti32>>", rename="nn"), F("o", "Option<Vec<String>>"), F("i", "Option<Vec<i32>>", rename="i-i"), F("z", "Leaf")], tags=["seronly", "ser"]))
    A(Struct("SoNs", [F("l", "Vec<Option<NsA>>", prefix="p"), F("e", "Vec<Option<NsEnum>>", prefix="q"), F("o", "Option<Vec<String>>", prefix="q"), F("s", "Option<Vec<bool>>", skip_if=[["true"]]), F("h", "Vec<Option<Leaf>>", skip=True)], prefix="q", ns={"p": URI["p"], "q": URI["q"]}, tags=["seronly", "ser", "ns", "skip"]))
    # a struct as an attribute is its text
    A(Struct("AtTx", [F("a", "Txt", attr=True), F("b", "Option<Txt>", attr=True), F("c", "Vec<Txt>", attr=True), F("d", "Option<TxtOp>", attr=True), F("n", "NtString", attr=True), F("o", "Option<NtString>", attr=True), F("v", "Vec<NtString>", attr=True), F("z", "Option<i32>")], tags=["attr", "text", "newtype", "rt"]))
    A(Struct("TxtOp", [F("t", "Option<String>", text=True)], tags=["text", "rt"]))
    A(Struct("Txt", [F("t", "String", text=True)], tags=["text", "rt"]))
    A(Struct("TxtO", [F("t", "Option<String>", text=True), F("a", "Option<String>", attr=True)], tags=["text", "rt"]))
    A(Struct("TxtA", [F("lang", "String", attr=True), F("t", "String", text=True)], tags=["text", "attr", "rt"]))
    A(Struct("TxtM", [F("t", "String", text=True), F("x", "Option<i32>"), F("s", "Option<TxtA>")], tags=["text", "attr"]))
    A(Struct("TxtF", [F("para", "Vec<TxtA>"), F("head", "Option<Txt>"), F("n", "i32", attr=True)], tags=["text", "attr", "rt"]))
    A(Struct("TxtSk", [F("t", "String", text=True, skip_if="skp"), F("a", "Option<i32>", attr=True)], tags=["skip", "ser"]))
    A(Struct("TxtSn", [F("t", "String", text=True, skip=True), F("a", "Option<i32>", attr=True)], tags=["skip", "ser"]))
    A(Struct("TxtD", [F("t", "String", text=True, default="dflt"), F("a", "Option<i32>", attr=True)], tags=["text", "default"]))
    # ---- cdata
    A(Struct("Cd", [F("c", "String", cdata=True), F("s", "String")], tags=["cdata", "rt"]))
    A(Struct("CdSk", [F("c", "String", cdata=True, skip_if="skp"), F("d", "String", cdata=True, default="dflt"), F("e", "String", cdata=True, skip=True)],
             tags=["cdata", "skip", "ser"]))
    # ---- renames
    A(Struct("Ren", [F("dash", "i32", rename="with-dash"), F("dot", "Option<i32>", rename="with.dot"), F("ad", "i32", attr=True, rename="at-dash"),
                     F("adot", "Option<String>", attr=True, rename="at.dot"), F("r#type", "String", rename="type"), F("r#ref", "Option<i32>", attr=True, rename="ref"),
                     F("under_score", "i32"), F("upper", "Vec<i32>", rename="UPPER"), F("num1", "Option<u8>", rename="x1.y-2_z")],
             rename="re-named.root", tags=["ren", "base", "rt"]))
    A(Struct("RenRaw", [F("r#type", "i32"), F("r#match", "Option<String>"), F("r#use", "Vec<i32>", attr=True), F("r#loop", "Option<bool>", attr=True), F("r#in", "Vec<Leaf>"), F("r#move", "Option<Color>", attr=True)],
             tags=["ren", "base", "rt"]))
    # names that look alike once they are turned into Rust identifiers
    A(Struct("RenLike", [F("a1", "i32", rename="foo-bar"), F("a2", "Option<i32>", rename="foo.bar"), F("foo_bar", "Option<String>"), F("fooBar", "Vec<i32>"), F("FooBar", "Option<bool>"),
                         F("b1", "i32", attr=True, rename="foo-bar"), F("b2", "Option<i32>", attr=True, rename="foo.bar"), F("b3", "String", attr=True, rename="foo_bar"), F("b4", "Option<Color>", attr=True, rename="fooBar"), F("b5", "Option<Color>", attr=True, rename="FooBar")],
             tags=["ren", "base", "rt"]))
    # ---- enums
    A(Enum("Color", [V("Red"), V("Green", rename="green"), V("Blue", rename="dark.blue")], tags=["enum", "rt"]))
    A(Enum("Shape", [V("Nothing"), V("Circle", "i32"), V("Label", "String"), V("Flag", "bool"), V("Pt", "Leaf"), V("Ref", "ShapeP"), V("Col", "Color")], tags=["enum", "rt"]))
    A(Struct("ShapeP", [F("id", "String", attr=True), F("x", "Option<i32>"), F("Circle", "Option<i32>")], tags=["base", "rt"]))
    A(Enum("Multi", [V("Zero"), V("Ints", "Vec<i32>"), V("Strs", "Vec<String>"), V("Pts", "Vec<Leaf>", rename="pt"), V("OptS", "Option<Leaf>"), V("OptT", "Option<String>"), V("OptC", "Option<Color>")],
           tags=["enum", "rt"]))
    A(Enum("Tagged", [V("Foo", rename="foo"), V("Bar", rename="bar"), V("Baz")], tag="kind", rename="tg", tags=["enum", "rt", "tagged"]))
    A(Enum("Chain", [V("Stop"), V("Next", "Chain2")], tags=["enum", "rt"]))
    A(Enum("Chain2", [V("Stop"), V("Next", "Shape"), V("More", "Vec<Color>")], tags=["enum", "rt"]))
    A(Struct("HasEnum", [F("c", "Color"), F("o", "Option<Color>"), F("v", "Vec<Color>"), F("a", "Color", attr=True), F("ao", "Option<Color>", attr=True), F("z", "i32")],
             tags=["enum", "rt"]))
    A(Struct("HasShape", [F("a", "Option<i32>"), F("s", "Shape"), F("o", "Option<Shape>"), F("v", "Vec<Shape>"), F("Circle", "Option<i32>"), F("z", "Option<String>")],
             tags=["enum", "rt"]))
    A(Struct("HasMulti", [F("m", "Multi"), F("Ints", "Vec<i32>"), F("z", "i32")], tags=["enum", "rt"]))
    A(Struct("HasTag", [F("t", "Tagged"), F("o", "Option<Tagged>"), F("v", "Vec<Tagged>"), F("z", "i32")], tags=["enum", "rt", "tagged"]))
    A(Struct("HasChain", [F("ch", "Chain"), F("chs", "Vec<Chain>"), F("z", "i32")], tags=["enum", "rt"]))
    A(Struct("EnumNm", [F("kind", "KindE"), F("Leafy", "Option<KindE>"), F("z", "i32")], tags=["enum", "rt"]))
    A(Enum("KindE", [V("Nope"), V("kind", "i32"), V("Leafy", "Leaf")], tags=["enum", "rt"]))
    A(Struct("EnumDf", [F("c", "Color", default=["Green"]), F("s", "Option<Color>", skip_if=[["Red"]]), F("v", "Vec<Color>", skip_if=[])], tags=["skip", "ser", "enum"]))
    # ---- hand-written deserializers (contract: start tag to be peeked, stop anywhere up to the peeked end tag)
    for how in ["none", "start", "first", "all"]:
        A(Custom("Cu" + how.capitalize(), how, tags=["custom"]))
        n = "Cu" + how.capitalize()
        A(Struct("Hc" + how.capitalize(), [F("b", "Option<i32>"), F("c", n), F("o", f"Option<{n}>"), F("v", f"Vec<{n}>"), F("x", "Option<i32>"), F("l", "Option<Leaf>")], tags=["hascustom"]))
        A(Enum("Ec" + how.capitalize(), [V("Nil"), V("Cu", n), V("Cus", f"Vec<{n}>"), V("N", "i32")], tags=["hascustom", "hascustomenum"]))
        A(Struct("Hec" + how.capitalize(), [F("e", "Ec" + how.capitalize()), F("es", "Vec<Ec%s>" % how.capitalize()), F("x", "Option<i32>")], tags=["hascustom"]))
    A(Struct("HcMix", [F("a", "Option<CuNone>"), F("b", "Option<CuStart>"), F("c", "Option<CuFirst>"), F("d", "Option<CuAll>"), F("n", "Option<Nti32>"), F("e", "Option<Color>"), F("x", "Option<i32>"), F("rest", "HcRest", flatten=True)], tags=["hascustom"]))
    A(Struct("HcTxt", [F("t", "Option<String>", text=True), F("a", "Option<CuNone>"), F("b", "Vec<CuStart>"), F("c", "Option<CuFirst>"), F("d", "Vec<CuAll>"), F("l", "Option<Leaf>"), F("v", "Vec<Leaf>"), F("n", "Option<Nti32>"), F("e", "Vec<Color>"), F("g", "Option<Shape>"), F("x", "Vec<i32>"), F("s", "Option<String>")], tags=["hascustom"]))
    A(Struct("HcRest", [F("k", "Option<i32>"), F("w", "Vec<Leaf>")], tags=[]))
    # ---- newtypes over hex and Display/FromStr
    for b in ["u8", "u16", "u32", "u64"]:
        A(Newtype("Hx" + b, b, how="hex", tags=["newtype"]))
    A(Newtype("BfHex", "u8", how="hexbits", tags=["newtype"]))
    A(Struct("HasHex", [F("h", "Hxu8"), F("o", "Option<Hxu16>"), F("v", "Vec<Hxu32>"), F("a", "Hxu64", attr=True), F("ao", "Option<Hxu8>", attr=True), F("bf", "Option<BfHex>")], tags=["newtype", "rt"]))
    A(Newtype("Disp", "i32", how="disp", tags=["newtype"]))
    A(Struct("HasDisp", [F("d", "Disp"), F("o", "Option<Disp>"), F("v", "Vec<Disp>"), F("a", "Option<Disp>", attr=True)], tags=["newtype", "rt"]))
    A(Enum("EnNew", [V("Nil"), V("Dist", "Nti32"), V("Names", "Vec<NtString>"), V("Hx", "Option<Hxu8>"), V("D", "Disp")], tags=["newtype", "enum", "rt"]))
    A(Struct("HasEnNew", [F("e", "EnNew"), F("v", "Vec<EnNew>"), F("z", "i32")], tags=["newtype", "enum", "rt"]))
    # ---- namespaces
    ns = {"p": URI["p"], "q": URI["q"]}
    A(Struct("NsA", [F("a", "Option<i32>", prefix="p"), F("b", "Option<i32>", prefix="q", rename="a"), F("c", "Option<i32>", rename="a"), F("d", "Option<String>", attr=True, prefix="q"), F("l", "Option<Leaf>", prefix="q"), F("v", "Vec<i32>", prefix="p")],
             rename="nsa", prefix="p", ns=ns, tags=["ns", "rt"]))
    A(Struct("NsB", [F("a", "Option<NsA>", prefix="q"), F("n", "Vec<NsA>"), F("z", "Option<i32>", prefix="q")], ns={"q": URI["q"]}, prefix="q", tags=["ns", "rt"]))
    A(Struct("NsDef", [F("a", "Option<i32>", prefix="d"), F("s", "Option<NsDefIn>", prefix="d"), F("o", "Option<String>", prefix="p"), F("at", "Option<i32>", attr=True)],
             prefix="d", defns="d", ns={"d": "urn:d", "p": URI["p"]}, tags=["ns", "rt"]))
    A(Struct("NsDefIn", [F("x", "Option<i32>", prefix="d"), F("y", "Vec<Leaf0>", prefix="p")], prefix="d", defns="d", ns={"d": "urn:d", "p": URI["p"]}, tags=["ns", "rt"]))
    A(Struct("Leaf0", [F("k", "i32", attr=True)], tags=["rt"]))
    A(Struct("NsNone", [F("a", "Option<i32>"), F("b", "Option<NsA>"), F("c", "Option<Leaf>")], tags=["ns", "rt"]))
    A(Struct("NsDup", [F("a", "Option<i32>", prefix="p"), F("b", "Option<i32>", prefix="q")], ns={"p": URI["p"], "q": URI["q"]}, tags=["ns", "rt"]))
    A(Struct("NsAtDup", [F("a", "i32", attr=True), F("b", "Option<String>", attr=True, prefix="p", rename="a"), F("c", "Vec<i32>", attr=True, prefix="q", rename="a"), F("d", "Option<String>", attr=True, prefix="q"), F("e", "Option<i32>", prefix="p", rename="a")], ns=ns, tags=["ns", "attr", "rt"]))
    A(Struct("NsAtDup2", [F("b", "Option<NtString>", attr=True, prefix="p", rename="a"), F("c", "Option<Color>", attr=True, prefix="q", rename="a"), F("n", "Vec<NsAtDup>", prefix="p")], prefix="q", ns=ns, tags=["ns", "attr", "rt"]))
    A(Struct("NsEnumH", [F("e", "NsEnum", prefix="p"), F("c", "Vec<Color>", prefix="q"), F("s", "Option<Shape>", prefix="q")], prefix="p", ns=ns, tags=["ns", "enum", "rt"]))
    A(Enum("NsEnum", [V("Nil"), V("Val", "i32", prefix="q"), V("St", "NsA", prefix="p"), V("Li", "Vec<Leaf>")], prefix="p", ns=ns, tags=["ns", "enum", "rt"]))
    A(Enum("NsDefEn", [V("Nil"), V("Val", "i32", prefix="d"), V("Oth", "String", prefix="p"), V("St", "NsDefIn", prefix="d"), V("Li", "Vec<Leaf0>", prefix="p")], prefix="d", defns="d", ns={"d": "urn:d", "p": URI["p"]}, tags=["ns", "enum", "rt"]))
    A(Struct("NsDefEnH", [F("e", "NsDefEn", prefix="d"), F("v", "Vec<NsDefEn>", prefix="p"), F("z", "Option<i32>", prefix="d")], prefix="d", defns="d", ns={"d": "urn:d", "p": URI["p"]}, tags=["ns", "enum", "rt"]))
    A(Struct("NsRebind", [F("a", "Option<i32>", prefix="p"), F("i", "Option<NsRebindIn>")], prefix="p", ns={"p": "urn:p"}, tags=["ns", "rt"]))
    # a name written with its parent's prefix on an element that gives the prefix another meaning (known findings of S07)
    A(Struct("NsCapture", [F("i", "Option<NsRebindIn>", prefix="p")], prefix="p", ns={"p": "urn:p"}, tags=["known"]))
    A(Struct("NsCaptureFl", [F("a", "Option<i32>", prefix="p"), F("i", "NsRebindFl", flatten=True)], prefix="p", ns={"p": "urn:p"}, tags=["known"]))
    A(Struct("NsRebindFl", [F("b", "Option<i32>", prefix="p")], ns={"p": "urn:other"}, tags=["known", "flat"]))
    A(Struct("NsCaptureD", [F("i", "Option<NsDefIn>"), F("a", "Option<i32>")], tags=["known"]))
    A(Struct("NsUnprefD", [F("a", "Option<i32>")], prefix="d", defns="d", ns={"d": "urn:d"}, tags=["known"]))
    A(Struct("NsPlainIn", [F("i", "Option<NsNoneIn>", prefix="d")], prefix="d", defns="d", ns={"d": "urn:d"}, tags=["known"]))
    A(Struct("NsNoneIn", [F("a", "Option<i32>")], tags=["known"]))
    A(Enum("NsCaptureE", [V("Nil"), V("St", "NsRebindIn", prefix="p")], prefix="p", ns={"p": "urn:p"}, tags=["known"]))
    A(Struct("NsRebindIn", [F("a", "Option<i32>", prefix="p"), F("b", "Option<i32>", prefix="p2")], ns={"p": "urn:other", "p2": "urn:p"}, tags=["ns", "rt"]))
    # namespaces whose names hold what markup is made of
    amp = {"p": "http://Example.org/P?x=1&y=2", "o": "http://example.org/p?x=1&y=2"}
    A(Struct("NsUri", [F("a", "Option<i32>", prefix="p"), F("b", "Option<i32>", prefix="o", rename="a"), F("c", "Option<i32>", attr=True, prefix="o"), F("v", "Vec<NsUriE>", prefix="p"), F("i", "Option<NsUriD>", prefix="p"), F("fl", "FlUri", flatten=True)], prefix="p", ns=amp, tags=["ns", "flatten", "rt"]))
    A(Struct("FlUri", [F("y", "Option<String>", prefix="o"), F("z", "Vec<Leaf0>", prefix="p"), F("q", "Option<i32>", attr=True)], prefix="p", ns=amp, tags=["flat"]))
    A(Struct("NsUriO", [F("fl", "Option<FlUri>", flatten=True), F("n", "Option<i32>", prefix="u")], ns={"u": "urn:<&\">'"}, tags=["ns", "flatten", "ser"]))
    A(Struct("NsUriD", [F("a", "Option<i32>", prefix="d"), F("l", "Option<Leaf0>", prefix="p")], prefix="d", defns="d", ns={"d": "urn:x\"<&amp;'>", "p": amp["p"]}, tags=["ns", "rt"]))
    A(Enum("NsUriE", [V("Nil"), V("Val", "i32", prefix="p"), V("Li", "Vec<Leaf0>", prefix="o")], prefix="o", ns=amp, tags=["ns", "enum", "rt"]))
    # two prefixes of one namespace
    A(Struct("NsSame", [F("a", "Option<i32>", prefix="p"), F("b", "Vec<i32>", prefix="p2"), F("c", "Option<i32>", attr=True, prefix="p"), F("d", "Option<i32>", attr=True, prefix="p2"), F("i", "Option<NsSameIn>", prefix="p2"), F("j", "Option<NsSameIn>")],
             rename="nssame", prefix="p2", ns={"p": URI["p"], "p2": URI["p"]}, tags=["ns", "rt"]))
    A(Struct("NsSameIn", [F("x", "Option<i32>", prefix="q2"), F("y", "Option<String>", prefix="q1"), F("z", "Option<i32>", prefix="p")], prefix="q1", ns={"p": URI["p"], "q1": URI["q"], "q2": URI["q"]}, tags=["ns", "rt"]))
    A(Struct("NsSameDef", [F("a", "Option<i32>", prefix="d"), F("b", "Option<i32>", prefix="d2"), F("v", "Vec<NsDefIn>", prefix="d2")], prefix="d2", defns="d", ns={"d": "urn:d", "d2": "urn:d"}, tags=["ns", "rt"]))
    A(Enum("NsSameEn", [V("Nil"), V("Val", "i32", prefix="p"), V("Oth", "String", prefix="p2"), V("Li", "Vec<NsSameIn>", prefix="p2")], prefix="p", ns={"p": URI["p"], "p2": URI["p"]}, tags=["ns", "enum", "rt"]))
    # namespaces that nearly are each other
    # prefixes that look alike
    A(Struct("NsCase", [F("a", "Option<i32>", prefix="A"), F("b", "Option<i32>", prefix="a", rename="a"), F("c", "Option<i32>", prefix="a-1", rename="a"), F("d", "Vec<i32>", prefix="a.1", rename="a"), F("e", "Option<Leaf0>", prefix="a_1", rename="a"),
                        F("f", "Vec<Leaf0>", prefix="a1", rename="a"), F("g", "Option<i32>", attr=True, prefix="A"), F("h", "Option<i32>", attr=True, prefix="a-1")], prefix="a", ns={"A": "urn:1", "a": "urn:2", "a-1": "urn:3", "a.1": "urn:4", "a_1": "urn:5", "a1": "urn:6"}, tags=["ns", "rt"]))
    A(Enum("NsCaseE", [V("Nil"), V("X", "i32", prefix="A"), V("Y", "Leaf0", prefix="a"), V("Z", "Vec<i32>", prefix="a_1")], prefix="A", ns={"A": "urn:1", "a": "urn:2", "a_1": "urn:5"}, tags=["ns", "enum", "rt"]))
    A(Struct("NsNear", [F("a", "Option<i32>", prefix="p"), F("b", "Option<i32>", prefix="s", rename="a"), F("c", "Option<i32>", prefix="u", rename="a"), F("d", "Vec<i32>", prefix="h", rename="a")], prefix="p", ns={"p": URI["p"], "s": URI["p"] + "/", "u": URI["p"].upper(), "h": URI["p"] + "#"}, tags=["ns", "rt"]))
    # ---- flatten
    A(Struct("FlBase", [F("id", "String", attr=True), F("note", "Option<String>")], tags=["flat"]))
    A(Struct("FlExt", [F("week", "i32"), F("cent", "Vec<i32>")], tags=["flat"]))
    A(Struct("FlOpt", [F("moon", "i32")], tags=["flat"]))
    A(Struct("FlOptA", [F("moonx", "i32", attr=True), F("tide", "Option<i32>")], tags=["flat"]))
    A(Struct("FlSub", [F("x", "Option<Leaf>"), F("deep", "FlOpt2", flatten=True)], tags=["flat"]))
    A(Struct("FlOpt2", [F("y", "Option<i32>"), F("z", "Vec<String>"), F("q", "Option<i32>", attr=True)], tags=["flat"]))
    A(Enum("FlKind", [V("Working"), V("Holidays", "Vec<String>", rename="holiday"), V("Sick", "i32", rename="sick"), V("Trip", "Leaf", rename="trip")], tags=["flat"]))
    A(Struct("FlA", [F("base", "FlBase", flatten=True), F("n", "i32")], tags=["flatten", "rt"]))
    A(Struct("FlB", [F("ext", "FlExt", flatten=True), F("time", "String"), F("opt", "Option<FlOpt>", flatten=True), F("m", "Option<i32>", attr=True)], tags=["flatten", "rt"]))
    A(Struct("FlC", [F("sub", "FlSub", flatten=True), F("base", "FlBase", flatten=True), F("w", "Vec<Leaf>")], tags=["flatten", "rt"]))
    A(Struct("FlD", [F("kind", "FlKind", flatten=True), F("time", "Option<String>"), F("e", "Option<Color>")], tags=["flatten", "rt"]))
    A(Struct("FlE", [F("oa", "Option<FlOptA>", flatten=True), F("t", "Option<String>", text=True), F("n", "Option<i32>")], tags=["flatten"]))
    A(Struct("FlT", [F("tx", "TxtO", flatten=True), F("n", "Option<i32>")], tags=["flatten"]))
    A(Struct("FlTT", [F("t", "String", text=True), F("tx", "TxtO", flatten=True), F("n", "Option<i32>")], tags=["flatten"]))
    A(Struct("FlTO", [F("tx", "Option<FlTxt>", flatten=True), F("t", "Option<String>", text=True), F("l", "Vec<Leaf>")], tags=["flatten"]))
    A(Struct("FlTxt", [F("t", "String", text=True), F("n", "Option<i32>")], tags=["flat"]))
    A(Struct("FlOuter", [F("a", "FlA"), F("b", "Vec<FlB>"), F("d", "Option<FlD>"), F("x", "Option<i32>")], tags=["flatten", "rt"]))
    A(Struct("FlOE", [F("k", "Option<FlKind>", flatten=True), F("n", "i32")], tags=["flatten"]))
    # defaults and conditions on fields of every other kind
    A(Struct("DfNest", [F("leaf", "Leaf", default=["5"]), F("col", "Color", attr=True, default=["Green"]), F("nt", "Nti32", default="5"), F("na", "NtString", attr=True, default="dd"), F("sh", "Shape", default=["Circle", "3"]),
                        F("pr", "Pair", default=[["1"], [], []]), F("em", "Empty", default=[]), F("hx", "Hxu8", attr=True, default="0A"), F("ce", "Color", default=["Red"])], tags=["default", "rt", "ser"]))
    A(Struct("SkNest", [F("leaf", "Leaf", skip_if=["5"]), F("ol", "Option<Leaf>", skip_if=[["5"]]), F("vl", "Vec<Leaf>", skip_if=[["5"], ["6"]]), F("pr", "Pair", skip=True), F("ca", "Color", attr=True, skip_if=["Green"]),
                        F("oc", "Option<Color>", attr=True, skip=True), F("vn", "Vec<Nti32>", attr=True, skip_if=["5"]), F("sh", "Shape", default=["Circle", "3"], skip_if=["Label", "a"]), F("nt", "Nti32", skip_if="5"), F("ntd", "NtString", attr=True, default="dd", skip_if="ss"),
                        F("em", "Option<Empty>", skip_if=[[]]), F("vs", "Vec<Shape>", skip_if=[["Nothing"]]), F("vk", "Vec<Leaf>", skip=True), F("mu", "Multi", skip=True)], tags=["skip", "ser"]))
    A(Struct("FlSkip", [F("base", "FlBase", flatten=True, skip_if=["skp", []]), F("n", "i32")], tags=["skip", "ser"]))
    A(Struct("FlSkn", [F("base", "FlBase", flatten=True, skip=True), F("n", "i32"), F("o", "Option<FlBase>")], tags=["skip", "ser"]))
    A(Struct("FlSkO", [F("a", "Option<FlBase>", flatten=True, skip_if=[["skp", []]]), F("o", "Option<FlOpt>", flatten=True, skip=True), F("e", "Option<FlKind>", flatten=True, skip_if=[["Sick", "7"]]), F("n", "Option<i32>")], tags=["skip", "ser"]))
    A(Struct("FlNsO", [F("in_", "Option<FlNsIn>", flatten=True), F("a", "Option<i32>", prefix="p")], rename="flnso", prefix="p", ns={"p": URI["p"]}, tags=["flatten", "ns", "ser"]))
    A(Struct("FlNsU", [F("in_", "FlNsIn", flatten=True), F("a", "Option<i32>"), F("l", "Vec<Leaf0>", prefix="r")], ns={"r": URI["r"]}, tags=["flatten", "ns", "rt"]))
    A(Struct("FlNs", [F("in_", "FlNsIn", flatten=True), F("a", "Option<i32>", prefix="p")], rename="flns", prefix="p", ns={"p": URI["p"]}, tags=["flatten", "ns", "rt"]))
    A(Struct("FlNsIn", [F("b", "Option<i32>", prefix="p"), F("c", "Option<i32>", attr=True, prefix="p"), F("d", "Option<i32>", prefix="q")], prefix="p", ns={"p": URI["p"], "q": URI["q"]}, tags=["flat"]))
    # flattened fields of a type without an element of its own
    A(Struct("FlMk", [F("m", "Option<i32>", attr=True), F("b", "Option<i32>"), F("l", "Vec<Leaf>"), F("s", "Option<String>", rename="s-s")], flatten=True, tags=["flat"]))
    A(Struct("FlMkS", [F("a", "Option<i32>"), F("i", "FlMk", flatten=True), F("e", "Option<Color>")], tags=["flatten", "rt"]))
    A(Struct("FlMkO", [F("i", "Option<FlMk>", flatten=True), F("a", "Option<Leaf>")], tags=["flatten"]))
    A(Struct("FlMkN", [F("deep", "FlMkS", flatten=True), F("n", "Option<i32>")], tags=["flatten", "rt"]))
    # types without an element of their own
    A(Struct("RootFl", [F("a", "String"), F("b", "Option<i32>"), F("l", "Vec<Leaf>")], flatten=True, tags=["rootflat"]))
    # variants whose payload is written under its own name: the variant or its field is marked
    A(Enum("FlVar", [V("A"), V("Leaf", "Leaf", flatten=True), V("Pr", "Pair", flatten="field", rename="Pair"), V("N", "i32"), V("ShapeP", "ShapeP", flatten="field"), V("Co", "Color", rename="Color", flatten="field")], tags=["enum", "rt"]))
    A(Enum("FlVarS", [V("Zero"), V("Other", "Pair", flatten="field"), V("Lf", "Leaf", flatten="field", rename="lf"), V("Txt", "TxtA", flatten="field"), V("Col", "Color", flatten="field")], tags=["enum", "ser"]))
    # variants with fields of their own: nothing says which variant it was, so they are only written
    A(Enum("NmVar", [V("Unit"), V("Custom", fields=[F("enabled", "String"), F("color", "Pair"), F("alpha", "Leaf"), F("alphas", "Vec<Leaf>"), F("n", "i32", rename="num")]),
                     V("Data", "Leaf"), V("Opts", fields=[F("a", "Option<i32>"), F("b", "Option<Leaf>"), F("c", "Vec<String>"), F("d", "Vec<Nti32>"), F("writer", "Option<String>"), F("e", "Color"), F("item", "Vec<Shape>"), F("v", "Vec<bool>")]),
                     V("Cond", fields=[F("a", "i32", default="5"), F("b", "String", skip_if="skp"), F("c", "Option<i32>", skip_if=["7"]), F("d", "Vec<Leaf>", skip=True), F("e", "Leaf", default=["5"], skip_if=["6"]), F("s", "f32", skip=True)]),
                     V("Nothing", fields=[])], tags=["enum0", "ser", "skip"]))
    A(Enum("NmNs", [V("Nil"), V("Nm", fields=[F("a", "i32", prefix="p"), F("b", "Leaf", prefix="q", rename="a"), F("c", "Vec<Leaf>", prefix="p"), F("d", "Option<String>")])], prefix="p", ns={"p": URI["p"], "q": URI["q"]}, tags=["enum0", "ser", "ns"]))
    A(Struct("NmIn", [F("e", "NmVar"), F("o", "Option<NmVar>"), F("v", "Vec<NmVar>", skip_if=[["Unit"]]), F("r#type", "i32")], tags=["enum0", "ser"]))
    A(Struct("FlVarH", [F("e", "FlVar"), F("o", "Option<FlVar>"), F("v", "Vec<FlVar>")], tags=["enum", "rt"]))
    A(Enum("RootEn", [V("none"), V("num", "i32"), V("nums", "Vec<i32>"), V("leaf", "Leaf"), V("sp", "ShapeP", flatten=True, rename="ShapeP")], flatten=True, tags=["rootflat"]))
    A(Struct("RootFlN", [F("a", "Option<i32>"), F("b", "Option<i32>", prefix="p"), F("l", "Vec<Leaf>", prefix="q")], rename="a", ns={"p": URI["p"], "q": URI["q"]}, flatten=True, tags=["rootflatde"]))
    A(Struct("RootFlP", [F("a", "Option<i32>", prefix="p"), F("b", "Option<i32>"), F("c", "Option<i32>", prefix="q", rename="a")], rename="a", prefix="p", ns={"p": URI["p"], "q": URI["q"]}, flatten=True, tags=["rootflatde"]))
    # ---- generics, qualified paths
    A(Struct("GenL", [F("head", "Option<i32>"), F("body", "Leaf")], rename="Gen", generic="Gen", of="Leaf", tags=["gen", "base", "rt"]))
    A(Struct("GenC", [F("head", "Option<i32>"), F("body", "Color")], rename="Gen", generic="Gen", of="Color", tags=["gen", "rt"]))
    A(Struct("GenN", [F("head", "Option<i32>"), F("body", "Nti32")], rename="Gen", generic="Gen", of="Nti32", tags=["gen", "rt"]))
    for n, of, tags in [("GenRL", "Leaf", ["base"]), ("GenRC", "Color", []), ("GenRS", "Shape", [])]:
        A(Struct(n, [F("one", of), F("opt", f"Option<{of}>"), F("vec", f"Vec<{of}>"), F("k", "Option<i32>", attr=True)], rename="GenR", generic="GenR", of=of, param="R", tags=["gen", "rt"] + tags))
    # several parameters, a constant one, a constant alone; Self in the declaration; no fields at all
    A(Struct("Gen2a", [F("a", "Leaf"), F("b", "Option<Color>"), F("c", "Vec<Leaf>"), F("d", "Vec<Color>"), F("e", "Option<Empty>")], rename="Gen2", generic="Gen2", of="Leaf", param="A", also=(("B", "Color"), ("C", "Empty")), where=True, tags=["gen", "rt"]))
    A(Struct("Gen2b", [F("a", "Color"), F("b", "Option<Shape>"), F("c", "Vec<Color>"), F("d", "Vec<Shape>"), F("e", "Option<Nti32>")], rename="Gen2", generic="Gen2", of="Color", param="A", also=(("B", "Shape"), ("C", "Nti32")), where=True, tags=["gen", "rt"]))
    A(Struct("GenKL", [F("a", "Leaf"), F("n", "Option<i32>", attr=True)], rename="GenK", generic="GenK", of="Leaf", const=", const N: usize", tags=["gen", "rt"]))
    A(Enum("GenKE", [V("Nil"), V("One", "Leaf"), V("Many", "Vec<Color>")], rename="GenKE_", generic="GenKE_", of="Leaf", also=(("U", "Color"),), const=", const N: usize", tags=["gen", "enum", "rt"]))
    A(Struct("SelfRef", [F("v", "Option<i32>", attr=True), F("kids", "Vec<SelfRef>"), F("u", "UnitS"), F("us", "Vec<UnitS>"), F("raw", "Vec<RawE>")], noise=True, tags=["gen", "rt"]))
    A(Struct("UnitS", [], noise=True, tags=["gen", "rt"]))
    A(Enum("RecE", [V("Nil"), V("Val", "i32"), V("More", "Vec<RecE>"), V("Col", "RecI"), V("Opt", "Option<RecE2>")], tags=["gen", "enum", "rt"]))
    A(Enum("RecI", [V("RecI"), V("Col", "i32"), V("Nil", "Leaf")], tags=["gen", "enum", "rt"]))
    A(Enum("RecE2", [V("Zero"), V("More", "Vec<RecE>"), V("Opt", "Vec<RecE2>"), V("RecE2", "i32"), V("RecE", "Vec<RecE>")], tags=["gen", "enum", "rt"]))
    A(Enum("RawE", [V("r#type"), V("r#fn", "i32"), V("r#match", "Option<String>"), V("r#struct", "Leaf"), V("r#loop", "Vec<RawE>"), V("snake_case"), V("r#use", "Vec<String>")], noise=True, tags=["gen", "enum", "rt"]))
    A(Enum("RawT", [V("r#type"), V("r#fn"), V("r#in", rename="In")], tag="r#kind".replace("r#", ""), tags=["gen", "enum", "rt"]))
    A(Struct("RawU", [F("e", "RawE"), F("a", "Option<RawU1>", attr=True), F("es", "Vec<RawU1>")], tags=["gen", "rt"]))
    A(Newtype("RawN", "i32", tags=["newtype", "gen", "rt"], rust="r#try"))
    A(Struct("RawTy", [F("n", "RawN"), F("ns", "Vec<RawN>"), F("f", "Option<RawN>", attr=True), F("k", "RawEn")], tags=["gen", "rt"], rust="r#struct"))
    A(Enum("RawEn", [V("A"), V("B", "i32")], tags=["gen", "enum", "rt"], rust="r#enum"))
    A(Enum("RawU1", [V("r#type"), V("r#fn"), V("lower")], tags=["gen", "enum", "rt"]))
    A(Struct("GenFl", [F("n", "Option<i32>"), F("inner", "FlOpt2", flatten=True), F("w", "Vec<GenRL>")], rename="GenF", generic="GenF", of="FlOpt2", param="W", where=True, tags=["gen", "flatten", "rt"]))
    for n, of in [("GenEL", "Leaf"), ("GenEC", "Color"), ("GenET", "TxtA")]:
        A(Enum(n, [V("Nil"), V("One", of), V("Opt", f"Option<{of}>"), V("Many", f"Vec<{of}>", rename="many"), V("N", "i32")], rename="GenE", generic="GenE", of=of, param="W", where=True, tags=["gen", "enum", "rt"]))
    A(Struct("HasGenE", [F("e", "GenEL"), F("c", "Vec<GenEC>"), F("z", "Option<i32>")], tags=["gen", "enum", "rt"]))
    A(Struct("PathQ", [F("a", "Option<i32>"), F("l", "Leaf"), F("v", "Vec<Leaf>"), F("s", "String")], tags=["gen", "base", "rt"], module="qualified"))
    A(Enum("PathE", [V("Nil"), V("A", "i32"), V("O", "Option<String>"), V("L", "Vec<Leaf>"), V("S", "String"), V("P", "PathQ")], tags=["gen", "enum", "rt"], module="qualified"))
    A(Struct("PathD", [F("d", "String", default="dflt"), F("o", "Option<i32>", attr=True, skip_if=["7"]), F("w", "Vec<String>", attr=True), F("t", "Option<String>", text=True), F("n", "Option<Nti32>", attr=True)], tags=["gen", "ser"], module="qualified"))
    A(Struct("PathF", [F("f", "FlOpt2", flatten=True), F("e", "PathE"), F("es", "Vec<PathE>"), F("c", "Color", attr=True), F("cd", "String", cdata=True), F("fs", "Vec<f64>")], tags=["gen"], module="qualified"))
    for m, x in [("two", "2"), ("three", "3"), ("macro", "M"), ("macroinner", "I")]:
        A(Struct("PathQ" + x, [F("a", "Option<i32>"), F("l", "Leaf"), F("v", "Vec<Leaf>"), F("s", "String"), F("w", "Vec<String>", attr=True), F("b", "bool"), F("o", "Option<Leaf>"), F("d", "String", default="dflt"), F("fs", "Vec<f64>"), F("u", "u8", attr=True)], tags=["gen", "base", "rt"], module=m))
        A(Enum("PathE" + x, [V("Nil"), V("A", "i32"), V("O", "Option<String>"), V("L", "Vec<Leaf>"), V("S", "String"), V("P", "PathQ"), V("I", "Vec<i32>"), V("Q", "Option<Leaf>")], tags=["gen", "enum", "rt"], module=m))
        A(Struct("PathF" + x, [F("f", "FlOpt2", flatten=True), F("e", "PathE" + x), F("es", "Vec<PathE>"), F("c", "Color", attr=True), F("oc", "Option<Color>", attr=True), F("cd", "String", cdata=True)], tags=["gen"], module=m))
    return c
