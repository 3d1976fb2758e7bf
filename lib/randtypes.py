"""Random declarations: supported field types, multiplicities and attributes in every combination."""
from catalogue import Enum, EXT, F, SCALARS, Struct, URI, V

IDENTS = ["a", "b", "value", "x1", "x_1", "X1", "under_score", "camelCase", "PascalCase", "_lead", "r#type", "r#match", "r#fn", "r#where", "name", "attributes", "namespace", "reader", "depth", "visitor", "event", "writer", "result", "field",
          "text_content", "start_depth", "named_element", "self_", "s", "v", "value_", "content", "yaserde", "item", "items", "struct_start_event", "unused", "buf", "attr", "label", "i", "n", "e", "data", "source", "fromstr", "ok", "err", "none", "some"]
RENAMES = ["with-dash", "with.dot", "a.b-c_d", "UPPER", "Mixed.Case-Name", "type", "self", "x1", "_u", "struct", "é", "a", "b", "value", "n-1", "xs", "Some", "None", "Ok", "T", "from_str", "x-y", "x.y", "x_y", "xY"]
KNOWN = {"struct": ["Leaf", "LeafS", "Pair", "ShapeP", "TxtA", "Empty", "Cd"], "enum": ["Color", "Shape", "Multi"], "new": ["Nti32", "NtString", "Ntbool", "Hxu8", "Disp"]}
EXTN = dict(EXT, Leaf=(["5"], ["6"]), Color=(["Green"], ["Red"]), Nti32=("5", "6"), NtString=("dd", "ss"), Hxu8=("0A", "FF"), Shape=(["Circle", "3"], ["Label", "a"]), Pair=([["1"], [], []], [["1"], [["2"]], [["3"]]]), Disp=("5cm", "6cm"))
EMPTYABLE = {"Empty"}


class Maker:
    def __init__(self, rng, tag, cat):
        self.rng, self.tag, self.cat, self.n, self.made = rng, tag, cat, 0, {"struct": [], "enum": []}

    def name(self):
        self.n += 1
        return "Z%s%d" % (self.tag, self.n)

    def child_base(self, k=None):
        rng = self.rng
        r = rng.random()
        if r < .6:
            return rng.choice(SCALARS)
        if r < .72:
            return rng.choice(KNOWN["new"])
        if r < .82:
            return rng.choice(KNOWN["enum"] + self.made["enum"][-6:])
        return rng.choice(KNOWN["struct"] + self.made["struct"][-6:])

    def attr_base(self):
        rng = self.rng
        return rng.choice(SCALARS) if rng.random() < .8 else rng.choice(["Nti32", "Hxu16", "Disp", "Ntbool", "Color"])

    @staticmethod
    def wrap(card, base):
        return {"one": base, "opt": "Option<%s>" % base, "vec": "Vec<%s>" % base}[card]

    def struct(self):
        rng = self.rng
        ns = rng.choice([{}, {}, {}, {"p": URI["p"]}, {"p": URI["p"], "q": URI["q"]}, {"p": URI["p"], "p2": URI["p"]}, {"p": URI["p"], "q": URI["p"] + "/"}, {"P": "urn:1", "p": "urn:2", "p-1": "urn:3", "p.1": "urn:4", "p1": "URN:1"}])
        prefix = rng.choice(sorted(ns)) if ns and rng.random() < .7 else None
        fs, els, ats, idents = [], set(), set(), set()
        rt = True
        shape = rng.choice(["mixed", "mixed", "mixed", "text", "flat"])
        for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12])):
            ident = rng.choice(IDENTS)
            if ident.replace("r#", "") in idents:
                continue
            ren = rng.choice(RENAMES) if rng.random() < .35 else None
            attr = rng.random() < (.6 if shape == "text" else .35)
            pfx = rng.choice(sorted(ns)) if ns and rng.random() < .5 else None
            xml = ren or ident.replace("r#", "")
            uri = ns.get(pfx, "")
            # attributes are found by their local name (a known finding): one per name
            key = xml if attr else (uri, xml)
            if key in (ats if attr else els):
                continue
            if xml in ("xmlns", "xml"):
                continue
            if not attr and (shape == "text" and rng.random() < .8):
                continue
            base = self.attr_base() if attr else self.child_base()
            card = rng.choice(["one", "one", "opt", "opt", "vec"])
            if attr and base == "Color" and card == "vec":
                base = "Nti32"
            kw = {}
            scalar = base in SCALARS
            if base in EXTN and rng.random() < .25:
                d, s = EXTN[base]
                pick = rng.random()
                if card == "one" and pick < .5:
                    kw["default"] = d
                elif pick < .85:
                    kw["skip_if"] = s if card == "one" else [s]
                    rt = False
                else:
                    kw["skip"] = True
                    rt = False
                if card == "one" and "default" in kw and rng.random() < .3:
                    kw["skip_if"] = s
                    rt = False
            if base == "String" and card == "one" and not attr and rng.random() < .15:
                kw["cdata"] = True
            if card == "opt" and base == "Empty":
                continue
            idents.add(ident.replace("r#", ""))
            (ats if attr else els).add(key)
            fs.append(F(ident, self.wrap(card, base), attr=attr, rename=ren, prefix=pfx, **kw))
        if shape == "text" and "body" not in idents and not any(not f.attr for f in fs):
            fs.insert(rng.randint(0, len(fs)), F("body", rng.choice(["String", "Option<String>"]), text=True))
        if shape == "flat" and not ns:
            local = {f.xml for f in fs}
            for ident, base, xs in (("fl_base", "FlBase", {"id", "note"}), ("fl_ext", "FlExt", {"week", "cent"}), ("fl_opt", "FlOpt2", {"y", "z", "q"})):
                if not (xs & local) and rng.random() < .6:
                    fs.append(F(ident, base, flatten=True))
        t = Struct(self.name(), fs, rename=rng.choice(RENAMES[:6]) if rng.random() < .3 else None, prefix=prefix, ns=ns,
                   module=rng.choice(["qualified", "two", "three", "macro", "macroinner"]) if rng.random() < .4 else None, tags=["rand", "ser"] + (["rt"] if rt else []))
        t.noise = rng.random() < .5
        if not any(f.flatten for f in fs) and not ns and not any(f.skip or f.skip_if is not None for f in fs) and not any(f.text for f in fs) and fs:
            self.made["struct"].append(t.name)
        return t

    def enum(self):
        rng = self.rng
        vs, xmls = [], set()
        tagged = rng.random() < .12
        names = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "X", "Value", "Leaf", "Other", "Self_", "Vec_", "Opt", "r#type", "r#match", "r#fn", "lower", "snake_case", "SHOUT", "Two2", "A_b"]
        rng.shuffle(names)
        for k in range(rng.randint(1, 7)):
            ident = names[k]
            ren = rng.choice(RENAMES) if rng.random() < .35 else None
            xml = ren or ident.replace("r#", "")
            if xml in xmls:
                continue
            xmls.add(xml)
            ty = None
            if k and not tagged and rng.random() < .7:
                base = self.child_base()
                card = rng.choice(["one", "one", "opt", "vec"])
                if base == "Empty" and card == "opt":
                    card = "one"
                ty = self.wrap(card, base)
            vs.append(V(ident, ty, rename=ren))
        t = Enum(self.name(), vs, rename=rng.choice(RENAMES[:5]) if rng.random() < .2 else None, tag="kind" if tagged else None, module=rng.choice(["qualified", "two", "three", "macro", "macroinner"]) if rng.random() < .4 else None, tags=["rand", "enum", "rt"])
        t.noise = rng.random() < .5
        if not tagged:
            self.made["enum"].append(t.name)
        return t

    def types(self, n):
        return [self.enum() if self.rng.random() < .25 else self.struct() for _ in range(n)]
