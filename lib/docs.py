"""Documents: trees guided by the types, their spelling as tokens, and the tokens' spelling as bytes."""
import random
from catalogue import SCALARS

INTR = {"i8": (-128, 127), "u8": (0, 255), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i32": (-2**31, 2**31 - 1),
        "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
STR_GOOD = ["a", "abc", "x y", "7", "true", "-1", "&", "<", ">", "<x>7</x>", "a&b", "&amp;", "]]>", "]]", "a]]>b", "'", '"', "'\"'",
            "é", "日本", "\U0001F600", "a\U0001F600b", "<!-- no -->", "<?pi?>", "<![CDATA[x]]>", "=", "a=b", "x\ny", "x\ty", "x  y", "0", "#", "&#65;",
            "none", "Red", "green", "k", "\u00a0", "\u200b", "\ufeff", "–", "\\", "{}", "%s", "null", "]]>]]>", "a" * 300,
            "\u00ff", "a\u00ffb", "\u00ff\u00ff", "x \u00ff", "+a", "+33 1", "-a", "+", "&\u00ff<"]  # u00ff stands for a long run (vp.stretched)
FLOAT_GOOD = ["0", "-0", "1", "-1", "1.5", "+2.25", ".5", "5.", "1e3", "1E3", "1e+3", "25e-2", "inf", "-inf", "NaN", "nan", "INF", "infinity", "Infinity",
              "0.1", "123456", "1e-5", "00.50", "-0.0", "1e20", "3.0", "0e5", "+inf",
              "16777217", "0.30000000000000004", "3.4028235e38", "3.5e38", "1e39", "1e-46", "1.7976931348623157e308", "1e400", "5e-324", "1e-400", "123456789.123456789", "-9999999.5", "0.99999999999"]
FLOAT_BAD = ["", ".", "e3", "1e", "1.2.3", "0x10", "1,5", "--1", "1 2", "infinit", "one", "+-1", "1e+", "1_0"]
INT_BAD = ["", "-", "+", "abc", "1.0", "1e3", "0x10", "1 2", "--1", "+-1", "1_000", "１", "٣", "1,0", "∞", "#1", "5cm"]
BOOL_BAD = ["", "True", "TRUE", "yes", "no", "2", "-1", "01", "10", "00", "t", "f", "truee", "tru", "1.0", "on", "+1"]
NAMES = ["u", "unk", "x", "y", "item", "a", "b", "value", "Leaf", "l", "_z", "q-r", "w.v", "é", "n\u00ff", "\u00ff"]
XMLNS, XSI = "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2001/XMLSchema-instance"
URIS = ["", "urn:p", "urn:q", "urn:r", "urn:d", "urn:z", "urn:other", "urn:p/", "URN:P", "urn:p#", "urn:pp", "urn:", "urn:1", "urn:2", "http://x/?a=1&b=2", "urn:<'&#38;"]

# namespaces spelt nearly as the catalogue's are
NEAR_URIS = []


def near_uris(u):
    return [n for n in dict.fromkeys([u.upper(), u.lower(), u.swapcase(), " " + u, u + " ", u + "\u00a0", u + "/", u.rstrip("/"), u + "#", u.split("#")[0], u.split("?")[0], u[:-1], u.replace("http:", "https:"), u.replace("&", "&amp;"), u.replace("&", ""),
                                     u.replace("urn:", ""), "urn:" + u, u + "x", u.replace("/", "//")]) if n and n != u]


def uri(rng):
    return rng.choice(NEAR_URIS) if NEAR_URIS and rng.random() < .15 else rng.choice(URIS)


def good(rng, t):
    if t == "String":
        return rng.choice(STR_GOOD)
    if t == "bool":
        return rng.choice(["true", "false", "1", "0"])
    if t in INTR:
        lo, hi = INTR[t]
        v = rng.choice([lo, hi, lo + 1, hi - 1, 0, 1, 7, 42, rng.randint(lo, hi), rng.randint(max(lo, -100), min(hi, 100))])
        s = str(v)
        r = rng.random()
        if r < .08 and v >= 0:
            s = "+" + s
        elif r < .16:
            s = ("-00" + s[1:]) if v < 0 else "00" + s
        elif r < .18 and v == 0:
            s = "-0" if t[0] == "i" else "+0"
        return s
    return halfway(rng, t) if rng.random() < .12 else rng.choice(FLOAT_GOOD)


def halfway(rng, t):
    """A literal half way between two numbers of the type, or hardly above or below that."""
    w, emin, emax = (24, -149, 104) if t == "f32" else (53, -1074, 971)
    e = rng.choice([rng.randint(emin, emax) if rng.random() < .3 else rng.randint(-60, 60), 1 - w, -w, emin if t == "f32" else 1 - w, emax if rng.random() < .2 else 0])
    m = rng.choice([rng.randrange(2 ** (w - 1), 2 ** w), 2 ** w - 1, 2 ** (w - 1), 2 ** (w - 1) + 1] + ([rng.randrange(0, 2 ** w), 0] if e == emin else []))
    n, k = 2 * m + 1, e - 1
    s = str(n * 2 ** k) + "." if k >= 0 else str(n * 5 ** -k).rjust(1 - k, "0")
    if k < 0:
        s = s[:k] + "." + s[k:]
    how = rng.randrange(3)
    if how == 1:
        s += rng.choice(["1", "0001", "00000000000000000001"])
    elif how == 2:
        s = (str(n * 2 ** k - 1) + ".9") if k >= 0 else s[:-1] + "4" + rng.choice(["9", "99999", "99999999999999999999"])
    return s


def bad(rng, t):
    if t != "String" and rng.random() < .2:
        # long, and wide where a byte count may fall
        return rng.choice(["x", "9", "-", "tru", "e"]) * rng.choice([rng.randint(0, 90), rng.randint(0, 5)]) + rng.choice(["\u00ff", "é", "日本", "\U0001F600", "z\u00ff", "\u00ff9", "é" * rng.randint(1, 60)])
    if t == "bool":
        return rng.choice(BOOL_BAD)
    if t in INTR:
        lo, hi = INTR[t]
        return rng.choice(INT_BAD + [str(hi + 1), str(lo - 1), str(hi * 10), str(hi) + "0", str(-hi - 2), "-1" if lo == 0 else str(lo * 3), "9" * 40])
    if t == "String":
        return good(rng, t)
    return rng.choice(FLOAT_BAD)


def new_literal(rng, t, ok=True):
    if t.how == "prim":
        if ok and t.base == "bool":
            return rng.choice(["true", "false"])
        return good(rng, t.base) if ok else bad(rng, t.base)
    if t.how in ("hex", "hexbits"):
        hi = INTR[t.base][1]
        if ok:
            v = rng.choice([0, 1, 2, 15, 16, 0x7f, 0x80, hi, rng.randint(0, hi)]) if t.how == "hex" else rng.choice([0, 1, 2, 3, 0x80, 0x81, 0x82, 0x83])
            return rng.choice(["%X", "%x", "%02X", "00%X", "+%X"]) % v
        return rng.choice(["", "G", "0x1F", "-1", "1G", "%X0" % hi, "1 2", "fF.", " +"] + (["04", "FF"] if t.how == "hexbits" else []))
    return (str(rng.choice([0, 5, -3, 2**31 - 1])) + "cm") if ok else rng.choice(["5", "cm", "5m", "xcm", "5cmm", "2147483648cm", ""])


# what the source calls a thing the declarations rename
ALIASES = {}


def aliases(cat):
    ALIASES.clear()
    NEAR_URIS[:] = sorted({n for t in cat.types.values() for u in (getattr(t, "ns", None) or {}).values() for n in near_uris(u)})
    for t in cat.types.values():
        for x, ident in [(getattr(t, "root", None), t.name)] + [(f.xml, f.ident) for f in getattr(t, "fields", None) or []] + [(v.xml, v.ident) for v in getattr(t, "variants", None) or []]:
            ident = ident.replace("r#", "")
            if x and x != ident and ident not in ALIASES.get(x, []):
                ALIASES.setdefault(x, []).append(ident)


def near_name(rng, s):
    """A name like another one, and not that one."""
    if s in ALIASES and rng.random() < .3:
        return rng.choice(ALIASES[s])
    for _ in range(20):
        n = rng.choice([s.upper(), s.lower(), s.capitalize(), s.swapcase(), s + "s", "x" + s, s + "x", s + "-", s + ".x", "x." + s, "x-" + s, s + "-x", s * 2, s[:-1], s[1:], "_" + s, s + "_", s.replace("-", "_"), s.replace("_", "-"),
                        s.replace("-", ""), s.replace(".", "-"), s[::-1], s + "1", s + "\u00ff", s + "\u0301"])
        if n != s and n and (n[0].isalpha() or n[0] == "_"):
            return n
    return "zz-near"


def near_text(rng, s):
    """A text like another one, and not that one (nor that one with blanks around it)."""
    if rng.random() < .4:
        return near_name(rng, s)
    x = rng.choice(["x", "é", "1", "\u00ff", s])
    return rng.choice([x + ":" + s, s + ":" + x, "{" + x + "}" + s, x + " " + s, s + " " + x, s + "\n" + x, "(" + s + ")", s + "(1)", s + ",", s + ";" + x, "." + s, x + "." + s, x + "/" + s, "#" + s, s + "=" + x, "'" + s + "'", '"' + s + '"',
                       "&" + s + ";", "<" + s + ">", s + "()", "-" + s, s + "\u00a0", "\ufeff" + s, s + "\u200b", x + "::" + s, "r#" + s, s + "|" + x, "@" + s, "$" + s, s + "!"])


def el(n, ns="", a=(), c=()):
    return {"k": "e", "ns": ns, "n": n, "a": [list(x) for x in a], "c": list(c)}


def tx(s):
    return {"k": "t", "t": s}


class Opts:
    """What deviates from the plain document of a type, as probabilities per place."""
    def __init__(self, **kw):
        self.missing = self.dup = self.unknown = self.wrongns = self.badlit = self.text = self.badattr = 0.0
        self.optp, self.vecmax, self.maxdepth, self.shuffle, self.unkattr, self.emptyel = .6, 3, 6, True, 0.0, 0.0
        self.rootname = .15
        self.nested = 0.0  # children inside an element that holds a scalar
        self.mix = 0.0     # an enumeration holding more than one variant
        self.tabs = True   # in attributes
        self.__dict__.update(kw)


def mess(**kw):
    d = dict(missing=.1, dup=.15, unknown=.2, wrongns=.08, badlit=.06, text=.1, unkattr=.12, nested=.05, mix=.1, badattr=.03, emptyel=.03)
    d.update(kw)
    return Opts(**d)


class Gen:
    def __init__(self, cat, rng, opts):
        self.cat, self.rng, self.o, self.left, self.bulk = cat, rng, opts, 100, False

    def p(self, x):
        return x > 0 and self.rng.random() < x

    # every name that means something near this place
    def hot_names(self, t):
        out = [t.root] if hasattr(t, "root") else []
        if t.kind == "struct":
            for f in t.fields:
                out.append(f.xml)
                if f.base in self.cat.types:
                    b = self.cat.types[f.base]
                    if b.kind == "struct":
                        out += [g.xml for g in b.fields]
                    if b.kind == "enum":
                        out += [v.xml for v in b.variants]
        elif t.kind == "enum":
            for v in t.variants:
                out.append(v.xml)
        return out

    def junk(self, t, forbid, depth=0):
        """An element no field of the place claims; what is below it is free."""
        rng = self.rng
        hot = self.hot_names(t) if t is not None else []
        for _ in range(20):
            n = rng.choice(NAMES + hot + hot)
            if hot and rng.random() < .25:
                n = near_name(rng, rng.choice(hot))
            ns = uri(rng) if rng.random() < .8 else ""
            alias = [a for h in hot for a in ALIASES.get(h, [])]
            if alias and rng.random() < .3:
                n = rng.choice(alias)
                if (ns, n) not in forbid and ("*", n) not in forbid and rng.random() < .8:
                    return el(n, ns, [], [tx(rng.choice(["7", "7", "text", "true", "Red", "1"]))])
            if (ns, n) not in forbid and ("*", n) not in forbid:
                break
        else:
            n, ns = "zz-unknown", ""
        c = []
        if depth == 0 and rng.random() < .006:
            # as deep as documents get
            c = [tx("7")]
            for _ in range(rng.choice([20, 70, 140, 270])):
                c = [el(rng.choice(hot + NAMES), c=c)]
        elif depth < 3:
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                if rng.random() < .4:
                    c.append(tx(rng.choice(["7", "text", "Red", "true", "stray"])))
                else:
                    # below an unknown element every name is harmless, the more meaningful the better
                    if rng.random() < .7 and hot:
                        c.append(el(rng.choice(hot), rng.choice(["", uri(rng)]), c=[tx(rng.choice(["7", "z"]))] if rng.random() < .8 else []))
                    else:
                        c.append(self.junk(t, set(), depth + 1))
        a = [["", rng.choice(hot + NAMES), rng.choice(["1", "v"])]] if rng.random() < .3 else []
        return el(n, ns, a, c)

    def scalar_el(self, n, ns, base):
        rng, o = self.rng, self.o
        if self.p(o.emptyel):
            return el(n, ns)
        lit = bad(rng, base) if self.p(o.badlit) else good(rng, base)
        c = [tx(lit)] if lit != "" else []
        if self.p(o.nested):
            j = el(rng.choice(NAMES + [n]), rng.choice(["", ns]), c=[tx("9")] if rng.random() < .5 else [])
            c = rng.choice([[j], c + [j], [j] + c, [j, el(rng.choice(NAMES))], [el("k", c=[el(n, ns, c=[tx("3")])])]])
        a = [rng.choice([["", rng.choice(NAMES), "1"], ["", rng.choice(NAMES), "1"], [XSI, "nil", "true"], [XSI, "type", "xs:string"], [XMLNS, "space", "preserve"]])] if self.p(o.unkattr) else []
        return el(n, ns, a, c)

    def typed_el(self, n, ns, base, depth):
        self.left -= 1
        if base in SCALARS:
            return self.scalar_el(n, ns, base)
        a, c = self.content(self.cat.types[base], depth + 1)
        return el(n, ns, a, c)

    def attr_lit(self, base):
        rng, o = self.rng, self.o
        isbad = self.p(o.badattr)
        if base in SCALARS:
            s = bad(rng, base) if isbad else good(rng, base)
            if base == "String" and rng.random() < .25:
                s = rng.choice(["", "", " ", " a", "a ", "  x y ", "\u00a0", "\n"] + ["a\tb"] * o.tabs)
            if not o.tabs:
                s = s.replace("\t", " ")
            return s
        t = self.cat.types[base]
        if t.kind == "new":
            for _ in range(50):
                s = new_literal(rng, t, not isbad)
                if "\t" not in s and s.strip() == s:
                    return s
            return "x"
        if t.kind == "struct":
            s = good(rng, "String").strip()
            return s.replace("\t", " ")
        if t.kind == "enum":
            units = [v.xml for v in t.variants if v.card == "unit"]
            return rng.choice(units + (["nope", "", near_text(rng, rng.choice(units or ["x"]))] * 2 if isbad else []))
        raise AssertionError(base)

    def count(self, f):
        o, rng = self.o, self.rng
        if f.card == "one":
            return 0 if self.p(o.missing) else (rng.choice([2, 3]) if self.p(o.dup) else 1)
        if f.card == "opt":
            return (2 if self.p(o.dup) else 1) if rng.random() < o.optp else 0
        if self.bulk and rng.random() < .01:
            self.bulk = False
            return rng.choice([20, 70, 140, 270])
        return rng.randint(0, o.vecmax)

    def content(self, t, depth=0, claimed=frozenset()):
        """(attributes, children) of an element holding a value of type t; `claimed`: names of the parent it is flattened into."""
        rng, o = self.rng, self.o
        if t.kind == "new":
            lit = new_literal(rng, t, not self.p(o.badlit)) if not self.p(o.emptyel) else ""
            return ([["", "k", "1"]] if self.p(o.unkattr) else []), ([tx(lit)] if lit else [])
        if t.kind == "custom":
            c = []
            for _ in range(rng.choice([0, 1, 2, 3])):
                r = rng.random()
                if r < .35:
                    if not c or c[-1]["k"] != "t":
                        c.append(tx(rng.choice(["7", "tt", "Red"])))
                else:
                    c.append(el(rng.choice(["x", "b", "c", "l", "v", "k", "CuAll"]), c=[tx("7")] if rng.random() < .5 else [el("x", c=[tx("8")])] if rng.random() < .4 else []))
            return ([["", "k", rng.choice(["1", "vv"])]] if rng.random() < .5 else []), c
        if t.kind == "enum":
            return self.enum_content(t, depth)
        attrs, groups, names, forbid = {}, [], set(), set(claimed)
        for f in t.fields:
            if not f.attr and not f.text and not f.flatten:
                forbid.add((self.ns(t, f), f.xml))
        twins = {f.xml for f in t.fields if f.attr and sum(g.attr and g.xml == f.xml for g in t.fields) > 1}
        for f in t.fields:
            if f.attr:
                if (f.card == "one" and not self.p(o.missing)) or (f.card != "one" and rng.random() < o.optp):
                    ns = self.ns(t, f) if rng.random() < .7 else ""
                    if f.card == "vec":
                        v = "".join(self.attr_lit(f.base).replace(" ", "_").replace("\n", "_").replace("\t", "_").replace("\u00a0", "_") + rng.choice([" ", " ", "  ", "\n", " \n ", "\t" if o.tabs else " "]) for _ in range(rng.randint(0, 3)))
                        v = rng.choice([v, v.strip(), " " + v])
                    else:
                        v = self.attr_lit(f.base)
                    if f.xml in twins:
                        # only the namespace tells whose attribute it is; one of no field's namespace stands alone
                        ns = self.ns(t, f) if rng.random() < .93 else rng.choice(["", "urn:z"])
                        mine = {self.ns(t, g) for g in t.fields if g.attr and g.xml == f.xml}
                        attrs = {k: x for k, x in attrs.items() if x[1] != f.xml or (x[0] in mine and ns in mine)}
                        attrs[ns, f.xml] = [ns, f.xml, v]
                    else:
                        attrs[f.xml] = [ns, f.xml, v]
            elif f.text:
                if rng.random() < .75:
                    groups.append([tx(rng.choice(STR_GOOD))])
            elif f.flatten:
                sub = self.cat.types[f.base]
                if f.card == "opt" and rng.random() < .4:
                    continue
                a, c = self.content(sub, depth, frozenset(forbid))
                for x in a:
                    attrs.setdefault(x[1], x)
                groups.append([x for x in c if x["k"] == "t" or (x["ns"], x["n"]) not in forbid])
                for x in c:
                    if x["k"] == "e":
                        names.add((x["ns"], x["n"]))
            else:
                k = self.count(f)
                if (depth > o.maxdepth or self.left < 0) and f.card != "one":
                    k = 0
                g = []
                for _ in range(k):
                    ns = self.ns(t, f)
                    if self.p(o.wrongns):
                        w = [u for u in URIS + (near_uris(ns) if ns else []) if (u, f.xml) not in forbid]
                        ns = rng.choice(w) if w else ns
                    g.append(self.typed_el(f.xml, ns, f.base, depth))
                groups.append(g)
        for _ in range(3):
            if self.p(o.unknown):
                f2 = set(forbid)
                for f in t.fields:
                    if f.flatten:
                        f2 |= self.claims(self.cat.types[f.base])
                groups.append([self.junk(t, f2)])
        if self.p(o.text):
            groups.append([tx(rng.choice(["stray", "7", "&", "x y"]))])
        if self.p(o.unkattr):
            n = rng.choice(NAMES + [f.xml for f in t.fields if not f.attr])
            ats = [f.xml for f in t.fields if f.attr]
            if ats and rng.random() < .5:
                n = rng.choice(rng.choice([ALIASES.get(a) or [near_name(rng, a)] for a in ats]))
            if not any(f.attr and f.xml == n for f in t.fields) and not any(f.flatten for f in t.fields):
                attrs.setdefault(n, [rng.choice(["", "", "urn:z"]), n, rng.choice(["1", "v"])])
            if not any(f.flatten for f in t.fields):
                # attributes every document may carry
                for ns, n, v in [(XMLNS, "lang", "en"), (XMLNS, "space", rng.choice(["preserve", "default"])), (XMLNS, "base", "b"), (XSI, "nil", rng.choice(["true", "1"])), (XSI, "type", "xs:int"), (XSI, "schemaLocation", "urn:p p.xsd")]:
                    if rng.random() < .1 and not any(f.attr and f.xml == n for f in t.fields):
                        attrs.setdefault(n, [ns, n, v])
            if rng.random() < .012:
                for k in range(rng.choice([20, 70, 140, 270])):
                    attrs.setdefault("bulk%d" % k, ["", "bulk%d" % k, "v"])
        if o.shuffle:
            kids = []
            groups = [g for g in groups if g]
            while groups:
                g = rng.choice(groups)
                kids.append(g.pop(0))
                groups = [h for h in groups if h]
        else:
            kids = [x for g in groups for x in g]
        al = list(attrs.values())
        rng.shuffle(al)
        return al, kids

    def claims(self, t):
        out = set()
        if t.kind == "struct":
            for f in t.fields:
                if f.flatten:
                    out |= self.claims(self.cat.types[f.base])
                elif not f.attr and not f.text:
                    out.add((self.ns(t, f), f.xml))
        elif t.kind == "enum":
            out |= {("*", v.xml) for v in t.variants}
        return out

    @staticmethod
    def ns(t, f):
        return t.ns.get(f.prefix, "") if f.prefix else ""

    def variant_el(self, t, v, depth):
        rng = self.rng
        ns = t.ns.get(v.prefix, "") if v.prefix else rng.choice(["", "", "", "urn:z"]) if self.p(self.o.wrongns) else ""
        if v.card == "unit":
            return el(v.xml, ns, c=[tx("junk")] if self.p(self.o.text) else [self.junk(t, set())] if self.p(self.o.unknown) else [])
        if v.base in SCALARS:
            e = self.scalar_el(v.xml, ns, v.base)
            if v.base == "bool" and rng.random() < .9 and e["c"] and e["c"][0]["k"] == "t":
                e["c"][0]["t"] = rng.choice(["true", "false"])
            return e
        return self.typed_el(v.xml, ns, v.base, depth)

    def enum_content(self, t, depth):
        rng, o = self.rng, self.o
        forbid = {("*", v.xml) for v in t.variants}
        junk = lambda: self.junk(t, forbid)
        kids, attrs = [], []
        if t.tag:
            v = rng.choice(t.variants)
            r = rng.random()
            if not self.p(o.missing):
                attrs.append(["", t.tag, v.xml if r > o.badlit else rng.choice(["nope", "", near_text(rng, v.xml), near_text(rng, v.xml)])])
            elif r < .5:
                kids.append(el("w", "", [["", t.tag, v.xml]]))
            for n in rng.sample(["other", "Kind", "kin", "kinds", "k", "value"] + [v.xml for v in t.variants], 3):
                if n != t.tag and (self.p(o.unknown) or self.p(o.unkattr)):
                    attrs.append(["", n, rng.choice(["x", rng.choice(t.variants).xml])])
            rng.shuffle(attrs)
            return attrs, kids
        r = rng.random()
        units = [v for v in t.variants if v.card == "unit"]
        datas = [v for v in t.variants if v.card != "unit" and ((depth < o.maxdepth and self.left >= 0) or v.base in SCALARS)]
        if r < .08 * (o.missing > 0):
            pass
        elif r < .35 and units:
            kids.append(tx(rng.choice(units).xml if not self.p(o.badlit) else rng.choice(["nope", "red", rng.choice(t.variants).xml, near_text(rng, rng.choice(t.variants).xml), near_text(rng, rng.choice(t.variants).xml)])))
        elif r < .45 and units:
            kids.append(self.variant_el(t, rng.choice(units), depth))
        elif datas:
            v = rng.choice(datas)
            k = rng.randint(1, 3) if v.card == "vec" else 2 if self.p(o.dup) else 1
            for _ in range(k):
                kids.append(self.variant_el(t, v, depth))
            if self.p(o.mix):
                w = rng.choice(t.variants)
                kids.insert(rng.randint(0, len(kids)), self.variant_el(t, w, depth))
            if self.p(o.text):
                kids.insert(rng.randint(0, len(kids)), tx(rng.choice(["stray", "7", t.variants[0].xml, datas[0].xml])))
        for _ in range(2):
            if self.p(o.unknown):
                kids.insert(rng.randint(0, len(kids)), junk())
        if self.p(o.unkattr):
            attrs.append(["", rng.choice(NAMES), "1"])
        return attrs, kids

    def doc(self, tn):
        """A list of root elements (one, except for types without an element of their own)."""
        t = self.cat.types[tn]
        self.left, self.bulk = 100, True
        rng, o = self.rng, self.o
        if getattr(t, "flatten", False) and t.kind in ("struct", "enum") and rng.random() < .6:
            a, c = self.content(t)
            roots = [x for x in c if x["k"] == "e"]
            if roots:
                return roots
        a, c = self.content(t)
        name = t.root
        if t.kind == "enum":
            if self.p(o.rootname):
                name = rng.choice(["other", "root"])
        elif t.kind == "new":
            name = rng.choice([t.root, "any"])
        elif self.p(o.rootname):
            name = rng.choice(["other", "root", "x", "a"])
        ns = ""
        if t.kind in ("struct", "enum"):
            own = t.ns.get(t.prefix, "") if t.prefix else ""
            ns = own if rng.random() < .85 else ""
            if self.p(o.wrongns):
                ns = rng.choice(near_uris(own)) if own and rng.random() < .4 else uri(rng)
        if t.kind == "enum" and t.tag is None and name != t.root:
            # a root named otherwise may be a variant itself: only when asked
            pass
        return [el(name, ns, a, c)]


# ------------------------------------------------------------------ tokens
class Surface:
    """How a tree is spelled."""
    def __init__(self, rng, plain=False, comments=.12, pis=.08, prefixes=True, spaces=True, texts=True, undeclare=False, xmldecl=True):
        self.rng, self.plain, self.comments, self.pis = rng, plain, comments, pis
        self.prefixes, self.spaces, self.texts, self.xmldecl = prefixes, spaces, texts, xmldecl

    def tokens(self, roots):
        out = []
        for r in roots:
            self._el(r, {"": "", "xml": XMLNS}, out)
            if not self.plain and self.rng.random() < .1 and len(roots) == 1:
                out.append({"k": "c"})
        return out

    def _bind(self, env, uri, decl, attr=False):
        rng = self.rng
        if uri == "" and attr:
            return ""
        if uri == env["xml"]:
            return "xml"
        have = [p for p, u in env.items() if u == uri and (p or not attr) and p != "xml"]
        if have and (self.plain or not self.prefixes or rng.random() < .7):
            return rng.choice(sorted(have)) if not self.plain else sorted(have)[0]
        if uri == "":
            return "" if env[""] == "" else None
        cand = [p for p in (["p", "q", "r", "n1", "x", "a", "ns0", "a-b"] + ([] if attr else ["", ""])) if p not in decl]
        if self.plain or not self.prefixes:
            cand = [c for c in cand if c not in env] or cand
            p = cand[0]
        else:
            p = rng.choice(cand)
        if p in decl or (p in env and self.plain and env[p] != uri):
            p = "n%d" % len(env)
        decl[p] = uri
        env[p] = uri
        return p

    def _has_nons(self, x):
        return x["k"] == "e" and (x["ns"] == "" or any(self._has_nons(c) for c in x["c"]))

    def _el(self, x, env, out):
        rng = self.rng
        env = dict(env)
        decl = {}
        # an element in no namespace cannot live below a default namespace (undeclaring is not used)
        nons = self._has_nons(x)
        for _ in range(30):
            e2, d2 = dict(env), {}
            p = self._bind(e2, x["ns"], d2)
            if p is not None and not (nons and e2[""] != ""):
                break
        else:
            e2, d2 = dict(env), {}
            p = "zq"
            d2[p] = e2[p] = x["ns"]
        env, decl = e2, d2
        if not self.plain and self.prefixes and rng.random() < .1:
            q = rng.choice(["extra", "p", "q"])
            if q not in env or (q not in decl and q != p and rng.random() < .3):
                # redeclaring a prefix is harmless when nothing below uses the outer one: _bind picks from env
                decl[q] = env[q] = rng.choice(["urn:z", "urn:p", "urn:unused"])
        attrs, used = [], {p}
        for ns, n, v in x["a"]:
            if ns == "":
                attrs.append(["", n, v])
            else:
                q = None
                for _ in range(30):
                    e2, d2 = dict(env), dict(decl)
                    q = self._bind(e2, ns, d2, attr=True)
                    # a prefix of this tag that is in use already keeps its meaning
                    if all(e2[u] == env[u] for u in used):
                        break
                else:
                    e2, d2, q = dict(env), dict(decl), "zr%d" % len(decl)
                    d2[q] = e2[q] = ns
                env, decl = e2, d2
                used.add(q)
                attrs.append([q, n, v])
        out.append({"k": "s", "p": p, "n": x["n"], "d": [[k, v] for k, v in decl.items()], "a": attrs})
        for c in x["c"]:
            if not self.plain and c["k"] == "e":
                self._noise(out)
            if c["k"] == "t":
                self._text(c["t"], out)
            else:
                self._el(c, env, out)
        if not self.plain:
            if not x["c"] or x["c"][-1]["k"] == "e":
                self._noise(out)
        out.append({"k": "e"})

    def _noise(self, out):
        rng = self.rng
        if self.spaces and rng.random() < .25:
            self._put(out, rng.choice([" ", "\n  ", "\t", "\n"]))
        if rng.random() < self.comments:
            out.append({"k": "c"})
        if rng.random() < self.pis and out[-1]["k"] != "t":
            # not next to text: a PI ends the run
            out.append({"k": "p"})
            out.append({"k": "c"})

    @staticmethod
    def _put(out, s):
        out.append({"k": "t", "t": s})

    def _text(self, s, out):
        rng = self.rng
        if self.plain:
            self._put(out, s)
            return
        if self.spaces and rng.random() < .2:
            self._put(out, rng.choice([" ", "\n ", "  "]))
        parts = [s]
        if self.texts and len(s) > 1 and rng.random() < .4:
            k = rng.randint(1, len(s) - 1)
            parts = [s[:k], s[k:]]
        for i, q in enumerate(parts):
            if i and self.comments and rng.random() < .5:
                out.append({"k": "c"})
            self._put(out, q)
        if self.comments and rng.random() < .06:
            out.append({"k": "c"})
        if self.spaces and rng.random() < .15:
            self._put(out, rng.choice([" ", "\n"]))


# ------------------------------------------------------------------ bytes
def esc_text(s, rng=None, how=None):
    if how == "cdata":
        return "<![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + "]]>"
    out = []
    for ch in s:
        if how == "ref" and (rng is None or rng.random() < .6):
            out.append(("&#%d;" if rng is None or rng.random() < .5 else "&#x%x;") % ord(ch))
        elif ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == ">":
            out.append("&gt;")
        elif ch == "\r":
            out.append("&#13;")
        else:
            out.append(ch)
    return "".join(out)


def esc_attr(s, qt, rng=None, ref=False):
    out = []
    for ch in s:
        if ref and rng.random() < .5:
            out.append("&#x%X;" % ord(ch))
        elif ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == qt:
            out.append("&quot;" if qt == '"' else "&apos;")
        elif ch in "\n\t\r":
            out.append("&#%d;" % ord(ch))
        else:
            out.append(ch)
    return "".join(out)


class Render:
    def __init__(self, rng=None, plain=True, shuffle=True):
        self.rng, self.plain, self.shuffle = rng or random.Random(0), plain, shuffle
        self.cdata, self.entities = True, None

    def pieces(self, toks):
        """The bytes of each token (str per token)."""
        rng, plain = self.rng, self.plain
        out, names = [], []
        i = 0
        while i < len(toks):
            t = toks[i]
            k = t["k"]
            if k == "s":
                qn = (t["p"] + ":" if t["p"] else "") + t["n"]
                items = [("xmlns" + (":" + p if p else ""), u) for p, u in t["d"]] + [((p + ":" if p else "") + n, v) for p, n, v in t["a"]]
                if not plain and self.shuffle and rng.random() < .5:
                    rng.shuffle(items)
                s = "<" + qn
                for n, v in items:
                    qt = '"' if plain or rng.random() < .6 else "'"
                    sp = " " if plain or rng.random() < .8 else rng.choice(["  ", "\n", "\t "])
                    eq = "=" if plain or rng.random() < .85 else rng.choice([" =", "= ", " = "])
                    s += sp + n + eq + qt + esc_attr(v, qt, rng, not plain and rng.random() < .15) + qt
                if not plain and rng.random() < .1:
                    s += rng.choice([" ", "\n"])
                if i + 1 < len(toks) and toks[i + 1]["k"] == "e" and (plain is False and rng.random() < .5):
                    out.append(s + "/>")
                    out.append("")
                    i += 2
                    continue
                out.append(s + ">")
                names.append(qn)
            elif k == "e":
                qn = t.get("q") or (names.pop() if names else "none")
                out.append("</" + qn + (rng.choice(["", " ", "\n"]) if not plain and rng.random() < .1 else "") + ">")
            elif k == "t":
                how = None
                if not plain:
                    r = rng.random()
                    how = ("cdata" if self.cdata else "ref") if r < .15 else "ref" if r < .3 else None
                if self.entities is not None and rng.random() < .4 and t["t"].strip() == t["t"] and not any(c in t["t"] for c in "&<>%\"'\r"):
                    # by an entity the document declares
                    self.entities.append(t["t"])
                    out.append("&ent%d;" % (len(self.entities) - 1))
                else:
                    out.append(esc_text(t["t"], rng, how))
            elif k == "c":
                out.append("<!--%s-->" % ("" if plain else rng.choice(["", " c ", "<x>7</x>", "&", "a - b", "]]>", "é", "\u00ff"])))
            elif k == "p":
                out.append("<?%s?>" % (rng.choice(["pi", "pi d", "target <x>7</x>", "xs a='1'"])))
            elif k == "x":
                out.append(t["raw"])
            i += 1
        return out

    def encoded(self, toks):
        """The document in an encoding of its own, with a document type declaration, or both."""
        rng = self.rng
        enc = rng.choice(["utf-16-le", "utf-16-be", "iso-8859-1", "utf-8", "us-ascii"])
        kind = rng.choice(["", "", "name", "system", "public", "internal"]) if sum(t["k"] == "s" for t in toks) else ""
        narrow = enc in ("iso-8859-1", "us-ascii")
        if narrow and any(ord(c) > (255 if enc[0] == "i" else 127) for t in toks if t["k"] == "s" for n in [t["n"], t["p"]] + [a[1] for a in t["a"]] for c in n):
            enc, narrow = "utf-16-le", False
        if narrow:
            self.cdata = False
        self.entities = [] if kind == "internal" else None
        pieces = self.pieces(toks)
        if narrow:
            pieces = [p if t["k"] != "c" else "".join(c if ord(c) < 127 else "?" for c in p) for p, t in zip(pieces, toks)]
        root = next(t["n"] for t in toks if t["k"] == "s")
        dt = {"": "", "name": "<!DOCTYPE %s>", "system": "<!DOCTYPE %s SYSTEM 'x.dtd'>\n", "public": '<!DOCTYPE %s PUBLIC "-//W3C//DTD X//EN" "http://x/x.dtd">', "internal": "<!DOCTYPE %s [\n<!ELEMENT a ANY>@]>"}[kind]
        dt = dt and dt % root
        dt = dt.replace("@", "".join("<!ENTITY ent%d \"%s\">" % (i, e) for i, e in enumerate(self.entities or [])))
        head = "" if enc == "utf-8" and rng.random() < .5 else '<?xml version="%s" encoding="%s"%s?>' % (rng.choice(["1.0", "1.0", "1.1"]), enc[:6].upper() if enc[:6] == "utf-16" else enc, rng.choice(["", " standalone='no'"])) + rng.choice(["", "\n"])
        body = head + dt + rng.choice(["", "\n", "<!-- x -->"]) + "".join(pieces)
        self.cdata, self.entities = True, None
        bom = b"\xff\xfe" if enc == "utf-16-le" else b"\xfe\xff" if enc == "utf-16-be" else b""
        return bom + body.encode(enc, "xmlcharrefreplace")

    def bytes(self, toks, multi=False):
        s = "".join(self.pieces(toks))
        head = ""
        if not self.plain:
            r = self.rng.random()
            if r < .25:
                head = self.rng.choice(['<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>', "<?xml version='1.0' encoding='UTF-8' standalone='yes'?>\n",
                                        '<?xml version="1.0" encoding="utf-8"?>\n<!-- head -->\n'])
            elif r < .3:
                head = "<!-- head -->"
            elif r < .33:
                head = "\n"
        b = (head + s).encode()
        if not self.plain and self.rng.random() < .08:
            b = b"\xef\xbb\xbf" + b if not head.startswith("\n") else b
        if not self.plain and self.rng.random() < .15:
            b += b"\n"
        return b
