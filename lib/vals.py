"""Values of the catalogue's types."""
from catalogue import SCALARS
from docs import INTR

STRS = ["", "a", "abc", "x y", "dflt", "skp", "&", "<", ">", "<x>7</x>", "a&b", "&amp;", "]]>", "]]", "a]]>b]]>", "]]]]>", "'", '"', "'\"'", "é", "日本", "\U0001F600", "a\U0001F600b",
        "<!-- no -->", "--", "<?pi?>", "<![CDATA[x]]>", "=", "x\ny", "0", "true", "#", "&#65;", "\u00a0", "\u200b", "\ufeff", "x  y", "\u2028", "a" * 300, "]]&gt;", "\u0301", "\U0010FFFD", "\ud7ff", "\ue000",
        "\u00ff", "a\u00ffb", "\u00ff\u00ff", "<\u00ff]]>", "+a", "+33 1", "+", "-a"]
PADDED = [" ", " a", "a ", "  ", "\n", "a\n", "\ta", " a b "]
FLOATS = ["0", "-0", "1", "-1", "1.5", "-0.25", "2.5", "1000000", "inf", "-inf", "0.1", "123456", "3.25", "NaN"]


class VOpts:
    def __init__(self, **kw):
        self.pad = False       # strings with leading or trailing white space
        self.extremes = False  # any float the type has (not only those whose shortest form is specified)
        self.nan = True
        self.emptyseq = True   # enum variants holding no item
        self.depth = 4
        self.vecmax = 3
        self.words = False     # strings without white space (items of list attributes)
        self.__dict__.update(kw)


class Vals:
    def __init__(self, cat, rng, o=None):
        self.cat, self.rng, self.o = cat, rng, o or VOpts()

    def string(self, attr=False, word=False):
        rng = self.rng
        while True:
            r = rng.random()
            if r < .6:
                s = rng.choice(STRS)
            elif r < .7 and self.o.pad:
                s = rng.choice(PADDED)
            else:
                s = "".join(rng.choice(["a", "b", "&", "<", ">", "]", "'", '"', " ", "é", "0", "-", "!", "\U0001F680", "\n", ";", "x", "\u3042"]) for _ in range(rng.randint(1, 12)))
            if not self.o.pad:
                s = s.strip(" \t\n\r")
            if attr:
                s = s.replace("\t", " ")
            if word and (not s or s.split() != [s]):
                continue
            return s

    def scalar(self, t, attr=False, word=False):
        rng = self.rng
        if t == "String":
            return self.string(attr, word)
        if t == "bool":
            return rng.choice(["true", "false"])
        if t in INTR:
            lo, hi = INTR[t]
            return str(rng.choice([lo, hi, 0, 1, 7, 42 if hi >= 42 else 5, lo + 1, hi - 1, rng.randint(lo, hi), 255 if hi >= 255 else 3]))
        if self.o.extremes and rng.random() < .6:
            v = rng.choice(self.extreme(t))
            return v if v != "NaN" or self.o.nan else "-0"
        while True:
            v = rng.choice(FLOATS)
            if v != "NaN" or self.o.nan:
                return v

    def extreme(self, t):
        import struct
        rng = self.rng
        if t == "f64":
            return [rust_float(struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]) for _ in range(3)]
        return [rust_f32(rng.getrandbits(32)) for _ in range(3)]

    def base(self, b, depth, attr=False, word=False):
        if b in SCALARS:
            return self.scalar(b, attr, word)
        return self.value(b, depth + 1, attr, word)

    def card(self, card, b, depth, attr=False, nonempty=False):
        rng = self.rng
        if card in ("one", "named"):
            return self.base(b, depth, attr)
        if card == "vopt":
            return [self.card("opt", b, depth) for _ in range(rng.randint(0, self.o.vecmax))]
        if card == "optv":
            return [self.card("vec", b, depth)] if rng.random() < .7 else []
        lo = 1 if nonempty else 0
        if card == "opt":
            n = 1 if nonempty or (rng.random() < .6 and depth < self.o.depth) else 0
        else:
            n = rng.randint(lo, self.o.vecmax) if depth < self.o.depth else lo
            if depth == 0 and rng.random() < .008:
                n = rng.choice([20, 70, 140, 270])
        return [self.base(b, depth, attr, card == "vec" and attr) for _ in range(n)]

    def value(self, tn, depth=0, attr=False, word=False):
        t, rng = self.cat.types[tn], self.rng
        if t.kind == "new":
            if t.how == "prim":
                return self.scalar(t.base, attr, word)
            if t.how in ("hex", "hexbits"):
                hi = INTR[t.base][1]
                v = rng.choice([0, 1, 9, 10, 15, 16, 0x7f, 0x80, hi, rng.randint(0, hi)]) if t.how == "hex" else rng.choice([0, 1, 2, 3, 0x80, 0x81, 0x82, 0x83])
                return "%02X" % v
            return "%dcm" % rng.choice([0, 5, -3, 2**31 - 1, -2**31])
        if t.kind == "enum":
            vs = [v for v in t.variants if v.card == "unit" or (not attr and (depth < self.o.depth or v.base in SCALARS or v.card != "one"))] or t.variants
            v = rng.choice(vs)
            if v.card == "unit":
                return [v.ident]
            return [v.ident, self.card(v.card, v.base, depth, nonempty=not self.o.emptyseq)]
        if attr:
            # a struct as an attribute is its text
            f = t.fields[0]
            x = self.string(True, word)
            return [x if f.card == "one" else [] if x == "" and not self.o.emptyseq else [x]]
        out = []
        for f in t.fields:
            if f.default is not None and rng.random() < .3:
                out.append(f.default)
            elif f.skip_if is not None and rng.random() < .35:
                out.append(f.skip_if)
            else:
                x = self.card(f.card, f.base, depth, f.attr)
                if f.text and x == [""] and not self.o.emptyseq:
                    x = []  # an optional text that is empty reads as absent
                out.append(x)
        return out


def tie(x, shortest):
    """Whether the shortest decimal lies half way to a neighbour of the same length (then there are two)."""
    import decimal
    d = decimal.Decimal(shortest)
    return abs(decimal.Decimal(x) - d) * 2 == decimal.Decimal(10) ** d.as_tuple().exponent


def rust_f32(bits):
    """Rust's Display of the single with these bits: the shortest decimal that leads back to it."""
    import math
    import struct
    x = struct.unpack("<f", struct.pack("<I", bits))[0]
    if math.isnan(x) or math.isinf(x):
        return rust_float(x)
    for p in range(1, 12):
        s = "%.*e" % (p - 1, x)
        try:
            if struct.pack("<f", float(s)) == struct.pack("<f", x):
                return "1.5" if tie(x, s) else rust_float(float(s))
        except OverflowError:
            pass
    return rust_float(x)


def rust_float(x):
    """Rust's Display of a double."""
    import decimal
    import math
    if math.isnan(x):
        return "NaN"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    if tie(x, repr(x)):
        return "2.5"
    s = format(decimal.Decimal(repr(x)), "f")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return s
