"""Long lists: the specification judges a list whose last item stands twice; the code gets that item n times, and in what it gives back n times
the same stands for twice, n + 1 times for three times (any other large number for once, which the specification refuses)."""
import json

# the first lists of a kind get the sizes in this order, further ones any of them
SIZES = [66000, 257, 5000, 300, 1025, 70000]


def places(cat, tn, v, at=()):
    """Where v, a value of the type tn, has lists with items: paths of indices into the JSON value."""
    t = cat.types[tn]
    out = []

    def of(card, base, x, here, kind):
        if card == "vec":
            if x:
                item = cat.types[base].kind if base in cat.types else base if base in ("String", "bool") else "number"
                out.append((here, kind + " of " + item))
            for i, y in enumerate(x):
                inner(base, y, here + (i,))
        elif card == "opt":
            if x:
                inner(base, x[0], here + (0,))
        elif card == "one":
            inner(base, x, here)

    def inner(base, y, here):
        if base in cat.types:
            out.extend(places(cat, base, y, here))
    if t.kind == "struct":
        for i, f in enumerate(t.fields):
            if isinstance(v, list) and i < len(v):
                of(f.card, f.base, v[i], at + (i,), "attribute" if f.attr else "flattened" if f.flatten else "child")
    elif t.kind == "enum" and isinstance(v, list) and len(v) == 2:
        w = [w for w in t.variants if w.ident == v[0]]
        if w and w[0].card in ("one", "opt", "vec"):
            of(w[0].card, w[0].base, v[1], at + (1,), "variant")
    return out


def change(v, path, f):
    if not path:
        return f(v)
    return v[:path[0]] + [change(v[path[0]], path[1:], f)] + v[path[0] + 1:]


def twice(v, path):
    return change(v, path, lambda l: l + [l[-1]])


def many(v, path, n):
    """The value the code gets: the last two items of the list, which are the same, n times instead."""
    return change(v, path, lambda l: l[:-2] + [l[-1]] * n)


def shrink(x, n):
    """x with every run of n equal groups of items made two groups."""
    if isinstance(x, dict):
        return {k: shrink_words(y, n) if k == "a" else shrink(y, n) for k, y in x.items()}
    if not isinstance(x, list):
        return x
    return [shrink(y, n) for y in fold(x, n)]


def shrink_words(attrs, n):
    return [[p, k, " ".join(fold(w.split(" "), n)) if w.count(" ") > 100 else w] for p, k, w in attrs]


def fold(x, n):
    if len(x) < 100:
        return x
    keys = [json.dumps(y) for y in x]
    for p in range(1, 9):
        i = 0
        while i + p < len(x):
            m = 1
            while keys[i + m * p:i + (m + 1) * p] == keys[i:i + p]:
                m += 1
            if m >= 100:
                return fold(x[:i + (2 + m - n if 0 <= m - n < 9 else 1) * p] + x[i + m * p:], n)
            i += 1
    return x


def some(cat, rng, names, value, per, limit):
    """(type, value for the specification, path, n) for lists of every kind the types have."""
    cands = []
    for tn in names:
        for _ in range(per):
            for _ in range(6):
                v = value(tn)
                ps = places(cat, tn, v)
                if ps and "\u00ff" not in json.dumps(v, ensure_ascii=False):
                    p, kind = rng.choice(ps)
                    cands.append((kind, tn, twice(v, p), list(p)))
                    break
    rng.shuffle(cands)
    seen, out = {}, []
    for kind, tn, v, p in cands:
        k = seen[kind] = seen.get(kind, 0) + 1
        if k <= 2:
            out.insert(0, (kind, tn, v, p, SIZES[k - 1]))
        else:
            out.append((kind, tn, v, p, rng.choice(SIZES[1:5])))
    return out[:limit], sorted(seen)
