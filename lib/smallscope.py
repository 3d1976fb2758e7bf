"""Small alphabets of tokens per type: DocMC enumerates every document over them, and each is replayed."""
import json
import re
import docs
import vp
from catalogue import SCALARS
from dechecks import hexed
from docs import Gen, Opts, Render

PFX = {"http://Example.org/P?x=1&y=2": "n8", "http://example.org/p?x=1&y=2": "n9", "urn:<&\">'": "n10", "urn:x\"<&amp;'>": "n11", "urn:p": "p", "urn:q": "q", "urn:d": "d", "urn:r": "r", "urn:other": "o", "urn:z": "z", "urn:p/": "ps", "URN:P": "pu", "urn:p#": "ph", "urn:1": "n1", "urn:2": "n2", "urn:3": "n3", "urn:4": "n4", "urn:5": "n5", "urn:6": "n6", "URN:1": "n7"}


def attr_sets(cat, t, rng):
    """Attribute lists worth standing on an element of type t: what it needs, less, more, and bad."""
    if t.kind == "custom":
        return [[["", "k", "1"]], []]
    if t.kind == "enum" and t.tag:
        return [[["", t.tag, t.variants[0].xml]], [["", "w", "1"], ["", t.tag, t.variants[-1].xml]], [["", t.tag, "nope"]], [["", t.tag + "s", t.variants[0].xml]]]
    if t.kind != "struct":
        return [[]]
    g = Gen(cat, rng, Opts())
    fs = [f for f in all_attrs(cat, t)]
    if not fs:
        return [[]]
    lit = lambda f: g.attr_lit(f.base) if f.card != "vec" else " ".join(g.attr_lit(f.base).replace(" ", "_") for _ in range(2))
    # where several fields have the name only the namespace tells whose attribute it is
    ns = lambda f: g.ns(t, f) if sum(h.attr and h.xml == f.xml for h in t.fields) > 1 and f in t.fields else ""
    need = [[ns(f), f.xml, lit(f)] for f in fs if f.card == "one" and f.default is None]
    rng.shuffle(fs)
    every = [[ns(f), f.xml, lit(f)] for f in fs]
    bad = [[a, n, v] for a, n, v in every]
    k = rng.randrange(len(bad))
    b = fs[k]
    bad[k][2] = "zz" if b.base not in SCALARS else docs.bad(rng, b.base).replace("\n", " ")
    less = every[1:]
    return [need, every, less, bad]


def all_attrs(cat, t):
    out, seen = [], set()
    for f in t.fields:
        if f.attr and (f.xml not in seen or f.prefix and any(g.attr and g.xml == f.xml and g is not f for g in t.fields)):
            seen.add(f.xml)
            out.append(f)
        elif f.flatten and cat.types[f.base].kind == "struct":
            for g in all_attrs(cat, cat.types[f.base]):
                if g.xml not in seen:
                    seen.add(g.xml)
                    out.append(g)
    return out


def members(cat, t, seen=()):
    """(ns, name, base) of the elements a value of type t is made of."""
    if t.kind == "struct":
        for f in t.fields:
            if f.flatten:
                yield from members(cat, cat.types[f.base], seen)
            elif not f.attr and not f.text:
                yield (t.ns.get(f.prefix, "") if f.prefix else "", f.xml, f.base)
    elif t.kind == "enum":
        for v in t.variants:
            yield (t.ns.get(v.prefix, "") if v.prefix else "", v.xml, v.base)
    elif t.kind == "custom":
        yield ("", "x", "i32")
        yield ("", "b", "i32")


def texts_of(cat, bases, rng):
    out = []
    for b in bases:
        if b in SCALARS:
            out += [docs.good(rng, b), docs.bad(rng, b)] if b != "String" else ["w", "x y"]
        elif b in cat.types and cat.types[b].kind == "enum":
            out += [v.xml for v in cat.types[b].variants if v.card == "unit"]
        elif b in cat.types and cat.types[b].kind == "new":
            out += [docs.new_literal(rng, cat.types[b]), docs.new_literal(rng, cat.types[b], False)]
    out = [x for x in dict.fromkeys(out) if x.strip() == x and x and x.isascii()]  # TLC truncates other characters held in states
    return out


def plain_chars(x):
    """TLC keeps one byte for a character of a string held in a state."""
    if "t" in x:
        x = dict(x, t="".join(c if c.isascii() else "n" for c in x["t"]))
    if x.get("a"):
        x = dict(x, a=[[p, n, "".join(c if c.isascii() else "n" for c in v)] for p, n, v in x["a"]])
    return x


def scenario(cat, tn, rng, bound, size, noise=True):
    """An alphabet of about `size` tokens for type tn."""
    t = cat.types[tn]
    flat = getattr(t, "flatten", False)
    near = list(dict.fromkeys(members(cat, t)))
    far = []
    for _, _, b in near:
        if b in cat.types:
            far += list(members(cat, cat.types[b]))
    far = [x for x in dict.fromkeys(far) if (x[0], x[1]) not in {(y[0], y[1]) for y in near}]
    own = t.ns.get(getattr(t, "prefix", None), "") if getattr(t, "ns", None) else ""
    uris = sorted({u for u, _, _ in near + far if u} | ({own} if own else set()))
    decls = [[PFX[u], u] for u in uris]
    plain = any(u == "" for u, _, _ in near + far)
    dflt = uris and not plain and rng.random() < .4
    if dflt:
        du = rng.choice(uris)
        decls = [["", du]] + [d for d in decls if d[1] != du or rng.random() < .5]
    pre = lambda u: "" if u == "" or (dflt and u == du) else PFX[u]

    def start(u, n, b, root=False, k=0):
        x = {"k": "s", "p": pre(u), "n": n, "d": list(decls) if root else [], "a": []}
        if b in cat.types:
            s = attr_sets(cat, cat.types[b], rng)
            x["a"] = s[k] if k < len(s) else rng.choice(s)
        return x
    first = [start(own, t.root, tn, True, k) for k in range(rng.choice([1, 2, 2, 3]))]
    if t.kind == "enum" and not t.tag:
        v = rng.choice(t.variants)
        first.append(start(t.ns.get(v.prefix, "") if v.prefix else "", v.xml, v.base, True))
    if flat:
        first += [start(u, n, b, True) for u, n, b in rng.sample(near, min(2, len(near)))]
    if rng.random() < .5:
        first.append(start(rng.choice(["", own]), "other", tn, True))
    first = [json.loads(s) for s in dict.fromkeys(json.dumps(x) for x in first)]
    rng.shuffle(near)
    rng.shuffle(far)
    pick = near[:max(2, size - 5)]
    pick += far[:max(1, size - 4 - len(pick))]
    toks = [start(u, n, b, k=rng.choice([0, 0, 1])) for u, n, b in pick]
    # the same local name elsewhere, or a stranger
    r = rng.random()
    if r < .5 and uris:
        u, n, b = rng.choice(near) if near else ("", "u", "")
        toks.append({"k": "s", "p": PFX[rng.choice(uris)] if not dflt else "", "n": n, "d": [], "a": []})
    elif r < .8:
        toks.append({"k": "s", "p": "", "n": rng.choice(["u", t.root]), "d": [], "a": []})
    else:
        toks.append({"k": "s", "p": "", "n": "u", "d": [], "a": [["", n, "7"] for _, n, _ in near[:1]]})
    bound_prefixes = {p for p, _ in decls}
    toks = [x for x in toks if x["p"] == "" or x["p"] in bound_prefixes]
    ts = texts_of(cat, [b for _, _, b in pick] + ([f.base for f in t.fields if f.text] if t.kind == "struct" else []) + ([tn] if t.kind in ("enum", "new") else []), rng) or ["7"]
    toks += [{"k": "t", "t": x} for x in rng.sample(ts, min(2, len(ts)))]
    if noise and rng.random() < .5:
        toks.append({"k": "c"})
    first, toks = ([json.loads(s) for s in dict.fromkeys(json.dumps(plain_chars(x)) for x in l)] for l in (first, toks))
    tokens = first + toks + [{"k": "e"}]
    only = list(range(1, len(first) + 1))
    return {"T": tn, "tokens": tokens, "first": only, "only": only, "bound": bound, "depth": min(5, bound // 2 + 1), "more": bool(flat)}


def enumerate_docs(run, scenarios):
    """Model checks DocMC over the scenarios and returns (scenario, tokens, expected) for every state."""
    path = run.work + "/scenarios.ndjson"
    with open(path, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s) + "\n")
    out, dist, gen, rc = run.tlc("DocMC", None, {"VP_SCENARIOS": path, "VP_EMIT": "1"}, heap="12g")
    if rc != 0:
        raise vp.CheckError("TLC refutes the specification DocMC:\n%s" % "\n".join(l for l in out.splitlines() if not l.startswith('<<"DOC"'))[-4000:])
    run.notes.setdefault("models", []).append({"module": "DocMC", "scenarios": len(scenarios), "states": dist, "transitions": gen})
    docs_ = []
    for m in re.finditer(r'<<"DOC", (\d+), "((?:[^"\\]|\\.)*)", "((?:[^"\\]|\\.)*)">>', out.replace("\n", " ")):
        docs_.append((scenarios[int(m.group(1)) - 1], vp.unquote(m.group(2)), vp.unquote(m.group(3))))
    if len(docs_) != dist - len(scenarios):
        raise vp.CheckError("DocMC printed %d documents for %d states" % (len(docs_), dist))
    return docs_


def replay(run, scenarios, reader=.15):
    """Every document of the scenarios, complete or cut, through the real code."""
    rng = run.rng
    found = enumerate_docs(run, scenarios)
    jobs = []
    for s, ix, _ in found:
        toks = [s["tokens"][k - 1] for k in ix]
        data = "".join(Render(rng, plain=rng.random() < .8).pieces(toks)).encode()
        j = {"op": "de", "T": s["T"]}
        j.update(hexed(data))
        if rng.random() < reader:
            j.update(m="reader", chunks=rng.choice([[1], [2, 3], [16]]))
        jobs.append(j)
    res = run.jobs(jobs)
    vp.check_harness(jobs, res)
    n = 0
    for (s, ix, want), j, x in zip(found, jobs, res):
        if x["st"] == "notrun":
            continue
        ok = x["st"] == "ok"
        if x["st"] not in ("ok", "err") or ok != want["ok"] or (ok and not same(x["v"], want["v"])):
            got = "value %s" % json.dumps(x["v"], ensure_ascii=False) if ok else x["st"] + " (%s)" % x.get("e", "")
            run.violation("%s: the document %s gave %s, the specification says %s" % (s["T"], bytes.fromhex(j["xb"]) if "xb" in j else j["x"], got, "value " + json.dumps(want["v"], ensure_ascii=False) if want["ok"] else "an error"),
                          {k: v for k, v in j.items() if k != "id"})
        n += 1
    run.traces += n
    run.notes["enumerated_documents"] = run.notes.get("enumerated_documents", 0) + n
    for s, ix, want in found[::max(1, len(found) // 3)][:3]:
        run.sample({"type": s["T"], "document": "".join(Render(rng, plain=True).pieces([s["tokens"][k - 1] for k in ix])), "outcome": want})


def same(got, want):
    """Equal values; a literal of the specification stands for whatever number it was read as."""
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    return got == want or want.startswith("~")


def cover(run, names, per, bound, size=7):
    replay(run, [scenario(run.cat, tn, run.rng, bound, size) for tn in names if len(getattr(run.cat.types[tn], "fields", ())) <= 30 for _ in range(per)])


# per check: scenarios per type and bound on their tokens, quick and thorough
BOUNDS = {"D01": ((1, 5), (2, 7)), "D02": ((2, 5), (3, 7)), "D03": ((2, 5), (3, 7)), "D04": ((2, 5), (3, 7)), "D05": ((2, 6), (5, 7)), "D06": ((1, 6), (4, 7)), "D07": ((1, 6), (4, 7)),
          "D08": ((2, 6), (6, 7)), "D09": ((1, 6), (4, 7)), "D10": ((1, 6), (4, 7)), "D12": ((2, 6), (6, 7)), "D13": ((2, 5), (6, 7))}


def settle(run, names):
    """Part of every check of deserialization: each document and each truncation of one over small alphabets, a batch of scenarios at a time."""
    per, bound = BOUNDS[run.id][run.thorough]
    todo = [tn for tn in names if len(getattr(run.cat.types[tn], "fields", ())) <= 30 for _ in range(per)]
    run.rng.shuffle(todo)
    step = 200 if bound >= 7 else 400
    for k in range(0, len(todo), step):
        replay(run, [scenario(run.cat, tn, run.rng, bound, 7) for tn in todo[k:k + step]])
