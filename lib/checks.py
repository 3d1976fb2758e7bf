"""The checks, one per property."""
import json
import random
import catalogue
import docs
import longlists
import rustgen
import vals
import vp
from dechecks import DeBatch, hexed, show, spellings
from docs import Gen, Opts, Render, Surface, el, mess, tx
from serchecks import SerBatch

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def start(run, names=None, tags=None, more=()):
    """Builds the harness for the part of the catalogue a check needs."""
    full = catalogue.build()
    for t in more:
        full.add(t)
    ns = list(names or []) + (full.tagged(*tags) if tags else [])
    cat = full.subset(ns) if ns else full
    err = run.build(cat)
    if err:
        raise vp.CheckError("the declarations of the catalogue do not compile:\n" + err[-3000:])
    return cat


def roots(cat, *tags):
    return [n for n in (cat.tagged(*tags) if tags else cat.order) if cat.types[n].kind not in ("new", "custom") and "seronly" not in cat.types[n].tags]


def ser_roots(cat, *tags):
    return [n for n in (cat.tagged(*tags) if tags else cat.order) if cat.types[n].kind != "custom" and not rustgen.de_only(cat, cat.types[n]) and "known" not in cat.types[n].tags]


def doc_tokens(run, cat, tn, o, plain=False, **surf):
    g = Gen(cat, run.rng, o)
    return Surface(run.rng, plain=plain, **surf).tokens(g.doc(tn))


def de_mix(run, b, names, per, opts, spell=1, plainp=.3):
    """`per` documents for every type, with the option sets in turn."""
    for tn in names:
        for k in range(per):
            o = opts[k % len(opts)]
            t = doc_tokens(run, run.cat, tn, o, plain=run.rng.random() < plainp)
            b.add(tn, t, spellings(run, t, spell))


def scale(run, quick, thorough):
    return thorough if run.thorough else quick


# ------------------------------------------------------------------ deserialization
@check("D02")
def d02(run):
    start(run, tags=["base", "attr", "text", "hascustom", "ns", "rec", "gen"])
    b = DeBatch(run)
    de_mix(run, b, roots(run.cat), scale(run, 60, 1500),
           [mess(unknown=.5, text=.2, unkattr=.3, nested=.1), mess(unknown=.7, nested=.3, wrongns=.2), Opts(unknown=.6), Opts(unknown=.3, unkattr=.5, text=.4, rootname=.5)])
    b.run()


@check("D03")
def d03(run):
    start(run, tags=["base", "attr", "text", "default", "enum"])
    b = DeBatch(run)
    de_mix(run, b, roots(run.cat), scale(run, 60, 1500),
           [Opts(missing=.3), Opts(dup=.5, vecmax=5), Opts(missing=.15, dup=.3, badlit=.2), Opts(vecmax=8, optp=.9), mess(missing=.15, dup=.3)])
    # the order of children of different fields: the same children in every arrangement TLC judges alike
    for tn in roots(run.cat, "base"):
        for _ in range(scale(run, 6, 60)):
            g = Gen(run.cat, run.rng, Opts(dup=.3, missing=.1, vecmax=2))
            d = g.doc(tn)
            kids = d[0]["c"]
            for _ in range(4):
                d2 = [dict(d[0], c=interleave(run.rng, kids))]
                t = Surface(run.rng, plain=True).tokens(d2)
                b.add(tn, t, spellings(run, t, 1, chunked=False))
    b.run()


def interleave(rng, kids):
    """Shuffles children of different names, keeping the order of those with the same name."""
    by = {}
    for x in kids:
        by.setdefault(x.get("n", "#text") + x.get("ns", ""), []).append(x)
    q = [list(v) for v in by.values()]
    out = []
    while q:
        v = rng.choice(q)
        out.append(v.pop(0))
        q = [v for v in q if v]
    return out


@check("D04")
def d04(run):
    start(run, tags=["scalar", "newtype"])
    b = DeBatch(run)
    rng = run.rng
    for t in catalogue.SCALARS:
        lits = set()
        if t == "String":
            lits |= set(docs.STR_GOOD)
        elif t == "bool":
            lits |= {"true", "false", "1", "0"} | set(docs.BOOL_BAD)
        elif t in docs.INTR:
            lo, hi = docs.INTR[t]
            lits |= set(docs.INT_BAD) | {str(x) for x in (lo, lo - 1, lo + 1, hi, hi + 1, hi - 1, 0, 1, -1, hi * 10, lo * 10, hi + 256, 2 * (hi + 1), 2**64, 2**63, 2**32, 2**31, 2**16, 2**8, -2**63 - 1)}
            lits |= {"+" + str(hi), "00" + str(hi), "+" + str(hi + 1), "-0", "+0", "0" * 40 + "7", str(hi)[:-1] + "a", " " + str(hi), str(hi) + ".0"}
            lits |= {str(rng.randint(lo - 5, hi + 5)) for _ in range(scale(run, 10, 200))}
        else:
            lits |= set(docs.FLOAT_GOOD) | set(docs.FLOAT_BAD)
            for _ in range(scale(run, 20, 400)):
                ip = str(rng.randint(0, 99)) if rng.random() < .8 else ""
                fp = rng.choice(["", "."]) + (str(rng.randint(0, 999)) if rng.random() < .7 else "")
                fp = fp if fp.startswith(".") else ""
                ex = rng.choice(["", "", "e", "E"]) + rng.choice(["", "+", "-"]) + str(rng.randint(0, 12)) if rng.random() < .4 else ""
                lits.add(rng.choice(["", "-", "+"]) + ip + fp + ex)
        for s in sorted(lits):
            tight = s.strip(" \t\n\r") == s and "\n" not in s and "\t" not in s
            for tn, a, c in [("El" + t, [], [el("one", c=[tx(s)])]), ("El" + t, [], [el("one", c=[tx(s)]), el("opt", c=[tx(s)]), el("vec", c=[tx(s)]), el("vec", c=[tx(s)])]),
                             ("El" + t, [], [el("one", c=[tx("1" if t != "bool" else "true")]), el("opt", c=[tx(s)])]),
                             ("Df" + t, [], [el("d", c=[tx(s)])]), ("Df" + t, [["", "da", s]], []),
                             ("At" + t, [["", "one", s]], []), ("At" + t, [["", "one", "1" if t != "bool" else "0"], ["", "opt", s]], []), ("At" + t, [["", "opt", s]], []),
                             ("Av" + t, [["", "list", s]], []), ("Av" + t, [["", "list", s + " " + ("1" if t != "bool" else "true")]], [el("el", c=[tx(s)])]),
                             ("En" + t, [], [el("One", c=[tx(s)])]), ("En" + t, [], [el("Opt", c=[tx(s)])]), ("En" + t, [], [el("many", c=[tx(s)]), el("many", c=[tx(s)])]),
                             ("Nt" + t, [], [tx(s)])]:
                if tn.startswith("Av") and ("\u00a0" in s or "\u2028" in s):
                    continue
                toks = Surface(rng, plain=rng.random() < .7).tokens([el(tn, "", a, [x for x in c if not (x["k"] == "e" and x["c"] and x["c"][0].get("t") == "" and x["c"].clear())])])
                b.add(tn, toks, spellings(run, toks, 1))
            if tight and not any(ch in s for ch in "&<>"):
                toks = Surface(rng, plain=True).tokens([el("Hn" + t, "", [["", "a", s]], [el("e", c=[tx(s)]), el("p", c=[tx(s)])])])
                b.add("Hn" + t, toks, spellings(run, toks, 1))
    # every 8-bit number there is
    for t, lo, hi in (("i8", -140, 140), ("u8", -5, 270)):
        for n in range(lo, hi):
            toks = Surface(rng, plain=True).tokens([el("El" + t, c=[el("one", c=[tx(str(n))]), el("vec", c=[tx("%+d" % n)])])])
            b.add("El" + t, toks, spellings(run, toks, 1, chunked=False))
    de_mix(run, b, roots(run.cat, "scalar"), scale(run, 8, 200), [Opts(badlit=.3, badattr=.2), mess(badlit=.3)])
    b.run()


@check("D05")
def d05(run):
    start(run, tags=["ns", "rootflatde"], names=["Pair", "Color", "Shape", "Homonym", "FlNs"])
    b = DeBatch(run)
    de_mix(run, b, roots(run.cat, "ns", "rootflatde") + ["Pair", "Color", "Shape", "Homonym"], scale(run, 250, 5000),
           [Opts(wrongns=.0, optp=.8), Opts(wrongns=.3, optp=.8), mess(wrongns=.2, unknown=.3), Opts(wrongns=.5)], plainp=.1)
    # every namespace at the root and at every field
    rng = run.rng
    for tn in roots(run.cat, "ns", "rootflatde") + ["Pair", "Color"]:
        t = run.cat.types[tn]
        own = sorted({n for u in (getattr(t, "ns", None) or {}).values() for n in docs.near_uris(u)} - set(docs.URIS))
        for u in docs.URIS + own:
            for _ in range(scale(run, 2, 10) if u in docs.URIS else scale(run, 1, 5)):
                d = Gen(run.cat, rng, Opts(optp=.8)).doc(tn)
                d[0]["ns"] = u
                toks = Surface(rng).tokens(d)
                b.add(tn, toks, spellings(run, toks, 2))
                d = Gen(run.cat, rng, Opts(optp=.9)).doc(tn)
                for x in d[0]["c"]:
                    if x["k"] == "e" and rng.random() < .6:
                        x["ns"] = u
                toks = Surface(rng).tokens(d)
                b.add(tn, toks, spellings(run, toks, 1))
    b.run()


@check("D06")
def d06(run):
    start(run, tags=["attr", "text", "cdata"], names=["HasEnum", "HasHex", "HasDisp", "Hom2", "Ren", "Tree", "NsDef", "FlE", "FlT", "FlC"])
    b = DeBatch(run)
    de_mix(run, b, roots(run.cat), scale(run, 120, 3000),
           [Opts(unkattr=.3, badattr=.1), mess(text=.4, unkattr=.4), mess(missing=.3, badattr=.15), Opts(missing=.2, optp=.8), mess(nested=.3, unknown=.4)])
    # the same name as attribute, child, unknown attribute of a child, in every combination
    rng = run.rng
    for tn in ["Attrs", "Hom2", "TxtA", "TxtM", "TxtO"]:
        t = run.cat.types[tn]
        names = sorted({f.xml for f in t.fields} | {"lang", "item"})
        for _ in range(scale(run, 80, 1500)):
            a = [["", n, rng.choice(["1", "true", "x", "7"])] for n in names if rng.random() < .5]
            c = []
            for n in names:
                if rng.random() < .5:
                    c.append(el(n, "", [["", m, rng.choice(["1", "true", "z"])] for m in names if rng.random() < .4], [tx(rng.choice(["7", "true", "q"]))] if rng.random() < .8 else []))
                if rng.random() < .3 and (not c or c[-1]["k"] == "e"):
                    c.append(tx(rng.choice(["text", "7", "x y"])))
            toks = Surface(rng, plain=rng.random() < .5).tokens([el(t.root, "", a, c)])
            b.add(tn, toks, spellings(run, toks, 1))
    b.run()


NAMES_NEAR = ["other", "Kind", "kin", "value", "Red", "foo", "Circle"]


@check("D07")
def d07(run):
    start(run, tags=["enum"])
    b = DeBatch(run)
    de_mix(run, b, roots(run.cat, "enum"), scale(run, 120, 3000),
           [Opts(missing=.2, badlit=.1), Opts(unknown=.4, text=.3), mess(mix=.3, dup=.3), mess(unknown=.5, text=.3, mix=.2), Opts(badlit=.3, vecmax=4)])
    # small contents of an enumeration, all sequences of up to three pieces
    rng = run.rng
    for tn in ["Color", "Shape", "Multi", "KindE", "Tagged", "Chain", "EnNew", "Eni32"]:
        t = run.cat.types[tn]
        pieces = []
        for v in t.variants:
            pieces += [el(v.xml), el(v.xml, c=[tx("7")]), tx(v.xml)]
            if v.base in run.cat.types:
                a, c = Gen(run.cat, rng, Opts()).content(run.cat.types[v.base], 2)
                pieces += [el(v.xml, "", a, c)]
            if v.base in run.cat.types or v.card != "unit":
                pieces += [el(v.xml, c=[el(v.xml)]), el(v.xml, c=[tx("zz"), el("k")])]
        for v in t.variants:
            pieces += [tx(docs.near_text(rng, v.xml)), tx(docs.near_text(rng, v.xml)), el(docs.near_name(rng, v.xml), c=[tx("7")])]
        pieces += [el("unk"), el("unk", c=[el(t.variants[0].xml)]), el("unk", c=[tx(t.variants[0].xml)]), tx("nope"), el(t.root), el(t.root, c=[el(t.variants[-1].xml, c=[tx("7")])])]
        combos = [[]] + [[p] for p in pieces] + [[p, q] for p in pieces for q in pieces]
        if len(combos) > scale(run, 500, 5000):
            combos = rng.sample(combos, scale(run, 500, 5000))
        combos += [[rng.choice(pieces) for _ in range(3)] for _ in range(scale(run, 100, 2000))]
        for c in combos:
            c = merge_text(c)
            a = []
            if t.tag and rng.random() < .7:
                a = [["", t.tag, rng.choice([v.xml for v in t.variants] + ["zz"] + [docs.near_text(rng, v.xml) for v in t.variants])]]
            if rng.random() < .2:
                a.insert(rng.randint(0, len(a)), ["", rng.choice(NAMES_NEAR), rng.choice(["1", t.variants[0].xml])])
            toks = Surface(rng, plain=True).tokens([el(rng.choice([t.root, t.root, "other"]), "", a, c)])
            b.add(tn, toks, spellings(run, toks, 1, chunked=False))
    # a variant as the root element
    for tn in ["Color", "Shape", "Multi", "KindE", "NsEnum", "EnNew"]:
        t = run.cat.types[tn]
        for v in t.variants:
            for _ in range(scale(run, 6, 50)):
                x = Gen(run.cat, rng, mess()).variant_el(t, v, 1)
                toks = Surface(rng).tokens([x])
                b.add(tn, toks, spellings(run, toks, 1))
    b.run()


def merge_text(c):
    out = []
    for x in c:
        if x["k"] == "t" and out and out[-1]["k"] == "t":
            out[-1] = tx(out[-1]["t"] + x["t"])
        else:
            out.append(json.loads(json.dumps(x)))
    return out


@check("D08")
def d08(run):
    start(run, tags=["flat", "flatten", "rootflat", "rootflatde"])
    b = DeBatch(run)
    de_mix(run, b, roots(run.cat), scale(run, 250, 6000),
           [Opts(optp=.7), Opts(missing=.15, dup=.2), mess(unknown=.4), mess(text=.3, unkattr=.0), Opts(missing=.3, unknown=.3, badlit=.1), mess(missing=.2, nested=.1, wrongns=.1)])
    b.run()


@check("D09")
def d09(run):
    start(run, names=["Deep", "Attrs", "TxtF", "TxtM", "Ren", "HasEnum", "HasShape", "HasMulti", "NsA", "NsDef", "FlB", "FlC", "FlD", "FlE", "HasHex", "Tagged", "HcAll", "Cd", "Tree", "ElString", "Avi32", "RootFl", "HcMix", "Elf64"])
    b = DeBatch(run)
    rng = run.rng
    for tn in roots(run.cat):
        for k in range(scale(run, 12, 150)):
            o = [Opts(optp=.8), mess(), Opts(unknown=.3)][k % 3]
            tree = Gen(run.cat, rng, o).doc(tn)
            for s in range(scale(run, 4, 10)):
                toks = Surface(rng, plain=(s == 0), comments=.3, pis=.2).tokens(tree)
                sp = []
                for j in range(3):
                    by = Render(rng, plain=(j == 0 and s == 0)).bytes(toks)
                    x = hexed(by)
                    if j:
                        x.update(m="reader", chunks=rng.choice([[1], [2], [3, 1], [1, 7, 2], [5], [64], [len(by) // 2 + 1], [len(by)]]), intr=rng.random() < .4)
                    sp.append(x)
                if s:
                    by = Render(rng, plain=False).encoded(toks)
                    sp.append(dict(hexed(by), m="reader", chunks=rng.choice([[1], [3, 1], [64], [len(by)]])))
                b.add(tn, toks, sp)
    b.run()


@check("D10")
def d10(run):
    start(run, names=["Deep", "Attrs", "TxtA", "TxtM", "HasEnum", "HasShape", "HasMulti", "Color", "Shape", "NsA", "FlB", "FlC", "FlD", "FlE", "HasHex", "Tagged", "HcAll", "HcNone", "HcStart", "HcFirst", "EcNone", "EcStart", "Tree", "ElString", "Nti32", "Disp",
                      "Hxu8", "HcMix", "RootFl", "RootEn", "Df" + "i32", "Empty", "Multi", "Chain"])
    rng = run.rng
    b = DeBatch(run)
    names = [n for n in run.cat.order if run.cat.types[n].kind != "custom" and n in run.cat.types]
    focus = [n for n in ["Deep", "Attrs", "TxtA", "TxtM", "HasEnum", "HasShape", "HasMulti", "Color", "Shape", "NsA", "FlB", "FlC", "FlD", "FlE", "HasHex", "Tagged", "HcAll", "HcNone", "HcStart", "HcFirst", "EcNone", "EcStart", "Tree", "ElString", "Nti32",
                         "Disp", "Hxu8", "HcMix", "RootFl", "RootEn", "Dfi32", "Empty", "Multi", "Chain"]]
    # truncation and read failure at every byte
    todo = []
    for tn in focus:
        for k in range(scale(run, 3, 30)):
            toks = doc_tokens(run, run.cat, tn, [Opts(optp=.7, vecmax=2), mess()][k % 2], plain=(k % 3 == 0))
            r = Render(rng, plain=(k % 2 == 0))
            p = r.pieces(toks)
            data = "".join(p).encode()
            ends, pos = [], 0
            for x in p:
                pos += len(x.encode())
                ends.append(pos)
            cuts = list(range(len(data) + 1))
            if len(cuts) > 400:
                cuts = sorted(rng.sample(cuts, 400))
            tail = rng.choice(["", "", "<", "<<", "garbage", "</x>", "&", "<a"]) if not run.cat.types[tn].kind == "x" else ""
            flat = getattr(run.cat.types[tn], "flatten", False)
            todo.append((tn, toks, p, ends, data, cuts, "cut"))
            todo.append((tn, toks, p, ends, data, cuts, "fail"))
            if not flat:
                # whatever follows the element
                for tail in ["<", "</x>", "<a>", "&", "<b/>", "\x00"]:
                    b.add(tn, toks, [hexed(data + tail.encode())], why="followed by " + repr(tail))
    jobs = [{"op": "cuts", "T": tn, "xb": data.hex(), "cuts": cuts, "how": how} for tn, _, _, _, data, cuts, how in todo]
    res = run.jobs(jobs)
    vp.check_harness(jobs, res)
    lines, info = [], []
    for (tn, toks, p, ends, data, cuts, how), j, x in zip(todo, jobs, res):
        if x["st"] != "ok":
            run.violation("%s: deserializing prefixes of %s ended in a %s" % (tn, data.decode(), x["st"]), dict(j, outcome=x["st"]))
            continue
        flat = getattr(run.cat.types[tn], "flatten", False)
        for c, o in zip(cuts, x["r"]):
            if o["st"] not in ("ok", "err"):
                run.violation("%s: deserializing %s (%s at byte %d) ended in a %s" % (tn, data[:c].decode(errors="replace"), how, c, o["st"]), {"T": tn, "xb": data.hex(), "cut": c, "how": how})
                continue
            k = sum(1 for e, q in zip(ends, p) if e <= c)  # tokens fully there
            tk = list(toks[:len(toks)])
            # pieces and tokens correspond one to one
            part = c > (ends[k - 1] if k else 0) and k < len(toks)
            pre = toks[:k] + ([{"k": "u"}] if part or (how == "fail" and k < len(toks)) else [])
            if flat and how == "fail":
                pre = toks[:k] + [{"k": "u"}]
            if not pre:
                pre = [{"k": "u"}]
            lines.append({"T": tn, "x": pre, "ok": o["st"] == "ok", "v": o.get("v", "") if o["st"] == "ok" else "", "cmp": "full"})
            info.append((tn, data, c, how, o))
            run.evals += 1
    # many cuts fall into the same token: judge each distinct one once
    uniq, back = {}, []
    for l, i in zip(lines, info):
        key = json.dumps([l["T"], l["x"], l["ok"], l["v"]])
        if key not in uniq:
            uniq[key] = (dict(l), i)
    part = list(uniq.values())
    for i, exp in run.validate("DeTrace", [l for l, _ in part], None):
        l, (tn, data, c, how, o) = part[i]
        run.violation("%s: the input %s (%s after byte %d of %s) gave %s, the specification says %s" % (tn, data[:c].decode(errors="replace"), how, c, data.decode(), o, exp), {"T": tn, "xb": data.hex(), "cut": c, "how": how})
    run.notes["input_prefixes"] = len(lines)
    # malformed pieces anywhere
    BADS = ["<", "</nope>", "&nope;", "&;", "<a b=c>", "<a b='1' b='2'>", "<a b>", "<1a>", "<!x>", "<zz:a>", "<a zz:b='1'>", "<![CDATA[", "<!--", "<a>", "<a><b></a></b>", "&#xZZ;", "& ", "<?xml version='1.0'?>", "<a", "<a b='<'>", "&#0;", "&#xD800;", "&#xDFFF;", "&#x110000;", "&#xFFFFFFFFF;", "<a b='&#xD801;'/>", "<a b='&nope;'/>", "<a b='&;'/>", "<a b='&#55555;'/>", "<a b='1'c='2'/>", "<a b/>", "<a =1/>", "</>", "<>", "< a/>", "<a / >", "<!DOCTYPE a>", "<?xml version='2.0'?>", "<![cdata[x]]>", "<a:/>", "<:a/>", "<!-", "<b:c/>", "&#1;", "&#xFFFF;", "&amp", "&#65", "&lt ;", "&nbsp;", "&copy;", "&eacute;", "&AMP;", "&Lt;", "&#x;", "&#;", "&#-1;", "&#x 41;", "&#X41;", "&quot", "&apos ;", "<a b='&nbsp;'/>", "<a b=\"&QUOT;\"/>", "&#x110041;", "&#4294967361;"]
    for tn in focus:
        for k in range(scale(run, 25, 300)):
            toks = doc_tokens(run, run.cat, tn, [Opts(optp=.7, vecmax=2), mess()][k % 2], plain=(k % 3 == 0))
            pos = rng.randint(1, len(toks) - 1)
            t2 = toks[:pos] + [{"k": "x", "raw": rng.choice(BADS)}] + toks[pos:]
            raw = t2[pos]["raw"]
            depth = 0
            for t in toks[:pos]:
                depth += 1 if t["k"] == "s" else -1 if t["k"] == "e" else 0
            if depth == 0:
                continue
            p = Render(rng, plain=True).pieces(t2)
            b.add(tn, [{kk: v for kk, v in t.items() if kk != "raw"} for t in t2], [hexed("".join(p).encode())], why="malformed by " + raw)
    # what stands before the root element
    H = "<?xml version='1.0'?>"
    HEADS = [x + H for x in (" ", "\n", "\t", "\r\n", "<!-- c -->", "<!---->", "<?pi?>", H, H + "\n", "x", "&#32;", "]]>", "\0")] + [
        H + x for x in ("x", "]]>", "&#32;", "&amp;", "<![CDATA[ ]]>", "</a>", "<!ELEMENT a ANY>", "<!doctype a>", "<!DOCTYPE a><!DOCTYPE a>", "<!-- a -- b -->", "<!-- a --->", "<?xml?>", "<", "< ", "\0", "\u00e9")] + [
        "<?xml encoding='utf-8'?>", "<?xml version='1.0' standalone='maybe'?>", "<?xml version='3.0'?>", "<?xml version='1.0' encoding='bogus'?>", "<?xml?>", "<?xml version=1.0?>", "<?xml version='1.0' standalone='yes' encoding='utf-8'?>",
        "<?xml version='1.0' version='1.0'?>", "<?xml version='1.0'>", "<?xml version='1.0' foo='1'?>", "<?XML version='1.0'?>", "<?xml version='1.0", "\ufeff " + H, "\ufeff\ufeff" + H, "\u00a0" + H, "\u2003", "\u00a0"]
    for tn in focus:
        for k, head in enumerate(HEADS if not run.thorough else HEADS * 6):
            toks = doc_tokens(run, run.cat, tn, [Opts(optp=.7, vecmax=2), mess()][k % 2], plain=True)
            b.add(tn, [{"k": "x"}] + toks, [hexed((head + "".join(Render(rng, plain=k % 2 == 0).pieces(toks))).encode())], why="malformed by its start " + head)
    # an element closed by another's tag, and crossing elements
    for tn in focus:
        for k in range(scale(run, 10, 100)):
            toks = doc_tokens(run, run.cat, tn, Opts(optp=.8), plain=True)
            ends = [i for i, t in enumerate(toks) if t["k"] == "e"]
            i = rng.choice(ends)
            t2 = [dict(t) for t in toks]
            t2[i] = {"k": "x", "raw": "</other-name>"}
            if rng.random() < .3:
                t2 = [t for n, t in enumerate(toks) if n != i]
                names, out, ok = [], [], True
                # a missing end tag: the enclosing one does not match any more
                b2 = [{"k": "x", "raw": ""} if n == i else t for n, t in enumerate(toks)]
                p = Render(rng, plain=True).pieces([t if n != i else {"k": "x", "raw": ""} for n, t in enumerate(toks)])
                last = len(toks) - 1
                if i == last:
                    spec = toks[:last] + [{"k": "u"}]
                else:
                    continue
                b.add(tn, spec, [hexed("".join(p).encode())], why="unclosed")
                continue
            p = Render(rng, plain=True).pieces(t2)
            b.add(tn, [{kk: v for kk, v in t.items() if kk != "raw"} for t in t2], [hexed("".join(p).encode())], why="mismatched end tag")
    b.run()


@check("D12")
def d12(run):
    start(run, tags=["hascustom"], names=["HnString", "Hni32", "Hnbool", "HasHex", "HasDisp", "EnNew", "HasEnNew", "GenN", "TxtM", "TxtF", "FlE"])
    b = DeBatch(run)
    # text of the element around, next to the elements of its fields
    de_mix(run, b, ["HcTxt", "TxtM", "TxtF", "FlE"], scale(run, 250, 4000),
           [Opts(optp=.8), Opts(text=.6, optp=.8), mess(text=.6, emptyel=.2), Opts(text=.6, unknown=.4, nested=.3)])
    # newtypes stop at their text; without any they stop at once
    de_mix(run, b, ["HnString", "Hni32", "Hnbool", "HasHex", "HasDisp", "EnNew", "HasEnNew", "GenN"], scale(run, 60, 1500),
           [Opts(optp=.8, emptyel=.3), Opts(emptyel=.5, dup=.3, vecmax=4), mess(unknown=.3, emptyel=.3), mess(nested=.3, text=.2), Opts(badlit=.2, emptyel=.2)])
    de_mix(run, b, roots(run.cat, "hascustom"), scale(run, 220, 5000),
           [Opts(optp=.8), Opts(dup=.3, vecmax=4), mess(unknown=.3, emptyel=.2), mess(nested=.1, text=.2), Opts(unknown=.4, emptyel=.2)])
    b.run()


@check("D13")
def d13(run):
    start(run, tags=["newtype"], names=["GenN", "HcMix"])
    rng = run.rng
    b = DeBatch(run)
    de_mix(run, b, roots(run.cat, "newtype") + ["GenN", "HcMix"], scale(run, 60, 1500),
           [Opts(optp=.8), Opts(badlit=.25), mess(badlit=.15), Opts(badattr=.3), mess(unknown=.4, text=.3)])
    for tn in run.cat.order:
        t = run.cat.types[tn]
        if t.kind != "new":
            continue
        lits = {docs.new_literal(rng, t, True) for _ in range(scale(run, 25, 300))} | {docs.new_literal(rng, t, False) for _ in range(scale(run, 15, 200))}
        if t.how in ("hex", "hexbits"):
            hi = docs.INTR[t.base][1]
            lits |= {"%x" % v for v in (0, 9, 10, 15, 16, 17, 99, 100, 255, 254, hi, hi - 1) if v <= hi} | {"%X" % (hi + 1), "0" * 20 + "A", "+a", "-a", "0xA", "10", "11", "aB", "g", "1 "}
        for s in sorted(lits):
            toks = Surface(rng, plain=rng.random() < .5).tokens([el(rng.choice([tn, "any"]), "", [], [tx(s)] if s else [])])
            b.add(tn, toks, spellings(run, toks, 1))
            toks = Surface(rng).tokens([el(tn, "", [["", "k", "1"]], ([tx(s)] if s else []) + [el("x", c=[tx("9")])])])
            b.add(tn, toks, spellings(run, toks, 1))
    b.run()
    ser_batch(run, [n for n in ser_roots(run.cat)], scale(run, 25, 400))
    rt_batch(run, [n for n in ser_roots(run.cat) if n.startswith("H") or run.cat.types[n].kind == "new"], scale(run, 15, 300))


# ------------------------------------------------------------------ serialization
def ser_batch(run, names, per, vo=None, m="string", extra=()):
    b = SerBatch(run)
    jobs = []
    for tn in names:
        for k in range(per):
            v = vals.Vals(run.cat, run.rng, vo or vals.VOpts(pad=True)).value(tn)
            jobs.append({"op": "ser", "T": tn, "v": v, "m": m})
    for tn, v in extra:
        jobs.append({"op": "ser", "T": tn, "v": v, "m": m})
    jobs += long_lists(run, names, vo or vals.VOpts(pad=True), {"op": "ser", "m": m})
    res = run.jobs(jobs)
    vp.check_harness(jobs, res)
    for j, x in zip(jobs, res):
        if x["st"] != "ok":
            run.violation("%s: serializing %s ended in %s (%s)" % (j["T"], json.dumps(j["v"], ensure_ascii=False), x["st"], x.get("e")), {k: j[k] for k in ("op", "T", "v", "m")})
        else:
            b.add(j["T"], j["v"], x["x"], replay={k: j[k] for k in ("op", "T", "v", "m", "pump") if k in j}, pump=j["pump"][1] if "pump" in j else 0)
    b.run()


def long_lists(run, names, vo, job):
    """Jobs with one list of a value grown long, the specification seeing it short."""
    got, kinds = longlists.some(run.cat, run.rng, names, lambda tn: vals.Vals(run.cat, run.rng, vo).value(tn), scale(run, 1, 6), scale(run, 120, 2000))
    run.notes["long_lists"] = run.notes.get("long_lists", 0) + len(got)
    run.notes["kinds_of_long_lists"] = kinds
    return [dict(job, T=tn, v=v, pump=[p, n]) for _, tn, v, p, n in got]


def rt_ok(cat, tn):
    return "rt" in cat.types[tn].tags or "newtype" in cat.types[tn].tags


def rt_batch(run, names, per, vo=None):
    """Values through a document and back, judged by the specification's own reading of what was written."""
    cfgs = [None, {"indent": True}, {"decl": False}, {"indent": True, "decl": False, "istr": "\t"}]
    jobs = []
    for tn in names:
        for k in range(per):
            v = vals.Vals(run.cat, run.rng, vo or vals.VOpts(emptyseq=False, nan=False, extremes=(k % 3 == 0))).value(tn)
            j = {"op": "rt", "T": tn, "v": v}
            c = cfgs[k % 4]
            if c:
                j.update(m="config", cfg=c)
            jobs.append(j)
    jobs += long_lists(run, names, vo or vals.VOpts(emptyseq=False, nan=False), {"op": "rt"})
    res = run.jobs(jobs)
    vp.check_harness(jobs, res)
    lines = []
    import xmlread
    for n, (j, x) in enumerate(zip(jobs, res)):
        if x["st"] == "notrun":
            continue
        said = lambda: "%s: %s was written as %s and read back as %s" % (j["T"], json.dumps(j["v"], ensure_ascii=False), x.get("x"), json.dumps(x.get("v"), ensure_ascii=False) if x["st"] == "ok" else x["st"] + " " + str(x.get("e")))
        rep = {k: j[k] for k in j if k != "id"}
        if x["st"] not in ("ok", "err"):
            run.violation(said(), rep)
            continue
        body = x["x"][x["x"].index("?>") + 2:] if x["x"].startswith("<?xml") else x["x"]
        try:
            nodes = xmlread.read(body)
        except xmlread.NotWellFormed as e:
            run.violation(said() + " (not well-formed: %s)" % e, rep)
            continue
        if "pump" in j:
            nodes, x = longlists.shrink(nodes, j["pump"][1]), dict(x, v=longlists.shrink(x.get("v", ""), j["pump"][1]), x=x["x"][:2000])
        lines.append({"T": j["T"], "v": j["v"], "x": nodes, "ok": x["st"] == "ok", "v2": x.get("v", ""), "eq": x.get("eq", False), "_s": said(), "_r": rep})
    for k in range(0, len(lines), 20000):
        part = lines[k:k + 20000]
        for i, exp in run.validate("RoundTrace", [{a: b for a, b in l.items() if a[0] != "_"} for l in part], None):
            if "theorem" in exp:
                raise vp.CheckError("the specification cannot read back %s %s" % (part[i]["T"], json.dumps(part[i]["v"])))
            run.violation("%s (%s)" % (part[i]["_s"], ", ".join(exp)), part[i]["_r"])
    for l in lines[::max(1, len(lines) // 3)][:3]:
        run.sample({"round_trip": l["_s"][:500]})
    run.notes["round_trips"] = run.notes.get("round_trips", 0) + len(jobs)
    return jobs, res


@check("S01")
def s01(run):
    start(run, tags=["rt", "ser", "rootflat", "flatten", "text", "attr"])
    ser_batch(run, ser_roots(run.cat), scale(run, 40, 800))


@check("S02")
def s02(run):
    names = ["ElString", "AtString", "AtTx", "AvString", "DfString", "EnString", "NtString", "HnString", "Txt", "TxtO", "TxtA", "TxtF", "Cd", "CdSk", "FlA", "FlT", "Attrs", "Shape", "LeafS", "Tree", "Ren"]
    start(run, names=names)
    extra = []
    strs = vals.STRS + vals.PADDED + [chr(c) for c in (9, 10, 0x20, 0x26, 0x3c, 0x3e, 0x22, 0x27, 0x5d, 0x7f, 0x85, 0xa0, 0x2028, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10ffff)]
    for c in range(33, 127):
        strs.append("a" + chr(c) + "b")
    rng = run.rng
    for _ in range(scale(run, 150, 3000)):
        strs.append("".join(rng.choice(["]", ">", "]]>", "<", "&", "]]", "a", "<![CDATA[", "'", '"', "é", "\U0001F600", " ", "&lt;", "-->", "\n"]) for _ in range(rng.randint(1, 8))))
    for s in strs:
        at = s.replace("\t", " ")
        safe = s
        extra += [("ElString", [s, [s], [s, s]]), ("EnString", ["One", s]), ("EnString", ["Opt", [s]]), ("EnString", ["Many", [s, s]]), ("NtString", s), ("Txt", [s]), ("TxtA", [at, s]), ("Cd", [s, s]), ("TxtO", [[s], [at]]),
                  ("AtString", [at, [at], [s]]), ("FlA", [[at, [s]], "1"]), ("Shape", ["Label", s])]
        if s.split() == [s]:
            extra.append(("AvString", [[at, at], [s]]))
        if s.strip(" \t\n\r") == s:
            extra.append(("HnString", [at, [at], s, [s], [s]]))
            extra.append(("AtTx", [[at], [[at]], [], [[[at] if at else []]], at, [at], [], []]))
    ser_batch(run, names, scale(run, 60, 1500), extra=extra)
    probes_s02(run)


def probes_s02(run):
    """Known findings: characters a parser normalizes when they are written as they are."""
    ser_probe(run, "tab-in-attribute", "AtString", ["a\tb", [], []])
    ser_probe(run, "carriage-return-in-text", "ElString", ["a\rb", [], []])
    ser_probe(run, "carriage-return-in-cdata", "Cd", ["a\rb", "x"])
    ser_probe(run, "control-character", "ElString", ["a\u0001b", [], []])


def ser_probe(run, probe, tn, v):
    b = SerBatch(run)
    j = {"op": "ser", "T": tn, "v": v, "m": "string"}
    x = run.jobs([j])[0]
    if x["st"] == "ok":
        b.add(tn, v, x["x"], replay={"probe": probe, "T": tn, "v": v})
    elif probe != "control-character":
        run.violation("%s: serializing %s ended in %s" % (tn, json.dumps(v), x["st"]), {"probe": probe, "T": tn, "v": v, "outcome": x["st"]})
    b.run()


@check("S03")
def s03(run):
    start(run, tags=["skip", "default"])
    rng = run.rng
    extra = []
    for tn in run.cat.tagged("skip", "default"):
        t = run.cat.types[tn]
        if t.kind != "struct" or tn not in ser_roots(run.cat):
            continue
        # each field alone at its default, at its skipped value, and at another value; the others plain
        V = vals.Vals(run.cat, rng)
        for i, f in enumerate(t.fields):
            for _ in range(scale(run, 3, 30)):
                v = V.value(tn)
                for x in ([f.default] if f.default is not None else []) + ([f.skip_if] if f.skip_if is not None else []):
                    w = list(v)
                    w[i] = x
                    extra.append((tn, w))
        d = [f.default if f.default is not None else f.skip_if if f.skip_if is not None else v0 for f, v0 in zip(t.fields, V.value(tn))]
        extra.append((tn, d))
    ser_batch(run, ser_roots(run.cat, "skip", "default"), scale(run, 80, 2000), extra=extra)


@check("S07")
def s07(run):
    start(run, tags=["ns"], names=["Hn" + "i32", "NsCapture", "NsCaptureFl", "NsCaptureD", "NsCaptureE", "NsUnprefD", "NsPlainIn"])
    ser_batch(run, ser_roots(run.cat, "ns"), scale(run, 300, 5000))
    rt_batch(run, [n for n in ser_roots(run.cat, "ns") if rt_ok(run.cat, n)], scale(run, 60, 1000))
    # known findings: one prefix with two meanings, and names without a prefix under a default namespace
    ser_probe(run, "prefix-redeclared-by-nested-type", "NsCapture", [[[["1"], ["2"]]]])
    ser_probe(run, "prefix-redeclared-by-flattened-type", "NsCaptureFl", [["1"], [["2"]]])
    ser_probe(run, "default-namespace-of-nested-type", "NsCaptureD", [[[["1"], []]], ["2"]])
    ser_probe(run, "unprefixed-field-under-default-namespace", "NsUnprefD", [["1"]])
    ser_probe(run, "plain-type-under-default-namespace", "NsPlainIn", [[[["1"]]]])
    ser_probe(run, "prefix-redeclared-by-payload", "NsCaptureE", ["St", [["1"], ["2"]]])


@check("R01")
def r01(run):
    start(run, tags=["rt", "newtype"])
    jobs, res = rt_batch(run, [n for n in ser_roots(run.cat) if rt_ok(run.cat, n)], scale(run, 40, 800))


@check("R02")
def r02(run):
    start(run, tags=["rt", "newtype", "flatten", "text"])
    rng = run.rng
    jobs, toks = [], []
    for tn in [n for n in ser_roots(run.cat) if rt_ok(run.cat, n) and run.cat.types[n].kind != "new"]:
        for k in range(scale(run, 25, 500)):
            o = [mess(tabs=False), Opts(optp=.8, tabs=False), mess(unknown=.4, tabs=False)][k % 3]
            t = doc_tokens(run, run.cat, tn, o, plain=rng.random() < .3)
            by = Render(rng, plain=False).bytes(t)
            jobs.append({"op": "norm", "T": tn, "x": by.decode()})
            toks.append(t)
    res = run.jobs(jobs)
    vp.check_harness(jobs, res)
    b = SerBatch(run)
    for j, x in zip(jobs, res):
        if x["st"] == "err":
            continue
        if x["st"] == "ok" and unrep(run.cat, j["T"], x["v"]):
            continue
        if x["st"] != "ok" or x["v2"] != x["v"] or x["st2"] != "ok" or x["x2"] != x["x"]:
            if x["st"] == "deerr" and unrep(run.cat, j["T"], x["v"]):
                continue
            run.violation("%s: %s is read as %s, but written and read again it gives %s" % (j["T"], show(j), json.dumps(x.get("v"), ensure_ascii=False), json.dumps({k: v for k, v in x.items() if k not in ("id", "v")}, ensure_ascii=False)[:900]), {k: j[k] for k in ("op", "T", "x")})
        else:
            b.add(j["T"], x["v"], x["x"], replay={k: j[k] for k in ("op", "T", "x")})
    b.run()
    run.notes["accepted_documents"] = sum(1 for x in res if x["st"] == "ok")


def unrep(cat, tn, v):
    """Values whose written form is not meant to lead back: NaN, white space in list items, known limits."""
    s = json.dumps(v)
    return '"NaN"' in s


# ------------------------------------------------------------------ the cursor
CURSOR_DOCS = ["<a/>", "<a>t</a>", "<a><b/>t<b>u</b></a>", "<a><a><a/></a></a>", "<a xmlns='urn:d' k='1'><b>x<!-- c -->y</b> </a>", "<a><b>", "<a><b></c>", "<a>t<b/><?pi?>u</a>", "", "<a/>  "]


def toks_of(xml):
    """Tokens of a small literal document (the subset used above)."""
    import re
    out, names = [], []
    for m in re.finditer(r"<!--.*?-->|<\?.*?\?>|<(/?)(\w+)((?:\s+[\w:]+='[^']*')*)\s*(/?)>|[^<]+", xml):
        s = m.group(0)
        if s.startswith("<!--"):
            out.append({"k": "c"})
        elif s.startswith("<?"):
            out.append({"k": "p"})
        elif s[0] != "<":
            out.append({"k": "t", "t": s})
        elif m.group(1):
            out.append({"k": "e"} if names and names.pop() == m.group(2) else {"k": "x"})
        else:
            at = re.findall(r"([\w:]+)='([^']*)'", m.group(3))
            out.append({"k": "s", "p": "", "n": m.group(2), "d": [["", v] for k, v in at if k == "xmlns"], "a": [["", k, v] for k, v in at if k != "xmlns"]})
            if m.group(4):
                out.append({"k": "e"})
            else:
                names.append(m.group(2))
    return out


def tlc_model(run, module, cfg=None, env=None, **kw):
    """Model checks a module; its own invariants must hold (a failure is an error of the specification)."""
    out, dist, gen, rc = run.tlc(module, cfg, env, **kw)
    if rc != 0:
        raise vp.CheckError("TLC refutes the specification %s:\n%s" % (module, out[-4000:]))
    run.notes.setdefault("models", []).append({"module": cfg or module, "states": dist, "transitions": gen})
    return out


def printed(out, tag):
    """The JSON values a model printed under a tag."""
    import re
    r = []
    for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % tag, out):
        r.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return r


@check("D11")
def d11(run):
    tns = ["Deep", "Attrs", "TxtM", "NsA", "NsB", "HasShape", "HcMix", "Tree", "FlB", "HasTag", "HasMulti", "HasEnNew", "HcTxt", "NsEnumH", "FlOuter", "GenRS"]
    full = start(run, names=tns)
    mid = [n for n in full.order if not getattr(full.types[n], "flatten", False) and getattr(full.types[n], "how", "") != "none"]
    rng = run.rng
    # every short sequence of calls over small documents, from the model
    path = run.work + "/docs.ndjson"
    with open(path, "w") as f:
        for d in CURSOR_DOCS:
            f.write(json.dumps({"x": toks_of(d)}) + "\n")
    depth = 4 if run.thorough else 3
    out = tlc_model(run, "CursorMC", env={"VP_DOCS": path, "VP_DEPTH": str(depth), "VP_EMIT": "1"}, heap="12g")
    beh = printed(out, "BEH")
    jobs = [{"op": "cursor", "x": CURSOR_DOCS[b["doc"] - 1], "ops": [fullop(o) for o in b["ops"]]} for b in beh]
    if run.thorough:
        pick = sorted(rng.sample(range(len(beh)), min(len(beh), 150000)))
        beh, jobs = [beh[i] for i in pick], [jobs[i] for i in pick]
    res = run.jobs(jobs)
    vp.check_harness(jobs, res)
    for b, j, x in zip(beh, jobs, res):
        if x["st"] == "notrun":
            continue
        if x["st"] != "ok" or x["log"] != b["log"]:
            run.violation("the cursor over %r, given the calls %s, reports %s; the specification says %s" % (j["x"], json.dumps(b["ops"]), json.dumps(x.get("log", x["st"])), json.dumps(b["log"])), {k: v for k, v in j.items() if k != "id"})
    run.traces += len(beh)
    run.notes["replayed_behaviours"] = len(beh)
    # longer random sequences over larger documents, judged by the specification
    lines, jobs = [], []
    for _ in range(scale(run, 2500, 40000)):
        tn = rng.choice(tns)
        tree = Gen(full, rng, rng.choice([mess(), Opts()])).doc(tn)
        deep = rng.random() < .01
        if deep:
            for _ in range(rng.choice([30, 140, 290])):
                tree = [el("d", "", [], tree)]
        own = rng.choice([False] * 7 + [True, True, "raw"])
        toks = Surface(rng, plain=deep or rng.random() < .3, **({"comments": 0} if own else {})).tokens(tree)
        if own is True:
            # a parser that reports comments; the cursor leaves them out (nothing is said about those next to text)
            toks = [x for t, u in zip(toks, toks[1:] + [{"k": "d"}]) for x in ([t, {"k": "c"}] if t["k"] in "se" and u["k"] in "se" and rng.random() < .4 else [t])]
        if rng.random() < .25:
            k = rng.randint(0, len(toks))
            while k and toks[k - 1]["k"] in "tcp":
                k -= 1
            toks = toks[:k] + ([{"k": "x"}] if rng.random() < .5 else [])
        raw = [dict(t, raw="</zz-wrong>") if t["k"] == "x" else t for t in toks]
        data = Render(rng, plain=rng.random() < .3, shuffle=False).bytes(raw)
        names = {}
        env = [{}]
        for t in toks:
            if t["k"] == "s":
                env.append(dict(env[-1], **dict(t["d"])))
                names.setdefault((t["n"], env[-1].get(t["p"], "")), set()).add(t["p"])
            elif t["k"] == "e":
                env.pop()
        if any(len(ps) > 1 for ps in names.values()):
            continue  # end tags are compared with their prefix; nothing is specified about that
        names = [(n, ns, p) for (n, ns), ps in names.items() for p in ps] or [("none", "", "")]
        j = {"op": "cursor", "ops": calls(rng, names, rng.randint(1, 14))}
        if rng.random() < .6 and own != "raw":
            into(full, rng, toks, j["ops"], mid)
        if own:
            j["own"] = own
        if deep:
            j["ops"] = [{"c": "next", "must": False}] * rng.choice([20, 130, 260, 285]) + j["ops"]
        j.update(hexed(data))
        if rng.random() < .3:
            j.update(chunks=rng.choice([[1], [3, 5], [16]]), intr=rng.random() < .3)
        jobs.append(j)
        lines.append(toks)
    # calls outside the domain of the specification are left out there
    ok = defined(run, lines, jobs)
    jobs, lines = [jobs[i] for i in ok], [lines[i] for i in ok]
    res = run.jobs(jobs)
    vp.check_harness(jobs, res)
    rec = []
    for j, t, x in zip(jobs, lines, res):
        if x["st"] == "notrun":
            continue
        if x["st"] != "ok":
            run.violation("the cursor over %s, given the calls %s, ended in a %s" % (show(j), json.dumps(j["ops"]), x["st"]), {k: v for k, v in j.items() if k != "id"})
        else:
            rec.append({"x": t, "raw": j.get("own") == "raw", "ops": j["ops"], "log": x["log"], "_j": j})
    for i, exp in run.validate("CursorTrace", [{a: b for a, b in l.items() if a[0] != "_"} for l in rec], None):
        l = rec[i]
        run.violation("the cursor over %s, given the calls %s, reports %s; the specification says %s" % (show(l["_j"]), json.dumps(l["ops"]), json.dumps(l["log"]), json.dumps(exp)), {k: v for k, v in l["_j"].items() if k != "id"})
    for l in rec[:3]:
        run.sample({"document": show(l["_j"])[:300], "calls": l["ops"], "reported": l["log"]})


def fullop(o):
    """A call as the driver wants it."""
    o = dict(o)
    if "b" in o:
        o["b"] = [fullop(x) for x in o["b"]]
    if o["c"] == "expect":
        o.setdefault("p", "")
    return o


def calls(rng, names, n, depth=0):
    out = []
    for _ in range(n):
        c = rng.choice(["peek", "peek", "next", "next", "next", "skip", "read", "expect", "inner"] if rng.random() < .15 else ["peek", "next", "next", "read", "skip"])
        if c == "inner" and depth:
            c = "next"
        o = {"c": c, "must": rng.random() < .1}
        if c == "expect":
            o["n"], o["ns"], o["p"] = rng.choice(names)
        if c == "read":
            o["b"] = calls(rng, names, rng.choice([0, 1, 1, 2, 3, 4]), depth + 1) if depth < 3 else []
            o["ret"] = rng.choice(["ok", "ok", "ok", "ok", "err"])
            if rng.random() < .5:
                o["b"].append({"c": "skip", "must": False})
        out.append(o)
    return out


def reading(cat, tn):
    """The call that reads a type; what such a type may leave unread includes the start tag if it is settled by that."""
    return {"c": "de", "T": tn, "must": True, "lazy": bool(getattr(cat.types[tn], "tag", None))}


def into(cat, rng, toks, ops, mid):
    """Replaces the calls after some walk to a start tag by the reading of a type there."""
    starts = [i for i, t in enumerate(toks) if t["k"] == "s"]
    if not starts:
        return
    # types by the names of the elements that hold them
    by = {}
    for n in cat.order:
        t = cat.types[n]
        by.setdefault(getattr(t, "root", n), []).append(n)
        for f in getattr(t, "fields", None) or getattr(t, "variants", None) or []:
            if f.base in cat.types:
                by.setdefault(f.xml, []).append(f.base)
    k = rng.choice(starts)
    cands = [n for n in by.get(toks[k]["n"], []) if n in mid]
    de = reading(cat, rng.choice(cands if cands and rng.random() < .85 else mid))
    walk, run = [], False
    for t in toks[:k]:
        if t["k"] == "t":
            run = run or t["t"].strip() != ""
        elif t["k"] != "c":
            if run:
                walk.append({"c": "next", "must": False})
            run = False
            if t["k"] in "se":
                walk.append({"c": "next", "must": False})
    if run:
        walk.append({"c": "next", "must": False})
    walk = [o for n in walk for o in ([{"c": "peek", "must": False}, n] if rng.random() < .2 else [n])]
    tail = ops[:rng.choice([0, 1, 2, 4])]
    if rng.random() < .4:
        tail = [reading(cat, rng.choice(mid))] + tail
    ops[:] = walk + ([{"c": "peek", "must": False}] if rng.random() < .5 else []) + [de] + [o for o in tail if o["c"] != "inner"]
    if rng.random() < .3 and walk and walk[-1]["c"] == "next" and toks[k - 1]["k"] == "s":
        # inside the reading of an inner value
        ops[:] = walk[:-1] + [{"c": "read", "must": False, "ret": rng.choice(["ok", "err"]), "b": [de] + tail[:1] + [{"c": "skip", "must": False}] * rng.choice([0, 1])}] + [{"c": "next", "must": False}]


def defined(run, toks, jobs):
    """Which sequences of calls the specification says something about."""
    path = run.work + "/defined.ndjson"
    with open(path, "w") as f:
        for i, (t, j) in enumerate(zip(toks, jobs)):
            f.write(json.dumps({"id": i, "x": t, "raw": j.get("own") == "raw", "ops": j["ops"]}) + "\n")
    out, dist, _, rc = run.tlc("CursorTrace", "CursorDefined.cfg", {"VP_TRACE": path})
    if rc != 0 or dist != len(jobs):
        raise vp.CheckError("TLC failed on CursorDefined:\n" + out[-3000:])
    return sorted(int(m) for m in __import__("re").findall(r'<<"DEFINED", (\d+)>>', out))


# ------------------------------------------------------------------ the serializer as an object
EMIT_VALS = [("Leaf", ["7"]), ("LeafS", ["a&b"]), ("Color", ["Green"]), ("Shape", ["Pt", ["1"]]), ("Nti32", "5"), ("NtString", "<"), ("i32", "-3"), ("RootFl", ["x", [], [["1"]]]), ("Attrs", ["q", ["4"], "false", ["n"]])]


def body_nodes(x):
    """The nodes of a document or of content without a root, and whether that is well-formed."""
    import xmlread
    if x.startswith("<?xml"):
        x = x[x.index("?>") + 2:]
    return xmlread.read(x, True)


def glue(nodes):
    out = []
    for n in nodes:
        if n["k"] == "e":
            out.append(dict(n, c=glue(n["c"]), a=sorted(map(list, n["a"]))))
        elif out and out[-1]["k"] == n["k"]:
            out[-1] = dict(out[-1], t=out[-1]["t"] + n["t"])
        else:
            out.append(n)
    return out


def spaced(cat, tn):
    return bool(getattr(cat.types[tn], "ns", None))


@check("S06")
def s06(run):
    names = ["Leaf", "LeafS", "Pair", "Attrs", "TxtA", "Color", "Shape", "NtString", "Nti32", "Ntf64", "Hxu8", "Disp", "FlA", "FlB", "FlD", "RootFl", "RootEn", "Tagged", "Multi", "HasEnum", "HasMulti", "Tree", "Cd", "Deep", "NsA", "NsB", "NsNone", "NsDef", "NsEnumH", "NsSame", "FlNs"]
    start(run, names=names)
    names = [n for n in names if n in run.cat.types]
    rng = run.rng
    path = run.work + "/vals.ndjson"
    with open(path, "w") as f:
        for tn, v in EMIT_VALS:
            f.write(json.dumps({"T": tn, "v": v}) + "\n")
    out = tlc_model(run, "EmitMC", env={"VP_VALS": path, "VP_DEPTH": "4" if run.thorough else "3"}, heap="12g")
    beh = printed(out, "BEH")
    jobs = [{"op": "emit", "ops": b["ops"], "inner": i % 2 == 0} for i, b in enumerate(beh)]
    res = run.jobs(jobs)
    vp.check_harness(jobs, res)
    import xmlread
    for b, j, x in zip(beh, jobs, res):
        rep = {k: v for k, v in j.items() if k != "id"}
        if x["st"] == "notrun":
            continue
        if x["st"] != "ok":
            run.violation("serializer calls %s ended in a %s" % (json.dumps(b["ops"]), x["st"]), rep)
            continue
        why = None
        for e, g in zip(b["log"], x["log"]):
            if e["ok"] != g["ok"] or (e["sureskip"] and e["skip"] != g["skip"]) or (e["surename"] and e["name"] != g["name"]):
                why = "a call reported %s instead of %s" % (json.dumps(g), json.dumps(e))
        if not why and b["closed"]:
            try:
                got = body_nodes(x["x"])
            except xmlread.NotWellFormed:
                got = None
            if got is None or glue(got) != glue(b["x"]):
                why = "they wrote %s instead of %s" % (x["x"], json.dumps(b["x"]))
        if why:
            run.violation("serializer calls %s: %s" % (json.dumps(b["ops"]), why), rep)
    run.traces += len(beh)
    run.notes["replayed_behaviours"] = len(beh)
    # longer random sequences with random values
    V = vals.Vals(run.cat, rng, vals.VOpts(pad=True))
    jobs = []
    for _ in range(scale(run, 3000, 40000)):
        ops, depth, known = [], 0, [True, True]
        zz = rng.random() < .4
        if zz:
            # a parent with declarations of its own around everything
            ops.append({"c": "start", "n": rng.choice(["zz:top", "top"]), "a": rng.choice([[], [["zz:k", "v"]], [["k", "v"], ["zz:k", "<"]]]), "d": rng.choice([[["zz", "urn:zz"]], [["z0", "urn:z0"], ["zz", "urn:zz"]], [["zz", "urn:p"]]])})
        for _ in range(rng.randint(1, 12)):
            c = rng.choice(["skip", "name", "start", "chars", "end", "val", "val", "val"])
            if c == "skip":
                ops.append({"c": c, "v": rng.random() < .5})
                known[1] = True
            elif c == "name":
                if rng.random() < .15:
                    # a name nothing is written under
                    ops.append({"c": c, "v": [rng.choice(["", ":x", "x:y", "x:", " x", "x ", "1", "a b", "<", "\u00ff ", "xml", "XML", "xmlns"])]})
                    if rng.random() < .3:
                        ops.append({"c": "skip", "v": True})
                        known[1] = True
                ops.append({"c": c, "v": rng.choice([[], ["nm"], ["nm"], ["x-y.z"], ["é"], ["x_"], ["_x"], ["x-"], ["x."], ["X"], ["n\u00ff"], ["_"], ["a1"], ["Leaf"], ["xa"]] + [["zz:nm"], ["zz:Leaf"]] * (3 * zz))})
                known[0] = True
            elif c == "start":
                ops.append({"c": c, "n": rng.choice(["el", "a", "b-c", "x_", "e\u00ff"] + ["zz:el"] * zz), "d": rng.choice([[], [], [["yy", "urn:yy"]]] + [[["zz", "urn:zz2"]]] * zz), "a": rng.choice([[], [["k", "v"]], [["k", "a<&'\""], ["l", ""]], [["k_", "\u00ff "], ["K", " x"]], [["b%d" % n, "v"] for n in range(rng.choice([3, 12, 40]))]])})
                depth += 1
            elif c == "chars":
                ops.append({"c": c, "v": V.string()})
            elif c == "end":
                if depth or (not zz and rng.random() < .2):
                    ops.append({"c": c})
                    depth = max(0, depth - 1)
                elif rng.random() < .5:
                    ops += [{"c": "start", "n": "cd", "a": [], "d": []}, {"c": "cdata", "v": V.string().replace("]]>", "]] >") or "x"}, {"c": "end"}]
            else:
                tn = rng.choice(names + ["i32", "bool", "f64", "u64", "i8"])
                sc = tn in catalogue.SCALARS
                if not sc and not getattr(run.cat.types[tn], "flatten", False) and not all(known):
                    # say again what a derived value may have changed
                    if not known[0]:
                        ops.append({"c": "name", "v": rng.choice([[], ["nm2"]])})
                    if not known[1]:
                        ops.append({"c": "skip", "v": rng.random() < .4})
                    known = [True, True]
                if not sc and spaced(run.cat, tn) and not getattr(run.cat.types[tn], "flatten", False):
                    # prefixes are declared by the element of the value
                    ops.append({"c": "skip", "v": False})
                    known[1] = True
                    if run.cat.types[tn].defns:
                        ops.append({"c": "name", "v": []})  # a name without a prefix would be in the default namespace
                        known[0] = True
                ops.append({"c": "val", "T": tn, "v": V.scalar(tn) if sc else V.value(tn)})
                if not sc and run.cat.types[tn].kind != "new":
                    known = [False, False]
        ops += [{"c": "end"}] * (depth + zz)
        jobs.append({"op": "emit", "ops": ops, "inner": rng.random() < .5, "own": rng.random() < .2})
    res = run.jobs(jobs)
    vp.check_harness(jobs, res)
    rec = []
    for j, x in zip(jobs, res):
        rep = {k: v for k, v in j.items() if k != "id"}
        if x["st"] == "notrun":
            continue
        if x["st"] != "ok":
            run.violation("serializer calls %s ended in a %s" % (json.dumps(j["ops"]), x["st"]), rep)
            continue
        try:
            nodes = body_nodes(x["x"])
        except xmlread.NotWellFormed as e:
            run.violation("serializer calls %s wrote %s, which is not well-formed (%s)" % (json.dumps(j["ops"]), x["x"], e), rep)
            continue
        rec.append({"ops": j["ops"], "log": x["log"], "x": nodes, "_j": rep, "_x": x["x"]})
    for i, exp in run.validate("EmitTrace", [{a: b for a, b in l.items() if a[0] != "_"} for l in rec], None):
        l = rec[i]
        run.violation("serializer calls %s wrote %s and reported %s; the specification says %s" % (json.dumps(l["ops"]), l["_x"], json.dumps(l["log"]), json.dumps(exp)[:1500]), l["_j"])
    for l in rec[:3]:
        run.sample({"calls": l["ops"], "document": l["_x"][:300]})


# ------------------------------------------------------------------ entry points and settings
def closure_has(cat, tn, pred):
    sub = cat.subset([tn])
    return any(pred(t) for t in sub.types.values())


def mixed(t):
    """Types that may write text beside elements."""
    return t.kind == "struct" and (any(f.text for f in t.fields) or any(f.flatten for f in t.fields)) or (t.kind == "enum" and t.flatten)


def beside(t):
    """Types whose text, blank or not, may stand next to elements."""
    return mixed(t) and not (t.kind == "struct" and all(f.attr or f.text for f in t.fields))


def s04_cfgs(istr):
    return [{}, {"istr": istr}, {"indent": True}, {"indent": True, "istr": istr}, {"decl": False}, {"decl": False, "istr": istr}, {"decl": False, "indent": True}, {"decl": False, "indent": True, "istr": istr}]


@check("S04")
def s04(run):
    start(run, tags=["rt", "rootflat", "cdata", "text", "flatten"])
    rng = run.rng
    import xmlread
    todo = []
    for tn in ser_roots(run.cat):
        t = run.cat.types[tn]
        for _ in range(scale(run, 9, 200)):
            v = vals.Vals(run.cat, rng, vals.VOpts(pad=not closure_has(run.cat, tn, beside), vecmax=2)).value(tn)
            istr = rng.choice(["\t", "    ", " ", "", "\t ", " " * 9, "\t" * 12, " \t" * 20, " " * 70])
            base = {"op": "ser", "T": tn, "v": v}
            todo.append((tn, v, istr, [dict(base, m="string"), dict(base, m="content"), dict(base, m="wcontent")]
                         + [dict(base, m=m, cfg=dict(c)) for c in s04_cfgs(istr) for m in ("config", "writer")]))
    jobs = [j for x in todo for j in x[3]]
    res = run.jobs(jobs)
    vp.check_harness(jobs, res)
    lines = []
    for k, (tn, v, istr, js) in enumerate(todo):
        t = run.cat.types[tn]
        r = res[len(js) * k:len(js) * (k + 1)]
        rep = {"T": tn, "v": v, "istr": istr}
        if any(x["st"] == "notrun" for x in r):
            continue
        bad = [(j, x) for n, (j, x) in enumerate(zip(js, r)) if x["st"] != "ok" and not (n in (1, 2) and needs_ns(run.cat, tn))]
        if bad:
            j, x = bad[0]
            run.violation("%s: serializing %s (%s %s) ended in %s %s" % (tn, json.dumps(v, ensure_ascii=False), j["m"], j.get("cfg"), x["st"], x.get("e", "")), {a: b for a, b in j.items() if a != "id"})
            continue
        flat = getattr(t, "flatten", False)
        # the documents: as asked with each setting, to a string and to a writer
        out = [{"decl": c.get("decl", True), "ind": c.get("indent", False), "istr": c.get("istr", "  ") if c.get("indent") else "", "s": r[3 + 2 * n]["x"], "w": r[4 + 2 * n]["x"]} for n, c in enumerate(s04_cfgs(istr))]
        try:
            read = lambda x: xmlread.read(x[x.index("?>") + 2:] if x.startswith("<?xml") else x, flat)
            for o in out:
                o["x"] = read(o["s"])
            nodes = read(r[0]["x"])
        except xmlread.NotWellFormed as e:
            run.violation("%s: a document written for %s is not well-formed (%s)" % (tn, json.dumps(v, ensure_ascii=False), e), rep)
            continue
        hc = r[1]["st"] == "ok" and not needs_ns(run.cat, tn)
        lines.append({"T": tn, "v": v, "istr": istr, "flat": flat, "exact": not closure_has(run.cat, tn, mixed), "x": nodes, "string": r[0]["x"], "out": out,
                      "hascontent": hc, "content": r[1]["x"] if hc else "", "wcontent": r[2]["x"] if hc else ""})
    shown = [dict(l) for l in lines]
    for i, exp in run.validate("PresentTrace", lines, None):
        l = shown[i]
        run.violation("%s: the entry points disagree about %s (%s): %s" % (l["T"], json.dumps(l["v"], ensure_ascii=False), ", ".join(exp), json.dumps(dict({k: l[k] for k in ("string", "content", "wcontent")}, out=[{k: o[k] for k in o if k != "x"} for o in l["out"]]), ensure_ascii=False)[:1500]), {k: l[k] for k in ("T", "v", "istr")})
    for l in shown[::max(1, len(shown) // 4)][:4]:
        run.sample({"T": l["T"], "v": l["v"], "string": l["string"], "content": l["content"], "indented": l["out"][-1]["s"]})


def needs_ns(cat, tn):
    """Types whose content alone uses prefixes their root declares."""
    return closure_has(cat, tn, lambda t: bool(getattr(t, "ns", {})))


# ------------------------------------------------------------------ writers
@check("S05")
def s05(run):
    start(run, tags=["rt", "rootflat", "cdata", "text", "flatten", "skip", "nsser"])
    rng = run.rng
    out = tlc_model(run, "SinkMC")
    pats = sorted({tuple(p) for p in printed(out, "PAT")})
    pats = [p for p in pats if p[-1] != "all"]
    run.notes["fault_patterns"] = len(pats)
    V = vals.Vals(run.cat, rng, vals.VOpts(pad=True))
    cfgs = [{}, {"decl": False}, {"indent": True}, {"indent": True, "istr": "\t"}]
    limits, scripts = [], []
    for tn in ser_roots(run.cat):
        for _ in range(scale(run, 2, 12)):
            cfg, v = rng.choice(cfgs), V.value(tn)
            m = "wcontent" if rng.random() < .15 and not needs_ns(run.cat, tn) else "writer"
            base = {"T": tn, "v": v, "m": m, "cfg": cfg if m == "writer" else {}}
            limits.append(dict(base, op="wfail", zero=rng.random() < .2, chunk=rng.choice([None, None, 1, 3]), intr=rng.random() < .2))
            fs = [{"pat": ["err"]}, {"pat": [rng.choice(["zero", "one", "half", "intr"])]}]
            fs += [{"pat": list(rng.choice(pats)), "step": rng.randint(1, 5)} for _ in range(2)]
            # every pattern of the model at some call of some document
            fs += [{"pat": list(pats[(len(scripts) * 4 + k) % len(pats)]), "at": rng.randint(0, 30)} for k in range(4)]
            scripts.append(dict(base, op="wscript", faults=fs))
    # the length of each document, to fail at every byte of it
    full = run.jobs([{"op": "ser", "T": j["T"], "v": j["v"], "m": j["m"], "cfg": j["cfg"]} for j in limits])
    jobs = []
    for j, f in zip(limits, full):
        if f["st"] != "ok":
            if f["st"] != "notrun":
                run.violation("%s: writing %s to a healthy writer ended in %s" % (j["T"], json.dumps(j["v"]), f["st"]), j)
            continue
        n = len(f["x"].encode())
        every = list(range(n + 3))
        if not run.thorough and n > 150:
            every = sorted(set(every[:10] + every[-40:] + rng.sample(every, 80)))
        jobs.append(dict({k: x for k, x in j.items() if x is not None}, limits=every, _doc=f["x"]))
    lines = []
    send = [{k: x for k, x in j.items() if k[0] != "_"} for j in jobs]
    res = run.jobs(send)
    vp.check_harness(send, res)
    for j, x in zip(jobs, res):
        rep = {k: j[k] for k in ("op", "T", "v", "m", "cfg", "chunk", "intr", "zero") if k in j}
        if x["st"] == "notrun":
            continue
        if x["st"] != "ok":
            run.violation("%s: writing %s to a failing writer ended in a %s" % (j["T"], json.dumps(j["v"]), x["st"]), rep)
            continue
        lines.append({"how": "limit", "doc": latin(j["_doc"]), "r": [{"limit": l, "st": r["st"], "acc": bytes.fromhex(r["x"][4:]).decode("latin-1") if r.get("x", "").startswith("hex:") else latin(r.get("x", ""))} for l, r in zip(j["limits"], x["r"])], "_r": rep, "_T": j["T"]})
        run.evals += len(x["r"])
    res = run.jobs(scripts)
    vp.check_harness(scripts, res)
    for j, x in zip(scripts, res):
        rep = {k: v for k, v in j.items() if k != "id"}
        if x["st"] == "notrun":
            continue
        if x["st"] != "ok" or x["full"]["st"] != "ok":
            run.violation("%s: writing %s ended in a %s" % (j["T"], json.dumps(j["v"]), x["st"]), rep)
            continue
        doc = "".join(c["off"] for c in x["full"]["calls"])
        lines.append({"how": "script", "doc": doc, "r": [{"st": r["st"], "calls": r["calls"], "at": r["at"], "pat": r["pat"]} for r in x["r"]], "_r": rep, "_T": j["T"]})
        run.evals += len(x["r"])
    for k in range(0, len(lines), 3000):
        part = lines[k:k + 3000]
        for i, exp in run.validate("SinkTrace", [{a: b for a, b in l.items() if a[0] != "_"} for l in part], None):
            l = part[i]
            bad = l["r"][exp[0] - 1]
            run.violation("%s: a writer of the document %s: %s" % (l["_T"], l["doc"].encode("latin-1").decode("utf-8", "replace")[:600], ("which takes %d bytes and then fails: the writer got %r, the result is %s" % (bad["limit"], bad["acc"][-60:], bad["st"])) if l["how"] == "limit"
                          else "whose answers from call %d on are %s: the result is %s after the calls %s" % (bad["at"], bad["pat"], bad["st"], json.dumps(bad["calls"])[:800])), l["_r"])
    for l in lines[::max(1, len(lines) // 4)][:4]:
        run.sample({"type": l["_T"], "document": l["doc"][:200], "faults": len(l["r"])})


def latin(s):
    return s.encode().decode("latin-1")


# ------------------------------------------------------------------ any input at all
FUZZ_BITS = [b"<", b">", b"/>", b"</", b"&", b"&amp;", b"&#65;", b"&#x0;", b"&#xD800;", b"&lt", b"&nope;", b"<!--", b"-->", b"--", b"<![CDATA[", b"]]>", b"<?", b"?>", b"<?pi?>", b"<?xml version='1.0'?>", b"<!DOCTYPE a>", b"<!DOCTYPE a [<!ENTITY e 'x'>]>", b"&e;",
             b"'", b'"', b"=", b" ", b"\n", b"\t", b"\r", b"\x00", b"\x01", b"\x7f", b"\xff", b"\xc3", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xef\xbb\xbf", b"\xfe\xff", b"xmlns=''", b" xmlns='urn:p'", b" xmlns:p='urn:q'", b" xmlns:p=''", b"p:", b":", b"xml:", b"xmlns:",
             b"<a>", b"</a>", b"<a/>", b"<x>7</x>", b"1", b"-", b".", b"0", b"true", b"e9", b"99999999999999999999999", b"NaN", b" k='1'", b"<l>", b"</l>"]


def mutate(rng, data, n):
    d = bytearray(data)
    for _ in range(n):
        r, k = rng.random(), rng.randint(0, len(d))
        if r < .3:
            d[k:k] = rng.choice(FUZZ_BITS)
        elif r < .45 and d:
            d[k:k + rng.choice([1, 1, 2, 5, 20])] = b""
        elif r < .6 and d:
            k = min(k, len(d) - 1)
            d[k] = rng.choice([d[k] ^ (1 << rng.randint(0, 7)), rng.randint(0, 255), 0x3c, 0x26])
        elif r < .75 and d:
            m = rng.randint(0, len(d))
            a, b = min(k, m), max(k, m)
            d[k:k] = d[a:min(b, a + 60)]
        elif r < .85:
            d = d[:k]
        elif r < .95:
            m = rng.randint(0, len(d))
            a, b = min(k, m), max(k, m)
            chunk = d[a:min(b, a + 40)]
            del d[a:min(b, a + 40)]
            q = rng.randint(0, len(d))
            d[q:q] = chunk
        else:
            k = min(k, max(0, len(d) - 1))
            d[k:k + 1] = rng.choice(FUZZ_BITS)
    return bytes(d)


def in_domain(cat, tn, toks):
    """Whether the specification says what the value is (or only that there is one or an error)."""
    for i, t in enumerate(toks):
        if t["k"] == "p":
            # a processing instruction next to text
            for r in (range(i - 1, -1, -1), range(i + 1, len(toks))):
                for q in r:
                    if toks[q]["k"] == "t":
                        return False
                    if toks[q]["k"] not in "cp":
                        break
        if t["k"] == "s":
            if any("\u00a0" in v or "&" in v or "<" in v for _, _, v in t["a"]) or len({n for _, n, _ in t["a"]}) != len(t["a"]):
                return False
            if any("\r" in v or "\n" in v or "\t" in v or v != v.strip() for _, _, v in t["a"]):
                return False
        if t["k"] == "t" and any(c in t["t"] for c in "\u0085\u000b\u000c\u2028"):
            return False
    return True


DEEP_TREE = 5000


@check("D01")
def d01(run):
    start(run, tags=["base", "attr", "text", "enum", "ns", "flatten", "rootflat", "rootflatde", "hascustom", "newtype", "default", "cdata", "skip", "ren", "gen"])
    rng = run.rng
    # any tree, any cut, anything malformed in it: the outcome is the one specified
    b = DeBatch(run)
    names = roots(run.cat)
    for tn in names:
        for k in range(scale(run, 12, 300)):
            toks = doc_tokens(run, run.cat, tn, mess(missing=.3, dup=.3, unknown=.4, wrongns=.2, badlit=.2, badattr=.1, text=.3, nested=.2, mix=.2, emptyel=.1), plain=rng.random() < .4)
            raw = [dict(t) for t in toks]
            r = rng.random()
            if r < .4:
                pos = rng.randint(0, len(raw))
                while pos and raw[pos - 1]["k"] in "tcp":
                    pos -= 1
                raw = raw[:pos]
                spec = raw or [{"k": "u"}]
            elif r < .6 and len(raw) > 2:
                pos = rng.randint(1, len(raw) - 1)
                raw = raw[:pos] + [{"k": "x", "raw": rng.choice(["</nope>", "&nope;", "<a b>", "<!x>", "<zz:a>", "<a b='1' b='2'>", "<1/>"])}]
                spec = raw
            else:
                spec = raw
            by = "".join(Render(rng, plain=rng.random() < .5).pieces(raw)).encode()
            b.add(tn, [{a: v for a, v in t.items() if a != "raw"} for t in spec], [hexed(by)])
    b.run()
    # documents of another type, variants as root elements, nothing at all
    for tn in names:
        t = run.cat.types[tn]
        for _ in range(scale(run, 4, 60)):
            toks = doc_tokens(run, run.cat, rng.choice(names), rng.choice([mess(), Opts(optp=.8)]), plain=rng.random() < .5)
            b.add(tn, toks, spellings(run, toks, 1), cmp="full")
        for v in (t.variants if t.kind == "enum" else []):
            if not t.tag:
                toks = Surface(rng).tokens([Gen(run.cat, rng, mess()).variant_el(t, v, 1)])
                b.add(tn, toks, spellings(run, toks, 1))
        for xml in ("", " ", "<!-- c -->", "<?pi?>", "text"):
            b.add(tn, toks_of(xml) or [{"k": "u"}], [{"x": xml}])
    b.run()
    # any bytes: judged by what the parser alone makes of them
    jobs = []
    allnames = [n for n in run.cat.order if run.cat.types[n].kind != "custom" and "seronly" not in run.cat.types[n].tags]
    for tn in allnames:
        for k in range(scale(run, 30, 1000)):
            if rng.random() < .9 and run.cat.types[tn].kind != "new":
                toks = doc_tokens(run, run.cat, tn, rng.choice([mess(), Opts(optp=.8), Opts()]), plain=rng.random() < .5)
                data = Render(rng, plain=rng.random() < .5).bytes(toks)
            else:
                data = b"<%s>7</%s>" % (tn.encode(), tn.encode())
            r = rng.random()
            data = mutate(rng, data, rng.choice([1, 1, 1, 2, 2, 3, 5, 10])) if r < .93 else b"".join(rng.choice(FUZZ_BITS) for _ in range(rng.randint(0, 12)))
            jobs.append(dict({"op": "de", "T": tn}, **hexed(data)))
            if rng.random() < .3:
                jobs[-1].update(m="reader", chunks=rng.choice([[1], [2, 3], [7], [64]]), intr=rng.random() < .3)
    evs = [{k: v for k, v in dict(j, op="events").items() if k in ("op", "x", "xb")} for j in jobs]
    res, toks = run.jobs(jobs), run.jobs(evs)
    vp.check_harness(evs, toks)
    lines, seen = [], set()
    for j, x, t in zip(jobs, res, toks):
        rep = {k: v for k, v in j.items() if k != "id"}
        if x is None or x["st"] == "notrun" or t["st"] != "ok":
            if x is not None and x["st"] in ("panic", "hang", "abort") and t["st"] == "ok":
                run.violation("%s: deserialization ended in a %s on %s" % (j["T"], x["st"], show(j)), rep)
            continue
        if x["st"] not in ("ok", "err"):
            run.violation("%s: deserialization ended in a %s on %s" % (j["T"], x["st"], show(j)), rep)
            continue
        dom = in_domain(run.cat, j["T"], t["toks"])
        run.notes["any_bytes"] = run.notes.get("any_bytes", 0) + 1
        if not dom:
            continue
        lines.append({"T": j["T"], "x": t["toks"] or [{"k": "u"}], "ok": x["st"] == "ok", "v": x.get("v", "") if x["st"] == "ok" else "", "cmp": "full", "_j": rep, "_r": x})
    run.notes["any_bytes_judged"] = len(lines)
    for k in range(0, len(lines), 20000):
        part = lines[k:k + 20000]
        for i, exp in run.validate("DeTrace", [{a: v for a, v in l.items() if a[0] != "_"} for l in part], None):
            l = part[i]
            run.violation("%s: the bytes %s gave %s, the specification says %s" % (l["T"], show(l["_j"]), json.dumps(l["v"]) if l["ok"] else "an error", json.dumps(exp)), l["_j"])
    for l in lines[::max(1, len(lines) // 4)][:4]:
        run.sample({"type": l["T"], "bytes": show(l["_j"])[:300], "outcome": l["v"] if l["ok"] else "error"})
    # size: long, wide and deep
    big = []
    n = scale(run, 20000, 200000)
    def job(tn, data):
        big.append({"op": "de", "T": tn, "x": data, "stack": 2})
    for wrap in ("<Leaf>%s<x>7</x></Leaf>", "<Leaf><x>7</x>%s</Leaf>"):
        job("Leaf", wrap % ("<u>" * n + "</u>" * n))
        job("Leaf", wrap % ("<u/>" * n))
        job("Leaf", wrap % ("<u>" * n))
        job("Leaf", wrap % ("z" * n * 10))
        job("Leaf", wrap % ("<!-- c -->" * n))
        job("Leaf", wrap % ("<u %s/>" % " ".join("a%d='1'" % i for i in range(2000))))
        job("Leaf", wrap % ("<?pi?>" * n))
    job("Leaf", "<Leaf %s><x>7</x></Leaf>" % " ".join("a%d='1'" % i for i in range(3000)))
    job("Leaf", "<Leaf %s><x>7</x></Leaf>" % " ".join("xmlns:a%d='urn:%d'" % (i, i) for i in range(1000)))
    job("LeafS", "<LeafS><s>%s</s></LeafS>" % ("&amp;" * n))
    job("LeafS", "<LeafS><s>%s</s></LeafS>" % ("<![CDATA[a]]>" * n))
    job("Eli32", "<Eli32><one>1</one>%s</Eli32>" % "".join("<vec>%d</vec>" % i for i in range(n)))
    job("Avi32", "<Avi32 list='%s'/>" % " ".join(str(i) for i in range(n)))
    job("Eli32", "<Eli32><one>%s1</one></Eli32>" % ("0" * n))
    job("Eli32", "<Eli32><one>%s</one></Eli32>" % ("9" * n))
    job("Elf64", "<Elf64><one>%s</one></Elf64>" % ("9" * n))
    job("Elf64", "<Elf64><one>1e%s</one></Elf64>" % ("9" * n))
    job("Shape", "<Shape>%s<Circle>7</Circle></Shape>" % ("<u>" * n + "</u>" * n))
    job("Shape", "<Shape>%s</Shape>" % ("<Circle>7</Circle>" * n))
    job("Color", "<Color>%s</Color>" % ("Red" * n))
    job("FlA", "<FlA id='1'><n>7</n>%s</FlA>" % ("<note>q</note>" * (n // 10)))
    job("FlA", "<FlA id='1'><n>7</n>%s</FlA>" % ("<u>" * (n // 10) + "</u>" * (n // 10)))
    job("RootFl", "<a>1</a>" + "<l><x>7</x></l>" * (n // 10))
    job("Tree", "<tree id='1'>" * 60 + "</tree>" * 60)
    job("Chain", "<Chain><Next><Next><Ref id='1'/></Next></Next></Chain>")
    job("Leaf", "<!DOCTYPE Leaf [<!ENTITY a 'lol'><!ENTITY b '&a;&a;&a;&a;&a;&a;&a;&a;&a;&a;'><!ENTITY c '&b;&b;&b;&b;&b;&b;&b;&b;&b;&b;'><!ENTITY d '&c;&c;&c;&c;&c;&c;&c;&c;&c;&c;'><!ENTITY e '&d;&d;&d;&d;&d;&d;&d;&d;&d;&d;'><!ENTITY f '&e;&e;&e;&e;&e;&e;&e;&e;&e;&e;'>]><Leaf><x>&f;</x></Leaf>")
    res = run.jobs(big, timeout=30)
    vp.check_harness(big, res)
    slow = []
    for j, x in zip(big, res):
        if x["st"] not in ("ok", "err", "notrun"):
            run.violation("%s: deserialization of a large document (%s..., %d bytes) ended in a %s" % (j["T"], j["x"][:80], len(j["x"]), x["st"]), {"T": j["T"], "head": j["x"][:200], "bytes": len(j["x"])})
        slow.append({"T": j["T"], "head": j["x"][:60], "bytes": len(j["x"]), "outcome": x["st"]})
    run.notes["large_documents"] = len(big)
    # recursion of the type itself: bounded by the stack only
    deep = [{"op": "de", "T": "Tree", "x": "<tree id='1'>" * DEEP_TREE + "</tree>" * DEEP_TREE, "stack": 2}]
    res = run.jobs(deep, timeout=30)
    if res[0]["st"] not in ("ok", "err", "notrun"):
        run.violation("Tree: deserialization of %d nested elements of a recursive type ended in a %s" % (DEEP_TREE, res[0]["st"]), {"probe": "recursive-type-depth", "T": "Tree", "levels": DEEP_TREE, "stack_mib": 2, "outcome": res[0]["st"]})


# ------------------------------------------------------------------ declarations
@check("C01")
def c01(run):
    import randtypes
    rng = run.rng
    full = catalogue.build()
    maker = randtypes.Maker(rng, "q", full)
    made = maker.types(scale(run, 70, 400))
    for t in made:
        full.add(t)
    err = run.build(full)
    if err:
        # which declarations are refused
        first = [l for l in err.splitlines() if l.startswith("error")][:4]
        run.violation("declarations yaserde supports do not compile: %s" % "; ".join(first) + "\n" + err[:3000], {"compile": first})
        return
    cat = run.cat
    names = [t.name for t in made]
    b = DeBatch(run)
    de_mix(run, b, names, scale(run, 40, 400), [Opts(optp=.8), mess(), Opts(missing=.2, dup=.2), mess(wrongns=.2, unknown=.4), Opts(optp=.9, vecmax=4)])
    de_mix(run, b, roots(cat, "base", "attr", "ren", "gen", "enum"), scale(run, 8, 100), [Opts(optp=.8), mess()])
    b.run()
    ser_batch(run, names, scale(run, 25, 300))
    rt_batch(run, [n for n in names if rt_ok(cat, n)], scale(run, 20, 200), vals.VOpts(emptyseq=False, nan=False))
    rt_batch(run, [n for n in ser_roots(cat, "ren", "gen") if rt_ok(cat, n)], scale(run, 20, 200), vals.VOpts(emptyseq=False, nan=False))
    run.notes["random_declarations"] = len(made)
