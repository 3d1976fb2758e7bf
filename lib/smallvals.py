"""Every value of a type up to a budget of departures from the plainest one: ValMC enumerates and writes them, and each is replayed."""
import json
import re
import vp
import xmlread
from catalogue import SCALARS
from docs import INTR
from serchecks import ns_context

HARD = ["a<b&c>d", "]]>", "x y", "'\"", "&amp;", "<a/>", "--", "a", "7", "]]", "<![CDATA[x]]>", "&", "<", ">", "x  y", "=", "#"]


def pools(cat, rng, rt):
    """The literals of a scenario: the first is the plain one."""
    p = {}
    for t in SCALARS:
        if t == "bool":
            p[t] = rng.sample(["true", "false"], 2)
        elif t in INTR:
            lo, hi = INTR[t]
            p[t] = rng.sample([str(x) for x in {0, 1, 7, lo, hi, rng.randint(lo, hi)}], 2)
        elif t in ("f32", "f64"):
            p[t] = rng.sample(["0", "-0", "1.5", "-0.25", "inf", "-inf", "1000000"] + ([] if rt else ["NaN"]), 2)
    hard = lambda: rng.choice(HARD)
    pad = [] if rt else rng.choice([[], [" "], [" a"], ["a\n"], [" x "]])
    p["elem"] = list(dict.fromkeys(["", hard(), hard()][rng.randrange(2):] + pad))
    p["text"] = list(dict.fromkeys(["", hard()][rng.randrange(2):] + pad))
    p["otext"] = list(dict.fromkeys([hard(), hard()]))
    p["cdata"] = list(dict.fromkeys([hard(), "", rng.choice(["]]>", "]]", "a]]>b]]>", "]]]]>"])]))
    p["attr"] = list(dict.fromkeys([rng.choice(["", "a", "x y"]), hard(), rng.choice(["\n", " ", "a", "'\"<"])]))
    p["word"] = list(dict.fromkeys([rng.choice(["a", "&"]), rng.choice(["b<c", "'\"", ">", "a"])]))
    p["safe"] = list(dict.fromkeys([rng.choice(["s", "t2"]), hard().strip(), rng.choice(["&amp;", "a<b>", "&lt;k/>", "'\"", "é&"])]))
    for n in cat.order:
        t = cat.types[n]
        if t.kind == "new" and t.how in ("hex", "hexbits"):
            p[n] = ["%02X" % x for x in rng.sample([0, 1, 0x7f, 0x80, INTR[t.base][1]] if t.how == "hex" else [0, 1, 2, 3, 0x80, 0x83], 2)]
        elif t.kind == "new" and t.how == "disp":
            p[n] = ["%dcm" % x for x in rng.sample([0, 5, -3, 2**31 - 1, -2**31], 2)]
    return p


def scenario(cat, tn, rng, budget, rt):
    return {"T": tn, "pool": pools(cat, rng, rt), "budget": budget, "rt": rt, "full": rt}


def canon(c):
    """Nodes with character data put together and attributes in order."""
    out = []
    for x in c:
        if x["k"] == "e":
            out.append(("e", x["ns"], x["n"], tuple(sorted(tuple(a) for a in x["a"])), canon(x["c"])))
        elif x["k"] == "t" and out and out[-1][0] == "t":
            out[-1] = ("t", out[-1][1] + x["t"])
        else:
            out.append((x["k"], x["t"]))
    return out


def enumerate_vals(run, scenarios):
    path = run.work + "/values.ndjson"
    with open(path, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s) + "\n")
    out, dist, gen, rc = run.tlc("ValMC", None, {"VP_SCENARIOS": path}, heap="12g")
    if rc != 0:
        raise vp.CheckError("TLC refutes the specification ValMC:\n%s" % "\n".join(l for l in out.splitlines() if not l.startswith('<<"VAL"'))[-4000:])
    run.notes.setdefault("models", []).append({"module": "ValMC", "scenarios": len(scenarios), "states": dist, "transitions": gen})
    found = []
    for m in re.finditer(r'<<\s*"VAL",\s*(\d+),\s*"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"\s*>>', out.replace("\n", " ")):
        found.append((scenarios[int(m.group(1)) - 1], vp.unquote(m.group(2)), vp.unquote(m.group(3))))
    if len(found) != out.count('"VAL"'):
        raise vp.CheckError("ValMC's values could not be read")
    return found


def replay(run, scenarios):
    found = enumerate_vals(run, scenarios)
    rng = run.rng
    jobs = []
    for s, v, _ in found:
        j = {"op": "rt" if s["rt"] else "ser", "T": s["T"], "v": v}
        if not s["rt"]:
            j["m"] = "string"
        jobs.append(j)
    res = run.jobs(jobs)
    vp.check_harness(jobs, res)
    n = 0
    for (s, v, want), j, x in zip(found, jobs, res):
        if x["st"] == "notrun":
            continue
        n += 1
        rep = {k: j[k] for k in j if k != "id"}
        what = "%s: %s" % (s["T"], json.dumps(v, ensure_ascii=False))
        if "x" not in x or x["st"] not in ("ok", "err"):
            run.violation("%s ended in %s (%s)" % (what, x["st"], x.get("e")), rep)
            continue
        body = x["x"][x["x"].index("?>") + 2:] if x["x"].startswith("<?xml") else x["x"]
        forest = getattr(run.cat.types[s["T"]], "flatten", False)
        try:
            nodes = xmlread.read(body, True, ns_context(run.cat.types[s["T"]])) if forest else xmlread.read(body)
        except xmlread.NotWellFormed as e:
            run.violation("%s was written as %s, which is not well-formed (%s)" % (what, x["x"], e), rep)
            continue
        if canon(nodes) != canon(want):
            run.violation("%s was written as %s, the specification says %s" % (what, x["x"], json.dumps(want, ensure_ascii=False)[:900]), rep)
        elif s["rt"] and (x["st"] != "ok" or x.get("v") != v or not x.get("eq")):
            run.violation("%s was written as %s and read back as %s" % (what, x["x"], json.dumps(x.get("v"), ensure_ascii=False) if x["st"] == "ok" else x["st"] + " " + str(x.get("e"))), rep)
    run.traces += n
    run.notes["enumerated_values"] = run.notes.get("enumerated_values", 0) + n
    for s, v, want in found[::max(1, len(found) // 3)][:3]:
        run.sample({"type": s["T"], "value": v, "document": want})


# per check: scenarios per type and budget, quick and thorough
BUDGETS = {"S01": ((1, 3), (2, 4)), "S02": ((2, 3), (6, 4)), "S03": ((2, 3), (6, 4)), "S07": ((2, 3), (6, 4)), "R01": ((1, 3), (2, 4)), "D13": ((2, 3), (6, 4))}


def settle(run, names):
    from checks import rt_ok
    per, budget = BUDGETS[run.id][run.thorough]
    todo = [tn for tn in names if len(getattr(run.cat.types[tn], "fields", ())) <= 30 for _ in range(per)]
    run.rng.shuffle(todo)
    step = 60 if budget >= 4 else 400
    for k in range(0, len(todo), step):
        replay(run, [scenario(run.cat, tn, run.rng, budget, rt_ok(run.cat, tn)) for tn in todo[k:k + step]])
