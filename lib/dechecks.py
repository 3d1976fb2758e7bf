"""Recorded deserializations judged by the specification (DeTrace)."""
import json
import docs
import vp


class DeBatch:
    """Documents with several spellings each; the outcomes go to TLC."""
    def __init__(self, run):
        self.r, self.cases = run, []

    def add(self, tn, toks, spellings, cmp="full", why=""):
        """spellings: list of job dicts (x/xb, m, chunks, intr ...) that must all have the outcome of `toks`."""
        self.cases.append((tn, toks, spellings, cmp, why))

    def run(self):
        r = self.r
        jobs, back = [], []
        for ci, (tn, toks, sp, cmp, why) in enumerate(self.cases):
            for s in sp:
                j = {"op": "de", "T": tn}
                j.update(s)
                jobs.append(j)
                back.append(ci)
        res = r.jobs(jobs)
        vp.check_harness(jobs, res)
        lines, seen = [], {}
        bad = 0
        for j, x, ci in zip(jobs, res, back):
            tn, toks, _, cmp, why = self.cases[ci]
            if x["st"] in ("panic", "hang", "abort"):
                r.violation("%s: deserialization ended in a %s (%s) on %s" % (tn, x["st"], x.get("e", ""), show(j)), dict(j, outcome=x["st"]))
                bad += 1
                continue
            if x["st"] == "notrun":
                continue
            key = (ci, x["st"], json.dumps(x.get("v")))
            if key in seen:
                continue
            seen[key] = len(lines)
            lines.append({"T": tn, "x": toks, "ok": x["st"] == "ok", "v": x.get("v", "") if x["st"] == "ok" else "", "cmp": cmp, "_j": j, "_r": x, "_w": why})
        oks = sum(1 for l in lines if l["ok"])
        for k in range(0, len(lines), 20000):
            part = lines[k:k + 20000]
            for i, exp in r.validate("DeTrace", [{a: b for a, b in l.items() if a[0] != "_"} for l in part], None):
                l = part[i]
                got = "value %s" % json.dumps(l["v"], ensure_ascii=False) if l["ok"] else "error (%s)" % l["_r"].get("e")
                want = "?" if not isinstance(exp, dict) else ("value %s" % json.dumps(exp["v"], ensure_ascii=False) if exp["ok"] else "an error")
                r.violation("%s%s: %s gave %s, the specification says %s" % (l["T"], " [" + l["_w"] + "]" if l["_w"] else "", show(l["_j"]), got, want),
                            dict({k: v for k, v in l["_j"].items() if k != "id"}, got=got, want=want))
        step = max(1, len(lines) // 4)
        for l in lines[::step][:4]:
            r.sample({"type": l["T"], "document": show(l["_j"])[:300], "outcome": l["v"] if l["ok"] else "error"})
        r.notes["documents"] = r.notes.get("documents", 0) + len(self.cases)
        r.notes["accepted"] = r.notes.get("accepted", 0) + oks
        r.notes["refused"] = r.notes.get("refused", 0) + len(lines) - oks
        self.cases = []


def show(j):
    if "xb" in j:
        try:
            return bytes.fromhex(j["xb"]).decode()[:600]
        except UnicodeDecodeError:
            return "hex " + j["xb"][:600]
    return str(j.get("x"))[:600]


def hexed(b):
    try:
        return {"x": b.decode()}
    except UnicodeDecodeError:
        return {"xb": b.hex()}


def spellings(run, toks, n=1, chunked=True):
    """n byte spellings of one token sequence; the first one plain."""
    out = []
    rng = run.rng
    for k in range(n):
        b = docs.Render(rng, plain=(k == 0)).bytes(toks)
        s = hexed(b)
        if chunked and rng.random() < .3:
            s.update(m="reader", chunks=rng.choice([[1], [2, 3], [7], [1, 64], [4096]]), intr=rng.random() < .3)
        out.append(s)
    return out
