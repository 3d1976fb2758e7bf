"""Recorded serializations judged by the specification (SerTrace)."""
import json
import longlists
import vp
import xmlread


def ns_context(t):
    """Declarations needed to read content apart from its root element."""
    out = ""
    for p, u in sorted(getattr(t, "ns", {}).items()):
        out += ' xmlns%s="%s"' % ("" if p == getattr(t, "defns", None) else ":" + p, u.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;"))
    return out


class SerBatch:
    def __init__(self, run):
        self.r, self.lines = run, []

    def add(self, tn, v, xml, kind="doc", replay=None, layout=False, pump=0):
        """Records the document `xml` written for v; well-formedness is judged here, the content by TLC."""
        r = self.r
        t = r.cat.types[tn]
        body = xml
        if body.startswith("<?xml"):
            body = body[body.index("?>") + 2:]
        try:
            forest = kind == "body" or getattr(t, "flatten", False)
            ctx = ns_context(t) if forest else None
            nodes = xmlread.read(body, True, ctx) if forest else xmlread.read(body)
        except xmlread.NotWellFormed as e:
            r.violation("%s: the document written for %s is not well-formed (%s): %s" % (tn, json.dumps(v, ensure_ascii=False), e, xml[:800]), replay or {"T": tn, "v": v})
            return False
        if pump:
            nodes = longlists.shrink(nodes, pump)
        if layout:
            nodes = xmlread.strip_layout(nodes)
        self.lines.append({"T": tn, "v": v, "x": nodes, "kind": kind, "_xml": xml, "_r": replay or {"T": tn, "v": v}})
        return True

    def run(self):
        r = self.r
        n = 0
        for k in range(0, len(self.lines), 20000):
            part = self.lines[k:k + 20000]
            for i, exp in r.validate("SerTrace", [{a: b for a, b in l.items() if a[0] != "_"} for l in part], None):
                l = part[i]
                n += 1
                r.violation("%s: %s was written as %s, the specification says %s" % (l["T"], json.dumps(l["v"], ensure_ascii=False), l["_xml"][:800], json.dumps(exp, ensure_ascii=False)[:800]), l["_r"])
        step = max(1, len(self.lines) // 4)
        for l in self.lines[::step][:4]:
            r.sample({"type": l["T"], "value": l["v"], "document": l["_xml"][:300]})
        r.notes["written_documents"] = r.notes.get("written_documents", 0) + len(self.lines)
        self.lines = []
