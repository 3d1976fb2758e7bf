"""What an independent, namespace-aware parser (expat) reads from a document."""
import xml.parsers.expat as ex


class NotWellFormed(Exception):
    pass


def read(data, forest=False, ctx=None):
    """Root nodes of the document (list of element and text nodes). forest: `data` is content, not a document;
    ctx: namespace declarations in scope there, as attributes text."""
    if isinstance(data, str):
        data = data.encode()
    if forest:
        data = b"<vp-wrap" + (ctx or "").encode() + b">" + data + b"</vp-wrap>"
    p = ex.ParserCreate(namespace_separator="\x01")
    p.buffer_text = False
    p.ordered_attributes = True
    stack = [{"c": []}]
    state = {"cd": False}

    def name(n):
        u, _, l = n.rpartition("\x01")
        return u, l

    def start(n, a):
        u, l = name(n)
        at = []
        for i in range(0, len(a), 2):
            au, al = name(a[i])
            at.append([au, al, a[i + 1]])
        e = {"k": "e", "ns": u, "n": l, "a": at, "c": []}
        stack[-1]["c"].append(e)
        stack.append(e)

    def end(n):
        stack.pop()

    def chars(s):
        c = stack[-1]["c"]
        k = "c" if state["cd"] else "t"
        if c and c[-1]["k"] == k:
            c[-1]["t"] += s
        else:
            c.append({"k": k, "t": s})

    def cds():
        state["cd"] = True
        c = stack[-1]["c"]
        if not c or c[-1]["k"] != "c":
            c.append({"k": "c", "t": ""})

    def cde():
        state["cd"] = False
    other = []
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.StartCdataSectionHandler, p.EndCdataSectionHandler = cds, cde
    p.CommentHandler = lambda s: other.append("comment")
    p.ProcessingInstructionHandler = lambda a, b: other.append("pi")
    try:
        p.Parse(data, True)
    except ex.ExpatError as e:
        raise NotWellFormed(str(e))
    if other:
        raise NotWellFormed("unexpected " + other[0])
    c = stack[0]["c"]
    return c[0]["c"] if forest else c


def strip_layout(nodes):
    """Drops white space between elements (of an indented document)."""
    out = []
    for x in nodes:
        if x["k"] == "t" and not x["t"].strip(" \t\r\n"):
            continue
        out.append(dict(x, c=strip_layout(x["c"])) if x["k"] == "e" else x)
    return out
