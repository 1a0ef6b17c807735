"""C19 what pp prints, C20 how it lays it out."""
from harness.lib import *
from harness.scen import *
import collections
import contextlib


def print_order(doc, sp):
    ks = []
    if "h" in doc and sp["h"]["max_len"] > 0:
        ks.append("h")
    ks += [k for k in ("t", "p") if k in doc]
    return ks + [str(i) for i in sorted([int(k) for k in doc if k not in ("h", "t", "p")])]


def fold(v, width):
    """the pieces data is printed in, when a line has room for `width`"""
    if len(v) <= 1 or len(repr(v)) <= width:
        return [repr(v)]
    if isinstance(v, str):
        w = width - 2 if width > 3 else 1
        return [repr(v[i:i + w]) for i in range(0, len(v), w)]
    out = []
    cur = b""
    for i in range(len(v)):
        nxt = cur + v[i:i + 1]
        if len(repr(nxt)) > width and cur:
            out.append(repr(cur))
            nxt = v[i:i + 1]
        cur = nxt
    out.append(repr(cur))
    return out


def field_text(k, v, sp, dw, lw):
    head = k + " " * (3 - len(k))
    if dw > 0:
        d = sp[k]["desc"][:dw]
        head += " " + d + " " * (dw - len(d))
    head += ": "
    # the key column counts as three characters
    col = 5 + (dw + 1 if dw > 0 else 0)
    if isinstance(v, dict):
        if len(v["len"]) > 0:
            r = repr(v["len"])
            head += r + " "
            col += len(r) + 1
        v = v["data"]
    return head + ("\n" + " " * col).join(fold(v, lw - col)) + "\n"


def _doc(V, cfg, sp):
    doc = {}
    for k, d in cfg["doc"].items():
        if isinstance(d, dict) and "data" in d:
            doc[k] = {"len": V.bytes("l" + k, d.get("len", 0), d.get("lranges", DIGIT)),
                      "data": V.bytes("d" + k, d["data"], d.get("ranges", BYTE))}
        elif isinstance(d, dict):
            doc[k] = V.text("v" + k, d["n"], d.get("ranges", ANY))
        else:
            doc[k] = d
    return doc


def _sizes(V, cfg):
    dw = cfg.get("dw", 30)
    lw = cfg.get("lw", 80)
    dw = dw if isinstance(dw, int) else V.int("dw", dw[0], dw[1])
    lw = lw if isinstance(lw, int) else V.int("lw", lw[0], lw[1])
    return dw, lw


def _print(V, cfg, doc, sp, dw, lw):
    out = V.stream()
    ok, r = attempt(V.iso.pp, doc, sp, dw, out, lw)
    V.check(ok, "pp prints any document")
    return ok, "".join(out.parts)


def layout(V, cfg):
    sp = spec_of(cfg)
    if "desc" in cfg:
        for k, n in cfg["desc"].items():
            sp[k]["desc"] = V.text("desc" + k, n, PRINT)
    doc = _doc(V, cfg, sp)
    dw, lw = _sizes(V, cfg)
    given = doc
    if cfg.get("subs"):
        given = {k: {"len": v["len"], "data": V.of_subclass(v["data"])} if isinstance(v, dict) else V.of_subclass(v) for k, v in doc.items()}
    ok, txt = _print(V, cfg, given, sp, dw, lw)
    V.observe("out", txt)
    if not ok:
        return
    want = "".join([field_text(k, doc[k], sp, dw, lw) for k in print_order(doc, sp)])
    V.check(V.same(txt, want), "text is laid out as documented")
    if cfg.get("narrow"):
        # no escapes, room for a character: the width is respected
        col = 5 + (dw + 1 if dw > 0 else 0)
        if lw - col >= cfg["narrow"]:
            for line in txt.split("\n"):
                V.check(len(line) <= lw, "no line is longer than line_width")


def content(V, cfg):
    """judged without assuming where lines are folded"""
    sp = spec_of(cfg)
    doc = _doc(V, cfg, sp)
    dw, lw = _sizes(V, cfg)
    given = doc
    if cfg.get("subs"):
        given = collections.OrderedDict([(k, collections.OrderedDict(v) if isinstance(v, dict) else v) for k, v in doc.items()])
    ok, txt = _print(V, cfg, given, sp, dw, lw)
    V.observe("out", txt)
    if not ok:
        return
    order = print_order(doc, sp)
    V.check(txt[-1:] == "\n" or len(order) == 0, "output ends with a line end")
    lines = txt.split("\n")[:-1]
    # assign lines to fields
    groups = []
    for ln in lines:
        if ln[:1] == " ":
            if groups:
                groups[-1].append(ln)
            else:
                V.fail("first line starts with a field")
        else:
            groups.append([ln])
    V.check(len(groups) == len(order), "one entry per field of the document")
    if len(groups) != len(order):
        return
    for g, k in zip(groups, order):
        first = g[0]
        V.check(first[:len(k)] == k and first[len(k):3] == " " * (3 - len(k)), "fields are printed in order, each under its name")
        if dw > 0:
            d = sp[k]["desc"][:dw]
            V.check(V.same(first[max(3, len(k)) + 1:max(3, len(k)) + 1 + len(d)], d), "description")
        at = first.find(": ", max(3, len(k)) + (dw + 1 if dw > 0 else 0))
        V.check(at >= 0, "a colon precedes the data")
        rest = first[at + 2:]
        v = doc[k]
        if isinstance(v, dict):
            if len(v["len"]) > 0:
                r = repr(v["len"])
                V.check(V.same(rest[:len(r) + 1], r + " "), "length indicator precedes the data")
                rest = rest[len(r) + 1:]
            v = v["data"]
        _pieces(V, v, [rest] + [x.lstrip(" ") for x in g[1:]])


def _pieces(V, v, lits):
    """the literals are reprs of consecutive parts making up v"""
    a = 0
    for lit in lits:
        b = a
        while b < len(v) and len(repr(v[a:b])) < len(lit):
            b += 1
        V.check(V.same(repr(v[a:b]), lit), "printed data is the data")
        V.check(b > a or len(v) == 0, "no empty pieces")
        a = b
    V.check(a == len(v), "all of the data is printed")


def order(V, cfg):
    """whatever the order and choice of fields in the document"""
    sp = spec_of(cfg)
    keys = list(cfg["keys"])
    doc = {}
    while keys:
        i = V.int("pick%d" % len(keys), 0, len(keys) - 1)
        k = keys.pop(i)
        if V.bool("has%s" % k):
            doc[k] = "v" + k
    ok, txt = _print(V, cfg, doc, sp, 0, 80)
    V.observe("out", txt)
    want = ""
    for k in print_order(doc, sp):
        want += k + " " * (3 - len(k)) + ": 'v" + k + "'\n"
    V.check(ok and V.same(txt, want), "header, type, bitmap, then fields by number")


def sym_order(V, cfg):
    """fields with symbolic numbers"""
    sp = spec_of(cfg)
    items = []
    nos = []
    for j, (lo, hi) in enumerate(cfg["ranges"]):
        n = V.int("f%d" % j, lo, hi)
        nos.append(n)
        items.append((str(n), V.text("v%d" % j, 1, PRINT)))
    doc = V.sdict(items)
    ok, txt = _print(V, cfg, doc, sp, 0, 80)
    V.observe("out", txt)
    want = ""
    for k in print_order(doc, sp):
        want += k + " " * (3 - len(k)) + ": " + repr(doc[k]) + "\n"
    V.check(ok and V.same(txt, want), "fields are printed by number")


def streams(V, cfg):
    """only write() is needed; without a stream the current sys.stdout is used"""
    sp = spec_of(cfg)
    doc = _doc(V, cfg, sp)
    a = V.stream()
    V.iso.pp(doc, sp, stream=a)
    want = "".join([field_text(k, doc[k], sp, 30, 80) for k in print_order(doc, sp)])
    V.check(V.same("".join(a.parts), want), "defaults: description 30, line 80")
    c = V.stream(empty=True)
    V.iso.pp(doc, sp, stream=c)
    V.check(V.same("".join(c.parts), want), "to the stream given, whatever its truth value")
    b = V.stream()
    with contextlib.redirect_stdout(b):
        V.iso.pp(doc, sp)
    V.check(V.same("".join(b.parts), want), "sys.stdout of the time of the call")
    V.observe("out", "".join(a.parts))
