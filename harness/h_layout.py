"""C05: the message is header, type, bitmaps and fields in ascending order."""
from harness.lib import *
from harness.scen import *


def _joined(enc):
    out = b""
    for k in wire_order(enc):
        out += enc[k]["len"] + enc[k]["data"]
    return out


def enc(V, cfg):
    sp = spec_of(cfg)
    doc = document(V, cfg, sp)
    ok, r = attempt(V.iso.encode, doc, sp)
    see_encode(V, "enc", ok, r, doc)
    if not ok:
        return
    msg, e = r
    V.check(V.same(bytes(msg), _joined(e)), "message is the pieces in wire order")
    want = {k for k in doc if k in ("t", "p", "1") or k.isnumeric()}
    if sp["h"]["max_len"] > 0:
        want.add("h")
    V.check(set(e) == want, "one encoded piece per field of the document")
    for k in e:
        V.check(set(e[k]) == {"len", "data"}, "pieces are len and data")


def dec(V, cfg):
    sp = spec_of(cfg)
    msg = message(V, cfg, sp)
    ok, r = attempt(V.iso.decode, msg, sp)
    see_decode(V, "dec", ok, r)
    if not ok:
        return
    d, e = r
    V.check(V.same(bytes(msg), _joined(e)), "message is the pieces in wire order")
    V.check(set(e) == set(d), "decoded and encoded documents have the same fields")
    for k in e:
        V.check(set(e[k]) == {"len", "data"}, "pieces are len and data")
    V.check(list(d) == wire_order(e), "document lists the fields in wire order")
