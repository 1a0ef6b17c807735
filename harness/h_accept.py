"""C08-C12: field lengths, limits, strictness and data, against ref."""
from harness import ref
from harness.lib import *
from harness.scen import *


def _fields(d):
    return [k for k in d if k not in ("h", "t", "p", "1")] + (["h"] if "h" in d else [])


def enc(V, cfg):
    """encode against the reference builder; cfg["what"] selects the checks"""
    sp = spec_of(cfg)
    doc = document(V, cfg, sp)
    want = ref.encode(doc, sp)
    ok, r = attempt(V.iso.encode, doc, sp)
    see_encode(V, "enc", ok, r, doc)
    what = cfg["what"]
    if want.ok:
        V.reach("acceptable")
    else:
        V.reach("reject:" + want.rej.why)
    if what == "limits":
        V.check(ok == want.ok, "accepted exactly when data is encodable and within limits")
    elif want.ok:
        V.check(ok, "what fits is encoded")
    elif what == "length":
        V.check(not ok or want.rej.why != "nofit", "a length its indicator cannot express is not sent")
    elif what == "data":
        V.check(not ok or want.rej.why not in ("data", "nonhex", "oddhex", "oddnib"), "what the codec cannot express is not sent")
    if not ok or not want.ok:
        return
    msg, e = r
    for k in _fields(want.enc):
        if what == "length":
            V.check(V.same(e[k]["len"], want.enc[k]["len"]), "length indicator counts the data in the specified format")
        if what == "data":
            V.check(V.same(e[k]["data"], want.enc[k]["data"]), "data is encoded as specified")
    if what == "all":
        V.check(V.same(bytes(msg), want.msg), "message as specified")


def dec(V, cfg):
    """decode against the reference parser"""
    sp = spec_of(cfg)
    msg = message(V, cfg, sp)
    want = ref.decode(msg, sp)
    ok, r = attempt(V.iso.decode, msg, sp)
    see_decode(V, "dec", ok, r)
    what = cfg["what"]
    if want.ok:
        V.reach("acceptable")
    else:
        V.reach("reject:" + want.rej.why)
    if what == "strict":
        V.check(ok == want.ok, "accepted exactly when the message is well formed")
    elif want.ok:
        V.check(ok, "what is well formed is decoded")
    elif what == "length":
        V.check(not ok or want.rej.why not in ("short", "shortlen", "toolong", "bcd", "lennum", "lendata"), "a length that is no number or does not fit is not accepted")
    elif what == "data":
        V.check(not ok or want.rej.why != "data", "data the codec does not have is not accepted")
    if not ok or not want.ok:
        return
    d, e = r
    for k in _fields(want.enc):
        if what == "length":
            V.check(V.same(e[k]["len"], want.enc[k]["len"]), "length indicator bytes")
            V.check(V.same(len(e[k]["data"]), len(want.enc[k]["data"])), "as many bytes as the length says")
        if what == "data":
            V.check(V.same(d[k], want.doc[k]), "decoded value is the data")
            V.check(V.same(e[k]["data"], want.enc[k]["data"]), "encoded data is the data")
    if what == "all":
        V.check(V.same(d, want.doc), "decoded document")
        V.check(V.same(e, want.enc), "encoded document")


def nib_enc(V, cfg):
    """nibble counted fields: everything about the field"""
    sp = spec_of(cfg)
    doc = document(V, cfg, sp)
    want = ref.encode(doc, sp)
    ok, r = attempt(V.iso.encode, doc, sp)
    see_encode(V, "enc", ok, r, doc)
    V.check(ok == want.ok, "accepted exactly when encodable")
    V.reach("acceptable" if want.ok else "reject:" + want.rej.why)
    if ok and want.ok:
        for k in _fields(want.enc):
            V.check(V.same(r[1][k], want.enc[k]), "nibble count and padding as specified")
        V.check(V.same(bytes(r[0]), want.msg), "message as specified")


def nib_dec(V, cfg):
    sp = spec_of(cfg)
    msg = message(V, cfg, sp)
    want = ref.decode(msg, sp)
    ok, r = attempt(V.iso.decode, msg, sp)
    see_decode(V, "dec", ok, r)
    for k in _fields(want.enc) if want.ok else ():
        fs = sp[k]
        if fs.get("left_pad") and fs.get("right_pad"):
            d = want.enc[k]["data"].hex()
            if len(want.doc[k]) % 2 == 1 and d[:1].upper() != fs["left_pad"][:1].upper():
                return  # the left pad takes precedence; a right pad alone is not specified
    V.check(ok == want.ok, "accepted exactly when well formed")
    V.reach("acceptable" if want.ok else "reject:" + want.rej.why)
    if ok and want.ok:
        V.check(V.same(r[0], want.doc), "pad removed, nibbles kept")
        V.check(V.same(r[1], want.enc), "encoded pieces")
