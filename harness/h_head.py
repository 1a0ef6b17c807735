"""C22: header and message type."""
from harness.lib import *
from harness.scen import *


def enc(V, cfg):
    """cfg["doc"] may or may not have h and t"""
    sp = spec_of(cfg)
    doc = document(V, cfg, sp)
    given = dict(doc)
    ok, r = attempt(V.iso.encode, doc, sp)
    see_encode(V, "enc", ok, r, doc)
    with_h = sp["h"]["max_len"] > 0
    if with_h and "h" not in given:
        V.check(not ok and isinstance(r, V.iso.EncodeError) and r.field == "h", "a specified header is required")
        return
    if "t" not in given and not with_h:
        V.check(not ok and isinstance(r, V.iso.EncodeError) and r.field == "t", "message type is required")
    if "t" not in given:
        V.check(not ok, "message type is required")
        return
    binary = sp["t"]["data_enc"] == "b"
    if binary:
        good = len(given["t"]) == 4 and all_hex(given["t"])
    else:
        good = encodable(given["t"], sp["t"]["data_enc"]) == 4
    if not good:
        V.check(not ok, "message type is four characters (two binary bytes)")
        return
    if not with_h:
        V.check(ok, "a message without header encodes, whatever the document says about it")
    if not ok:
        V.check(r.field == "h", "only the header is at fault")
        return
    msg, e = r
    if with_h:
        V.check("h" in e, "header is encoded")
        head = e["h"]["len"] + e["h"]["data"]
        lt = sp["h"]["len_type"]
        V.check(len(e["h"]["len"]) == lt, "header length indicator")
        d = bytes.fromhex(given["h"]) if sp["h"]["data_enc"] == "b" else given["h"].encode(sp["h"]["data_enc"])
        V.check(V.same(e["h"]["data"], d), "header data")
    else:
        V.check("h" not in e, "no header unless specified")
        head = b""
    typ = bytes.fromhex(given["t"]) if binary else given["t"].encode(sp["t"]["data_enc"])
    V.check(V.same(e.get("t"), {"len": b"", "data": typ}), "type piece")
    V.check(V.same(bytes(msg[:len(head) + len(typ)]), head + typ), "header, then type, come first")
    ok2, r2 = attempt(V.iso.decode, bytes(msg), sp)
    V.check(ok2, "decodes")
    if ok2:
        V.check(V.same(r2[0].get("t"), given["t"].upper() if binary else given["t"]), "type comes back")
        V.check(("h" in r2[0]) == with_h, "header comes back exactly when specified")
        if with_h:
            V.check(V.same(r2[0].get("h"), expected_value(given["h"], sp["h"])), "header comes back")


def all_hex(t):
    for c in t:
        if not ("0" <= c <= "9" or "A" <= c <= "F" or "a" <= c <= "f"):
            return False
    return True


def encodable(t, enc):
    try:
        return len(t.encode(enc))
    except Exception:
        return -1


def dec(V, cfg):
    """any bytes: the header takes its share, the type the next 2 or 4"""
    sp = spec_of(cfg)
    s = bytes_input(V, "msg", cfg["whole"])
    ok, r = attempt(V.iso.decode, s, sp)
    see_decode(V, "dec", ok, r)
    d, e = (r[0], r[1]) if ok else (r.doc_dec, r.doc_enc)
    with_h = sp["h"]["max_len"] > 0
    V.check(with_h or ("h" not in d and "h" not in e), "no header unless specified")
    if not ok and r.field == "h":
        V.check(with_h, "no header unless specified")
        return
    head = b""
    if with_h:
        V.check("h" in d and "h" in e, "header delivered")
        head = e["h"]["len"] + e["h"]["data"]
        V.check(len(e["h"]["len"]) == sp["h"]["len_type"], "header length indicator")
        V.check(V.same(s[:len(head)], head), "header is what the message starts with")
    n = 2 if sp["t"]["data_enc"] == "b" else 4
    t = s[len(head):len(head) + n]
    if len(t) < n:
        V.check(not ok and r.field == "t", "a message too short for its type is rejected there")
        return
    try:
        txt = t.hex().upper() if n == 2 else t.decode(sp["t"]["data_enc"])
    except Exception:
        V.check(not ok and r.field == "t", "an undecodable type is rejected there")
        return
    V.check(ok or r.field != "t", "any decodable type is taken")
    V.check(V.same(d.get("t"), txt), "type delivered")
    V.check(V.same(e.get("t"), {"len": b"", "data": t}), "type bytes delivered")


def header_only(V, cfg):
    """header values of every length against limits, through both directions"""
    sp = spec_of(cfg)
    h = text_input(V, "h", sp["h"]["data_enc"], cfg["h"])
    doc = {"h": h, "t": "0200"}
    ok, r = attempt(V.iso.encode, doc, sp)
    see_encode(V, "enc", ok, r, doc)
    n = len(h)
    good = n <= sp["h"]["max_len"] if sp["h"]["len_type"] else n == sp["h"]["max_len"]
    V.check(ok == good, "header obeys its limits")
    if ok:
        ok2, r2 = attempt(V.iso.decode, bytes(r[0]), sp)
        V.check(ok2 and V.same(r2[0].get("h"), h) and V.same(r2[1], r[1]), "header comes back")
        # the same message under a specification without header
        none = cp(sp)
        none["h"]["max_len"] = 0
        doc2 = {"h": h, "t": "0200"}
        ok3, r3 = attempt(V.iso.encode, doc2, none)
        V.check(ok3 and "h" not in r3[1] and V.same(bytes(r3[0]), bytes(r[0][len(r[1]["h"]["len"]) + len(r[1]["h"]["data"]):])), "only the header is left out")
        V.check(V.same(doc2.get("h"), h), "an unused header stays in the document")
