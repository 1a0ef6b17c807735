"""C01 encode-then-decode, C02 decode-then-encode."""
from harness.lib import *
from harness.scen import *


def enc_dec(V, cfg):
    sp = spec_of(cfg)
    doc = document(V, cfg, sp)
    given = dict(doc)
    ok, r = attempt(V.iso.encode, doc, sp)
    if not ok:
        V.check(isinstance(r, V.iso.EncodeError), "encode rejects with EncodeError")
        see_encode(V, "enc", ok, r, doc)
        return
    see_encode(V, "enc", ok, r, doc)
    msg, enc = r
    ok2, r2 = attempt(V.iso.decode, bytes(msg), sp)
    V.check(ok2, "an encoded message decodes")
    if not ok2:
        return
    doc2, enc2 = r2
    there = {k for k in doc if k in ("t", "p", "1") or k.isdigit() or (k == "h" and sp["h"]["max_len"] > 0)}
    V.check(set(doc2) == there, "same set of fields comes back")
    V.check(V.same(enc2, enc), "same encoded pieces come back")
    for k in given:
        if k in ("p", "1", "65") or k not in there:
            continue
        V.check(V.same(doc2.get(k), expected_value(given[k], sp[k])), "value of field comes back")
    for k in ("p", "1"):
        if k in doc:
            V.check(V.same(doc2.get(k), doc[k]), "bitmap text comes back")
    ok3, r3 = attempt(V.iso.encode, doc2, sp)
    V.check(ok3 and V.same(r3[0], msg), "re-encoding gives the same message")


def dec_enc(V, cfg):
    sp = spec_of(cfg)
    msg = message(V, cfg, sp)
    ok, r = attempt(V.iso.decode, msg, sp)
    if not ok:
        V.check(isinstance(r, V.iso.DecodeError), "decode rejects with DecodeError")
        see_decode(V, "dec", ok, r)
        return
    see_decode(V, "dec", ok, r)
    doc, enc = r
    first = dict(doc)
    ok2, r2 = attempt(V.iso.encode, doc, sp)
    V.check(ok2, "a decoded document encodes")
    if not ok2:
        return
    msg2, enc2 = r2
    if canonical(first, sp):
        V.reach("canonical")
        V.check(V.same(bytes(msg2), bytes(msg)), "re-encoding reproduces the message")
        V.check(V.same(enc2, enc), "re-encoding reproduces the encoded pieces")
        V.check(V.same(doc, first), "re-encoding leaves the document as decoded")
    else:
        V.reach("non-canonical")
        ok3, r3 = attempt(V.iso.decode, bytes(msg2), sp)
        V.check(ok3, "the re-encoded message decodes")
        if ok3:
            a = {k: v for k, v in first.items() if k not in ("p", "1")}
            b = {k: v for k, v in r3[0].items() if k not in ("p", "1")}
            V.check(V.same(a, b), "fields survive decode-encode-decode")


def canonical(doc, sp):
    """The bitmaps are what encode would emit: upper-case hex and no bitmap
    that announces nothing."""
    fs = data_fields(doc)
    want = bitmap_text(fs)
    if doc["p"] != want[0]:
        return False
    if ("1" in doc) != (want[1] is not None):
        return False
    return want[1] is None or doc["1"] == want[1]


def bitmap_text(fs):
    ter = [f - 128 for f in fs if f > 128]
    sec = [f - 64 for f in fs if 64 < f <= 128]
    pri = [f for f in fs if f <= 64]
    if ter:
        sec.append(1)
    if sec:
        pri.append(1)
    one = None
    if sec:
        one = bitmap_hex(sec)
        if ter:
            one += bitmap_hex(ter)
    return bitmap_hex(pri), one
