"""C06 / C07: bitmaps."""
from harness import ref
from harness.lib import *
from harness.scen import *


def _stale(V, cfg, doc):
    for k in cfg.get("stale", ()):
        doc.append((k, V.text("stale" + k, cfg.get("stale_n", 2), ANY)))


def _judge_enc(V, doc, sp, nos, before=None):
    ok, r = attempt(V.iso.encode, doc, sp)
    V.check(ok, "encodes")
    if not ok:
        V.observe("enc", exc_view(r) if isinstance(r, V.iso.EncodeError) else type(r).__name__)
        return
    msg, e = r
    V.observe("enc", [bytes(msg), e])
    want_doc = {}
    want_enc = {}
    raw = ref.put_bitmaps(nos, want_doc, sp, want_enc)
    V.reach("maps:%d" % len(want_enc["p"]["data"] + (want_enc["1"]["data"] if "1" in want_enc else b"")))
    V.check(V.same(doc.get("p"), want_doc["p"]), "document shows the primary bitmap")
    V.check(V.same(doc.get("1"), want_doc.get("1")), "document shows the secondary bitmap exactly when used")
    V.check("65" not in doc, "indicator 65 is not a field")
    V.check(V.same(e.get("p"), want_enc["p"]), "primary bitmap bytes")
    V.check(V.same(e.get("1"), want_enc.get("1")), "secondary bitmap bytes")
    V.check("65" not in e, "indicator 65 is not encoded as a field")
    k = len(e["t"]["data"]) + (len(e["h"]["len"]) + len(e["h"]["data"]) if "h" in e else 0)
    V.check(V.same(bytes(msg[k:k + len(raw)]), raw), "bitmaps follow the message type")
    V.check(set(e) - {"h", "t", "p", "1"} == {str(n) for n in nos}, "every field of the document is encoded")


def enc_pair(V, cfg):
    """any one or two (or three) fields"""
    sp = spec_of(cfg)
    items = [("t", "0200" if sp["t"]["data_enc"] != "b" else "0200")]
    nos = []
    for j, (lo, hi) in enumerate(cfg["keys"]):
        n = V.int("f%d" % j, lo, hi)
        V.assume(n != 65)
        if nos:
            V.assume(nos[-1] < n if cfg.get("up", True) else nos[-1] > n)
        nos.append(n)
        items.append((str(n), text_input(V, "v%d" % j, "ascii", cfg["value"]) if "value" in cfg else V.text("v%d" % j, 2, HEXU)))
    _stale(V, cfg, items)
    if cfg.get("stale_first"):
        items.reverse()
    doc = V.sdict(items)
    _judge_enc(V, doc, sp, nos)


def enc_window(V, cfg):
    """any subset of a window of fields plus some fixed ones"""
    sp = spec_of(cfg)
    items = [("t", "0200")]
    nos = []
    for n in cfg["window"]:
        if n == 65 or n == 1:
            continue
        if V.bool("on%d" % n):
            nos.append(n)
            items.append((str(n), V.text("v%d" % n, 2, HEXU)))
    for n in cfg.get("also", ()):
        if n not in nos:
            nos.append(n)
            items.append((str(n), "5A"))
    _stale(V, cfg, items)
    _judge_enc(V, dict(items), sp, nos)


def enc_dense(V, cfg):
    """all fields of the range but one"""
    sp = spec_of(cfg)
    gap = V.int("gap", cfg["range"][0], cfg["range"][1])
    items = [("t", "0200")]
    nos = []
    for n in range(cfg["range"][0], cfg["range"][1] + 1):
        if n in (1, 65) or n == gap:
            continue
        nos.append(n)
        items.append((str(n), "5A"))
    _judge_enc(V, dict(items), sp, nos)


def _bits_of(byte):
    return [byte >> (7 - k) & 1 for k in range(8)]


def dec_bits(V, cfg):
    """bitmaps with symbolic bytes; every announced field is one byte"""
    sp = spec_of(cfg)
    out = b"0200"
    count = 0
    flags = []
    for m, pat in enumerate(cfg["maps"]):
        for j, b in enumerate(pat):
            if b is None:
                s = V.bytes("b%d_%d" % (m, j), 1)
                v = s[0]
            else:
                s = bytes([b])
                v = b
            if sp["p"]["data_enc"] == "b":
                out += s
            else:
                out += s.hex().upper().encode(sp["p"]["data_enc"])
            for k, x in enumerate(_bits_of(v)):
                no = m * 64 + j * 8 + k + 1
                flags.append((no, x))
                if no not in (1, 65):
                    count = count + x
    if cfg.get("most") is not None:
        V.assume(count <= cfg["most"])
    if cfg.get("least") is not None:
        V.assume(count >= cfg["least"])
    # a bitmap is present exactly when announced
    d = dict(flags)
    V.assume(d[1] == (1 if len(cfg["maps"]) > 1 else 0))
    if len(cfg["maps"]) > 1:
        V.assume(d[65] == (1 if len(cfg["maps"]) > 2 else 0))
    body = V.blob("body", 0, 200)
    V.assume(len(body) == count)
    msg = out + body
    ok, r = attempt(V.iso.decode, msg, sp)
    V.check(ok, "a message with exactly the announced fields decodes")
    if not ok:
        V.observe("dec", exc_view(r) if isinstance(r, V.iso.DecodeError) else type(r).__name__)
        return
    doc, enc = r
    V.observe("dec", [doc, enc])
    on = [no for no, x in flags if no not in (1, 65) and x == 1]
    V.reach("fields:%d" % min(len(on), 9))
    V.check(data_fields(doc) == on, "exactly the announced fields are delivered")
    V.check(data_fields(enc) == on, "exactly the announced fields are delivered (encoded)")
    V.check("65" not in doc and ("1" in doc) == (len(cfg["maps"]) > 1), "indicators are not data fields")
    for i, no in enumerate(on):
        V.check(V.same(enc[str(no)]["data"], bytes(body[i:i + 1])), "each field takes its own bytes, ascending")


def dec_all_but(V, cfg):
    """dense bitmaps: every field of the ranges but a symbolic one"""
    sp = spec_of(cfg)
    n = len(cfg["maps"])
    gap = V.int("gap", 2, 64 * n)
    V.assume(gap != 65)
    on = [f for f in range(2, 64 * n + 1) if f != 65 and f != gap]
    msg = b"0200" + bitmaps_for(on, sp)
    body = V.bytes("body", len(on))
    ok, r = attempt(V.iso.decode, msg + body, sp)
    V.check(ok, "a message with exactly the announced fields decodes")
    if not ok:
        return
    doc, enc = r
    V.observe("dec", [enc])
    V.check(data_fields(doc) == on, "exactly the announced fields are delivered")
    V.check(V.all([V.same(enc[str(no)]["data"], bytes(body[i:i + 1])) for i, no in enumerate(on)]), "each field takes its own bytes, ascending")
