"""Scenarios: symbolic messages and documents described by a configuration."""
from harness.lib import *


def spec_of(cfg):
    return make_spec(cfg["spec"])


def pick(V, name, lo, hi):
    """a number of the range, one path for each"""
    n = V.int(name, lo, hi)
    while lo < hi:
        mid = (lo + hi) // 2
        if n <= mid:
            hi = mid
        else:
            lo = mid + 1
    return lo


def message(V, cfg, sp):
    """A message for decode().

    "whole": n        n arbitrary bytes (or a blob)
    otherwise         header + type + bitmaps of cfg["on"] + arbitrary body
    """
    if "raw" in cfg:
        return bytes.fromhex(cfg["raw"])
    if "whole" in cfg:
        return bytes_input(V, "msg", cfg["whole"], cfg.get("ranges", BYTE))
    if "maps" in cfg:
        return bitmap_message(V, cfg)
    out = b""
    if sp["h"]["max_len"] > 0:
        hdr = cfg.get("hdr", 2)
        if isinstance(hdr, dict):
            # a given length indicator and as many arbitrary bytes
            out += bytes.fromhex(hdr["ind"]) + V.bytes("hdr", hdr["n"])
        else:
            out += bytes_input(V, "hdr", hdr)
    if cfg.get("sym_type"):
        out += V.bytes("t", 2 if sp["t"]["data_enc"] == "b" else 4)
    else:
        out += b"\x02\x00" if sp["t"]["data_enc"] == "b" else "0200".encode(sp["t"]["data_enc"])
    if "textat" in cfg:
        # a bitmap of text, "0" but for arbitrary bytes at some positions
        zero = "0".encode(sp["p"]["data_enc"])
        # ("same": positions which all hold one arbitrary byte)
        one = V.bytes("same", 1) if cfg.get("same") else None
        for j in range(16):
            out += one if j in cfg.get("same", ()) else V.bytes("m%d" % j, 1) if j in cfg["textat"] else zero
    elif "given" in cfg:
        for m, pat in enumerate(cfg["given"]):
            e = sp["p" if m == 0 else "1"]["data_enc"]
            out += bytes(pat) if e == "b" else bytes(pat).hex().upper().encode(e)
    else:
        out += bitmaps_for([pick(V, "no", *cfg["no"])] if "no" in cfg else cfg["on"], sp)
    if cfg.get("cut"):
        out = out[:V.int("cut", 0, len(out))]
    if cfg.get("body", 0) != 0:
        out += bytes_input(V, "body", cfg["body"], cfg.get("ranges", BYTE))
    return out


def bitmap_message(V, cfg):
    """Bitmaps with symbolic bytes (at most cfg["most"] bits set in them) and
    an arbitrary body."""
    out = b"0200"
    ones = 0
    for m, pat in enumerate(cfg["maps"]):
        # pat: list of 8 ints (fixed byte) or None (symbolic byte)
        for j, b in enumerate(pat):
            if b is None:
                s = V.bytes("b%d_%d" % (m, j), 1)
                out += s
                for k in range(8):
                    ones = ones + (s[0] >> k & 1)
            else:
                out += bytes([b])
    if cfg.get("most") is not None:
        V.assume(ones <= cfg["most"])
    if cfg.get("body", 0) != 0:
        out += bytes_input(V, "body", cfg["body"], cfg.get("ranges", BYTE))
    return out


def document(V, cfg, sp):
    """A document for encode(): cfg["doc"] maps key -> literal text or a
    description of a symbolic one."""
    doc = {}
    for k, d in cfg["doc"].items():
        if k == "N":
            k = str(pick(V, "no", *cfg["no"]))
        if isinstance(d, str):
            doc[k] = d
        else:
            doc[k] = text_input(V, "v" + k, sp[k]["data_enc"] if k in sp else "ascii", d)
    return doc


def exc_view(e):
    return {"type": type(e).__name__, "msg": e.msg, "field": e.field, "text": str(e)}


def see_decode(V, name, ok, r):
    if ok:
        V.reach("accepted")
        V.observe(name, [r[0], r[1]])
    else:
        V.reach("rejected")
        v = exc_view(r)
        v["pos"] = r.pos
        V.observe(name, [v, r.doc_dec, r.doc_enc])


def see_encode(V, name, ok, r, doc):
    if ok:
        V.reach("accepted")
        V.observe(name, [bytes(r[0]), r[1], doc])
    else:
        V.reach("rejected")
        V.observe(name, [exc_view(r), r.doc_enc, doc])


def expected_value(txt, fs):
    """what decoding gives back for an encoded field value"""
    return txt.upper() if fs["data_enc"] == "b" else txt
