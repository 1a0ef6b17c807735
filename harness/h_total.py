"""C03 / C04: decode and encode return or raise their documented error."""
from harness.lib import *
from harness.scen import *
from sx.native import all_in


def dec(V, cfg):
    sp = spec_of(cfg)
    msg = message(V, cfg, sp)
    if cfg.get("bytearray"):
        msg = bytearray(msg)
    ok, r = attempt(V.iso.decode, msg, sp)
    if not ok:
        V.check(isinstance(r, V.iso.DecodeError), "only DecodeError escapes decode")
        V.check(isinstance(r, ValueError), "DecodeError is a ValueError")
        if not isinstance(r, V.iso.DecodeError):
            V.observe("dec", type(r).__name__)
            return
    else:
        V.check(isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], dict) and isinstance(r[1], dict), "decode returns two dicts")
    see_decode(V, "dec", ok, r)


def enc(V, cfg):
    sp = spec_of(cfg)
    items = []
    for i, (k, v) in enumerate(cfg["items"]):
        key = k if isinstance(k, str) else V.text("k%d" % i, k["n"], k.get("ranges", ANY))
        if isinstance(k, dict) and k.get("first"):
            V.assume(all_in(key[:1], k["first"]))
        if isinstance(k, dict) and k.get("tag"):
            key = k["tag"] + key
        val = v if isinstance(v, str) else text_input(V, "v%d" % i, "any", v)
        items.append((key, val))
    doc = V.sdict(items)
    ok, r = attempt(V.iso.encode, doc, sp)
    if not ok:
        V.check(isinstance(r, V.iso.EncodeError), "only EncodeError escapes encode")
        V.check(isinstance(r, ValueError), "EncodeError is a ValueError")
        if not isinstance(r, V.iso.EncodeError):
            V.observe("enc", type(r).__name__)
            return
    else:
        V.check(isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], bytearray) and isinstance(r[1], dict), "encode returns bytearray and dict")
    see_encode(V, "enc", ok, r, doc)
