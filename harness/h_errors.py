"""C13/C14: what the errors say.  C15: errors survive copying."""
import collections

from harness import ref
from harness.lib import *
from harness.scen import *


def size_text(rej):
    """The numbers an error about sizes has to name, or None."""
    if rej.why in ("short", "size"):
        return "Field data is " + str(rej.sizes[0]) + " " + rej.sizes[2] + ", expecting " + str(rej.sizes[1])
    if rej.why == "toolong":
        return "Field data is " + str(rej.sizes[0]) + " " + rej.sizes[2] + ", larger than maximum " + str(rej.sizes[1])
    if rej.why == "shortlen":
        return "Field length is " + str(rej.sizes[0]) + " bytes wide, expecting " + str(rej.sizes[1])
    return None


def _partial(V, got, want, field, what):
    for k in want:
        if k != field:
            V.check(V.same(got.get(k), want[k]), "fields before the failure are in the partial " + what)
    V.check(V.all([k in want or k == field for k in got]), "nothing past the failure is in the partial " + what)


def dec(V, cfg):
    sp = spec_of(cfg)
    msg = message(V, cfg, sp)
    given = bytearray(msg) if cfg.get("bytearray") else msg
    want = ref.decode(msg, sp)
    ok, r = attempt(V.iso.decode, given, sp)
    see_decode(V, "dec", ok, r)
    if ok or want.ok:
        return
    V.reach("reject:" + want.rej.why)
    V.check(isinstance(r, V.iso.DecodeError), "DecodeError")
    V.check(V.same(r.field, want.rej.field), "error names the failing field")
    V.check(V.same(r.pos, want.rej.pos), "error gives the offset of the failing item")
    V.check(isinstance(r.msg, str) and len(r.msg) > 0, "error has a message")
    V.check(V.same(str(r), r.msg + ": field " + want.rej.field + " pos " + str(want.rej.pos)), "error text names message, field and position")
    V.check(V.same(bytes(r.s), bytes(msg)), "error carries the data")
    _partial(V, r.doc_dec, want.doc, want.rej.field, "decoded document")
    _partial(V, r.doc_enc, want.enc, want.rej.field, "encoded document")
    t = size_text(want.rej)
    if t is not None:
        V.check(V.same(r.msg, t), "error names actual and allowed sizes")


def enc(V, cfg):
    sp = spec_of(cfg)
    doc = document(V, cfg, sp)
    want = ref.encode(doc, sp)
    ok, r = attempt(V.iso.encode, doc, sp)
    see_encode(V, "enc", ok, r, doc)
    if ok or want.ok:
        return
    V.reach("reject:" + want.rej.why)
    V.check(isinstance(r, V.iso.EncodeError), "EncodeError")
    V.check(V.same(r.field, want.rej.field), "error names the failing field")
    V.check(isinstance(r.msg, str) and len(r.msg) > 0, "error has a message")
    V.check(V.same(str(r), r.msg + ": field " + want.rej.field), "error text names message and field")
    V.check(V.same({k: r.doc_dec.get(k) for k in doc}, doc), "error carries the document")
    _partial(V, r.doc_enc, want.enc, want.rej.field, "encoded document")
    t = size_text(want.rej)
    if t is not None:
        V.check(V.same(r.msg, t), "error names actual and allowed sizes")


def _copies(V, r, names, label):
    kept = {n: V.snapshot(getattr(r, n)) for n in names}
    def pickled(p):
        return lambda x: V.pickle(x, p)

    hows = [("pickle protocol %d" % p, pickled(p)) for p in (0, 1, 2, 4, 5)] + [("copy", V.copy), ("deepcopy", V.deepcopy)]
    for how, f in hows:
        ok, c = attempt(f, r)
        V.check(ok, label + " survives " + how)
        if not ok:
            continue
        V.check(type(c) is type(r), label + " keeps its class through " + how)
        if type(c) is not type(r):
            continue
        for n in names:
            V.check(hasattr(c, n) and V.same(getattr(c, n), kept[n]), label + " keeps ." + n + " through " + how)
        V.check(V.same(str(c), str(r)), label + " keeps its text through " + how)
        V.check(V.same(c.args, r.args), label + " keeps its args through " + how)
        if how != "copy":
            V.check(c.doc_dec is not r.doc_dec and c.doc_enc is not r.doc_enc, label + " does not share documents after " + how)
        # and once more: a copy is as good as the original
        ok2, c2 = attempt(f, c)
        V.check(ok2 and type(c2) is type(r) and V.same(str(c2), str(r)), label + " survives " + how + " twice")


def dec_copies(V, cfg):
    sp = spec_of(cfg)
    msg = message(V, cfg, sp)
    if cfg.get("bytearray"):
        msg = bytearray(msg)
    ok, r = attempt(V.iso.decode, msg, sp)
    see_decode(V, "dec", ok, r)
    if not ok and isinstance(r, V.iso.DecodeError):
        _copies(V, r, ("msg", "s", "doc_dec", "doc_enc", "pos", "field"), "DecodeError")


def enc_copies(V, cfg):
    sp = spec_of(cfg)
    doc = document(V, cfg, sp)
    if cfg.get("ordered"):
        doc = collections.OrderedDict(doc)
    ok, r = attempt(V.iso.encode, doc, sp)
    if cfg.get("ordered"):
        V.observe("enc", bytes(r[0]) if ok else str(r))
    else:
        see_encode(V, "enc", ok, r, doc)
    if not ok and isinstance(r, V.iso.EncodeError):
        _copies(V, r, ("msg", "doc_dec", "doc_enc", "field"), "EncodeError")


def made_copies(V, cfg):
    """errors built by hand from arbitrary parts"""
    msg = V.text("msg", cfg.get("n", 3))
    field = V.text("field", cfg.get("m", 1))
    if cfg["kind"] == "dec":
        s = V.bytes("s", 3)
        if cfg.get("bytearray"):
            s = bytearray(s)
        cls = V.subclass(V.iso.DecodeError) if cfg.get("sub") else V.iso.DecodeError
        e = cls(msg, s, {"t": V.text("t", 2)}, {"t": {"len": b"", "data": V.bytes("td", 2)}}, V.int("pos", 0, 10 ** 6), field)
        V.check(V.same(e.msg, msg) and V.same(e.field, field) and V.same(e.s, s), "attributes are as given")
        V.check(V.same(str(e), msg + ": field " + field + " pos " + str(e.pos)), "text")
        V.observe("e", [e.msg, e.field, e.s, e.pos])
        _copies(V, e, ("msg", "s", "doc_dec", "doc_enc", "pos", "field"), "DecodeError")
    else:
        cls = V.subclass(V.iso.EncodeError) if cfg.get("sub") else V.iso.EncodeError
        e = cls(msg, {"t": V.text("t", 2)}, {"t": {"len": b"", "data": V.bytes("td", 2)}}, field)
        V.check(V.same(e.msg, msg) and V.same(e.field, field), "attributes are as given")
        V.check(V.same(str(e), msg + ": field " + field), "text")
        V.observe("e", [e.msg, e.field])
        _copies(V, e, ("msg", "doc_dec", "doc_enc", "field"), "EncodeError")
