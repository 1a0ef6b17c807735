"""C21: the sample specifications."""
from harness.lib import *
from harness.scen import *
from harness.table import FIELDS


def _get(V, name):
    return V.specs.default if name == "default" else V.specs.default_ascii


def field(V, cfg):
    """one data field of one sample specification, any value of any length"""
    sp = _get(V, cfg["spec"])
    no = V.choice("field", cfg["fields"])
    k = str(no)
    kind, digits, most = FIELDS[no]
    binary = kind == "b" and cfg["spec"] == "default"
    top = most if not (kind == "b" and cfg["spec"] != "default") else 2 * most
    # the value, as characters; a binary field takes two per byte
    if binary:
        v = V.longtext("v", 0, 2 * top + 6, HEX)
    else:
        v = V.longtext("v", 0, top + 6, ASCII)
    doc = {"t": V.text("t", 4, ASCII), k: v}
    given = dict(doc)
    n = len(v)
    fine = True
    if binary:
        if n % 2 == 1:
            fine = False
        n = n // 2
    if digits == 0 and n != top:
        fine = False
    if n > top:
        fine = False
    ok, r = attempt(V.iso.encode, doc, sp)
    see_encode(V, "enc", ok, r, doc)
    V.check(ok == fine, "the field takes exactly the documented lengths")
    if not (ok and fine):
        return
    V.reach("field %d ok" % no)
    msg, enc = r
    # wire format, by hand
    want = given["t"].encode("ascii")
    pri = {no} if no <= 64 else {1}
    maps = bitmap_hex(pri)
    if no > 64:
        maps += bitmap_hex({no - 64})
    want += bytes.fromhex(maps) if cfg["spec"] == "default" else maps.encode("ascii")
    if digits:
        z = str(n)
        want += ("0" * (digits - len(z)) + z).encode("ascii")
    want += bytes.fromhex(v) if binary else v.encode("ascii")
    V.check(V.same(bytes(msg), want), "wire format as documented")
    ok2, r2 = attempt(V.iso.decode, bytes(msg), sp)
    V.check(ok2, "the message decodes")
    if ok2:
        V.check(V.same(r2[0].get(k), v.upper() if binary else v), "the value comes back")
        V.check(V.same(r2[1], enc), "the pieces come back")


def whole(V, cfg):
    """several fields at once, values at their full length"""
    sp = _get(V, cfg["spec"])
    doc = {"t": "0200"}
    for no in cfg["fields"]:
        kind, digits, most = FIELDS[no]
        binary = kind == "b" and cfg["spec"] == "default"
        top = most if not (kind == "b" and cfg["spec"] != "default") else 2 * most
        lo = top if digits == 0 else 0
        if lo == top <= 16:
            v = V.text("v%d" % no, 2 * top if binary else top, HEX if binary else ASCII)
        elif binary:
            v = V.longtext("v%d" % no, 2 * lo, 2 * top, HEX)
            V.assume(len(v) % 2 == 0)
        else:
            v = V.longtext("v%d" % no, lo, top, ASCII)
        doc[str(no)] = v
    given = dict(doc)
    ok, r = attempt(V.iso.encode, doc, sp)
    V.check(ok, "conforming values are accepted")
    if not ok:
        V.observe("err", exc_view(r))
        return
    ok2, r2 = attempt(V.iso.decode, bytes(r[0]), sp)
    V.check(ok2, "the message decodes")
    if not ok2:
        V.observe("err", exc_view(r2))
        return
    for k in given:
        binary = k.isdigit() and FIELDS[int(k)][0] == "b" and cfg["spec"] == "default"
        V.check(V.same(r2[0].get(k), given[k].upper() if binary else given[k]), "the value comes back")
    V.check(V.same(r2[1], r[1]), "the pieces come back")


def edited(V, cfg):
    """one entry of one sample edited, as users do on a copy or in place: no
    other entry, of either sample, changes"""
    sp = _get(V, cfg["spec"])
    no = pick(V, "no", cfg["lo"], cfg["hi"])
    k = "h" if no == 0 else "t" if no == 65 else "p" if no == 128 and "128" not in sp else str(no)
    if k not in sp:
        return
    both = (V.specs.default, V.specs.default_ascii)
    before = [{n: dict(s[n]) for n in s} for s in both]
    v = V.int("max_len", 0, 10 ** 6)
    V.assume(v != sp[k]["max_len"])
    kept = sp[k]["max_len"]
    sp[k]["max_len"] = v
    try:
        after = [{n: dict(s[n]) for n in s} for s in both]
    finally:
        sp[k]["max_len"] = kept
    for s, b, a in zip(both, before, after):
        for n in s:
            if not (s is sp and n == k):
                V.check(V.same(a[n], b[n]), "no other entry changes")
    V.observe("k", k)


def printed(V, cfg):
    """pp works with every field of the sample specifications"""
    sp = _get(V, cfg["spec"])
    doc = {"t": "0200", "p": "0" * 16, "1": "0" * 16}
    for no in range(2, 129):
        doc[str(no)] = V.text("v%d" % no, 1, ((65, 90),))
    out = V.stream()
    ok, r = attempt(V.iso.pp, doc, sp, stream=out)
    V.check(ok, "every field is printed")
    txt = "".join(out.parts)
    V.observe("out", txt)
    lines = txt.split("\n")
    V.check(len(lines) == len(doc) + 1, "one line per field")
    if len(lines) == len(doc) + 1:
        for k, ln in zip(["t", "p", "1"] + [str(n) for n in range(2, 129)], lines):
            V.check(ln[:len(k) + 1] in (k + " ", k), "by number")
            V.check(V.same(ln[36:], repr(doc[k])), "aligned")
