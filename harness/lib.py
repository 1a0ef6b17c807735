"""Building blocks shared by the harnesses (runs symbolically and natively)."""

ANY = ((0, 0x10FFFF),)
BYTE = ((0, 255),)
ASCII = ((0, 127),)
PRINT = ((32, 126),)
DIGIT = ((48, 57),)
HEXU = ((48, 57), (65, 70))
HEX = ((48, 57), (65, 70), (97, 102))
LATIN = ((0, 255),)


def F(data_enc="ascii", len_enc="ascii", len_type=0, max_len=0, len_count=None, left_pad=None, right_pad=None, desc="Some field"):
    f = {"data_enc": data_enc, "len_enc": len_enc, "len_type": len_type, "max_len": max_len, "desc": desc}
    if len_count is not None:
        f["len_count"] = len_count
    if left_pad is not None:
        f["left_pad"] = left_pad
    if right_pad is not None:
        f["right_pad"] = right_pad
    return f


def make_spec(d):
    """d: {"h": field kwargs, "t": enc, "p": enc, "1": enc, "fields": {no: kwargs}, "all": kwargs}"""
    sp = {}
    h = d.get("h")
    sp["h"] = F(**h) if h else F(max_len=0)
    sp["t"] = F(d.get("t", "ascii"), max_len=2 if d.get("t") == "b" else 4)
    p = d.get("p", "b")
    sp["p"] = F(p, max_len=8 if p == "b" else 16)
    one = d.get("1", p)
    sp["1"] = F(one, max_len=8 if one == "b" else 16)
    if "all" in d:
        last = d.get("last", 192)
        for i in range(2, last + 1):
            sp[str(i)] = F(**d["all"])
    for k, v in d.get("fields", {}).items():
        sp[str(k)] = F(**v)
    for k, v in d.get("extra", {}).items():
        sp[k].update(v)
    return sp


def bitmap_hex(fields):
    v = 0
    for f in fields:
        v |= 1 << (64 - f)
    return "%016X" % v


def bitmap_bytes(fields, enc):
    """fields within 1..64"""
    h = bitmap_hex(fields)
    if enc == "b":
        return bytes.fromhex(h)
    return h.encode(enc)


def bitmaps_for(fields, sp):
    """Concatenated bitmaps announcing the (concrete) data fields, the way the
    standard lays them out."""
    fs = set(fields)
    ter = {f - 128 for f in fs if f > 128}
    sec = {f - 64 for f in fs if 64 < f <= 128}
    if ter:
        sec.add(1)
    pri = {f for f in fs if f <= 64}
    if sec:
        pri.add(1)
    out = bitmap_bytes(pri, sp["p"]["data_enc"])
    if sec:
        out += bitmap_bytes(sec, sp["1"]["data_enc"])
    if ter:
        out += bitmap_bytes(ter, sp["1"]["data_enc"])
    return out


def attempt(f, *a, **k):
    """(True, value) or (False, exception)"""
    try:
        return True, f(*a, **k)
    except Exception as e:
        return False, e


def cp(d):
    """two-level dict copy"""
    return {k: (dict(v) if isinstance(v, dict) else v) for k, v in d.items()}


def wire_order(enc):
    """h, t, p, 1 and then the data fields in ascending order"""
    ks = [k for k in ("h", "t", "p", "1") if k in enc]
    return ks + [str(i) for i in sorted([int(k) for k in enc if k not in ("h", "t", "p", "1")])]


def data_fields(doc):
    return sorted([int(k) for k in doc if k not in ("h", "t", "p", "1")])


def text_input(V, name, data_enc, cfg):
    """A symbolic text suitable for a field: cfg["n"] int -> exactly n
    characters, ("blob", lo, hi) -> any length in lo..hi."""
    n = cfg["n"]
    r = cfg.get("ranges")
    if r is None:
        r = HEX if data_enc == "b" else ASCII if data_enc in ("ascii", "utf-8") else LATIN
    if isinstance(n, int):
        return V.text(name, n, r)
    return V.longtext(name, n[1], n[2], r)


def bytes_input(V, name, n, ranges=BYTE):
    if isinstance(n, int):
        return V.bytes(name, n, ranges)
    return V.blob(name, n[1], n[2], ranges)
