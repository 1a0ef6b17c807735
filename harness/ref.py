"""Reference model of the ISO8583 wire format, written from the documentation:
a parser and a builder.  Rejections are values, so a harness can compare."""
from sx.native import all_in

HEX = ((48, 57), (65, 70), (97, 102))


class Reject(Exception):
    def __init__(self, field, pos, why, *sizes):
        Exception.__init__(self, why)
        self.field = field
        self.pos = pos
        self.why = why
        self.sizes = sizes


class Result:
    def __init__(self, ok, doc, enc, msg=None, rej=None, end=None):
        self.ok = ok
        self.doc = doc
        self.enc = enc
        self.msg = msg
        self.rej = rej
        self.end = end


# ------------------------------------------------------------------ decoding
def decode(s, spec):
    doc = {}
    enc = {}
    try:
        end = _decode(s, spec, doc, enc)
    except Reject as r:
        return Result(False, doc, enc, None, r)
    return Result(True, doc, enc, s, None, end)


def _take(s, i, n, field, unit="bytes", want=None, mult=1):
    d = bytes(s[i:i + n])
    if len(d) != n:
        raise Reject(field, i, "short", len(d) * mult, n * mult if want is None else want, unit)
    return d


def _text(data, enc, field, i):
    try:
        return data.decode(enc)
    except LookupError:
        raise Reject(field, i, "codec")
    except Exception:
        raise Reject(field, i, "data")


def _decode(s, spec, doc, enc):
    i = 0
    last = "p"
    if spec["h"]["max_len"] > 0:
        i = _field(s, i, "h", spec["h"], doc, enc)
    # message type
    n = 2 if spec["t"]["data_enc"] == "b" else 4
    d = _take(s, i, n, "t")
    doc["t"] = d.hex().upper() if n == 2 else _text(d, spec["t"]["data_enc"], "t", i)
    enc["t"] = {"len": b"", "data": d}
    i += n
    # bitmaps
    i, on = _bitmap(s, i, "p", spec["p"], doc, enc, 0, False)
    wanted = set(on)
    if 1 in wanted:
        wanted.remove(1)
        last = "1"
        i, on = _bitmap(s, i, "1", spec["1"], doc, enc, 64, False)
        wanted.update(on)
        if 65 in wanted:
            wanted.remove(65)
            i, on = _bitmap(s, i, "1", spec["1"], doc, enc, 128, True)
            wanted.update(on)
    for no in sorted(wanted):
        k = str(no)
        last = k
        if k not in spec:
            raise Reject(k, i, "nospec")
        i = _field(s, i, k, spec[k], doc, enc)
    if i != len(s):
        raise Reject(last, i, "extra")
    return i


def _bitmap(s, i, key, fs, doc, enc, base, more):
    binary = fs["data_enc"] == "b"
    n = 8 if binary else 16
    raw = bytes(s[i:i + n])
    if len(raw) != n:
        raise Reject(key, i, "short", len(raw) + (n if more else 0), n * (2 if more else 1), "bytes")
    if binary:
        txt = raw.hex().upper()
        bits = raw
    else:
        txt = _text(raw, fs["data_enc"], key, i)
        if not all_in(txt, HEX):
            raise Reject(key, i, "nonhex")
        bits = [int(txt[2 * j:2 * j + 2], 16) for j in range(8)]
    if more:
        doc[key] = doc[key] + txt
        enc[key] = {"len": b"", "data": enc[key]["data"] + raw}
    else:
        doc[key] = txt
        enc[key] = {"len": b"", "data": raw}
    on = []
    for j in range(8):
        for b in range(8):
            if bits[j] & (128 >> b):
                on.append(base + 8 * j + b + 1)
    return i + n, on


def _digits_value(txt):
    if not all_in(txt, ((48, 57),)):
        return None
    v = 0
    for c in txt:
        v = v * 10 + (ord(c) - 48)
    return v


def length_of(raw, fs, field, i):
    """value of a length indicator"""
    if fs["len_enc"] == "b":
        v = 0
        for b in raw:
            v = v * 256 + b
        return v
    if fs["len_enc"] == "bcd":
        v = _digits_value(raw.hex())
        if v is None:
            raise Reject(field, i, "bcd")
        return v
    try:
        txt = raw.decode(fs["len_enc"])
    except LookupError:
        raise Reject(field, i, "lencodec")
    except Exception:
        raise Reject(field, i, "lendata")
    v = _digits_value(txt)
    if v is None:
        raise Reject(field, i, "lennum")
    return v


def _field(s, i, key, fs, doc, enc):
    lt = fs["len_type"]
    nib = fs.get("len_count", "bytes") == "nibbles"
    unit = "nibbles" if nib else "bytes"
    raw = bytes(s[i:i + lt])
    if len(raw) != lt:
        raise Reject(key, i, "shortlen", len(raw), lt)
    if lt == 0:
        count = fs["max_len"]
    else:
        count = length_of(raw, fs, key, i)
        if count > fs["max_len"]:
            raise Reject(key, i, "toolong", count, fs["max_len"], unit)
    i += lt
    if count == 0:
        doc[key] = ""
        enc[key] = {"len": raw, "data": b""}
        return i
    n = (count + 1) // 2 if nib else count
    data = _take(s, i, n, key, unit, count, 2 if nib else 1)
    odd = nib and count % 2 == 1
    if fs["data_enc"] == "b":
        txt = data.hex().upper()
        if odd:
            lp = fs.get("left_pad", "")[:1].upper()
            rp = fs.get("right_pad", "")[:1].upper()
            if lp and txt[:1] == lp:
                txt = txt[1:]
            elif rp and txt[-1:] == rp:
                txt = txt[:-1]
            else:
                raise Reject(key, i, "short", n * 2, count, unit)
    else:
        if odd:
            raise Reject(key, i, "short", n * 2, count, unit)
        txt = _text(data, fs["data_enc"], key, i)
    doc[key] = txt
    enc[key] = {"len": raw, "data": data}
    return i + n


# ------------------------------------------------------------------ encoding
def encode(doc_in, spec):
    """Does not modify doc_in.  Result.doc is the updated document."""
    doc = {k: v for k, v in doc_in.items() if k not in ("1", "65")}
    enc = {}
    try:
        msg = _encode(doc, spec, enc)
    except Reject as r:
        return Result(False, doc, enc, None, r)
    return Result(True, doc, enc, msg, None)


def _encode(doc, spec, enc):
    out = b""
    if spec["h"]["max_len"] > 0:
        if "h" not in doc:
            raise Reject("h", None, "missing")
        out += _put(doc, "h", spec["h"], enc)
    if "t" not in doc:
        raise Reject("t", None, "missing")
    fs = spec["t"]
    want = 2 if fs["data_enc"] == "b" else 4
    d, _ = _data(doc["t"], "t", fs, "bytes")
    if len(d) != want:
        raise Reject("t", None, "size", len(d), want, "bytes")
    enc["t"] = {"len": b"", "data": d}
    out += d
    nos = []
    for k in doc:
        if k in ("h", "t", "p"):
            continue
        if not k.isnumeric():
            continue
        if not k.isascii() or not k.isdigit() or (len(k) > 1 and k[0] == "0"):
            raise Reject("p", None, "badkey")
        if len(k) > 3:
            raise Reject("p", None, "range")
        no = int(k)
        if no < 1 or no > 192:
            raise Reject("p", None, "range")
        nos.append(no)
    out += put_bitmaps(nos, doc, spec, enc)
    for no in sorted(nos):
        k = str(no)
        if k not in spec:
            raise Reject(k, None, "nospec")
        out += _put(doc, k, spec[k], enc)
    return out


def put_bitmaps(nos, doc, spec, enc):
    pri = [n for n in nos if n <= 64]
    sec = [n - 64 for n in nos if 64 < n <= 128]
    ter = [n - 128 for n in nos if n > 128]
    if ter:
        sec.append(1)
    if sec:
        pri.append(1)
    out = _put_bitmap("p", [pri], doc, spec, enc)
    if sec:
        out += _put_bitmap("1", [sec, ter] if ter else [sec], doc, spec, enc)
    return out


def _put_bitmap(key, maps, doc, spec, enc):
    h = ""
    for m in maps:
        v = 0
        for n in m:
            v |= 1 << (64 - n)
        h += "%016X" % v
    if spec[key]["data_enc"] == "b":
        d = bytes.fromhex(h)
    else:
        try:
            d = h.encode(spec[key]["data_enc"])
        except LookupError:
            raise Reject(key, None, "codec")
        except Exception:
            raise Reject(key, None, "data")
    doc[key] = h
    enc[key] = {"len": b"", "data": d}
    return d


def _data(txt, key, fs, count):
    """(encoded data, length in the counting unit)"""
    nib = count == "nibbles"
    if fs["data_enc"] == "b":
        t = txt
        if nib and len(t) % 2 == 1:
            if fs.get("left_pad", ""):
                t = fs["left_pad"][0] + t
            elif fs.get("right_pad", ""):
                t = t + fs["right_pad"][0]
            else:
                raise Reject(key, None, "oddnib")
        if len(t) % 2 == 1:
            raise Reject(key, None, "oddhex")
        if not all_in(t, HEX):
            raise Reject(key, None, "nonhex")
        d = bytes.fromhex(t)
        return d, len(txt) if nib else len(d)
    try:
        d = txt.encode(fs["data_enc"])
    except LookupError:
        raise Reject(key, None, "codec")
    except Exception:
        raise Reject(key, None, "data")
    return d, len(d) * 2 if nib else len(d)


def length_bytes(n, fs, key):
    lt = fs["len_type"]
    if fs["len_enc"] == "b":
        if n >= 256 ** lt:
            raise Reject(key, None, "nofit")
        v = n
        out = []
        for _ in range(lt):
            out.append(v % 256)
            v = v // 256
        return bytes(out[::-1])
    if fs["len_enc"] == "bcd":
        if n >= 100 ** lt:
            raise Reject(key, None, "nofit")
        v = n
        out = []
        for _ in range(lt):
            two = v % 100
            out.append(two // 10 * 16 + two % 10)
            v = v // 100
        return bytes(out[::-1])
    try:
        zero = "0".encode(fs["len_enc"])
        digits = "0123456789".encode(fs["len_enc"])
    except LookupError:
        raise Reject(key, None, "lencodec")
    except Exception:
        raise Reject(key, None, "lendata")
    # a codec which takes more than a byte for a digit, or adds marks, never fits
    if n >= 10 ** lt or len(digits) != 10:
        raise Reject(key, None, "nofit")
    v = n
    out = []
    for _ in range(lt):
        out.append(zero[0] + v % 10)
        v = v // 10
    return bytes(out[::-1])


def _put(doc, key, fs, enc):
    count = fs.get("len_count", "bytes")
    d, n = _data(doc[key], key, fs, count)
    lt = fs["len_type"]
    if lt == 0:
        if n != fs["max_len"]:
            raise Reject(key, None, "size", n, fs["max_len"], count)
        ind = b""
    else:
        if n > fs["max_len"]:
            raise Reject(key, None, "toolong", n, fs["max_len"], count)
        ind = length_bytes(n, fs, key)
    enc[key] = {"len": ind, "data": d}
    return ind + d
