"""Which harness runs with which bounds, per property and tier."""
import json

TITLES = {}
ANY_LITE = [[0, 0x17F], [0x2028, 0x2029], [0xD800, 0xD801], [0x1F600, 0x1F610]]
ANY = [[0, 0x10FFFF]]
PRINT = [[32, 126]]
ASCII = [[0, 127]]
LATIN = [[0, 255]]
HEX = [[48, 57], [65, 70], [97, 102]]
DIGIT = [[48, 57]]

TEXT = ["ascii", "latin-1", "cp500", "utf-8"]
DATA = TEXT + ["b"]
LEN = ["ascii", "cp500", "bcd", "b"]


def T(name, where, cfg, need=(), **kw):
    module, func = where.split(".")
    return dict(kw, name=name, module=module, func=func, cfg=json.loads(json.dumps(cfg)), need=list(need))


def unit(de):
    """characters per byte of a value"""
    return 2 if de == "b" else 1


def capacity(le, lt):
    return {"ascii": 10 ** lt, "cp500": 10 ** lt, "latin-1": 10 ** lt, "utf-8": 10 ** lt, "bcd": 100 ** lt, "b": 256 ** lt}[le] - 1


def variable(tier):
    """(len_enc, len_type, max_len): normal, at capacity, beyond capacity"""
    out = []
    for le in LEN:
        for lt in (1, 2, 3, 4):
            cap = capacity(le, lt)
            top = min(cap, 9999)
            if lt == 1:
                out += [(le, lt, min(cap, 9)), (le, lt, cap), (le, lt, min(cap + 6, 400))]
            elif lt == 2:
                out += [(le, lt, min(cap, 99)), (le, lt, min(cap, 1200))]
                if cap < 9999:
                    out += [(le, lt, cap + 30)]
            elif lt == 3:
                out += [(le, lt, 999), (le, lt, min(cap + 50, 2000))]
            else:
                out += [(le, lt, top)]
        out += [(le, 5, 1200)] + ([(le, 8, 12000)] if tier == "thorough" else [])
        # beyond every two-byte count
        if le in ("b", "bcd", "ascii"):
            out.append((le, {"b": 3, "bcd": 3, "ascii": 5}[le], 70000))
    return out


def fixed(tier):
    return [0, 1, 2, 3, 8, 16, 64] + ([255, 256, 999, 1000, 70000] if tier == "thorough" else [300, 70000])


def one_field(kw, n):
    return {"spec": {"fields": {"2": kw}}, "doc": {"t": "0200", "2": {"n": n}}}


def one_body(kw, n, no="2"):
    return {"spec": {"fields": {no: kw}}, "on": [int(no)], "body": n}


def nm(de, le, lt, ml, extra=""):
    return "%s/%s%d/max%d%s" % (de, le, lt, ml, extra)


def utf8_cap(de, n):
    """utf-8 blobs are limited to ASCII content; same sizes"""
    return n


def enc_fields(tier, where, what=None, datas=DATA, small=True, long=True, need=("accepted",)):
    """one variable or fixed field, every data and length encoding"""
    out = []

    def cfg(kw, n, ranges=None):
        c = one_field(kw, n)
        if ranges:
            c["doc"]["2"]["ranges"] = ranges
        if what:
            c["what"] = what
        return c

    for de in datas:
        u = unit(de)
        if long:
            for le, lt, ml in variable(tier):
                kw = dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml)
                out.append(T("long " + nm(de, le, lt, ml), where, cfg(kw, ["blob", 0, u * (ml + 3)]), need))
            for ml in fixed(tier):
                kw = dict(data_enc=de, max_len=ml)
                out.append(T("long " + nm(de, "fixed", 0, ml), where, cfg(kw, ["blob", 0, u * (ml + 3)]), need))
        if small:
            for le, lt, ml in [("ascii", 2, 4), ("bcd", 1, 4), ("b", 1, 3), ("cp500", 3, 999), ("ascii", 0, 2), ("ascii", 0, 0)]:
                for n in (0, 1, 2, 3, 4) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6):
                    kw = dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml)
                    # any characters whatever, encodable or not
                    out.append(T("any %d chars " % n + nm(de, le, lt, ml), where, cfg(kw, n, ANY)))
    return out


def dec_fields(tier, where, what=None, datas=DATA, small=True, long=True, need=("accepted",)):
    out = []

    def cfg(kw, n, no="2"):
        c = one_body(kw, n, no)
        if what:
            c["what"] = what
        return c

    for de in datas:
        if long:
            for le, lt, ml in variable(tier):
                if de == "utf-8":
                    ml = min(ml, 3)
                kw = dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml)
                out.append(T("long " + nm(de, le, lt, ml), where, cfg(kw, ["blob", 0, lt + ml + 3]), need))
            for ml in fixed(tier):
                if de == "utf-8" and ml > 4:
                    continue
                kw = dict(data_enc=de, max_len=ml)
                out.append(T("long " + nm(de, "fixed", 0, ml), where, cfg(kw, ["blob", 0, ml + 3]), need))
        if small:
            for le, lt, ml in [("ascii", 1, 4), ("ascii", 2, 4), ("bcd", 1, 4), ("b", 1, 3), ("b", 2, 300), ("cp500", 3, 999), ("ascii", 0, 2), ("ascii", 0, 0)]:
                for n in (0, 1, 2, 3, 4, 5) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 7):
                    if de == "utf-8" and n - lt > 4:
                        continue
                    kw = dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml)
                    out.append(T("body %d bytes " % n + nm(de, le, lt, ml), where, cfg(kw, n)))
    return out


def every_field(tier, enc=None, dec=None, what=None, dwhat=None):
    """one field, whatever its number is"""
    out = []
    forms = [dict(data_enc="ascii", len_type=2, max_len=40), dict(data_enc="b", max_len=8), dict(data_enc="ascii", max_len=6), dict(data_enc="cp500", len_enc="bcd", len_type=2, max_len=200),
             dict(data_enc="b", len_enc="b", len_type=1, max_len=9, len_count="nibbles", right_pad="F"), dict(data_enc="b", max_len=5, len_count="nibbles", left_pad="0")]
    for kw in forms if tier == "thorough" else forms[:2] + forms[4:5]:
        for lo, hi in ((2, 64), (66, 128), (129, 192)):
            nib = kw.get("len_count")
            nam = "any field %d-%d " % (lo, hi) + nm(kw["data_enc"], kw.get("len_enc", "ascii"), kw.get("len_type", 0), kw["max_len"], " " + nib if nib else "")
            sp = {"all": kw}
            if enc:
                n = kw["max_len"] * (1 if nib or kw["data_enc"] != "b" else 2)
                c = {"spec": sp, "no": [lo, hi], "doc": {"t": "0200", "N": {"n": ["blob", 0, n + 1]}}}
                if what:
                    c["what"] = what
                out.append(T("enc " + nam, enc, c, cost=8))
            if dec:
                n = ((kw["max_len"] + 1) // 2 if nib else kw["max_len"]) + kw.get("len_type", 0)
                c = {"spec": sp, "no": [lo, hi], "body": ["blob", 0, n + 1]}
                if dwhat or what:
                    c["what"] = dwhat or what
                out.append(T("dec " + nam, dec, c, cost=8))
    return out


# several fields, all regions of the three bitmaps, with and without header
MULTI_FIELDS = {
    "2": dict(data_enc="ascii", len_enc="ascii", len_type=2, max_len=19),
    "3": dict(data_enc="cp500", max_len=2),
    "11": dict(data_enc="b", max_len=1),
    "64": dict(data_enc="b", len_enc="bcd", len_type=1, max_len=3),
    "66": dict(data_enc="latin-1", len_enc="b", len_type=1, max_len=4),
    "128": dict(data_enc="ascii", max_len=1),
    "129": dict(data_enc="b", len_enc="b", len_type=2, max_len=300),
    "192": dict(data_enc="utf-8", len_enc="cp500", len_type=1, max_len=3),
}
HEADERS = {
    "none": None,
    "fix-b": dict(data_enc="b", max_len=2),
    "var-ascii": dict(data_enc="ascii", len_enc="ascii", len_type=1, max_len=3),
    "var-b": dict(data_enc="b", len_enc="bcd", len_type=1, max_len=5),
    "fix-cp500": dict(data_enc="cp500", max_len=3),
}
SHAPES = [[], [2], [64], [66], [128], [129], [192], [2, 3], [3, 64], [64, 66], [2, 128], [66, 129], [2, 192], [3, 66, 129], [2, 64, 66, 128], [2, 11, 64, 128, 129, 192]]


def multi_spec(header, t="ascii", p="b", one=None):
    d = {"fields": MULTI_FIELDS, "t": t, "p": p}
    if one:
        d["1"] = one
    if HEADERS[header]:
        d["h"] = HEADERS[header]
    return d


def short_value(kw):
    n = kw["max_len"] if kw.get("len_type", 0) == 0 else min(2, kw["max_len"])
    return max(0, n) * unit(kw["data_enc"])


def multi_doc(header, on, long=(), ranges=None):
    doc = {"t": "0200"}
    if HEADERS[header]:
        doc["h"] = {"n": short_value(HEADERS[header])}
    for k in on:
        kw = MULTI_FIELDS[str(k)]
        if k in long:
            doc[str(k)] = {"n": ["blob", 0, unit(kw["data_enc"]) * (kw["max_len"] + 2)]}
        else:
            doc[str(k)] = {"n": short_value(kw)}
        if ranges:
            doc[str(k)]["ranges"] = ranges
    return doc


COMBOS = [("none", "ascii", "b", None), ("var-b", "b", "ascii", None), ("fix-b", "cp500", "cp500", None), ("var-ascii", "b", "b", "ascii"), ("fix-cp500", "ascii", "ascii", "b")]


def enc_multi(tier, where, what=None, combos=COMBOS, need=("accepted",), cost=2, long=True):
    out = []
    for hdr, t, p, one in combos:
        for on in SHAPES:
            c = {"spec": multi_spec(hdr, t, p, one), "doc": multi_doc(hdr, on)}
            if what:
                c["what"] = what
            out.append(T("fields %s hdr=%s t=%s p=%s" % (on, hdr, t, p), where, c, need, cost=cost))
    if long:
        for on, lg in [([2, 64, 129], [2, 129]), ([2, 66, 192], [66]), ([3, 64, 128], [64])]:
            c = {"spec": multi_spec("none"), "doc": multi_doc("none", on, lg)}
            if what:
                c["what"] = what
            out.append(T("fields %s any length of %s" % (on, lg), where, c, need, cost=cost))
    return out


def dec_multi(tier, where, what=None, combos=COMBOS, need=("accepted",), cost=2):
    """bitmaps announce `on`; the body is arbitrary bytes of any length"""
    out = []
    for hdr, t, p, one in combos:
        for on in SHAPES:
            c = {"spec": multi_spec(hdr, t, p, one), "on": on}
            hk = HEADERS[hdr]
            if hk:
                c["hdr"] = hk["max_len"] if not hk.get("len_type") else {"ind": "32" if hk["len_enc"] == "ascii" else "02", "n": 2}
            # what the fields take at least, and a few bytes to share
            lo = sum(MULTI_FIELDS[str(k)].get("len_type", 0) or MULTI_FIELDS[str(k)]["max_len"] for k in on)
            for n in [lo + 2] if tier == "quick" else [max(0, lo - 1), lo, lo + 1, lo + 3]:
                c2 = dict(c, body=n)
                if what:
                    c2["what"] = what
                out.append(T("fields %s hdr=%s t=%s p=%s body %d" % (on, hdr, t, p, n), where, c2, cost=cost))
    return out


S_ = [0x80] + [0] * 7
Z_ = [0] * 8
REDUNDANT = [[Z_], [S_], [S_, Z_], [S_, S_], [S_, S_, Z_], [S_, S_, S_], [S_, S_, [0x40] + [0] * 7], [[0xC0] + [0] * 7, S_, Z_], [S_, [0xC0] + [0] * 7], [[0xC0] + [0] * 7, [0x40] + [0] * 7], [S_, S_, [0] * 7 + [1]]]


def text_bitmaps(tier, where, what=None):
    """arbitrary bytes at some places of a text bitmap"""
    out = []
    for enc in ("ascii", "cp500", "utf-8"):
        for at in ([0], [1], [15], [1, 2]) if tier == "quick" else ([0], [1], [7], [8], [15], [1, 2], [0, 15], [14, 15]):
            for body in (0, 1):
                c = {"spec": {"p": enc, "all": dict(data_enc="b", max_len=1), "last": 10}, "textat": at, "body": body}
                if what:
                    c["what"] = what
                out.append(T("text bitmap %s, any bytes at %s, body %d" % (enc, at, body), where, c, cost=2))
        for at, same in ([2, 3], []), ([], list(range(16))), ([], list(range(2, 16))), ([], list(range(2, 12))), ([], list(range(4, 8))), ([1], [14, 15]), ([], list(range(1, 16))), ([], [12, 13]), ([], [0, 1, 14, 15]):
            if tier == "quick" and enc == "utf-8" and not at:
                continue
            c = {"spec": {"p": enc, "all": dict(data_enc="b", max_len=1), "last": 20}, "textat": at, "same": same, "body": 1}
            if what:
                c["what"] = what
            out.append(T("text bitmap %s, any bytes at %s, any one byte at %s" % (enc, at, same), where, c, cost=2))
    return out


def cut_bitmaps(tier, where, what=None):
    """a message ending anywhere within its bitmaps"""
    out = []
    for p in ("b", "ascii", "cp500"):
        for one in ("b", "ascii", "cp500"):
            for pat in ([S_, S_, Z_], [S_, S_, S_], [S_, [0, 0, 0, 0, 0, 0, 0, 1]]):
                c = {"spec": {"p": p, "1": one, "all": dict(data_enc="b", max_len=1)}, "given": pat, "cut": True}
                if what:
                    c["what"] = what
                out.append(T("cut bitmaps %s p=%s 1=%s" % (bytes(sum(pat, [])).hex(), p, one), where, c, cost=2))
    return out


# ---------------------------------------------------------------- properties
NIB = [
    ("b", None, None), ("b", "0", None), ("b", None, "F"), ("b", "", None), ("b", "F", None), ("b", None, "0"),
    ("b", None, ""), ("b", "a", None), ("b", None, "c"), ("b", "0F", None), ("ascii", None, None), ("cp500", None, None), ("latin-1", "0", None), ("ascii", None, "F"),
    ("utf-8", None, None), ("utf-8", None, "F"),
]
NLEN = [("ascii", 2, 99), ("bcd", 1, 9), ("b", 1, 255), ("ascii", 1, 5), ("cp500", 3, 999), ("b", 2, 3000), ("ascii", 0, 3), ("ascii", 0, 4), ("ascii", 0, 7), ("ascii", 0, 0), ("ascii", 1, 12), ("ascii", 5, 50), ("bcd", 3, 70), ("b", 4, 40)]


def nib_kw(de, lp, rp, le, lt, ml):
    kw = dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml, len_count="nibbles")
    if lp is not None:
        kw["left_pad"] = lp
    if rp is not None:
        kw["right_pad"] = rp
    return kw


def nib_enc(tier, where, both=True):
    out = []
    for de, lp, rp in NIB + ([("b", "0", "F")] if both else []):
        for le, lt, ml in NLEN:
            kw = nib_kw(de, lp, rp, le, lt, ml)
            n = "nib %s lp=%s rp=%s %s" % (de, lp, rp, nm("", le, lt, ml))
            out.append(T(n + " any length", where, one_field(kw, ["blob", 0, ml + 4])))
            if ml in (9, 99, 3, 4):
                for k in (0, 1, 2, 3, 4) + ((5, 6) if tier == "thorough" else ()):
                    c = one_field(kw, k)
                    c["doc"]["2"]["ranges"] = ANY
                    out.append(T(n + " any %d chars" % k, where, c))
    return out


def nib_header(tier, enc, dec, what=None):
    """a header counted in nibbles"""
    out = []
    for de, lp, rp, le, lt, ml in [("b", None, "F", "bcd", 1, 9), ("b", "0", None, "ascii", 0, 3), ("b", "a", None, "b", 1, 300), ("cp500", None, None, "ascii", 1, 9), ("b", None, None, "cp500", 1, 8)]:
        h = nib_kw(de, lp, rp, le, lt, ml)
        sp = {"h": h, "fields": {"2": dict(max_len=1)}}
        n = "header nib %s lp=%s rp=%s %s" % (de, lp, rp, nm("", le, lt, ml))
        w = {"what": what} if what else {}
        out.append(T("enc " + n, enc, dict(w, spec=sp, doc={"h": {"n": ["blob", 0, ml + 3]}, "t": "0200", "2": "1"}), cost=2))
        for k in (2, 3):
            out.append(T("enc %s any %d characters" % (n, k), enc, dict(w, spec=sp, doc={"h": {"n": k, "ranges": ANY}, "t": "0200", "2": "1"})))
        for m in range(0, 4) if tier == "thorough" else (0, 2):
            out.append(T("dec %s first %d bytes arbitrary" % (n, m), dec, dict(w, spec=sp, hdr=m, on=[2], body=1)))
        if lt == 0 or le == "bcd":
            m = (ml + 1) // 2 + lt
            out.append(T("dec %s whole message cut short of the bitmap" % n, dec, dict(w, spec=sp, whole=["blob", 0, m + (6 if tier == "thorough" else 4)])))
    return out


def nib_dec(tier, where, both=False):
    out = []
    for de, lp, rp in NIB + ([("b", "0", "F"), ("b", "c", "0")] if both else []):
        for le, lt, ml in NLEN:
            kw = nib_kw(de, lp, rp, le, lt, ml)
            n = "nib %s lp=%s rp=%s %s" % (de, lp, rp, nm("", le, lt, ml))
            if de != "utf-8":
                out.append(T(n + " any length", where, one_body(kw, ["blob", 0, lt + (ml + 1) // 2 + 3])))
            if ml in (9, 99, 3, 4):
                for k in (0, 1, 2, 3, 4) + ((5, 6) if tier == "thorough" else ()):
                    out.append(T(n + " body %d" % k, where, one_body(kw, k)))
    return out


def C01(tier):
    out = enc_fields(tier, "h_roundtrip.enc_dec") + enc_multi(tier, "h_roundtrip.enc_dec")
    out += nib_enc(tier, "h_roundtrip.enc_dec")
    # the message type too, stale bitmap entries, no header although given
    for t in ("ascii", "cp500", "b", "utf-8", "latin-1"):
        for n in (3, 4, 5):
            out.append(T("type %s %d chars" % (t, n), "h_roundtrip.enc_dec", {"spec": {"t": t, "fields": {"3": dict(max_len=1)}},
                       "doc": {"t": {"n": n, "ranges": ANY}, "3": {"n": 1}}}))
    out.append(T("stale", "h_roundtrip.enc_dec", {"spec": {"fields": MULTI_FIELDS}, "doc": {"p": {"n": 2, "ranges": ANY}, "1": {"n": 1, "ranges": ANY}, "65": {"n": 1}, "h": {"n": 2}, "t": "0200", "66": {"n": 2}}}, ["accepted"]))
    out += every_field(tier, "h_roundtrip.enc_dec")
    out += [x for x in nib_header(tier, "h_roundtrip.enc_dec", "h_roundtrip.dec_enc") if x["func"] == "enc_dec"]
    return out


def small_bitmaps(tier, where, what=None, encs=("b", "ascii", "cp500"), extra=None):
    """arbitrary bytes of one bitmap position, everything announced one byte"""
    out = []
    pats = [([[None, 0, 0, 0, 0, 0, 0, 0]], "first byte"), ([[0, 0, 0, 0, 0, 0, 0, None]], "last byte"),
            ([[0x80, 0, 0, 0, 0, 0, 0, 0], [None, 0, 0, 0, 0, 0, 0, 0]], "second map"),
            ([[0x80, 0, 0, 0, 0, 0, 0, 0], [0x80, 0, 0, 0, 0, 0, 0, 0], [0, 0, None, 0, 0, 0, 0, 0]], "third map")]
    for maps, n in pats:
        for body in (1, 2):
            c = {"spec": {"all": dict(data_enc="b", max_len=1)}, "maps": maps, "most": 2, "body": body}
            c.update(extra or {})
            if what:
                c["what"] = what
            out.append(T("bitmap %s, body %d" % (n, body), where, c, cost=3))
    return out


def C02(tier):
    out = dec_fields(tier, "h_roundtrip.dec_enc") + dec_multi(tier, "h_roundtrip.dec_enc") + nib_dec(tier, "h_roundtrip.dec_enc")
    out += small_bitmaps(tier, "h_roundtrip.dec_enc")
    # lower-case or redundant text bitmaps
    out += text_bitmaps(tier, "h_roundtrip.dec_enc")
    for pat in REDUNDANT:
        out.append(T("redundant bitmaps %s" % bytes(sum(pat, [])).hex(), "h_roundtrip.dec_enc", {"spec": {"all": dict(data_enc="b", max_len=1)}, "given": pat, "body": 1}))
    out += every_field(tier, dec="h_roundtrip.dec_enc")
    return out


# codecs of every kind, as names a specification may hold: those that are not
# one byte a character, that refuse everything, that are not for text, and no
# names of codecs at all.  Each byte/character is one of a few, case by case.
ODD_CODECS = ["idna", "undefined", "punycode", "utf-16", "utf-16-le", "utf-32", "utf-7", "utf-8-sig", "unicode_escape", "raw_unicode_escape", "shift_jis", "gb18030", "hz", "iso2022_jp", "big5",
              "cp037", "koi8-r", "mac-roman", "cp1252", "hex", "rot13", "base64", "zlib", "bad\0name", "", " ", "\u00e9", "\ud800", "mbcs", "UTF 8", "no-such-codec"]
ODD_BYTES = [[0x2D, 0x2E], [0x31, 0x31], [0x41, 0x41], [0x5C, 0x5C], [0x75, 0x75], [0x80, 0x81], [0xFF, 0xFF]]
ODD_TEXT = [[0x2D, 0x2E], [0x31, 0x31], [0x41, 0x41], [0xE9, 0xE9], [0x3042, 0x3042], [0xD800, 0xD800], [0x1F600, 0x1F600]]


def odd_codecs(tier, decode):
    out = []
    for c in ODD_CODECS:
        for n in range(0, 3 if tier == "quick" else 4):
            if decode:
                out.append(T("data codec %s, %d bytes" % (ascii(c), n), "h_total.dec", dict(one_body(dict(data_enc=c, max_len=n), n), ranges=ODD_BYTES)))
                if n:
                    out.append(T("length codec %s, %d bytes" % (ascii(c), n), "h_total.dec", dict(one_body(dict(data_enc="ascii", len_enc=c, len_type=n, max_len=9), n + 1), ranges=ODD_BYTES)))
            else:
                out.append(T("data codec %s, %d characters" % (ascii(c), n), "h_total.enc", {"spec": {"fields": {"2": dict(data_enc=c, len_type=1, max_len=9)}}, "items": [["t", "0200"], ["2", {"n": n, "ranges": ODD_TEXT}]]}))
        if decode:
            for n in (2, 4):
                rg = ODD_BYTES if n == 2 else [[0x2E, 0x2E], [0x32, 0x32], [0xFF, 0xFF]]
                out.append(T("type codec %s, %d bytes" % (ascii(c), n), "h_total.dec", {"spec": {"t": c, "fields": {"2": dict(max_len=1)}}, "whole": n, "ranges": rg}))
                out.append(T("header codec %s, %d bytes" % (ascii(c), n), "h_total.dec", {"spec": {"h": dict(data_enc=c, max_len=n), "fields": {"2": dict(max_len=1)}}, "whole": n, "ranges": rg}))
            out.append(T("header length codec %s" % ascii(c), "h_total.dec", {"spec": {"h": dict(data_enc="ascii", len_enc=c, len_type=2, max_len=5), "fields": {"2": dict(max_len=1)}}, "whole": 3, "ranges": ODD_BYTES}))
            for m in (0, 1):
                for a, b in ((".", "8"), ("0", "0"), ("\xff", "\x80")):
                    pass
            p = (ord("8"), ord("."), 0xFF, ord("0"))
            for k, x in enumerate(p):
                for y in p[: 2 if tier == "quick" else 4]:
                    out.append(T("bitmap codec %s, %02x %02x" % (ascii(c), x, y), "h_total.dec", {"spec": {"p": c, "1": c, "fields": {"3": dict(max_len=1)}}, "raw": "30323030" + "%02x" % x + "%02x" % y * 15 + "31" * 9}))
        else:
            out.append(T("length codec %s" % ascii(c), "h_total.enc", {"spec": {"fields": {"2": dict(len_enc=c, len_type=2, max_len=12)}}, "items": [["t", "0200"], ["2", {"n": 1}]]}))
            out.append(T("type codec %s" % ascii(c), "h_total.enc", {"spec": {"t": c, "fields": {"2": dict(max_len=1)}}, "items": [["t", {"n": 4, "ranges": [[0x2E, 0x2E], [0x32, 0x32], [0x3042, 0x3042], [0xD800, 0xD800]]}], ["2", "1"]]}))
            out.append(T("header codec %s" % ascii(c), "h_total.enc", {"spec": {"h": dict(data_enc=c, len_enc=c, len_type=1, max_len=9), "fields": {"2": dict(max_len=1)}}, "items": [["h", {"n": 2, "ranges": ODD_TEXT}], ["t", "0200"]]}))
            for k in ("2", "66"):
                out.append(T("bitmap codec %s, field %s" % (ascii(c), k), "h_total.enc", {"spec": {"p": c, "1": c, "fields": {k: dict(max_len=1)}}, "items": [["t", "0200"], [k, {"n": 1}]]}))
    return out


NAMES = ["B", "bin", "binary", "b ", "bb", "big5", "bcd", "BCD", "hex", "ASCII", "us-ascii", "UTF8", "utf-8-sig", "utf-16-be", "latin1", "EBCDIC-CP-BE", "cp1252", "shift_jis", "gb18030", "cp875", "no-such-codec", "idna", "punycode", "iso2022_jp", "unicode_escape"]


def odd_codecs_ref(tier, what, kind):
    """what other names of codecs mean, against the reference"""
    out = []
    for c in NAMES:
        for n in range(0, 3 if tier == "quick" else 4):
            if kind == "data":
                f = dict(data_enc=c, len_type=1, max_len=9)
                d = {"doc": {"t": "0200", "2": {"n": n, "ranges": ODD_TEXT}}, "what": what}
                out.append(T("encode with codec %s, %d characters" % (c, n), "h_accept.enc", dict(d, spec={"fields": {"2": f}})))
                d = dict(one_body(dict(data_enc=c, max_len=n), n), ranges=ODD_BYTES, what=what)
                out.append(T("decode with codec %s, %d bytes" % (c, n), "h_accept.dec", d))
            elif n:
                f = dict(len_enc=c, len_type=n, max_len=120)
                out.append(T("encode with length codec %s, %d wide" % (c, n), "h_accept.enc", {"spec": {"fields": {"2": f}}, "doc": {"t": "0200", "2": {"n": ["blob", 0, 121]}}, "what": what}))
                d = dict(one_body(dict(len_enc=c, len_type=n, max_len=9), n + 1), ranges=[[0x31, 0x31], [0x41, 0x41], [0, 1], [0xF1, 0xF1]], what=what)
                out.append(T("decode with length codec %s, %d wide" % (c, n), "h_accept.dec", d))
    return out


def C03(tier):
    out = dec_fields(tier, "h_total.dec", datas=DATA + ["no-such-codec"], need=())
    out += dec_multi(tier, "h_total.dec") + nib_dec(tier, "h_total.dec")
    for t, p, hdr in [("ascii", "b", "none"), ("b", "b", "none"), ("cp500", "cp500", "none"), ("utf-8", "utf-8", "none"), ("no-such-codec", "b", "none"), ("ascii", "no-such-codec", "none"), ("b", "ascii", "var-b"), ("ascii", "b", "var-ascii"), ("ascii", "b", "fix-cp500")]:
        for n in range(0, 12):
            if (hdr.startswith("var") or t == "b") and n > 9:
                continue
            out.append(T("any %d bytes t=%s p=%s hdr=%s" % (n, t, p, hdr), "h_total.dec", {"spec": multi_spec(hdr, t, p), "whole": n}))
    for le in ("no-such-codec", "utf-8", "latin-1"):
        for n in (0, 1, 2, 3, 4):
            out.append(T("length codec %s body %d" % (le, n), "h_total.dec", one_body(dict(data_enc="ascii", len_enc=le, len_type=2, max_len=9), n)))
    out += small_bitmaps(tier, "h_total.dec")
    # fields nothing is specified for
    for maps in ([[None, 0, 0, 0, 0, 0, 0, 0]], [[0x80, 0, 0, 0, 0, 0, 0, 0], [0, 0, None, 0, 0, 0, 0, 0]], [[0x80, 0, 0, 0, 0, 0, 0, 0], [0x80, 0, 0, 0, 0, 0, 0, 0], [0, 0, None, 0, 0, 0, 0, 0]]):
        out.append(T("unspecified fields %d" % len(maps), "h_total.dec", {"spec": {"fields": {"2": dict(max_len=1), "7": dict(max_len=1), "84": dict(max_len=0), "146": dict(data_enc="b", max_len=1)}}, "maps": maps, "most": 3, "body": 2}, cost=3))
    out += text_bitmaps(tier, "h_total.dec") + cut_bitmaps(tier, "h_total.dec")
    out += odd_codecs(tier, True)
    out += [dict(x, name=x["name"] + " bytearray", cfg=dict(x["cfg"], bytearray=True)) for x in dec_fields("quick", "h_total.dec", datas=["ascii", "b"], small=False, need=())[::5]]
    out += every_field(tier, dec="h_total.dec")
    return out


def C04(tier):
    out = []
    for x in enc_fields(tier, "h_total.enc", datas=DATA + ["no-such-codec"], need=()) + nib_enc(tier, "h_total.enc"):
        v = dict(x["cfg"]["doc"]["2"])
        if "ranges" not in v and x["cfg"]["spec"]["fields"]["2"]["data_enc"] == "utf-8":
            v["ranges"] = ASCII
        out.append(T(x["name"], "h_total.enc", {"spec": x["cfg"]["spec"], "items": [["t", "0200"], ["2", v]]}))
    flds = {"2": dict(max_len=2, len_type=1), "66": dict(max_len=1), "150": dict(data_enc="b", max_len=1)}
    for sp, n in [({"fields": flds}, "plain"), ({"fields": flds, "h": HEADERS["fix-b"], "t": "b", "p": "ascii"}, "header")]:
        for k in (1, 2):
            out.append(T("any key of %d characters, %s" % (k, n), "h_total.enc", {"spec": sp, "items": [["t", "0200"], [{"n": k, "ranges": ANY}, {"n": 1, "ranges": ANY}]]}, cost=4))
            out.append(T("any key of %d characters, header and type given, %s" % (k, n), "h_total.enc", {"spec": sp, "items": [["h", "AAAA"], ["t", "0200"], [{"n": k, "ranges": ANY}, "5A"]]}, cost=4))
        # three characters: by the first
        for tag, rg in (("0", None), ("1", None), ("", [[50, 57]]), ("", [[0, 47]]), ("", [[58, 0x10FFFF]])):
            key = {"n": 2, "tag": tag, "ranges": ANY} if tag else {"n": 3, "ranges": ANY, "first": rg}
            out.append(T("any key of 3 characters %s%s, %s" % (tag, rg or "", n), "h_total.enc", {"spec": sp, "items": [["h", "AAAA"], ["t", "0200"], [key, "5A"]]}, cost=8))
        for rg in ([[0, 47], [58, 0x17F]], [[48, 52]], [[53, 57]], [[0x660, 0x669], [0xB2, 0xB2], [0x1F600, 0x1F610]]):
            for r2 in ([[0, 47], [58, 0x17F]], [[48, 57]]):
                out.append(T("any two keys %s %s, %s" % (rg, r2, n), "h_total.enc", {"spec": sp, "items": [["h", "AAAA"], ["t", "0200"], [{"n": 1, "ranges": rg}, "1"], [{"n": 2, "ranges": ANY_LITE, "first": r2}, "2"]]}, cost=6))
        for k in range(0, 6):
            out.append(T("any type of %d characters, %s" % (k, n), "h_total.enc", {"spec": sp, "items": [["h", "AAAA"], ["t", {"n": k, "ranges": ANY}], ["66", "1"]]}))
            out.append(T("any header of %d characters, %s" % (k, n), "h_total.enc", {"spec": sp, "items": [["h", {"n": k, "ranges": ANY}], ["t", "0200"], ["66", "1"]]}))
        out.append(T("no type, %s" % n, "h_total.enc", {"spec": sp, "items": [["h", "AAAA"], [{"n": 1, "ranges": ANY}, {"n": 1, "ranges": ANY}]]}))
        out.append(T("empty, %s" % n, "h_total.enc", {"spec": sp, "items": []}))
        for k in ("1", "65", "p", "0", "193", "00", "02", "\u0662", "\u00b2", "\u0bf0", "h", "9" * 4299, "9" * 4301, "9" * 5000, "-2", " 2", "2.0"):
            out.append(T("key %s, %s" % (ascii(k[:9]), n), "h_total.enc", {"spec": sp, "items": [["h", "AAAA"], ["t", "0200"], ["p", {"n": 1, "ranges": ANY}], [k, {"n": 2, "ranges": ANY}]] if k not in ("p", "h") else [["h", "AAAA"], ["t", "0200"], [k + "2", {"n": 2, "ranges": ANY}]]}))
    for t, p in [("no-such-codec", "b"), ("ascii", "no-such-codec"), ("utf-8", "utf-8")]:
        out.append(T("codecs t=%s p=%s" % (t, p), "h_total.enc", {"spec": {"fields": flds, "t": t, "p": p}, "items": [["t", {"n": 4, "ranges": ANY}], ["66", {"n": 1}], ["150", {"n": 2, "ranges": ANY}]]}))
    for le in ("no-such-codec", "utf-8", "latin-1"):
        out.append(T("length codec %s" % le, "h_total.enc", {"spec": {"fields": {"2": dict(len_enc=le, len_type=2, max_len=120)}}, "items": [["t", "0200"], ["2", {"n": ["blob", 0, 130]}]]}))
    out += odd_codecs(tier, False)
    for lp, rp in [("x", None), (None, "\u00e9"), ("\u0663", None)]:
        for n in (1, 2, 3):
            out.append(T("odd pad %s %s %d" % (ascii(lp), ascii(rp), n), "h_total.enc", {"spec": {"fields": {"2": nib_kw("b", lp, rp, "ascii", 2, 9)}}, "items": [["t", "0200"], ["2", {"n": n, "ranges": ANY}]]}))
    return out


def C05(tier):
    out = enc_multi(tier, "h_layout.enc") + dec_multi(tier, "h_layout.dec")
    out += enc_fields(tier, "h_layout.enc", small=False) + dec_fields(tier, "h_layout.dec", small=False)
    # whatever the order of the document
    for hdr, t, p, one in COMBOS[:3]:
        for on in ([192, 66, 2], [129, 128, 64, 3], [3, 2], [66, 64]):
            d = multi_doc(hdr, on)
            out.append(T("document order %s hdr=%s" % (on, hdr), "h_layout.enc", {"spec": multi_spec(hdr, t, p, one), "doc": dict(reversed(list(d.items())))}, ["accepted"]))
    out.append(T("stale", "h_layout.enc", {"spec": {"fields": MULTI_FIELDS}, "doc": {"192": {"n": 2}, "x": {"n": 1}, "p": {"n": 2}, "1": {"n": 1}, "65": {"n": 1}, "h": {"n": 2}, "t": "0200"}}, ["accepted"]))
    for x in small_bitmaps(tier, "h_layout.dec"):
        out.append(x)
    out += every_field(tier, "h_layout.enc", "h_layout.dec")
    return out


def C06(tier):
    out = []
    sb = {"all": dict(data_enc="b", max_len=1)}
    for p, one in [("b", None), ("ascii", None), ("cp500", None), ("b", "ascii"), ("ascii", "b"), ("utf-8", "cp500")]:
        sp = dict(sb, p=p)
        if one:
            sp["1"] = one
        out.append(T("any one field p=%s 1=%s" % (p, one), "h_bitmap.enc_pair", {"spec": sp, "keys": [[2, 192]], "stale": []}, ["maps:8"] if p == "b" else [], cost=20))
        out.append(T("no field p=%s 1=%s" % (p, one), "h_bitmap.enc_pair", {"spec": sp, "keys": [], "stale": ["p", "1", "65"]}, cost=1))
    out.append(T("any one field, stale entries", "h_bitmap.enc_pair", {"spec": sb, "keys": [[2, 192]], "stale": ["p", "1", "65"]}, cost=20))
    for st in ("p", "1", "65"):
        for n in (0, 1, 16):
            out.append(T("any one field, stale %s of %d" % (st, n), "h_bitmap.enc_pair", {"spec": sb, "keys": [[62, 132]], "stale": [st], "stale_n": n}, cost=6))
            out.append(T("no field, stale %s of %d" % (st, n), "h_bitmap.enc_pair", {"spec": sb, "keys": [], "stale": [st], "stale_n": n}))
    vb = {"all": dict(len_type=1, max_len=3)}
    vz = {"all": dict(data_enc="b", max_len=0)}
    for keys in ([[2, 4], [60, 64]], [[2, 3], [66, 68]], [[63, 64], [128, 131]], [[190, 192]], [[2, 192]], [[66, 70]], [[126, 130]]):
        out.append(T("fields %s with values of any length" % keys, "h_bitmap.enc_pair", {"spec": vb, "keys": keys, "value": {"n": ["blob", 0, 3]}}, cost=8))
        out.append(T("fields %s with empty values" % keys, "h_bitmap.enc_pair", {"spec": vz, "keys": keys, "value": {"n": 0}}, cost=8))
    out.append(T("any one field, stale entries first", "h_bitmap.enc_pair", {"spec": sb, "keys": [[2, 192]], "stale": ["p", "1", "65"], "stale_first": True}, cost=20))
    wins = [[2, 3, 62, 63, 64, 66, 67, 127], [2, 64, 66, 128, 129, 130, 191, 192], [57, 58, 59, 60, 61, 62, 63, 64], [8, 9, 16, 17, 72, 73, 136, 137], [120, 121, 122, 123, 124, 125, 126, 127]]
    for w in wins:
        out.append(T("every subset of %s" % w, "h_bitmap.enc_window", {"spec": sb, "window": w, "stale": ["1"]}, cost=12))
    w2 = [5, 68, 70, 128, 131, 192]
    for p, one in [("ascii", None), ("cp500", "b"), ("b", "ascii")]:
        sp = dict(sb, p=p)
        if one:
            sp["1"] = one
        out.append(T("every subset of %s p=%s 1=%s" % (w2, p, one), "h_bitmap.enc_window", {"spec": sp, "window": w2, "stale": ["65"]}, cost=8))
    for a, b in [(2, 64), (2, 128), (2, 192), (66, 128), (129, 192)]:
        out.append(T("all of %d..%d but one" % (a, b), "h_bitmap.enc_dense", {"spec": sb, "range": [a, b]}, cost=10))
    pairs = [(2, 9, 62, 68), (64, 64, 66, 192), (2, 5, 126, 131), (100, 104, 186, 192)]
    for a, b, c, d in pairs:
        out.append(T("any pair of %d..%d with %d..%d" % (a, b, c, d), "h_bitmap.enc_pair", {"spec": sb, "keys": [[a, b], [c, d]], "stale": ["1"]}, cost=8))
    if tier == "thorough":
        for p in ("b", "ascii"):
            for a in range(2, 193, 8):
                out.append(T("any pair from %d..%d up p=%s" % (a, a + 7, p), "h_bitmap.enc_pair", {"spec": dict(sb, p=p), "keys": [[a, min(a + 7, 191)], [a + 1, 192]], "stale": []}, cost=40))
        for a in range(2, 193, 11):
            w = [x for x in range(a, a + 11) if x <= 192]
            out.append(T("every subset of %s" % w, "h_bitmap.enc_window", {"spec": sb, "window": w}, cost=60))
            out.append(T("every subset of %s with 2, 66, 130" % w, "h_bitmap.enc_window", {"spec": sb, "window": w[:9], "also": [2, 66, 130]}, cost=60))
        for k in ([[2, 63], [64, 68], [126, 132]], [[2, 10], [60, 70], [120, 135]]):
            out.append(T("any triple %s" % k, "h_bitmap.enc_pair", {"spec": sb, "keys": k}, cost=60))
    return out


def C07(tier):
    out = []
    sb = {"all": dict(data_enc="b", max_len=1)}
    Z = [0] * 8
    S = [0x80] + [0] * 7

    def maps(where, b):
        m, j = where
        out = [list(Z)] if m == 0 else [list(S), list(Z)] if m == 1 else [list(S), list(S), list(Z)]
        out[m][j] = b
        return out

    for m in range(3):
        for j in range(8):
            pats = maps((m, j), None)
            # any contents of one byte
            most = 3 if tier == "quick" else None
            out.append(T("any byte %d of bitmap %d" % (j, m + 1), "h_bitmap.dec_bits", {"spec": sb, "maps": pats, "most": most}, cost=8))
            out.append(T("nearly full byte %d of bitmap %d" % (j, m + 1), "h_bitmap.dec_bits", {"spec": sb, "maps": pats, "least": 6}, cost=8))
    for n in (1, 2, 3):
        for p in ("b", "ascii", "cp500"):
            if tier == "quick" and p == "cp500" and n != 2:
                continue
            out.append(T("all fields but one, %d bitmaps p=%s" % (n, p), "h_bitmap.dec_all_but", {"spec": dict(sb, p=p), "maps": [Z] * n}, cost=45 * n // 3, max_seconds=300))
    for p, one in [("ascii", None), ("cp500", None), ("b", "ascii"), ("ascii", "b")]:
        sp = dict(sb, p=p)
        if one:
            sp["1"] = one
        if one is None:
            for m, j in [(0, 0), (1, 3), (2, 7)]:
                out.append(T("text bitmap p=%s any byte %d of bitmap %d" % (p, j, m + 1), "h_bitmap.dec_bits", {"spec": sp, "maps": maps((m, j), None), "most": 2}, cost=10))
    two = [([[0, None, None, 0, 0, 0, 0, 0]], "bytes 1,2"), ([[0x80, 0, 0, 0, 0, 0, 0, None], [None, 0, 0, 0, 0, 0, 0, 0]], "64 to 72"), ([S, [0x80, 0, 0, 0, 0, 0, 0, None], [None, 0, 0, 0, 0, 0, 0, 0]], "128 to 136")]
    for pat, n in two:
        out.append(T("two bytes %s" % n, "h_bitmap.dec_bits", {"spec": sb, "maps": pat, "most": 2 if tier == "quick" else 4}, cost=25, max_seconds=300))
    # presence and truncation of the bitmaps themselves
    for pat in REDUNDANT:
        for p, one in (("b", "b"), ("ascii", "ascii"), ("b", "ascii"), ("ascii", "b")):
            for n in (0, 1, 2, 3):
                out.append(T("bitmaps %s p=%s 1=%s, any %d bytes" % (bytes(sum(pat, [])).hex()[:40], p, one, n), "h_accept.dec", {"spec": dict(sb, p=p, **{"1": one}), "given": pat, "body": n, "what": "all"}))
    out += text_bitmaps(tier, "h_accept.dec", "all") + cut_bitmaps(tier, "h_accept.dec", "all")
    return out


def C08(tier):
    out = enc_fields(tier, "h_accept.enc", "length", datas=["ascii", "cp500", "b"], small=False)
    out += dec_fields(tier, "h_accept.dec", "length", datas=["ascii", "b"])
    out += dec_fields(tier, "h_accept.dec", "length", datas=["latin-1"], small=False)
    for le in ("utf-8", "latin-1", "cp037", "utf-16"):
        if le == "utf-16":
            continue
        for lt in (1, 2, 3):
            ml = min(10 ** lt - 1, 300)
            out.append(T("enc length codec %s%d" % (le, lt), "h_accept.enc", dict(one_field(dict(len_enc=le, len_type=lt, max_len=ml), ["blob", 0, ml + 2]), what="length"), ["accepted"]))
            out.append(T("dec length codec %s%d" % (le, lt), "h_accept.dec", dict(one_body(dict(len_enc=le, len_type=lt, max_len=ml), ["blob", 0, lt + ml + 2]), what="length"), ["accepted"]))
    # header and fields of every region use the same rules
    for no in (64, 66, 128, 129, 192):
        for le, lt, ml in [("bcd", 2, 1500), ("b", 1, 200), ("ascii", 3, 400)]:
            kw = dict(data_enc="latin-1", len_enc=le, len_type=lt, max_len=ml)
            out.append(T("enc field %d %s" % (no, nm("", le, lt, ml)), "h_accept.enc", {"spec": {"fields": {str(no): kw}}, "doc": {"t": "0200", str(no): {"n": ["blob", 0, ml + 2]}}, "what": "length"}, ["accepted"]))
            out.append(T("dec field %d %s" % (no, nm("", le, lt, ml)), "h_accept.dec", dict(one_body(kw, ["blob", 0, lt + ml + 2], str(no)), what="length"), ["accepted"]))
    for le, lt, ml in [("bcd", 2, 1500), ("b", 1, 200), ("ascii", 3, 400), ("cp500", 2, 20)]:
        kw = dict(data_enc="latin-1", len_enc=le, len_type=lt, max_len=ml)
        out.append(T("enc header %s" % nm("", le, lt, ml), "h_accept.enc", {"spec": {"h": kw}, "doc": {"t": "0200", "h": {"n": ["blob", 0, ml + 2]}}, "what": "length"}, ["accepted"]))
    # characters that encode to more than one byte: bytes are counted, not characters
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for le, lt in (("ascii", 1), ("ascii", 2), ("b", 1), ("bcd", 1), ("cp500", 3)):
            c = dict(one_field(dict(data_enc="utf-8", len_enc=le, len_type=lt, max_len=4 * n), n), what="length")
            c["doc"]["2"]["ranges"] = ANY
            out.append(T("enc utf-8 any %d characters %s%d" % (n, le, lt), "h_accept.enc", c, ["accepted"]))
            c = dict(one_body(dict(data_enc="utf-8", len_enc=le, len_type=lt, max_len=4 * n), lt + n), what="length")
            out.append(T("dec utf-8 any %d bytes %s%d" % (n, le, lt), "h_accept.dec", c, ["accepted"]))
    # a length counted in half-bytes
    for i, x in enumerate(nib_enc(tier, "h_accept.enc") + nib_dec(tier, "h_accept.dec", both=True)):
        if tier == "thorough" or x["name"].endswith("any length"):
            out.append(dict(x, cfg=dict(x["cfg"], what="length")))
    out += nib_header(tier, "h_accept.enc", "h_accept.dec", "length")
    out += odd_codecs_ref(tier, "length", "length")
    out += every_field(tier, "h_accept.enc", "h_accept.dec", "length")
    return out


def C09(tier):
    out = enc_fields(tier, "h_accept.enc", "limits")
    out += [dict(x, cfg=dict(x["cfg"], what="limits")) for x in nib_enc(tier, "h_accept.enc")[:: 1 if tier == "thorough" else 3]]
    for no in (64, 66, 128, 129, 192):
        for le, lt, ml in [("ascii", 2, 20), ("b", 1, 300), ("ascii", 0, 12), ("bcd", 1, 150)]:
            for de in ("ascii", "b"):
                kw = dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml)
                out.append(T("field %d %s" % (no, nm(de, le, lt, ml)), "h_accept.enc", {"spec": {"fields": {str(no): kw}}, "doc": {"t": "0200", str(no): {"n": ["blob", 0, unit(de) * (ml + 2)]}}, "what": "limits"}, ["accepted"]))
    # encoded size counts, not characters
    for n in (1, 2, 3, 4):
        out.append(T("utf-8 any %d characters against 4 bytes" % n, "h_accept.enc", dict(one_field(dict(data_enc="utf-8", len_type=1, max_len=4), n), what="limits"), []))
        out[-1]["cfg"]["doc"]["2"]["ranges"] = ANY
        for ml in (3, 4):
            c = dict(one_field(dict(data_enc="utf-8", max_len=ml), n), what="limits")
            c["doc"]["2"]["ranges"] = ANY
            out.append(T("utf-8 any %d characters against exactly %d bytes" % (n, ml), "h_accept.enc", c))
    out += enc_multi(tier, "h_accept.enc", "limits", combos=COMBOS[:2])
    out += odd_codecs_ref(tier, "limits", "data")
    out += every_field(tier, "h_accept.enc", what="limits")
    return out


def C10(tier):
    out = dec_fields(tier, "h_accept.dec", "strict") + dec_multi(tier, "h_accept.dec", "strict")
    out += [dict(x, cfg=dict(x["cfg"], what="strict")) for x in nib_dec(tier, "h_accept.dec")[:: 1 if tier == "thorough" else 3]]
    out += whole_messages(tier, "h_accept.dec", "strict")
    out += small_bitmaps(tier, "h_accept.dec", "strict")
    out += text_bitmaps(tier, "h_accept.dec", "strict") + cut_bitmaps(tier, "h_accept.dec", "strict")
    out += odd_codecs_ref(tier, "strict", "data")
    out += every_field(tier, dec="h_accept.dec", what="strict")
    return out


def whole_messages(tier, where, what=None):
    out = []
    for t, p, hdr in [("ascii", "b", "none"), ("b", "b", "none"), ("cp500", "cp500", "none"), ("utf-8", "ascii", "none"), ("b", "ascii", "var-b"), ("ascii", "b", "var-ascii"), ("ascii", "b", "fix-cp500"), ("latin-1", "b", "fix-b")]:
        for n in range(0, 12):
            if (hdr.startswith("var") or t == "b") and n > 9:
                continue
            c = {"spec": multi_spec(hdr, t, p), "whole": n}
            if what:
                c["what"] = what
            out.append(T("any %d bytes t=%s p=%s hdr=%s" % (n, t, p, hdr), where, c))
    return out


def C11(tier):
    out = enc_fields(tier, "h_accept.enc", "data", datas=DATA + ["cp037", "cp1252"]) + dec_fields(tier, "h_accept.dec", "data", datas=DATA + ["cp037", "cp1252"])
    out += enc_multi(tier, "h_accept.enc", "data", combos=COMBOS[:3]) + dec_multi(tier, "h_accept.dec", "data", combos=COMBOS[:3])
    out += odd_codecs_ref(tier, "data", "data")
    out += every_field(tier, "h_accept.enc", "h_accept.dec", "data")
    # the header is a field like any other
    for de in DATA + ["cp037"]:
        u = unit(de)
        for le, lt, ml in [("ascii", 0, 4), ("ascii", 0, 7), ("ascii", 1, 9), ("bcd", 1, 60), ("b", 2, 999), ("cp500", 3, 300)]:
            if de == "utf-8":
                ml = min(ml, 4)
            sp = {"h": dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml), "fields": {"2": dict(max_len=1)}}
            n = "header " + nm(de, le, lt, ml)
            out.append(T("enc " + n, "h_accept.enc", {"spec": sp, "doc": {"h": {"n": ["blob", 0, u * (ml + 2)]}, "t": "0200", "2": "1"}, "what": "data"}, ["accepted"]))
            for k in (1, 2, 3) if de != "b" else (1, 2, 4):
                out.append(T("enc %s any %d characters" % (n, k), "h_accept.enc", {"spec": sp, "doc": {"h": {"n": k, "ranges": ANY}, "t": "0200", "2": "1"}, "what": "data"}))
            for h in (ml,) if lt == 0 else (4, 7):
                if h > ml:
                    continue
                ind = "" if lt == 0 else h.to_bytes(lt, "big").hex() if le == "b" else "%0*d" % (2 * lt, h) if le == "bcd" else ("%0*d" % (lt, h)).encode(le).hex()
                out.append(T("dec %s of %d bytes" % (n, h), "h_accept.dec", {"spec": sp, "hdr": {"ind": ind, "n": h}, "on": [2], "body": 1, "what": "data"}, ["accepted"]))
    return out


def C12(tier):
    return [x for x in every_field(tier, "h_accept.nib_enc", "h_accept.nib_dec") if "nibbles" in x["name"]] + nib_header(tier, "h_accept.nib_enc", "h_accept.nib_dec") + nib_enc(tier, "h_accept.nib_enc") + nib_dec(tier, "h_accept.nib_dec", both=True)


def C13(tier):
    out = dec_fields(tier, "h_errors.dec", datas=DATA, need=("rejected",), small=tier == "thorough") + dec_multi(tier, "h_errors.dec")
    for de in DATA:
        for le, lt, ml in [("ascii", 1, 4), ("bcd", 1, 4), ("b", 2, 300), ("cp500", 3, 999), ("ascii", 0, 2)]:
            for n in (0, 1, 2, 3, 4):
                out.append(T("body %d bytes " % n + nm(de, le, lt, ml), "h_errors.dec", one_body(dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml), n)))
    out += nib_dec(tier, "h_errors.dec")[:: 1 if tier == "thorough" else 3]
    out += whole_messages(tier, "h_errors.dec")
    out += small_bitmaps(tier, "h_errors.dec")
    out += text_bitmaps(tier, "h_errors.dec") + cut_bitmaps(tier, "h_errors.dec")
    for maps in ([[0x80] + [0] * 7, [0, 0, None, 0, 0, 0, 0, 0]], [[0x80] + [0] * 7, [0x80] + [0] * 7, [0, 0, None, 0, 0, 0, 0, 0]]):
        out.append(T("unspecified fields %d" % len(maps), "h_errors.dec", {"spec": {"fields": {"2": dict(max_len=1), "84": dict(max_len=1), "146": dict(data_enc="b", max_len=1)}}, "maps": maps, "most": 2, "body": 2}, cost=3))
    out += [dict(x, name=x["name"] + " bytearray", cfg=dict(x["cfg"], bytearray=True)) for x in out[::17] if "maps" not in x["cfg"]]
    out += every_field(tier, dec="h_errors.dec")
    return out


def C14(tier):
    out = enc_fields(tier, "h_errors.enc", datas=DATA + ["no-such-codec"], need=("rejected",)) + enc_multi(tier, "h_errors.enc", need=(), long=True)
    out = [x for x in out if not (x["name"].startswith("long") and "/fixed0/" in x["name"] and False)]
    # one field of several at fault
    for hdr, t, p, one in COMBOS:
        for on in SHAPES[1:]:
            for bad in on:
                d = multi_doc(hdr, on)
                d[str(bad)] = {"n": 3 if MULTI_FIELDS[str(bad)]["data_enc"] != "b" else 2, "ranges": ANY}
                out.append(T("fields %s, %d at fault, hdr=%s" % (on, bad, hdr), "h_errors.enc", {"spec": multi_spec(hdr, t, p, one), "doc": d}))
    out += nib_enc(tier, "h_errors.enc")[:: 1 if tier == "thorough" else 3]
    for k, sp in [("no t", {"fields": MULTI_FIELDS}), ("no h", {"fields": MULTI_FIELDS, "h": HEADERS["fix-b"]})]:
        out.append(T(k, "h_errors.enc", {"spec": sp, "doc": {"2": {"n": 2}, "66": {"n": 1}}}, ["rejected"]))
        out.append(T(k + " 2", "h_errors.enc", {"spec": sp, "doc": {"t": "0200", "2": {"n": 3, "ranges": ANY}, "66": {"n": 1}}} if k == "no h" else {"spec": sp, "doc": {"p": "00", "1": "0"}}, ["rejected"]))
    for t in ("ascii", "b", "utf-8", "no-such-codec"):
        for n in range(0, 6):
            out.append(T("type %s %d" % (t, n), "h_errors.enc", {"spec": {"t": t, "fields": MULTI_FIELDS}, "doc": {"t": {"n": n, "ranges": ANY}, "2": {"n": 2}}}))
    for k in ("0", "193", "02", "1000", "77", "140", "\u0662"):
        out.append(T("key %s" % ascii(k), "h_errors.enc", {"spec": {"fields": MULTI_FIELDS}, "doc": {"t": "0200", "2": {"n": 2}, k: {"n": 1}}}, ["rejected"]))
    out.append(T("bitmap codec", "h_errors.enc", {"spec": {"p": "no-such-codec", "fields": MULTI_FIELDS}, "doc": {"t": "0200", "2": {"n": 2}}}, ["rejected"]))
    out.append(T("secondary bitmap codec", "h_errors.enc", {"spec": {"p": "b", "1": "no-such-codec", "fields": MULTI_FIELDS}, "doc": {"t": "0200", "2": {"n": 2}, "66": {"n": 1}}}, ["rejected"]))
    out.append(T("length codec", "h_errors.enc", {"spec": {"fields": {"2": dict(len_enc="no-such-codec", len_type=2, max_len=9)}}, "doc": {"t": "0200", "2": {"n": ["blob", 0, 12]}}}, ["rejected"]))
    out += every_field(tier, "h_errors.enc")
    return out


def C15(tier):
    out = []
    for kind in ("dec", "enc"):
        for n in (0, 1, 3) + ((6,) if tier == "thorough" else ()):
            for m in (0, 1, 3):
                out.append(T("made %s %d %d" % (kind, n, m), "h_errors.made_copies", {"kind": kind, "n": n, "m": m}))
        out.append(T("made %s, a bytearray" % kind, "h_errors.made_copies", {"kind": kind, "n": 2, "m": 1, "bytearray": True}))
        out.append(T("made %s of a subclass" % kind, "h_errors.made_copies", {"kind": kind, "n": 2, "m": 1, "sub": True}))
    def lim(xs, w):
        return [dict(x, func=w) for x in xs]
    out += lim(dec_fields(tier, "h_errors.dec_copies", need=("rejected",)), "dec_copies")[:: 1 if tier == "thorough" else 3]
    out += lim(enc_fields(tier, "h_errors.enc_copies", need=("rejected",)), "enc_copies")[:: 1 if tier == "thorough" else 3]
    out += lim(dec_multi(tier, "h_errors.dec_copies")[:: 1 if tier == "thorough" else 2], "dec_copies")
    for x in C14("quick"):
        if "at fault" in x["name"] or "key" in x["name"] or "type" in x["name"] or "no " in x["name"] or "codec" in x["name"]:
            out.append(T(x["name"], "h_errors.enc_copies", x["cfg"]))
    out += whole_messages(tier, "h_errors.dec_copies")[::2]
    # what was given is kept with its type
    for i, x in enumerate(list(out)):
        if x["func"] in ("dec_copies", "enc_copies") and '"blob"' not in json.dumps(x["cfg"]) and (tier == "thorough" or i % 4 == 1):
            out.append(dict(x, name=x["name"] + (", a bytearray" if x["func"] == "dec_copies" else ", an OrderedDict"), cfg=dict(x["cfg"], bytearray=True, ordered=True)))
    return out


def C16(tier):
    out = []
    d = dec_fields(tier, "h_state.dec_pure", datas=["ascii", "b", "cp500"], long=False)[:: 1 if tier == "thorough" else 2]
    out += d
    out += [dict(x, name=x["name"] + " bytearray", cfg=dict(x["cfg"], bytearray=True)) for x in d[::2]]
    m = dec_multi(tier, "h_state.dec_pure")
    out += m
    out += [dict(x, name=x["name"] + " bytearray", cfg=dict(x["cfg"], bytearray=True)) for x in m]
    out += [dict(x, name=x["name"] + " proxy", cfg=dict(x["cfg"], proxy=True)) for x in m[::4]]
    e = enc_fields(tier, "h_state.enc_pure", datas=["ascii", "b", "utf-8"], long=False)[:: 1 if tier == "thorough" else 2]
    out += e
    out += [x for x in nib_enc(tier, "h_state.enc_pure") if "any length" not in x["name"] and ("any 3" in x["name"] or "any 4" in x["name"] or tier == "thorough")]
    m = enc_multi(tier, "h_state.enc_pure", long=False)
    out += m + [dict(x, name=x["name"] + " proxy", cfg=dict(x["cfg"], proxy=True)) for x in m[::4]]
    for i, x in enumerate(m):
        if i % 3 == 0:
            d = dict(x["cfg"]["doc"])
            for k in ("h",) if x["cfg"]["spec"].get("h") is None else ():
                d[k] = {"n": 2}
            out.append(T(x["name"] + " stale", "h_state.enc_pure", dict(x["cfg"], doc=dict(d, p={"n": 2}, **{"1": {"n": 1}, "65": {"n": 1}, "x": {"n": 1}})), ["accepted"]))
    sp = {"fields": {"2": dict(len_type=2, max_len=9), "66": dict(max_len=2)}}
    for n in (0, 1, 3):
        out.append(T("pp text %d" % n, "h_state.pp_pure", {"spec": sp, "doc": {"t": "0200", "66": {"n": n, "ranges": PRINT}, "2": "12"}, }, cost=8))
    one = {"spec": sp, "doc": {"2": "x"}}
    for x in ("len", "data"):
        out.append(T("pp pieces without %s" % x, "h_state.pp_pure", dict(one, encoded=1, partial=x, lw=(10, 30), dw=(0, 2)), cost=2))
    out.append(T("pp pieces, any widths", "h_state.pp_pure", dict(one, encoded=1), cost=20))
    for lw in (1, 20, 80) if tier == "quick" else range(0, 90, 5):
        out.append(T("pp pieces, line width %d" % lw, "h_state.pp_pure", dict(one, encoded=2 if tier == "quick" else 3, lw=(lw, lw), dw=(0, 8)), cost=20))
    for hn, hk in list(HEADERS.items()) + [("odd codec", dict(data_enc="no-such-codec", max_len=2))]:
        spx = dict(sp, h=hk) if hk else sp
        for dn, dx in [("empty", {}), ("no type", {"h": {"n": 2}, "2": {"n": 1}}), ("no header", {"t": "0200", "2": {"n": 1}}), ("any type", {"h": {"n": short_value(hk or MULTI_FIELDS["3"])}, "t": {"n": 4, "ranges": ANY}}),
                       ("unknown fields", {"h": {"n": short_value(hk or MULTI_FIELDS["3"])}, "t": "0200", "66": {"n": 2}, "67": {"n": 1}, "193": "1"}), ("key 02", {"t": "0200", "h": {"n": short_value(hk or MULTI_FIELDS["3"])}, "02": {"n": 1}}),
                       ("one at fault", {"t": "0200", "h": {"n": short_value(hk or MULTI_FIELDS["3"])}, "2": {"n": 2}, "66": {"n": 1}})]:
            out.append(T("document with %s, hdr=%s" % (dn, hn), "h_state.enc_pure", {"spec": spx, "doc": dx}))
        for n in (0, 3, 8, 10):
            out.append(T("first %d bytes, hdr=%s" % (n, hn), "h_state.dec_pure", {"spec": spx, "whole": n}))
    # long values
    for x in enc_fields(tier, "h_state.enc_pure", datas=["ascii", "b"], small=False)[:: 4 if tier == "quick" else 1]:
        out.append(dict(x, cfg=dict(x["cfg"], poke="clear")))
    return out


def _st(op, spec, **kw):
    return dict(op=op, spec=spec, **kw)


def C17(tier):
    out = []
    A = {"fields": {"2": dict(data_enc="ascii", len_enc="ascii", len_type=1, max_len=3), "66": dict(data_enc="ascii", max_len=1)}}
    B = {"fields": {"2": dict(data_enc="cp500", len_enc="cp500", len_type=1, max_len=2), "66": dict(data_enc="b", max_len=1)}, "p": "ascii"}
    C = {"fields": {"2": dict(data_enc="b", len_enc="bcd", len_type=1, max_len=9, len_count="nibbles", left_pad="0")}, "h": dict(data_enc="b", max_len=1), "t": "b"}
    D = {"fields": {"2": dict(data_enc="b", len_enc="bcd", len_type=1, max_len=9, len_count="nibbles", right_pad="F"), "66": dict(data_enc="latin-1", max_len=2)}}
    E = {"fields": {"2": dict(data_enc="utf-8", len_enc="b", len_type=1, max_len=4), "66": dict(data_enc="utf-8", max_len=2)}}
    specs = {"A": A, "B": B, "C": C, "D": D, "E": E}
    docs = {
        "A": [{"t": "0200", "2": {"n": 2}}, {"t": "0200", "2": {"n": 1}, "66": {"n": 1}}, {"t": "0200", "2": {"n": 4}}],
        "B": [{"t": "0200", "2": {"n": 2}, "66": {"n": 2}}, {"t": "0200", "66": {"n": 2, "ranges": ANY}}],
        "C": [{"h": {"n": 2}, "t": "0200", "2": {"n": 3}}, {"h": {"n": 2}, "t": {"n": 4}}],
        "D": [{"t": "0200", "2": {"n": 3}}, {"t": "0200", "2": {"n": 2}, "66": {"n": 2}}],
        "E": [{"t": "0200", "2": {"n": 1 if tier == "quick" else 2, "ranges": ANY}}],
    }
    msgs = {
        "A": [dict(on=[2], body=3), dict(on=[2, 66], body=3)],
        "B": [dict(on=[2], body=2), dict(on=[66], body=1)],
        "C": [dict(on=[2], body=3, hdr=1), dict(on=[], body=0, hdr=1)],
        "D": [dict(on=[2], body=3), dict(on=[66], body=2)],
        "E": [dict(on=[66], body=2), dict(on=[2], body=2 if tier == "quick" else 3)],
    }
    def steps_of(k):
        return [_st("enc", specs[k], doc=d) for d in docs[k]] + [_st("dec", specs[k], **m) for m in msgs[k]]
    allst = [(k, i, s) for k in specs for i, s in enumerate(steps_of(k))]
    for k1, i1, s1 in allst:
        for k2, i2, s2 in allst:
            if tier == "quick" and (ord(k1) + i1 + 3 * ord(k2) + i2) % 2:
                continue
            out.append(T("%s%d then %s%d" % (k1, i1, k2, i2), "h_state.history", {"steps": [s1, s2], "again": [0]}, cost=2))
    # printing, before and after
    pps = [("print", _st("print", A, doc={"t": "0200", "2": {"n": 2}})), ("pp", _st("pp", B, doc={"2": {"n": 12, "ranges": [[48, 57]]}, "66": {"n": 1}})),
           ("pp pieces", _st("pp", A, doc={"66": {"n": 1}}, pieces=1))]
    A2 = {"fields": {"2": dict(A["fields"]["2"], desc="Anything 2"), "66": dict(data_enc="b", max_len=2, desc="Same field")}}
    B2 = {"fields": {"2": dict(data_enc="ascii", max_len=9, desc="Other field")}, "p": "ascii"}
    pps += [("print other", _st("print", A2, doc={"t": "0200", "2": {"n": 2}})), ("pp other", _st("pp", B2, doc={"2": {"n": 5, "ranges": [[48, 57]]}}))]
    for k, st in pps[:3]:
        for ch in ({"2": {"desc": "Same field"}}, {"2": {"desc": ""}}):
            if k != "pp pieces":
                out.append(T("%s, edit %s, again" % (k, ch), "h_state.history", {"steps": [st, dict(st, same_spec=0, change=ch)]}, cost=3))
    for n1, s1 in pps:
        for n2, s2 in pps:
            out.append(T("%s then %s" % (n1, n2), "h_state.history", {"steps": [s1, s2], "again": [0]}, cost=3))
        for k, i, s in allst[:: 4 if tier == "quick" else 1]:
            out.append(T("%s%d then %s" % (k, i, n1), "h_state.history", {"steps": [s, s1], "again": [0]}, cost=3))
            out.append(T("%s then %s%d" % (n1, k, i), "h_state.history", {"steps": [s1, s], "again": [0]}, cost=3))
    # three steps
    n = 0
    for k1, i1, s1 in allst:
        for k2, i2, s2 in allst:
            for k3, i3, s3 in allst:
                n += 1
                if n % (61 if tier == "quick" else 7) == 0:
                    out.append(T("%s%d, %s%d, %s%d" % (k1, i1, k2, i2, k3, i3), "h_state.history", {"steps": [s1, s2, s3], "again": [0, 1]}, cost=4))
    # one call in the middle of another
    big = {"A": {"n": 12, "ranges": [[65, 90]]}, "B": {"n": 12, "ranges": [[48, 57]]}}
    mid = [("A enc", _st("enc", A, doc={"t": "0200", "2": {"n": 2}, "66": {"n": 1}})), ("B enc", _st("enc", B, doc={"t": "0200", "2": {"n": 1}, "66": {"n": 2}})), ("C enc", _st("enc", C, doc={"h": {"n": 2}, "t": "0200", "2": {"n": 3}})),
           ("A dec", _st("dec", A, on=[2, 66] if tier == "thorough" else [66], body=3 if tier == "thorough" else 1)), ("B dec", _st("dec", B, on=[2] if tier == "thorough" else [66], body=2 if tier == "thorough" else 1)),
           ("D dec", _st("dec", D, on=[2] if tier == "thorough" else [66], body=2)),
           ("A pp", _st("pp", A, doc={"2": big["A"], "66": {"n": 1, "ranges": [[65, 90]]}})), ("B pp pieces", _st("pp", B, doc={"66": {"n": 1}}, pieces=1))]
    size = 30
    for i, (n1, s1) in enumerate(mid):
        for j, (n2, s2) in enumerate(mid):
            if tier == "quick" and i != j and s1["op"] != s2["op"] and (i + j) % 2 == 0:
                continue
            for lo in range(0, 210, size):
                out.append(T("%s within %s, statements %d-%d" % (n2, n1, lo, lo + size - 1), "h_state.overlapped", {"steps": [s1, s2], "lo": lo, "hi": lo + size - 1}, ["overlap"] if lo == 0 else [], cost=2))
    # the document, or the buffer, is edited between calls
    for a, put, drop in [("2", {"66": "x"}, []), ("2", {"66": "x"}, ["2"]), ("66", {"2": "ab"}, ["66"]), ("66", {"66": "y"}, [])]:
        for op in ("enc", "pp", "print"):
            s = _st(op, A, doc={"t": "0200", a: {"n": 1}})
            e = dict(s, same_spec=0, same_arg=0, put=put, drop=drop)
            out.append(T("%s of %s, then with %s without %s" % (op, a, sorted(put), drop), "h_state.history", {"steps": [s, e]}))
            out.append(T("%s of %s, then with %s without %s, and back" % (op, a, sorted(put), drop), "h_state.history", {"steps": [s, e, dict(s, same_spec=0, same_arg=0, put={a: "z"}, drop=list(put))]}))
    for k in specs:
        for m in msgs[k]:
            for f in msgs[k]:
                s = _st("dec", specs[k], bytearray=True, **m)
                out.append(T("buffer of %s %s filled with %s" % (k, m["on"], f["on"]), "h_state.history", {"steps": [s, dict(s, same_spec=0, same_arg=0, fill=f)]}, cost=2))
    # the specification object is edited between calls
    for k, ch in [("A", {"2": {"max_len": 1}}), ("A", {"2": {"len_type": 2, "data_enc": "cp500"}}), ("A", {"66": {"max_len": 2}}), ("B", {"p": {"data_enc": "b"}, "1": {"data_enc": "b"}}), ("B", {"2": {"len_enc": "b"}}), ("C", {"h": {"max_len": 0}}), ("C", {"2": {"left_pad": "F"}}), ("C", {"t": {"data_enc": "ascii"}}), ("D", {"2": {"right_pad": "", "left_pad": "0"}}), ("D", {"2": {"len_count": "bytes"}}), ("A", {"h": {"max_len": 2}})]:
        for i, s in enumerate(steps_of(k)):
            s2 = dict(s, same_spec=0, change=ch)
            if k == "C" and "h" in ch and s["op"] == "dec":
                s2 = dict(s2, hdr=0, same_spec=0)
            out.append(T("%s%d, edit %s, again" % (k, i, ch), "h_state.history", {"steps": [s, s2]}, cost=2))
            if tier == "quick" and s["op"] == "dec" and ("h" in ch or "t" in ch):
                continue  # the old message read under the new header: thorough
            s3 = dict(s, same_spec=0, change=ch, same_arg=0)
            out.append(T("%s%d, edit %s, same argument" % (k, i, ch), "h_state.history", {"steps": [s, s3]}, cost=2))
    # the same call twice, encoding an encoded document
    for x in enc_multi(tier, "h_state.enc_twice", long=False)[::1 if tier == "thorough" else 2]:
        on = [k for k in x["cfg"]["doc"] if k.isdigit()]
        out.append(T(x["name"] + " twice", "h_state.enc_twice", dict(x["cfg"], drop=on[-2:])))
    for x in enc_fields(tier, "h_state.enc_twice", datas=["ascii", "b"], small=False)[::3]:
        out.append(T(x["name"] + " twice", "h_state.enc_twice", x["cfg"]))
    return out


def C18(tier):
    out = [T("guards", "h_state.guards", {"spec": {"fields": MULTI_FIELDS}})]
    out += dec_fields(tier, "h_state.dec_types", datas=["ascii", "cp500", "b"])[:: 1 if tier == "thorough" else 2]
    out += dec_fields(tier, "h_state.dec_types", datas=["utf-8"], long=False)[::3]
    out += dec_multi(tier, "h_state.dec_types")
    out += nib_dec(tier, "h_state.dec_types")[:: 1 if tier == "thorough" else 4]
    out += enc_multi(tier, "h_state.enc_types")
    out += enc_fields(tier, "h_state.enc_types", datas=["ascii", "b"], need=())[:: 1 if tier == "thorough" else 3]
    out += whole_messages(tier, "h_state.dec_types")[::2]
    # and subclasses of what is taken
    for i, x in enumerate(list(out)):
        if x["func"] in ("enc_types", "dec_types") and (tier == "thorough" or i % 3 == 0):
            out.append(dict(x, name=x["name"] + ", of a subclass", cfg=dict(x["cfg"], subs=True)))
    out += every_field(tier, "h_state.enc_types", "h_state.dec_types")
    for hn in ("none", "fix-b"):
        for dn, dx in [("empty", {}), ("no type", {"h": {"n": 4}, "2": {"n": 1}}), ("no header", {"t": "0200", "2": {"n": 1}}), ("fields only", {"66": {"n": 1}}), ("header only", {"h": {"n": 4}}), ("stale", {"t": "0200", "h": {"n": 4}, "p": "x", "1": "x", "65": "y"})]:
            out.append(T("document with %s, hdr=%s" % (dn, hn), "h_state.enc_types", {"spec": multi_spec(hn), "doc": dx}))
    return out


PPSPEC = {"h": dict(data_enc="ascii", max_len=6, desc="Message header"), "fields": {
    "2": dict(len_type=2, max_len=19, desc="Primary Account Number (PAN)"), "3": dict(max_len=6, desc=""),
    "11": dict(max_len=6, desc="x"), "100": dict(max_len=6, desc="A description that is longer than thirty characters"), "129": dict(max_len=9)}}


def C19(tier):
    out = []
    th = tier == "thorough"
    w = dict(dw=[0, 4], lw=[0, 20])
    for k in ("2", "100"):
        for n in range(0, 4 if not th else 6):
            out.append(T("text %s %d chars, narrow" % (k, n), "h_pp.content", {"spec": PPSPEC, "doc": {k: {"n": n, "ranges": PRINT}}, **w}, cost=4 * n + 1, max_seconds=200))
        for n in range(0, 3):
            out.append(T("text %s any %d chars" % (k, n), "h_pp.content", {"spec": PPSPEC, "doc": {k: {"n": n, "ranges": ANY_LITE}}, "dw": 2, "lw": [8, 18] if n == 2 else [0, 20]}, cost=10 * n + 1, max_seconds=200))
    for d, l in [(0, 0), (1, 0), (2, 0), (3, 0), (1, 1), (2, 2), (0, 3)] + ([(4, 1), (3, 2)] if th else []):
        out.append(T("pieces %d bytes, length %d" % (d, l), "h_pp.content", {"spec": PPSPEC, "doc": {"11": {"data": d, "len": l, "lranges": DIGIT if l > 1 else [[0, 255]]}}, "dw": [0, 2], "lw": [4, 24]}, cost=6 * d + 1, max_seconds=200))
        if (d, l) in ((1, 1), (0, 3)):
            out.append(T("pieces %d bytes, length %d, an OrderedDict" % (d, l), "h_pp.content", {"spec": PPSPEC, "doc": {"11": {"data": d, "len": l, "lranges": DIGIT}}, "dw": [0, 2], "lw": [4, 24], "subs": True}, cost=4))
    for k, n in (("p", 16), ("1", 16), ("1", 32), ("2", 19), ("h", 6), ("t", 4), ("100", 6), ("129", 9)):
        for lw in (80, 24):
            for rg in (HEX, [[48, 48], [57, 57], [32, 32], [70, 70]]):
                out.append(T("any %d of %d characters in %s, line width %d" % (n, len(rg), k, lw), "h_pp.content", {"spec": PPSPEC, "doc": {k: {"n": n, "ranges": rg}}, "dw": 2, "lw": lw}, cost=3))
    for d in (0, 8, 16):
        for lw in (120, 60):
            out.append(T("%d bytes of pieces, line width %d" % (d, lw), "h_pp.content", {"spec": PPSPEC, "doc": {"11": {"data": d, "len": 1, "lranges": DIGIT, "ranges": [[48, 57], [65, 70]]}}, "dw": 2, "lw": lw}, cost=3))
    out.append(T("text long", "h_pp.content", {"spec": PPSPEC, "doc": {"2": {"n": 8, "ranges": [[65, 90]]}}, "dw": 3, "lw": [9, 22]}, cost=8))
    out.append(T("description widths", "h_pp.content", {"spec": PPSPEC, "doc": {"2": "1", "100": "2"}, "dw": [0, 60], "lw": 80}, cost=4))
    out.append(T("line widths", "h_pp.content", {"spec": PPSPEC, "doc": {"2": "1234567890", "100": "ab"}, "dw": 3, "lw": [0, 40]}, cost=4))
    out.append(T("negative widths", "h_pp.content", {"spec": PPSPEC, "doc": {"2": "1234", "100": "ab"}, "dw": [-3, 1], "lw": [-5, 14]}, cost=4))
    for ks in (["p", "129", "t", "2"], ["100", "11", "2", "3"], ["3", "h", "t", "1"]):
        out.append(T("every order and subset of %s" % ks, "h_pp.order", {"spec": PPSPEC if "1" not in ks else PPSPEC, "keys": ks}, cost=5))
    out.append(T("header printed only when specified", "h_pp.order", {"spec": {"fields": PPSPEC["fields"]}, "keys": ["h", "t", "2"]}))
    for r in ([[2, 20], [100, 104]], [[98, 102], [2, 12]], [[2, 9], [10, 13]], [[120, 129], [60, 66]]):
        out.append(T("fields by number %s" % r, "h_pp.sym_order", {"spec": {"all": dict(max_len=1)}, "ranges": r}, cost=6))
    out.append(T("streams, t", "h_pp.streams", {"spec": PPSPEC, "doc": {"t": {"n": 3, "ranges": PRINT}}}, cost=5))
    out.append(T("streams, t 2", "h_pp.streams", {"spec": PPSPEC, "doc": {"t": {"n": 1, "ranges": PRINT}, "2": {"n": 2, "ranges": PRINT}}}, cost=5))
    out.append(T("streams, t 11", "h_pp.streams", {"spec": PPSPEC, "doc": {"t": "0200", "11": {"data": 1, "len": 1}}}, cost=5))
    if th:
        out.append(T("every order of five", "h_pp.order", {"spec": PPSPEC, "keys": ["p", "100", "h", "t", "11"]}, cost=20))
        out.append(T("all fields", "h_pp.sym_order", {"spec": {"all": dict(max_len=1)}, "ranges": [[2, 192]]}, cost=20))
        out.append(T("any pair", "h_pp.sym_order", {"spec": {"all": dict(max_len=1)}, "ranges": [[2, 30], [31, 60]]}, cost=60))
    return out


def C20(tier):
    out = []
    th = tier == "thorough"
    for k in ("2", "100"):
        for n in range(0, 4 if not th else 6):
            out.append(T("text %s %d chars" % (k, n), "h_pp.layout", {"spec": PPSPEC, "doc": {k: {"n": n, "ranges": [[65, 90], [48, 57]]}}, "dw": [0, 4], "lw": [0, 20], "narrow": 3}, cost=4 * n + 1, max_seconds=200))
    for n in (8, 13, 20):
        out.append(T("text 2 of %d chars" % n, "h_pp.layout", {"spec": PPSPEC, "doc": {"2": {"n": n, "ranges": [[65, 90]]}}, "dw": 3, "lw": [0, 34], "narrow": 3}, cost=12, max_seconds=200))
        out.append(T("text 2 of %d chars, no description" % n, "h_pp.layout", {"spec": PPSPEC, "doc": {"2": {"n": n, "ranges": [[65, 90]]}}, "dw": 0, "lw": [0, 30], "narrow": 3}, cost=12, max_seconds=200))
    out.append(T("escapes", "h_pp.layout", {"spec": PPSPEC, "doc": {"2": {"n": 2, "ranges": ANY_LITE}}, "dw": 2, "lw": [8, 18]}, cost=30, max_seconds=200))
    for d, l in [(1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (1, 2), (0, 2)] + ([(4, 0), (3, 2)] if th else []):
        out.append(T("pieces %d bytes, length %d" % (d, l), "h_pp.layout", {"spec": PPSPEC, "doc": {"11": {"data": d, "len": l, "lranges": DIGIT if l > 1 else [[0, 255]]}}, "dw": [0, 2], "lw": [4, 24]}, cost=6 * d + 1, max_seconds=200))
    for n in (6, 12):
        out.append(T("pieces %d plain bytes" % n, "h_pp.layout", {"spec": PPSPEC, "doc": {"11": {"data": n, "len": 2, "ranges": [[65, 90]]}}, "dw": 1, "lw": [10, 32], "narrow": 4 if False else 0}, cost=12, max_seconds=200))
    out.append(T("description widths", "h_pp.layout", {"spec": PPSPEC, "doc": {"t": "0200", "2": "123", "100": "ab"}, "dw": [0, 60], "lw": 80}, cost=4))
    out.append(T("description and line widths", "h_pp.layout", {"spec": PPSPEC, "doc": {"2": "123456789012", "100": "abc"}, "dw": [0, 40], "lw": [20, 60], "narrow": 3}, cost=20, max_seconds=200))
    out.append(T("negative widths", "h_pp.layout", {"spec": PPSPEC, "doc": {"2": "1234", "100": "ab"}, "dw": [-3, 1], "lw": [-5, 14]}, cost=4))
    for n in (0, 1, 3):
        out.append(T("text 2 of %d chars, a subclass of str" % (3 * n), "h_pp.layout", {"spec": PPSPEC, "doc": {"2": {"n": 3 * n, "ranges": [[65, 90]]}}, "dw": 1, "lw": [6, 18], "narrow": 3, "subs": True}, cost=6))
        out.append(T("pieces %d bytes, a subclass of bytes" % n, "h_pp.layout", {"spec": PPSPEC, "doc": {"11": {"data": n, "len": 1, "ranges": [[65, 90]] if n > 2 else [[0, 255]]}}, "dw": 1, "lw": [8, 18], "subs": True}, cost=6))
        out.append(T("description of %d characters" % n, "h_pp.layout", {"spec": PPSPEC, "doc": {"2": "12"}, "desc": {"2": n}, "dw": [0, 5], "lw": 80}, cost=6))
    return out


def C21(tier):
    out = []
    nos = list(range(2, 65)) + list(range(66, 129))
    k = 8 if tier == "quick" else 4
    for name in ("default", "default_ascii"):
        for i in range(0, len(nos), k):
            out.append(T("%s fields %s..%s" % (name, nos[i], nos[i:i + k][-1]), "h_specs.field", {"spec": name, "fields": nos[i:i + k]}, ["field %d ok" % n for n in nos[i:i + k]], cost=10, max_seconds=300))
        for fs in ([2, 3, 7], [4, 35, 11], [52, 55, 64], [70, 102, 128], [2, 63, 125]):
            out.append(T("%s together %s" % (name, fs), "h_specs.whole", {"spec": name, "fields": fs}, cost=6))
        out.append(T("%s printed" % name, "h_specs.printed", {"spec": name}, cost=5))
        for a, b in ((0, 1), (2, 64), (65, 128)):
            out.append(T("%s with an entry of %d-%d edited" % (name, a, b), "h_specs.edited", {"spec": name, "lo": a, "hi": b}, cost=5))
    return out


def C22(tier):
    out = []
    H = dict(HEADERS, **{"off": dict(data_enc="ascii", len_enc="b", len_type=1, max_len=0), "negative": dict(data_enc="ascii", max_len=-1), "negative-var": dict(data_enc="b", len_enc="ascii", len_type=1, max_len=-5)})
    for hn, hk in H.items():
        for t in ("ascii", "b", "cp500", "utf-8"):
            sp = {"t": t, "fields": {"3": dict(max_len=1), "66": dict(max_len=1)}}
            if hk:
                sp["h"] = hk
            for n in range(0, 8) if hk is None else range(0, 10):
                if n - (hk or {}).get("max_len", 0) > (6 if t == "b" else 8):
                    continue
                out.append(T("dec any %d bytes hdr=%s t=%s" % (n, hn, t), "h_head.dec", {"spec": sp, "whole": n}))
            for tn in range(0, 6):
                d = {"t": {"n": tn, "ranges": ANY}, "66": "1"}
                if hk:
                    d["h"] = {"n": short_value(hk)}
                out.append(T("enc type of %d chars hdr=%s t=%s" % (tn, hn, t), "h_head.enc", {"spec": sp, "doc": d}))
            for m in range(0, 5):
                out.append(T("enc header of %d chars hdr=%s t=%s" % (m, hn, t), "h_head.enc", {"spec": sp, "doc": {"h": {"n": m, "ranges": ANY}, "t": "0200", "3": "1"}}))
            out.append(T("no header hdr=%s t=%s" % (hn, t), "h_head.enc", {"spec": sp, "doc": {"t": {"n": 4}, "3": "1"}}))
            out.append(T("no type hdr=%s t=%s" % (hn, t), "h_head.enc", {"spec": sp, "doc": {"h": {"n": 4}, "3": "1"}}))
    # a count of half-bytes means nothing for the message type and the bitmaps
    nib = {k: {"len_count": "nibbles", "left_pad": "0"} for k in ("t", "p", "1")}
    for t in ("ascii", "b", "cp500"):
        for p in ("b", "ascii"):
            sp = {"t": t, "p": p, "fields": {"3": dict(max_len=1), "66": dict(max_len=1), "130": dict(max_len=1)}, "extra": nib}
            out.append(T("dec type and bitmaps with a count t=%s p=%s" % (t, p), "h_head.dec", {"spec": sp, "whole": 8}))
            for tn in range(2, 6):
                out.append(T("enc type of %d chars and bitmaps with a count t=%s p=%s" % (tn, t, p), "h_head.enc", {"spec": sp, "doc": {"t": {"n": tn, "ranges": ANY}, "66": "1", "130": "2"}}))
    for le, lt, ml in [("ascii", 0, 5), ("ascii", 1, 5), ("ascii", 2, 60), ("b", 1, 255), ("bcd", 2, 600), ("cp500", 3, 300)]:
        for de in ("ascii", "cp500", "latin-1"):
            out.append(T("header " + nm(de, le, lt, ml), "h_head.header_only", {"spec": {"h": dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml)}, "h": {"n": ["blob", 0, ml + 3], **({"ranges": ASCII} if de == "ascii" else {})}}, ["accepted"], cost=2))
    return out


ALL = ["C%02d" % i for i in range(1, 23)]


def tasks(prop, tier):
    out = globals()[prop](tier)
    seen = set()
    for t in out:
        k = t["name"]
        i = 2
        while t["name"] in seen:
            t["name"] = "%s #%d" % (k, i)
            i += 1
        seen.add(t["name"])
    return out


def _titles():
    import os

    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    try:
        with open(p) as f:
            for ln in f:
                if ln.strip():
                    d = json.loads(ln)
                    TITLES[d["id"]] = d["title"]
    except OSError:
        pass


_titles()
