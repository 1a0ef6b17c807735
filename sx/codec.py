"""Models of Python text codecs, derived from the real codecs at run time."""
import codecs
import functools

from .engine import eng
from .terms import *


@functools.lru_cache(None)
def codec_info(enc):
    """('table', dec, enc) for single-byte codecs, ('utf8',) or None.

    Raises LookupError exactly when Python does.
    """
    name = codecs.lookup(enc).name
    "x".encode(enc)  # LookupError for non-text codecs
    if name == "utf-8":
        return ("utf8",)
    if name in ("idna", "punycode", "undefined", "unicode_escape", "raw_unicode_escape", "utf-7"):
        return None
    table = {}
    for b in range(256):
        try:
            c = bytes([b]).decode(enc)
        except UnicodeError:
            continue
        if len(c) != 1:
            return None
        table[b] = ord(c)
    inv = {}
    for cp in set(table.values()):
        try:
            e = chr(cp).encode(enc)
        except UnicodeError:
            continue
        if len(e) != 1:
            return None
        inv[cp] = e[0]
    # rule out stateful/multi-byte codecs: all byte pairs decode pointwise
    some = list(table)
    if len(some) < 100:
        return None
    for a in range(256):
        for b in range(256):
            try:
                if bytes([a, b]).decode(enc) != chr(table[a]) + chr(table[b]):
                    return None
            except UnicodeError:
                if a in table and b in table:
                    return None
            except KeyError:
                return None
    # nothing else can be written
    for cp in list(range(0x10000)) + list(range(0x10000, 0x110000, 0x101)):
        if cp not in inv:
            try:
                chr(cp).encode(enc)
                return None
            except UnicodeError:
                pass
    bij = len(inv) == len(table) and all(table[inv[c]] == c for c in inv)
    if not bij:
        return None
    return ("table", _runs(table), _runs(inv))


def _runs(m):
    runs = []
    for k in sorted(m):
        if runs and runs[-1][1] == k - 1 and runs[-1][2] == m[k] - k:
            runs[-1][1] = k
        else:
            runs.append([k, k, m[k] - k])
    return [tuple(r) for r in runs]


def run_valid(t, runs):
    # merge adjacent key ranges
    merged = []
    for a, b, _ in runs:
        if merged and merged[-1][1] == a - 1:
            merged[-1][1] = b
        else:
            merged.append([a, b])
    return tin_ranges(t, merged)


_TMPL = {}


def run_map(t, runs):
    if isinstance(t, int):
        for a, b, d in runs:
            if a <= t <= b:
                return t + d
        raise KeyError(t)
    lo, hi = eng().bounds(t)
    rs = [r for r in runs if not (hi is not None and r[0] > hi) and not (lo is not None and r[1] < lo)]
    if not rs:
        return 0
    # merge neighbours with equal delta (gaps are invalid inputs anyway)
    m = []
    for r in rs:
        if m and m[-1][2] == r[2]:
            m[-1] = (m[-1][0], r[1], r[2])
        else:
            m.append(r)
    if len(m) < 3:
        return tree_map(t, [(a, b, (lambda x, d=d: tadd(x, d))) for a, b, d in m])
    # the same term for every element: built once, then substituted
    e = eng()
    key = (id(runs), lo, hi)
    h = _TMPL.get(key)
    if h is None:
        v = z3.Int("tmpl!%d" % len(_TMPL))
        e.set_bounds(v, lo, hi)
        r = iv(tree_map(v, [(a, b, (lambda x, d=d: tadd(x, d))) for a, b, d in m]))
        h = _TMPL[key] = (v, r, e.bounds(r), runs)
    r = z3.substitute(h[1], (h[0], t))
    e.set_bounds(r, *h[2])
    return r


def dec_map(enc, runs, t):
    """Byte term -> character term, remembering the inverse."""
    if isinstance(t, int):
        return run_map(t, runs)
    e = eng()
    c = e.cache("dec")
    k = (enc, t.get_id())
    if k in c:
        return c[k][1]
    src = e.cache("enc_inv").get(k)
    r = src[1] if src is not None else run_map(t, runs)
    c[k] = (t, r)
    if not isinstance(r, int):
        e.cache("dec_inv")[(enc, r.get_id())] = (r, t)
    return r


def enc_map(enc, runs, t):
    """Character term -> byte term, remembering the inverse."""
    if isinstance(t, int):
        return run_map(t, runs)
    e = eng()
    c = e.cache("enc")
    k = (enc, t.get_id())
    if k in c:
        return c[k][1]
    src = e.cache("dec_inv").get(k)
    r = src[1] if src is not None else run_map(t, runs)
    c[k] = (t, r)
    if not isinstance(r, int):
        e.cache("enc_inv")[(enc, r.get_id())] = (r, t)
    return r


# --------------------------------------------------------------- characters
@functools.lru_cache(None)
def char_ranges(pred):
    """Inclusive code point ranges on which str.<pred> holds."""
    f = getattr(str, pred)
    out = []
    for c in range(0x110000):
        if f(chr(c)):
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
    return out


@functools.lru_cache(None)
def ascii_ranges(pred):
    f = getattr(str, pred)
    out = []
    for c in range(128):
        if f(chr(c)):
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
    return out


def ranges_for(t, pred):
    if not isinstance(t, int):
        hi = eng().bounds(t)[1]
        if hi is not None and hi < 128:
            return ascii_ranges(pred)
    elif t < 128:
        return ascii_ranges(pred)
    return char_ranges(pred)


@functools.lru_cache(None)
def decimal_runs():
    """runs (lo, hi, base) of decimal digits: value = cp - base"""
    out = []
    for a, b in char_ranges("isdecimal"):
        c = a
        while c <= b:
            v = int(chr(c))
            out.append((c, c + 9 - v, c - v))
            c += 10 - v
    return out


@functools.lru_cache(None)
def case_runs(up):
    """runs (lo, hi, delta) of the characters whose case mapping is one
    character and does not depend on the context"""
    m = {}
    for c in range(0x110000):
        d = chr(c).upper() if up else chr(c).lower()
        if len(d) == 1 and not (c == 0x3A3 and not up):
            m[c] = ord(d)
    return _runs(m)
