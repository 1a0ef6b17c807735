"""Models of the builtin functions and methods the code under test may call.

`__sx_call` receives every call made by instrumented code.  A call without
symbolic arguments goes straight to Python; a modelled builtin gets its
symbolic model; an unmodelled native function gets concrete arguments, with a
fork over all their feasible values (recorded as a fallback).
"""
import binascii
import builtins
import codecs
import collections
import copy
import functools
import io
import itertools
import math
import operator
import re
import string
import struct
import sys
import types
import unicodedata
import warnings

import z3

from .engine import eng, PathCut, SxControl
from .terms import *
from . import codec as C
from .values import *
from .values import _imp
from . import values as VV
from .coll import SymDict, SymSet, SymKeys, SymItems, SymVals, symkey, same_key, native_dict_get
from .iomodel import SymStringIO, SymBytesIO
from . import rx as RX
from . import native

_BUILTIN = (types.BuiltinFunctionType, types.MethodWrapperType)
_DESCR = (types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType)

CWS = [(9, 13), (32, 32)]


# ------------------------------------------------------------------- codecs
def _ude(enc, why="invalid data"):
    return UnicodeDecodeError(str(enc), b"\x00", 0, 1, why)


def _uee(enc, why="invalid data"):
    return UnicodeEncodeError(str(enc), "\x00", 0, 1, why)


def bytes_decode(b, encoding="utf-8", errors="strict"):
    encoding, errors = concrete(encoding), concrete(errors)
    if not isinstance(encoding, str):
        raise TypeError("decode() argument 'encoding' must be str, not %s" % type(encoding).__name__)
    parts = parts_of(b)
    u = pure(parts)
    if u is not None and not u:
        return b"".decode(encoding, errors)
    try:
        info = C.codec_info(encoding)
    except LookupError:
        if not decide(tlt(0, seq_len(parts))):
            return b"".decode(encoding, errors)
        raise
    if info is None:
        eng().note_fallback("decode(%s)" % encoding)
        return bytes(concrete(b)).decode(encoding, errors)
    if info[0] == "table":
        runs = info[1]
        valid = lambda t: C.run_valid(t, runs)
        if errors != "strict":
            if forall(parts, valid):
                return mk_str(_map_parts(parts, lambda t: C.dec_map(encoding, runs, t), ("dec", encoding)))
            one = {"replace": lambda t: 0xFFFD, "surrogateescape": lambda t: tadd(t, 0xDC00)}.get(errors)
            if one:
                return mk_str(_map_parts(parts, lambda t: tite(valid(t), C.dec_map(encoding, runs, t), one(t)), ("dec" + errors, encoding)))
            out = []
            for t in SymBytes(parts).units():
                if decide(valid(t)):
                    out.append(C.dec_map(encoding, runs, t))
                elif errors == "ignore":
                    pass
                elif errors == "backslashreplace":
                    out += [92, 120] + parts_of(fmt_int_hex(t, 2, False))[0]
                elif errors in ("surrogatepass", "xmlcharrefreplace", "namereplace"):
                    # handlers for other directions or codecs: they give up
                    bytes([255]).decode("ascii", errors)
                else:
                    eng().note_fallback("decode errors=%s" % errors)
                    out += [ord(c) for c in bytes([eng().concretize(t)]).decode(encoding, errors)]
            return mk_str([out])
        if not forall(parts, valid):
            raise _ude(encoding)
        return mk_str(_map_parts(parts, lambda t: C.dec_map(encoding, runs, t), ("dec", encoding)))
    return _utf8_decode(parts, errors)


def _map_parts(parts, f, key):
    out = []
    for p in parts:
        if isinstance(p, Block):
            # decode(encode(x)) == x on blocks
            if isinstance(p, MapBlock) and p.key[1] in (("enc",) + key[1:], ("dec",) + key[1:]) and p.key[1][0] != key[0]:
                out.append(p.src)
            else:
                out.append(MapBlock(p, f, key))
        else:
            out.append([f(t) for t in p])
    return out


# handlers that treat every byte of an invalid sequence by itself
PER_BYTE = {
    "ignore": lambda t: [],
    "surrogateescape": lambda t: [tadd(t, 0xDC00)],
    "backslashreplace": lambda t: [92, 120] + parts_of(fmt_int_hex(t, 2, False))[0],
}


def _utf8_decode(parts, errors):
    e = eng()
    if forall(parts, lambda t: tlt(t, 128)):
        return mk_str(parts)
    u = SymBytes(parts).units()
    out = []
    i = 0
    bad = None
    cache = e.cache("utf8dec")

    def cont(t):
        return tand(tle(0x80, t), tle(t, 0xBF))

    while i < len(u):
        t = u[i]
        if decide(tlt(t, 128)):
            out.append(t)
            i += 1
            continue
        n = 0
        ok = None
        for need, lo, hi in ((2, 0xC2, 0xDF), (3, 0xE0, 0xEF), (4, 0xF0, 0xF4)):
            if decide(tand(tle(lo, t), tle(t, hi))):
                n = need
                break
        if not n or i + n > len(u):
            if errors in PER_BYTE:
                out += PER_BYTE[errors](t)
                i += 1
                continue
            bad = True
            break
        rest = u[i + 1:i + n]
        c = tand(*[cont(x) for x in rest])
        if n == 3:
            c = tand(c, _z_imp(teq(t, 0xE0), tle(0xA0, rest[0])), _z_imp(teq(t, 0xED), tle(rest[0], 0x9F)))
        elif n == 4:
            c = tand(c, _z_imp(teq(t, 0xF0), tle(0x90, rest[0])), _z_imp(teq(t, 0xF4), tle(rest[0], 0x8F)))
        if not decide(c):
            if errors in PER_BYTE:
                out += PER_BYTE[errors](t)
                i += 1
                continue
            bad = True
            break
        seqb = u[i:i + n]
        k = tuple(x if isinstance(x, int) else ("t", x.get_id()) for x in seqb)
        h = cache.get(k)
        if h is None:
            base = {2: 0xC0, 3: 0xE0, 4: 0xF0}[n]
            v = tsub(t, base)
            for x in rest:
                v = tadd(tmul(v, 64), tsub(x, 0x80))
            h = (seqb, v)
            cache[k] = h
            if not isinstance(v, int):
                e.cache("utf8enc")[v.get_id()] = (v, seqb)
                lo, hi = {2: (0x80, 0x7FF), 3: (0x800, 0xFFFF), 4: (0x10000, 0x10FFFF)}[n]
                e.set_bounds(v, lo, hi)
        out.append(h[1])
        i += n
    if bad:
        if errors == "strict":
            raise _ude("utf-8")
        e.note_fallback("utf-8 errors=%s" % errors)
        return bytes(concrete(SymBytes(parts))).decode("utf-8", errors)
    return mk_str([out])


def _z_imp(a, b):
    return tor(tnot(a), b)


def str_encode(s, encoding="utf-8", errors="strict"):
    encoding, errors = concrete(encoding), concrete(errors)
    if not isinstance(encoding, str):
        raise TypeError("encode() argument 'encoding' must be str, not %s" % type(encoding).__name__)
    parts = parts_of(s)
    u = pure(parts)
    if u is not None and not u:
        return "".encode(encoding, errors)
    try:
        info = C.codec_info(encoding)
    except LookupError:
        if not decide(tlt(0, seq_len(parts))):
            return "".encode(encoding, errors)
        raise
    if info is None:
        eng().note_fallback("encode(%s)" % encoding)
        return concrete(s).encode(encoding, errors)
    if info[0] == "table":
        runs = info[2]
        valid = lambda t: C.run_valid(t, runs)
        if not forall(parts, valid):
            if errors == "strict":
                raise _uee(encoding)
            out = []
            for t in SymStr(parts).units():
                if decide(valid(t)):
                    out.append(C.enc_map(encoding, runs, t))
                else:
                    out += _unencodable(t, encoding, errors)
            return mk_bytes([out])
        return mk_bytes(_map_parts(parts, lambda t: C.enc_map(encoding, runs, t), ("enc", encoding)))
    return _utf8_encode(parts, errors)


def _unencodable(t, encoding, errors):
    """bytes the error handler gives for a character the codec has not"""
    if errors == "strict":
        raise _uee(encoding)
    if isinstance(t, int):
        return list(chr(t).encode(encoding, errors))
    enc = lambda txt: list(txt.encode(encoding))
    if errors == "ignore":
        return []
    if errors == "replace":
        return enc("?")
    if errors == "surrogateescape":
        if decide(tand(tle(0xDC80, t), tle(t, 0xDCFF))):
            return [tsub(t, 0xDC00)]
        raise _uee(encoding)
    if errors == "surrogatepass":
        if encoding != "utf-8":
            # the handler knows the unicode encodings only
            raise _uee(encoding)
        ds = digits(t, 64, 3, "u8")
        return [tadd(ds[0], 0xE0), tadd(ds[1], 0x80), tadd(ds[2], 0x80)]
    if errors in ("xmlcharrefreplace", "backslashreplace"):
        out = []
        if errors == "xmlcharrefreplace":
            txt = mk_str([[38, 35] + parts_of(fmt_int_dec(t, 0))[0] + [59]])
        elif decide(tlt(t, 0x100)):
            txt = mk_str([[92, 120] + parts_of(fmt_int_hex(t, 2, False))[0]])
        elif decide(tlt(t, 0x10000)):
            txt = mk_str([[92, 117] + parts_of(fmt_int_hex(t, 4, False))[0]])
        else:
            txt = mk_str([[92, 85] + parts_of(fmt_int_hex(t, 8, False))[0]])
        return parts_of(str_encode(txt, encoding))[0]
    eng().note_fallback("encode errors=%s" % errors)
    return list(chr(eng().concretize(t)).encode(encoding, errors))


def _utf8_encode(parts, errors):
    e = eng()
    if forall(parts, lambda t: tlt(t, 128)):
        return mk_bytes(parts)
    out = []
    for t in SymStr(parts).units():
        h = None if isinstance(t, int) else e.cache("utf8enc").get(t.get_id())
        if h is not None:
            out += h[1]
            continue
        if decide(tlt(t, 0x80)):
            out.append(t)
            continue
        if decide(tand(tle(0xD800, t), tle(t, 0xDFFF))):
            out += _unencodable(t, "utf-8", errors)
            continue
        if isinstance(t, int):
            out += list(chr(t).encode("utf-8"))
            continue
        if decide(tlt(t, 0x800)):
            n, base = 2, 0xC0
        elif decide(tlt(t, 0x10000)):
            n, base = 3, 0xE0
        else:
            n, base = 4, 0xF0
        ds = digits(t, 64, n, "u8")
        seqb = [tadd(ds[0], base)] + [tadd(d, 0x80) for d in ds[1:]]
        e.cache("utf8enc")[t.get_id()] = (t, seqb)
        k = tuple(x if isinstance(x, int) else ("t", x.get_id()) for x in seqb)
        e.cache("utf8dec")[k] = (seqb, t)
        out += seqb
    return mk_bytes([out])


# ----------------------------------------------------------------- int, hex
def m_int(x=0, base=None, **kw):
    if kw:
        base = kw.get("base", base)
    if base is not None:
        base = concrete(base)
        if isinstance(base, bool) or not isinstance(base, int):
            base = operator.index(base)
        if not (isinstance(x, str) or is_byteslike(x)):
            raise TypeError("int() can't convert non-string with explicit base")
        if base != 0 and not 2 <= base <= 36:
            raise ValueError("int() base must be >= 2 and <= 36, or 0")
    else:
        base = 10
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return mk_int(term_of(x))
        if isinstance(x, SymRatio):
            return x.__trunc__()
    if isinstance(x, str) or is_byteslike(x):
        if isinstance(x, memoryview):
            x = m_bytes(x)
        if not has_sym(x):
            return int(concrete(x), base)
        return _int_parse(x, base)
    return int(concrete(x)) if base == 10 else int(concrete(x), base)


def _bad_int(base):
    return ValueError("invalid literal for int() with base %d" % base)


def _int_parse(x, base):
    e = eng()
    txt = isinstance(x, str)
    if base not in (10, 16, 2, 8):
        e.note_fallback("int(base=%d)" % base)
        return int(concrete(x), base)
    u = list(x.units())
    n = len(u)
    if n == 0:
        raise _bad_int(base)
    if n > 4300 and base == 10:
        raise ValueError("Exceeds the limit (4300 digits) for integer string conversion")
    if base == 10:
        asc = [(48, 57)]
        drange = C.char_ranges("isdecimal") if txt else asc
        a_val = lambda t: tsub(t, 48)
    elif base == 16:
        # after NFKD-free transform: Unicode decimals count as 0-9
        asc = HEXR
        drange = sorted(C.char_ranges("isdecimal") + [[65, 70], [97, 102]]) if txt else HEXR
        a_val = hexval
    else:
        asc = [(48, 47 + base)]
        drange = None
        a_val = lambda t: tsub(t, 48)
    # fast path: everything is a plain ASCII digit
    if decide(tand(*[tin_ranges(t, asc) for t in u])):
        return mk_int(undigits([a_val(t) for t in u], base, proper=True))
    if drange is None:
        e.note_fallback("int(base=%d) unusual text" % base)
        return int(concrete(x), base)
    ws = CWS + [r for r in C.char_ranges("isspace") if r[0] >= 0x80] if txt else CWS
    ws = [(a, b) for a, b in ws]

    def dval(t):
        if decide(tin_ranges(t, asc)):
            return a_val(t)
        return tree_map(t, [(a, b, (lambda y, d=base_: tsub(y, d))) for a, b, base_ in C.decimal_runs()])

    i, j = 0, n
    while i < j and decide(tin_ranges(u[i], ws)):
        i += 1
    while j > i and decide(tin_ranges(u[j - 1], ws)):
        j -= 1
    if i == j:
        raise _bad_int(base)
    neg = False
    if decide(teq(u[i], 43)):
        i += 1
    elif decide(teq(u[i], 45)):
        neg = True
        i += 1
    if base == 16 and i + 1 < j and decide(teq(u[i], 48)) and decide(tor(teq(u[i + 1], 120), teq(u[i + 1], 88))):
        i += 2
        if i < j and decide(teq(u[i], 95)):
            i += 1
    if i == j:
        raise _bad_int(base)
    ds = []
    prev_us = True  # leading underscore is invalid
    while i < j:
        t = u[i]
        if decide(tin_ranges(t, drange)):
            ds.append(dval(t))
            prev_us = False
        elif not prev_us and decide(teq(t, 95)):
            prev_us = True
        else:
            raise _bad_int(base)
        i += 1
    if prev_us:
        raise _bad_int(base)
    v = undigits(ds, base)
    return mk_int(tsub(0, v) if neg else v)


def m_from_bytes(b, byteorder="big", *, signed=False):
    byteorder, signed = concrete(byteorder), concrete(signed)
    if is_byteslike(b):
        u = list(b.units()) if isinstance(b, SymSeq) else list(bytes(b))
    else:
        u = [term_of(x) for x in b]
    if byteorder == "little":
        u.reverse()
    elif byteorder != "big":
        raise ValueError("byteorder must be either 'little' or 'big'")
    v = undigits(u, 256)
    if signed and u:
        v = tsub(v, tite(tle(128, u[0]), 1 << (8 * len(u)), 0))
    return mk_int(v)


def m_fromhex(cls, s):
    if not isinstance(s, str):
        raise TypeError("fromhex() argument must be str, not %s" % s.__class__.__name__)
    if not has_sym(s):
        return _as(cls, bytes.fromhex(concrete(s)))
    err = ValueError("non-hexadecimal number found in fromhex() arg")
    parts = parts_of(s)
    u = pure(parts)
    if u is None:
        if forall(parts, is_hex):
            return _as(cls, _unhex(parts, err))
        u = s.units()
    elif len(u) % 2 == 0 and decide(tand(*[is_hex(t) for t in u])):
        return _as(cls, mk_bytes([[undigits([hexval(a), hexval(b)], 16) for a, b in zip(u[::2], u[1::2])]]))
    out = []
    i, n = 0, len(u)
    while i < n:
        if decide(tin_ranges(u[i], CWS)):
            i += 1
            continue
        if i + 1 >= n or not decide(is_hex(u[i])) or not decide(is_hex(u[i + 1])):
            raise err
        out.append(undigits([hexval(u[i]), hexval(u[i + 1])], 16))
        i += 2
    return _as(cls, mk_bytes([out]))


def _as(cls, b):
    return m_bytearray(b) if cls is bytearray else b


def _unhex(parts, odd_err):
    """all characters are hex digits"""
    n = seq_len(parts)
    if not decide(teq(tmod(n, 2), 0)):
        raise odd_err
    u = pure(parts)
    if u is not None:
        return mk_bytes([[undigits([hexval(a), hexval(b)], 16) for a, b in zip(u[::2], u[1::2])]])
    if len(parts) == 1:
        p = parts[0]
        if isinstance(p, MapBlock) and p.key[1] == "up":
            p = p.src
        if isinstance(p, HexBlock):
            return mk_bytes([p.src])
        return mk_bytes([UnhexBlock(parts[0], tdiv(n, 2))])
    # static prefix of even length, e.g. pad + block
    cat = CatBlock(parts, n)
    return mk_bytes([UnhexBlock(cat, tdiv(n, 2))])


def m_a2b_hex(s):
    if isinstance(s, str):
        if not has_sym(s):
            return binascii.a2b_hex(concrete(s))
        if not forall(parts_of(s), lambda t: tlt(t, 128)):
            raise ValueError("string argument should contain only ASCII characters")
    elif not is_byteslike(s):
        raise TypeError("argument should be bytes, buffer or ASCII string, not %r" % s.__class__.__name__)
    parts = parts_of(s)
    if not decide(teq(tmod(seq_len(parts), 2), 0)):
        raise binascii.Error("Odd-length string")
    if not forall(parts, is_hex):
        raise binascii.Error("Non-hexadecimal digit found")
    return _unhex(parts, binascii.Error("Odd-length string"))


def m_hexlify(b, *sep):
    if sep:
        eng().note_fallback("hexlify(sep)")
        return binascii.hexlify(concrete(b), *concrete(sep))
    if isinstance(b, str) or not is_byteslike(b):
        raise TypeError("a bytes-like object is required, not '%s'" % b.__class__.__name__)
    return str_encode(m_hex(b), "ascii")


def m_hex(b, *sep):
    if isinstance(b, SymBytes):
        return b.hex(*sep)
    return b.hex(*concrete(sep))


# ------------------------------------------------------------- constructors
def m_bytes(*a, **k):
    if not a and not k:
        return b""
    x = a[0] if a else k.pop("source")
    if isinstance(x, str):
        enc = a[1] if len(a) > 1 else k.get("encoding")
        err = a[2] if len(a) > 2 else k.get("errors", "strict")
        if enc is None:
            raise TypeError("string argument without an encoding")
        return m_encode(x, enc, err)
    if len(a) > 1 or k:
        raise TypeError("encoding without a string argument")
    if is_byteslike(x):
        return mk_bytes(list(parts_of(x)))
    t = term_of(x)
    if t is not None:
        return bytes(concrete(x))
    out = []
    for v in x:
        t = term_of(v)
        if t is None:
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
        if not decide(tand(tle(0, t), tlt(t, 256))):
            raise ValueError("bytes must be in range(0, 256)")
        out.append(t)
    return mk_bytes([out])


def m_bytearray(*a, **k):
    return SymByteArray(norm_parts(list(parts_of(m_bytes(*a, **k)))))


def m_memoryview(x):
    if not is_byteslike(x):
        raise TypeError("memoryview: a bytes-like object is required, not '%s'" % type(x).__name__)
    return SymView(norm_parts(list(parts_of(x))))


def m_str(*a, **k):
    if not a and not k:
        return ""
    x = a[0] if a else k.pop("object", b"")
    if len(a) > 1 or k:
        enc = a[1] if len(a) > 1 else k.get("encoding", "utf-8")
        err = a[2] if len(a) > 2 else k.get("errors", "strict")
        if not is_byteslike(x):
            raise TypeError("decoding to str: need a bytes-like object, %s found" % x.__class__.__name__)
        return bytes_decode(x, enc, err)
    if isinstance(x, str):
        if getattr(type(x), "_sx", False):
            return x if x.__class__ is str else mk_str(list(parts_of(x)))
        return str(x)
    if isinstance(x, SymBool):
        return "True" if bool(x) else "False"
    if isinstance(x, SymInt):
        return fmt_int_dec(x.t)
    if isinstance(x, BaseException) and type(x).__str__ is not BaseException.__str__ and isinstance(type(x).__str__, types.FunctionType):
        return type(x).__str__(x)
    if isinstance(x, BaseException) and type(x).__str__ in (BaseException.__str__,):
        if len(x.args) == 0:
            return ""
        if len(x.args) == 1:
            return m_str(x.args[0])
        return m_repr(x.args)
    if has_proxy(x):
        return m_repr(x)
    return str(x)


def m_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return mk_bool(tnot(teq(x.t, 0)))
    if isinstance(x, SymSeq):
        return mk_bool(tlt(0, x.length()))
    return bool(x)


def m_type(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if getattr(t, "_sx", False) or t in (SymDict, SymSet, SymKeys, SymItems, SymVals):
            return x.__class__
        return t
    return type(*a)


def m_len(x):
    if isinstance(x, SymSeq):
        return mk_int(x.length())
    if isinstance(x, SymRange):
        return x._len()
    return len(x)


def m_ord(x):
    if isinstance(x, SymSeq):
        u = x.units()
        if len(u) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(u))
        return mk_int(u[0])
    return ord(x)


def m_chr(x):
    t = term_of(x)
    if t is None or isinstance(t, int):
        return chr(x)
    if not decide(tand(tle(0, t), tlt(t, 0x110000))):
        raise ValueError("chr() arg not in range(0x110000)")
    return mk_str([[t]])


def m_hash(x):
    return hash(x)


def m_abs(x):
    return abs(x)


def m_iter(x, *a):
    return iter(x, *a)


def m_range(*a):
    return SymRange(*a)


class SymRange(Proxy):
    __slots__ = ("start", "stop", "step")

    def __init__(self, *a):
        a = [mk_int(term_of(x)) for x in a]
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if isinstance(self.step, SymInt):
            self.step = concrete(self.step)
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    @property
    def __class__(self):
        return range

    def __iter__(self):
        i = self.start
        e = eng()
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            e.loop_iters += 1
            if e.loop_iters > 5000:
                e.note_incomplete("loop unwinding bound")
                raise PathCut("unwind")
            i = i + self.step

    def __reversed__(self):
        return reversed(range(concrete(self.start), concrete(self.stop), self.step))

    def _len(self):
        if self.step > 0:
            n = (self.stop - self.start + (self.step - 1)) // self.step
        else:
            n = (self.start - self.stop + (-self.step - 1)) // (-self.step)
        return n if n > 0 else 0

    def __len__(self):
        return concrete(self._len())

    def __contains__(self, x):
        t = term_of(x)
        if t is None:
            return any(x == y for y in self)
        x = mk_int(t)
        if self.step == 1:
            return bool(self.start <= x) and bool(x < self.stop)
        return any(bool(x == y) for y in self)

    def __getitem__(self, k):
        return range(concrete(self.start), concrete(self.stop), self.step)[concrete(k)]

    def __hash__(self):
        return hash(range(concrete(self.start), concrete(self.stop), self.step))

    def __eq__(self, o):
        return range(concrete(self.start), concrete(self.stop), self.step) == o


# --------------------------------------------------------------- formatting
def fmt_int_dec(t, width=0, fill=48, sign=""):
    """decimal text of integer term t (zero padded to width)"""
    if isinstance(t, int):
        return str(t) if not width else "{:0{w}d}".format(t, w=width)
    neg = decide(tlt(t, 0))
    if neg:
        t = tsub(0, t)
    k = max(width - (1 if neg else 0), 1)
    # leading zeros make a fixed-width text exact
    while not decide(tlt(t, 10**k)):
        k += 1
        if k > 40:
            raise PathCut("decimal width")
    if width == 0 and k == 1:
        pass
    ds = digits(t, 10, k, "dec")
    return mk_str([([45] if neg else []) + [tadd(d, 48) for d in ds]])


def fmt_int_hex(t, width, upper):
    if isinstance(t, int):
        return ("{:0%d%s}" % (width, "X" if upper else "x") if width else ("{:X}" if upper else "{:x}")).format(t)
    neg = decide(tlt(t, 0))
    if neg:
        t = tsub(0, t)
    k = max(width - (1 if neg else 0), 1)
    while not decide(tlt(t, 16**k)):
        k += 1
        if k > 64:
            raise PathCut("hex width")
    ds = digits(t, 16, k, "nb")
    return mk_str([([45] if neg else []) + [(hexchar_up if upper else hexchar)(d) for d in ds]])


def fmt_int_base(t, width, base):
    """binary / octal text of integer term t (zero padded to width)"""
    per = {2: 1, 8: 3}[base]
    neg = decide(tlt(t, 0))
    if neg:
        t = tsub(0, t)
    k = max(width - (1 if neg else 0), 1)
    while not decide(tlt(t, base**k)):
        k += 1
        if k > 200:
            raise PathCut("binary width")
    if base == 2:
        b = bits(t, k)
        ds = [tite(x, 49, 48) if not isinstance(x, bool) else 48 + int(x) for x in reversed(b)]
    else:
        ds = [tadd(d, 48) for d in digits(t, base, k, "oct")]
    return mk_str([([45] if neg else []) + ds])


def m_bin(x):
    t = term_of(x)
    if t is None:
        raise TypeError("'%s' object cannot be interpreted as an integer" % x.__class__.__name__)
    if isinstance(t, int):
        return bin(t)
    r = fmt_int_base(t, 0, 2)
    if decide(tlt(t, 0)):
        return mk_str([[ord(c) for c in "-0b"]] + list(parts_of(r[1:])))
    return mk_str([[ord(c) for c in "0b"]] + list(parts_of(r)))


def m_oct(x):
    t = term_of(x)
    if t is None or isinstance(t, int):
        return oct(concrete(x))
    r = fmt_int_base(t, 0, 8)
    if decide(tlt(t, 0)):
        return mk_str([[ord(c) for c in "-0o"]] + list(parts_of(r[1:])))
    return mk_str([[ord(c) for c in "0o"]] + list(parts_of(r)))


_STD = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
        "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def _struct_items(fmt):
    """[(code, count)], little?  or None when not modelled"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    little = False
    if fmt[:1] in (">", "!", "<", "="):
        little = fmt[0] in "<="
        body = fmt[1:]
    elif set(fmt) <= set("bBsx0123456789 "):
        body = fmt
    else:
        return None
    out = []
    for n, c in re.findall(r"(\d*)([a-zA-Z?])", body):
        if c not in _STD and c not in "sx":
            return None
        k = int(n) if n else 1
        out += [(c, k)] if c in "sx" else [(c, 1)] * k
    return out, little


def m_unpack(fmt, b):
    it = _struct_items(concrete(fmt))
    if it is None:
        eng().note_fallback("struct.unpack")
        return struct.unpack(concrete(fmt), concrete(b))
    items, little = it
    n = sum(k if c in "sx" else _STD[c][0] for c, k in items)
    if not decide(teq(seq_len(norm_parts(parts_of(b))), n)):
        raise struct.error("unpack requires a buffer of %d bytes" % n)
    out = []
    i = 0
    for c, k in items:
        w = k if c in "sx" else _STD[c][0]
        p = lift(b)[i : i + w] if not isinstance(b, SymSeq) else b[i : i + w]
        p = p if isinstance(p, (bytes, SymBytes)) and p.__class__ is bytes else m_bytes(p)
        i += w
        if c == "s":
            out.append(p)
        elif c != "x":
            out.append(m_from_bytes(p, "little" if little else "big", signed=_STD[c][1]))
    return tuple(out)


def m_unpack_from(fmt, b, offset=0):
    n = struct.calcsize(concrete(fmt))
    if not decide(tle(tadd(term_of(offset), n), seq_len(norm_parts(parts_of(b))))):
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % n)
    b = b if isinstance(b, SymSeq) else lift(b)
    return m_unpack(fmt, b[offset : offset + n])


def m_pack(fmt, *vs):
    it = _struct_items(concrete(fmt))
    if it is None or any(c == "s" and not is_byteslike(v) for (c, k), v in zip([x for x in it[0] if x[0] != "x"], vs)):
        eng().note_fallback("struct.pack")
        return struct.pack(concrete(fmt), *concrete(list(vs)))
    items, little = it
    if len([c for c, k in items if c != "x"]) != len(vs):
        raise struct.error("pack expected %d items for packing (got %d)" % (len(items), len(vs)))
    out = []
    vs = list(vs)
    for c, k in items:
        if c == "x":
            out.append([0] * k)
            continue
        v = vs.pop(0)
        if c == "s":
            p = lift(v) if not isinstance(v, SymSeq) else v
            out += parts_of(p[:k])
            have = concrete(m_len(p))
            out.append([0] * max(0, k - have))
            continue
        w, sg = _STD[c]
        t = term_of(v)
        if t is None:
            raise struct.error("required argument is not an integer")
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if sg else (0, (1 << (8 * w)) - 1)
        if not decide(tand(tle(lo, t), tle(t, hi))):
            raise struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
        x = mk_int(t)
        r = x.to_bytes(w, "little" if little else "big", signed=sg)
        out += parts_of(r)
    return mk_bytes(norm_parts(out))


def _re_model(how):
    def f(pattern, text, flags=0):
        if isinstance(pattern, SymSeq):
            pattern = concrete(pattern)
        if has_proxy(text):
            r = RX.call(how, pattern, text, flags)
            if r is not NotImplemented:
                return r
            eng().note_fallback("re.%s" % how)
            text = concrete(text)
        return getattr(re, how)(pattern, text, flags)

    return f


_RE_METHODS = ("match", "fullmatch", "search", "findall", "finditer")


def _parse_spec(spec):
    """[[fill]align][sign][#][0][width][,][.prec][type]"""
    fill, align, sign, alt, zero, width, prec, typ = " ", "", "", False, False, None, None, ""
    s = spec
    if len(s) > 1 and s[1] in "<>=^":
        fill, align, s = s[0], s[1], s[2:]
    elif s and s[0] in "<>=^":
        align, s = s[0], s[1:]
    if s and s[0] in "+- ":
        sign, s = s[0], s[1:]
    if s and s[0] == "#":
        alt, s = True, s[1:]
    if s and s[0] == "0":
        zero, s = True, s[1:]
    w = ""
    while s and s[0].isdigit():
        w, s = w + s[0], s[1:]
    if w:
        width = int(w)
    if s and s[0] in ",_":
        return None
    if s and s[0] == ".":
        s = s[1:]
        p = ""
        while s and s[0].isdigit():
            p, s = p + s[0], s[1:]
        if not p:
            return None
        prec = int(p)
    if len(s) > 1:
        return None
    return fill, align, sign, alt, zero, width, prec, s


def _fmt_int(t, w, typ):
    if typ in ("x", "X"):
        return fmt_int_hex(t, w, typ == "X")
    if typ in ("b", "o"):
        return fmt_int_base(t, w, 2 if typ == "b" else 8)
    return fmt_int_dec(t, w)


def m_format(x, spec=""):
    if not isinstance(spec, str):
        raise TypeError("format() argument 2 must be str, not %s" % spec.__class__.__name__)
    if not has_proxy(x):
        return format(x, concrete(spec))
    if isinstance(spec, SymStr) and isinstance(x, str):
        r = _fmt_str_symwidth(x, spec)
        if r is not None:
            return r
    spec = concrete(spec)
    if isinstance(x, SymBool):
        if spec == "":
            return m_str(x)
        x = mk_int(term_of(x))
        if not isinstance(x, SymInt):
            return format(x, spec)
    if spec == "":
        return m_str(x)
    if isinstance(x, BaseException):
        return format(m_str(x), spec)
    ps = _parse_spec(spec)
    if isinstance(x, str):
        if ps is None or ps[7] not in ("", "s") or ps[2] or ps[3] or ps[1] == "=":
            return format(concrete(x), spec)
        fill, align, _, _, zero, width, prec, _ = ps
        if zero:
            if not align:
                align = "<"
            fill = "0" if fill == " " and spec[:1] not in "<>^" and not (len(spec) > 1 and spec[1] in "<>^") else fill
        r = x
        if prec is not None:
            r = r[:prec]
        return _align(r, fill, align or "<", width)
    if isinstance(x, SymInt):
        if ps is None or ps[6] is not None or ps[7] not in ("", "d", "x", "X", "b", "o"):
            return format(concrete(x), spec)
        fill, align, sign, alt, zero, width, prec, typ = ps
        if sign in ("+", " ") or alt and typ not in ("", "d"):
            return format(concrete(x), spec)
        if (zero and align in ("", "=")) or (align == "=" and fill == "0"):
            if fill not in (" ", "0") :
                return format(concrete(x), spec)
            w = width or 0
            return _fmt_int(x.t, w, typ)
        if align == "=":
            return format(concrete(x), spec)
        r = _fmt_int(x.t, 0, typ)
        return _align(r, fill, align or ">", width)
    if is_byteslike(x) or isinstance(x, SymRange):
        raise TypeError("unsupported format string passed to %s.__format__" % x.__class__.__name__)
    return format(concrete(x), spec)


def _align(r, fill, align, width):
    if not width:
        return r
    if not isinstance(r, SymSeq):
        return format(r, "%s%s%d" % (fill, align, width))
    if align == "<":
        return r.ljust(width, fill)
    if align == ">":
        return r.rjust(width, fill)
    n = r.length()
    if not isinstance(n, int):
        n = len(r)
    k = max(0, width - n)
    l = k // 2
    return mk_str([[ord(fill)] * l] + list(r.parts) + [[ord(fill)] * (k - l)])


def _fmt_str_symwidth(x, spec):
    return None


class _Lazy:
    pass


def _snap(x):
    if type(x) is SymByteArray:
        return SymByteArray(list(x.parts))
    if type(x) in (list, dict, set):
        return copy.deepcopy(x)
    return x


def fstr(pieces):
    """pieces: str or (value, conv, spec)"""
    simple = True
    sym = False
    out = []
    for p in pieces:
        if type(p) is not tuple:
            out.append(p)
            if getattr(type(p), "_sx", False):
                sym = True
            continue
        v, conv, spec = p
        if has_proxy(v) or has_proxy(spec):
            sym = True
            t = type(v)
            lazy_ok = (type(spec) is str and spec == "") and (
                t in (SymInt, SymBool) or isinstance(v, str) or conv == "r"
            )
            if lazy_ok:
                out.append((_snap(v), conv, spec))
                continue
            out.append(_conv_format(v, conv, spec))
        else:
            out.append(_conv_format(v, conv, spec))
    if not sym:
        return "".join(out)

    def thunk():
        parts = []
        for p in out:
            parts += list(parts_of(p if type(p) is not tuple else _conv_format(*p)))
        return parts

    if all(type(p) is not tuple for p in out):
        return mk_str(thunk())
    return SymStr(None, thunk)


def _conv_format(v, conv, spec):
    if conv == "r":
        v = m_repr(v)
    elif conv == "s":
        v = m_str(v)
    elif conv == "a":
        v = ascii(concrete(v))
    if type(spec) is str and spec == "" and isinstance(v, str):
        return v
    return m_format(v, spec)


_FMT = string.Formatter()


def str_format(fmt, args, kwargs):
    pieces = []
    auto = [0]

    def get(name):
        first, rest = _split_name(name)
        if first == "":
            first = auto[0]
            auto[0] += 1
        v = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, k in rest:
            v = getattr(v, k) if is_attr else sx_getitem(v, k)
        return v

    for lit, name, spec, conv in _FMT.parse(fmt):
        if lit:
            pieces.append(lit)
        if name is None:
            continue
        v = get(name)
        if spec and "{" in spec:
            spec = str_format_spec(spec, get)
        pieces.append((v, conv, spec or ""))
    return fstr(pieces)


def str_format_spec(spec, get):
    out = []
    for lit, name, sp, conv in _FMT.parse(spec):
        if lit:
            out.append(lit)
        if name is not None:
            out.append(concrete(_conv_format(get(name), conv, sp or "")))
    return "".join(out)


def _split_name(name):
    import _string

    first, rest = _string.formatter_field_name_split(name)
    return first, list(rest)


def percent_format(fmt, arg):
    if not has_proxy(arg):
        return fmt % arg
    args = arg if isinstance(arg, tuple) else (arg,)
    mapping = arg if isinstance(arg, dict) else None
    pieces = []
    i = 0
    k = 0
    n = len(fmt)
    while i < n:
        j = fmt.find("%", i)
        if j < 0:
            pieces.append(fmt[i:])
            break
        if j > i:
            pieces.append(fmt[i:j])
        i = j + 1
        if fmt[i:i + 1] == "%":
            pieces.append("%")
            i += 1
            continue
        key = None
        if fmt[i:i + 1] == "(":
            e2 = fmt.index(")", i)
            key = fmt[i + 1:e2]
            i = e2 + 1
        fl = ""
        while fmt[i:i + 1] and fmt[i] in "#0- +":
            fl += fmt[i]
            i += 1
        w = ""
        if fmt[i:i + 1] == "*":
            w = str(concrete(args[k]))
            k += 1
            i += 1
        else:
            while fmt[i:i + 1].isdigit():
                w += fmt[i]
                i += 1
        pr = None
        if fmt[i:i + 1] == ".":
            i += 1
            pr = ""
            if fmt[i:i + 1] == "*":
                pr = str(concrete(args[k]))
                k += 1
                i += 1
            while fmt[i:i + 1].isdigit():
                pr += fmt[i]
                i += 1
        c = fmt[i:i + 1]
        i += 1
        if mapping is not None and key is not None:
            v = mapping[key]
        else:
            if k >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[k]
            k += 1
        if not has_proxy(v):
            pieces.append(("%" + fl + w + ("." + pr if pr is not None else "") + c) % ((v,) if not isinstance(v, dict) else (v,)))
        elif c in "sr":
            v = m_str(v) if c == "s" else m_repr(v)
            if pr is not None:
                v = v[: int(pr or 0)]
            if w:
                v = m_format(v, ("<" if "-" in fl else ">") + w)
            pieces.append((v, None, ""))
        elif c in "diuxX" and pr is None and not set(fl) & set("#+ "):
            if term_of(v) is None:
                raise TypeError("%%%s format: a real number is required, not %s" % (c, v.__class__.__name__))
            sp = ("<" if "-" in fl else "0" if "0" in fl else ">") + w if w else ""
            if sp.startswith("0"):
                sp = sp
            pieces.append((v, None, sp + ("d" if c in "diu" else c)))
        else:
            pieces.append(("%" + fl + w + ("." + pr if pr is not None else "") + c) % (concrete(v),))
    if mapping is None and k < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return fstr(pieces)


# --------------------------------------------------------------------- repr
@functools.lru_cache(None)
def _str_classes():
    """[(lo, hi, cls)] partition of code points by repr class, quotes as 'p'"""
    out = []

    def cls(c):
        if c == 92:
            return "bs"
        if c in (9, 10, 13):
            return "e%d" % c
        ch = chr(c)
        if ch.isprintable():
            return "p"
        return "x" if c < 0x100 else "u" if c < 0x10000 else "U"

    for c in range(0x110000):
        k = cls(c)
        if out and out[-1][2] == k:
            out[-1][1] = c
        else:
            out.append([c, c, k])
    d = {}
    for a, b, k in out:
        d.setdefault(k, []).append((a, b))
    return d


@functools.lru_cache(None)
def _bytes_classes():
    d = {"p": [(32, 91), (93, 126)], "bs": [(92, 92)], "e9": [(9, 9)], "e10": [(10, 10)], "e13": [(13, 13)]}
    d["x"] = [(0, 8), (11, 12), (14, 31), (127, 255)]
    return d


_ESC = {"e9": "\\t", "e10": "\\n", "e13": "\\r"}


def m_repr(x):
    t = type(x)
    if t is SymBool:
        return m_str(x)
    if t is SymInt:
        return fmt_int_dec(x.t)
    if isinstance(x, SymByteArray):
        r = repr_seq(x, _bytes_classes(), always=True)
        return mk_str([[ord(c) for c in "bytearray(b"]] + list(parts_of(r)) + [[41]])
    if isinstance(x, SymView):
        return "<memory>"
    if isinstance(x, SymBytes):
        return mk_str([[98]] + list(parts_of(repr_seq(x, _bytes_classes()))))
    if isinstance(x, SymStr):
        return repr_seq(x, _str_classes())
    if not has_proxy(x):
        return repr(concrete(x)) if t in (SymDict, SymSet) else repr(x)
    if t is list:
        return fstr(["["] + _commas([[m_repr(v)] for v in x]) + ["]"])
    if t is tuple:
        return fstr(["("] + _commas([[m_repr(v)] for v in x]) + ([","] if len(x) == 1 else []) + [")"])
    if t is dict or t is SymDict:
        return fstr(["{"] + _commas([[m_repr(k), ": ", m_repr(v)] for k, v in x.items()]) + ["}"])
    return repr(concrete(x))


def _commas(lists):
    out = []
    for i, l in enumerate(lists):
        if i:
            out.append(", ")
        out += l
    return out


def _has(x, name):
    """does the type the proxy stands for have this attribute?"""
    if isinstance(x, (SymStr, SymBytes, SymInt, SymBool)) and isinstance(name, str):
        return hasattr(x.__class__, name)
    return True


def m_hasattr(x, name):
    name = concrete(name)
    return _has(x, name) and hasattr(x, name)


def m_getattr(x, name, *d):
    name = concrete(name)
    if not _has(x, name):
        if d:
            return d[0]
        raise AttributeError("%r object has no attribute %r" % (x.__class__.__name__, name))
    return getattr(x, name, *d)


def repr_seq(x, classes, always=False):
    parts = x.parts
    u = pure(parts)
    plain = [(a, b) for a, b in classes["p"]]
    # fast path: only plain characters, no quotes
    if u is None:
        if forall(parts, lambda t: tand(tin_ranges(t, [r for r in ((32, 38), (40, 91), (93, 126))]))):
            return mk_str([[39]] + list(parts) + [[39]])
        u = x.units()
    memo = eng().cache("repr")
    key = (id(classes), always) + tuple([t if isinstance(t, int) else ("t", t.get_id()) for t in u])
    got = memo.get(key)
    if got is not None:
        return got[1]
    r = _repr_units(u, classes, always, plain)
    memo[key] = (list(u), r)
    return r


def _repr_units(u, classes, always, plain):
    has1 = decide(tor(*[teq(t, 39) for t in u]))
    q = 39
    if has1 and not decide(tor(*[teq(t, 34) for t in u])):
        q = 34
    out = [[q]]
    for t in u:
        if isinstance(t, int):
            k = next(n for n, rs in classes.items() if any(a <= t <= b for a, b in rs))
        elif decide(tin_ranges(t, plain)):
            k = "p"
        else:
            k = None
            names = [n for n in classes if n != "p"]
            for n in names[:-1]:
                if decide(tin_ranges(t, classes[n])):
                    k = n
                    break
            if k is None:
                k = names[-1]
        if k == "p":
            if always and decide(teq(t, 39)):
                out.append([92, 39])
            elif not always and decide(teq(t, q)):
                out.append([92, q])
            else:
                out.append([t])
        elif k == "bs":
            out.append([92, 92])
        elif k in _ESC:
            out.append([ord(c) for c in _ESC[k]])
        else:
            w = {"x": 2, "u": 4, "U": 8}[k]
            ds = digits(t, 16, w, "nb") if not isinstance(t, int) else digits(t, 16, w, "")
            out.append([92, ord(k)] + [hexchar(d) for d in ds])
    out.append([q])
    return mk_str(out)


# ------------------------------------------------------- str/bytes methods
def str_join(sep, it):
    items = list(it)
    if not any(getattr(type(x), "_sx", False) for x in items) and not getattr(type(sep), "_sx", False):
        return sep.join(items)
    if isinstance(sep, str):
        return SymStr(parts_of(sep)).join(items) if items else ""
    if isinstance(sep, SymByteArray):
        return sep.join(items)
    return SymBytes(norm_parts(parts_of(sep))).join(items)


def m_encode(s, *a, **k):
    if isinstance(s, SymStr):
        return s.encode(*a, **k)
    return s.encode(*concrete(a), **{n: concrete(v) for n, v in k.items()})


_PROXY_METHODS = set()


def lift(x):
    """native str/bytes -> proxy with the same value"""
    if type(x) is str:
        return SymStr(norm_parts(parts_of(x)))
    if type(x) is bytes:
        return SymBytes(norm_parts(parts_of(x)))
    return x


def native_method(obj, name, a, k):
    """method `name` of a native str/bytes object with symbolic arguments"""
    if name == "join":
        return str_join(obj, a[0])
    if name == "format" and type(obj) is str:
        return str_format(obj, a, k)
    if name == "__contains__":
        return seq_contains(obj, a[0])
    if name == "__getitem__":
        return sx_getitem(obj, a[0])
    if name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__add__", "__mod__"):
        return getattr(operator, name)(obj, a[0]) if name != "__mod__" else sx_mod(obj, a[0])
    p = lift(obj)
    return getattr(p, name)(*a, **k)


def _wrap_callable(f):
    if isinstance(f, (types.FunctionType, types.MethodType)):
        return f
    return lambda *a, **k: sx_call(f, *a, **k)


def m_map(f, *its):
    return map(_wrap_callable(f), *its)


def m_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(_wrap_callable(f), it)


def m_sorted(it, *, key=None, reverse=False):
    if isinstance(it, SymRange):
        it = list(it)
    return sorted(it, key=None if key is None else _wrap_callable(key), reverse=concrete(reverse))


def m_minmax(which):
    def f(*a, key=None, **kw):
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if "default" in kw:
                return kw["default"]
            raise ValueError("%s() iterable argument is empty" % which)
        k = None if key is None else _wrap_callable(key)
        vals = [k(x) for x in items] if k else items
        if key is None and all(isinstance(x, int) and not isinstance(x, bool) for x in items) and len(items) <= 4:
            r = term_of(items[0])
            for x in items[1:]:
                t = term_of(x)
                c = tlt(t, r) if which == "min" else tlt(r, t)
                nb = [eng().bounds(t), eng().bounds(r)]
                r2 = tite(c, t, r)
                r = r2
            return mk_int(r if isinstance(r, int) else simp(r))
        best = 0
        for i in range(1, len(items)):
            c = vals[i] < vals[best] if which == "min" else vals[i] > vals[best]
            if c:
                best = i
        return items[best]

    return f


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_reduce(f, *a):
    return functools.reduce(_wrap_callable(f), *a)


def m_isinstance(x, t):
    return isinstance(x, t)


def m_ceil(x):
    return x.__ceil__() if isinstance(x, (SymInt, SymRatio)) else math.ceil(x)


def m_floor(x):
    return x.__floor__() if isinstance(x, (SymInt, SymRatio)) else math.floor(x)


def m_hexfn(x):
    t = term_of(x)
    if isinstance(t, int):
        return hex(t)
    neg = decide(tlt(t, 0))
    r = fmt_int_hex(tsub(0, t) if neg else t, 0, False)
    return ("-0x" if neg else "0x") + r


def m_codecs_encode(x, enc="utf-8", errors="strict"):
    e = concrete(enc)
    if e in ("hex", "hex_codec"):
        return m_hexlify(x)
    return m_encode(x, e, errors)


def m_codecs_decode(x, enc="utf-8", errors="strict"):
    e = concrete(enc)
    if e in ("hex", "hex_codec"):
        return m_a2b_hex(x)
    if not is_byteslike(x):
        raise TypeError("a bytes-like object is required, not '%s'" % x.__class__.__name__)
    return bytes_decode(x, e, errors)


def m_codecs_lookup(name):
    name = concrete(name)
    info = codecs.lookup(name)

    def encode(x, errors="strict"):
        return codecs_step(x, errors, True)

    def decode(x, errors="strict"):
        return codecs_step(x, errors, False)

    def codecs_step(x, errors, enc):
        if not has_proxy(x) and type(x) is not SymByteArray:
            return (info.encode if enc else info.decode)(x, errors)
        r = m_codecs_encode(x, name, errors) if enc else m_codecs_decode(x, name, errors)
        return r, m_len(x)

    return codecs.CodecInfo(encode, decode, info.streamreader, info.streamwriter, lambda errors="strict": IncCodec(name, errors, True),
                            lambda errors="strict": IncCodec(name, errors, False), info.name)


class IncCodec:
    """Incremental encoder or decoder of a codec without state, and of UTF-8,
    whose decoder keeps an incomplete last character back."""

    def __init__(self, name, errors, enc):
        self.name, self.errors = name, errors
        self.real = (codecs.getincrementalencoder if enc else codecs.getincrementaldecoder)(name)
        self.info = C.codec_info(name)
        self.buffer = b""
        if self.info is None:
            self.real = self.real(errors)

    def encode(self, x, final=False):
        if self.info is None:
            return self.real.encode(concrete(x), concrete(final))
        return x.encode(self.name, self.errors) if isinstance(x, SymStr) else str_encode(x, self.name, self.errors)

    def decode(self, x, final=False):
        if self.info is None:
            return self.real.decode(bytes(concrete(x)), concrete(final))
        b = mk_bytes(list(parts_of(self.buffer)) + list(parts_of(x)))
        keep = 0
        if self.info[0] == "utf8" and not final and not forall(norm_parts(parts_of(b)), lambda t: tlt(t, 128)):
            keep = _utf8_tail(b.units() if isinstance(b, SymSeq) else list(b))
        n = m_len(b)
        r = b[:n - keep].decode(self.name, self.errors)
        self.buffer = b[n - keep:]
        return r

    def reset(self):
        self.buffer = b""

    def getstate(self):
        return (self.buffer, 0)

    def setstate(self, st):
        self.buffer = st[0]


def _utf8_tail(u):
    """length of an incomplete but so far valid character at the end"""
    for j in range(1, min(3, len(u)) + 1):
        t = u[-j]
        if decide(tand(tle(0x80, t), tle(t, 0xBF))):
            continue
        for need, lo, hi in ((2, 0xC2, 0xDF), (3, 0xE0, 0xEF), (4, 0xF0, 0xF4)):
            if need > j and decide(tand(tle(lo, t), tle(t, hi))):
                if j > 1:
                    x = u[-j + 1]
                    ok = tand(_z_imp(teq(t, 0xE0), tle(0xA0, x)), _z_imp(teq(t, 0xED), tle(x, 0x9F)), _z_imp(teq(t, 0xF0), tle(0x90, x)), _z_imp(teq(t, 0xF4), tle(x, 0x8F)))
                    return j if decide(ok) else 0
                return j
        return 0
    return 0


def m_warn(*a, **k):
    return None


@functools.lru_cache(None)
def _ucd_classes(name, *rest):
    """value of a unicodedata function -> ranges of code points"""
    f = getattr(unicodedata, name)
    d, last, start = {}, None, 0
    for c in range(0x110001):
        v = f(chr(c), *rest) if c < 0x110000 else StopIteration
        v = (type(v), v)
        if c and v != last:
            d.setdefault(last, []).append((start, c - 1))
            start = c
        last = v
    return [(k[1], rs) for k, rs in sorted(d.items(), key=lambda x: -sum(b - a + 1 for a, b in x[1]))]


def _ucd_model(name):
    f = getattr(unicodedata, name)

    def model(x, *rest):
        if not isinstance(x, SymStr):
            return f(concrete(x), *rest)
        u = x.units()
        if len(u) != 1:
            return f("xx", *rest)  # raises as documented
        t = u[0]
        if isinstance(t, int):
            return f(chr(t), *rest)
        no = object()
        rest = tuple(rest)
        if rest:
            cs = _ucd_classes(name, None)
        elif name in ("decimal", "digit", "numeric", "name"):
            cs = _ucd_classes(name, None)
        else:
            cs = _ucd_classes(name)
        for v, rs in cs[:-1]:
            if decide(tin_ranges(t, rs)):
                break
        else:
            v = cs[-1][0]
        if v is None and name in ("decimal", "digit", "numeric", "name"):
            if rest:
                return rest[0]
            raise ValueError({"decimal": "not a decimal", "digit": "not a digit", "numeric": "not a numeric character", "name": "no such name"}[name])
        return v

    return model


@functools.lru_cache(None)
def _stable(form):
    """ranges of characters which normalisation leaves alone whatever is next to them"""
    second = set(range(0x1161, 0x1200))
    for c in range(0x110000):
        d = unicodedata.decomposition(chr(c)).split()
        if d and not d[0].startswith("<"):
            second.update(int(x, 16) for x in d[1:])
    out = []
    for c in range(0x110000):
        ok = unicodedata.combining(chr(c)) == 0 and c not in second and unicodedata.normalize(form, chr(c)) == chr(c)
        if ok:
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
    return [tuple(r) for r in out]


def m_normalize(form, x):
    form = concrete(form)
    if not isinstance(x, SymStr):
        return unicodedata.normalize(form, concrete(x))
    if forall(x.parts, lambda t: tin_ranges(t, _stable(form))):
        return x
    eng().note_fallback("unicodedata.normalize")
    return unicodedata.normalize(form, x.concrete())


def m_is_normalized(form, x):
    return m_normalize(form, x) == x


def m_print(*a, sep=" ", end="\n", file=None, flush=False):
    sep = " " if sep is None else sep
    end = "\n" if end is None else end
    if file is None:
        file = sys.stdout
    for i, x in enumerate(a):
        if i:
            file.write(sep)
        file.write(m_str(x))
    file.write(end)


def m_divmod(a, b):
    return (a // b, sx_mod(a, b))


def m_pow(*a):
    return pow(*concrete(a))


def m_enumerate(it, start=0):
    return enumerate(it, concrete(start))


def m_round(x, *a):
    if isinstance(x, SymInt):
        return x if not a else round(concrete(x), *concrete(a))
    if isinstance(x, SymRatio) and not a:
        return x.__round__()
    return round(concrete(x), *concrete(a))


def m_dict(*a, **k):
    if len(a) > 1:
        raise TypeError("dict expected at most 1 argument, got %d" % len(a))
    return SymDict.build(a[0] if a else (), k)


def m_set(it=()):
    return SymSet(it)


def m_frozenset(it=()):
    return SymSet(it, True)


def mk_dict(*items):
    """dict display with computed keys or spreads"""
    d = SymDict()
    for p in items:
        if len(p) == 1:
            if not hasattr(p[0], "keys"):
                raise TypeError("'%s' object is not a mapping" % p[0].__class__.__name__)
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def mk_dictcomp(it):
    d = SymDict()
    for k, v in it:
        d[k] = v
    return d


def m_ascii(x):
    return ascii(concrete(x))


def m_open(*a, **k):
    raise PathCut("open")


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


# functions replaced whenever any argument is a proxy
TABLE = {
    len: m_len,
    bytes: m_bytes,
    str: m_str,
    int: m_int,
    bool: m_bool,
    repr: m_repr,
    format: m_format,
    type: m_type,
    ord: m_ord,
    chr: m_chr,
    range: m_range,
    sorted: m_sorted,
    map: m_map,
    filter: m_filter,
    min: m_minmax("min"),
    max: m_minmax("max"),
    sum: m_sum,
    functools.reduce: m_reduce,
    hex: m_hexfn,
    bin: m_bin,
    oct: m_oct,
    struct.unpack: m_unpack,
    struct.unpack_from: m_unpack_from,
    struct.pack: m_pack,
    re.match: _re_model("match"),
    re.fullmatch: _re_model("fullmatch"),
    re.search: _re_model("search"),
    re.findall: _re_model("findall"),
    re.finditer: _re_model("finditer"),
    divmod: m_divmod,
    pow: m_pow,
    round: m_round,
    memoryview: m_memoryview,
    ascii: m_ascii,
    binascii.a2b_hex: m_a2b_hex,
    binascii.unhexlify: m_a2b_hex,
    binascii.b2a_hex: m_hexlify,
    binascii.hexlify: m_hexlify,
    math.ceil: m_ceil,
    math.floor: m_floor,
    codecs.encode: m_codecs_encode,
    codecs.decode: m_codecs_decode,
    warnings.warn: m_warn,
    print: m_print,
    any: m_any,
    all: m_all,
    operator.contains: lambda a, b: sx_contains(b, a),
    operator.getitem: lambda a, b: sx_getitem(a, b),
    operator.mod: lambda a, b: sx_mod(a, b),
}
def m_all_in(txt, ranges):
    ranges = [tuple(r) for r in ranges]
    return forall(parts_of(txt), lambda t: tin_ranges(t, ranges))


TABLE[native.all_in] = m_all_in
# functions replaced on every call
ALWAYS = {
    bytearray: m_bytearray,
    io.StringIO: SymStringIO,
    map: m_map,
    filter: m_filter,
    print: m_print,
    dict: m_dict,
    set: m_set,
    frozenset: m_frozenset,
    io.BytesIO: SymBytesIO,
    hasattr: m_hasattr,
    getattr: m_getattr,
    codecs.lookup: m_codecs_lookup,
    codecs.getincrementaldecoder: lambda e: m_codecs_lookup(e).incrementaldecoder,
    codecs.getincrementalencoder: lambda e: m_codecs_lookup(e).incrementalencoder,
    codecs.getencoder: lambda e: m_codecs_lookup(e).encode,
    codecs.getdecoder: lambda e: m_codecs_lookup(e).decode,
    unicodedata.normalize: m_normalize,
    unicodedata.is_normalized: m_is_normalized,
}
for _n in ("category", "bidirectional", "combining", "mirrored", "decomposition", "east_asian_width", "decimal", "digit", "numeric"):
    ALWAYS[getattr(unicodedata, _n)] = _ucd_model(_n)
# native callables that work on proxies unchanged
PASS = {
    isinstance, issubclass, iter, next, list, tuple, enumerate, zip, reversed, id, callable,
    setattr, delattr, abs, hash, super, object, vars, dir, slice, property, staticmethod,
    classmethod, Exception, copy.copy, copy.deepcopy, operator.itemgetter, operator.attrgetter,
    operator.add, operator.sub, operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge,
    operator.and_, operator.or_, operator.not_, operator.floordiv, operator.rshift, operator.lshift,
    operator.index, operator.truth, operator.mul, operator.setitem, operator.delitem, operator.concat,
    functools.partial, collections.OrderedDict, collections.defaultdict, collections.deque, collections.ChainMap,
    types.MappingProxyType, types.SimpleNamespace, collections.Counter,
    itertools.chain, itertools.islice, itertools.takewhile, itertools.dropwhile, itertools.zip_longest,
    itertools.accumulate, itertools.starmap, itertools.product, itertools.groupby, itertools.repeat,
    itertools.count, itertools.filterfalse, itertools.compress, itertools.pairwise, itertools.chain.from_iterable,
}
_CONTAINERS = (list, dict, set, frozenset, tuple, collections.deque, types.GeneratorType, types.MappingProxyType,
               type({}.keys()), type({}.items()), type({}.values()), BaseException)
INSTRUMENTED = set()  # id of globals dicts of instrumented modules


def sx_call(f, /, *a, **k):
    try:
        m = ALWAYS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    tf = type(f)
    if tf is types.FunctionType:
        if f.__globals__.get("__sx_instrumented__"):
            return f(*a, **k)
        m = TABLE.get(f)
        if m is not None:
            return m(*a, **k)
        return _foreign(f, a, k)
    if tf is _LRU:
        return m_lru(f, a, k)
    if tf is types.MethodType:
        if getattr(type(f.__self__), "_sx", False):
            return f(*a, **k)
        ff = f.__func__
        if isinstance(ff, types.FunctionType) and not ff.__globals__.get("__sx_instrumented__"):
            return _foreign(f, a, k)
        return f(*a, **k)
    any_proxy = False
    for x in a:
        if has_proxy(x) or hasattr(type(x), "__next__"):
            any_proxy = True
            break
    if not any_proxy:
        for x in k.values():
            if has_proxy(x):
                any_proxy = True
                break
    if isinstance(f, _BUILTIN):
        self = f.__self__
        if self is not None and not isinstance(self, types.ModuleType):
            name = f.__name__
            ts = type(self)
            if self is int and name == "from_bytes":
                return m_from_bytes(*a, **k)
            if name == "fromhex" and self in (bytes, bytearray):
                return m_fromhex(self, *a)
            if not any_proxy and self is not object:
                if ts in (str, bytes) and name != "join":
                    return f(*a, **k)
            if ts in (str, bytes):
                if name == "join":
                    return str_join(self, a[0])
                if not any_proxy:
                    return f(*a, **k)
                return native_method(self, name, a, k)
            if ts is bytearray and any_proxy:
                eng().note_fallback("bytearray.%s" % name)
                return f(*concrete(a), **{n: concrete(v) for n, v in k.items()})
            if isinstance(self, _CONTAINERS) or isinstance(self, type):
                if isinstance(self, (list,)) and name == "sort" and k.get("key") is not None:
                    k["key"] = _wrap_callable(k["key"])
                if name == "__contains__" and not isinstance(self, type):
                    return sx_contains(self, a[0])
                if self is str and name == "maketrans":
                    return str.maketrans(*a)
                if self is dict and name == "fromkeys":
                    return SymDict.fromkeys(*a, **k)
                if any_proxy and isinstance(self, dict) and a and symkey(a[0]):
                    if name == "get":
                        return native_dict_get(self, *a)
                    if name == "__getitem__":
                        return sx_getitem(self, a[0])
                    if name in ("pop", "setdefault"):
                        for kk in self:
                            if same_key(kk, a[0]):
                                return f(kk, *a[1:])
                        if name == "pop":
                            if len(a) > 1:
                                return a[1]
                            raise KeyError(a[0])
                if any_proxy and ts is set and a and name in ("difference", "intersection", "union", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
                    return getattr(SymSet(self), name)(*a)
                if any_proxy and ts is frozenset and a and name in ("difference", "intersection", "union", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
                    return getattr(SymSet(self, True), name)(*a)
                return f(*a, **k)
            if not any_proxy:
                return f(*a, **k)
            if ts is re.Pattern and name in _RE_METHODS and len(a) == 1:
                return _re_model(name)(self, a[0])
            if ts is struct.Struct and name in ("pack", "unpack", "unpack_from"):
                return {"pack": m_pack, "unpack": m_unpack, "unpack_from": m_unpack_from}[name](self.format, *a)
            if ts is int or ts is float:
                return getattr(self, name)(*[concrete(x) for x in a])
            eng().note_fallback("%s.%s" % (ts.__name__, name))
            return f(*[concrete(x) for x in a], **{n: concrete(v) for n, v in k.items()})
    if tf in _DESCR and a:
        # unbound method of a builtin type, e.g. str.upper(x)
        return _unbound(f, a, k, any_proxy)
    try:
        m = TABLE.get(f)
    except TypeError:
        m = None
    if m is not None:
        if any_proxy or f in _ALWAYS_MODEL or (f in (str, repr, format) and isinstance(a[0] if a else None, BaseException)):
            return m(*a, **k)
        return f(*a, **k)
    try:
        if f in PASS:
            if not any_proxy:
                return f(*[_wrap_callable(x) if f is functools.partial and callable(x) and i == 0 else x for i, x in enumerate(a)], **k)
            if f is functools.partial:
                return functools.partial(_wrap_callable(a[0]), *a[1:], **k)
            return f(*a, **k)
    except TypeError:
        if not callable(f):
            raise
        if f.__hash__ is not None:
            raise
    if tf is type or isinstance(f, type):
        # class: its __init__ runs natively (instrumented when from the code under test)
        if f.__module__ in ("builtins",) and not issubclass(f, BaseException) and any_proxy:
            eng().note_fallback("call %s" % f.__name__)
            return f(*[concrete(x) for x in a], **{n: concrete(v) for n, v in k.items()})
        return f(*a, **k)
    if isinstance(f, types.BuiltinFunctionType) and any_proxy:
        eng().note_fallback("call %s" % getattr(f, "__name__", f))
        return f(*[concrete(x) for x in a], **{n: concrete(v) for n, v in k.items()})
    return f(*a, **k)


_LRU = functools._lru_cache_wrapper


def m_lru(f, a, k):
    """A memoised function: an association list per path, keys compared by
    equality (a key is unhashable exactly when it would be natively)."""
    for x in list(a) + list(k.values()):
        if isinstance(x, (list, dict, set, bytearray)) or type(x).__hash__ is None:
            raise TypeError("unhashable type: %r" % x.__class__.__name__)
    tab = eng().cache(("lru", id(f))).setdefault("t", [])
    typed = f.cache_parameters()["typed"]
    for fa, fk, r, keep in tab:
        if len(fa) != len(a) or set(fk) != set(k):
            continue
        c = []
        for x, y in list(zip(fa, a)) + [(fk[n], k[n]) for n in fk]:
            if typed and x.__class__ is not y.__class__:
                c = [False]
                break
            if x is y:
                continue
            e = x == y
            c.append(bool_of(e) if e is not NotImplemented else False)
        if eng().decide(tand(*c)):
            return r
    r = sx_call(f.__wrapped__, *a, **k)
    tab.append((a, dict(k), r, f))
    n = f.cache_parameters()["maxsize"]
    if n is not None and len(tab) > n:
        eng().note_fallback("lru_cache eviction")
        tab.pop(0)
    return r


_ALWAYS_MODEL = {sum, sorted, min, max, functools.reduce, any, all, type}
_FOREIGN_OK = ("copy", "collections", "dataclasses", "contextlib", "typing", "enum", "functools", "types", "abc",
               "sx.models", "sx.values", "sx.vapi", "collections.abc", "_collections_abc", "operator", "itertools", "pickle")


def _foreign(f, a, k):
    """A Python function outside the instrumented code."""
    mod = getattr(f, "__module__", "") or ""
    if mod.split(".")[0] in ("sx",) or mod in _FOREIGN_OK or mod.startswith("z3"):
        return f(*a, **k)
    if any(has_proxy(x) for x in a) or any(has_proxy(x) for x in k.values()):
        if mod == "logging":
            return None
        eng().note_fallback("%s.%s" % (mod, getattr(f, "__qualname__", "?")))
        return f(*[concrete(x) for x in a], **{n: concrete(v) for n, v in k.items()})
    return f(*a, **k)


def _unbound(f, a, k, any_proxy):
    owner = f.__objclass__ if hasattr(f, "__objclass__") else None
    x = a[0]
    if owner in (str, bytes, bytearray, int, dict, set, frozenset) and (getattr(type(x), "_sx", False) or type(x) in (SymDict, SymSet)):
        if not issubclass(x.__class__, owner):
            raise TypeError("descriptor '%s' for '%s' objects doesn't apply to a '%s' object" % (f.__name__, owner.__name__, x.__class__.__name__))
        name = f.__name__
        if name == "__repr__":
            return m_repr(x)
        if name == "__str__":
            return m_str(x)
        if name == "__len__":
            return m_len(x)
        if name == "__format__":
            return m_format(*a)
        return getattr(x, name)(*a[1:], **k)
    if owner in (str, bytes) and any_proxy and type(x) in (str, bytes):
        return native_method(x, f.__name__, a[1:], k)
    return f(*a, **k)


# ---------------------------------------------------------------- operators
_MEMBERSHIP = {tuple, list, set, frozenset, dict, type({}.keys()), types.MappingProxyType, range, SymDict, SymSet, SymKeys}


def sx_contains(c, x):
    """x in c"""
    if isinstance(c, SymSeq):
        return seq_contains(c, x)
    t = type(c)
    if t in (str, bytes) and getattr(type(x), "_sx", False):
        return seq_contains(c, x)
    if getattr(type(x), "_sx", False):
        if t in _MEMBERSHIP:
            if t is range and isinstance(x, int):
                return mk_bool(tand(tle(c.start, x.t if isinstance(x, SymInt) else term_of(x)), tlt(term_of(x), c.stop))) if c.step == 1 else x in list(c)
            if t is range:
                return any(x == y for y in c)
            acc = False
            for y in c:
                if type(y) is type(x) or isinstance(y, (str, bytes, int)) or getattr(type(y), "_sx", False):
                    r = x == y
                    if r is NotImplemented or r is False:
                        continue
                    if r is True:
                        return True
                    acc = tor(acc, bool_of(r))
            return mk_bool(acc)
    return x in c


def sx_not_contains(c, x):
    r = sx_contains(c, x)
    if isinstance(r, SymBool):
        return mk_bool(tnot(r.c))
    return not r


def sx_getitem(o, k):
    t = type(o)
    if t in (str, bytes):
        if getattr(type(k), "_sx", False) or (type(k) is slice and has_proxy(k)):
            return lift(o)[k]
        return o[k]
    if t in (list, tuple):
        if isinstance(k, SymInt):
            n = len(o)
            kt = k.t
            if decide(tlt(kt, 0)):
                kt = tadd(kt, n)
            if not decide(tand(tle(0, kt), tlt(kt, n))):
                raise IndexError("%s index out of range" % t.__name__)
            if n <= 300 and all(type(x) is int or isinstance(x, SymInt) for x in o):
                return mk_int(simp(rope_get([[term_of(x) for x in o]], kt)))
            return o[eng().concretize(kt)]
        if type(k) is slice and has_proxy(k):
            return o[concrete(k)]
    if t is dict and isinstance(k, SymInt) and o and all(type(x) is int for x in o) and all(type(x) is int for x in o.values()) and len(o) <= 300:
        if not decide(tor(*[teq(k.t, x) for x in o])):
            raise KeyError(k)
        ks = list(o)
        r = o[ks[-1]]
        for x in ks[:-1]:
            r = tite(teq(k.t, x), o[x], r)
        return mk_int(simp(r) if not isinstance(r, int) else r)
    if isinstance(o, dict) and isinstance(k, SymStr) and t is not SymDict:
        # association lookup: fork over the keys rather than over all strings
        for x in list(o):
            if isinstance(x, str) and decide(bool_of(k == x)):
                return o[x]
        raise KeyError(k)
    return o[k]


def sx_mod(a, b):
    if type(a) is str:
        return percent_format(a, b)
    return a % b


def sx_fstr(*pieces):
    return fstr(pieces)
