"""Symbolic proxies for bool, int, str, bytes, bytearray and dict."""
import builtins
import z3

from .engine import eng, PathCut
from .terms import *
from . import codec as C


# ------------------------------------------------------------------ helpers
def is_proxy(x):
    return isinstance(type(x), type) and getattr(type(x), "_sx", False)


def has_sym(x, depth=4):
    if getattr(type(x), "_sx", False):
        if issubclass(type(x), SymByteArray):
            return not x.is_concrete()
        return True
    if depth <= 0:
        return False
    t = type(x)
    if t in (list, tuple) or isinstance(x, (set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values()) or any(
            has_sym(y, 1) for y in x.keys()
        )
    if t is slice:
        return has_sym(x.start, 0) or has_sym(x.stop, 0) or has_sym(x.step, 0)
    return False


def has_proxy(x, depth=4):
    """Like has_sym but also true for concrete SymByteArray objects."""
    if getattr(type(x), "_sx", False):
        return True
    if depth <= 0:
        return False
    t = type(x)
    if t in (list, tuple) or isinstance(x, (set, frozenset)):
        return any(has_proxy(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(has_proxy(y, depth - 1) for y in x.values()) or any(
            has_proxy(y, 1) for y in x.keys()
        )
    if t is slice:
        return has_proxy(x.start, 0) or has_proxy(x.stop, 0)
    return False


def concrete(x):
    """Force x to a native value, forking over its feasible values."""
    t = type(x)
    if t is SymBool:
        return bool(x)
    if t is SymInt:
        return eng().concretize(x.t)
    if isinstance(x, SymSeq):
        return x.concrete()
    if t is SymRatio:
        raise PathCut("float")
    if t is list:
        return [concrete(y) for y in x]
    if t is tuple:
        return tuple(concrete(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return (t if t in (set, frozenset) else x.__class__)(concrete(y) for y in x)
    if t is dict or isinstance(x, dict) and x.__class__ is dict:
        return {concrete(k): concrete(v) for k, v in x.items()}
    if t is slice:
        return slice(concrete(x.start), concrete(x.stop), concrete(x.step))
    return x


def mk_bool(c):
    if c is True or c is False:
        return c
    return SymBool(c)


def mk_int(t):
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def term_of(x):
    """int-like -> term; None when x is not int-like"""
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.c, z3.IntVal(1), z3.IntVal(0))
    if type(x) is bool:
        return int(x)
    if type(x) is int:
        return x
    if isinstance(x, int) and not getattr(type(x), "_sx", False):
        return int(x)
    return None


def bool_of(x):
    if type(x) is bool:
        return x
    if isinstance(x, SymBool):
        return x.c
    if isinstance(x, SymInt):
        return tnot(teq(x.t, 0))
    return bool(x)


def decide(c):
    return eng().decide(c)


class Proxy:
    _sx = True
    __slots__ = ()

    def __reduce_ex__(self, p):
        raise TypeError("symbolic proxy is not picklable")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Proxy):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().decide(self.c)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __eq__(self, o):
        if type(o) is bool or isinstance(o, SymBool):
            b = bool_of(o)
            if b is True:
                return mk_bool(self.c)
            if b is False:
                return mk_bool(tnot(self.c))
            return mk_bool(self.c == b)
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_bool(teq(term_of(self), t))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_bool(tnot(bool_of(r)))

    def _bin(self, o, f):
        if type(o) is bool or isinstance(o, SymBool):
            return mk_bool(f(self.c, bool_of(o)))
        return None

    def __and__(self, o):
        r = self._bin(o, tand)
        return r if r is not None else mk_int(term_of(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        r = self._bin(o, tor)
        return r if r is not None else mk_int(term_of(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        r = self._bin(o, lambda a, b: tnot(a) if b is True else a if b is False else z3.Xor(a, b))
        return r if r is not None else mk_int(term_of(self)) ^ o

    __rxor__ = __xor__

    def __getattr__(self, name):
        if hasattr(int, name) and not name.startswith("__"):
            return getattr(mk_int(term_of(self)), name)
        raise AttributeError(name)

    def __repr__(self):
        return "<symbool>"


def _as_int(self):
    return SymInt(term_of(self))


for _n in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __floordiv__ __mod__ "
    "__lshift__ __rlshift__ __rshift__ __lt__ __le__ __gt__ __ge__ __neg__ __pos__ __invert__ __format__"
).split():

    def _mk(n):
        def f(self, *a):
            return getattr(SymInt, n)(_as_int(self), *a)

        f.__name__ = n
        return f

    setattr(SymBool, _n, _mk(_n))


class SymInt(Proxy):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return eng().decide(tnot(teq(self.t, 0)))

    def __hash__(self):
        return hash(eng().concretize(self.t))

    def __index__(self):
        return eng().concretize(self.t)

    __int__ = __index__

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __round__ = __trunc__

    def __float__(self):
        return float(eng().concretize(self.t))

    def __repr__(self):
        return "<symint>"

    def __str__(self):
        return str(eng().concretize(self.t))

    def __format__(self, spec):
        return format(eng().concretize(self.t), spec)

    # comparisons
    def __eq__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_bool(teq(self.t, t))

    def __ne__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_bool(tnot(teq(self.t, t)))

    def __lt__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_bool(tlt(self.t, t))

    def __gt__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_bool(tlt(t, self.t))

    def __le__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_bool(tle(self.t, t))

    def __ge__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_bool(tle(t, self.t))

    # arithmetic
    def __add__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_int(tadd(self.t, t))

    __radd__ = __add__

    def __sub__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_int(tsub(self.t, t))

    def __rsub__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_int(tsub(t, self.t))

    def __mul__(self, o):
        t = term_of(o)
        if t is None:
            if isinstance(o, (str, bytes, bytearray, list, tuple)):
                return o * self.__index__()
            return NotImplemented
        return mk_int(tmul(self.t, t))

    __rmul__ = __mul__

    def _divisor(self, o):
        t = term_of(o)
        if t is None:
            return None
        if not isinstance(t, int):
            t = eng().concretize(t)
        if t == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return t

    def __floordiv__(self, o):
        d = self._divisor(o)
        if d is None:
            return NotImplemented
        if d < 0:
            return mk_int(tdiv(tsub(0, self.t), -d))
        return mk_int(tdiv(self.t, d))

    def __mod__(self, o):
        d = self._divisor(o)
        if d is None:
            return NotImplemented
        if d < 0:
            return mk_int(tsub(0, tmod(tsub(0, self.t), -d)))
        return mk_int(tmod(self.t, d))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rfloordiv__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_int(t).__floordiv__(self) if not isinstance(t, int) else t // self._nz()

    def __rmod__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_int(t).__mod__(self) if not isinstance(t, int) else t % self._nz()

    def _nz(self):
        return eng().concretize(self.t)

    def __truediv__(self, o):
        d = self._divisor(o)
        if d is None:
            return NotImplemented
        if d < 0:
            return SymRatio(tsub(0, self.t), -d)
        return SymRatio(self.t, d)

    def __pow__(self, o, m=None):
        return pow(self._nz(), concrete(o), concrete(m))

    def __rpow__(self, o):
        return pow(concrete(o), self._nz())

    def __neg__(self):
        return mk_int(tsub(0, self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if decide(tlt(self.t, 0)) else self

    def __invert__(self):
        return mk_int(tsub(-1, self.t))

    def __lshift__(self, o):
        k = concrete(o)
        if not isinstance(k, int):
            return NotImplemented
        if k < 0:
            raise ValueError("negative shift count")
        t = tmul(self.t, 1 << k)
        if k and not isinstance(t, int):
            eng().cache("zeros")[t.get_id()] = (t, k, self.t)
        return mk_int(t)

    def __rlshift__(self, o):
        lo, hi = eng().bounds(self.t)
        if isinstance(o, int) and not getattr(type(o), "_sx", 0) and lo is not None and hi is not None and 0 <= lo and hi <= 64:
            t = o << hi
            for k in range(hi - 1, lo - 1, -1):
                t = tite(teq(self.t, k), o << k, t)
            return mk_int(t)
        return concrete(o) << self.__index__()

    def __rshift__(self, o):
        k = concrete(o)
        if not isinstance(k, int):
            return NotImplemented
        if k < 0:
            raise ValueError("negative shift count")
        w = self._width()
        if w is not None and (w <= 200):
            if w <= 8 and k == 4 and eng().cache("bits").get(self.t.get_id()) is None:
                return mk_int(digits(self.t, 16, 2, "nb")[0])
            b = bits(self.t, w)
            return mk_int(from_bits(b[k:]))
        return mk_int(tdiv(self.t, 1 << k))

    def __rrshift__(self, o):
        lo, hi = eng().bounds(self.t)
        if isinstance(o, int) and not getattr(type(o), "_sx", 0) and lo is not None and hi is not None and 0 <= lo and hi <= 64:
            t = o >> hi
            for k in range(hi - 1, lo - 1, -1):
                t = tite(teq(self.t, k), o >> k, t)
            return mk_int(t)
        return concrete(o) >> self.__index__()

    def _width(self):
        lo, hi = eng().bounds(self.t)
        if lo is None or hi is None or lo < 0:
            return None
        return max(1, hi.bit_length())

    def _glue(self, a, z, b):
        """a | b where b fits in the trailing zeros of a: their sum"""
        t = tadd(a, b)
        e = eng()
        zb = e.cache("zeros").get(b.get_id()) if not isinstance(b, int) else None
        if zb is not None:
            e.cache("zeros")[t.get_id()] = (t, zb[1], None)
        if z[1] == 8 and z[2] is not None and (isinstance(b, int) or e.bounds(b)[1] <= 255):
            h = e.cache("bytesof").get(z[2].get_id()) if not isinstance(z[2], int) else None
            hi = None if isinstance(z[2], int) else e.bounds(z[2])[1]
            top = h[1] if h is not None else [z[2]] if hi is not None and hi <= 255 else None
            if top is not None:
                e.cache("bytesof")[t.get_id()] = (t, list(top) + [b])
        return t

    def _bitop(self, o, f, g, disjoint=False):
        t = term_of(o)
        if t is None:
            return NotImplemented
        w1 = self._width()
        lo, hi = eng().bounds(t)
        if w1 is None or lo is None or hi is None or lo < 0 or hi.bit_length() > 200 or w1 > 200:
            return g(eng().concretize(self.t), concrete(mk_int(t)))
        if disjoint:
            for a, b in ((self.t, t), (t, self.t)):
                z = eng().cache("zeros").get(a.get_id()) if not isinstance(a, int) else None
                m = eng().bounds(b)[1] if not isinstance(b, int) else b
                if z is not None and m is not None and m < 1 << z[1]:
                    return mk_int(self._glue(a, z, b))
        w2 = max(1, hi.bit_length())
        w = max(w1, w2)
        a = bits(self.t, w1) + [False] * (w - w1)
        b = bits(t, w2) + [False] * (w - w2)
        return mk_int(from_bits([f(x, y) for x, y in zip(a, b)]))

    def __and__(self, o):
        t = term_of(o)
        if t is None:
            return NotImplemented
        if isinstance(t, int) and t >= 0:
            if t & (t + 1) == 0:
                c = eng().cache("bits").get(self.t.get_id())
                if c is None:
                    if t == 15 and (self._width() or 99) <= 8:
                        return mk_int(digits(self.t, 16, 2, "nb")[1])
                    return mk_int(tmod(self.t, t + 1))
            lo, hi = eng().bounds(self.t)
            if lo is None or lo < 0:
                # Python semantics: two's complement, only the low bits matter
                w = max(1, t.bit_length())
                b = bits(tmod(self.t, 1 << w), w)
                return mk_int(from_bits([x if t >> i & 1 else False for i, x in enumerate(b)]))
        return self._bitop(o, lambda a, b: tand(a, b), lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._bitop(o, lambda a, b: tor(a, b), lambda a, b: a | b, True)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bitop(
            o,
            lambda a, b: tnot(a) if b is True else a if b is False else (tnot(b) if a is True else b if a is False else z3.Xor(a, b)),
            lambda a, b: a ^ b,
            True,
        )

    __rxor__ = __xor__

    # methods
    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = concrete(length)
        byteorder = concrete(byteorder)
        if concrete(signed):
            lo, hi = -(1 << (8 * length - 1)) if length else 0, (1 << (8 * length - 1)) if length else 1
            if not decide(tand(tle(lo, self.t), tlt(self.t, hi))):
                raise OverflowError("int too big to convert")
            t = tmod(self.t, 1 << (8 * length)) if length else 0
        else:
            if not below(self.t, 256**length):
                if decide(tlt(self.t, 0)):
                    raise OverflowError("can't convert negative int to unsigned")
                if not decide(tlt(self.t, 256**length)):
                    raise OverflowError("int too big to convert")
            t = self.t
        if length == 0:
            return b""
        ds = list(digits(t, 256, length, "by"))
        if byteorder == "little":
            ds.reverse()
        elif byteorder != "big":
            raise ValueError("byteorder must be either 'little' or 'big'")
        return mk_bytes([ds])

    def bit_length(self):
        k = 0
        a = abs(self)
        while bool_of(a) is not False and decide(bool_of(a >= (1 << k))):
            k += 1
            if k > 200:
                raise PathCut("bit_length")
        return k

    def bit_count(self):
        w = self._width()
        if w is None:
            return concrete(self).bit_count()
        return mk_int(simp(z3.Sum([z3.If(b, 1, 0) if not isinstance(b, bool) else z3.IntVal(int(b)) for b in bits(self.t, w)])))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (self, 1)


class SymRatio(Proxy):
    """num/den with a constant positive den: the float n / c, exact while
    |n| < 2**53."""

    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @property
    def __class__(self):
        return float

    def __floor__(self):
        return mk_int(tdiv(self.n, self.d))

    def __ceil__(self):
        return mk_int(tsub(0, tdiv(tsub(0, self.n), self.d)))

    def __trunc__(self):
        return self.__floor__() if decide(tle(0, self.n)) else self.__ceil__()

    __int__ = __trunc__

    def __round__(self, nd=None):
        # banker's rounding
        q = tdiv(self.n, self.d)
        r2 = tmul(tsub(self.n, tmul(q, self.d)), 2)
        if decide(tlt(r2, self.d)):
            return mk_int(q)
        if decide(tlt(self.d, r2)):
            return mk_int(tadd(q, 1))
        return mk_int(tite(teq(tmod(q, 2), 0), q, tadd(q, 1)))

    def is_integer(self):
        return mk_bool(teq(tmod(self.n, self.d), 0))

    def _cmp(self, o, f):
        if isinstance(o, SymRatio):
            return mk_bool(f(tmul(self.n, o.d), tmul(o.n, self.d)))
        if type(o) is float:
            if o != int(o):
                a, b = o.as_integer_ratio()
                return mk_bool(f(tmul(self.n, b), a * self.d))
            o = int(o)
        t = term_of(o)
        if t is None:
            return NotImplemented
        return mk_bool(f(self.n, tmul(t, self.d)))

    def __eq__(self, o):
        return self._cmp(o, teq)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: tnot(teq(a, b)))

    def __lt__(self, o):
        return self._cmp(o, tlt)

    def __le__(self, o):
        return self._cmp(o, tle)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: tlt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: tle(b, a))

    def __add__(self, o):
        if isinstance(o, SymRatio):
            return SymRatio(tadd(tmul(self.n, o.d), tmul(o.n, self.d)), self.d * o.d)
        if type(o) is float:
            a, b = o.as_integer_ratio()
            return SymRatio(tadd(tmul(self.n, b), a * self.d), self.d * b)
        t = term_of(o)
        if t is None:
            return NotImplemented
        return SymRatio(tadd(self.n, tmul(t, self.d)), self.d)

    __radd__ = __add__

    def __neg__(self):
        return SymRatio(tsub(0, self.n), self.d)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __bool__(self):
        return decide(tnot(teq(self.n, 0)))

    def __hash__(self):
        return hash(eng().concretize(self.n) / self.d)


# ------------------------------------------------------------------- blocks
class Block:
    """A sequence segment of symbolic length n with element access get(i)."""

    __slots__ = ("n", "key")

    def get(self, i):
        raise NotImplementedError

    def push_forall(self, P):
        raise NotImplementedError

    def sub(self, off, n):
        if isinstance(off, int) and off == 0 and self.key and teq(n, self.n) is True:
            return self
        return SubBlock(self, off, n)

    def skolem(self):
        """fresh index i with the constraint 0 <= i < n (as a term)"""
        i = eng().fresh("ix")
        return i, tand(tle(0, i), tlt(i, self.n))


class BaseBlock(Block):
    """An opaque input: uninterpreted Int -> Int, elements in `ranges`."""

    __slots__ = ("f", "ranges", "name")

    def __init__(self, name, n, ranges):
        self.name = name
        self.n = n
        self.ranges = ranges
        self.f = z3.Function("%s_%s" % (name, "_".join("%d.%d" % r for r in ranges)), z3.IntSort(), z3.IntSort())
        self.key = ("base", name)

    def get(self, i):
        e = eng()
        acc = e.cache(("acc", self.name))
        ti = iv(i)
        h = acc.get(ti.get_id())
        if h is not None:
            return h[1]
        x = self.f(ti)
        e.set_bounds(x, self.ranges[0][0], self.ranges[-1][1])
        e.add(z3.And(x >= self.ranges[0][0], x <= self.ranges[-1][1]))
        if len(self.ranges) > 1:
            e.add(z3.Or([z3.And(x >= a, x <= b) for a, b in self.ranges]))
        acc[ti.get_id()] = (ti, x)
        for P in list(e.universals.get(self.name, ())):
            c = P(i, x)
            if c is not True:
                e.add(c)
        return x

    def push_forall(self, P):
        e = eng()
        e.universals.setdefault(self.name, []).append(P)
        for ti, x in list(e.cache(("acc", self.name)).values()):
            i = ti.as_long() if z3.is_int_value(ti) else ti
            c = P(i, x)
            if c is not True:
                e.add(c)


def _imp(g, c):
    if g is True:
        return c
    return tor(tnot(g), c)


class SubBlock(Block):
    __slots__ = ("src", "off")

    def __init__(self, src, off, n):
        if isinstance(src, SubBlock):
            off = tadd(off, src.off)
            src = src.src
        self.src = src
        self.off = off
        self.n = n
        self.key = ("sub", src.key, off if isinstance(off, int) else ("t", off.get_id()), n if isinstance(n, int) else ("t", n.get_id()))

    def get(self, i):
        return self.src.get(tadd(i, self.off))

    def push_forall(self, P):
        off, n = self.off, self.n
        self.src.push_forall(
            lambda i, x: _imp(tand(tle(off, i), tlt(i, tadd(off, n))), P(tsub(i, off), x))
        )


class MapBlock(Block):
    __slots__ = ("src", "f")

    def __init__(self, src, f, name):
        self.src = src
        self.f = f
        self.n = src.n
        self.key = ("map", name, src.key)

    def get(self, i):
        return self.f(self.src.get(i))

    def push_forall(self, P):
        f = self.f
        self.src.push_forall(lambda i, x: P(i, f(x)))

    def sub(self, off, n):
        s = self.src.sub(off, n)
        return MapBlock(s, self.f, self.key[1])


class RevBlock(Block):
    __slots__ = ("src",)

    def __init__(self, src):
        self.src = src
        self.n = src.n
        self.key = ("rev", src.key)

    def get(self, i):
        return self.src.get(tsub(tsub(self.n, 1), i))

    def push_forall(self, P):
        self.src.push_forall(lambda i, x: P(tsub(tsub(self.n, 1), i), x))

    def sub(self, off, n):
        return RevBlock(self.src.sub(tsub(tsub(self.n, off), n), n))


class HexBlock(Block):
    """bytes -> lower-case hex characters"""

    __slots__ = ("src",)

    def __init__(self, src):
        self.src = src
        self.n = tmul(src.n, 2)
        self.key = ("hex", src.key)

    def get(self, i):
        s, off = self.src, 0
        if isinstance(s, SubBlock):
            s, off = s.src, s.off
        if isinstance(s, UnhexBlock):
            # the digits the bytes were made from
            return hexchar(hexval(s.src.get(tadd(i, tmul(off, 2)))))
        x = self.src.get(tdiv(i, 2))
        hi, lo = digits(x, 16, 2, "nb")
        par = teq(tmod(i, 2), 0)
        return tite(par, hexchar(hi), hexchar(lo))

    def push_forall(self, P):
        def Q(i, x):
            hi, lo = digits(x, 16, 2, "nb")
            return tand(P(tmul(i, 2), hexchar(hi)), P(tadd(tmul(i, 2), 1), hexchar(lo)))

        self.src.push_forall(Q)


class UnhexBlock(Block):
    """hex characters (known valid, even count) -> bytes"""

    __slots__ = ("src",)

    def __init__(self, src, n):
        self.src = src
        self.n = n
        self.key = ("unhex", src.key)

    def get(self, i):
        s = self.src
        if isinstance(s, MapBlock) and s.key[1] in ("up", "low"):
            s = s.src
        if isinstance(s, HexBlock):
            return s.src.get(i)
        a = self.src.get(tmul(i, 2))
        b = self.src.get(tadd(tmul(i, 2), 1))
        return undigits([hexval(a), hexval(b)], 16)

    def push_forall(self, P):
        src = self.src

        def Q(i, x):
            j = tdiv(i, 2)
            a = src.get(tmul(j, 2))
            b = src.get(tadd(tmul(j, 2), 1))
            return P(j, undigits([hexval(a), hexval(b)], 16))

        e = eng()
        depth = e.cache("uq").setdefault("d", 0)

        def R(i, x):
            c = e.cache("uq")
            if c["d"] >= 1:
                return True
            c["d"] += 1
            try:
                return Q(i, x)
            finally:
                c["d"] -= 1

        src.push_forall(R)


class CatBlock(Block):
    """Concatenation of parts seen as a single block."""

    __slots__ = ("parts",)

    def __init__(self, parts, n):
        self.parts = parts
        self.n = n
        self.key = ("cat",) + tuple(
            p.key if isinstance(p, Block) else tuple(u if isinstance(u, int) else ("t", u.get_id()) for u in p)
            for p in parts
        )

    def get(self, i):
        return rope_get(self.parts, i)

    def push_forall(self, P):
        cum = 0
        e = eng()
        for p in self.parts:
            if isinstance(p, Block):
                p.push_forall(lambda i, x, c=cum: P(tadd(i, c), x))
                cum = tadd(cum, p.n)
            else:
                for k, u in enumerate(p):
                    e.add(P(tadd(cum, k), u))
                cum = tadd(cum, len(p))


def rope_get(parts, i):
    """element at index i (0 <= i < length assumed)"""
    if len(parts) == 1:
        p = parts[0]
        if isinstance(p, Block):
            return p.get(i)
        if isinstance(i, int):
            return p[i] if 0 <= i < len(p) else 0
        t = p[-1]
        for k in range(len(p) - 2, -1, -1):
            t = tite(teq(i, k), p[k], t)
        return t
    p = parts[0]
    m = p.n if isinstance(p, Block) else len(p)
    c = tlt(i, m)
    if c is True:
        return rope_get(parts[:1], i)
    if c is False:
        return rope_get(parts[1:], tsub(i, m))
    return tite(c, rope_get(parts[:1], i), rope_get(parts[1:], tsub(i, m)))


def hexchar(n):
    """nibble -> lower-case hex character"""
    if isinstance(n, int):
        return ord("0123456789abcdef"[n])
    e = eng()
    c = e.cache("hexchar")
    k = n.get_id()
    if k not in c:
        r = tite(tlt(n, 10), tadd(n, 48), tadd(n, 87))
        c[k] = (n, r)
        if not isinstance(r, int):
            e.cache("hexval")[r.get_id()] = (r, n)
            # upper-casing keeps the nibble
            e.cache("hexlow")[r.get_id()] = (r, n)
    return c[k][1]


def hexchar_up(n):
    if isinstance(n, int):
        return ord("0123456789ABCDEF"[n])
    e = eng()
    c = e.cache("hexcharu")
    k = n.get_id()
    if k not in c:
        r = tite(tlt(n, 10), tadd(n, 48), tadd(n, 55))
        c[k] = (n, r)
        if not isinstance(r, int):
            e.cache("hexval")[r.get_id()] = (r, n)
            e.cache("hexup")[r.get_id()] = (r, n)
    return c[k][1]


def hexval(ch):
    """hex character (assumed valid) -> nibble"""
    if isinstance(ch, int):
        try:
            return int(chr(ch), 16)
        except ValueError:
            return 0
    e = eng()
    h = e.cache("hexval").get(ch.get_id())
    if h is not None:
        return h[1]
    r = tite(tlt(ch, 58), tsub(ch, 48), tite(tlt(ch, 71), tsub(ch, 55), tsub(ch, 87)))
    e.set_bounds(r, None, None)
    # value of a *valid* digit; used only under the validity constraint
    n = e.fresh("hx[0,15]", 0, 15)
    e.add(z3.Implies(bool_z(is_hex(ch)), n == r))
    e.cache("hexval")[ch.get_id()] = (ch, n)
    return n


def bool_z(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


HEXR = [(48, 57), (65, 70), (97, 102)]


def is_hex(ch):
    if not isinstance(ch, int) and ch.get_id() in eng().cache("hexval"):
        h = eng().cache("hexval")[ch.get_id()]
        if ch.get_id() in eng().cache("hexlow") or ch.get_id() in eng().cache("hexup"):
            return True
    return tin_ranges(ch, HEXR)


def forall(parts, P):
    """Fork on `every element satisfies P` (P: term -> bool term)."""
    us = [P(u) for p in parts if not isinstance(p, Block) for u in p]
    bl = [p for p in parts if isinstance(p, Block) and teq(p.n, 0) is not True]
    cu = tand(*us)
    if not bl:
        return decide(cu)
    if cu is False:
        return False
    # statically true for blocks? ask the solver for a counterexample index
    e = eng()
    ex = []
    for b in bl:
        i, rng = b.skolem()
        ex.append(tand(rng, tnot(P(b.get(i)))))
    bad = tor(tnot(cu), *ex)
    if bad is False:
        return True
    bad = z3.simplify(bad)
    if z3.is_false(bad):
        return True
    # q: chosen side.  True side gets the universal, False side the witness.
    q = e.fresh_bool("all")
    e.add(z3.Implies(z3.Not(q), bad))
    # when no counterexample exists the False side is infeasible
    if decide(q):
        e.add(cu)
        for b in bl:
            b.push_forall(lambda i, x, n=b.n: _imp(tand(tle(0, i), tlt(i, n)), P(x)))
        e.assume(z3.BoolVal(True)) if False else None
        return True
    return False


# ---------------------------------------------------------------- sequences
def seq_len(parts):
    n = 0
    for p in parts:
        n = tadd(n, p.n if isinstance(p, Block) else len(p))
    return n


def norm_parts(parts):
    out = []
    for p in parts:
        if isinstance(p, Block):
            if isinstance(p.n, int) and p.n == 0:
                continue
            if isinstance(p.n, int) and p.n <= 64:
                p = [p.get(i) for i in range(p.n)]
        if isinstance(p, Block):
            out.append(p)
        elif p:
            if out and not isinstance(out[-1], Block):
                out[-1] = out[-1] + list(p)
            else:
                out.append(list(p))
    return out


def pure(parts):
    """units list when no blocks, else None"""
    if not parts:
        return []
    if len(parts) == 1 and not isinstance(parts[0], Block):
        return parts[0]
    return None


def mk_bytes(parts):
    parts = norm_parts(parts)
    u = pure(parts)
    if u is not None and all(isinstance(x, int) for x in u):
        return bytes(u)
    return SymBytes(parts)


def mk_str(parts):
    parts = norm_parts(parts)
    u = pure(parts)
    if u is not None and all(isinstance(x, int) for x in u):
        return "".join(map(chr, u))
    return SymStr(parts)


def parts_of(x):
    """parts of any str/bytes-like (native or proxy), or None"""
    if isinstance(x, SymSeq):
        return x.parts
    t = type(x)
    if t is str:
        return [[ord(c) for c in x]] if x else []
    if t is bytes or t is bytearray:
        return [list(x)] if x else []
    if isinstance(x, str):
        return parts_of(str(x))
    if isinstance(x, (bytes, bytearray)):
        return parts_of(bytes(x))
    if type(x) is memoryview:
        return parts_of(bytes(x))
    return None


def is_strlike(x):
    return isinstance(x, str)


def is_byteslike(x):
    return isinstance(x, (bytes, bytearray, memoryview))


def rope_eq(a, b):
    """Equality term of two ropes (universally quantified parts are encoded
    with a free index, i.e. valid when refuted; see DESIGN)."""
    ua, ub = pure(a), pure(b)
    if ua is not None and ub is not None:
        if len(ua) != len(ub):
            return False
        return tand(*[teq(x, y) for x, y in zip(ua, ub)])
    na, nb = seq_len(a), seq_len(b)
    le = teq(na, nb)
    if le is not True and le is not False:
        le = z3.simplify(le)
        le = True if z3.is_true(le) else False if z3.is_false(le) else le
    if le is False:
        return False
    # structural alignment
    cs = [le]
    i = j = 0
    A, B = list(a), list(b)
    ok = True
    while A and B:
        p, q = A[0], B[0]
        if isinstance(p, Block) and isinstance(q, Block):
            if p.key == q.key and teq(p.n, q.n) is True:
                A.pop(0)
                B.pop(0)
                continue
            ok = False
            break
        if not isinstance(p, Block) and not isinstance(q, Block):
            k = min(len(p), len(q))
            cs += [teq(x, y) for x, y in zip(p[:k], q[:k])]
            A[0], B[0] = p[k:], q[k:]
            if not A[0]:
                A.pop(0)
            if not B[0]:
                B.pop(0)
            continue
        ok = False
        break
    if ok and not A and not B:
        return tand(*cs)
    e = eng()
    n = seq_len(A)
    ix = e.fresh("ix")
    rng = tand(tle(0, ix), tlt(ix, n))
    if not A or not B:
        return tand(*cs)  # lengths decide
    for m in (n, seq_len(B)):
        if isinstance(m, int) and m <= 64:
            # a constant number of elements: compared one by one
            return tand(*cs, *[teq(rope_get(A, i), rope_get(B, i)) for i in range(m)])
    x = rope_get(A, ix)
    y = rope_get(B, ix)
    return tand(*cs, _imp(rng, teq(x, y)))


def split_at(parts, pos):
    """(left, right) of a rope at position pos, 0 <= pos <= len."""
    if isinstance(pos, int) and pos == 0:
        return [], list(parts)
    left = []
    cum = 0
    for k, p in enumerate(parts):
        m = p.n if isinstance(p, Block) else len(p)
        end = tadd(cum, m)
        if decide(tle(end, pos)):
            left.append(p)
            cum = end
            continue
        off = tsub(pos, cum)
        if isinstance(off, int) and off == 0:
            return left, list(parts[k:])
        if isinstance(p, Block):
            if decide(tle(off, 0)):
                return left, list(parts[k:])
            l, r = p.sub(0, off), p.sub(off, tsub(m, off))
            return left + [l], [r] + list(parts[k + 1:])
        off = eng().concretize(off)
        return left + ([p[:off]] if off else []), [p[off:]] + list(parts[k + 1:])
    return left, []


class SymSeq(Proxy):
    __slots__ = ("_parts", "_thunk")

    def __init__(self, parts=None, thunk=None):
        self._parts = parts
        self._thunk = thunk

    @property
    def parts(self):
        if self._parts is None:
            self._parts = norm_parts(self._thunk())
            self._thunk = None
        return self._parts

    def is_concrete(self):
        u = pure(self.parts)
        return u is not None and all(isinstance(x, int) for x in u)

    def length(self):
        return seq_len(self.parts)

    def units(self):
        """List of element terms; forks on the length if it is symbolic."""
        u = pure(self.parts)
        if u is not None:
            return u
        out = []
        e = eng()
        for p in self.parts:
            if isinstance(p, Block):
                n = e.concretize(p.n, limit=48, why="block unrolling")
                out += [p.get(i) for i in range(n)]
            else:
                out += p
        return out

    def concrete(self):
        e = eng()
        return self._native([e.concretize(u) for u in self.units()])

    def __hash__(self):
        return hash(self.concrete())

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else eng().concretize(n)

    def __bool__(self):
        return decide(tlt(0, self.length()))

    def __iter__(self):
        u = pure(self.parts)
        if u is None:
            return self._iter_lazy()
        return iter([self._elem(x) for x in u])

    def _iter_lazy(self):
        i = 0
        n = self.length()
        while decide(tlt(i, n)):
            if i >= 48:
                eng().note_incomplete("loop unwinding bound 48")
                raise PathCut("unwind")
            yield self._elem(rope_get(self.parts, i))
            i += 1

    def __reversed__(self):
        return iter([self._elem(x) for x in reversed(self.units())])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        t = term_of(k)
        if t is None:
            raise TypeError("indices must be integers or slices, not %s" % type(k).__name__)
        n = self.length()
        if decide(tlt(t, 0)):
            t = tadd(t, n)
        if not decide(tand(tle(0, t), tlt(t, n))):
            raise IndexError("index out of range")
        return self._elem(rope_get(self.parts, t))

    def _slice_parts(self, k):
        step = k.step
        if step is not None:
            step = concrete(step)
            if step == 0:
                raise ValueError("slice step cannot be zero")
        n = self.length()
        st, en = k.start, k.stop
        st = None if st is None else term_of(st) if term_of(st) is not None else st.__index__()
        en = None if en is None else term_of(en) if term_of(en) is not None else en.__index__()
        if (step is None or step == 1):
            u = pure(self.parts)
            if u is not None and (st is None or isinstance(st, int)) and (en is None or isinstance(en, int)):
                return [u[st:en]]

            def clamp(x, d):
                if x is None:
                    return d
                if decide(tlt(x, 0)):
                    x = tadd(x, n)
                    if decide(tlt(x, 0)):
                        return 0
                    return x
                if not decide(tle(x, n)):
                    return n
                return x

            a = clamp(st, 0)
            b = clamp(en, n)
            if decide(tle(b, a)):
                return []
            left, _ = split_at(self.parts, b)
            _, right = split_at(left, a)
            return right
        if step == -1 and st is None and en is None and pure(self.parts) is None:
            return [RevBlock(p) if isinstance(p, Block) else p[::-1] for p in reversed(self.parts)]
        u = self.units()
        if st is not None and not isinstance(st, int):
            st = eng().concretize(st)
        if en is not None and not isinstance(en, int):
            en = eng().concretize(en)
        return [u[st:en:step]]

    def _slice(self, k):
        return self._make(self._slice_parts(k))

    # -- comparison
    def _other(self, o):
        raise NotImplementedError

    def __eq__(self, o):
        p = self._other(o)
        if p is None:
            return NotImplemented
        return mk_bool(rope_eq(self.parts, p))

    def __ne__(self, o):
        p = self._other(o)
        if p is None:
            return NotImplemented
        return mk_bool(tnot(rope_eq(self.parts, p)))

    def _lt(self, a, b, strict):
        """lexicographic a < b (or <=) on unit lists"""
        r = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            r = tor(tlt(x, y), tand(teq(x, y), r))
        return r

    def _cmpu(self, o):
        p = self._other(o)
        if p is None:
            return None
        return self.units(), self._make(p).units() if isinstance(self._make(p), SymSeq) else (pure(norm_parts(p)))

    def __lt__(self, o):
        c = self._cmpu(o)
        return NotImplemented if c is None else mk_bool(self._lt(c[0], c[1], True))

    def __le__(self, o):
        c = self._cmpu(o)
        return NotImplemented if c is None else mk_bool(self._lt(c[0], c[1], False))

    def __gt__(self, o):
        c = self._cmpu(o)
        return NotImplemented if c is None else mk_bool(self._lt(c[1], c[0], True))

    def __ge__(self, o):
        c = self._cmpu(o)
        return NotImplemented if c is None else mk_bool(self._lt(c[1], c[0], False))

    def __add__(self, o):
        p = self._other(o)
        if p is None:
            return NotImplemented
        return self._make(list(self.parts) + list(p))

    def __radd__(self, o):
        p = self._other(o)
        if p is None:
            return NotImplemented
        r = list(p) + list(self.parts)
        if isinstance(o, bytearray) or isinstance(o, str):
            return self._make(r) if not isinstance(o, bytearray) else SymByteArray(norm_parts(r))
        return mk_bytes(r)

    def __mul__(self, k):
        t = term_of(k)
        if t is None:
            return NotImplemented
        k = concrete(mk_int(t))
        return self._make(list(self.parts) * max(0, k))

    __rmul__ = __mul__

    def __contains__(self, x):
        return bool(seq_contains(self, x))

    def __repr__(self):
        return "<%s>" % type(self).__name__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        base = self._base
        if not hasattr(base, name):
            raise AttributeError("'%s' object has no attribute '%s'" % (base.__name__, name))

        def method(*a, **k):
            eng().note_fallback("%s.%s" % (base.__name__, name))
            return getattr(self.concrete(), name)(*concrete(a), **{n: concrete(v) for n, v in k.items()})

        return method

    # -- shared methods
    def _affix(self, x):
        p = self._other(x)
        if p is None:
            raise TypeError("expected %s" % self._base.__name__)
        return p

    def startswith(self, x, *rest):
        if rest:
            return self[slice(*rest[:2])].startswith(x) if len(rest) == 2 else self[rest[0]:].startswith(x)
        if isinstance(x, tuple):
            return mk_bool(tor(*[bool_of(self.startswith(y)) for y in x]))
        p = norm_parts(self._affix(x))
        n = seq_len(p)
        if not decide(tle(n, self.length())):
            return False
        left, _ = split_at(self.parts, n)
        return mk_bool(rope_eq(norm_parts(left), p))

    def endswith(self, x, *rest):
        if rest:
            return self[slice(*rest[:2])].endswith(x) if len(rest) == 2 else self[rest[0]:].endswith(x)
        if isinstance(x, tuple):
            return mk_bool(tor(*[bool_of(self.endswith(y)) for y in x]))
        p = norm_parts(self._affix(x))
        n = seq_len(p)
        L = self.length()
        if not decide(tle(n, L)):
            return False
        _, right = split_at(self.parts, tsub(L, n))
        return mk_bool(rope_eq(norm_parts(right), p))

    def removeprefix(self, x):
        if decide(bool_of(self.startswith(x))):
            return self[mk_int(seq_len(norm_parts(self._affix(x)))):]
        return self._make(self.parts)

    def removesuffix(self, x):
        n = seq_len(norm_parts(self._affix(x)))
        if n != 0 and decide(bool_of(self.endswith(x))):
            return self[: mk_int(tsub(self.length(), n))]
        return self._make(self.parts)

    def _find_long(self, q, last=False):
        """index of an element in a sequence of symbolic length: a fresh integer"""
        e = eng()
        parts = norm_parts(self.parts)
        P = lambda x: tnot(teq(x, q))
        if forall(parts, P):
            return -1
        n = seq_len(parts)
        k = e.fresh("at", 0, e.bounds(n)[1] if not isinstance(n, int) else n)
        e.assume(tand(tlt(k, n), teq(rope_get(parts, k), q)))
        beyond = (lambda i: tlt(k, i)) if last else (lambda i: tlt(i, k))
        cum = 0
        for p in parts:
            if isinstance(p, Block):
                p.push_forall(lambda i, x, n=p.n, c=cum: _imp(tand(tle(0, i), tlt(i, n), beyond(tadd(i, c))), P(x)))
                cum = tadd(cum, p.n)
            else:
                e.assume(tand(*[_imp(beyond(tadd(cum, j)), P(x)) for j, x in enumerate(p)]))
                cum = tadd(cum, len(p))
        return mk_int(k)

    def _one(self, x):
        """the searched element when there is exactly one"""
        t = term_of(x)
        if t is not None and is_byteslike(self):
            return t
        p = pure(norm_parts(self._affix(x)))
        return p[0] if p is not None and len(p) == 1 else None

    def find(self, x, start=0, end=None):
        if start != 0 or end is not None:
            off = concrete(start)
            r = self[start:end].find(x)
            return r if r == -1 else r + off
        if pure(self.parts) is None and self._one(x) is not None:
            return self._find_long(self._one(x))
        t = term_of(x)
        u = self.units()
        if t is not None and is_byteslike(self):
            p = [t]
        else:
            p = pure(norm_parts(self._affix(x)))
            if p is None:
                p = self._make(self._affix(x)).units()
        for i in range(0, len(u) - len(p) + 1):
            if decide(tand(*[teq(a, b) for a, b in zip(u[i:i + len(p)], p)])):
                return i
        return -1

    def rfind(self, x, start=0, end=None):
        if start != 0 or end is not None:
            off = concrete(start)
            r = self[start:end].rfind(x)
            return r if r == -1 else r + off
        if pure(self.parts) is None and self._one(x) is not None:
            return self._find_long(self._one(x), True)
        t = term_of(x)
        u = self.units()
        if t is not None and is_byteslike(self):
            p = [t]
        else:
            p = pure(norm_parts(self._affix(x)))
            if p is None:
                p = self._make(self._affix(x)).units()
        for i in range(len(u) - len(p), -1, -1):
            if decide(tand(*[teq(a, b) for a, b in zip(u[i:i + len(p)], p)])):
                return i
        return -1

    def rindex(self, x, *a):
        r = self.rfind(x, *a)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def rpartition(self, sep):
        i = self.rfind(sep)
        e = self._make([])
        if i == -1:
            return (e, self._make([]), self._make(self.parts))
        return (self[:i], self._make(parts_of(sep)), self[i + len(sep):])

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit == 0:
            if maxsplit < 0:
                return self.split(sep)
            eng().note_fallback("rsplit")
            return self.concrete().rsplit(None, concrete(maxsplit))
        out = []
        rest = self
        while maxsplit != 0:
            i = rest.rfind(sep)
            if i == -1:
                break
            out.append(rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
            if not isinstance(rest, SymSeq):
                if maxsplit != 0:
                    out += rest.rsplit(sep, maxsplit)[::-1]
                    return out[::-1]
                break
        out.append(rest)
        return out[::-1]

    def _space(self, c):
        return tin_ranges(c, C.ranges_for(c, "isspace") if self._base is str else C.ascii_ranges("isspace"))

    def splitlines(self, keepends=False):
        u = self.units()
        brk = [(10, 10), (13, 13)] if self._base is not str else [(10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029)]
        out = []
        cur = []
        i = 0
        while i < len(u):
            c = u[i]
            if decide(tin_ranges(c, brk)):
                end = [c]
                if decide(teq(c, 13)) and i + 1 < len(u) and decide(teq(u[i + 1], 10)):
                    i += 1
                    end.append(u[i])
                out.append(self._make([cur + end if keepends else cur]))
                cur = []
                pending = False
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(self._make([cur]))
        return out

    def swapcase(self):
        if self._base is str and not decide(bool_of(self.isascii())):
            return self._native_wrap(self.concrete().swapcase())
        f = lambda c: tite(tand(tle(97, c), tle(c, 122)), tsub(c, 32), tite(tand(tle(65, c), tle(c, 90)), tadd(c, 32), c))
        return self._make([MapBlock(p, f, "swap") if isinstance(p, Block) else [f(c) for c in p] for p in self.parts])

    def capitalize(self):
        if self._base is str and not decide(bool_of(self.isascii())):
            return self._native_wrap(self.concrete().capitalize())
        n = self.units()
        if not n:
            return self._make([])
        a, b = self._make([n[:1]]).upper(), self._make([n[1:]]).lower()
        return a + b

    def _cased(self, up):
        """isupper / islower"""
        u = self.units()
        if self._base is str and not decide(tand(*[tlt(c, 128) for c in u])):
            lo = lambda c: tin_ranges(c, C.char_ranges("islower"))
            hi = lambda c: tin_ranges(c, C.char_ranges("isupper"))
            ti = lambda c: tin_ranges(c, C.char_ranges("istitle"))
            want, other = (hi, lo) if up else (lo, hi)
            return mk_bool(tand(tor(*[want(c) for c in u]), *[tnot(tor(other(c), tand(ti(c), tnot(hi(c))))) for c in u]))
        lo = lambda c: tand(tle(97, c), tle(c, 122))
        hi = lambda c: tand(tle(65, c), tle(c, 90))
        want, other = (hi, lo) if up else (lo, hi)
        return mk_bool(tand(tor(*[want(c) for c in u]), *[tnot(other(c)) for c in u]))

    def expandtabs(self, tabsize=8):
        tabsize = concrete(tabsize)
        out, col = [], 0
        for c in self.units():
            if decide(teq(c, 9)):
                k = tabsize - col % tabsize if tabsize > 0 else 0
                out += [32] * k
                col += k
            else:
                out.append(c)
                col = 0 if decide(tor(teq(c, 10), teq(c, 13))) else col + 1
        return self._make([out])

    def title(self):
        u = self.units()
        if self._base is str and not decide(tand(*[tlt(c, 128) for c in u])):
            return self.concrete().title()
        out, inside = [], False
        for c in u:
            one = self._make([[c]])
            p = parts_of(one.lower() if inside else one.upper())
            out += list(p)
            inside = decide(tor(tand(tle(97, c), tle(c, 122)), tand(tle(65, c), tle(c, 90))))
        return self._make(out)

    def isupper(self):
        return self._cased(True)

    def islower(self):
        return self._cased(False)

    def index(self, x, *a):
        r = self.find(x, *a)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def count(self, x, *rest):
        if rest:
            return self[slice(*rest)].count(x) if len(rest) == 2 else self[rest[0]:].count(x)
        u = self.units()
        t = term_of(x)
        p = [t] if t is not None else pure(norm_parts(self._affix(x)))
        if p is not None and len(p) == 1:
            return mk_int(simp(sum([tite(teq(a, p[0]), z3.IntVal(1), z3.IntVal(0)) if not isinstance(teq(a, p[0]), bool) else int(teq(a, p[0])) for a in u], 0)))
        eng().note_fallback("count")
        return self.concrete().count(concrete(x))

    def _pad(self, width, fill, left, right):
        width = concrete(width)
        n = self.length()
        f = pure(norm_parts(self._affix(fill)))
        if f is None or len(f) != 1:
            raise TypeError("The fill character must be exactly one character long")
        if not isinstance(n, int):
            if decide(tle(width, n)):
                return self._make(self.parts)
            n = eng().concretize(n)
        k = max(0, width - n)
        if left and right:
            l = k // 2 + (k & width & 1)
            return self._make([f * l] + list(self.parts) + [f * (k - l)])
        return self._make(([f * k] if left else []) + list(self.parts) + ([f * k] if right else []))

    def _fillc(self):
        return " " if self._base is str else b" "

    def rjust(self, w, fill=None):
        return self._pad(w, fill if fill is not None else self._fillc(), True, False)

    def ljust(self, w, fill=None):
        return self._pad(w, fill if fill is not None else self._fillc(), False, True)

    def center(self, w, fill=None):
        return self._pad(w, fill if fill is not None else self._fillc(), True, True)

    def zfill(self, w):
        u = pure(self.parts)
        if u is None:
            n = self.length()
            if decide(tle(concrete(w), n)):
                return self._make(self.parts)
            u = self.units()
        if u and decide(tor(teq(u[0], 43), teq(u[0], 45))):
            return self._make([u[:1], [48] * max(0, concrete(w) - len(u)), u[1:]])
        return self._make([[48] * max(0, concrete(w) - len(u)), u])

    def _strip_blocks(self, P, left, right):
        """strip for sequences of symbolic length: the number of stripped
        elements is a fresh integer"""
        e = eng()
        parts = norm_parts(self.parts)
        for end in ([0] if left else []) + ([1] if right else []):
            n = seq_len(parts)
            if not decide(tlt(0, n)):
                return self._make(parts)
            if not decide(P(rope_get(parts, tsub(n, 1) if end else 0))):
                continue
            k = e.fresh("strip", 1, e.bounds(n)[1] if not isinstance(n, int) else n)
            e.assume(tle(k, n))
            a, b = split_at(parts, tsub(n, k) if end else k)
            gone, parts = (b, a) if end else (a, b)
            gone, parts = norm_parts(gone), norm_parts(parts)
            for p in gone:
                if isinstance(p, Block):
                    p.push_forall(lambda i, x, n=p.n: _imp(tand(tle(0, i), tlt(i, n)), P(x)))
                else:
                    e.assume(tand(*[P(x) for x in p]))
            m = seq_len(parts)
            if decide(tlt(0, m)):
                e.assume(tnot(P(rope_get(parts, tsub(m, 1) if end else 0))))
        return self._make(parts)

    def _strip(self, chars, left, right):
        if chars is None:
            P = (lambda c: tin_ranges(c, C.ranges_for(c, "isspace"))) if self._base is str else (
                lambda c: tin_ranges(c, [(9, 13), (32, 32)])
            )
        else:
            cs = pure(norm_parts(self._affix(chars)))
            if cs is None:
                return self._native_wrap(self.concrete().strip(concrete(chars))) if left and right else (
                    self._native_wrap(self.concrete().lstrip(concrete(chars)) if left else self.concrete().rstrip(concrete(chars)))
                )
            P = lambda c: tor(*[teq(c, x) for x in cs])
        if pure(self.parts) is None:
            return self._strip_blocks(P, left, right)
        u = list(self.units())
        while left and u and decide(P(u[0])):
            u.pop(0)
        while right and u and decide(P(u[-1])):
            u.pop()
        return self._make([u])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out += self.parts
            first = False
            p = self._other(x)
            if p is None:
                raise TypeError("sequence item: expected %s instance, %s found" % (self._base.__name__, x.__class__.__name__))
            out += p
        return self._make(out)

    def replace(self, a, b, count=-1):
        pa = pure(norm_parts(self._affix(a)))
        pb = norm_parts(self._affix(b))
        if pa is None or len(pa) == 0 or not isinstance(count, int) or getattr(type(count), "_sx", 0):
            eng().note_fallback("replace")
            return self._native_wrap(self.concrete().replace(concrete(a), concrete(b), concrete(count)))
        u = self.units()
        out = []
        i = 0
        k = 0
        while i < len(u):
            if (count < 0 or k < count) and i + len(pa) <= len(u) and decide(tand(*[teq(x, y) for x, y in zip(u[i:], pa)])):
                out += pb
                i += len(pa)
                k += 1
            else:
                out.append([u[i]])
                i += 1
        return self._make(out)

    def _native_wrap(self, v):
        return self._make(parts_of(v))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            u = self.units()
            out = []
            i = 0
            maxsplit = concrete(maxsplit)
            while i < len(u):
                if decide(self._space(u[i])):
                    i += 1
                    continue
                if maxsplit == 0:
                    rest = self._make([u[i:]])
                    out.append(rest.rstrip())
                    break
                j = i + 1
                while j < len(u) and not decide(self._space(u[j])):
                    j += 1
                out.append(self._make([u[i:j]]))
                maxsplit -= 1
                i = j
            return out
        out = []
        rest = self
        p = pure(norm_parts(self._affix(sep)))
        while maxsplit != 0:
            i = rest.find(sep)
            if i == -1:
                break
            out.append(rest[:i])
            rest = rest[i + len(p):]
            maxsplit -= 1
            if not isinstance(rest, SymSeq):
                out += rest.split(sep, maxsplit) if maxsplit != 0 else [rest]
                return out
        out.append(rest)
        return out

    def partition(self, sep):
        i = self.find(sep)
        e = self._make([])
        if i == -1:
            return (self._make(self.parts), e, self._make([]))
        return (self[:i], self._make(parts_of(sep)), self[i + len(sep):])

    # character predicates
    def _pred(self, name, empty=False):
        n = self.length()
        if isinstance(n, int):
            if n == 0:
                return empty
        elif not decide(tlt(0, n)):
            return empty
        if self._base is str:
            P = lambda c: tin_ranges(c, C.ranges_for(c, name))
        else:
            P = lambda c: tin_ranges(c, C.ascii_ranges(name))
        u = pure(self.parts)
        if u is not None:
            return mk_bool(tand(*[P(x) for x in u]))
        return forall(self.parts, P)

    def isdigit(self):
        return self._pred("isdigit")

    def isalpha(self):
        return self._pred("isalpha")

    def isalnum(self):
        return self._pred("isalnum")

    def isspace(self):
        return self._pred("isspace")

    def isascii(self):
        u = pure(self.parts)
        P = lambda c: tlt(c, 128)
        if u is not None:
            return mk_bool(tand(*[P(x) for x in u]))
        return forall(self.parts, P)

    def _case(self, up):
        e = eng()

        def f(c):
            if isinstance(c, int) and c < 128:
                return ord(chr(c).upper()) if up else ord(chr(c).lower())
            if not isinstance(c, int):
                low = e.cache("hexlow").get(c.get_id())
                if low is not None:
                    return hexchar_up(low[1]) if up else c
                if e.cache("hexup").get(c.get_id()) is not None:
                    return c if up else hexchar(e.cache("hexup")[c.get_id()][1])
            if up:
                return tite(tand(tle(97, c), tle(c, 122)), tsub(c, 32), c)
            return tite(tand(tle(65, c), tle(c, 90)), tadd(c, 32), c)

        out = []
        for p in self.parts:
            if isinstance(p, Block):
                runs = C.case_runs(up) if self._base is str else None
                if self._base is str and not forall([p], lambda c: tlt(c, 128)):
                    if forall([p], lambda c: C.run_valid(c, runs)):
                        out.append(MapBlock(p, lambda c: C.run_map(c, runs), "UP" if up else "LOW"))
                        continue
                    e.note_incomplete("case mapping of a long non-ASCII text")
                    raise PathCut("case mapping of non-ASCII block")
                out.append(MapBlock(p, f, "up" if up else "low"))
            else:
                us = []
                for c in p:
                    if self._base is str and (isinstance(c, int) and c >= 128 or (not isinstance(c, int) and not decide(tlt(c, 128)))):
                        if not isinstance(c, int) and decide(C.run_valid(c, C.case_runs(up))):
                            us.append(C.run_map(c, C.case_runs(up)))
                            continue
                        v = e.concretize(c)
                        if v == 0x3A3 and not up:
                            # final sigma depends on its neighbours
                            return self._native_wrap(self.concrete().lower())
                        us += [ord(x) for x in (chr(v).upper() if up else chr(v).lower())]
                    else:
                        us.append(f(c))
                out.append(us)
        return self._make(out)

    def upper(self):
        return self._case(True)

    def lower(self):
        return self._case(False)


def seq_contains(c, x):
    """`x in c` for str/bytes-like c"""
    pc = norm_parts(parts_of(c))
    if is_strlike(c):
        if not is_strlike(x):
            raise TypeError("'in <string>' requires string as left operand")
        px = norm_parts(parts_of(x))
    else:
        t = term_of(x)
        if t is not None:
            if not decide(tand(tle(0, t), tlt(t, 256))):
                raise ValueError("byte must be in range(0, 256)")
            px = [[t]]
        else:
            px = norm_parts(parts_of(x))
    u, p = pure(pc), pure(px)
    if u is None:
        if p is not None and len(p) == 1:
            q = p[0]
            return not forall(pc, lambda e: tnot(teq(e, q)))
        u = SymBytes(pc).units()
    if p is None:
        p = SymBytes(px).units()
    cs = []
    for i in range(0, len(u) - len(p) + 1):
        cs.append(tand(*[teq(a, b) for a, b in zip(u[i:i + len(p)], p)]))
    return mk_bool(tor(*cs))


class SymStr(SymSeq):
    __slots__ = ()
    _base = str

    @property
    def __class__(self):
        return str

    @staticmethod
    def _native(u):
        return "".join(map(chr, u))

    @staticmethod
    def _make(parts):
        return mk_str(parts)

    @staticmethod
    def _elem(u):
        return mk_str([[u]])

    def _other(self, o):
        if isinstance(o, str):
            return parts_of(o)
        return None

    def __str__(self):
        return self.concrete()

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def isnumeric(self):
        return self._pred("isnumeric")

    def isdecimal(self):
        return self._pred("isdecimal")

    def isprintable(self):
        return self._pred("isprintable", empty=True)

    def casefold(self):
        if not forall(self.parts, lambda c: tlt(c, 128)):
            return self.concrete().casefold()
        return self.lower()

    def encode(self, encoding="utf-8", errors="strict"):
        from .models import str_encode

        return str_encode(self, encoding, errors)

    def translate(self, table):
        if pure(self.parts) is None and hasattr(table, "keys"):
            if forall(self.parts, lambda t: tnot(tor(*[teq(t, k) for k in table]))):
                return self._make(self.parts)
        out = []
        for u in self.units():
            if isinstance(u, int):
                out.append(parts_of(chr(u).translate(table)))
                continue
            done = False
            for k, v in dict(table).items():
                if decide(teq(u, k)):
                    out.append(parts_of(v) if isinstance(v, str) else ([[v]] if v is not None else []))
                    done = True
                    break
            if not done:
                out.append([[u]])
        return mk_str([q for p in out for q in (p or [])])

    def format(self, *a, **k):
        from .models import str_format

        return str_format(self.concrete(), a, k)

    def __mod__(self, o):
        from .models import percent_format

        return percent_format(self.concrete(), o)


class SymBytes(SymSeq):
    __slots__ = ()
    _base = bytes

    @property
    def __class__(self):
        return bytes

    @staticmethod
    def _native(u):
        return bytes(u)

    @staticmethod
    def _make(parts):
        return mk_bytes(parts)

    @staticmethod
    def _elem(u):
        return mk_int(u)

    def _other(self, o):
        if isinstance(o, (bytes, bytearray, memoryview)):
            return parts_of(o)
        return None

    def translate(self, table, /, delete=b""):
        table, delete = concrete(table), bytes(concrete(delete))
        if table is None:
            table = bytes(range(256))
        elif len(table) != 256:
            raise ValueError("translation table must be 256 characters long")
        # runs of constant displacement
        runs, lo = [], 0
        for c in range(1, 257):
            if c == 256 or table[c] - c != table[lo] - lo:
                runs.append((lo, c - 1, table[lo] - lo))
                lo = c
        f = lambda t: table[t] if isinstance(t, int) else tree_map(t, [(a, b, lambda u, d=d: tadd(u, d)) for a, b, d in runs])
        if pure(self.parts) is None and (not delete or forall(self.parts, lambda t: tnot(tin_ranges(t, [(x, x) for x in sorted(set(delete))])))):
            return self._make([MapBlock(p, f, ("tr", bytes(table))) if isinstance(p, Block) else [f(t) for t in p] for p in self.parts])
        out = []
        for t in self.units():
            if isinstance(t, int):
                if t not in delete:
                    out.append(table[t])
            elif not (delete and decide(tin_ranges(t, [(x, x) for x in sorted(set(delete))]))):
                out.append(tree_map(t, [(a, b, lambda u, d=d: tadd(u, d)) for a, b, d in runs]))
        return self._make([out])

    def __bytes__(self):
        return self.concrete()

    def __str__(self):
        return str(self.concrete())

    def decode(self, encoding="utf-8", errors="strict"):
        from .models import bytes_decode

        return bytes_decode(self, encoding, errors)

    def hex(self, *sep):
        if sep:
            ch = concrete(sep[0])
            per = concrete(sep[1]) if len(sep) > 1 else 1
            ch = ch if isinstance(ch, str) else ch.decode("latin-1")
            if len(ch) != 1:
                raise ValueError("sep must be length 1.")
            us = self.units()
            out = []
            for i, b in enumerate(us):
                k = (len(us) - i) % per if per > 0 else (i % -per if per else 1)
                if i and per and k == 0:
                    out.append([ord(ch)])
                hi, lo = byte_nibbles(b)
                out.append([hexchar(hi), hexchar(lo)])
            return mk_str(out)
        out = []
        for p in self.parts:
            if isinstance(p, Block):
                if isinstance(p, UnhexBlock):
                    pass
                out.append(HexBlock(p))
            else:
                us = []
                for b in p:
                    hi, lo = byte_nibbles(b)
                    us += [hexchar(hi), hexchar(lo)]
                out.append(us)
        return mk_str(out)

    def tobytes(self):
        return mk_bytes(self.parts)


def byte_nibbles(b):
    if isinstance(b, int):
        return b >> 4, b & 15
    h = eng().cache("bits").get(b.get_id())
    if h is not None and len(h[1]) == 8:
        return from_bits(h[1][4:]), from_bits(h[1][:4])
    return digits(b, 16, 2, "nb")


class SymView(SymBytes):
    __slots__ = ()

    @property
    def __class__(self):
        return memoryview

    @staticmethod
    def _make(parts):
        return SymView(norm_parts(parts))

    def release(self):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    @property
    def nbytes(self):
        return mk_int(self.length())

    def tolist(self):
        return [mk_int(u) for u in self.units()]


class SymByteArray(SymBytes):
    """Mutable; every bytearray made by instrumented code is one of these."""

    __slots__ = ()
    _base = bytearray

    @property
    def __class__(self):
        return bytearray

    @staticmethod
    def _native(u):
        return bytearray(u)

    @staticmethod
    def _make(parts):
        return SymByteArray(norm_parts(parts))

    __hash__ = None

    def __copy__(self):
        return SymByteArray(list(self.parts))

    def __deepcopy__(self, memo):
        return SymByteArray(list(self.parts))

    def copy(self):
        return SymByteArray(list(self.parts))

    def __iadd__(self, o):
        if isinstance(o, (bytes, bytearray, memoryview)):
            self._parts = norm_parts(list(self.parts) + list(parts_of(o)))
            return self
        if isinstance(o, (int, str)):
            raise TypeError("can't concat %s to bytearray" % o.__class__.__name__)
        self.extend(o)
        return self

    def __imul__(self, k):
        self._parts = norm_parts(list(self.parts) * max(0, concrete(k)))
        return self

    def _byte(self, v):
        t = term_of(v)
        if t is None:
            raise TypeError("'%s' object cannot be interpreted as an integer" % v.__class__.__name__)
        if not decide(tand(tle(0, t), tlt(t, 256))):
            raise ValueError("byte must be in range(0, 256)")
        return t

    def append(self, v):
        self._parts = norm_parts(list(self.parts) + [[self._byte(v)]])

    def extend(self, it):
        if isinstance(it, (bytes, bytearray, memoryview)):
            self._parts = norm_parts(list(self.parts) + list(parts_of(it)))
        else:
            if isinstance(it, str):
                raise TypeError("expected iterable of integers; got: 'str'")
            self._parts = norm_parts(list(self.parts) + [[self._byte(v) for v in it]])

    def insert(self, i, v):
        u = list(self.units())
        u.insert(concrete(i), self._byte(v))
        self._parts = norm_parts([u])

    def pop(self, i=-1):
        u = list(self.units())
        r = u.pop(concrete(i))
        self._parts = norm_parts([u])
        return mk_int(r)

    def clear(self):
        self._parts = []

    def reverse(self):
        self._parts = norm_parts([list(reversed(self.units()))])

    def __setitem__(self, k, v):
        u = list(self.units())
        if isinstance(k, slice):
            k = concrete(k)
            if isinstance(v, (bytes, bytearray, memoryview)):
                vu = pure(norm_parts(parts_of(v)))
                if vu is None:
                    vu = v.units()
            else:
                vu = [self._byte(x) for x in v]
            u[k] = vu
            self._parts = norm_parts([u])
            return
        b = self._byte(v)
        t = term_of(k)
        if t is None:
            raise TypeError("bytearray indices must be integers or slices")
        if isinstance(t, int):
            u[t] = b
        else:
            if decide(tlt(t, 0)):
                t = tadd(t, len(u))
            if not decide(tand(tle(0, t), tlt(t, len(u)))):
                raise IndexError("bytearray index out of range")
            u = [tite(teq(t, i), b, x) for i, x in enumerate(u)]
        self._parts = norm_parts([u])

    def __delitem__(self, k):
        u = list(self.units())
        del u[concrete(k)]
        self._parts = norm_parts([u])
