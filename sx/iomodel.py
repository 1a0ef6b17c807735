"""io.StringIO / io.BytesIO over symbolic text and bytes."""
from .engine import eng, PathCut
from .terms import *
from .values import *


class _SymIO(Proxy):
    _kind = str
    _cls = None

    def __init__(self, initial=None, newline="\n"):
        empty = "" if self._kind is str else b""
        if initial is None:
            initial = empty
        if self._kind is str and not isinstance(initial, str):
            raise TypeError("initial_value must be str or None, not %s" % initial.__class__.__name__)
        if self._kind is bytes and not isinstance(initial, (bytes, bytearray, memoryview)):
            raise TypeError("a bytes-like object is required, not '%s'" % initial.__class__.__name__)
        if self._kind is str and newline != "\n":
            raise PathCut("newline translation")
        self._data = norm_parts(list(parts_of(initial)))
        self._pend = []
        self._pos = None  # None: at the end
        self._start = True
        if seq_len(self._data) != 0:
            self._pos = 0
        self.closed = False

    def _mk(self, parts):
        return mk_str(parts) if self._kind is str else mk_bytes(parts)

    def _all(self):
        if self._pend:
            self._data = norm_parts(self._data + self._pend)
            self._pend = []
        return self._data

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def _at(self):
        return seq_len(self._all()) if self._pos is None else self._pos

    def write(self, s):
        self._open()
        if self._kind is str and not isinstance(s, str):
            raise TypeError("string argument expected, got %r" % s.__class__.__name__)
        if self._kind is bytes and not isinstance(s, (bytes, bytearray, memoryview)):
            raise TypeError("a bytes-like object is required, not '%s'" % s.__class__.__name__)
        p = list(parts_of(s))
        n = seq_len(norm_parts(p))
        if self._pos is None:
            self._pend += p
            return mk_int(n)
        d = self._all()
        L = seq_len(d)
        if decide(tle(L, self._pos)):
            gap = tsub(L, self._pos)
            pad = concrete(mk_int(tsub(self._pos, L)))
            self._data = norm_parts(d + [[0] * pad] + p)
            self._pos = None
            return mk_int(n)
        left, rest = split_at(d, self._pos)
        end = tadd(self._pos, n)
        if decide(tle(L, end)):
            self._data = norm_parts(list(left) + p)
            self._pos = None
        else:
            _, right = split_at(d, end)
            self._data = norm_parts(list(left) + p + list(right))
            self._pos = end
        return mk_int(n)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def getvalue(self):
        self._open()
        return self._mk(list(self._all()))

    def getbuffer(self):
        return SymView(norm_parts(list(self._all())))

    def read(self, n=-1):
        self._open()
        if n is None:
            n = -1
        t = term_of(n)
        if t is None:
            raise TypeError("argument should be integer or None, not '%s'" % n.__class__.__name__)
        if self._pos is None:
            return self._mk([])
        d = self._all()
        L = seq_len(d)
        if decide(tle(L, self._pos)):
            return self._mk([])
        _, right = split_at(d, self._pos)
        if decide(tlt(t, 0)) or decide(tle(tsub(L, self._pos), t)):
            self._pos = L
            return self._mk(list(right))
        a, _ = split_at(norm_parts(list(right)), t)
        self._pos = tadd(self._pos, t)
        return self._mk(list(a))

    read1 = read

    def readinto(self, buf):
        r = self.read(len(buf))
        buf[: len(r)] = r
        return len(r)

    def readline(self, n=-1):
        rest = self.read()
        if self._kind is str:
            i = rest.find("\n")
        else:
            i = rest.find(b"\n")
        if i >= 0:
            back = len(rest) - i - 1
            self._pos = tsub(seq_len(self._all()), back)
            rest = rest[: i + 1]
        return rest

    def __iter__(self):
        while True:
            x = self.readline()
            if not x:
                return
            yield x

    def tell(self):
        self._open()
        return mk_int(self._at())

    def seek(self, pos, whence=0):
        self._open()
        whence = concrete(whence)
        t = term_of(pos)
        if whence == 1:
            t = tadd(self._at(), t)
        elif whence == 2:
            t = tadd(seq_len(self._all()), t)
        if decide(tlt(t, 0)):
            if whence == 0:
                raise ValueError("negative seek value %s" % concrete(pos))
            t = 0
        self._pos = t
        return mk_int(t)

    def truncate(self, n=None):
        t = self._at() if n is None else term_of(n)
        d = self._all()
        if decide(tlt(t, seq_len(d))):
            a, _ = split_at(d, t)
            at = self._at()
            self._data = norm_parts(list(a))
            self._pos = at
        return mk_int(t)

    def readable(self):
        return True

    writable = seekable = readable

    def isatty(self):
        return False

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SymStringIO(_SymIO):
    _kind = str


class SymBytesIO(_SymIO):
    _kind = bytes

    def __init__(self, initial=None):
        _SymIO.__init__(self, initial)
