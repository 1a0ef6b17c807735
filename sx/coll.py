"""dict and set whose keys may be symbolic strings.

Both are subclasses of the native types that behave natively until a symbolic
string (or a tuple holding one) is stored; from then on they are association
lists whose lookups compare by equality (forking when undecided).  Sets iterate
in insertion order once symbolic."""
import copy

from .values import SymInt, SymSeq, SymByteArray, has_proxy
from .engine import eng


def symkey(k):
    t = type(k)
    if t is str or t is int:
        return False
    if isinstance(k, SymSeq):
        return t is not SymByteArray
    if t is SymInt:
        lo, hi = eng().bounds(k.t)
        return lo is None or hi is None or hi - lo > 256
    if t is tuple or t is frozenset:
        return any(symkey(x) for x in k)
    return False


def _check_hashable(k):
    if isinstance(k, (list, dict, set, bytearray)) or (k.__hash__ is None):
        raise TypeError("unhashable type: %r" % k.__class__.__name__)


def same_key(a, b):
    if a is b:
        return True
    r = a == b
    if r is NotImplemented or r is False:
        return False
    return r is True or bool(r)


_MISS = object()


class SymDict(dict):
    __slots__ = ("_kv",)
    _sx_dict = True

    def __init__(self, kv=None):
        dict.__init__(self)
        self._kv = None
        if kv is not None:
            self._kv = [(k, v) for k, v in kv]

    @classmethod
    def build(cls, it=(), kw=None):
        d = cls()
        d.update(it)
        if kw:
            d.update(kw)
        return d

    @property
    def __class__(self):
        return dict

    __hash__ = None

    def __reduce_ex__(self, p):
        return (dict, (dict(list(self.items())),))

    def _find(self, k):
        for i, (kk, _) in enumerate(self._kv):
            if kk is k:
                return i
        for i, (kk, _) in enumerate(self._kv):
            if same_key(kk, k):
                return i
        return -1

    def _assoc(self, k):
        """switch to (or stay in) association mode when k needs it"""
        if self._kv is not None:
            _check_hashable(k)
            return True
        if symkey(k):
            self._kv = list(dict.items(self))
            dict.clear(self)
            return True
        return False

    def _pairs(self):
        return list(dict.items(self)) if self._kv is None else list(self._kv)

    def _look(self, k):
        """(found, value) without changing the mode"""
        if self._kv is None:
            if not symkey(k):
                if dict.__contains__(self, k):
                    return True, dict.__getitem__(self, k)
                return False, None
            for kk, v in dict.items(self):
                if same_key(kk, k):
                    return True, v
            return False, None
        _check_hashable(k)
        i = self._find(k)
        return (True, self._kv[i][1]) if i >= 0 else (False, None)

    def __getitem__(self, k):
        f, v = self._look(k)
        if not f:
            raise KeyError(k)
        return v

    def __setitem__(self, k, v):
        if not self._assoc(k):
            return dict.__setitem__(self, k, v)
        i = self._find(k)
        if i < 0:
            self._kv.append((k, v))
        else:
            self._kv[i] = (self._kv[i][0], v)

    def __delitem__(self, k):
        if not self._assoc(k):
            return dict.__delitem__(self, k)
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        self._kv.pop(i)

    def __contains__(self, k):
        return self._look(k)[0]

    def __len__(self):
        return dict.__len__(self) if self._kv is None else len(self._kv)

    def __bool__(self):
        return len(self) > 0

    def _walk(self, what, rev=False):
        src = self._kv
        seq = list(reversed(src)) if rev else list(src)
        n = len(src)
        for k, v in seq:
            if self._kv is not src or len(self._kv) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield k if what == "k" else v if what == "v" else (k, v)
        if self._kv is src and len(self._kv) != n:
            raise RuntimeError("dictionary changed size during iteration")

    def __iter__(self):
        return dict.__iter__(self) if self._kv is None else self._walk("k")

    def __reversed__(self):
        return dict.__reversed__(self) if self._kv is None else self._walk("k", True)

    def keys(self):
        return dict.keys(self) if self._kv is None else SymKeys(self)

    def values(self):
        return dict.values(self) if self._kv is None else SymVals(self)

    def items(self):
        return dict.items(self) if self._kv is None else SymItems(self)

    def get(self, k, d=None):
        f, v = self._look(k)
        return v if f else d

    def pop(self, k, d=_MISS):
        if not self._assoc(k):
            return dict.pop(self, k) if d is _MISS else dict.pop(self, k, d)
        i = self._find(k)
        if i < 0:
            if d is _MISS:
                raise KeyError(k)
            return d
        return self._kv.pop(i)[1]

    def popitem(self):
        if self._kv is None:
            return dict.popitem(self)
        if not self._kv:
            raise KeyError("popitem(): dictionary is empty")
        return self._kv.pop()

    def setdefault(self, k, d=None):
        f, v = self._look(k)
        if f:
            return v
        self[k] = d
        return d

    def update(self, o=(), **kw):
        if isinstance(o, dict):
            pairs = list(o.items())
        elif hasattr(o, "keys"):
            pairs = [(k, o[k]) for k in o.keys()]
        else:
            pairs = []
            for p in o:
                p = list(p)
                if len(p) != 2:
                    raise ValueError("dictionary update sequence element #%d has length %d; 2 is required" % (len(pairs), len(p)))
                pairs.append(p)
        for k, v in pairs:
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    @classmethod
    def fromkeys(cls, it, v=None):
        return cls.build((k, v) for k in it)

    def copy(self):
        return SymDict.build(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        d = SymDict()
        memo[id(self)] = d
        for k, v in self._pairs():
            d[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return d

    def clear(self):
        dict.clear(self)
        self._kv = None

    def __or__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        r = SymDict.build(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self._pairs():
            f, w = o._look(k) if type(o) is SymDict else _native_look(o, k)
            if not f or not same_key(v, w):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __repr__(self):
        from .models import m_repr

        r = m_repr(self)
        return r if type(r) is str else r.concrete()


def _native_look(d, k):
    if not symkey(k):
        return (True, d[k]) if k in d else (False, None)
    for kk, v in d.items():
        if same_key(kk, k):
            return True, v
    return False, None


def native_dict_get(d, k, default=None):
    f, v = _native_look(d, k)
    return v if f else default


class _View:
    __slots__ = ("d",)
    _sx_view = True

    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)

    def _list(self):
        return list(self)


def _setop(name):
    def f(self, o):
        return getattr(SymSet.build(self), name)(SymSet.build(o))

    return f


class _SetView(_View):
    __slots__ = ()
    __hash__ = None
    __and__ = _setop("__and__")
    __or__ = _setop("__or__")
    __sub__ = _setop("__sub__")
    __xor__ = _setop("__xor__")
    __le__ = _setop("__le__")
    __lt__ = _setop("__lt__")
    __ge__ = _setop("__ge__")
    __gt__ = _setop("__gt__")

    def __rand__(self, o):
        return SymSet.build(o) & SymSet.build(self)

    def __ror__(self, o):
        return SymSet.build(o) | SymSet.build(self)

    def __rsub__(self, o):
        return SymSet.build(o) - SymSet.build(self)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, _SetView, type({}.keys()), type({}.items()))):
            return NotImplemented
        return SymSet.build(self) == SymSet.build(o)

    def isdisjoint(self, o):
        return SymSet.build(self).isdisjoint(o)


class SymKeys(_SetView):
    __slots__ = ()

    @property
    def __class__(self):
        return type({}.keys())

    def __iter__(self):
        return iter(self.d)

    def __reversed__(self):
        return reversed(self.d)

    def __contains__(self, k):
        return k in self.d


class SymItems(_SetView):
    __slots__ = ()

    @property
    def __class__(self):
        return type({}.items())

    def __iter__(self):
        return self.d._walk("kv") if self.d._kv is not None else iter(dict.items(self.d))

    def __reversed__(self):
        return iter(self.d._pairs()[::-1])

    def __contains__(self, p):
        if not isinstance(p, tuple) or len(p) != 2:
            return False
        f, v = self.d._look(p[0])
        return f and same_key(v, p[1])


class SymVals(_View):
    __slots__ = ()

    @property
    def __class__(self):
        return type({}.values())

    def __iter__(self):
        return self.d._walk("v") if self.d._kv is not None else iter(dict.values(self.d))

    def __reversed__(self):
        return iter([v for _, v in self.d._pairs()[::-1]])

    def __contains__(self, x):
        return any(same_key(v, x) for v in self)


def _within(x, o):
    from .models import sx_contains
    from .values import decide, bool_of

    return decide(bool_of(sx_contains(o, x)))


class SymSet(set):
    """set / frozenset; _el is None (native) or the list of elements"""

    __slots__ = ("_el", "_frozen")
    _sx_set = True

    def __init__(self, it=(), frozen=False):
        set.__init__(self)
        self._el = None
        self._frozen = frozen
        for x in it:
            self._put(x)

    @classmethod
    def build(cls, it=(), frozen=False):
        return cls(it, frozen)

    @property
    def __class__(self):
        return frozenset if self._frozen else set

    @property
    def __hash__(self):
        if not self._frozen:
            return None
        return lambda: hash(frozenset(x.concrete() if isinstance(x, SymSeq) else x for x in self))

    def __reduce_ex__(self, p):
        return (self.__class__, (list(self),))

    def _find(self, x):
        for i, y in enumerate(self._el):
            if y is x:
                return i
        for i, y in enumerate(self._el):
            if same_key(y, x):
                return i
        return -1

    def _assoc(self, x):
        if self._el is not None:
            _check_hashable(x)
            return True
        if symkey(x):
            self._el = list(set.__iter__(self))
            set.clear(self)
            return True
        return False

    def _put(self, x):
        if not self._assoc(x):
            set.add(self, x)
        elif self._find(x) < 0:
            self._el.append(x)

    def _drop(self, x):
        """True if x was there"""
        if not self._assoc(x):
            if set.__contains__(self, x):
                set.remove(self, x)
                return True
            return False
        i = self._find(x)
        if i >= 0:
            self._el.pop(i)
        return i >= 0

    def __contains__(self, x):
        if isinstance(x, (set, frozenset)) and not isinstance(x, SymSet):
            x = frozenset(x)
        if self._el is None:
            if not symkey(x):
                return set.__contains__(self, x)
            return any(same_key(y, x) for y in set.__iter__(self))
        _check_hashable(x)
        return self._find(x) >= 0

    def __len__(self):
        return set.__len__(self) if self._el is None else len(self._el)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return set.__iter__(self) if self._el is None else self._walk()

    def _walk(self):
        src, n = self._el, len(self._el)
        for x in list(src):
            if self._el is not src or len(src) != n:
                raise RuntimeError("Set changed size during iteration")
            yield x
        if self._el is src and len(src) != n:
            raise RuntimeError("Set changed size during iteration")

    def add(self, x):
        self._put(x)

    def discard(self, x):
        self._drop(x)

    def remove(self, x):
        if not self._drop(x):
            raise KeyError(x)

    def pop(self):
        if self._el is None:
            return set.pop(self)
        if not self._el:
            raise KeyError("pop from an empty set")
        return self._el.pop(0)

    def clear(self):
        set.clear(self)
        self._el = None

    def copy(self):
        return SymSet(self, self._frozen)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SymSet([copy.deepcopy(x, memo) for x in self], self._frozen)

    def update(self, *os):
        for o in os:
            for x in list(o):
                self._put(x)

    def union(self, *os):
        r = self.copy()
        SymSet.update(r, *os)
        return r

    def difference(self, *os):
        r = self.copy()
        SymSet.difference_update(r, *os)
        return r

    def difference_update(self, *os):
        for o in os:
            if type(o) is range and self._el is not None:
                self._el = [x for x in self._el if not _within(x, o)]
                continue
            for x in list(o):
                self._drop(x)

    def intersection(self, *os):
        cur = list(self)
        for o in os:
            o = o if isinstance(o, (SymSet, range)) else SymSet(o)
            cur = [x for x in cur if _within(x, o)]
        return SymSet(cur, self._frozen)

    def intersection_update(self, *os):
        r = self.intersection(*os)
        self.clear()
        SymSet.update(self, r)

    def symmetric_difference(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return SymSet([x for x in self if x not in o] + [x for x in o if x not in self], self._frozen)

    def symmetric_difference_update(self, o):
        r = self.symmetric_difference(o)
        self.clear()
        SymSet.update(self, r)

    def issubset(self, o):
        from .models import sx_contains
        from .values import decide, bool_of

        if not isinstance(o, (range, dict, set, frozenset)) and type(o).__module__ != "sx.coll" and not isinstance(o, (list, tuple)):
            o = list(o)
        for x in self:
            if not decide(bool_of(sx_contains(o, x))):
                return False
        return True

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    @staticmethod
    def _isset(o):
        return isinstance(o, (set, frozenset, _SetView, type({}.keys()), type({}.items())))

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, _SetView, type({}.keys()), type({}.items()))):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o) if self._isset(o) else NotImplemented

    def __lt__(self, o):
        return (len(self) < len(o) and self.issubset(o)) if self._isset(o) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if self._isset(o) else NotImplemented

    def __gt__(self, o):
        return (len(self) > len(o) and self.issuperset(o)) if self._isset(o) else NotImplemented

    def __or__(self, o):
        return self.union(o) if self._isset(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._isset(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._isset(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._isset(o) else NotImplemented

    def __ror__(self, o):
        return SymSet(o).union(self) if self._isset(o) else NotImplemented

    def __rand__(self, o):
        return SymSet(o).intersection(self) if self._isset(o) else NotImplemented

    def __rsub__(self, o):
        return SymSet(o).difference(self) if self._isset(o) else NotImplemented

    def __rxor__(self, o):
        return SymSet(o).symmetric_difference(self) if self._isset(o) else NotImplemented

    def _inplace(name):
        def f(self, o):
            if not self._isset(o):
                return NotImplemented
            if self._frozen:
                return getattr(self, {"update": "union", "difference_update": "difference", "intersection_update": "intersection", "symmetric_difference_update": "symmetric_difference"}[name])(o)
            getattr(self, name)(o)
            return self

        return f

    __ior__ = _inplace("update")
    __isub__ = _inplace("difference_update")
    __iand__ = _inplace("intersection_update")
    __ixor__ = _inplace("symmetric_difference_update")
    del _inplace

    def __repr__(self):
        body = ", ".join(repr(x) for x in self)
        if self._frozen:
            return "frozenset({%s})" % body if body else "frozenset()"
        return "{%s}" % body if body else "set()"
