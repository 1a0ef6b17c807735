"""Pure-Python side: native execution of a harness on recorded inputs.
No solver import here, so it also runs under the project's interpreter."""
import builtins
import copy
import os
import pickle
import sys

from . import steps


class AssumeFailed(Exception):
    pass


class Stream:
    """Collects what is written; nothing but write() is offered."""

    _sx_ok = True

    def __init__(self):
        self.parts = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % s.__class__.__name__)
        self.parts.append(s)
        return 0


class EmptyStream(Stream):
    """one that counts as false: a list or a queue with a write()"""

    def __len__(self):
        return 0


def snapshot(x):
    """Deep copy of data containers (symbolic leaves are immutable)."""
    if isinstance(x, BaseException):
        return {"__exc__": type(x).__name__}
    if isinstance(x, dict):
        if hasattr(type(x), "_sx_dict"):
            return type(x)((k, snapshot(v)) for k, v in x.items()) if x._kv is not None else {k: snapshot(v) for k, v in x.items()}
        if type(x) is dict:
            return {k: snapshot(v) for k, v in x.items()}
        return copy.deepcopy(x)
    if type(x) is list:
        return [snapshot(v) for v in x]
    if type(x) is tuple:
        return tuple(snapshot(v) for v in x)
    if isinstance(x, bytearray):
        return x[:]
    return x


class ReplayV:
    """Runs a harness natively on the values of one recorded input."""

    symbolic = False

    def __init__(self, inputs, iso, specs, modules=None):
        self._in = inputs
        self.iso = iso
        self.specs = specs
        self.modules = modules
        self.failed = []
        self.checked = []
        self.obs = []

    def _get(self, name):
        if name not in self._in:
            raise KeyError("recorded input %r missing" % name)
        return self._in[name]

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self._get(name)

    def bool(self, name):
        return self._get(name)

    def choice(self, name, options):
        return list(options)[self._get(name)]

    def bytes(self, name, n, ranges=((0, 255),)):
        return self._get(name)

    def text(self, name, n, ranges=()):
        return self._get(name)

    def blob(self, name, lo, hi, ranges=((0, 255),)):
        return self._get(name)

    def longtext(self, name, lo, hi, ranges=()):
        return self._get(name)

    def sdict(self, items):
        items = list(items)
        d = dict(items)
        if len(d) != len(items):
            raise AssumeFailed()
        return d

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label):
        self.checked.append(label)
        if not c:
            self.failed.append(label)

    def fail(self, label):
        self.checked.append(label)
        self.failed.append(label)

    def reach(self, label):
        pass

    def observe(self, name, value):
        self.obs.append((name, snapshot(value)))

    def bounds(self, **kw):
        pass

    def same(self, a, b):
        return _same(a, b)

    def all(self, cs):
        return builtins.all([bool(c) for c in cs])

    def any(self, cs):
        return builtins.any([bool(c) for c in cs])

    def implies(self, a, b):
        return (not a) or bool(b)

    def no(self, a):
        return not a

    def typename(self, x):
        return x.__class__.__name__

    def snapshot(self, x):
        return snapshot(x)

    def pickle(self, x, protocol=4):
        if self.modules is None:
            return pickle.loads(pickle.dumps(x, protocol))
        saved = {n: sys.modules.get(n) for n in self.modules}
        try:
            sys.modules.update(self.modules)
            return pickle.loads(pickle.dumps(x, protocol))
        finally:
            for n, m in saved.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m

    def subclass(self, base):
        return subclass(base)

    def stepped(self):
        """the package with preemption points, otherwise as it is"""
        return steps.load(os.path.dirname(os.path.dirname(os.path.abspath(self.iso.__file__))))

    def preempted(self, k, a, b):
        return steps.preempted(k, a, b)

    def of_subclass(self, x):
        """the same str, bytes or bytearray as an instance of a user's subclass"""
        return subclass(type(x))(x)

    def copy(self, x):
        return copy.copy(x)

    def deepcopy(self, x):
        return copy.deepcopy(x)

    def stream(self, empty=False):
        return EmptyStream() if empty else Stream()


def subclass(base):
    """a subclass a user might define in a module of theirs"""
    import types

    m = sys.modules.setdefault("vp_user_module", types.ModuleType("vp_user_module"))
    c = type("User" + base.__name__, (base,), {"__module__": "vp_user_module"})
    setattr(m, c.__name__, c)
    return c


class Partial:
    """A long sequence of which only some elements are known."""

    def __init__(self, base, units):
        self.base = base
        self.units = units

    def agrees(self, x):
        if type(x) is not self.base or len(x) != len(self.units):
            return False
        return builtins.all(u is None or (ord(c) if isinstance(c, str) else c) == u for c, u in zip(x, self.units))


def _same(a, b):
    if isinstance(b, Partial):
        return b.agrees(a)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and builtins.all(_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and builtins.all(_same(x, y) for x, y in zip(a, b))
    return a == b


def all_in(txt, ranges):
    """every character of txt is within one of the inclusive ranges"""
    for c in txt:
        c = ord(c) if isinstance(c, str) else c
        if not builtins.any(a <= c <= b for a, b in ranges):
            return False
    return True
