"""The V object harnesses talk to: SymV (symbolic run) and ReplayV (native run
of the same harness on one recorded input)."""
import copy

from . import native as N
from . import steps
from .native import AssumeFailed, ReplayV  # noqa: F401


class SymV:
    symbolic = True

    def __init__(self, task):
        from .loader import fresh_world
        from .engine import eng

        self.e = eng()
        self.task = task
        self.world = fresh_world(True)
        self.iso = self.world.modules["iso8583"]
        self.specs = self.world.modules["iso8583.specs"]
        self.inputs = []  # (name, kind, payload)
        self.names = set()
        self.checks = []  # (label, cond-term or bool)
        self.obs = []

    def _name(self, name):
        if name in self.names:
            raise RuntimeError("duplicate input name %r" % name)
        self.names.add(name)
        return name

    # ---- inputs
    def int(self, name, lo, hi):
        from .values import mk_int

        self._name(name)
        if lo == hi:
            return lo
        x = self.e.fresh("%s[%s,%s]" % (name, lo, hi), lo, hi)
        self.inputs.append((name, "int", x))
        return mk_int(x)

    def bool(self, name):
        from .values import SymBool

        self._name(name)
        x = self.e.fresh_bool(name)
        self.inputs.append((name, "bool", x))
        return SymBool(x)

    def choice(self, name, options):
        self._name(name)
        options = list(options)
        i = self.e.choose(len(options), name)
        self.inputs.append((name, "const", i))
        return options[i]

    def _units(self, name, n, ranges):
        from .terms import tin_ranges

        ranges = sorted(tuple(r) for r in ranges)
        key = "%s{%s}" % (name, ",".join("%d-%d" % r for r in ranges))
        us = []
        for i in range(n):
            x = self.e.fresh("%s.%d" % (key, i), ranges[0][0], ranges[-1][1])
            if len(ranges) > 1:
                c = tin_ranges(x, ranges)
                if c is not True:
                    self.e.add(c)
            us.append(x)
        return us

    def bytes(self, name, n, ranges=((0, 255),)):
        from .values import mk_bytes

        self._name(name)
        us = self._units(name, n, ranges)
        self.inputs.append((name, "bytes", [us]))
        return mk_bytes([us])

    def text(self, name, n, ranges=((0, 0x10FFFF),)):
        from .values import mk_str

        self._name(name)
        us = self._units(name, n, ranges)
        self.inputs.append((name, "text", [us]))
        return mk_str([us])

    def _blob(self, name, lo, hi, ranges):
        from .values import BaseBlock

        self._name(name)
        n = self.e.fresh("len:%s[%d,%d]" % (name, lo, hi), lo, hi)
        return BaseBlock(name, n, sorted(tuple(r) for r in ranges))

    def blob(self, name, lo, hi, ranges=((0, 255),)):
        """bytes of symbolic length lo..hi"""
        from .values import SymBytes

        b = self._blob(name, lo, hi, ranges)
        self.inputs.append((name, "bytes", [b]))
        return SymBytes([b])

    def longtext(self, name, lo, hi, ranges=((32, 126),)):
        from .values import SymStr

        b = self._blob(name, lo, hi, ranges)
        self.inputs.append((name, "text", [b]))
        return SymStr([b])

    def sdict(self, items):
        """dict whose keys may be symbolic (assumed pairwise distinct)"""
        from .values import SymSeq, bool_of
        from .coll import SymDict
        from .terms import tnot

        items = list(items)
        for i in range(len(items)):
            for j in range(i):
                r = items[i][0] == items[j][0]
                self.assume(tnot(bool_of(r)) if r is not NotImplemented else True)
        if not any(isinstance(k, SymSeq) and getattr(type(k), "_sx", False) for k, _ in items):
            return dict(items)
        return SymDict(items)

    # ---- control
    def assume(self, c):
        from .values import bool_of

        self.e.assume(c if not hasattr(type(c), "_sx") else bool_of(c))

    def check(self, c, label):
        from .values import bool_of

        self.checks.append((label, bool_of(c)))

    def fail(self, label):
        self.checks.append((label, False))

    def reach(self, label):
        self.e.reached[label] = self.e.reached.get(label, 0) + 1

    def observe(self, name, value):
        self.obs.append((name, N.snapshot(value)))

    def bounds(self, **kw):
        pass

    # ---- helpers
    def same(self, a, b):
        """a == b with equal types, as one condition (no fork)"""
        from .values import mk_bool

        return mk_bool(_same(a, b))

    def all(self, cs):
        from .values import mk_bool, bool_of
        from .terms import tand

        return mk_bool(tand(*[bool_of(c) for c in cs]))

    def any(self, cs):
        from .values import mk_bool, bool_of
        from .terms import tor

        return mk_bool(tor(*[bool_of(c) for c in cs]))

    def implies(self, a, b):
        from .values import mk_bool, bool_of
        from .terms import tor, tnot

        return mk_bool(tor(tnot(bool_of(a)), bool_of(b)))

    def no(self, a):
        from .values import mk_bool, bool_of
        from .terms import tnot

        return mk_bool(tnot(bool_of(a)))

    def typename(self, x):
        return x.__class__.__name__

    def snapshot(self, x):
        return N.snapshot(x)

    def pickle(self, x, protocol=4):
        """what pickle.loads(pickle.dumps(x, protocol)) does, from x.__reduce_ex__"""
        r = x.__reduce_ex__(protocol)
        return _rebuild(r)

    def subclass(self, base):
        return N.subclass(base)

    def stepped(self):
        return self.iso

    def preempted(self, k, a, b):
        return steps.preempted(k, a, b)

    def of_subclass(self, x):
        from .values import SymSeq

        cls = N.subclass(x.__class__)
        if not isinstance(type(x), type) or not issubclass(type(x), SymSeq):
            return cls(x)
        tagged = type("User" + type(x).__name__, (type(x),), {"__slots__": (), "__class__": property(lambda self: cls)})
        return tagged(list(x.parts))

    def copy(self, x):
        return copy.copy(x)

    def deepcopy(self, x):
        return copy.deepcopy(x)

    def stream(self, empty=False):
        return N.EmptyStream() if empty else N.Stream()


def _rebuild(r):
    f, args = r[0], copy.deepcopy(r[1])
    y = f(*args)
    if len(r) > 2 and r[2] is not None:
        st = copy.deepcopy(r[2])
        if hasattr(y, "__setstate__"):
            y.__setstate__(st)
        else:
            y.__dict__.update(st)
    return y


def _same(a, b):
    from .values import term_of, rope_eq, parts_of, norm_parts, SymSeq
    from .coll import SymDict, _native_look as native_look
    from .terms import tand, teq

    ca, cb = a.__class__, b.__class__
    if ca is not cb:
        return False
    if isinstance(a, (str, bytes, bytearray)):
        return rope_eq(norm_parts(parts_of(a)), norm_parts(parts_of(b)))
    if isinstance(a, int):
        return teq(term_of(a), term_of(b))
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        return tand(*[_same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if type(a) is SymDict and a._kv is not None or type(b) is SymDict and b._kv is not None:
            if len(a) != len(b):
                return False
            out = []
            for k, v in a.items():
                if type(b) is SymDict:
                    f, w = b._look(k)
                else:
                    f, w = native_look(b, k)
                if not f:
                    return False
                out.append(_same(v, w))
            return tand(*out)
        if set(a) != set(b):
            return False
        return tand(*[_same(a[k], b[k]) for k in a])
    return a == b
