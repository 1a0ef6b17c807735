"""A small regular-expression matcher over symbolic text (backtracking, forking on
character-class membership).  Covers literals, classes, anchors, groups, branches
and greedy / lazy / possessive repeats; anything else is left to enumeration."""
import re
import re._constants as K
import re._parser as P

from .engine import eng
from .terms import *
from .values import *
from . import codec as C


class Unsupported(Exception):
    pass


def _cat(name, c, isstr, ascii_only):
    if isstr and not ascii_only:
        if name == "digit":
            return tin_ranges(c, C.ranges_for(c, "isdecimal"))
        if name == "space":
            return tin_ranges(c, C.ranges_for(c, "isspace"))
        return tor(tin_ranges(c, C.ranges_for(c, "isalnum")), teq(c, 95))
    if name == "digit":
        return tin_ranges(c, [(48, 57)])
    if name == "space":
        return tin_ranges(c, [(9, 13), (32, 32)])
    return tin_ranges(c, [(48, 57), (65, 90), (95, 95), (97, 122)])


class Rx:
    def __init__(self, pattern, flags=0):
        self.isstr = isinstance(pattern, str)
        tree = P.parse(pattern, flags)
        self.flags = tree.state.flags
        if self.flags & (re.LOCALE | re.MULTILINE):
            raise Unsupported
        self.icase = bool(self.flags & re.IGNORECASE)
        self.ascii = bool(self.flags & re.ASCII) or not self.isstr
        self.tree = list(tree)
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)

    # one-character tests -> bool term, or None
    def one(self, op, av):
        if op is K.LITERAL:
            if self.icase:
                v = {x for x in range(0x250) if chr(x).lower() == chr(av).lower()} if self.isstr and av < 0x250 else {av}
                if not self.isstr or self.ascii:
                    v = {x for x in range(128) if chr(x).lower() == chr(av).lower()} or {av}
                return lambda c: tor(*[teq(c, x) for x in sorted(v)])
            return lambda c: teq(c, av)
        if op is K.NOT_LITERAL:
            f = self.one(K.LITERAL, av)
            return lambda c: tnot(f(c))
        if op is K.ANY:
            return (lambda c: True) if self.flags & re.DOTALL else (lambda c: tnot(teq(c, 10)))
        if op is K.IN:
            neg = False
            fs = []
            for o, a in av:
                if o is K.NEGATE:
                    neg = True
                elif o is K.LITERAL:
                    fs.append(self.one(o, a))
                elif o is K.RANGE:
                    if self.icase:
                        both = [(a[0], a[1])]
                        for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
                            x, y = max(lo, a[0]), min(hi, a[1])
                            if x <= y:
                                both.append((x + d, y + d))
                        if a[1] > 127:
                            raise Unsupported
                        if self.isstr and not self.ascii:
                            for x, y in list(both):
                                if x <= 107 <= y:
                                    both.append((0x212A, 0x212A))
                                if x <= 115 <= y:
                                    both.append((0x17F, 0x17F))
                        fs.append(lambda c, both=both: tin_ranges(c, both))
                    else:
                        fs.append(lambda c, a=a: tin_ranges(c, [a]))
                elif o is K.CATEGORY:
                    n = str(a).lower()
                    base = "digit" if "digit" in n else "space" if "space" in n else "word"
                    if "not" in n:
                        fs.append(lambda c, b=base: tnot(_cat(b, c, self.isstr, self.ascii)))
                    else:
                        fs.append(lambda c, b=base: _cat(b, c, self.isstr, self.ascii))
                else:
                    raise Unsupported
            if neg:
                return lambda c: tnot(tor(*[f(c) for f in fs]))
            return lambda c: tor(*[f(c) for f in fs])
        return None

    def _cached_one(self, op, av):
        return self.one(op, av)

    # whole-text class repetition without unrolling
    def simple(self, anchored_end):
        t = list(self.tree)
        while t and t[0][0] is K.AT and t[0][1] in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            t = t[1:]
        end = None
        if t and t[-1][0] is K.AT:
            end = t[-1][1]
            t = t[:-1]
        if len(t) != 1 or t[0][0] not in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            return None
        if not anchored_end and end is not K.AT_END_STRING:
            return None
        lo, hi, sub = t[0][1]
        sub = list(sub)
        if len(sub) != 1:
            return None
        f = self.one(*sub[0])
        return (lo, hi, f) if f else None

    def run(self, text, pos, full):
        """-> match object or None"""
        parts = norm_parts(list(parts_of(text)))
        u = pure(parts)
        if u is None:
            s = self.simple(full)
            if s and pos == 0:
                lo, hi, f = s
                n = seq_len(parts)
                if not decide(tle(lo, n)) or (hi is not K.MAXREPEAT and not decide(tle(n, hi))):
                    return None
                ok = forall(parts, f)
                if not decide(bool_of(ok)):
                    return None
                return SymMatch(self, text, 0, None, {})
            u = text.units() if isinstance(text, SymSeq) else [ord(c) if isinstance(c, str) else c for c in text]
        u = [x for x in u]
        r = self.seq(self.tree, 0, u, pos, {}, lambda i, g: (i, g) if not full or i == len(u) else None)
        if r is None:
            return None
        return SymMatch(self, text, pos, r[0], r[1])

    def seq(self, items, k, u, i, g, cont):
        if k == len(items):
            return cont(i, g)
        op, av = items[k]
        nxt = lambda j, gg: self.seq(items, k + 1, u, j, gg, cont)
        f = self.one(op, av)
        if f is not None:
            if i < len(u) and decide(f(u[i])):
                return nxt(i + 1, g)
            return None
        if op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            hi = len(u) + 1 if hi is K.MAXREPEAT else hi
            if op is K.POSSESSIVE_REPEAT:
                n = 0
                while n < hi:
                    r = self.seq(sub, 0, u, i, g, lambda j, gg: (j, gg))
                    if r is None or r[0] == i:
                        break
                    i, g = r
                    n += 1
                return nxt(i, g) if n >= lo else None

            def rep(n, j, gg):
                more = lambda: self.seq(sub, 0, u, j, gg, lambda jj, ggg: rep(n + 1, jj, ggg) if jj > j or n < lo else None) if n < hi else None
                stop = lambda: nxt(j, gg) if n >= lo else None
                first, second = (more, stop) if op is K.MAX_REPEAT else (stop, more)
                r = first()
                return r if r is not None else second()

            return rep(0, i, g)
        if op is K.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise Unsupported

            def done(j, gg):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (i, j)
                return nxt(j, gg)

            return self.seq(list(sub), 0, u, i, g, done)
        if op is K.ATOMIC_GROUP:
            r = self.seq(list(av), 0, u, i, g, lambda j, gg: (j, gg))
            return nxt(*r) if r is not None else None
        if op is K.BRANCH:
            for sub in av[1]:
                r = self.seq(list(sub), 0, u, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op is K.AT:
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                return nxt(i, g) if i == 0 else None
            if av is K.AT_END_STRING:
                return nxt(i, g) if i == len(u) else None
            if av is K.AT_END:
                if i == len(u) or (i == len(u) - 1 and decide(teq(u[i], 10))):
                    return nxt(i, g)
                return None
            raise Unsupported
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise Unsupported
            r = self.seq(list(sub), 0, u, i, g, lambda j, gg: (j, gg))
            if (r is not None) == (op is K.ASSERT):
                return nxt(i, r[1] if r is not None else g)
            return None
        raise Unsupported


class SymMatch:
    def __init__(self, rx, text, start, end, groups):
        self.rx, self.string, self._s, self._e, self._g = rx, text, start, end, groups

    def __bool__(self):
        return True

    def _span(self, k):
        if isinstance(k, str):
            k = self.rx.groupindex[k]
        if k == 0:
            return (self._s, self._e if self._e is not None else len(self.string))
        if k > self.rx.groups or k < 0:
            raise IndexError("no such group")
        return self._g.get(k, (-1, -1))

    def group(self, *ks):
        def one(k):
            if k == 0 and self._e is None:
                return self.string
            a, b = self._span(k)
            return None if a < 0 else self.string[a:b]

        if not ks:
            return one(0)
        return one(ks[0]) if len(ks) == 1 else tuple(one(k) for k in ks)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self._span(k)[0] < 0 else self.group(k) for k in range(1, self.rx.groups + 1))

    def groupdict(self, default=None):
        return {n: (default if self._span(k)[0] < 0 else self.group(k)) for n, k in self.rx.groupindex.items()}

    def span(self, k=0):
        return self._span(k)

    def start(self, k=0):
        return self._span(k)[0]

    def end(self, k=0):
        return self._span(k)[1]


_RX = {}


def compiled(pattern, flags=0):
    """-> Rx or None when the pattern is out of reach"""
    if isinstance(pattern, re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags & ~(re.UNICODE if isinstance(pattern.pattern, str) else 0)
    key = (pattern, int(flags))
    if key not in _RX:
        try:
            _RX[key] = Rx(pattern, flags)
        except Unsupported:
            _RX[key] = None
    return _RX[key]


def call(how, pattern, text, flags=0):
    """re.<how>(pattern, text) with symbolic text; NotImplemented if unsupported"""
    rx = compiled(pattern, flags)
    if rx is None:
        return NotImplemented
    if rx.isstr != isinstance(text, str):
        raise TypeError("cannot use a %s pattern on a %s-like object" % (("string", "bytes") if rx.isstr else ("bytes", "string")))
    try:
        if how == "match":
            return rx.run(text, 0, False)
        if how == "fullmatch":
            return rx.run(text, 0, True)
        n = len(text)
        if how == "search":
            for i in range(n + 1):
                m = rx.run(text, i, False)
                if m is not None:
                    return m
            return None
        out = []
        i = 0
        while i <= n:
            m = rx.run(text, i, False)
            if m is None:
                i += 1
                continue
            if m._e is None:
                m._e = n
            out.append(m)
            i = m._e if m._e > i else i + 1
        if how == "finditer":
            return iter(out)
        if how == "findall":
            return [m.group(0) if rx.groups == 0 else m.group(1) if rx.groups == 1 else m.groups("" if rx.isstr else b"") for m in out]
    except Unsupported:
        return NotImplemented
    return NotImplemented
