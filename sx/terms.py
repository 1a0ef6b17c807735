"""Integer/boolean term helpers: Python ints/bools when known, Z3 otherwise."""
import z3
from .engine import eng


def isterm(x):
    return not isinstance(x, (int, bool)) and isinstance(x, z3.ExprRef)


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def simp(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def tadd(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        if a == 0:
            return b
    elif isinstance(b, int) and b == 0:
        return a
    return simp(a + b)


def tsub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return simp(a - b)


def tmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
    return simp(a * b)


def _split(a, c):
    """a == c * x + r with as much as possible in x; None when x is empty"""
    k = a.decl().kind()
    cs = a.children() if k == z3.Z3_OP_ADD else [a]
    x, r = 0, 0
    hit = False
    for t in cs:
        if z3.is_int_value(t):
            v = t.as_long()
            q = v // c
            if q:
                hit = True
            x = tadd(x, q)
            r = tadd(r, v - q * c)
            continue
        if t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            v = t.arg(0).as_long()
            if v % c == 0:
                x = tadd(x, tmul(t.arg(1), v // c))
                hit = True
                continue
        r = tadd(r, t)
    return (x, r) if hit else None


def tdiv(a, c):
    """floor division by a positive constant"""
    if isinstance(a, int):
        return a // c
    if c == 1:
        return a
    h = _split(a, c)
    if h is not None:
        return tadd(h[0], tdiv(h[1], c))
    lo, hi = eng().bounds(a)
    if lo is not None and hi is not None and lo // c == hi // c:
        return lo // c
    return simp(a / c)


def tmod(a, c):
    if isinstance(a, int):
        return a % c
    if c == 1:
        return 0
    h = _split(a, c)
    if h is not None:
        return tmod(h[1], c)
    lo, hi = eng().bounds(a)
    if lo is not None and hi is not None and 0 <= lo and hi < c:
        return a
    return simp(a % c)


def tite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return z3.If(c, iv(a), iv(b))


def teq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        a, b = b, a
    # a is a term
    if isinstance(b, int):
        lo, hi = eng().bounds(a)
        if (lo is not None and b < lo) or (hi is not None and b > hi):
            return False
        return a == b
    if a.get_id() == b.get_id():
        return True
    l1, h1 = eng().bounds(a)
    l2, h2 = eng().bounds(b)
    if h1 is not None and l2 is not None and h1 < l2:
        return False
    if h2 is not None and l1 is not None and h2 < l1:
        return False
    return a == b


def tlt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    l1, h1 = eng().bounds(a)
    l2, h2 = eng().bounds(b)
    if h1 is not None and l2 is not None and h1 < l2:
        return True
    if l1 is not None and h2 is not None and l1 >= h2:
        return False
    if isinstance(a, int):
        return b > a
    return a < b


def tle(a, b):
    return tnot(tlt(b, a))


def tnot(c):
    if c is True:
        return False
    if c is False:
        return True
    return z3.Not(c)


def tand(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def tor(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is not False:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


_tin_templates = {}
_tin_memo = {}  # (term, condition): the term is kept, so its id stays its own


def tin_ranges(t, ranges):
    """t within any of the inclusive (lo, hi) ranges"""
    if isinstance(t, int):
        return any(a <= t <= b for a, b in ranges)
    lo, hi = eng().bounds(t)
    if len(ranges) <= 12:
        key = (t.get_id(), tuple(map(tuple, ranges)), lo, hi)
        got = _tin_memo.get(key)
        if got is None:
            if len(_tin_memo) > 50000:
                _tin_memo.clear()
            got = _tin_memo[key] = (t, _tin(t, ranges, lo, hi))
        return got[1]
    # a long list: built once over a placeholder, then instantiated
    key = (tuple(map(tuple, ranges)), lo, hi)
    got = _tin_templates.get(key)
    if got is None:
        ph = z3.FreshInt("tin")
        got = _tin_templates[key] = (ph, _tin(ph, ranges, lo, hi))
    ph, c = got
    if c is True or c is False:
        return c
    return z3.substitute(c, (ph, t))


def _tin(t, ranges, lo, hi):
    cs = []
    for a, b in ranges:
        if hi is not None and a > hi:
            continue
        if lo is not None and b < lo:
            continue
        if lo is not None and hi is not None and a <= lo and hi <= b:
            return True
        if a == b:
            cs.append(t == a)
        else:
            c1 = True if lo is not None and a <= lo else t >= a
            c2 = True if hi is not None and b >= hi else t <= b
            cs.append(tand(c1, c2))
    return tor(*cs)


def tree_map(t, runs):
    """Piecewise map: runs = sorted list of (lo, hi, fn) covering t's domain."""
    if len(runs) == 1:
        return runs[0][2](t)
    mid = len(runs) // 2
    return tite(tlt(t, runs[mid][0]), tree_map(t, runs[:mid]), tree_map(t, runs[mid:]))


def digits(t, base, k, name):
    """k digit terms (most significant first) of 0 <= t < base**k."""
    if isinstance(t, int):
        out = []
        for _ in range(k):
            out.append(t % base)
            t //= base
        return out[::-1]
    e = eng()
    c = e.cache("digits")
    key = (t.get_id(), base, k)
    if key in c:
        return c[key][1]
    known = k > 1 and _redigit(t, base, k)
    if k == 1:
        ds = [t]
    elif known:
        ds = known
    else:
        ds = [e.fresh("%s[%d]" % (name, base), 0, base - 1) for _ in range(k)]
        s = 0
        for d in ds:
            s = s * base + d
        e.add(t == s)
        e.cache("undigits")[(base,) + tuple(d.get_id() for d in ds)] = (t, ds)
    c[key] = (t, ds)
    return ds


def below(t, bound):
    """t is known to be in 0..bound-1 (from the digits it was built of)"""
    if isinstance(t, int):
        return 0 <= t < bound
    h = eng().cache("numof").get(t.get_id())
    return h is not None and h[2] ** len(h[1]) <= bound


def _redigit(t, base, k):
    """the digits of a number put together from digits of a related base"""
    h = eng().cache("numof").get(t.get_id())
    if h is None:
        return None
    ds, b = list(h[1]), h[2]
    if b < base:
        m = 1
        while b**m < base:
            m += 1
        if b**m != base:
            return None
        ds = [0] * (-len(ds) % m) + ds
        ds = [undigits(ds[i : i + m], b) for i in range(0, len(ds), m)]
    elif b > base:
        m = 1
        while base**m < b:
            m += 1
        if base**m != b:
            return None
        ds = [x for d in ds for x in digits(d, base, m, "re")]
    # what does not fit in k digits is zero: t < base**k
    return ([0] * (k - len(ds)) + ds)[-k:] if len(ds) < k else ds[len(ds) - k :]


def undigits(ds, base, proper=False):
    """Inverse of digits (most significant first); proper: the path already
    says that each is a digit of that base."""
    if all(not isinstance(d, int) for d in ds):
        h = eng().cache("undigits").get((base,) + tuple(d.get_id() for d in ds))
        if h is not None:
            return h[0]
    s = 0
    for d in ds:
        s = tadd(tmul(s, base), d)
    if not isinstance(s, int) and len(ds) > 1:
        if not proper:
            proper = True
            for d in ds:
                lo, hi = eng().bounds(d)
                if lo is None or hi is None or lo < 0 or hi >= base:
                    proper = False
        if proper:
            eng().cache("numof")[s.get_id()] = (s, list(ds), base)
    if base == 256 and not isinstance(s, int):
        eng().cache("bytesof")[s.get_id()] = (s, list(ds))
    return s


def bits(t, k):
    """k booleans (least significant first) of 0 <= t < 2**k"""
    if isinstance(t, int):
        return [bool(t >> i & 1) for i in range(k)]
    e = eng()
    c = e.cache("bits")
    key = t.get_id()
    h = c.get(key)
    if h is not None and len(h[1]) >= k:
        return h[1][:k]
    d = e.cache("bytesof").get(key)
    if d is not None and 8 * len(d[1]) <= k + 7:
        bs = []
        for u in reversed(d[1]):
            bs += bits(u, 8)
        if len(bs) > k:
            e.add(z3.And(*[z3.Not(b) if not isinstance(b, bool) else z3.BoolVal(not b) for b in bs[k:]]))
            return bs[:k]
        bs += [False] * (k - len(bs))
        c[key] = (t, bs)
        return bs
    bs = [e.fresh_bool("bit") for _ in range(k)]
    e.add(t == z3.Sum([z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)) for i, b in enumerate(bs)]))
    c[key] = (t, bs)
    return bs


def from_bits(bs):
    """Integer with the given booleans (least significant first)."""
    const = 0
    parts = []
    for i, b in enumerate(bs):
        if b is True:
            const += 1 << i
        elif b is not False:
            parts.append(z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)))
    if not parts:
        return const
    if const:
        parts.append(z3.IntVal(const))
    t = parts[0] if len(parts) == 1 else z3.Sum(parts)
    e = eng()
    c = e.cache("bits")
    c[t.get_id()] = (t, list(bs))
    return t
