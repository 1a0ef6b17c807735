"""Path-exploring symbolic execution core (Z3 backed).

The program under analysis is real Python source, instrumented at AST level
(sx/loader.py) and run by CPython; symbolic values are proxies (sx/values.py).
Every branch on a symbolic condition arrives at Engine.decide, which asks the
solver which sides are feasible and explores both by re-execution.
"""
import time
import z3


class SxControl(BaseException):
    """Engine control flow; never visible to `except Exception`."""


class PathCut(SxControl):
    """This path is abandoned (infeasible assumption or a bound was hit)."""


class PathEnd(SxControl):
    """This path is complete: stop the harness here, checks still count."""


class Budget(SxControl):
    """The exploration budget of the task is used up."""


class EngineFault(SxControl):
    """The machinery itself failed; no verdict for the task."""


_ENGINE = None


def eng():
    return _ENGINE


def set_engine(e):
    global _ENGINE
    _ENGINE = e


IntVal = z3.IntVal


class Entry:
    __slots__ = ("kind", "val", "alts", "level")

    def __init__(self, kind, val, alts, level):
        self.kind = kind  # 'b' bool decision, 'v' concrete value, 'c' choice
        self.val = val
        self.alts = alts  # remaining alternatives
        self.level = level  # solver level before the entry's assertion


class Engine:
    def __init__(self, max_paths=200000, max_seconds=600.0, query_ms=20000, max_depth=6000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.trail = []
        self.pos = 0
        self.max_paths = max_paths
        self.deadline = time.time() + max_seconds
        self.max_depth = max_depth
        # statistics
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.paths = 0
        self.cut_paths = 0
        self.transitions = 0
        self.incomplete = {}
        self.fallbacks = {}
        self.functions = set()
        self.reached = {}
        self._bounds = {}
        self._model = None
        self.reset_path()

    # ---------------------------------------------------------------- paths
    def reset_path(self):
        self.pos = 0
        self.counter = {}
        self.caches = {}
        self.checks = []
        self.inputs = []
        self.observations = []
        self.pending_live = not self.trail
        self.universals = {}
        self.accessed = {}
        self.aborted = None
        self.loop_iters = 0
        self.known = {}

    def live(self):
        return self.pos >= len(self.trail)

    def note_incomplete(self, why):
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    def note_fallback(self, what):
        self.fallbacks[what] = self.fallbacks.get(what, 0) + 1

    def backtrack(self):
        """Move to the next unexplored path.  False when the tree is done."""
        while self.trail:
            e = self.trail[-1]
            if e.alts:
                return True
            self.trail.pop()
        return False

    def explore(self, run_once):
        """Depth-first exploration.  run_once() executes one path."""
        first = True
        while True:
            if not first:
                if not self.backtrack():
                    break
                e = self.trail[-1]
                # flip the last entry
                while self.solver.num_scopes() > e.level:
                    self.solver.pop()
                self._model = None
                e.val = e.alts.pop(0)
                e.kind = e.kind + "*"  # marks: assertion must be (re)made live
            first = False
            self.reset_path()
            self.paths += 1
            try:
                run_once()
            except PathCut as cut:
                self.cut_paths += 1
                why = str(cut)
                if why in ("float", "bit_length", "decimal width", "hex width", "binary width", "open", "newline translation"):
                    self.note_incomplete("not modelled: " + why)
            except PathEnd:
                pass
            if self.paths >= self.max_paths or time.time() > self.deadline:
                if self.backtrack():
                    self.note_incomplete("path/time budget reached")
                break

    # --------------------------------------------------------------- solver
    def check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t0
        self.queries += 1
        if r == z3.unknown:
            self.unknowns += 1
            self.note_incomplete("solver answered unknown")
        if time.time() > self.deadline + 30:
            raise Budget()
        return r

    def add(self, c):
        """Assert a constraint on this path (definition or assumption)."""
        if c is True:
            return
        if self.pos < len(self.trail):
            return  # replaying a prefix: already on the solver
        if c is False:
            self.solver.add(z3.BoolVal(False))
        else:
            self.solver.add(c)
        self._model = None

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathCut("assumption false")
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathCut("assumption false")
        if self.pos < len(self.trail):
            return
        self.solver.add(c)
        self._model = None
        if self.check() == z3.unsat:
            raise PathCut("assumption infeasible")

    def _push(self):
        self.solver.push()

    def model(self):
        if self._model is None:
            r = self.check()
            if r != z3.sat:
                return None
            self._model = self.solver.model()
        return self._model

    def decide(self, c):
        """Branch on boolean term c; returns the Python bool for this path."""
        if c is True or c is False:
            return c
        # a condition decided before on this path (the term is kept, so that
        # its identity is not reused)
        k0 = c.get_id()
        k = self.known.get(k0)
        if k is not None:
            return k[1]
        c0, c = c, z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k1 = c.get_id()
        k = self.known.get(k1)
        if k is not None:
            self.known[k0] = (c0, k[1])
            return k[1]
        v = self._decide(c)
        self.known[k0] = (c0, v)
        self.known[k1] = (c, v)
        return v

    def _decide(self, c):
        self.transitions += 1
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind[0] != "b":
                raise EngineFault("nondeterministic re-execution (expected %s)" % e.kind)
            self.pos += 1
            if e.kind == "b*":
                # flipped just now: assert its side live
                e.kind = "b"
                self._push()
                self.solver.add(c if e.val else z3.Not(c))
                self._model = None
            return e.val
        if len(self.trail) > self.max_depth:
            self.note_incomplete("path depth bound hit")
            raise PathCut("depth")
        m = self._model
        known = None
        if m is not None:
            v = m.eval(c, model_completion=True)
            known = True if z3.is_true(v) else False if z3.is_false(v) else None
        if known is True:
            ft, ff = True, None
        elif known is False:
            ft, ff = None, True
        else:
            ft = ff = None
        newmodel = None
        if ft is None:
            r = self.check(c)
            ft = r != z3.unsat
            if r == z3.sat:
                newmodel = self.solver.model()
        if ff is None:
            if not ft:
                ff = True
            else:
                r = self.check(z3.Not(c))
                ff = r != z3.unsat
        lvl = self.solver.num_scopes()
        if ft and ff:
            self.trail.append(Entry("b", True, [False], lvl))
            self.pos += 1
            self._push()
            self.solver.add(c)
            if known is not True:
                self._model = newmodel
            return True
        val = bool(ft)
        self.trail.append(Entry("b", val, [], lvl))
        self.pos += 1
        return val

    def choose(self, n, label=""):
        """Solver-free fork over range(n)."""
        if n <= 0:
            raise PathCut("empty choice")
        if n == 1:
            return 0
        self.transitions += 1
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind[0] != "c":
                raise EngineFault("nondeterministic re-execution (expected %s)" % e.kind)
            self.pos += 1
            if e.kind == "c*":
                e.kind = "c"
                self._push()
            return e.val
        lvl = self.solver.num_scopes()
        self.trail.append(Entry("c", 0, list(range(1, n)), lvl))
        self.pos += 1
        self._push()
        return 0

    def concretize(self, t, limit=700, why=None):
        """Fork over the feasible values of integer term t; complete unless
        `limit` values is exceeded (then noted as incomplete)."""
        if isinstance(t, int):
            return t
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        k = 0
        while True:
            # the candidate value must be the same on re-execution
            if self.pos < len(self.trail):
                e = self.trail[self.pos]
                if e.kind[0] != "v":
                    raise EngineFault("nondeterministic re-execution (expected %s)" % e.kind)
                v, taken = e.val
                self.pos += 1
                self.transitions += 1
                if e.kind == "v*":
                    e.kind = "v"
                    self._push()
                    self.solver.add(t == v if taken else t != v)
                    self._model = None
                if taken:
                    return v
                k += 1
                continue
            if k >= limit:
                self.note_incomplete("value enumeration limit (%s)" % (why or "concretize"))
                raise PathCut("concretize limit")
            m = self.model()
            if m is None:
                raise PathCut("infeasible")
            v = m.eval(t, model_completion=True).as_long()
            self.transitions += 1
            r = self.check(t != v)
            lvl = self.solver.num_scopes()
            if r == z3.unsat:
                self.trail.append(Entry("v", (v, True), [], lvl))
                self.pos += 1
                return v
            self.trail.append(Entry("v", (v, True), [(v, False)], lvl))
            self.pos += 1
            self._push()
            self.solver.add(t == v)
            return v

    # ---------------------------------------------------------------- terms
    def name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return base if k == 0 else "%s!%d" % (base, k)

    def fresh(self, base, lo=None, hi=None):
        x = z3.Int(self.name(base))
        if lo is not None:
            self.add(x >= lo)
        if hi is not None:
            self.add(x <= hi)
        self._bounds[x.get_id()] = (x, lo, hi)
        return x

    def fresh_bool(self, base):
        return z3.Bool(self.name(base))

    def set_bounds(self, t, lo, hi):
        self._bounds[t.get_id()] = (t, lo, hi)

    def bounds(self, t):
        if isinstance(t, int):
            return t, t
        i = t.get_id()
        b = self._bounds.get(i)
        if b is not None:
            return b[1], b[2]
        lo, hi = self._calc_bounds(t)
        if len(self._bounds) > 400000:
            self._bounds.clear()
        self._bounds[i] = (t, lo, hi)
        return lo, hi

    def _calc_bounds(self, t):
        if z3.is_int_value(t):
            v = t.as_long()
            return v, v
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in t.children():
                l, h = self.bounds(c)
                lo = None if lo is None or l is None else lo + l
                hi = None if hi is None or h is None else hi + h
            return lo, hi
        if k == z3.Z3_OP_SUB:
            cs = t.children()
            lo, hi = self.bounds(cs[0])
            for c in cs[1:]:
                l, h = self.bounds(c)
                lo = None if lo is None or h is None else lo - h
                hi = None if hi is None or l is None else hi - l
            return lo, hi
        if k == z3.Z3_OP_UMINUS:
            l, h = self.bounds(t.arg(0))
            return (None if h is None else -h), (None if l is None else -l)
        if k == z3.Z3_OP_MUL and t.num_args() == 2:
            a, b = t.children()
            if z3.is_int_value(b):
                a, b = b, a
            if z3.is_int_value(a):
                c = a.as_long()
                l, h = self.bounds(b)
                if c < 0:
                    l, h = h, l
                return (None if l is None else l * c), (None if h is None else h * c)
            return None, None
        if k == z3.Z3_OP_ITE:
            l1, h1 = self.bounds(t.arg(1))
            l2, h2 = self.bounds(t.arg(2))
            return (
                None if l1 is None or l2 is None else min(l1, l2),
                None if h1 is None or h2 is None else max(h1, h2),
            )
        if k == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)):
            c = t.arg(1).as_long()
            if c > 0:
                l, h = self.bounds(t.arg(0))
                return (None if l is None else l // c), (None if h is None else h // c)
        if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)):
            c = t.arg(1).as_long()
            if c > 0:
                l, h = self.bounds(t.arg(0))
                if l is not None and h is not None and 0 <= l and h < c:
                    return l, h
                return 0, c - 1
        return None, None

    def cache(self, kind):
        d = self.caches.get(kind)
        if d is None:
            d = self.caches[kind] = {}
        return d
