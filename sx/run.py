"""Runs one task: a harness function under symbolic execution."""
import importlib
import os
import sys
import time
import traceback

import z3

from . import engine as E
from .engine import Engine, PathCut, PathEnd, SxControl, Budget, EngineFault, set_engine
from .loader import World, fresh_world
from . import native as N
from .vapi import SymV
from .values import *
from . import values as VV

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ----------------------------------------------------------- concretisation
def _mv(m, t):
    if isinstance(t, (int, bool)):
        return t
    v = m.eval(t, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return v.as_long()


def _blocks(parts, out):
    for p in parts:
        if isinstance(p, Block):
            out.append(p)


def _expand(e, parts, m, cap):
    """Fix block lengths to the model's values and read their elements."""
    out = []
    for p in parts:
        if isinstance(p, Block):
            n = _mv(m, p.n)
            if not isinstance(p.n, int):
                e.solver.add(p.n == n)
            if n <= (cap if isinstance(p, BaseBlock) else 80):
                out += [p.get(i) for i in range(n)]
            elif isinstance(p, BaseBlock):
                # too long to spell out: both ends, and the middle stands for
                # every element nothing was said about
                at = sorted(set(range(24)) | set(range(n - 24, n)) | {n // 2})
                out.append(("fill", p, n, {i: p.get(i) for i in at}))
            else:
                # too long to spell out: some elements, the rest unknown
                at = sorted(set(range(24)) | set(range(n - 24, n)) | {n // 2})
                out.append(("some", {i: p.get(i) for i in at}, n))
        else:
            out += p
    return out


def _value(m, us, e):
    r = []
    for u in us:
        if isinstance(u, tuple) and u[0] == "some":
            r += [_mv(m, u[1][i]) if i in u[1] else None for i in range(u[2])]
        elif isinstance(u, tuple):
            _, p, n, some = u
            acc = e.cache(("acc", p.name))
            vals = {}
            for ti, x in acc.values():
                vals[_mv(m, ti)] = _mv(m, x)
            for i, x in some.items():
                vals[i] = _mv(m, x)
            fill = vals[n // 2]
            r += [vals.get(i, fill) for i in range(n)]
        else:
            r.append(_mv(m, u))
    return r


def concretize_model(e, V, extra=(), small=True, want_obs=False):
    """A model of the current path (plus extra constraints) -> concrete inputs
    (and observations).  None when there is none."""
    s = e.solver
    s.push()
    saved_pos, e.pos = e.pos, len(e.trail)  # e.add is live here
    acc_caches = {k: dict(v) for k, v in e.caches.items()}
    try:
        for c in extra:
            s.add(c)
        if e.check() != z3.sat:
            return None
        m = s.model()
        blobs = [p for _, k, pl in V.inputs if k in ("bytes", "text") for p in pl if isinstance(p, Block)]
        if blobs and small:
            for lim in (4, 12, 48, 300):
                c = z3.And([iv(b.n) <= lim for b in blobs])
                if e.check(c) == z3.sat:
                    m = s.model()
                    s.add(c)
                    break
        cap = 600
        ins = []
        for name, kind, pl in V.inputs:
            if kind in ("bytes", "text"):
                ins.append((name, kind, _expand(e, pl, m, cap)))
            else:
                ins.append((name, kind, pl))
        obs = []
        if want_obs:
            for name, v in V.obs:
                obs.append((name, _expand_value(e, v, m, cap)))
        if blobs or obs:
            if e.check() != z3.sat:
                return None
            m = s.model()
        vals = {}
        for name, kind, pl in ins:
            if kind == "const":
                vals[name] = pl
            elif kind in ("int", "bool"):
                vals[name] = _mv(m, pl)
            elif kind == "bytes":
                vals[name] = bytes(_value(m, pl, e))
            elif kind == "text":
                vals[name] = "".join(map(chr, _value(m, pl, e)))
        if want_obs:
            return vals, [(n, _obs_value(m, v, e)) for n, v in obs]
        return vals
    finally:
        s.pop()
        e.pos = saved_pos
        e.caches = acc_caches
        e._model = None


class _Seq:
    def __init__(self, base, units):
        self.base = base
        self.units = units


def _expand_value(e, v, m, cap):
    if isinstance(v, SymSeq):
        return _Seq(v._base if type(v) is not SymByteArray else bytearray, _expand(e, v.parts, m, cap))
    if isinstance(v, dict) and v.__class__ is dict:
        return ("dict", [(_expand_value(e, k, m, cap), _expand_value(e, x, m, cap)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return ("set", v.__class__, [_expand_value(e, x, m, cap) for x in v])
    if type(v) is list:
        return [_expand_value(e, x, m, cap) for x in v]
    if type(v) is tuple:
        return ("tuple", [_expand_value(e, x, m, cap) for x in v])
    return v


def _obs_value(m, v, e):
    if isinstance(v, _Seq):
        u = _value(m, v.units, e)
        if None in u:
            return N.Partial(v.base, u)
        return v.base(u) if v.base is not str else "".join(map(chr, u))
    if isinstance(v, tuple) and v and v[0] == "dict":
        return {_obs_value(m, k, e): _obs_value(m, x, e) for k, x in v[1]}
    if isinstance(v, tuple) and v and v[0] == "set":
        return v[1](_obs_value(m, x, e) for x in v[2])
    if isinstance(v, tuple) and v and v[0] == "tuple":
        return tuple(_obs_value(m, x, e) for x in v[1])
    if isinstance(v, list):
        return [_obs_value(m, x, e) for x in v]
    if isinstance(v, SymInt):
        return _mv(m, v.t)
    if isinstance(v, SymBool):
        return _mv(m, v.c)
    return v


# ------------------------------------------------------------ native replay
_NATIVE = {}


def native_harness(module, func):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    return getattr(importlib.import_module("harness." + module), func)


def run_native(module, func, cfg, inputs):
    """-> dict(status, failed, obs)"""
    w = World(instrument=False)
    w.load("iso8583")
    w.load("iso8583.specs")
    V = N.ReplayV(inputs, w.modules["iso8583"], w.modules["iso8583.specs"], w.modules)
    out = {"failed": [], "error": None, "assume": False}
    try:
        native_harness(module, func)(V, cfg)
    except N.AssumeFailed:
        out["assume"] = True
    except Exception as x:
        out["error"] = "%s: %s" % (type(x).__name__, x)
        out["tb"] = traceback.format_exc()
    out["failed"] = list(V.failed)
    out["obs"] = V.obs
    out["checked"] = len(V.checked)
    return out


# ------------------------------------------------------------------- a task
def run_task(task):
    t0 = time.time()
    cfg = task["cfg"]
    e = Engine(
        max_paths=task.get("max_paths", 100000),
        max_seconds=task.get("max_seconds", 300.0),
        query_ms=task.get("query_ms", 20000),
        max_depth=task.get("max_depth", 6000),
    )
    set_engine(e)
    res = {
        "prop": task["prop"], "name": task["name"], "violations": [], "unconfirmed": [], "mismatch": [],
        "checks": 0, "validated": 0, "samples": [], "fault": None,
    }
    try:
        hw = World(root=HERE, instrument=True, pkg="harness")
        fn = getattr(hw.load("harness." + task["module"]), task["func"])
    except Exception:
        res["fault"] = traceback.format_exc()
        return _finish(res, e, t0)
    vmax = task.get("validate", 12)
    state = {"done": 0, "validated": 0}
    seen = set()

    def once():
        V = None
        escaped = None
        try:
            V = SymV(task)
            fn(V, cfg)
        except PathEnd:
            pass
        except Exception as x:
            escaped = x
            if V is None:
                raise EngineFault("package under test does not load: %r" % (x,))
        state["done"] += 1
        evaluate(V, escaped)

    def report(V, label, extra, detail=None):
        if label in seen and len(res["violations"]) > 3:
            return
        ins = concretize_model(e, V, extra)
        if ins is None:
            return
        r = run_native(task["module"], task["func"], cfg, ins)
        ok = (label in r["failed"]) or (label == "uncaught" and r["error"] is not None) or bool(r["failed"]) or (r["error"] is not None)
        rec = {"label": label, "inputs": ins, "native": {k: r[k] for k in ("failed", "error", "assume")}, "detail": detail,
               "module": task["module"], "func": task["func"], "cfg": cfg}
        if ok and not r["assume"]:
            seen.add(label)
            res["violations"].append(rec)
        else:
            res["unconfirmed"].append(rec)

    def evaluate(V, escaped):
        res["checks"] += len(V.checks)
        if escaped is not None:
            tb = "".join(traceback.format_exception(type(escaped), escaped, escaped.__traceback__))[-3000:]
            report(V, "uncaught", (), tb)
            return
        bad = []
        for label, c in V.checks:
            if c is True:
                continue
            if c is False:
                bad.append((label, z3.BoolVal(True)))
            else:
                bad.append((label, z3.Not(c)))
        if bad:
            q = z3.Or([b for _, b in bad]) if len(bad) > 1 else bad[0][1]
            r = e.check(q)
            if r != z3.unsat:
                if r == z3.unknown and len(bad) > 1:
                    pass
                for label, b in bad:
                    if len(res["violations"]) >= 4 or len(res["unconfirmed"]) >= 4:
                        break
                    rr = e.check(b) if len(bad) > 1 else r
                    if rr == z3.sat:
                        report(V, label, (b,))
        if len(res["violations"]) >= 4:
            raise Budget()
        # witness validation: the same input on the un-instrumented code
        k = state["done"]
        if state["validated"] < vmax and (k <= 3 or k % task.get("validate_every", 7) == 0):
            wi = concretize_model(e, V, (), want_obs=True)
            if wi is None:
                if e.check() == z3.unsat:
                    state["dead"] = state.get("dead", 0) + 1
                return
            ins, obs = wi
            r = run_native(task["module"], task["func"], cfg, ins)
            state["validated"] += 1
            if r["assume"]:
                res["mismatch"].append({"why": "assumption false natively", "inputs": ins})
            elif r["error"] and not res["violations"]:
                res["mismatch"].append({"why": "native run raised " + r["tb"][-1500:], "inputs": ins})
            elif not _obs_equal(r["obs"], obs):
                res["mismatch"].append({"why": "observations differ", "inputs": ins, "native": repr(r["obs"])[:2000], "model": repr(obs)[:2000]})
            elif r["failed"] and not res["violations"]:
                res["mismatch"].append({"why": "native check failed: %s" % r["failed"], "inputs": ins})
            else:
                res["validated"] += 1
                if len(res["samples"]) < 2:
                    res["samples"].append({"task": task["name"], "inputs": {k: repr(v)[:160] for k, v in ins.items()}})

    try:
        e.explore(once)
    except Budget:
        if not res["violations"]:
            e.note_incomplete("task budget reached")
    except EngineFault as x:
        res["fault"] = "EngineFault: %s\n%s" % (x, traceback.format_exc()[-2500:])
    except RecursionError:
        res["fault"] = "RecursionError " + traceback.format_exc()[-1500:]
    except z3.Z3Exception as x:
        res["fault"] = "Z3Exception %s %s" % (x, traceback.format_exc()[-2500:])
    # a late consequence can show one path to be empty, but not every path
    if state.get("dead") and not state["validated"]:
        e.note_incomplete("contradictory assumptions: nothing was explored")
    return _finish(res, e, t0)


def _obs_equal(a, b):
    if len(a) != len(b):
        return False
    for (n1, v1), (n2, v2) in zip(a, b):
        if n1 != n2 or not N._same(v1, v2):
            return False
    return True


def _finish(res, e, t0):
    res.update(
        paths=e.paths, cut=e.cut_paths, transitions=e.transitions, queries=e.queries, solver_s=e.solver_s,
        incomplete=e.incomplete, fallbacks=e.fallbacks, functions=sorted(e.functions), reached=e.reached,
        seconds=time.time() - t0, unknowns=e.unknowns,
    )
    return res
