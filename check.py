#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current source.

  check.py C07 [--tier quick|thorough]     run the check
  check.py --replay replays/C07-1.json     show a counterexample on the real package

Exit 0: held on everything explored.  1: VIOLATION line(s).  2: no verdict.
"""
import argparse
import base64
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VP_REPO", "/repo")
LEVEL = "model_checking"
WORKERS = int(os.environ.get("VP_WORKERS", "0")) or min(8, os.cpu_count() or 2)
WALL = {"quick": 600.0, "thorough": 7200.0}
TASK = {"quick": 120.0, "thorough": 1500.0}


# ------------------------------------------------------------------ replays
def pack(v):
    if isinstance(v, (bytes, bytearray)):
        return {"bytes": bytes(v).hex()}
    if isinstance(v, bool) or isinstance(v, int):
        return {"val": v}
    if isinstance(v, str):
        return {"text": [ord(c) for c in v], "shown": repr(v)[:200]}
    raise TypeError(type(v))


def unpack(d):
    if "bytes" in d:
        return bytes.fromhex(d["bytes"])
    if "text" in d:
        return "".join(map(chr, d["text"]))
    return d["val"]


def replay(path):
    """Runs the recorded input through the harness on the real package, plain
    CPython, no solver.  Exit 1 when the property is violated."""
    import importlib

    with open(path) as f:
        rec = json.load(f)
    sys.path.insert(0, rec.get("repo") if os.path.isdir(rec.get("repo") or "") and "VP_REPO" not in os.environ else REPO)
    import iso8583
    import iso8583.specs
    from sx.native import AssumeFailed, ReplayV

    V = ReplayV({k: unpack(v) for k, v in rec["inputs"].items()}, iso8583, iso8583.specs)
    fn = getattr(importlib.import_module("harness." + rec["module"]), rec["func"])
    print("property  %s  task %s" % (rec["property"], rec["task"]))
    print("package   %s, python %s" % (os.path.dirname(iso8583.__file__), sys.version.split()[0]))
    for k, v in rec["inputs"].items():
        print("input     %s = %s" % (k, repr(unpack(v))[:300]))
    try:
        fn(V, rec["cfg"])
    except AssumeFailed:
        print("RESULT assumption-false")
        return 3
    except Exception as e:
        print("FAILED    uncaught %s: %s" % (type(e).__name__, str(e)[:300]))
        print("RESULT violated")
        return 1
    for n, v in V.obs:
        print("observed  %s = %s" % (n, repr(v)[:600]))
    for l in dict.fromkeys(V.failed):
        print("FAILED    " + l)
    print("RESULT " + ("violated" if V.failed else "held"))
    return 1 if V.failed else 0


def confirm(path):
    """The same in a fresh process of the project's own interpreter."""
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        p = subprocess.run([py, os.path.join(HERE, "check.py"), "--replay", path], env=env, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    return p.returncode == 1 and "RESULT violated" in p.stdout, p.stdout + p.stderr[-2000:]


# ------------------------------------------------------------------ workers
def _worker(conn):
    from sx.run import run_task

    while True:
        try:
            t = conn.recv()
        except EOFError:
            return
        if t is None:
            return
        try:
            r = run_task(t)
        except BaseException as e:  # noqa
            import traceback

            r = {"fault": "%s %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:]), "name": t["name"]}
        conn.send(r)


class Worker:
    def __init__(self, ctx):
        self.ctx = ctx
        self.start()

    def start(self):
        self.conn, child = self.ctx.Pipe()
        self.p = self.ctx.Process(target=_worker, args=(child,), daemon=True)
        self.p.start()
        child.close()
        self.task = None
        self.since = 0.0
        self.done = 0

    def give(self, t):
        self.task = t
        self.since = time.time()
        self.conn.send(t)

    def stop(self):
        try:
            self.p.kill()
            self.p.join()
            self.conn.close()
        except Exception:
            pass


def run_all(tasks, wall, stop_on):
    """yields (task, result)"""
    ctx = mp.get_context("spawn")
    ws = [Worker(ctx) for _ in range(min(WORKERS, max(1, len(tasks))))]
    light = ws[-2:] if len(ws) > 3 else []
    todo = list(reversed(tasks))
    end = time.time() + wall
    try:
        while True:
            for w in ws:
                if w.task is None and todo and time.time() < end and not stop_on():
                    if w.done >= 60:
                        w.stop()
                        w.start()
                    # the heavy tasks first; two workers start from the light
                    # end, so that a defect which light inputs show is not
                    # waiting behind searches it slows down
                    w.give(todo.pop(0 if w in light else -1))
            busy = [w for w in ws if w.task is not None]
            if not busy:
                break
            ready = mp.connection.wait([w.conn for w in busy], timeout=1.0)
            for w in busy:
                t = w.task
                if w.conn in ready:
                    try:
                        r = w.conn.recv()
                        w.task = None
                        w.done += 1
                    except (EOFError, OSError):
                        r = {"fault": "worker died (memory?)"}
                        w.stop()
                        w.start()
                    yield t, r
                elif time.time() - w.since > t["max_seconds"] + 60 or stop_on() or time.time() > end + 60:
                    r = {"fault": "stopped" if stop_on() else "deadline"}
                    w.stop()
                    w.start()
                    yield t, r
    finally:
        for w in ws:
            w.stop()
    for t in reversed(todo):
        yield t, {"fault": "not run"}


# -------------------------------------------------------------------- check
def known_findings(prop):
    """[(task-name prefix, label, description)] from KNOWN_FINDINGS"""
    out = []
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS")) as f:
            for ln in f:
                if ln.startswith("finding: property=%s " % prop):
                    d = json.loads(ln.split(" ", 2)[2])
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def is_known(rec, known):
    for d in known:
        if rec["func"] == d["func"] and rec["cfg"] == d["cfg"] and rec["label"] == d["label"]:
            return d
    return None


def main(prop, tier):
    from harness.tasks import tasks, TITLES

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ts = tasks(prop, tier)
    if os.environ.get("VP_ONLY"):
        import re

        ts = [t for t in ts if re.search(os.environ["VP_ONLY"], t["name"])]
    for t in ts:
        t["prop"] = prop
        t.setdefault("max_seconds", TASK[tier])
        t.setdefault("query_ms", 20000 if tier == "quick" else 120000)
    # values of any length are the heavy end, short ones of every shape the light
    ts.sort(key=lambda t: -t.get("cost", 1 if '"blob"' in json.dumps(t["cfg"]) else 0.5))
    known = known_findings(prop)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tot = dict(paths=0, cut=0, transitions=0, queries=0, solver_s=0.0, checks=0, validated=0, unknowns=0)
    functions, samples, reached = set(), [], {}
    incomplete, fallbacks, faults, unconfirmed, skipped = {}, {}, [], [], 0
    confirmed, shown_known = [], []
    slow = []
    decided = 0
    nrep = 0
    verbose = os.environ.get("VP_VERBOSE")

    for t, r in run_all(ts, WALL[tier], lambda: len(confirmed) >= 1):
        if "paths" in r:
            for k in tot:
                tot[k] += r.get(k, 0)
            functions.update(r["functions"])
            if len(samples) < 8 and r["samples"]:
                samples.append(r["samples"][0])
            for k, v in r["reached"].items():
                reached[k] = reached.get(k, 0) + v
            for k, v in r["incomplete"].items():
                incomplete.setdefault(k, []).append(t["name"])
            for k, v in r["fallbacks"].items():
                fallbacks[k] = fallbacks.get(k, 0) + v
            slow.append((round(r["seconds"], 1), t["name"], r["paths"]))
            if verbose:
                print("%7.1fs %6d paths %5d queries %7.1fs solver  %s" % (r["seconds"], r["paths"], r["queries"], r["solver_s"], t["name"]))
                for k in ("incomplete", "fallbacks"):
                    if r[k]:
                        print("         %s %s" % (k, r[k]))
        if r.get("fault"):
            if r["fault"] in ("stopped", "not run") and confirmed:
                skipped += 1
                continue
            faults.append((t["name"], r["fault"]))
            continue
        miss = [x for x in t.get("need", ()) if not r["reached"].get(x)]
        if miss and not r["violations"] and not r["incomplete"]:
            faults.append((t["name"], "vacuous: never reached %s" % miss))
        if r["mismatch"]:
            faults.append((t["name"], "model and implementation disagree: " + json.dumps(r["mismatch"][:1], default=repr)[:1500]))
        for u in r["unconfirmed"]:
            unconfirmed.append((t["name"], u["label"]))
        if not r["incomplete"] and not r["mismatch"] and not miss:
            decided += 1
        for v in r["violations"]:
            if len(confirmed) >= 3:
                break
            d = is_known(v, known)
            nrep += 1
            path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, nrep))
            rec = {"property": prop, "task": t["name"], "label": v["label"], "module": v["module"], "func": v["func"],
                   "cfg": v["cfg"], "repo": os.path.abspath(REPO), "inputs": {k: pack(x) for k, x in v["inputs"].items()}}
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            ok, log = confirm(path)
            if not ok:
                unconfirmed.append((t["name"], v["label"] + " [not reproduced by the installed interpreter] " + log[-600:]))
                continue
            if d is not None:
                if d["what"] not in shown_known:
                    shown_known.append(d["what"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
                continue
            confirmed.append((t["name"], v["label"], path))
            print("counterexample in %s: %s" % (t["name"], v["label"]))
            print("\n".join("  " + x for x in log.splitlines()[:14]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            sys.stdout.flush()

    # ---------------------------------------------------------------- report
    slow.sort(reverse=True)
    wall = time.time() - t0
    title = TITLES.get(prop, "")
    print("%s %s [%s]" % (prop, title, tier))
    print("  %d tasks, %d fully decided within their bounds; %d paths, %d branch decisions, %d solver queries, %.1fs solver time, %.1fs wall"
          % (len(ts), decided, tot["paths"], tot["transitions"], tot["queries"], tot["solver_s"], wall))
    print("  %d assertions, %d paths re-run on the real code with identical observations, %d functions encoded"
          % (tot["checks"], tot["validated"], len(functions)))
    for why, names in sorted(incomplete.items()):
        print("  INCOMPLETE %s: %s" % (why, ", ".join(names[:6]) + (" ..." if len(names) > 6 else "")))
    for k, v in sorted(fallbacks.items()):
        print("  FALLBACK %s x%d (values enumerated)" % (k, v))
    for n, l in unconfirmed[:6]:
        print("  INCONCLUSIVE %s: counterexample to %r did not reproduce on the real code" % (n, l[:700]))
    for n, l in faults[:6]:
        print("  NO VERDICT %s: %s" % (n, l.strip()[-900:]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "states": tot["paths"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["validated"],
            "samples": samples[:8] or [{"task": t["name"]} for t in ts[:2]],
            "explanation": "states = symbolic paths, each covering all inputs that take it; transitions = branch decisions; validated traces = paths whose witness was run on the un-instrumented code with identical observations",
            "tasks": len(ts), "tasks_decided": decided, "assertions": tot["checks"], "queries_discharged": tot["queries"],
            "solver_seconds": round(tot["solver_s"], 2), "solver_unknown": tot["unknowns"], "paths_infeasible": tot["cut"],
            "functions_encoded": sorted(functions), "reached": reached,
            "bounds": [{"task": t["name"], "harness": t["module"] + "." + t["func"], "cfg": json.loads(json.dumps(t["cfg"], default=repr))} for t in ts[:400]],
            "slowest_tasks": slow[:5],
            "incomplete": {k: v[:40] for k, v in incomplete.items()}, "fallbacks": fallbacks,
            "no_verdict": [[n, l[-300:]] for n, l in faults[:40]], "not_reproduced": [[n, l[:300]] for n, l in unconfirmed[:40]],
            "skipped_after_violation": skipped, "known_findings": shown_known,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    if not os.environ.get("VP_ONLY"):
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
    if confirmed:
        return 1
    if decided == 0:
        print("  no task gave a verdict")
        return 2
    print("  held on everything explored")
    return 0


ASSUMPTIONS = [
    "CPython's control flow is the interpreter's own; str/bytes/int/dict operations on symbolic values follow sx/values.py and sx/models.py, validated on every run by re-running path witnesses on the un-instrumented code",
    "codecs are modelled by solver terms built from the installed codec tables (single byte) or the UTF-8 definition",
    "inputs are within the bounds listed per task; outside them nothing is claimed",
    "z3 is sound; 'unknown' is reported as incomplete, never as held",
]

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    import multiprocessing.connection

    sys.exit(main(a.prop, a.tier))
