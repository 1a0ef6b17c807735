"""Exercises the executor's models of Python operations (no property): what the
symbolic run predicts is compared with native runs by the usual validation.
tools/selftest.py generates the operations as a stand-in package and runs this."""
from harness.lib import *


def expr(V, cfg):
    n = cfg.get("n", 3)
    if cfg.get("long"):
        s = V.longtext("s", 0, cfg["long"], cfg["chars"])
        b = V.blob("b", 0, cfg["long"])
    else:
        s = V.text("s", n, cfg["chars"]) if cfg.get("s", True) else "abc"
        b = V.bytes("b", n, cfg.get("octets", BYTE)) if cfg.get("b") else b"abc"
    if cfg.get("mutable"):
        b = bytearray(b)
    k = V.int("k", 0, 5) if cfg.get("k") else 2
    d = None
    if cfg.get("d"):
        d = V.sdict([(s, "v"), ("2", "x"), ("11", "y")])
    try:
        r = V.iso.OPS[cfg["op"]](s, b, k, d)
    except AssertionError:
        r = "assert"
    except Exception as e:
        r = "raised " + type(e).__name__
    V.observe("r", r)
    V.observe("args", [s, b, k, d])
