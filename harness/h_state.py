"""C16 inputs and results are independent, C17 history independence,
C18 input and result types."""
from harness import ref
from harness.h_pp import field_text, print_order
from harness.lib import *
from harness.scen import *
import array
import collections
import collections.abc
import contextlib
import io
import types


def _deep(sp):
    return {k: dict(v) for k, v in sp.items()}


# ------------------------------------------------------------------- C16
def dec_pure(V, cfg):
    sp = spec_of(cfg)
    keep = _deep(sp)
    msg = message(V, cfg, sp)
    given = bytearray(msg) if cfg.get("bytearray") else msg
    use = types.MappingProxyType({k: types.MappingProxyType(v) for k, v in sp.items()}) if cfg.get("proxy") else sp
    ok, r = attempt(V.iso.decode, given, use)
    see_decode(V, "dec", ok, r)
    V.check(sp == keep and list(sp) == list(keep), "decode leaves the specification alone")
    V.check(V.same(bytes(given), msg), "decode leaves the message alone")
    if not ok:
        _fresh_error(V, r, lambda: attempt(V.iso.decode, given, use), ("doc_dec", "doc_enc"))
        return
    d, e = r
    kd, ke = V.snapshot(d), V.snapshot(e)
    V.check(d is not e, "two documents")
    # writing to one result changes nothing else
    if cfg.get("bytearray"):
        for i in range(len(given)):
            given[i] = 0
        V.check(V.same(d, kd) and V.same(e, ke), "results do not change with the message buffer")
    for k in list(d):
        d[k] = "x"
    V.check(V.same(e, ke), "encoded document does not change with the decoded one")
    for k in list(e):
        e[k]["data"] = b"x"
        e[k]["len"] = b"y"
        rest = {j: v for j, v in e.items() if j != k}
        V.check(V.same(rest, {j: ke[j] for j in rest}), "pieces of different fields are different objects")
        e[k] = dict(ke[k])
    V.check(sp == keep, "results are not part of the specification")
    # the specification is not part of the results
    ok2, r2 = attempt(V.iso.decode, msg, sp)
    V.check(ok2 and V.same(r2[0], kd) and V.same(r2[1], ke), "results of a second call are not those modified before")
    for k in sp:
        sp[k]["desc"] = "other"
        sp[k]["max_len"] = 0
    if ok2:
        V.check(V.same(r2[0], kd) and V.same(r2[1], ke), "results do not change with the specification")


def _fresh_error(V, r, again, docs):
    """what an error carries is its own"""
    was = {a: V.snapshot(getattr(r, a)) for a in docs}
    for a in docs:
        d = getattr(r, a)
        for k in list(d):
            if isinstance(d[k], dict):
                d[k]["data"] = b"x"
                d[k]["more"] = b"y"
        d["x"] = "y"
    ok2, r2 = again()
    V.check(not ok2 and all([V.same(getattr(r2, a), was[a]) for a in docs]), "an error is not one modified before")


def enc_pure(V, cfg):
    sp = spec_of(cfg)
    keep = _deep(sp)
    doc = document(V, cfg, sp)
    for k in cfg.get("extra", ()):
        doc[k] = V.text("x" + k, 2)
    before = dict(doc)
    use = types.MappingProxyType({k: types.MappingProxyType(v) for k, v in sp.items()}) if cfg.get("proxy") else sp
    ok, r = attempt(V.iso.encode, doc, use)
    see_encode(V, "enc", ok, r, doc)
    V.check(sp == keep and list(sp) == list(keep), "encode leaves the specification alone")
    own = ("p", "1", "65")
    a = {k: v for k, v in doc.items() if k not in own}
    b = {k: v for k, v in before.items() if k not in own}
    V.check(V.same(a, b), "encode changes no field but the bitmaps")
    if not ok:
        _fresh_error(V, r, lambda: attempt(V.iso.encode, dict(before), use), ("doc_enc",))
        return
    msg, e = r
    km, ke, kd = bytes(msg), V.snapshot(e), dict(doc)
    if cfg.get("poke") == "clear":
        msg.clear()
    else:
        for i in range(min(len(msg), 40)):
            msg[i] = 0
    V.check(V.same(e, ke), "encoded document does not change with the message")
    for k in list(doc):
        doc[k] = "x"
    V.check(V.same(e, ke), "encoded document does not change with the decoded one")
    for k in list(e):
        e[k]["data"] = b"x"
        e[k]["len"] = b"y"
        rest = {j: v for j, v in e.items() if j != k}
        V.check(V.same(rest, {j: ke[j] for j in rest}), "pieces of different fields are different objects")
        e[k] = dict(ke[k])
    ok2, r2 = attempt(V.iso.encode, dict(before), sp)
    V.check(ok2 and V.same(bytes(r2[0]), km) and V.same(r2[1], ke), "results of a second call are not those modified before")


def pp_pure(V, cfg):
    sp = spec_of(cfg)
    doc = document(V, cfg, sp)
    if cfg.get("encoded"):
        doc = {k: {"len": V.bytes("l" + k, 1), "data": V.bytes("d" + k, cfg["encoded"])} for k in doc}
    if cfg.get("partial"):
        # pieces put together by hand, which lack an entry
        for k in doc:
            doc[k].pop(cfg["partial"])
    keep, kd = _deep(sp), V.snapshot(doc)
    order = list(doc)
    out = V.stream()
    ok, r = attempt(V.iso.pp, doc, sp, stream=out, line_width=V.int("lw", *cfg.get("lw", (0, 90))), desc_width=V.int("dw", *cfg.get("dw", (0, 40))))
    if not cfg.get("partial"):
        V.check(ok and r is None, "pp prints and returns nothing")
    V.check(V.same(doc, kd) and list(doc) == order, "pp leaves the document alone")
    V.check(sp == keep, "pp leaves the specification alone")
    V.observe("out", "".join(out.parts))


# ------------------------------------------------------------------- C17
def _call(V, what, arg, sp):
    if what == "dec":
        ok, r = attempt(V.iso.decode, arg, sp)
        if ok:
            return ("ok", V.snapshot(r[0]), V.snapshot(r[1]))
        if isinstance(r, V.iso.DecodeError):
            return ("no", r.msg, r.field, r.pos, V.snapshot(r.doc_dec), V.snapshot(r.doc_enc))
        return ("exc", type(r).__name__)
    if what == "enc":
        doc = dict(arg)
        ok, r = attempt(V.iso.encode, doc, sp)
        if ok:
            return ("ok", bytes(r[0]), V.snapshot(r[1]), V.snapshot(doc))
        if isinstance(r, V.iso.EncodeError):
            return ("no", r.msg, r.field, V.snapshot(r.doc_enc), V.snapshot(doc))
        return ("exc", type(r).__name__)
    out = V.stream()
    if what == "print":
        with contextlib.redirect_stdout(out):
            ok, r = attempt(V.iso.pp, arg, sp)
    else:
        ok, r = attempt(V.iso.pp, arg, sp, 6, out, 24)
    return ("ok" if ok else "exc", "".join(out.parts))


def _against_ref(V, what, arg, sp, got):
    if what == "dec":
        w = ref.decode(bytes(arg), sp)
        V.check((got[0] == "ok") == w.ok, "same verdict whatever was done before")
        if w.ok and got[0] == "ok":
            V.check(V.same(got[1], w.doc) and V.same(got[2], w.enc), "same result whatever was done before")
        if not w.ok and got[0] == "no":
            V.check(V.same(got[2], w.rej.field) and V.same(got[3], w.rej.pos), "same error whatever was done before")
    elif what == "enc":
        w = ref.encode(arg, sp)
        V.check((got[0] == "ok") == w.ok, "same verdict whatever was done before")
        if w.ok and got[0] == "ok":
            V.check(V.same(got[1], w.msg) and V.same(got[2], w.enc), "same result whatever was done before")
        if not w.ok and got[0] == "no":
            V.check(V.same(got[2], w.rej.field), "same error whatever was done before")
    else:
        dw, lw = (30, 80) if what == "print" else (6, 24)
        want = "".join([field_text(k, arg[k], sp, dw, lw) for k in print_order(arg, sp)])
        V.check(got[0] == "ok" and V.same(got[1], want), "same text whatever was done before")


class _Sub:
    """V with prefixed input names"""

    def __init__(self, V, pre):
        self._v = V
        self._p = pre

    def bytes(self, n, *a):
        return self._v.bytes(self._p + n, *a)

    def text(self, n, *a):
        return self._v.text(self._p + n, *a)

    def blob(self, n, *a):
        return self._v.blob(self._p + n, *a)

    def longtext(self, n, *a):
        return self._v.longtext(self._p + n, *a)


def _arg(V, step, sp, i):
    s = _Sub(V, "s%d_" % i)
    if step["op"] == "dec":
        return message(s, step, sp)
    doc = document(s, step, sp)
    if step.get("pieces"):
        doc = {k: {"len": s.bytes("l" + k, 1, [[39, 39], [48, 49], [200, 200]]), "data": s.bytes("d" + k, step["pieces"], [[34, 34], [65, 66], [0, 1]])} for k in doc}
    return doc


def history(V, cfg):
    """cfg["steps"]: a sequence of calls; each must give what it gives in
    isolation (judged by ref), and the first ones repeated must give the same."""
    steps = cfg["steps"]
    got = []
    sps = []
    args = []
    for i, st in enumerate(steps):
        if st.get("same_spec") is not None:
            sp = sps[st["same_spec"]]
            for k, v in st.get("change", {}).items():
                for p, x in v.items():
                    sp[k][p] = x
        else:
            sp = make_spec(st["spec"])
        if st.get("same_arg") is None:
            arg = _arg(V, st, sp, i)
            if st.get("bytearray"):
                arg = bytearray(arg)
        else:
            arg = args[st["same_arg"]]
            # the very same object, filled anew
            for k in st.get("drop", ()):
                arg.pop(k, None)
            for k, v in st.get("put", {}).items():
                arg[k] = v
            if "fill" in st:
                arg[:] = _arg(V, dict(st, **st["fill"]), sp, i)
        sps.append(sp)
        args.append(arg)
        g = _call(V, st["op"], arg, sp)
        got.append(g)
        V.observe("r%d" % i, list(g))
        _against_ref(V, st["op"], arg, sp, g)
    for i in cfg.get("again", ()):
        V.check(V.same(_call(V, steps[i]["op"], args[i], sps[i]), got[i]), "a call repeated gives the same")


def enc_twice(V, cfg):
    """encode(doc); encode(doc): the bitmaps written by the first call do not
    influence the second"""
    sp = spec_of(cfg)
    doc = document(V, cfg, sp)
    ok, r = attempt(V.iso.encode, doc, sp)
    see_encode(V, "enc", ok, r, doc)
    after = dict(doc)
    ok2, r2 = attempt(V.iso.encode, doc, sp)
    V.check(ok == ok2, "encoding again gives the same verdict")
    if ok and ok2:
        V.check(V.same(r[0], r2[0]) and V.same(r[1], r2[1]) and V.same(doc, after), "encoding again gives the same message")
        # after removing/adding a field
        for k in cfg.get("drop", ()):
            fewer = {a: b for a, b in doc.items() if a != k}
            want = ref.encode({a: b for a, b in after.items() if a != k}, sp)
            ok3, r3 = attempt(V.iso.encode, fewer, sp)
            V.check(ok3 == want.ok, "an edited document encodes like a fresh one")
            if ok3 and want.ok:
                V.check(V.same(bytes(r3[0]), want.msg) and V.same(fewer, want.doc), "an edited document encodes like a fresh one")


def overlapped(V, cfg):
    """one call preempted by another, which runs to its end, before one of the
    statements of the package it executes; both must give what they give alone"""
    V.iso = V.stepped()
    s1, s2 = cfg["steps"]
    sp1 = make_spec(s1["spec"])
    sp2 = sp1 if s1["spec"] == s2["spec"] else make_spec(s2["spec"])
    a1, a2 = _arg(V, s1, sp1, 0), _arg(V, s2, sp2, 1)
    k = pick(V, "k", cfg["lo"], cfg["hi"])
    g1, g2 = V.preempted(k, lambda: _call(V, s1["op"], a1, sp1), lambda: _call(V, s2["op"], a2, sp2))
    V.observe("r", [list(g1)] + [list(g) for g in g2])
    if not g2:
        return
    V.reach("overlap")
    _against_ref(V, s1["op"], a1, sp1, g1)
    _against_ref(V, s2["op"], a2, sp2, g2[0])


# ------------------------------------------------------------------- C18
def dec_types(V, cfg):
    sp = spec_of(cfg)
    msg = message(V, cfg, sp)
    a = attempt(V.iso.decode, bytes(msg), sp)
    b = attempt(V.iso.decode, bytearray(msg), sp)
    see_decode(V, "dec", *a)
    V.check(a[0] == b[0], "bytes and bytearray: same verdict")
    if a[0] and b[0]:
        V.check(V.same(a[1][0], b[1][0]) and V.same(a[1][1], b[1][1]), "bytes and bytearray: same documents")
        for d, e in (a[1], b[1]):
            V.check(isinstance(d, dict) and isinstance(e, dict), "documents are dicts")
            for k in d:
                V.check(V.typename(k) == "str" and V.typename(d[k]) == "str", "decoded values are str")
            for k in e:
                V.check(V.typename(e[k]["len"]) == "bytes" and V.typename(e[k]["data"]) == "bytes", "encoded pieces are bytes")
    if cfg.get("subs"):
        c = attempt(V.iso.decode, bytes(msg), Table({k: Table(v) for k, v in sp.items()}))
        V.check(a[0] == c[0] and (not a[0] or V.same(a[1][0], c[1][0]) and V.same(a[1][1], c[1][1])), "a specification that is no dict: same result")
        for m in (bytes(msg), bytearray(msg)):
            c = attempt(V.iso.decode, V.of_subclass(m), sp)
            V.check(a[0] == c[0], "subclasses of bytes and bytearray: same verdict")
            if a[0] and c[0]:
                V.check(V.same(a[1][0], c[1][0]) and V.same(a[1][1], c[1][1]), "subclasses of bytes and bytearray: same documents")
                for k in c[1][1]:
                    V.check(V.typename(c[1][1][k]["len"]) == "bytes" and V.typename(c[1][1][k]["data"]) == "bytes", "encoded pieces are bytes")
    if not a[0] and not b[0]:
        x, y = a[1], b[1]
        V.check(V.same([x.msg, x.field, x.pos, x.doc_dec, x.doc_enc], [y.msg, y.field, y.pos, y.doc_dec, y.doc_enc]), "bytes and bytearray: same error")


class Table(collections.abc.Mapping):
    """a mapping, and no dict"""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Ready(dict):
    def __missing__(self, key):
        self[key] = "0"
        return "0"


def enc_types(V, cfg):
    sp = spec_of(cfg)
    doc = document(V, cfg, sp)
    sub = collections.OrderedDict(doc)
    given = dict(doc)
    ok, r = attempt(V.iso.encode, doc, sp)
    see_encode(V, "enc", ok, r, doc)
    ok2, r2 = attempt(V.iso.encode, sub, sp)
    V.check(ok == ok2, "dict subclass: same verdict")
    if cfg.get("subs"):
        ok5, r5 = attempt(V.iso.encode, dict(given), Table({k: Table(v) for k, v in sp.items()}))
        V.check(ok == ok5 and (not ok or V.same(r[0], r5[0]) and V.same(r[1], r5[1])), "a specification that is no dict: same message")
        own = {k: V.of_subclass(v) for k, v in given.items()}
        ok4, r4 = attempt(V.iso.encode, own, sp)
        V.check(ok == ok4 and (not ok or V.same(r[0], r4[0]) and V.same(r[1], r4[1])), "values of a subclass of str: same message")
    # one that has an answer for every key, and must not be asked
    any_ = Ready(given)
    ok3, r3 = attempt(V.iso.encode, any_, sp)
    V.check(ok == ok3 and (not ok or V.same(r[0], r3[0]) and V.same(r[1], r3[1])), "dict subclass with defaults: same message")
    V.check(set(any_) == set(doc), "dict subclass with defaults: same entries")
    if ok:
        V.check(V.typename(r[0]) == "bytearray", "encode returns a bytearray")
        for k in r[1]:
            V.check(V.typename(r[1][k]["len"]) == "bytes" and V.typename(r[1][k]["data"]) == "bytes", "encoded pieces are bytes")
        for k in doc:
            V.check(V.typename(k) == "str" and V.typename(doc[k]) == "str", "document stays str to str")
        V.check(ok2 and V.same(r[0], r2[0]) and V.same(r[1], r2[1]), "dict subclass: same message")


# not bytes or bytearray / not a dict, although what they hold would do
NOT_BYTES = [lambda m: "0200", lambda m: None, lambda m: 5, lambda m: 1.5, lambda m: {"t": "0200"}, lambda m: object, lambda m: list(m), lambda m: tuple(m),
             lambda m: m.decode("latin-1"), memoryview, lambda m: memoryview(bytearray(m)), lambda m: array.array("B", m), io.BytesIO, iter, lambda m: [m], lambda m: m.hex(), set]
NOT_DICT = [lambda d: "0200", lambda d: None, lambda d: 5, lambda d: b"0200", lambda d: bytearray(b"0200"), lambda d: (1, 2), lambda d: object, lambda d: list(d.items()),
            lambda d: tuple(d.items()), types.MappingProxyType, collections.UserDict, collections.ChainMap, lambda d: d.items(), lambda d: iter(d.items()), lambda d: [d], set, list, lambda d: d["t"]]


def guards(V, cfg):
    sp = spec_of(cfg)
    i = V.choice("bad", range(len(NOT_BYTES) + 2))
    if i < len(NOT_BYTES):
        x = NOT_BYTES[i](b"0200" + bytes(8 if sp["p"]["data_enc"] == "b" else b"0" * 16))
    elif i == len(NOT_BYTES):
        x = V.text("txt", 4)
    else:
        x = [V.int("n", 0, 255)]
    ok, r = attempt(V.iso.decode, x, sp)
    V.check((not ok) and isinstance(r, TypeError), "decode: TypeError for data that is not bytes")
    j = V.choice("bad2", range(len(NOT_DICT) + 2))
    if j < len(NOT_DICT):
        y = NOT_DICT[j]({"t": "0200"})
    elif j == len(NOT_DICT):
        y = V.text("txt2", 4)
    else:
        y = V.bytes("raw", 4)
    ok, r = attempt(V.iso.encode, y, sp)
    V.check((not ok) and isinstance(r, TypeError), "encode: TypeError for a document that is not a dict")
