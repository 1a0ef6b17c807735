"""Preemption points.

`insert` puts a call before every statement of every function of the package
under test, in the source as it stands: for symbolic execution before the rest
of the transformation, for the replay as the only one.  The call does nothing
unless `preempted` has armed it.
"""
import ast
import builtins
import os
import sys

ARMED = [None]


def step():
    f = ARMED[0]
    if f is not None:
        f()


def preempted(k, a, b):
    """a(), with b() run from start to end just before the k-th statement
    (from 0) a executes in the package -> (a's result, [b's result] or [] when
    a has fewer statements)"""
    n = [0]
    out = []

    def f():
        n[0] += 1
        if n[0] - 1 == k:
            ARMED[0] = None
            out.append(b())

    ARMED[0] = f
    try:
        r = a()
    finally:
        ARMED[0] = None
    return r, out


class _Insert(ast.NodeTransformer):
    def _block(self, stmts, doc=False):
        out = []
        for i, s in enumerate(stmts):
            s = self.visit(s)
            isdoc = doc and i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)
            if self.depth and not isdoc and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal)):
                out.append(ast.copy_location(ast.Expr(ast.Call(ast.Name("__sx_step__", ast.Load()), [], [])), s))
            out.append(s)
        return out

    depth = 0

    def generic_visit(self, node):
        func = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef))
        kept = self.depth
        if func:
            self.depth = 1
        elif isinstance(node, ast.ClassDef):
            self.depth = 0
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self._block(v, doc=f == "body" and func))
        for f in ("handlers", "cases"):
            for x in getattr(node, f, ()):
                self.visit(x)
        self.depth = kept
        return node


def insert(tree):
    tree = _Insert().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


_CODE = {}


def load(root, pkg="iso8583"):
    """a private copy of the package, with the points and nothing else"""
    import importlib.machinery
    import importlib.util

    class Loader(importlib.machinery.SourceFileLoader):
        def get_code(self, fullname):
            if self.path not in _CODE:
                with open(self.path, encoding="utf-8") as f:
                    _CODE[self.path] = compile(insert(ast.parse(f.read(), self.path)), self.path, "exec")
            return _CODE[self.path]

    class Finder:
        def find_spec(self, name, path=None, target=None):
            if name.partition(".")[0] != pkg:
                return None
            p = os.path.join(root, *name.split("."))
            if os.path.isfile(os.path.join(p, "__init__.py")):
                f = os.path.join(p, "__init__.py")
                return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[p])
            if os.path.isfile(p + ".py"):
                return importlib.util.spec_from_file_location(name, p + ".py", loader=Loader(name, p + ".py"))
            return None

    def ours():
        return [n for n in sys.modules if n.partition(".")[0] == pkg]

    builtins.__sx_step__ = step
    saved = {n: sys.modules.pop(n) for n in ours()}
    finder = Finder()
    sys.meta_path.insert(0, finder)
    try:
        importlib.import_module(pkg + ".specs")
        return sys.modules[pkg]
    finally:
        sys.meta_path.remove(finder)
        for n in ours():
            del sys.modules[n]
        sys.modules.update(saved)
