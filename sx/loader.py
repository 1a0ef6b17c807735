"""Loads the code under test: the AST of its current source is instrumented so
that calls, subscripts, membership tests, formatting and `%` go through
sx.models; everything else is executed by CPython itself."""
import ast
import builtins
import os
import sys
import types

from . import steps
from .engine import eng, PathCut, SxControl, EngineFault

REPO = os.environ.get("VP_REPO", "/repo")
PKG = "iso8583"

_SKIP_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir"}


def _n(name):
    return ast.Name(id=name, ctx=ast.Load())


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    # -- scopes
    def _func(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        body = [self.visit(s) for s in node.body]
        body = self._flat(body)
        k = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            k = 1
        enter = ast.Expr(ast.Call(_n("__sx_enter__"), [ast.Constant(self.mod + ":" + ".".join(self.stack))], []))
        body.insert(k, enter)
        node.body = body
        self.stack.pop()
        return node

    @staticmethod
    def _flat(stmts):
        out = []
        for s in stmts:
            if isinstance(s, list):
                out += s
            elif s is not None:
                out.append(s)
        return out

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.body = self._flat([self.visit(s) for s in node.body])
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    # -- statements
    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(ast.Call(_n("__sx_loop__"), [], [])))
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(ast.Call(_n("__sx_guard__"), [], [])))
        return node

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and (node.func.id in _SKIP_CALLS or node.func.id.startswith("__sx")):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(_n("__sx_call__"), [node.func] + node.args, node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return ast.copy_location(ast.Call(_n("__sx_in__"), [node.left, node.comparators[0]], []), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.Call(_n("__sx_notin__"), [node.left, node.comparators[0]], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            k = node.slice
            if isinstance(k, ast.Slice):
                k = ast.Call(_n("__sx_slice__"), [x if x is not None else ast.Constant(None) for x in (k.lower, k.upper, k.step)], [])
            elif any(isinstance(x, ast.Slice) for x in ast.walk(k)):
                return node
            return ast.copy_location(ast.Call(_n("__sx_getitem__"), [node.value, k], []), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(_n("__sx_mod__"), [node.left, node.right], []), node)
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                conv = ast.Constant(None if v.conversion == -1 else chr(v.conversion))
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                args.append(ast.Tuple([val, conv, spec], ast.Load()))
            else:
                args.append(v)
        if all(isinstance(a, ast.Constant) for a in args):
            return ast.copy_location(ast.Constant("".join(a.value for a in args)), node)
        return ast.copy_location(ast.Call(_n("__sx_fstr__"), args, []), node)

    def visit_Dict(self, node):
        empty = not node.keys
        plain = all(isinstance(k, ast.Constant) for k in node.keys)
        self.generic_visit(node)
        if empty or (self.stack and not plain):
            items = [ast.Tuple([v] if k is None else [k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
            return ast.copy_location(ast.Call(_n("__sx_dict__"), items, []), node)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.stack:
            return node
        g = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(ast.Call(_n("__sx_dictcomp__"), [g], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if not self.stack:
            return node
        return ast.copy_location(ast.Call(_n("__sx_set__"), [ast.GeneratorExp(node.elt, node.generators)], []), node)

    def visit_Set(self, node):
        plain = all(isinstance(k, ast.Constant) for k in node.elts)
        self.generic_visit(node)
        if plain or not self.stack:
            return node
        return ast.copy_location(ast.Call(_n("__sx_set__"), [ast.List(node.elts, ast.Load())], []), node)

    def visit_MatchValue(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node


def _enter(q):
    eng().functions.add(q)


def _loop():
    e = eng()
    e.loop_iters += 1
    if e.loop_iters > 20000:
        e.note_incomplete("while-loop unwinding bound")
        raise PathCut("loop")


def _guard():
    x = sys.exc_info()[1]
    if isinstance(x, SxControl):
        raise x
    if type(x).__module__.startswith("z3") or getattr(x, "_sx_fault", False):
        raise EngineFault("engine exception reached code under test: %r" % (x,))


def helpers():
    from . import models as M

    return {
        "__sx_call__": M.sx_call,
        "__sx_in__": lambda x, c: M.sx_contains(c, x),
        "__sx_notin__": lambda x, c: M.sx_not_contains(c, x),
        "__sx_getitem__": M.sx_getitem,
        "__sx_slice__": slice,
        "__sx_mod__": M.sx_mod,
        "__sx_fstr__": M.sx_fstr,
        "__sx_dict__": M.mk_dict,
        "__sx_dictcomp__": M.mk_dictcomp,
        "__sx_set__": M.m_set,
        "__sx_enter__": _enter,
        "__sx_loop__": _loop,
        "__sx_guard__": _guard,
        "__sx_step__": steps.step,
        "__sx_instrumented__": True,
    }


_CODE = {}


def compile_instrumented(path, modname):
    key = (path, modname)
    if key not in _CODE:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        if modname.partition(".")[0] == PKG:
            tree = steps.insert(tree)
        tree = Instrument(modname).visit(tree)
        ast.fix_missing_locations(tree)
        _CODE[key] = compile(tree, path, "exec")
    return _CODE[key]


def find(modname, root):
    p = os.path.join(root, *modname.split("."))
    if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
        return os.path.join(p, "__init__.py"), True
    if os.path.exists(p + ".py"):
        return p + ".py", False
    return None, False


# pure Python modules that are interpreted like the code under test
STDLIB = {"base64", "textwrap"}


class World:
    """A private set of modules of the package under test."""

    def __init__(self, root=None, instrument=True, pkg=PKG):
        self.root = root or REPO
        self.instrument = instrument
        self.pkg = pkg
        self.modules = {}
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import
        self.helpers = helpers() if instrument else {}

    def _ours(self, name):
        return name == self.pkg or name.startswith(self.pkg + ".")

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = find(name, os.path.dirname(os.__file__) if name in STDLIB else self.root)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else parent
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__.update(self.helpers)
        self.modules[name] = m
        if self.instrument:
            code = compile_instrumented(path, name)
        else:
            key = (path, None)
            if key not in _CODE:
                with open(path, encoding="utf-8") as f:
                    _CODE[key] = compile(f.read(), path, "exec")
            code = _CODE[key]
        exec(code, m.__dict__)
        if parent:
            setattr(self.modules[parent], name.rpartition(".")[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            full = base + ("." + name if name else "")
        else:
            full = name
        if self.instrument and not level and full in STDLIB:
            return self.load(full)
        if not self._ours(full):
            return builtins.__import__(name, globals, locals, fromlist, level)
        m = self.load(full)
        if fromlist:
            for x in fromlist:
                if x != "*" and not hasattr(m, x) and find(full + "." + x, self.root)[0]:
                    self.load(full + "." + x)
            if "*" in fromlist:
                pass
            return m
        if level:
            return m
        return self.load(full.split(".")[0])


def fresh_world(instrument=True):
    """Fresh modules; sys.modules is only consulted for other packages."""
    w = World(instrument=instrument)
    w.load(PKG)
    for sub in ("specs",):
        w.load(PKG + "." + sub)
    return w
